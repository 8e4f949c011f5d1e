#!/usr/bin/env python3
"""mut.py FILE OLD NEW: replaces exactly one occurrence in /tmp/plant/FILE"""
import sys
f='/tmp/plant/'+sys.argv[1]; s=open(f).read()
o=sys.argv[2].encode().decode('unicode_escape') if '\\n' in sys.argv[2] else sys.argv[2]
n=sys.argv[3].encode().decode('unicode_escape') if '\\n' in sys.argv[3] else sys.argv[3]
assert s.count(o)==1,(s.count(o),o)
open(f,'w').write(s.replace(o,n))
