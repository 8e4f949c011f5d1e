#!/bin/bash
# plant.sh ID PROP "needs" "what it breaks"
# Takes the change made in the scratch copy /tmp/plant and the demo program in
# /tmp/plant-demo/main.go; confirms that it compiles, passes the repository's
# tests, that the demo tells it apart, then stores it under seeded/ID and runs
# the property's check on it.
set -u
ID=$1 PROP=$2 NEEDS=$3 WHAT=$4
V=$(cd "$(dirname "$0")/.." && pwd)
S=$V/seeded/$ID
mkdir -p "$S"
git -C /tmp/plant diff > "$S/patch.diff"
[ -s "$S/patch.diff" ] || { echo "no change"; exit 1; }
cp /tmp/plant-demo/main.go "$S/main.go"
cat > "$S/demo.sh" <<'D'
#!/bin/bash
# runs main.go as a program inside the module in the current directory
here=$(cd "$(dirname "$0")" && pwd)
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go"}}' "$PWD" "$here" > "$D/ov.json"
go build -buildvcs=false -overlay "$D/ov.json" -o "$D/demo" ./zzdemo || exit 2
cd "$D" && ./demo
D
chmod +x "$S/demo.sh"
python3 - "$S/meta.json" "$PROP" "$NEEDS" "$WHAT" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],'w'),indent=1)
P
cd /tmp/plant || exit 1
T=$(go test ./... 2>&1 | grep -E "^(FAIL|---)|\[FAIL\]|build failed|^#" | head -8)
if [ -n "$T" ]; then echo "TESTS FAIL: $T"; git -C /tmp/plant checkout -q -- .; rm -rf "$S"; exit 1; fi
(cd /repo && bash "$S/demo.sh" >/tmp/plant-demo/clean.out 2>&1); a=$?
(bash "$S/demo.sh" >/tmp/plant-demo/bug.out 2>&1); b=$?
echo "demo: clean=$a bug=$b"; [ $a = 0 ] || cat /tmp/plant-demo/clean.out; [ $b != 0 ] || cat /tmp/plant-demo/bug.out
tail -3 /tmp/plant-demo/bug.out
# the check runs in a copy against the scratch copy, so that /repo stays as it is
C=/tmp/plant-check
mkdir -p $C; find $C -mindepth 1 -delete; cp -a "$V/mc" "$V/run.sh" "$V/known_findings.txt" $C/
sed -i "s#=> /repo#=> /tmp/plant#" $C/mc/go.mod
(cd $C && timeout 900 ./run.sh "$PROP" quick > /tmp/plant-demo/check.out; echo "check exit $?"; grep -m3 -E "^case|VIOLATION" /tmp/plant-demo/check.out | cut -c1-300)
git -C /tmp/plant checkout -q -- .
