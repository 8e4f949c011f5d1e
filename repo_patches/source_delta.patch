From 211387d6bd8dab8b052a4cd9532b5b29f486270e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:35 +0000
Subject: [PATCH 001/138] fix: TakeUnlessFlag argument must not consume a token
 that looks like a flag

---
 arg.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arg.go b/arg.go
index 6e2bf70..0a6f0d1 100644
--- a/arg.go
+++ b/arg.go
@@ -547,10 +547,13 @@ func (d *discreteCounter) Usage() (optional, multi bool) {
 	return false, d.count > 1
 }
 
-func (d *defaultCounter) Take(_ string, _ bool) error {
+func (d *defaultCounter) Take(arg string, possibleFlag bool) error {
 	if d.seen {
 		return EndOfArguments
 	}
+	if !d.requireSeen && allowFlag(arg, possibleFlag) {
+		return argCannotUseFlag
+	}
 	d.seen = true
 	return nil
 }
-- 
2.43.0


From ab19970462d4d780d77211ea89245219f46f1c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:20 +0000
Subject: [PATCH 002/138] fix: argument taking all remaining tokens must also
 take --

---
 set.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index daf8bb5..59dc446 100644
--- a/set.go
+++ b/set.go
@@ -222,7 +222,7 @@ Parsing:
 		// end of options?
 		if arg == "" || arg == "-" || arg[0] != '-' || state == argsOnly {
 			for {
-				if arg == "--" {
+				if arg == "--" && !positionalOpts.takesRemaining() {
 					state = argsOnly
 					if err = positionalOpts.Done(); err != nil {
 						return
@@ -634,6 +634,13 @@ func (a *argBinding) current() ArgCounter {
 	return nil
 }
 
+// takesRemaining is true when the current arg takes all the remaining tokens,
+// which includes any that look like flags or the end of options
+func (a *argBinding) takesRemaining() bool {
+	v, ok := a.current().(*varArgsCounter)
+	return ok && !v.stopOnFlags
+}
+
 func (a *argBinding) Done() error {
 	if c := a.current(); c != nil {
 		return c.Done()
-- 
2.43.0


From 056701dde42e60fd8c00682b5e9999ca2b5e6e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 003/138] fix: run After of a persistent flag in the command
 that defines it when a sub-command executed

---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index ac1809e..90f0874 100644
--- a/context.go
+++ b/context.go
@@ -1564,7 +1564,7 @@ func (c *Context) setTiming(t Timing) *Context {
 func triggerOptionsHO(t Timing, on func(*Context) error) ActionFunc {
 	return func(ctx *Context) error {
 		for _, f := range ctx.Flags() {
-			if f.internalFlags().persistent() {
+			if f.internalFlags().persistent() && !slices.Contains(ctx.LocalFlags(), f) {
 				// This is a persistent flag that was cloned into the flag set of the current
 				// command; don't process it again
 				continue
-- 
2.43.0


From 30ec9714f73799a96cf31a15f4b48b77bde88a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:54 +0000
Subject: [PATCH 004/138] fix: run the action of a persistent flag once rather
 than again in each sub-command

---
 context.go | 15 ++++++++++++++-
 option.go  |  5 +++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 90f0874..406ff00 100644
--- a/context.go
+++ b/context.go
@@ -2133,7 +2133,19 @@ func executeUserPipeline(at Timing) actionFunc {
 func triggerOptions(ctx *Context) error {
 	// Invoke the Before action on all flags and args, but only the actual
 	// Action when the flag or arg was set
-	for _, f := range ctx.Flags() {
+	for _, f := range ctx.PersistentFlags() {
+		if f.internalFlags().actionTriggered() && len(ctx.internal.Bindings(f.Name)) == 0 {
+			// The flag was triggered in the context of an ancestor, and it was not used
+			// again in the current command
+			continue
+		}
+		err := triggerOption(ctx, f)
+		if err != nil {
+			return err
+		}
+	}
+
+	for _, f := range ctx.LocalFlags() {
 		err := triggerOption(ctx, f)
 		if err != nil {
 			return err
@@ -2151,6 +2163,7 @@ func triggerOptions(ctx *Context) error {
 
 func triggerOption(ctx *Context, f option) error {
 	if f.Seen() || hasSeenImplied(f, ctx.target) {
+		f.setInternalFlags(internalFlagActionTriggered, true)
 		return ctx.newChild(f).executeSelf()
 	}
 	return nil
diff --git a/option.go b/option.go
index f9fa999..fdbd62b 100644
--- a/option.go
+++ b/option.go
@@ -222,6 +222,7 @@ const (
 	internalFlagDisableAutoVisibility
 	internalFlagVisibleExplicitlyRequested
 	internalFlagTriggerRequested
+	internalFlagActionTriggered // true once the action of the flag or arg was triggered
 )
 
 var (
@@ -429,6 +430,10 @@ func (f internalFlags) triggerRequested() bool {
 	return f&internalFlagTriggerRequested == internalFlagTriggerRequested
 }
 
+func (f internalFlags) actionTriggered() bool {
+	return f&internalFlagActionTriggered == internalFlagActionTriggered
+}
+
 func (f internalFlags) toRaw() RawParseFlag {
 	var flags RawParseFlag
 	if f.disallowFlagsAfterArgs() {
-- 
2.43.0


From b0cbe3b57dbddd2fa2b477deef5fd32363ef5f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:07 +0000
Subject: [PATCH 005/138] fix: recovered panic text must not be used as a
 format string

---
 action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/action.go b/action.go
index dfb42d6..14e19fb 100644
--- a/action.go
+++ b/action.go
@@ -524,7 +524,7 @@ func failWithContextError(c *Context) error {
 	if r, ok := c.LookupData(panicDataKey); ok {
 		rvr := r.(*panicData)
 		fmt.Fprint(c.Stderr, rvr.stack)
-		return c.internalError(fmt.Errorf(rvr.recovered))
+		return c.internalError(errors.New(rvr.recovered))
 	}
 	return nil
 }
-- 
2.43.0


From f209e12d2966f6e6553d0c1c734d558107bcaf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:28 +0000
Subject: [PATCH 006/138] fix: split lists containing escapes without
 duplicating or dropping parts

---
 internal/support/support.go | 29 ++++++++++++++---------------
 value.go                    |  3 +++
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/internal/support/support.go b/internal/support/support.go
index 732845d..1d192aa 100644
--- a/internal/support/support.go
+++ b/internal/support/support.go
@@ -2,7 +2,6 @@ package support
 
 import (
 	"os"
-	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -16,6 +15,9 @@ func ParseMap(values []string) map[string]string {
 	var key, value string
 	for _, kvp := range values {
 		k := SplitList(kvp, "=", 2)
+		for i := range k {
+			k[i] = strings.ReplaceAll(k[i], "\\,", ",")
+		}
 		switch len(k) {
 		case 2:
 			key = k[0]
@@ -46,26 +48,23 @@ func SplitList(s, sep string, n int) []string {
 	if s == "" {
 		return nil
 	}
-	if strings.Contains(s, "\\") {
-		regex := regexp.MustCompile(`(^|[^\\])` + regexp.QuoteMeta(sep))
-		matches := regex.FindAllStringSubmatchIndex(s, n)
-
-		if len(matches) == 0 {
-			return []string{s}
-		}
-
+	if strings.Contains(s, "\\") && n != 0 {
 		unquote := func(x string) string {
-			return strings.ReplaceAll(x, "\\", "")
+			return strings.ReplaceAll(x, "\\"+sep, sep)
 		}
 		res := make([]string, 0)
 
 		var last int
-		for _, match := range matches {
-			res = append(res, unquote(s[last:match[1]-1]))
-			res = append(res, unquote(s[match[2]+1+1:]))
-			last = match[2] + 1 + 1
+		for i := 0; i+len(sep) <= len(s) && (n < 0 || len(res) < n-1); {
+			if !strings.HasPrefix(s[i:], sep) || (i > 0 && s[i-1] == '\\') {
+				i++
+				continue
+			}
+			res = append(res, unquote(s[last:i]))
+			i += len(sep)
+			last = i
 		}
-		return res
+		return append(res, unquote(s[last:]))
 	}
 	return strings.SplitN(s, sep, n)
 }
diff --git a/value.go b/value.go
index 72b88f8..b047683 100644
--- a/value.go
+++ b/value.go
@@ -768,6 +768,9 @@ func parseBool(value string) (bool, error) {
 
 func splitValuePair(arg string) (k, v string, hasValue bool) {
 	a := SplitList(arg, "=", 2)
+	for i := range a {
+		a[i] = strings.ReplaceAll(a[i], "\\,", ",")
+	}
 	if len(a) == 1 {
 		return a[0], "true", false
 	}
-- 
2.43.0


From 370a69d85d5b74cba143fc31258d4f8e637ab2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:08 +0000
Subject: [PATCH 007/138] fix: enforce the count of every positional argument,
 not only of the last one reached

---
 set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/set.go b/set.go
index 59dc446..05bc1ed 100644
--- a/set.go
+++ b/set.go
@@ -374,6 +374,9 @@ Parsing:
 	}
 
 	err = positionalOpts.Done()
+	for err == nil && positionalOpts.next() {
+		err = positionalOpts.Done()
+	}
 	return
 }
 
-- 
2.43.0


From 8f22419c7f21863a56013696b3c4b30e12ef56d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:08 +0000
Subject: [PATCH 008/138] fix: argument with an exact count must not consume
 tokens that look like flags

---
 arg.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arg.go b/arg.go
index 0a6f0d1..1bd63d0 100644
--- a/arg.go
+++ b/arg.go
@@ -528,10 +528,13 @@ func (o *optionContext) lookupValue(name string) (any, bool) {
 	return nil, false
 }
 
-func (d *discreteCounter) Take(_ string, _ bool) error {
+func (d *discreteCounter) Take(arg string, possibleFlag bool) error {
 	if d.count == 0 {
 		return EndOfArguments
 	}
+	if allowFlag(arg, possibleFlag) {
+		return argCannotUseFlag
+	}
 	d.count--
 	return nil
 }
-- 
2.43.0


From 4ade709f8d4a9fe217f2f333fe19897efc34d6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:58 +0000
Subject: [PATCH 009/138] fix: an empty name-value argument must not panic

---
 value.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/value.go b/value.go
index b047683..14d2eec 100644
--- a/value.go
+++ b/value.go
@@ -771,7 +771,10 @@ func splitValuePair(arg string) (k, v string, hasValue bool) {
 	for i := range a {
 		a[i] = strings.ReplaceAll(a[i], "\\,", ",")
 	}
-	if len(a) == 1 {
+	switch len(a) {
+	case 0:
+		return "", "true", false
+	case 1:
 		return a[0], "true", false
 	}
 	return a[0], a[1], true
-- 
2.43.0


From 5bd051d6098ba384a86556cfdd5103a96de20ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:46 +0000
Subject: [PATCH 010/138] fix: binding right-to-left must not count flags and
 their values as arguments

---
 set.go | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/set.go b/set.go
index 05bc1ed..0c6162e 100644
--- a/set.go
+++ b/set.go
@@ -26,6 +26,13 @@ type argBinding struct {
 	index  int
 }
 
+// positionalTokensBinding provides the same flags as another binding where each token
+// which is not a flag (or its value) is collected as a positional
+type positionalTokensBinding struct {
+	Binding
+	count int
+}
+
 type argList []string
 
 type argCountError int
@@ -68,6 +75,8 @@ const (
 	EndOfArguments
 )
 
+const positionalTokens = "<>"
+
 const (
 	flagsOrArgs = parserState(iota)
 	argsOnly
@@ -174,8 +183,8 @@ func RawParse(arguments []string, b Binding, flags RawParseFlag) (bindings Bindi
 
 	// When in RTL mode, identify the first argument to actually fill by
 	// counting the number of arguments required by arguments right-to-left.
-	count := len(arguments)
 	if flags.rightToLeft() {
+		count := countPositionalTokens(arguments, b, flags)
 		skip := len(pos)
 
 		for i := len(pos) - 1; i >= 0 && i < len(pos); i-- {
@@ -191,7 +200,7 @@ func RawParse(arguments []string, b Binding, flags RawParseFlag) (bindings Bindi
 				count--
 			}
 			skip--
-			if skip == 0 || count <= 1 {
+			if skip == 0 || count <= 0 {
 				break
 			}
 		}
@@ -380,6 +389,34 @@ Parsing:
 	return
 }
 
+// countPositionalTokens counts the tokens which are available to positional args,
+// that is, those which are not flags nor the values of flags
+func countPositionalTokens(arguments []string, b Binding, flags RawParseFlag) int {
+	tokens, err := RawParse(arguments, &positionalTokensBinding{b, len(arguments)}, flags&^RawRTL)
+	if err != nil {
+		if flags.skipProgramName() {
+			return len(arguments) - 1
+		}
+		return len(arguments)
+	}
+	return len(tokens[positionalTokens])
+}
+
+func (p *positionalTokensBinding) PositionalArgNames() []string {
+	names := make([]string, p.count)
+	for i := range names {
+		names[i] = positionalTokens
+	}
+	return names
+}
+
+func (p *positionalTokensBinding) LookupOption(name string) (TransformFunc, ArgCounter, BindingState, bool) {
+	if name == positionalTokens {
+		return nil, ArgCount(TakeExceptForFlags), nil, true
+	}
+	return p.Binding.LookupOption(name)
+}
+
 func (s *set) parse(args argList, flags RawParseFlag) error {
 	err := s.parseBindings(args, flags)
 	if err != nil {
-- 
2.43.0


From 16e96532228350535ccadc2ebe89b5b897823292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 011/138] fix: enforce the count of every positional argument
 when there are no tokens

---
 set.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/set.go b/set.go
index 0c6162e..7059817 100644
--- a/set.go
+++ b/set.go
@@ -174,7 +174,7 @@ func RawParse(arguments []string, b Binding, flags RawParseFlag) (bindings Bindi
 	positionalOpts := newArgBinding(b)
 
 	if args.empty() {
-		err = positionalOpts.Done()
+		err = positionalOpts.DoneAll()
 		return
 	}
 
@@ -382,10 +382,7 @@ Parsing:
 		}
 	}
 
-	err = positionalOpts.Done()
-	for err == nil && positionalOpts.next() {
-		err = positionalOpts.Done()
-	}
+	err = positionalOpts.DoneAll()
 	return
 }
 
@@ -688,6 +685,17 @@ func (a *argBinding) Done() error {
 	return nil
 }
 
+func (a *argBinding) DoneAll() error {
+	for {
+		if err := a.Done(); err != nil {
+			return err
+		}
+		if !a.next() {
+			return nil
+		}
+	}
+}
+
 func (a *argBinding) SetArg(arg string, remainder []string, possibleFlag bool) error {
 	for {
 		t := a.current()
-- 
2.43.0


From 361a47d2f389fdce297962016159c87b5b581187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:06 +0000
Subject: [PATCH 012/138] fix: report the same error each time when several
 values are invalid

---
 set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index 7059817..11e70cc 100644
--- a/set.go
+++ b/set.go
@@ -1,6 +1,7 @@
 package cli
 
 import (
+	"sort"
 	"strings"
 )
 
@@ -535,7 +536,10 @@ func (m BindingMap) RawOccurrences(name string) []string {
 // ApplyTo uses the given binding to apply the values in the
 // map
 func (m BindingMap) ApplyTo(b Binding) error {
-	for name, v := range m {
+	names := m.BindingNames()
+	sort.Strings(names) // so that which error is reported doesn't vary
+	for _, name := range names {
+		v := m[name]
 		transform, _, value, ok := b.LookupOption(name)
 		if !ok {
 			continue
-- 
2.43.0


From 81889da8703ef768f5b55edb203c1179c09d2b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:35 +0000
Subject: [PATCH 013/138] fix: name the argument whose count is not met and
 complete after any parse error

---
 command.go |  5 ++++-
 set.go     | 11 +++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/command.go b/command.go
index 1c955f7..097c7d2 100644
--- a/command.go
+++ b/command.go
@@ -426,7 +426,10 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 	}
 
 	if cc.Err != nil {
-		name := cc.Err.(*ParseError).Name
+		var name string
+		if p, ok := cc.Err.(*ParseError); ok {
+			name = p.Name
+		}
 
 		if strings.HasPrefix(name, "-") {
 			flag, ok := cmd.Flag(name)
diff --git a/set.go b/set.go
index 11e70cc..d35e700 100644
--- a/set.go
+++ b/set.go
@@ -690,14 +690,13 @@ func (a *argBinding) Done() error {
 }
 
 func (a *argBinding) DoneAll() error {
-	for {
-		if err := a.Done(); err != nil {
-			return err
-		}
-		if !a.next() {
-			return nil
+	err := a.Done()
+	for err == nil && a.next() {
+		if err = a.Done(); err != nil {
+			err = argTakerError("<"+a.name()+">", "", err, nil)
 		}
 	}
+	return err
 }
 
 func (a *argBinding) SetArg(arg string, remainder []string, possibleFlag bool) error {
-- 
2.43.0


From 42d23764a283ea1d6f36de4ef42b92477b95fedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:51 +0000
Subject: [PATCH 014/138] fix: an unexpected solitary dash must be an error
 rather than panic

---
 set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/set.go b/set.go
index d35e700..b80ae5b 100644
--- a/set.go
+++ b/set.go
@@ -245,7 +245,7 @@ Parsing:
 				if err != nil {
 					// Not accepted as an argument, possibly a flag per usual out of
 					// order
-					if len(arg) > 0 && arg[0] == '-' && state == flagsOrArgs {
+					if allowFlag(arg, state == flagsOrArgs) {
 						break
 					}
 					if isHardArgCountErr(err) {
-- 
2.43.0


From 7ab6fe69b59582fc089d621701bb9c635d6140de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 015/138] fix: keep every occurrence of a file set and drop the
 default of a string argument that was set

---
 arg.go   | 7 ++++++-
 value.go | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/arg.go b/arg.go
index 1bd63d0..0e71f62 100644
--- a/arg.go
+++ b/arg.go
@@ -484,7 +484,12 @@ func (a *Arg) cloneZero() {
 
 func (a *Arg) nextOccur() {
 	a.count++
-	optionApplyValueConventions(a.Value, a.flags, a.count == 1)
+	if a.count == 1 {
+		// The initial value is only a default even though string args merge
+		a.reset()
+		return
+	}
+	optionApplyValueConventions(a.Value, a.flags, false)
 }
 
 func (a *Arg) reset() {
diff --git a/value.go b/value.go
index 14d2eec..8f91963 100644
--- a/value.go
+++ b/value.go
@@ -796,7 +796,7 @@ func optionApplyValueConventions(p any, flags internalFlags, firstOccur bool) {
 			switch p := p.(type) {
 			case *string:
 				*p = ""
-			case valueResetOrMerge:
+			case *NameValue:
 				p.Reset()
 			}
 		}
-- 
2.43.0


From e224a429e6de3b1c2db7743c158bf6dfcb7b30f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 016/138] fix: reject malformed byte lengths and leave values
 unchanged when the text is not valid

---
 value.go       |  9 ++++-----
 value/value.go | 15 +++++++++++----
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/value.go b/value.go
index 8f91963..5531c91 100644
--- a/value.go
+++ b/value.go
@@ -350,12 +350,11 @@ func setCore(dest any, disableSplitting bool, value string) error {
 	case Value:
 		return p.Set(value)
 	case *bool:
-		var err error
-		*p, err = parseBool(value)
-		if err != nil {
-			return err
+		v, err := parseBool(value)
+		if err == nil {
+			*p = v
 		}
-		return nil
+		return err
 	case *string:
 		s := *p
 		if len(s) > 0 {
diff --git a/value/value.go b/value/value.go
index d2ef4ea..207e084 100644
--- a/value/value.go
+++ b/value/value.go
@@ -42,7 +42,7 @@ func JSON(v any) flag.Getter {
 }
 
 var (
-	byteLengthPat = regexp.MustCompile(`([0-9.]+)\s*([kKMGTPEZYRQ]i?)?B`)
+	byteLengthPat = regexp.MustCompile(`^([0-9.]+)\s*([kKMGTPEZYRQ]i?)?B$`)
 	magnitude     = map[string]int{
 		"":  0,
 		"k": 1,
@@ -74,7 +74,10 @@ func ParseByteLength(s string) (int, error) {
 		return strconv.Atoi(string(sub[1]))
 	}
 
-	num, _ := strconv.ParseFloat(string(sub[1]), 64)
+	num, err := strconv.ParseFloat(string(sub[1]), 64)
+	if err != nil {
+		return -1, err
+	}
 	var base float64 = 1000
 	if strings.HasSuffix(string(sub[2]), "i") {
 		base = 1024
@@ -94,7 +97,9 @@ func (b *ByteLength) UnmarshalText(data []byte) error {
 
 func (h *Octal) UnmarshalText(d []byte) error {
 	s, err := strconv.ParseInt(strings.TrimPrefix(string(d), "0o"), 8, 64)
-	*h = Octal(s)
+	if err == nil {
+		*h = Octal(s)
+	}
 	return formatStrconvError(err, string(d))
 }
 
@@ -104,7 +109,9 @@ func (h Octal) String() string {
 
 func (h *Hex) UnmarshalText(d []byte) error {
 	s, err := strconv.ParseInt(strings.TrimPrefix(string(d), "0x"), 16, 64)
-	*h = Hex(s)
+	if err == nil {
+		*h = Hex(s)
+	}
 	return formatStrconvError(err, string(d))
 }
 
-- 
2.43.0


From d4dcf8ac8fadedf25391450577b4337bccef33e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:03 +0000
Subject: [PATCH 017/138] fix: a flag must not use up an optional argument that
 has not been matched yet

---
 arg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arg.go b/arg.go
index 0e71f62..e38bbf5 100644
--- a/arg.go
+++ b/arg.go
@@ -600,6 +600,9 @@ func (o *matchesArgsCounter) Take(arg string, possibleFlag bool) error {
 		o.count++
 		return nil
 	}
+	if o.count < o.max && allowFlag(arg, possibleFlag) {
+		return argCannotUseFlag
+	}
 	o.count++
 	return EndOfArguments
 }
-- 
2.43.0


From 6630c260e0381ee55fc42e001a22edfe4516e42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:40 +0000
Subject: [PATCH 018/138] fix: a value set implicitly replaces the initial
 value unless merging

---
 context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/context.go b/context.go
index 406ff00..94cc094 100644
--- a/context.go
+++ b/context.go
@@ -921,6 +921,9 @@ func (c *Context) SetValue(arg any) error {
 		}
 
 		c.target.setInternalFlags(internalFlagSeenImplied, true)
+
+		// As with an explicit value, the initial value is only a default
+		c.target.(option).reset()
 	}
 	return c.target.(option).Set(arg)
 }
-- 
2.43.0


From a05a6da2a72d0f83dbb434d156b8c6a018823657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:45 +0000
Subject: [PATCH 019/138] fix: FromFilePath must use the file system of the app
 it runs in

---
 action.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/action.go b/action.go
index 14e19fb..4d37378 100644
--- a/action.go
+++ b/action.go
@@ -1339,6 +1339,7 @@ func flagScreamingSnakeCase(o option) string {
 // Alternatively, you can set the Flag or Arg field FilePath.
 func FromFilePath(f fs.FS, filePath string) Action {
 	return Implicitly(ActionFunc(func(c *Context) error {
+		f := f // the action can be shared between apps
 		if f == nil {
 			f = c.actualFS()
 		}
-- 
2.43.0


From b2d1722775e412a4733267633a5901cd55c9647e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:52 +0000
Subject: [PATCH 020/138] fix: a path pattern must not match a path that is
 shorter

---
 context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/context.go b/context.go
index 94cc094..1247f98 100644
--- a/context.go
+++ b/context.go
@@ -1486,6 +1486,9 @@ func (cp contextPathPattern) Match(c ContextPath) bool {
 	if len(cp.parts) == 0 {
 		return true
 	}
+	if len(cp.parts) > len(c) {
+		return false
+	}
 	for i, j := len(cp.parts)-1, len(c)-1; i >= 0 && j >= 0; i, j = i-1, j-1 {
 		if !matchField(cp.parts[i], c[j]) {
 			return false
-- 
2.43.0


From ad337565518144312e0857321846dbf1c2d0bb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 021/138] fix: EachOccurrence must leave the value and
 occurrences of the option as they are

---
 arg.go    |  6 ++++--
 flag.go   |  8 +++++---
 option.go | 15 ++++++++-------
 3 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/arg.go b/arg.go
index e38bbf5..4927400 100644
--- a/arg.go
+++ b/arg.go
@@ -478,8 +478,10 @@ func (a *Arg) completion() Completion {
 	return nil
 }
 
-func (a *Arg) cloneZero() {
-	a.Value = valueCloneZero(a.Value)
+func (a *Arg) cloneZero() option {
+	res := *a
+	res.Value = valueCloneZero(a.Value)
+	return &res
 }
 
 func (a *Arg) nextOccur() {
diff --git a/flag.go b/flag.go
index ea4a266..b61c931 100644
--- a/flag.go
+++ b/flag.go
@@ -176,7 +176,7 @@ type option interface {
 	envVars() []string
 	filePath() string
 	setTransform(fn TransformFunc)
-	cloneZero()
+	cloneZero() option
 	nextOccur()
 }
 
@@ -350,8 +350,10 @@ func (f *Flag) completion() Completion {
 	return nil
 }
 
-func (f *Flag) cloneZero() {
-	f.Value = valueCloneZero(f.Value)
+func (f *Flag) cloneZero() option {
+	res := *f
+	res.Value = valueCloneZero(f.Value)
+	return &res
 }
 
 func (f *Flag) reset() {
diff --git a/option.go b/option.go
index fdbd62b..b8fd3a9 100644
--- a/option.go
+++ b/option.go
@@ -568,28 +568,29 @@ func eachOccurrenceOpt(c1 *Context) error {
 
 		// Obtain either the zero value or Reset() the value
 		resetOnFirstOccur := !opt.internalFlags().merge()
+		var occurrence option
 		for i := range mini.numOccurs() {
 
-			// Create a copy of the value on each occurrence (unless merge semantics
-			// are in place)
+			// Create a copy of the option and its value on each occurrence (unless merge
+			// semantics are in place).  The option itself keeps the winning value
 			if i == 0 || resetOnFirstOccur {
-				opt.cloneZero()
+				occurrence = opt.cloneZero()
 			}
 
 			mini.index = i
 
 			// Pretend this is the first occurrence
-			opt.reset()
+			occurrence.reset()
 
 			if err := rawApplyToOption(
 				[][]string{mini.Raw("")},
-				opt.transformFunc(),
-				opt,
+				occurrence.transformFunc(),
+				occurrence,
 			); err != nil {
 				return err
 			}
 
-			mini.val = c.option().value()
+			mini.val = occurrence.value()
 
 			if err := next.Execute(scope); err != nil {
 				return err
-- 
2.43.0


From 86dbc73a4c7c18ab3251226df7c5e813a632064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:30 +0000
Subject: [PATCH 022/138] fix: actions triggered by the mirror flag of No find
 the false value, also in sub-commands

---
 option.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/option.go b/option.go
index b8fd3a9..35eb6c4 100644
--- a/option.go
+++ b/option.go
@@ -547,12 +547,26 @@ func noOption(c *Context) error {
 		Options:   Hidden,
 		Before: func(c *Context) error {
 			if c.Seen("") {
-				return c.ContextOf(f).Trigger()
+				// Actions of the flag expect to find the false value
+				fc := c.ContextOf(f)
+				if err := fc.SetValue(false); err != nil {
+					return err
+				}
+				return fc.Trigger()
 			}
 			return nil
 		},
 		Action: func(c *Context) error {
-			return c.ContextOf(f).SetValue(false)
+			fc := c.ContextOf(f)
+			if err := fc.SetValue(false); err != nil {
+				return err
+			}
+			cmd := c.Parent()
+			if slices.Contains(cmd.LocalFlags(), f) || len(cmd.internal.Bindings(f.Name)) > 0 {
+				// The flag was triggered by the command itself
+				return nil
+			}
+			return fc.executeSelf()
 		},
 	}))
 }
-- 
2.43.0


From f4d7dbf84d486cc89f139e8fa774569be349ecc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:21 +0000
Subject: [PATCH 023/138] fix: a panic recovered in the action of an option
 must be reported

---
 action.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/action.go b/action.go
index 4d37378..cf0336a 100644
--- a/action.go
+++ b/action.go
@@ -378,6 +378,7 @@ var (
 			executeDeferredPipeline(AfterTiming),
 			executeUserPipeline(AfterTiming),
 			ActionFunc(triggerAfterValueTargets),
+			ActionFunc(failWithOptionError),
 		),
 	}
 
@@ -522,13 +523,24 @@ func formatStack() string {
 
 func failWithContextError(c *Context) error {
 	if r, ok := c.LookupData(panicDataKey); ok {
-		rvr := r.(*panicData)
-		fmt.Fprint(c.Stderr, rvr.stack)
-		return c.internalError(errors.New(rvr.recovered))
+		return failWithPanicData(c, r.(*panicData))
 	}
 	return nil
 }
 
+func failWithOptionError(c *Context) error {
+	// Consider only the option; the command handles what it recovered from itself
+	if r, ok := c.target.LookupData(panicDataKey); ok {
+		return failWithPanicData(c, r.(*panicData))
+	}
+	return nil
+}
+
+func failWithPanicData(c *Context, rvr *panicData) error {
+	fmt.Fprint(c.Stderr, rvr.stack)
+	return c.internalError(errors.New(rvr.recovered))
+}
+
 // Before revises the timing of the action so that it runs in the Before pipeline.
 // This function is used to wrap actions in the initialization pipeline that will be
 // deferred until later.
-- 
2.43.0


From 87d7cfb66fda3d62f00663812bc4ed2e2a301d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:37 +0000
Subject: [PATCH 024/138] fix: find the values of a flag by its alias

---
 set.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index b80ae5b..7f58421 100644
--- a/set.go
+++ b/set.go
@@ -495,12 +495,32 @@ func (s *set) lookupValue(name string) (any, bool) {
 	if s.Binding == nil {
 		return nil, false
 	}
-	if _, _, g, ok := s.Binding.LookupOption(name); ok {
+	if _, _, g, ok := s.Binding.LookupOption(s.actualName(name)); ok {
 		return g.(option).value(), true
 	}
 	return nil, false
 }
 
+// actualName converts the alias of a flag or a name with decorators (--flag, <arg>)
+// to the name which is used in bindings
+func (s *set) actualName(name string) string {
+	if s.Binding == nil || name == "" {
+		return name
+	}
+	if actual, ok := s.Binding.ResolveAlias(withoutDecorators(name)); ok {
+		return actual
+	}
+	return name
+}
+
+func (s *set) Raw(name string) []string {
+	return s.BindingMap.Raw(s.actualName(name))
+}
+
+func (s *set) RawOccurrences(name string) []string {
+	return s.BindingMap.RawOccurrences(s.actualName(name))
+}
+
 func (m BindingMap) appendOutput(name string, args []string) {
 	if e, ok := m[name]; ok {
 		m[name] = append(e, args)
-- 
2.43.0


From 38ab9b9d57e79a229794718354b011d595b8cd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:43 +0000
Subject: [PATCH 025/138] fix: Raw must use the name of the flag or arg that
 was requested

---
 arg.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/arg.go b/arg.go
index 4927400..806764a 100644
--- a/arg.go
+++ b/arg.go
@@ -506,7 +506,15 @@ func (o *optionContext) argHandling() ([]string, bool) {
 	return nil, false
 }
 
+// isCurrent is true if the name refers to the option which is the current context
+func (o *optionContext) isCurrent(name string) bool {
+	return name == "" || withoutDecorators(name) == o.option.name()
+}
+
 func (o *optionContext) Raw(name string) []string {
+	if !o.isCurrent(name) {
+		return o.parentLookup.Raw(name)
+	}
 	if arg, ok := o.argHandling(); ok {
 		return arg
 	}
@@ -514,6 +522,9 @@ func (o *optionContext) Raw(name string) []string {
 }
 
 func (o *optionContext) RawOccurrences(name string) []string {
+	if !o.isCurrent(name) {
+		return o.parentLookup.RawOccurrences(name)
+	}
 	if arg, ok := o.argHandling(); ok {
 		return arg
 	}
-- 
2.43.0


From d6736df324b471d35aaa0c84e72e0a5d4675362f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:39 +0000
Subject: [PATCH 026/138] fix: look up flags and args by index or in another
 kind of context without panic

---
 context.go | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/context.go b/context.go
index 1247f98..89df84e 100644
--- a/context.go
+++ b/context.go
@@ -497,10 +497,8 @@ func (c *Context) LookupFlag(name any) (*Flag, bool) {
 		return c.LookupFlag(string(v))
 	case string:
 		if v == "" {
-			if c.isOption() {
-				return c.LookupFlag(c.option())
-			}
-			name = c.Name()
+			f, ok := c.target.(*Flag)
+			return f, ok
 		}
 		if aa, ok := c.target.(*Command); ok {
 			if f, _, found := findFlagByName(aa.Flags, v); found {
@@ -524,12 +522,12 @@ func (c *Context) LookupArg(name any) (*Arg, bool) {
 	switch v := name.(type) {
 	case int:
 		return c.LookupArg(c.logicalArg(v))
+	case rune:
+		return c.LookupArg(string(v))
 	case string:
 		if v == "" {
-			if c.isOption() {
-				return c.LookupArg(c.option())
-			}
-			name = c.Name()
+			a, ok := c.target.(*Arg)
+			return a, ok
 		}
 		if a, _, found := findArgByName(c.LocalArgs(), v); found {
 			return a, true
@@ -671,7 +669,13 @@ func (c *Context) Value(name any) any {
 	}
 
 	switch v := name.(type) {
-	case rune, string, nil, *Arg, *Flag, int:
+	case int:
+		a, ok := c.LookupArg(v)
+		if !ok {
+			return nil
+		}
+		return c.Value(a)
+	case rune, string, nil, *Arg, *Flag:
 		it, _ := tryLookup(c.lookupCore, c.nameToString(v), true)
 		return it
 	case contextKeyType:
@@ -701,7 +705,14 @@ func (c *Context) rawCore(name any, occurs func(internalContext, string) []strin
 	}
 
 	switch f := name.(type) {
-	case rune, string, nil, int, *Arg, *Flag:
+	case int:
+		a, ok := c.LookupArg(f)
+		if !ok {
+			return []string{}
+		}
+		return c.rawCore(a, occurs)
+
+	case rune, string, nil, *Arg, *Flag:
 		d := occurs(c.internal, c.nameToString(f))
 		if f != "" && len(d) == 0 {
 			return c.Parent().rawCore(c.nameToString(f), occurs)
@@ -1147,6 +1158,9 @@ func (c *Context) lineageFunc(f func(*Context)) {
 }
 
 func (c *Context) logicalArg(index int) *Arg {
+	if c.isOption() {
+		return c.Parent().logicalArg(index)
+	}
 	args := c.LocalArgs()
 	_, idx, _ := findArgByName(args, index)
 	if idx < 0 || idx >= len(args) {
@@ -1791,7 +1805,13 @@ func (c *Context) flow() *actionPipelines {
 }
 
 func (c *Context) lookupOption(name any) (option, bool) {
-	if name == "" {
+	switch name.(type) {
+	case int, *Arg:
+		return c.LookupArg(name)
+	case rune, *Flag:
+		return c.LookupFlag(name)
+	}
+	if name == "" || name == nil {
 		o, ok := c.target.(option)
 		return o, ok
 	}
-- 
2.43.0


From 2a428ba4b704fd467b1bbc0ec22dc51dd69f6247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:59 +0000
Subject: [PATCH 027/138] fix: treat nil as the current target in Raw and
 RawOccurrences

---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 89df84e..dc99285 100644
--- a/context.go
+++ b/context.go
@@ -714,7 +714,7 @@ func (c *Context) rawCore(name any, occurs func(internalContext, string) []strin
 
 	case rune, string, nil, *Arg, *Flag:
 		d := occurs(c.internal, c.nameToString(f))
-		if f != "" && len(d) == 0 {
+		if f != "" && f != nil && len(d) == 0 {
 			return c.Parent().rawCore(c.nameToString(f), occurs)
 		}
 
-- 
2.43.0


From fbb41ae3052a0436dcce2d8e801eee3f4737819e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:02 +0000
Subject: [PATCH 028/138] fix: let a sub-command redefine a persistent flag

---
 context.go |  4 ++++
 set.go     | 22 ++++++++++++++++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/context.go b/context.go
index dc99285..8172d09 100644
--- a/context.go
+++ b/context.go
@@ -2160,6 +2160,10 @@ func triggerOptions(ctx *Context) error {
 	// Invoke the Before action on all flags and args, but only the actual
 	// Action when the flag or arg was set
 	for _, f := range ctx.PersistentFlags() {
+		if nearest, ok := ctx.LookupFlag(f.Name); ok && nearest != f {
+			// The flag was redefined by the current command or a nearer ancestor
+			continue
+		}
 		if f.internalFlags().actionTriggered() && len(ctx.internal.Bindings(f.Name)) == 0 {
 			// The flag was triggered in the context of an ancestor, and it was not used
 			// again in the current command
diff --git a/set.go b/set.go
index 7f58421..fe0a086 100644
--- a/set.go
+++ b/set.go
@@ -1,6 +1,7 @@
 package cli
 
 import (
+	"maps"
 	"sort"
 	"strings"
 )
@@ -102,10 +103,6 @@ func NewBinding(flags []*Flag, args []*Arg, parent interface{ Flags() []*Flag })
 
 		positionalOptions: []string{},
 	}
-	for _, f := range flags {
-		b.defineFlag(f)
-	}
-
 	if parent != nil {
 		for _, f := range parent.Flags() {
 			if f.internalFlags().nonPersistent() {
@@ -116,6 +113,11 @@ func NewBinding(flags []*Flag, args []*Arg, parent interface{ Flags() []*Flag })
 		}
 	}
 
+	// Nearest definitions take precedence over persistent flags from ancestors
+	for _, f := range flags {
+		b.defineFlag(f)
+	}
+
 	for _, a := range args {
 		b.defineArg(a)
 	}
@@ -476,6 +478,9 @@ func (b *bindingImpl) defineFlag(f *Flag) {
 		return
 	}
 
+	if _, ok := b.names[name]; ok {
+		b.undefineAliases(name)
+	}
 	for _, alias := range f.Aliases {
 		if len(alias) == 1 {
 			b.shortOptions[alias] = name
@@ -486,6 +491,15 @@ func (b *bindingImpl) defineFlag(f *Flag) {
 	b.names[name] = f
 }
 
+// undefineAliases removes the aliases of a flag which is being redefined
+func (b *bindingImpl) undefineAliases(name string) {
+	isAlias := func(_, actual string) bool {
+		return actual == name
+	}
+	maps.DeleteFunc(b.shortOptions, isAlias)
+	maps.DeleteFunc(b.longOptions, isAlias)
+}
+
 func (b *bindingImpl) defineArg(a *Arg) {
 	b.names[a.Name] = a
 	b.positionalOptions = append(b.positionalOptions, a.Name)
-- 
2.43.0


From 4c4a2a5f19d7a3074ed691a63abdd63a19d7e0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:49 +0000
Subject: [PATCH 029/138] fix: run the pipelines of a non-persistent flag only
 in the command that defines it

---
 context.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/context.go b/context.go
index 8172d09..7692a33 100644
--- a/context.go
+++ b/context.go
@@ -1583,13 +1583,8 @@ func (c *Context) setTiming(t Timing) *Context {
 
 func triggerOptionsHO(t Timing, on func(*Context) error) ActionFunc {
 	return func(ctx *Context) error {
-		for _, f := range ctx.Flags() {
-			if f.internalFlags().persistent() && !slices.Contains(ctx.LocalFlags(), f) {
-				// This is a persistent flag that was cloned into the flag set of the current
-				// command; don't process it again
-				continue
-			}
-
+		// Flags of ancestors, persistent or not, are processed by the command that defines them
+		for _, f := range ctx.LocalFlags() {
 			err := on(ctx.newChild(f).setTiming(t))
 			if err != nil {
 				return err
-- 
2.43.0


From b09e548fa4b87e16bffb37b819c30b0e5d1c1c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:02 +0000
Subject: [PATCH 030/138] fix: composed handlers of commands not found keep
 ErrSkipCommand and the error

---
 command.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/command.go b/command.go
index 097c7d2..36f01f2 100644
--- a/command.go
+++ b/command.go
@@ -186,8 +186,11 @@ func HandleCommandNotFound(fn func(*Context, error) (*Command, error)) Action {
 				newFn := fn
 				fn = func(c *Context, err1 error) (*Command, error) {
 					cmd, err := newFn(c, err1)
-					if cmd != nil && err == nil {
-						return cmd, nil
+					if (cmd != nil && err == nil) || err == ErrSkipCommand {
+						return cmd, err
+					}
+					if err == nil {
+						err = err1
 					}
 					return existingFn(c, err)
 				}
-- 
2.43.0


From 0c331b0ffe07092490fb82484398c5991508676d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:08 +0000
Subject: [PATCH 031/138] fix: requesting completion must not execute the
 implicit command

---
 command.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/command.go b/command.go
index 36f01f2..676c1f7 100644
--- a/command.go
+++ b/command.go
@@ -210,6 +210,10 @@ func HandleCommandNotFound(fn func(*Context, error) (*Command, error)) Action {
 //   - cloud tail -f /var/output/log
 func ImplicitCommand(name string) Action {
 	return HandleCommandNotFound(func(c *Context, _ error) (*Command, error) {
+		if c.CompletionRequest() != nil {
+			// Never execute the command when its completion is requested
+			return nil, ErrSkipCommand
+		}
 		invoke := append([]string{name}, c.Args()...)
 		err := subcommandCore(c, invoke, nil)
 		if err != nil {
-- 
2.43.0


From 55f30cf5d336bf23fa10d274285a92e192738c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:37 +0000
Subject: [PATCH 032/138] fix: the default action of a command with
 sub-commands displays its own help screen

---
 command.go |  2 +-
 usage.go   | 76 ++++++++++++++++++++++++++++++------------------------
 2 files changed, 43 insertions(+), 35 deletions(-)

diff --git a/command.go b/command.go
index 676c1f7..9086ca4 100644
--- a/command.go
+++ b/command.go
@@ -358,7 +358,7 @@ func ensureSubcommands(ctx context.Context) error {
 
 	if len(cmd.Subcommands) > 0 {
 		if cmd.Action == nil {
-			cmd.Action = DisplayHelpScreen()
+			cmd.Action = displayHelpScreenAction(nil)
 		}
 		return Do(ctx, AddArg(&Arg{
 			Name: "command",
diff --git a/usage.go b/usage.go
index cd66d46..e18fc9b 100644
--- a/usage.go
+++ b/usage.go
@@ -200,46 +200,49 @@ func DisplayHelpScreen(command ...string) Action {
 				)),
 			},
 		},
-		At(ActionTiming, ActionFunc(func(c *Context) error {
-			ctxt, path, err := findCommandToDisplayHelpFor(c, command)
-			if err != nil {
-				return err
-			}
+		At(ActionTiming, displayHelpScreenAction(command)))
+}
 
-			tpl := c.Template("Help")
-			if tpl == nil {
-				panic("help template not registered")
-			}
+func displayHelpScreenAction(command []string) Action {
+	return ActionFunc(func(c *Context) error {
+		ctxt, path, err := findCommandToDisplayHelpFor(c, command)
+		if err != nil {
+			return err
+		}
 
-			// HACK Using global state to set up the usage screen rather
-			// than propagating it (quite a distance) through to synopsis
-			// wrapper
-			usageColor = c.Stdout.ColorCapable()
+		tpl := c.Template("Help")
+		if tpl == nil {
+			panic("help template not registered")
+		}
 
-			current := ctxt.Command()
-			persistentFlags := filterInVisibleFlags(ctxt.PersistentFlags())
+		// HACK Using global state to set up the usage screen rather
+		// than propagating it (quite a distance) through to synopsis
+		// wrapper
+		usageColor = c.Stdout.ColorCapable()
 
-			if len(path) > 0 {
-				path = path[0 : len(path)-1]
-			}
-			lineage := strings.Join(path, " ")
-			data := struct {
-				SelectedCommand *commandData
-				App             *App
-				Debug           bool
-			}{
-				SelectedCommand: commandAdapter(current).withLineage(lineage, persistentFlags),
-				App:             c.App(),
-				Debug:           tpl.Debug,
-			}
+		current := ctxt.Command()
+		persistentFlags := filterInVisibleFlags(ctxt.PersistentFlags())
+
+		if len(path) > 0 {
+			path = path[0 : len(path)-1]
+		}
+		lineage := strings.Join(path, " ")
+		data := struct {
+			SelectedCommand *commandData
+			App             *App
+			Debug           bool
+		}{
+			SelectedCommand: commandAdapter(current).withLineage(lineage, persistentFlags),
+			App:             c.App(),
+			Debug:           tpl.Debug,
+		}
 
-			w := ansiterm.NewTabWriter(c.Stderr, 1, 8, 2, ' ', tabwriter.StripEscape)
+		w := ansiterm.NewTabWriter(c.Stderr, 1, 8, 2, ' ', tabwriter.StripEscape)
 
-			_ = tpl.Execute(w, data)
-			_ = w.Flush()
-			return nil
-		}),
-		))
+		_ = tpl.Execute(w, data)
+		_ = w.Flush()
+		return nil
+	})
 }
 
 func findCommandToDisplayHelpFor(c *Context, command []string) (*Context, ContextPath, error) {
@@ -262,6 +265,11 @@ func findCommandToDisplayHelpFor(c *Context, command []string) (*Context, Contex
 				return c.Parent(), c.Parent().Path(), nil
 			}
 
+		} else if _, ok := c.Command().Arg("command"); !ok || len(c.Command().Subcommands) > 0 {
+			// Used as the action of a command (which isn't the help command),
+			// so it is the command itself
+			command = c.Path()
+
 		} else {
 			list, _ := c.Value("command").([]string)
 			command = append(c.Parent().Path(), list...)
-- 
2.43.0


From 5bb6f6ad5caa28876fc70ba15be8725994f2a0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:44 +0000
Subject: [PATCH 033/138] fix: SkipFlagParsing must not add -- to the args of
 the command

---
 context.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/context.go b/context.go
index 7692a33..bf52bc2 100644
--- a/context.go
+++ b/context.go
@@ -191,12 +191,14 @@ func (c *Context) Execute(args []string) error {
 func (c *Context) parse(args []string) *robustParseResult {
 	root := c.Command()
 	set := root.buildSet(c)
+	actual := args
 	if root.internalFlags().skipFlagParsing() {
 		args = append([]string{args[0], "--"}, args[1:]...)
 	}
 
 	flags := root.internalFlags().toRaw() | RawSkipProgramName
 	err := set.parse(args, flags)
+	set.BindingMap[""] = [][]string{actual}
 	return &robustParseResult{bindings: set.BindingMap, err: err}
 }
 
-- 
2.43.0


From bba77745ef458561e3bab9abd52ba1c66cdeebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:08 +0000
Subject: [PATCH 034/138] fix: a value with % in the error of Enum is not a
 format string

---
 action.go | 7 ++++++-
 error.go  | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/action.go b/action.go
index cf0336a..616d9e1 100644
--- a/action.go
+++ b/action.go
@@ -12,6 +12,7 @@ import (
 	"os/signal"
 	"regexp"
 	"runtime/debug"
+	"strconv"
 	"strings"
 	"time"
 
@@ -823,7 +824,11 @@ func Enum(options ...string) Action {
 							Code: InvalidArgument,
 							Err: errorTemplate{
 								fallback: fmt.Sprintf("unrecognized value %q, expected %s", occur, expected),
-								format:   fmt.Sprintf("unrecognized value %q for %%[1]s, expected %s", occur, expected),
+								format: fmt.Sprintf(
+									"unrecognized value %s for %%[1]s, expected %s",
+									escapeFormat(strconv.Quote(occur)),
+									escapeFormat(expected),
+								),
 							},
 						}
 					}
diff --git a/error.go b/error.go
index 258d257..1ee85d9 100644
--- a/error.go
+++ b/error.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"strconv"
+	"strings"
 )
 
 // ErrorCode provides common error codes in the CLI framework.
@@ -343,6 +344,11 @@ func optionName(name any) string {
 	panic("unreachable!")
 }
 
+// escapeFormat escapes text so that it can be part of a format string
+func escapeFormat(s string) string {
+	return strings.ReplaceAll(s, "%", "%%")
+}
+
 func listOfValues(values []string) string {
 	switch len(values) {
 	case 0:
-- 
2.43.0


From 4db58876b571bce58221a997daf745efb13e4822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:10 +0000
Subject: [PATCH 035/138] fix: the error of a required option has its name

---
 error.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/error.go b/error.go
index 1ee85d9..ab3a32c 100644
--- a/error.go
+++ b/error.go
@@ -248,6 +248,7 @@ func unexpectedArgument(value string, remaining []string) *ParseError {
 func expectedRequiredOption(name string) *ParseError {
 	return &ParseError{
 		Code: ExpectedRequiredOption,
+		Name: name,
 		Err:  fmt.Errorf("%s %s", name, ExpectedRequiredOption),
 	}
 }
-- 
2.43.0


From e32c7bf3bcdfeca8d9782e532ad81744da11d4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:31 +0000
Subject: [PATCH 036/138] fix: required options must not prevent the use of
 flags which exit such as --help

---
 context.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index bf52bc2..166b20b 100644
--- a/context.go
+++ b/context.go
@@ -2230,13 +2230,21 @@ func setupOptionFromEnv(c context.Context) error {
 
 func checkForRequiredOption(c *Context) error {
 	if c.option().internalFlags().required() {
-		if !c.Seen("") {
+		if !c.Seen("") && !exitFlagUsed(c.Parent()) {
 			return expectedRequiredOption(c.Name())
 		}
 	}
 	return nil
 }
 
+// exitFlagUsed determines whether a flag such as --help was used in the command, which
+// causes it to exit instead
+func exitFlagUsed(c *Context) bool {
+	return slices.ContainsFunc(c.Flags(), func(f *Flag) bool {
+		return f.internalFlags().exits() && len(c.internal.Bindings(f.Name)) > 0
+	})
+}
+
 func checkForSupportedFlagType(c *Context) error {
 	if err := checkSupportedFlagType(c.option().value()); err != nil {
 		return c.internalError(err)
-- 
2.43.0


From b1fed6f7c67d5a8d8da77076c59cf1ae9a47d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:34 +0000
Subject: [PATCH 037/138] fix: apply the validators of a persistent flag in the
 sub-command that uses it

---
 action.go  |  1 +
 context.go | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/action.go b/action.go
index 616d9e1..f23f627 100644
--- a/action.go
+++ b/action.go
@@ -333,6 +333,7 @@ var (
 				actionFunc(executeBeforeHooks),
 				executeDeferredPipeline(BeforeTiming),
 				executeUserPipeline(BeforeTiming),
+				ActionFunc(triggerPersistentFlagValidators),
 				ActionFunc(triggerBeforeOptions),
 				ActionFunc(triggerBeforeValueTargets),
 			),
diff --git a/context.go b/context.go
index 166b20b..1324242 100644
--- a/context.go
+++ b/context.go
@@ -2188,6 +2188,21 @@ func triggerOptions(ctx *Context) error {
 	return nil
 }
 
+// triggerPersistentFlagValidators applies the validators of the flags of ancestors, which the
+// ancestors could only apply to what was used in their own context
+func triggerPersistentFlagValidators(ctx *Context) error {
+	for _, f := range ctx.PersistentFlags() {
+		if nearest, ok := ctx.LookupFlag(f.Name); ok && nearest != f || !f.Seen() {
+			continue
+		}
+		err := execute(ctx.newChild(f).setTiming(BeforeTiming), f.uses().Before[actualBeforeIndexValidatorTiming])
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func triggerOption(ctx *Context, f option) error {
 	if f.Seen() || hasSeenImplied(f, ctx.target) {
 		f.setInternalFlags(internalFlagActionTriggered, true)
-- 
2.43.0


From 450d52e11ec05cd28a79826ecd0e1b7fbe031a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:27 +0000
Subject: [PATCH 038/138] fix: apply the features of a FeatureMap in a
 determinate order

---
 filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filter.go b/filter.go
index 66095f3..feccff4 100644
--- a/filter.go
+++ b/filter.go
@@ -139,8 +139,8 @@ func decompose[T ~int, V any](m map[T]V) *bitSet[T, V] {
 		i++
 	}
 	sort.Slice(keys, func(i, j int) bool {
-		if bits.OnesCount(keys[i]) > bits.OnesCount(keys[j]) {
-			return true
+		if x, y := bits.OnesCount(keys[i]), bits.OnesCount(keys[j]); x != y {
+			return x > y
 		}
 		return keys[i] > keys[j]
 	})
-- 
2.43.0


From 18a9c286fd534440cf3ee42561b71b7d8646b1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:13 +0000
Subject: [PATCH 039/138] fix: combined filter modes have a textual
 representation and a description

---
 filter.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/filter.go b/filter.go
index feccff4..bc39c17 100644
--- a/filter.go
+++ b/filter.go
@@ -98,7 +98,7 @@ func (f FilterModes) Matches(ctx context.Context) bool {
 
 // String produces a textual representation of the timing
 func (f FilterModes) String() string {
-	return filterModeLabels[f][1]
+	return f.joinLabels(1, ", ")
 }
 
 // MarshalText provides the textual representation
@@ -108,19 +108,33 @@ func (f FilterModes) MarshalText() ([]byte, error) {
 
 // UnmarshalText converts the textual representation
 func (f *FilterModes) UnmarshalText(b []byte) error {
-	token := strings.TrimSpace(string(b))
-	for k, y := range filterModeLabels {
-		if token == y[1] {
-			*f = k
-			return nil
+	var res FilterModes
+	for _, s := range strings.Split(string(b), ",") {
+		token := strings.TrimSpace(s)
+		for k, y := range filterModeLabels {
+			if token == y[1] {
+				res |= k
+			}
 		}
 	}
+	if res != 0 {
+		*f = res
+	}
 	return nil
 }
 
 // Describe produces a representation of the timing suitable for use in messages
 func (f FilterModes) Describe() string {
-	return filterModeLabels[f][0]
+	return f.joinLabels(0, " and ")
+}
+
+// joinLabels provides the labels of the modes which were combined
+func (f FilterModes) joinLabels(index int, sep string) string {
+	var labels []string
+	for _, label := range decompose(filterModeLabels).items(f) {
+		labels = append(labels, label[index])
+	}
+	return strings.Join(reverse(labels), sep)
 }
 
 func (f ContextFilterFunc) Matches(c context.Context) bool {
-- 
2.43.0


From 9d607aa966ebe6a5ea1decdb23ade43ab9c63bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:17 +0000
Subject: [PATCH 040/138] fix: flags, args and commands can be added, removed
 and renamed while others are initialized

---
 command.go | 87 ++++++++++++++++++++++++++++++++----------------------
 1 file changed, 52 insertions(+), 35 deletions(-)

diff --git a/command.go b/command.go
index 9086ca4..aa39b56 100644
--- a/command.go
+++ b/command.go
@@ -619,21 +619,13 @@ func (c *Command) contextName() string {
 }
 
 func initializeFlagsArgs(ctx *Context) error {
-	var (
-		flagStart int
-		argStart  int
-		anyFlags  = true
-		anyArgs   = true
-	)
-
-	// New flags and/or args may have been introduced, so allow these to also initialize.
-	// They can ONLY be appended to the slice, not inserted elsewhere
-	for anyFlags || anyArgs {
-		flags := ctx.LocalFlags()[flagStart:]
-		flagStart = len(ctx.LocalFlags())
+	// Flags and args can be added and removed by the initializers of others, so
+	// continue until there are none left that have not been initialized
+	for again := true; again; {
+		again = false
 
-		for _, sub := range flags {
-			if sub.internalFlags().initialized() {
+		for _, sub := range slices.Clone(ctx.LocalFlags()) {
+			if sub.internalFlags().initialized() || !slices.Contains(ctx.LocalFlags(), sub) {
 				continue
 			}
 
@@ -645,24 +637,30 @@ func initializeFlagsArgs(ctx *Context) error {
 			// The name has changed, so hooks need to run again
 			// on the flag
 			if sub.Name != originalName {
-				ctx.newChild(sub).reinitialize()
+				if err := ctx.newChild(sub).reinitialize(); err != nil {
+					return err
+				}
 			}
+			again = true
 		}
-		anyFlags = len(flags) > 0
-
-		args := ctx.LocalArgs()[argStart:]
-		argStart = len(ctx.LocalArgs())
 
-		for _, sub := range args {
-			if sub.internalFlags().initialized() {
+		for _, sub := range slices.Clone(ctx.LocalArgs()) {
+			if sub.internalFlags().initialized() || !slices.Contains(ctx.LocalArgs(), sub) {
 				continue
 			}
+
+			originalName := sub.Name
 			err := ctx.newChild(sub).initialize()
 			if err != nil {
 				return err
 			}
+			if sub.Name != originalName {
+				if err := ctx.newChild(sub).reinitialize(); err != nil {
+					return err
+				}
+			}
+			again = true
 		}
-		anyArgs = len(args) > 0
 	}
 
 	return nil
@@ -670,21 +668,30 @@ func initializeFlagsArgs(ctx *Context) error {
 
 func initializeSubcommands(ctx *Context) error {
 	cmd := ctx.target.(*Command)
-	for _, sub := range cmd.Subcommands {
-		if sub.internalFlags().initialized() {
-			continue
-		}
+	visited := map[*Command]bool{}
+	for again := true; again; {
+		again = false
 
-		originalName := sub.Name
-		err := ctx.newChild(sub).initialize()
-		if err != nil {
-			return err
-		}
+		for _, sub := range slices.Clone(cmd.Subcommands) {
+			if visited[sub] || sub.internalFlags().initialized() || !slices.Contains(cmd.Subcommands, sub) {
+				continue
+			}
+			visited[sub] = true
 
-		// The name has changed, so hooks need to run again
-		// on the flag
-		if sub.Name != originalName {
-			ctx.newChild(sub).reinitialize()
+			originalName := sub.Name
+			err := ctx.newChild(sub).initialize()
+			if err != nil {
+				return err
+			}
+
+			// The name has changed, so hooks need to run again
+			// on the command
+			if sub.Name != originalName {
+				if err := ctx.newChild(sub).reinitialize(); err != nil {
+					return err
+				}
+			}
+			again = true
 		}
 	}
 	return nil
@@ -767,6 +774,16 @@ func findCommandByName(cmds []*Command, v any) (*Command, int, bool) {
 		return nil, -1, false
 	}
 
+	if index, ok := v.(int); ok {
+		if index < 0 {
+			index = len(cmds) + index
+		}
+		if index >= 0 && index < len(cmds) {
+			return cmds[index], index, true
+		}
+		return nil, -1, false
+	}
+
 	name := v.(string)
 	for index, sub := range cmds {
 		if sub.Name == name {
-- 
2.43.0


From 62a680a80c7d8bcefd2b51dcda467f7c47a45b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:52 +0000
Subject: [PATCH 041/138] fix: remove flags by index

---
 flag.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/flag.go b/flag.go
index b61c931..2d22810 100644
--- a/flag.go
+++ b/flag.go
@@ -596,6 +596,15 @@ func findFlagByName(items []*Flag, v any) (*Flag, int, bool) {
 		}
 		return nil, -1, false
 	}
+	if index, ok := v.(int); ok {
+		if index < 0 {
+			index = len(items) + index
+		}
+		if index >= 0 && index < len(items) {
+			return items[index], index, true
+		}
+		return nil, -1, false
+	}
 	name := strings.TrimLeft(v.(string), "-")
 	for index, sub := range items {
 		if sub.Name == name {
-- 
2.43.0


From f16174fbf27caede27e4d1eedf80e34e6c51e246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:11 +0000
Subject: [PATCH 042/138] fix: apply validators of persistent flags again only
 in commands that use one

---
 context.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/context.go b/context.go
index 1324242..6c08f42 100644
--- a/context.go
+++ b/context.go
@@ -2188,13 +2188,21 @@ func triggerOptions(ctx *Context) error {
 	return nil
 }
 
-// triggerPersistentFlagValidators applies the validators of the flags of ancestors, which the
-// ancestors could only apply to what was used in their own context
+// triggerPersistentFlagValidators applies the validators of the flags of ancestors when any was
+// used in the current command because the ancestors only know about those used in their own
 func triggerPersistentFlagValidators(ctx *Context) error {
+	var flags []*Flag
+	var anyUsed bool
 	for _, f := range ctx.PersistentFlags() {
-		if nearest, ok := ctx.LookupFlag(f.Name); ok && nearest != f || !f.Seen() {
-			continue
+		if nearest, ok := ctx.LookupFlag(f.Name); ok && nearest == f && f.Seen() {
+			flags = append(flags, f)
+			anyUsed = anyUsed || len(ctx.internal.Bindings(f.Name)) > 0
 		}
+	}
+	if !anyUsed {
+		return nil
+	}
+	for _, f := range flags {
 		err := execute(ctx.newChild(f).setTiming(BeforeTiming), f.uses().Before[actualBeforeIndexValidatorTiming])
 		if err != nil {
 			return err
-- 
2.43.0


From cef5436050e43bd6434865d4d5059c52fdc2e5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 043/138] fix: zsh completion suppresses the space only after
 items which prevent it

---
 completion_zsh.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/completion_zsh.go b/completion_zsh.go
index 9615206..90be504 100644
--- a/completion_zsh.go
+++ b/completion_zsh.go
@@ -90,12 +90,12 @@ func (z *zshComplete) formatCompletion(item CompletionItem) string {
 	case CompletionTypeDirectory:
 		itemType = "dir"
 	}
-	spaceAfter := "1"
+	var noSpace string
 	if item.PreventSpaceAfter {
-		spaceAfter = ""
+		noSpace = "1"
 	}
 
-	return fmt.Sprint(itemType, "\n", item.Value, "\n", itemDesc, "\n", spaceAfter, "\n")
+	return fmt.Sprint(itemType, "\n", item.Value, "\n", itemDesc, "\n", noSpace, "\n")
 }
 
 func (*zshComplete) GetSourceTemplate() *Template {
-- 
2.43.0


From 14c574d9e84f8c66a517cf5b6cae28b5067e806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:36 +0000
Subject: [PATCH 044/138] fix: zsh completion keeps multi-line help text on its
 own line

---
 completion_zsh.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/completion_zsh.go b/completion_zsh.go
index 90be504..dd34b4e 100644
--- a/completion_zsh.go
+++ b/completion_zsh.go
@@ -5,12 +5,15 @@ import (
 	"fmt"
 	"os"
 	"strconv"
+	"strings"
 )
 
 type zshComplete struct {
 	noDesc bool
 }
 
+var lineBreaks = strings.NewReplacer("\r\n", " ", "\n", " ", "\r", " ")
+
 const zshSourceScript = `
 
 #compdef {{ .App.Name }}
@@ -79,7 +82,8 @@ func (z *zshComplete) FormatCompletions(items []CompletionItem) string {
 }
 
 func (z *zshComplete) formatCompletion(item CompletionItem) string {
-	itemDesc := item.HelpText
+	// Each field must occupy exactly one line
+	itemDesc := lineBreaks.Replace(item.HelpText)
 	if itemDesc == "" {
 		itemDesc = "_"
 	}
-- 
2.43.0


From 0afd5a292b45fdf0e31f90174b6d30c3be91078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:37 +0000
Subject: [PATCH 045/138] fix: zsh completion request with a negative word
 index

---
 completion_zsh.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/completion_zsh.go b/completion_zsh.go
index dd34b4e..71409ea 100644
--- a/completion_zsh.go
+++ b/completion_zsh.go
@@ -60,6 +60,9 @@ func (*zshComplete) GetCompletionRequest() (args []string, incomplete string) {
 	cwords, _ := Split(os.Getenv("COMP_WORDS"))
 	cword, _ := strconv.Atoi(os.Getenv("COMP_CWORD"))
 
+	if cword < 0 {
+		cword = 0
+	}
 	if cword <= len(cwords) {
 		args = cwords[0:cword]
 	}
-- 
2.43.0


From 039f145feb0160569aebdc1a32242105a64a1393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:38 +0000
Subject: [PATCH 046/138] fix: completion does not offer hidden sub-commands

---
 command.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/command.go b/command.go
index aa39b56..e7318ca 100644
--- a/command.go
+++ b/command.go
@@ -377,14 +377,14 @@ func completeSubCommand(c *Context) []CompletionItem {
 
 	if len(invoke) == 0 {
 		cmd := c.Command()
-		res := make([]CompletionItem, 0, len(cmd.Subcommands))
+		res := make([]CompletionItem, 0, len(cmd.VisibleSubcommands()))
 
-		for _, s := range cmd.Subcommands {
+		for _, s := range cmd.VisibleSubcommands() {
 			if detect(s.Name) {
 				res = append(res, CompletionItem{Value: s.Name, HelpText: s.HelpText})
 			}
 		}
-		for _, s := range cmd.Subcommands {
+		for _, s := range cmd.VisibleSubcommands() {
 			for _, alias := range s.Aliases {
 				if detect(alias) {
 					res = append(res, CompletionItem{Value: alias, HelpText: s.HelpText})
-- 
2.43.0


From 0ad4e7f48e5ea4eeaac46365df78e9fdc3b179a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:18 +0000
Subject: [PATCH 047/138] fix: shell completion when required flags or args are
 not specified

---
 completion.go | 6 ++++++
 context.go    | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/completion.go b/completion.go
index 4e1ed3b..52e37d8 100644
--- a/completion.go
+++ b/completion.go
@@ -245,6 +245,12 @@ func (c *Context) robustParsingMode() bool {
 	return c.flagSetOrAncestor((internalFlags).robustParseModeEnabled)
 }
 
+// completionRequested determines whether the app was invoked in order to obtain shell
+// completion, in which case the arguments are expected to be incomplete
+func (c *Context) completionRequested() bool {
+	return c.robustParsingMode() && c.App() != nil && newCompletionData(c).ShellComplete != nil
+}
+
 func (c *Context) shellCompletes() map[string]ShellComplete {
 	l, ok := c.LookupData(shellCompletesKey)
 	if !ok {
diff --git a/context.go b/context.go
index 6c08f42..44cb486 100644
--- a/context.go
+++ b/context.go
@@ -173,7 +173,7 @@ func (c *Context) Execute(args []string) error {
 		}
 	}
 	res := c.parse(args)
-	if res.err != nil {
+	if res.err != nil && !c.completionRequested() {
 		return res.err
 	}
 
@@ -2253,7 +2253,7 @@ func setupOptionFromEnv(c context.Context) error {
 
 func checkForRequiredOption(c *Context) error {
 	if c.option().internalFlags().required() {
-		if !c.Seen("") && !exitFlagUsed(c.Parent()) {
+		if !c.Seen("") && !exitFlagUsed(c.Parent()) && !c.completionRequested() {
 			return expectedRequiredOption(c.Name())
 		}
 	}
-- 
2.43.0


From 18b3c43cd5906a5203da7a1f29f1303fda77b372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:40 +0000
Subject: [PATCH 048/138] fix: complete the flags of the sub-command which has
 been named

---
 command.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/command.go b/command.go
index e7318ca..4dd122e 100644
--- a/command.go
+++ b/command.go
@@ -145,7 +145,7 @@ func ExecuteSubcommand(interceptErr func(*Context, error) (*Command, error)) Act
 		Value:      List(),
 		NArg:       -1,
 		Options:    DisableSplitting,
-		Completion: CompletionFunc(completeSubCommand),
+		Completion: subcommandCompletion{},
 	}, At(ActionTiming, ActionFunc(func(c *Context) error {
 		invoke := c.List("")
 		return subcommandCore(c, invoke, interceptErr)
@@ -368,6 +368,13 @@ func ensureSubcommands(ctx context.Context) error {
 	return nil
 }
 
+// subcommandCompletion is the completion of an arg which names a sub-command
+type subcommandCompletion struct{}
+
+func (subcommandCompletion) Complete(ctx context.Context) []CompletionItem {
+	return completeSubCommand(FromContext(ctx))
+}
+
 func completeSubCommand(c *Context) []CompletionItem {
 	cc := c.CompletionRequest()
 	invoke := c.List("")
@@ -416,6 +423,13 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 	var items []CompletionItem
 
 	if strings.HasPrefix(cc.Incomplete, "-") {
+		// Flags which follow the name of a sub-command belong to it
+		for _, a := range cmd.Args {
+			if sub, ok := a.completion().(subcommandCompletion); ok && len(cc.Bindings[a.Name]) > 0 {
+				return sub.Complete(c.newChild(a))
+			}
+		}
+
 		// If a search only finds one match, then complete the flag
 		items = findSolitaryMatch(c)
 		if items != nil {
-- 
2.43.0


From 74d8e4962f28e3c066d307584f1fdc8660e6f6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:58 +0000
Subject: [PATCH 049/138] fix: complete persistent flags within sub-commands

---
 command.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/command.go b/command.go
index 4dd122e..7c51dd2 100644
--- a/command.go
+++ b/command.go
@@ -436,7 +436,7 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 			return items
 		}
 
-		for _, f := range cmd.VisibleFlags() {
+		for _, f := range visibleFlagsInScope(c) {
 			for _, n := range f.synopsis().Names {
 				if strings.HasPrefix(n, cc.Incomplete) {
 					items = append(items, CompletionItem{Value: n, HelpText: f.HelpText})
@@ -453,7 +453,7 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 		}
 
 		if strings.HasPrefix(name, "-") {
-			flag, ok := cmd.Flag(name)
+			flag, ok := c.LookupFlag(name)
 			if ok {
 				return actualCompletion(flag.completion()).Complete(c)
 			}
@@ -484,14 +484,25 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 	return items
 }
 
+// visibleFlagsInScope obtains the flags of the command which are not hidden, including persistent
+// flags of its ancestors which it does not redefine
+func visibleFlagsInScope(c *Context) []*Flag {
+	return append(
+		c.Target().(*Command).VisibleFlags(),
+		slices.DeleteFunc(filterInVisibleFlags(c.PersistentFlags()), func(f *Flag) bool {
+			actual, _ := c.LookupFlag(f.Name)
+			return f.internalFlags().nonPersistent() || actual != f
+		})...,
+	)
+}
+
 func findSolitaryMatch(c *Context) []CompletionItem {
 	cc := c.CompletionRequest()
-	cmd := c.Target().(*Command)
 	flagName, _, hasArg := strings.Cut(cc.Incomplete, "=")
 	var match *Flag
 	var matchName string
 
-	for _, f := range cmd.VisibleFlags() {
+	for _, f := range visibleFlagsInScope(c) {
 		for _, n := range f.synopsis().Names {
 			if n == cc.Incomplete || (hasArg && strings.HasPrefix(n, flagName)) {
 				return actualCompletion(f.completion()).Complete(c.newChild(f))
-- 
2.43.0


From 925aacf52d6f77dfcc7a97e9c17492e61188f558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:45 +0000
Subject: [PATCH 050/138] fix: completion does not offer flags after the --
 separator

---
 command.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/command.go b/command.go
index 7c51dd2..029609b 100644
--- a/command.go
+++ b/command.go
@@ -422,7 +422,8 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 	cmd := c.Target().(*Command)
 	var items []CompletionItem
 
-	if strings.HasPrefix(cc.Incomplete, "-") {
+	// Tokens after the -- separator are not flags
+	if strings.HasPrefix(cc.Incomplete, "-") && !slices.Contains(cc.Args, "--") {
 		// Flags which follow the name of a sub-command belong to it
 		for _, a := range cmd.Args {
 			if sub, ok := a.completion().(subcommandCompletion); ok && len(cc.Bindings[a.Name]) > 0 {
-- 
2.43.0


From 5e13806ec8218cf119ec6b5036a50f9dc60f216e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:47 +0000
Subject: [PATCH 051/138] fix: --help together with args or values of flags
 displays help for the command

---
 usage.go | 43 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/usage.go b/usage.go
index e18fc9b..25d3eb8 100644
--- a/usage.go
+++ b/usage.go
@@ -253,17 +253,7 @@ func findCommandToDisplayHelpFor(c *Context, command []string) (*Context, Contex
 
 			// When the switch is interspersed with the name
 			// of commands, we try to infer what the user meant
-			// by removing flag names and treating full thing as
-			// a path
-			command = slices.DeleteFunc(c.Parent().Raw(""), func(t string) bool {
-				return strings.HasPrefix(t, "-")
-			})
-
-			// Use either the parent path or this inferred command,
-			// whicever is longer and therefore more specific.
-			if len(c.Parent().Path()) >= len(command) {
-				return c.Parent(), c.Parent().Path(), nil
-			}
+			command = append(slices.Clone(c.Parent().Path()), namedSubcommands(c.Parent())...)
 
 		} else if _, ok := c.Command().Arg("command"); !ok || len(c.Command().Subcommands) > 0 {
 			// Used as the action of a command (which isn't the help command),
@@ -289,6 +279,37 @@ func findCommandToDisplayHelpFor(c *Context, command []string) (*Context, Contex
 	return nil, nil, commandMissing(command[len(command)-1])
 }
 
+// namedSubcommands obtains the names of the sub-commands which are specified in the remaining arguments
+// of the command, which excludes their flags and args
+func namedSubcommands(c *Context) (res []string) {
+	cmd := c.Command()
+	var remaining []string
+	for _, a := range cmd.Args {
+		if _, ok := a.completion().(subcommandCompletion); ok {
+			remaining = c.internal.RawOccurrences(a.Name)
+		}
+	}
+
+	for i, t := range remaining {
+		if strings.HasPrefix(t, "-") {
+			continue
+		}
+		if sub, ok := cmd.Command(t); ok {
+			res = append(res, sub.Name)
+			cmd = sub
+			continue
+		}
+		if len(cmd.Subcommands) == 0 {
+			break // its args
+		}
+		if i > 0 && strings.HasPrefix(remaining[i-1], "-") {
+			continue // possibly the value of the flag
+		}
+		return append(res, t)
+	}
+	return
+}
+
 // PrintVersion displays the version string.  The VersionTemplate provides the Go template
 func PrintVersion() Action {
 	return Pipeline(&Prototype{
-- 
2.43.0


From 548b057f8b892b2243a091aca64d1d013126d99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:08 +0000
Subject: [PATCH 052/138] fix: hidden sub-commands are not listed on the help
 screen

---
 templates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index 85bbbb6..ba6b285 100644
--- a/templates.go
+++ b/templates.go
@@ -291,7 +291,7 @@ func commandAdapter(val *Command) *commandData {
 		VisibleArgs:        visibleArgs(val.VisibleArgs()),
 		VisibleFlags:       visibleFlags(val.VisibleFlags()),
 		VisibleCommands:    visibleCommands(val.VisibleSubcommands()),
-		CommandsByCategory: visibleCategories(groupedByCategory(val.Subcommands)),
+		CommandsByCategory: visibleCategories(groupedByCategory(val.VisibleSubcommands())),
 		FlagsByCategory:    visibleFlagCategories(groupFlagsByCategory(val.Flags)),
 		Persistent: &persistentCommandData{
 			VisibleFlags: []*flagData{},
-- 
2.43.0


From 9fcff099be80dfc140af817ecc721d492ee72923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:14 +0000
Subject: [PATCH 053/138] fix: separate required flags in the synopsis with
 spaces

---
 internal/synopsis/synopsis.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/synopsis/synopsis.go b/internal/synopsis/synopsis.go
index cf58829..6611b5b 100644
--- a/internal/synopsis/synopsis.go
+++ b/internal/synopsis/synopsis.go
@@ -241,6 +241,7 @@ func (c *Command) WriteTo(sb styleWriter) {
 
 	if flags := c.Flags[Other]; len(flags) > 0 {
 		for _, f := range flags {
+			sb.WriteString(" ")
 			f.primaryWriteTo(sb)
 		}
 	}
-- 
2.43.0


From dc93bcee74c8e98adbefb176a7e23a6f657d771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:19 +0000
Subject: [PATCH 054/138] fix: separate optional args in the synopsis with
 spaces

---
 internal/synopsis/synopsis.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/synopsis/synopsis.go b/internal/synopsis/synopsis.go
index 6611b5b..0b032fd 100644
--- a/internal/synopsis/synopsis.go
+++ b/internal/synopsis/synopsis.go
@@ -349,11 +349,12 @@ func writeArgList(sb styleWriter, rtl bool, req, opt []*Arg) {
 	if len(opt) > 0 {
 		sb.WriteString(" ")
 		for i, arg := range opt {
+			if i > 0 {
+				sb.WriteString(" ")
+			}
 			if rtl {
 				if i == 0 {
 					sb.WriteString(strings.Repeat("[", len(opt)))
-				} else {
-					sb.WriteString(" ")
 				}
 			} else {
 				sb.WriteString("[")
-- 
2.43.0


From f1854d4b73260d6cc85e7a82aebe8864f0da20bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:24 +0000
Subject: [PATCH 055/138] fix: hidden args are not part of the synopsis

---
 command.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/command.go b/command.go
index 029609b..d70c945 100644
--- a/command.go
+++ b/command.go
@@ -531,11 +531,12 @@ func findSolitaryMatch(c *Context) []CompletionItem {
 
 func (c *Command) newSynopsis() *synopsis.Command {
 	flags := make([]*synopsis.Flag, len(c.Flags))
-	args := make([]*synopsis.Arg, len(c.Args))
+	visibleArgs := c.VisibleArgs()
+	args := make([]*synopsis.Arg, len(visibleArgs))
 	for i, f := range c.Flags {
 		flags[i] = f.synopsis()
 	}
-	for i, a := range c.Args {
+	for i, a := range visibleArgs {
 		args[i] = a.newSynopsis()
 	}
 
-- 
2.43.0


From 1ab01b07e17d3ba619224950e411b773a26ce476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:30 +0000
Subject: [PATCH 056/138] fix: undocumented flags with long names are listed
 with two dashes

---
 templates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index ba6b285..ff27032 100644
--- a/templates.go
+++ b/templates.go
@@ -223,7 +223,7 @@ func (c *commandData) withLineage(lineage string, persistent []*Flag) *commandDa
 func (e flagDataList) Names() []string {
 	res := make([]string, 0, len(e))
 	for _, x := range e {
-		res = append(res, "-"+x.Name)
+		res = append(res, x.Synopsis.s.Primary)
 	}
 	return res
 }
-- 
2.43.0


From 4b418484ac8dc879f3030a3713d9b9fe8eb1f44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:57 +0000
Subject: [PATCH 057/138] fix: required args of right-to-left commands are not
 shown as optional

---
 internal/synopsis/synopsis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/synopsis/synopsis.go b/internal/synopsis/synopsis.go
index 0b032fd..c3fc1d0 100644
--- a/internal/synopsis/synopsis.go
+++ b/internal/synopsis/synopsis.go
@@ -103,7 +103,7 @@ func NewCommand(name string, flags []*Flag, args []*Arg, rtl bool) *Command {
 	var optional []*Arg
 
 	if rtl {
-		var start int
+		start := len(args)
 		for i, p := range args {
 			if p.Optional {
 				start = i
-- 
2.43.0


From 323d20446c17bfeec1de2caf03bfaba588678535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:02 +0000
Subject: [PATCH 058/138] fix: use the usage text of commands as their synopsis

---
 command.go                    | 4 +++-
 internal/synopsis/synopsis.go | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/command.go b/command.go
index d70c945..48eeef3 100644
--- a/command.go
+++ b/command.go
@@ -540,9 +540,11 @@ func (c *Command) newSynopsis() *synopsis.Command {
 		args[i] = a.newSynopsis()
 	}
 
-	return synopsis.NewCommand(
+	res := synopsis.NewCommand(
 		c.Name, flags, args, c.internalFlags().rightToLeft(),
 	)
+	res.UsageText = c.UsageText
+	return res
 }
 
 // SetData sets the specified metadata on the command
diff --git a/internal/synopsis/synopsis.go b/internal/synopsis/synopsis.go
index c3fc1d0..e1f04bf 100644
--- a/internal/synopsis/synopsis.go
+++ b/internal/synopsis/synopsis.go
@@ -30,6 +30,7 @@ type Command struct {
 	RequiredArgs []*Arg
 	OptionalArgs []*Arg
 	RTL          bool
+	UsageText    string // used in place of everything else if specified
 }
 
 type Flag struct {
@@ -203,6 +204,10 @@ func (v *Value) WriteTo(w styleWriter) {
 }
 
 func (c *Command) WriteTo(sb styleWriter) {
+	if c.UsageText != "" {
+		sb.WriteString(c.UsageText)
+		return
+	}
 	sb.Styled(Bold, c.Name)
 
 	if flags := c.Flags[ActionGroup]; len(flags) > 0 {
-- 
2.43.0


From 3c9f262a471d5e9b2e13f6aa6e47c4f17009d160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:59 +0000
Subject: [PATCH 059/138] fix: use the help, manual and usage text of the app

---
 app.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/app.go b/app.go
index dbc8596..0e21331 100644
--- a/app.go
+++ b/app.go
@@ -236,6 +236,9 @@ func (a *App) createRoot() *Command {
 				Uses:        a.Uses,
 				Before:      a.Before,
 				Options:     a.Options,
+				HelpText:    a.HelpText,
+				ManualText:  a.ManualText,
+				UsageText:   a.UsageText,
 			}
 		}
 		return a.rootCommandCreator()
-- 
2.43.0


From 5165b0a1d2c1411e04105709727c262e3f1775a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:05 +0000
Subject: [PATCH 060/138] fix: flags such as --help can be used without the
 required args

---
 context.go |  8 ++++++++
 set.go     | 11 +++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index 44cb486..71fcf52 100644
--- a/context.go
+++ b/context.go
@@ -198,6 +198,9 @@ func (c *Context) parse(args []string) *robustParseResult {
 
 	flags := root.internalFlags().toRaw() | RawSkipProgramName
 	err := set.parse(args, flags)
+	if isExpectedArgument(err) && exitFlagUsed(c) {
+		err = set.BindingMap.ApplyTo(set)
+	}
 	set.BindingMap[""] = [][]string{actual}
 	return &robustParseResult{bindings: set.BindingMap, err: err}
 }
@@ -2260,6 +2263,11 @@ func checkForRequiredOption(c *Context) error {
 	return nil
 }
 
+func isExpectedArgument(err error) bool {
+	p, ok := err.(*ParseError)
+	return ok && p.Code == ExpectedArgument
+}
+
 // exitFlagUsed determines whether a flag such as --help was used in the command, which
 // causes it to exit instead
 func exitFlagUsed(c *Context) bool {
diff --git a/set.go b/set.go
index fe0a086..18b3264 100644
--- a/set.go
+++ b/set.go
@@ -208,12 +208,19 @@ func RawParse(arguments []string, b Binding, flags RawParseFlag) (bindings Bindi
 			}
 		}
 
+		// Missing args are reported once the flags are known
+		var missing error
 		for range skip {
-			if err = positionalOpts.Done(); err != nil {
-				return
+			if doneErr := positionalOpts.Done(); doneErr != nil && missing == nil {
+				missing = doneErr
 			}
 			positionalOpts.next()
 		}
+		defer func() {
+			if missing != nil {
+				err = missing
+			}
+		}()
 	}
 
 	var (
-- 
2.43.0


From 72c1872674e612b3d69ef91e464ae4480a03b12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:21 +0000
Subject: [PATCH 061/138] fix: open the standard file for writing when the
 output is not a file

---
 file.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/file.go b/file.go
index 6689e26..e426522 100644
--- a/file.go
+++ b/file.go
@@ -423,14 +423,14 @@ func (d defaultFS) OpenFile(name string, flag int, perm os.FileMode) (fs.File, e
 	if name == "-" && d.std != nil {
 		switch flag & readWriteMask {
 		case os.O_RDONLY:
-			return d.std.in.(*os.File), nil
+			return d.std.orFile(d.std.in), nil
 		case os.O_RDWR:
 			if (flag & (os.O_APPEND | os.O_CREATE)) > 0 {
-				return d.std.out.(*os.File), nil
+				return d.std.orFile(d.std.out), nil
 			}
 			return nil, errors.New("open not supported: O_RDWR must be specified with O_APPEND or O_CREATE")
 		case os.O_WRONLY:
-			return d.std.out.(*os.File), nil
+			return d.std.orFile(d.std.out), nil
 		}
 	}
 	return d.FS.OpenFile(name, flag, perm)
@@ -581,6 +581,14 @@ func (f fsExtensionWrapper) OpenFile(name string, flag int, perm fs.FileMode) (f
 	}
 }
 
+// orFile obtains the input or output itself when it is a file
+func (s *stdFile) orFile(v any) fs.File {
+	if f, ok := v.(*os.File); ok {
+		return f
+	}
+	return s
+}
+
 func (s *stdFile) Stat() (fs.FileInfo, error) {
 	if f, ok := s.in.(*os.File); ok {
 		return f.Stat()
-- 
2.43.0


From 9b9863216acc852507cc900d3c17756d7ef185c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:27 +0000
Subject: [PATCH 062/138] fix: obtain file information from file systems that
 can only open files

---
 file.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/file.go b/file.go
index e426522..1f8f910 100644
--- a/file.go
+++ b/file.go
@@ -549,14 +549,7 @@ func (f fsExtensionWrapper) MkdirAll(name string, mode fs.FileMode) error {
 }
 
 func (f fsExtensionWrapper) Stat(name string) (fs.FileInfo, error) {
-	if s, ok := f.FS.(fs.StatFS); ok {
-		return s.Stat(name)
-	}
-	return nil, &fs.PathError{
-		Op:   "stat",
-		Path: name,
-		Err:  errors.New("not supported"),
-	}
+	return fs.Stat(f.FS, name)
 }
 
 func (f fsExtensionWrapper) OpenContext(c context.Context, name string) (fs.File, error) {
-- 
2.43.0


From 6a35787b8c8b113fe7f349341c652695958f3cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:33 +0000
Subject: [PATCH 063/138] fix: provide file information for the standard file
 when the input is not a file

---
 file.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 1f8f910..ba10471 100644
--- a/file.go
+++ b/file.go
@@ -98,6 +98,9 @@ type stdFile struct {
 	out io.Writer
 }
 
+// stdFileInfo is the information about input that is not a file
+type stdFileInfo struct{}
+
 type defaultFS struct {
 	FS
 	std *stdFile
@@ -586,9 +589,16 @@ func (s *stdFile) Stat() (fs.FileInfo, error) {
 	if f, ok := s.in.(*os.File); ok {
 		return f.Stat()
 	}
-	return nil, nil
+	return stdFileInfo{}, nil
 }
 
+func (stdFileInfo) Name() string       { return "-" }
+func (stdFileInfo) Size() int64        { return 0 }
+func (stdFileInfo) Mode() fs.FileMode  { return fs.ModeNamedPipe }
+func (stdFileInfo) ModTime() time.Time { return time.Time{} }
+func (stdFileInfo) IsDir() bool        { return false }
+func (stdFileInfo) Sys() any           { return nil }
+
 func (s *stdFile) Read(d []byte) (int, error) {
 	return s.in.Read(d)
 }
-- 
2.43.0


From 54472d5473d3a1bb610785594ae6a10fb0d582a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:39 +0000
Subject: [PATCH 064/138] fix: MustExist checks each name in a list

---
 option.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/option.go b/option.go
index 35eb6c4..a6f8841 100644
--- a/option.go
+++ b/option.go
@@ -488,6 +488,13 @@ func mustExistOption(c *Context) error {
 		}
 		_, err := wrapFS(c.actualFS()).Stat(f)
 		return err
+	case []string:
+		for _, name := range f {
+			if _, err := wrapFS(c.actualFS()).Stat(name); err != nil {
+				return err
+			}
+		}
+		return nil
 	case fileExists:
 		if f.Exists() {
 			return nil
-- 
2.43.0


From 3275d70cfffc2168cc6f5ec4e5b601e3ea35f16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:09 +0000
Subject: [PATCH 065/138] fix: MustExist ignores a file whose name is blank in
 any file system

---
 option.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/option.go b/option.go
index a6f8841..988be46 100644
--- a/option.go
+++ b/option.go
@@ -496,7 +496,9 @@ func mustExistOption(c *Context) error {
 		}
 		return nil
 	case fileExists:
-		if f.Exists() {
+		// If the file name was blank, this implies a blank value was set and
+		// the user must handle
+		if fmt.Sprint(v) == "" || f.Exists() {
 			return nil
 		}
 	case fileStat:
-- 
2.43.0


From e64fa845d727ef57d949a9cf27c579a0f4272d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:15 +0000
Subject: [PATCH 066/138] fix: MustExist also checks implied values such as
 those from environment variables

---
 option.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/option.go b/option.go
index 988be46..5b4a93f 100644
--- a/option.go
+++ b/option.go
@@ -232,7 +232,7 @@ var (
 		DisableAutoVisibility:  setInternalFlag(internalFlagDisableAutoVisibility),
 		Required:               ActionFunc(requiredOption),
 		Exits:                  ActionFunc(wrapWithExit),
-		MustExist:              Before(ActionFunc(mustExistOption)),
+		MustExist:              At(justBeforeTiming, ActionFunc(mustExistOption)),
 		SkipFlagParsing:        setInternalFlag(internalFlagSkipFlagParsing),
 		WorkingDirectory:       Pipeline(DirectoryCompletion, Before(ActionFunc(workingDirectoryOption))),
 		Optional:               ActionFunc(optionalOption),
-- 
2.43.0


From 97434bf8ce5480eacc55268f0ceb9991e138dd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:37 +0000
Subject: [PATCH 067/138] fix: MustExist also checks persistent flags used with
 a sub-command

---
 context.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index 71fcf52..c54e81d 100644
--- a/context.go
+++ b/context.go
@@ -2191,7 +2191,7 @@ func triggerOptions(ctx *Context) error {
 	return nil
 }
 
-// triggerPersistentFlagValidators applies the validators of the flags of ancestors when any was
+// triggerPersistentFlagValidators applies the validators and checks of the flags of ancestors when any was
 // used in the current command because the ancestors only know about those used in their own
 func triggerPersistentFlagValidators(ctx *Context) error {
 	var flags []*Flag
@@ -2206,7 +2206,11 @@ func triggerPersistentFlagValidators(ctx *Context) error {
 		return nil
 	}
 	for _, f := range flags {
-		err := execute(ctx.newChild(f).setTiming(BeforeTiming), f.uses().Before[actualBeforeIndexValidatorTiming])
+		child := ctx.newChild(f).setTiming(BeforeTiming)
+		err := execute(child, Pipeline(
+			f.uses().Before[actualBeforeIndexValidatorTiming],
+			f.uses().Before[actualBeforeIndexJustBeforeTiming],
+		))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From cefe11db885e2534705e0790c5759e8f01dd0627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:57 +0000
Subject: [PATCH 068/138] fix: change the working directory when the persistent
 flag is used with a sub-command

---
 option.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/option.go b/option.go
index 5b4a93f..1e36627 100644
--- a/option.go
+++ b/option.go
@@ -234,7 +234,7 @@ var (
 		Exits:                  ActionFunc(wrapWithExit),
 		MustExist:              At(justBeforeTiming, ActionFunc(mustExistOption)),
 		SkipFlagParsing:        setInternalFlag(internalFlagSkipFlagParsing),
-		WorkingDirectory:       Pipeline(DirectoryCompletion, Before(ActionFunc(workingDirectoryOption))),
+		WorkingDirectory:       Pipeline(DirectoryCompletion, At(justBeforeTiming, ActionFunc(workingDirectoryOption))),
 		Optional:               ActionFunc(optionalOption),
 		DisallowFlagsAfterArgs: setInternalFlag(internalFlagDisallowFlagsAfterArgs),
 		No:                     ActionFunc(noOption),
-- 
2.43.0


From 947399502045e224a79c414e9300554fca820162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:00 +0000
Subject: [PATCH 069/138] fix: operators of expressions must start with a dash

---
 extensions/expr/expr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index 21021ed..4422682 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -779,8 +779,8 @@ func parseExpressions(exprOperands []*Expr, args []string) ([]Binding, cli.Bindi
 		arg := args[0]
 		args = args[1:]
 
-		expr, ok := exprs[arg[1:]]
-		if !ok {
+		expr, ok := exprs[strings.TrimPrefix(arg, "-")]
+		if !ok || !strings.HasPrefix(arg, "-") {
 			return nil, nil, unknownExpr(arg)
 		}
 
-- 
2.43.0


From a1aa955e6ea47914ffca664875efb83c9ae51e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:40 +0000
Subject: [PATCH 070/138] fix: the args of an operator end at the next operator
 and cannot be missing

---
 extensions/expr/expr.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index 4422682..76ef591 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -793,14 +793,21 @@ func parseExpressions(exprOperands []*Expr, args []string) ([]Binding, cli.Bindi
 		var pe *cli.ParseError
 		if err != nil {
 			pe = err.(*cli.ParseError)
-			args = pe.Remaining
 
 			switch pe.Code {
 			case cli.UnexpectedArgument:
-				return nil, nil, argsMustPrecedeExprs(args[0])
+				return nil, nil, argsMustPrecedeExprs(pe.Remaining[0])
 			case cli.ExpectedArgument:
 				return nil, nil, pe
 			}
+
+			// The next operator ends the args, of which none can be missing
+			count := len(args) - len(pe.Remaining)
+			_, err = cli.RawParse(args[:count], newBoundExpr(expr).exprSet, boundExpr.expr.internalFlags().toRaw())
+			if err != nil {
+				return nil, nil, err
+			}
+			args = args[count:]
 		}
 
 		// Update the bound expression with the data which was copied,
@@ -829,6 +836,11 @@ func (s *exprSet) lookupValue(name string) (any, bool) {
 	return nil, false
 }
 
+// ResolveAlias never resolves because the args of an operator are all positional
+func (*exprSet) ResolveAlias(string) (string, bool) {
+	return "", false
+}
+
 func emptyYielder(any) error {
 	return nil
 }
-- 
2.43.0


From 34f14877ecfca0d38707b6abfb9bdb63b273060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:02 +0000
Subject: [PATCH 071/138] fix: instances of an operator do not see the args of
 each other

---
 extensions/expr/expr.go | 64 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 57 insertions(+), 7 deletions(-)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index 76ef591..8dc886a 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"iter"
+	"reflect"
 	"regexp"
 	"slices"
 	"sort"
@@ -165,6 +166,9 @@ type Yielder func(any) error
 type boundExpr struct {
 	*exprSet
 	expr *Expr
+
+	// restore sets args which are not used by this instance to their initial values
+	restore map[string]func()
 }
 
 type exprBinding struct {
@@ -191,12 +195,42 @@ var (
 
 func newBoundExpr(e *Expr) *boundExpr {
 	set := newExprSet(cli.NewBinding(nil, e.Args, nil), nil)
+	restore := map[string]func(){}
+	for _, a := range e.Args {
+		restore[a.Name] = restoreValue(a.Value)
+	}
 	return &boundExpr{
 		expr:    e,
 		exprSet: set,
+		restore: restore,
+	}
+}
+
+// restoreValue obtains the function that sets the value referenced by the pointer
+// to what it is now
+func restoreValue(p any) func() {
+	v := reflect.ValueOf(p)
+	if v.Kind() != reflect.Pointer || v.IsNil() {
+		return func() {}
+	}
+	initial := copyValue(v.Elem())
+	return func() {
+		v.Elem().Set(copyValue(initial))
 	}
 }
 
+func copyValue(v reflect.Value) reflect.Value {
+	res := reflect.New(v.Type()).Elem()
+	res.Set(v)
+	if v.Kind() == reflect.Map && !v.IsNil() {
+		res.Set(reflect.MakeMapWithSize(v.Type(), v.Len()))
+		for _, k := range v.MapKeys() {
+			res.SetMapIndex(k, v.MapIndex(k))
+		}
+	}
+	return res
+}
+
 func newExprSet(b cli.Binding, all cli.BindingMap) *exprSet {
 	result := &exprSet{
 		BindingMap: all,
@@ -257,13 +291,13 @@ func (e *Expression) Initializer() cli.Action {
 		for _, eb := range e.items {
 			// For the expression bindings participating in the
 			// pipeline, apply the binding result data. These
-			tryResetIfSupported(eb)
-
 			if known, ok := eb.(*boundExpr); ok {
-				err = known.BindingMap().ApplyTo(known.exprSet)
+				err = known.apply()
 				if err != nil {
 					return
 				}
+			} else {
+				tryResetIfSupported(eb)
 			}
 		}
 
@@ -663,14 +697,30 @@ func (b *boundExpr) Reset() {
 
 func (b *boundExpr) Evaluate(c context.Context, v any, yield func(any) error) error {
 	ctx := cli.FromContext(c).ValueContextOf(b.Expr().Name, b)
-	tryResetIfSupported(b)
-
-	err := b.BindingMap().ApplyTo(b.exprSet)
+	err := b.apply()
 	if err != nil {
 		return err
 	}
 
-	return EvaluatorOf(b.expr.Evaluate).Evaluate(ctx, v, yield)
+	return EvaluatorOf(b.expr.Evaluate).Evaluate(ctx, v, func(v any) error {
+		if err := yield(v); err != nil {
+			return err
+		}
+
+		// Other instances of the operator use the same args
+		return b.apply()
+	})
+}
+
+// apply sets the args of the operator to those of this instance
+func (b *boundExpr) apply() error {
+	tryResetIfSupported(b)
+	for name, restore := range b.restore {
+		if len(b.BindingMap()[name]) == 0 {
+			restore()
+		}
+	}
+	return b.BindingMap().ApplyTo(b.exprSet)
 }
 
 func tryResetIfSupported(v any) {
-- 
2.43.0


From ea0fd81589d02aa218ac94f947a37c55a13de811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:38 +0000
Subject: [PATCH 072/138] fix: help of categories of operators which have no
 help text

---
 extensions/expr/templates.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/extensions/expr/templates.go b/extensions/expr/templates.go
index 4b0c5e8..92e93e6 100644
--- a/extensions/expr/templates.go
+++ b/extensions/expr/templates.go
@@ -18,9 +18,11 @@ type exprData struct {
 type exprDataCategory struct {
 	Undocumented bool
 	Category     string
-	VisibleExprs []*exprData
+	VisibleExprs exprDataList
 }
 
+type exprDataList []*exprData
+
 type exprDescriptionData struct {
 	VisibleExprs    []*exprData
 	ExprsByCategory []*exprDataCategory
@@ -40,6 +42,15 @@ func (s *synopsisWrapper[T]) String() string {
 	return buf.String()
 }
 
+// Names obtains the names of the operators
+func (e exprDataList) Names() []string {
+	res := make([]string, 0, len(e))
+	for _, x := range e {
+		res = append(res, x.Name)
+	}
+	return res
+}
+
 func exprAdapter(val *Expr) *exprData {
 	syn := val.newSynopsis()
 	return &exprData{
-- 
2.43.0


From d47a1567dbe5f7366cdc8ed4db3508787de74bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:00 +0000
Subject: [PATCH 073/138] fix: sort the operators of expressions when the app
 or command is marked with SortedExprs

---
 option.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/option.go b/option.go
index 1e36627..3224c8e 100644
--- a/option.go
+++ b/option.go
@@ -644,12 +644,18 @@ func sortedCommandsOpt(c *Context) error {
 }
 
 func sortedExprsOpt(c *Context) error {
-	exp, ok := c.target.description().(interface{ SortUsage() })
-	if !ok {
-		return nil
+	sortUsage := func(description any) {
+		if exp, ok := description.(interface{ SortUsage() }); ok {
+			exp.SortUsage()
+		}
 	}
 
-	exp.SortUsage()
+	sortUsage(c.target.description())
+	if c.IsCommand() {
+		for _, a := range c.Command().Args {
+			sortUsage(a.Description)
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 4c8ba604432c2996d04a2d3665f0506ee61f8fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:24 +0000
Subject: [PATCH 074/138] fix: text of provider values which have no args or
 whose args are a map pointer

---
 extensions/provider/provider.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index 5c45806..49988f1 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -17,7 +17,6 @@
 package provider
 
 import (
-	"bytes"
 	"context"
 	"flag"
 	"fmt"
@@ -295,18 +294,20 @@ func (v *Value) Set(arg string) error {
 
 // String obtains the textual representation
 func (v *Value) String() string {
-	var buf bytes.Buffer
-	buf.WriteString(v.Name)
-
+	var args string
 	switch val := v.Args.(type) {
+	case nil:
 	case map[string]string:
-		buf.WriteString(",")
-		buf.WriteString(support.FormatMap(val, ","))
+		args = support.FormatMap(val, ",")
+	case *map[string]string:
+		args = support.FormatMap(*val, ",")
 	default:
-		buf.WriteString(",")
-		buf.WriteString(fmt.Sprint(val))
+		args = fmt.Sprint(val)
+	}
+	if args == "" {
+		return v.Name
 	}
-	return buf.String()
+	return v.Name + "," + args
 }
 
 func (v *Value) Initializer() cli.Action {
-- 
2.43.0


From 234788821e0924341c7ea97801096413df2df8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:25 +0000
Subject: [PATCH 075/138] fix: creating a provider which is a discrete value

---
 extensions/provider/provider.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index 49988f1..a636b8e 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -359,6 +359,12 @@ func (r *Registry) New(name string, opts map[string]string) (any, error) {
 	if !ok {
 		return nil, fmt.Errorf("provider not found: %q", name)
 	}
+	if fac == nil {
+		if pro.Value == nil {
+			return nil, fmt.Errorf("provider has neither factory nor value: %q", name)
+		}
+		return pro.Value, nil
+	}
 	return fac(mergedOpts)
 }
 
-- 
2.43.0


From 047d07bbae0f6f00cd6a6997c494b34110188a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:26 +0000
Subject: [PATCH 076/138] fix: registry without providers

---
 extensions/provider/provider.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index a636b8e..8f57bbb 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -341,10 +341,16 @@ func validateProviderExists(c *cli.Context) error {
 }
 
 func (r *Registry) ProviderNames() []string {
+	if r.Providers == nil {
+		return nil
+	}
 	return r.Providers.ProviderNames()
 }
 
 func (r *Registry) LookupProvider(name string) (Detail, bool) {
+	if r.Providers == nil {
+		return Detail{}, false
+	}
 	return r.Providers.LookupProvider(name)
 }
 
-- 
2.43.0


From 530c952a38443caaf5d22d9602080270c94010fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:28 +0000
Subject: [PATCH 077/138] fix: registry used in the Uses pipeline of a flag

---
 extensions/provider/provider.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index 8f57bbb..2596925 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -376,6 +376,10 @@ func (r *Registry) New(name string, opts map[string]string) (any, error) {
 
 func (r *Registry) Execute(c context.Context) error {
 	return cli.Do(c, cli.Before(cli.ActionFunc(func(c1 *cli.Context) error {
+		// When used on a flag or arg, it applies to all of the containing command
+		for !c1.IsCommand() {
+			c1 = c1.Parent()
+		}
 		Services(c1).registries[r.Name] = r
 		return nil
 	})))
-- 
2.43.0


From 29dcf0994c26a64498e63c59c0d2bf4611ef828b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:32 +0000
Subject: [PATCH 078/138] fix: the flag for arguments of providers can be used
 several times

---
 extensions/provider/provider.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index 2596925..2f7ffa4 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -183,8 +183,9 @@ func validFactory(fn any) bool {
 // ArgumentFlag obtains a conventions-based flag for setting an argument
 func (v *Value) ArgumentFlag() cli.Prototype {
 	return cli.Prototype{
-		Name:  "arg",
-		Value: new(string),
+		Name:    "arg",
+		Value:   new(string),
+		Options: cli.EachOccurrence,
 		Setup: cli.Setup{
 			Uses: cli.Pipeline(
 				cli.Bind(v.Set),
@@ -222,9 +223,10 @@ func SetArgument(name string) cli.Action {
 	return cli.Prototype{
 		Name:     name + "-arg",
 		Value:    new(string),
+		Options:  cli.EachOccurrence,
 		HelpText: fmt.Sprintf("Sets an argument for %s", name),
 		Setup: cli.Setup{
-			Action: cli.BindIndirect(name, (*Value).Set),
+			Uses: cli.BindIndirect(name, (*Value).Set),
 		},
 	}
 }
-- 
2.43.0


From f1f06d7511ddb87cba96644e8ea889e9d6a70f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:34 +0000
Subject: [PATCH 079/138] fix: an argument of a provider does not become its
 name

---
 extensions/provider/provider.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index 2f7ffa4..e0412db 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -188,7 +188,7 @@ func (v *Value) ArgumentFlag() cli.Prototype {
 		Options: cli.EachOccurrence,
 		Setup: cli.Setup{
 			Uses: cli.Pipeline(
-				cli.Bind(v.Set),
+				cli.Bind(v.setArgument),
 				func(c *cli.Context) {
 					c.SetHelpText(fmt.Sprintf("Sets an argument for %s", c.Data()["DependentFlag"]))
 				},
@@ -226,7 +226,7 @@ func SetArgument(name string) cli.Action {
 		Options:  cli.EachOccurrence,
 		HelpText: fmt.Sprintf("Sets an argument for %s", name),
 		Setup: cli.Setup{
-			Uses: cli.BindIndirect(name, (*Value).Set),
+			Uses: cli.BindIndirect(name, (*Value).setArgument),
 		},
 	}
 }
@@ -269,19 +269,22 @@ func fallbackTemplate(c *cli.Context) error {
 
 // Set the text of the value.  Can be called successively to append.
 func (v *Value) Set(arg string) error {
-	if v.Args == nil {
-		v.Args = &map[string]string{}
-	}
 	if !v.setName {
 		args := strings.SplitN(arg, ",", 2)
 		v.Name = args[0]
 		v.setName = true
 
 		if len(args) == 1 {
+			v.ensureArgs()
 			return nil
 		}
 		arg = args[1]
 	}
+	return v.setArgument(arg)
+}
+
+func (v *Value) setArgument(arg string) error {
+	v.ensureArgs()
 
 	var args []string
 	if v.disableSplitting {
@@ -294,6 +297,12 @@ func (v *Value) Set(arg string) error {
 	return cli.Set(v.Args, args...)
 }
 
+func (v *Value) ensureArgs() {
+	if v.Args == nil {
+		v.Args = &map[string]string{}
+	}
+}
+
 // String obtains the textual representation
 func (v *Value) String() string {
 	var args string
-- 
2.43.0


From dffdf3e3c73c2c32222d7a0a1c598eb4abe42bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:50 +0000
Subject: [PATCH 080/138] fix: validate the arguments of providers that are set
 by their own flag

---
 extensions/provider/provider.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index e0412db..d90d2bb 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -189,6 +189,9 @@ func (v *Value) ArgumentFlag() cli.Prototype {
 		Setup: cli.Setup{
 			Uses: cli.Pipeline(
 				cli.Bind(v.setArgument),
+				cli.At(cli.ActionTiming, cli.ActionFunc(func(c *cli.Context) error {
+					return validateArguments(c, fmt.Sprint(c.Data()["DependentFlag"]), v)
+				})),
 				func(c *cli.Context) {
 					c.SetHelpText(fmt.Sprintf("Sets an argument for %s", c.Data()["DependentFlag"]))
 				},
@@ -226,7 +229,12 @@ func SetArgument(name string) cli.Action {
 		Options:  cli.EachOccurrence,
 		HelpText: fmt.Sprintf("Sets an argument for %s", name),
 		Setup: cli.Setup{
-			Uses: cli.BindIndirect(name, (*Value).setArgument),
+			Uses: cli.Pipeline(
+				cli.BindIndirect(name, (*Value).setArgument),
+				cli.At(cli.ActionTiming, cli.ActionFunc(func(c *cli.Context) error {
+					return validateArguments(c, name, c.Value(name).(*Value))
+				})),
+			),
 		},
 	}
 }
@@ -330,6 +338,18 @@ func (v *Value) Initializer() cli.Action {
 func validateProviderExists(c *cli.Context) error {
 	v := c.Value("").(*Value)
 	provider := strings.TrimLeft(c.Name(), "-")
+	return validateValue(c, provider, v)
+}
+
+// validateArguments applies to arguments which are set by their own flag
+func validateArguments(c *cli.Context, provider string, v *Value) error {
+	if v.Name == "" {
+		return nil
+	}
+	return validateValue(c, provider, v)
+}
+
+func validateValue(c *cli.Context, provider string, v *Value) error {
 	registry := Services(c).Registry(provider)
 	if registry == nil {
 		return nil
-- 
2.43.0


From db6cd9d289fda38ad2fc16eca0322d29318fb7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:29 +0000
Subject: [PATCH 081/138] fix: setting a list in a structure left items of the
 previous list

---
 extensions/structure/structure.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extensions/structure/structure.go b/extensions/structure/structure.go
index 99602f4..a2718e6 100644
--- a/extensions/structure/structure.go
+++ b/extensions/structure/structure.go
@@ -58,6 +58,9 @@ func Of(v any) *Value {
 func Decode(input, output any, opts ...DecoderOption) error {
 	config := &mapstructure.DecoderConfig{
 		Result: output,
+
+		// Slices in the fields of structs are replaced rather than written over
+		ZeroFields: reflect.Indirect(reflect.ValueOf(output)).Kind() == reflect.Struct,
 	}
 	if opts == nil {
 		opts = viableOptions()
-- 
2.43.0


From 4b66bca1331df74cb81f81fe665101cc80ca0227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:12 +0000
Subject: [PATCH 082/138] fix: report the same unknown argument of a provider
 on every run

---
 extensions/provider/provider.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index d90d2bb..b5ef434 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -22,6 +22,7 @@ import (
 	"fmt"
 	"maps"
 	"reflect"
+	"slices"
 	"sort"
 	"strings"
 
@@ -362,7 +363,7 @@ func validateValue(c *cli.Context, provider string, v *Value) error {
 	if !exists {
 		return fmt.Errorf("unknown %q %s", v.Name, provider)
 	}
-	for k := range v.rawArgs {
+	for _, k := range slices.Sorted(maps.Keys(v.rawArgs)) {
 		if _, exists := p[k]; !exists {
 			return fmt.Errorf("unknown argument %q for %q %s", k, v.Name, provider)
 		}
-- 
2.43.0


From e4efa9700cc8f4db316b48266f0d2d64390279eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:01 +0000
Subject: [PATCH 083/138] fix: DisableSplitting on a provider whose args are a
 structure

---
 extensions/provider/provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index b5ef434..25353af 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -205,6 +205,9 @@ func (v *Value) ArgumentFlag() cli.Prototype {
 // delimiters between values.
 func (v *Value) DisableSplitting() {
 	v.disableSplitting = true
+	if args, ok := v.Args.(interface{ DisableSplitting() }); ok {
+		args.DisableSplitting()
+	}
 }
 
 // SetArgument provides an action that can be used to set the argument for a provider.
-- 
2.43.0


From 4c373fa94b2887a246fa9d2d27bb0adbe3ca8abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:10 +0000
Subject: [PATCH 084/138] fix: fields of structures which are pointers to
 values

---
 extensions/structure/structure.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extensions/structure/structure.go b/extensions/structure/structure.go
index a2718e6..698e63d 100644
--- a/extensions/structure/structure.go
+++ b/extensions/structure/structure.go
@@ -150,7 +150,11 @@ func valueHook(from, to reflect.Value) (any, error) {
 	}
 
 	if !to.Type().Implements(valueType) {
-		return from.Interface(), nil
+		// Pointers have been dereferenced already
+		if !to.CanAddr() || !to.Addr().Type().Implements(valueType) {
+			return from.Interface(), nil
+		}
+		to = to.Addr()
 	}
 
 	result := to.Interface()
-- 
2.43.0


From b7acbf3d74cbe229c8738a053a9fac6db7772437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:26 +0000
Subject: [PATCH 085/138] fix: files of templates within directories and with
 absolute names

---
 extensions/template/context.go | 15 ++++++---------
 extensions/template/file.go    | 16 +++++-----------
 2 files changed, 11 insertions(+), 20 deletions(-)

diff --git a/extensions/template/context.go b/extensions/template/context.go
index 1194756..eb7bd4f 100644
--- a/extensions/template/context.go
+++ b/extensions/template/context.go
@@ -52,10 +52,11 @@ func (c *OutputContext) Exists(name string) bool {
 }
 
 func (c *OutputContext) File(name string) string {
+	name = c.expandName(name)
 	if strings.HasPrefix(name, "/") {
 		return name
 	}
-	return filepath.Join(c.WorkDir(), c.expandName(name))
+	return filepath.Join(c.WorkDir(), name)
 }
 
 // WorkDir is the path to the working directory
@@ -122,7 +123,7 @@ func (c *OutputContext) reportChange(original []byte, name string, created bool)
 	}
 
 	newContents, _ := func() ([]byte, error) {
-		f, err := c.actualFS().Open(c.File(name))
+		f, err := c.actualFS().Open(name)
 		if err != nil {
 			return nil, nil
 		}
@@ -233,20 +234,16 @@ func (c *OutputContext) Rename(oldpath, newpath string) error {
 }
 
 func (c *OutputContext) pathEnsure(name string) (string, error) {
-	name = c.expandName(name)
-	if strings.HasPrefix(name, "/") {
-		return name, nil
-	}
-
+	name = c.File(name)
 	dir := filepath.Dir(name)
 	if _, err := c.actualFS().Stat(dir); os.IsNotExist(err) {
 		err = c.actualFS().MkdirAll(dir, 0755)
 		if err != nil {
-			return c.File(name), err
+			return name, err
 		}
 	}
 
-	return c.File(name), nil
+	return name, nil
 }
 
 func (c *OutputContext) actualFS() cli.FS {
diff --git a/extensions/template/file.go b/extensions/template/file.go
index cf43969..bb89a0e 100644
--- a/extensions/template/file.go
+++ b/extensions/template/file.go
@@ -137,14 +137,13 @@ func Gofmt() FileGenerator {
 			return err
 		}
 
-		_, err = doFileGenerate(ctx, c, name, Contents(result))
-		return err
+		return Contents(result).GenerateFile(ctx, c, name)
 	})
 }
 
 func Mode(mode fs.FileMode) FileGenerator {
-	return FileGeneratorFunc(func(ctx context.Context, c *OutputContext, name string) error {
-		return c.Chmod(name, mode)
+	return FileGeneratorFunc(func(_ context.Context, c *OutputContext, name string) error {
+		return c.actualFS().Chmod(name, mode)
 	})
 }
 
@@ -156,12 +155,12 @@ func (f FileGeneratorFunc) GenerateFile(ctx context.Context, c *OutputContext, n
 }
 
 func (m FileMode) GenerateFile(_ context.Context, c *OutputContext, name string) error {
-	return c.Chmod(name, fs.FileMode(int(m)))
+	return c.actualFS().Chmod(name, fs.FileMode(int(m)))
 }
 
 func (f *fileGenerator) Generate(ctx context.Context, c *OutputContext) error {
 	if len(f.ops) == 0 {
-		c.identical(f.name)
+		c.identical(c.File(f.name))
 		return nil
 	}
 
@@ -172,11 +171,6 @@ func (f *fileGenerator) Generate(ctx context.Context, c *OutputContext) error {
 		original, _ = io.ReadAll(file)
 	}
 
-	if len(f.ops) == 0 {
-		c.identical(f.name)
-		return nil
-	}
-
 	fileName, err := doFileGenerate(ctx, c, f.name, f.ops...)
 	if err != nil {
 		return err
-- 
2.43.0


From 5923143e9c641c12964af3686a17209c65fccc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:27 +0000
Subject: [PATCH 086/138] fix: names and values of template data, and templates
 with basic file systems

---
 extensions/template/template.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extensions/template/template.go b/extensions/template/template.go
index 6da5b9c..2b58df3 100644
--- a/extensions/template/template.go
+++ b/extensions/template/template.go
@@ -110,7 +110,7 @@ func (r *Root) pipeline() cli.Action {
 				Vars:      map[string]any{},
 				Overwrite: r.Overwrite,
 				DryRun:    r.DryRun,
-				FS:        c.FS.(cli.FS),
+				FS:        cli.NewFS(c.FS),
 				working:   []string{workDir},
 				out:       c.Stdout,
 			}
@@ -155,8 +155,8 @@ func someData(namevalues ...any) Generator {
 
 	res := make([]Generator, 0, len(namevalues)/2)
 	for i := 0; i < len(namevalues); i += 2 {
-		name := namevalues[0].(string)
-		value := namevalues[0]
+		name := namevalues[i].(string)
+		value := namevalues[i+1]
 		res = append(res, Data(name, value))
 	}
 
-- 
2.43.0


From ba745eb1bc9f5d31566d40d0bab1cada71b7926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:04 +0000
Subject: [PATCH 087/138] fix: dry runs of templates made directories, files
 and modes, and reported changes as identical

---
 extensions/template/context.go | 60 ++++++++++++++++++++++++++++++----
 extensions/template/file.go    | 46 ++++++++------------------
 2 files changed, 67 insertions(+), 39 deletions(-)

diff --git a/extensions/template/context.go b/extensions/template/context.go
index eb7bd4f..04f2c13 100644
--- a/extensions/template/context.go
+++ b/extensions/template/context.go
@@ -24,6 +24,9 @@ type OutputContext struct {
 
 	working []string
 	out     cli.Writer
+
+	// pending is the files that would have been generated in a dry run
+	pending map[string][]byte
 }
 
 var (
@@ -122,13 +125,7 @@ func (c *OutputContext) reportChange(original []byte, name string, created bool)
 		return
 	}
 
-	newContents, _ := func() ([]byte, error) {
-		f, err := c.actualFS().Open(name)
-		if err != nil {
-			return nil, nil
-		}
-		return io.ReadAll(f)
-	}()
+	newContents, _ := c.readFile(context.Background(), name)
 	if bytes.Equal(original, newContents) {
 		c.identical(name)
 	} else {
@@ -136,6 +133,51 @@ func (c *OutputContext) reportChange(original []byte, name string, created bool)
 	}
 }
 
+// readFile obtains the contents of the file, which accounts for contents that
+// a dry run would have generated
+func (c *OutputContext) readFile(ctx context.Context, name string) ([]byte, error) {
+	if data, ok := c.pending[name]; ok {
+		return data, nil
+	}
+	f, err := c.actualFS().OpenContext(ctx, name)
+	if err != nil {
+		return nil, err
+	}
+	defer f.Close()
+	return io.ReadAll(f)
+}
+
+func (c *OutputContext) writeFile(name string, data []byte) error {
+	if c.DryRun {
+		if c.pending == nil {
+			c.pending = map[string][]byte{}
+		}
+		c.pending[name] = data
+		return nil
+	}
+
+	file, err := c.actualFS().Create(name)
+	if err != nil {
+		return err
+	}
+	_, err = file.(io.Writer).Write(data)
+	if cerr := file.Close(); err == nil {
+		err = cerr
+	}
+	return err
+}
+
+func (c *OutputContext) chmod(name string, mode fs.FileMode) error {
+	if c.DryRun {
+		if _, ok := c.pending[name]; ok {
+			return nil
+		}
+		_, err := c.actualFS().Stat(name)
+		return err
+	}
+	return c.actualFS().Chmod(name, mode)
+}
+
 func (c *OutputContext) expandName(name string) string {
 	var buf bytes.Buffer
 	tpl, err := template.New("fileName").Parse(name)
@@ -235,6 +277,10 @@ func (c *OutputContext) Rename(oldpath, newpath string) error {
 
 func (c *OutputContext) pathEnsure(name string) (string, error) {
 	name = c.File(name)
+	if c.DryRun {
+		return name, nil
+	}
+
 	dir := filepath.Dir(name)
 	if _, err := c.actualFS().Stat(dir); os.IsNotExist(err) {
 		err = c.actualFS().MkdirAll(dir, 0755)
diff --git a/extensions/template/file.go b/extensions/template/file.go
index bb89a0e..c86723f 100644
--- a/extensions/template/file.go
+++ b/extensions/template/file.go
@@ -44,17 +44,7 @@ func newGenerateContents(f generateFile) FileGeneratorFunc {
 			return err
 		}
 
-		if c.DryRun {
-			return nil
-		}
-
-		file, err := c.actualFS().Create(name)
-		if err != nil {
-			return err
-		}
-
-		_, err = file.(io.Writer).Write(data)
-		return err
+		return c.writeFile(name, data)
 	}
 }
 
@@ -86,21 +76,22 @@ func Contents(contents any) FileGenerator {
 // Touch touches the file.
 func Touch() FileGenerator {
 	return FileGeneratorFunc(func(ctx context.Context, c *OutputContext, name string) error {
+		if _, ok := c.pending[name]; ok {
+			return nil
+		}
+
 		f := c.actualFS()
-		fileName := name
-		_, err := f.Stat(fileName)
+		_, err := f.Stat(name)
 
 		if os.IsNotExist(err) {
-			file, err := f.Create(name)
-			if err != nil {
-				return err
-			}
-			defer file.Close()
+			return c.writeFile(name, nil)
+		}
+		if c.DryRun {
 			return nil
 		}
 
 		currentTime := time.Now().Local()
-		return f.Chtimes(fileName, currentTime, currentTime)
+		return f.Chtimes(name, currentTime, currentTime)
 	})
 }
 
@@ -123,12 +114,7 @@ func Template(tt Interface, namedata ...any) FileGenerator {
 
 func Gofmt() FileGenerator {
 	return FileGeneratorFunc(func(ctx context.Context, c *OutputContext, name string) error {
-		file, err := c.FS.OpenContext(ctx, name)
-		if err != nil {
-			return err
-		}
-
-		src, err := io.ReadAll(file)
+		src, err := c.readFile(ctx, name)
 		if err != nil {
 			return err
 		}
@@ -143,7 +129,7 @@ func Gofmt() FileGenerator {
 
 func Mode(mode fs.FileMode) FileGenerator {
 	return FileGeneratorFunc(func(_ context.Context, c *OutputContext, name string) error {
-		return c.actualFS().Chmod(name, mode)
+		return c.chmod(name, mode)
 	})
 }
 
@@ -155,7 +141,7 @@ func (f FileGeneratorFunc) GenerateFile(ctx context.Context, c *OutputContext, n
 }
 
 func (m FileMode) GenerateFile(_ context.Context, c *OutputContext, name string) error {
-	return c.actualFS().Chmod(name, fs.FileMode(int(m)))
+	return c.chmod(name, fs.FileMode(int(m)))
 }
 
 func (f *fileGenerator) Generate(ctx context.Context, c *OutputContext) error {
@@ -164,12 +150,8 @@ func (f *fileGenerator) Generate(ctx context.Context, c *OutputContext) error {
 		return nil
 	}
 
-	file, err := c.OpenContext(ctx, f.name)
+	original, err := c.readFile(ctx, c.File(f.name))
 	created := os.IsNotExist(err)
-	var original []byte
-	if err == nil {
-		original, _ = io.ReadAll(file)
-	}
 
 	fileName, err := doFileGenerate(ctx, c, f.name, f.ops...)
 	if err != nil {
-- 
2.43.0


From f129407304fe3697aa9b5ffcf11f608e2a6ecf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:35 +0000
Subject: [PATCH 088/138] fix: running an app within another one cleared the
 current app

---
 app.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app.go b/app.go
index 0e21331..3d8b2c4 100644
--- a/app.go
+++ b/app.go
@@ -271,9 +271,10 @@ func (a *App) Initialize(c context.Context) (context.Context, error) {
 }
 
 func provideCurrentApp(a *App) func() {
+	previous := CurrentApp()
 	SetCurrentApp(a)
 	return func() {
-		SetCurrentApp(nil)
+		SetCurrentApp(previous)
 	}
 }
 
-- 
2.43.0


From 6dc6c15f934ccadf0f4d10be0ed2ac76a28fd6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:35 +0000
Subject: [PATCH 089/138] fix: values of flags and args which are not valid had
 no parse error code, name or exit status

---
 error.go  | 14 ++++++++++++++
 option.go |  1 +
 set.go    | 28 ++++++++++++----------------
 3 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/error.go b/error.go
index ab3a32c..5a75a9e 100644
--- a/error.go
+++ b/error.go
@@ -313,6 +313,20 @@ func argTakerError(name string, value string, err error, remaining []string) err
 	}
 }
 
+// invalidValueError obtains the error for the occurrence of a flag or arg whose
+// value couldn't be set.
+func invalidValueError(name string, occurrence []string, err error) error {
+	if coder := ExitCoder(nil); errors.As(err, &coder) {
+		return err
+	}
+	if strings.HasPrefix(occurrence[0], "<") {
+		name = "<" + name + ">"
+	} else {
+		name = optionName(name)
+	}
+	return argTakerError(name, strings.Join(occurrence[1:], " "), err, nil)
+}
+
 func formatStrconvError(err error, value string) error {
 	if e, ok := err.(*strconv.NumError); ok {
 		switch e.Err {
diff --git a/option.go b/option.go
index 3224c8e..ef6bdf2 100644
--- a/option.go
+++ b/option.go
@@ -606,6 +606,7 @@ func eachOccurrenceOpt(c1 *Context) error {
 			occurrence.reset()
 
 			if err := rawApplyToOption(
+				occurrence.name(),
 				[][]string{mini.Raw("")},
 				occurrence.transformFunc(),
 				occurrence,
diff --git a/set.go b/set.go
index 18b3264..f7dacaf 100644
--- a/set.go
+++ b/set.go
@@ -585,8 +585,7 @@ func (m BindingMap) ApplyTo(b Binding) error {
 		if !ok {
 			continue
 		}
-		err := rawApplyToOption(v, transform, value)
-		if err != nil {
+		if err := rawApplyToOption(name, v, transform, value); err != nil {
 			return err
 		}
 	}
@@ -612,27 +611,24 @@ func (m BindingMap) BindingNames() []string {
 	return keys
 }
 
-func rawApplyToOption(v [][]string, transform TransformFunc, value BindingState) error {
-	if transform != nil {
-		for _, values := range v {
-			d, err := transform(values)
-			if err != nil {
-				return err
-			}
-			if err := value.SetOccurrenceData(d); err != nil {
-				return err
-			}
+func rawApplyToOption(name string, v [][]string, transform TransformFunc, value BindingState) error {
+	for _, values := range v {
+		if err := rawApplyOccurrence(values, transform, value); err != nil {
+			return invalidValueError(name, values, err)
 		}
-		return nil
 	}
+	return nil
+}
 
-	for _, values := range v {
-		err := value.SetOccurrence(values[1:]...)
+func rawApplyOccurrence(values []string, transform TransformFunc, value BindingState) error {
+	if transform != nil {
+		d, err := transform(values)
 		if err != nil {
 			return err
 		}
+		return value.SetOccurrenceData(d)
 	}
-	return nil
+	return value.SetOccurrence(values[1:]...)
 }
 
 func (a *argList) next() bool {
-- 
2.43.0


From bd537ae682746e97250bcce7f88578b295af5cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:21 +0000
Subject: [PATCH 090/138] fix: errors for unknown flags with a value and short
 flags after args named other text

---
 set.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/set.go b/set.go
index f7dacaf..11b531d 100644
--- a/set.go
+++ b/set.go
@@ -4,6 +4,7 @@ import (
 	"maps"
 	"sort"
 	"strings"
+	"unicode/utf8"
 )
 
 // BindingMap contains the occurrences of the values passed to each flag and arg.
@@ -289,9 +290,9 @@ Parsing:
 		// Long option processing
 		if arg[1] == '-' {
 			e := strings.IndexRune(arg, '=')
-			var value string
+			var value, suffix string
 			if e > 0 {
-				value = arg[e+1:]
+				value, suffix = arg[e+1:], arg[e:]
 				arg = arg[:e]
 			}
 
@@ -301,7 +302,7 @@ Parsing:
 			flag, ok := b.ResolveAlias(arg[2:])
 
 			if !ok {
-				err = unknownOption(arg[2:], prepend(optionName(arg[2:]), args...))
+				err = unknownOption(arg[2:], prepend(optionName(arg[2:])+suffix, args...))
 				return
 			}
 
@@ -332,7 +333,8 @@ Parsing:
 		// Short option processing
 		arg = arg[1:] // strip -
 		if disallowFlagsAfterArgs && anyArgs {
-			err = flagAfterArgError(arg)
+			first, _ := utf8.DecodeRuneInString(arg)
+			err = flagAfterArgError(first)
 			return
 		}
 
-- 
2.43.0


From 0f2e4aa084ed244df183cbc7bff22521ef4bb2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:34 +0000
Subject: [PATCH 091/138] fix: values from files: separate name and value, text
 with delimiters, nil file system and files left open

---
 action.go | 57 ++++++++++++++++++++++++++++++++++++-------------------
 file.go   | 13 +++++++++++++
 2 files changed, 50 insertions(+), 20 deletions(-)

diff --git a/action.go b/action.go
index f23f627..38d2879 100644
--- a/action.go
+++ b/action.go
@@ -1235,8 +1235,13 @@ func Transform(fn TransformFunc) Action {
 func ValueTransform(valueFn TransformFunc) Action {
 	return Transform(func(raw []string) (any, error) {
 		name, value, hasValue := splitValuePair(raw[1])
+		rest := raw[2:]
+		if !hasValue && len(rest) > 0 {
+			// name and value were separate arguments
+			value, rest, hasValue = rest[0], rest[1:], true
+		}
 		if hasValue {
-			values := append([]string{name, value}, raw[2:]...)
+			values := append([]string{name, value}, rest...)
 			f, err := valueFn(values)
 			if err != nil {
 				return nil, err
@@ -1246,13 +1251,18 @@ func ValueTransform(valueFn TransformFunc) Action {
 			if err != nil {
 				return nil, err
 			}
-			return name + "=" + txt, nil
+			return escapeValuePair(name) + "=" + escapeValuePair(txt), nil
 		}
 
-		return name, nil
+		return raw[1], nil
 	})
 }
 
+// escapeValuePair escapes the name or value so that it has no delimiters
+func escapeValuePair(s string) string {
+	return strings.NewReplacer("=", `\=`, ",", `\,`).Replace(s)
+}
+
 func transformOutputToString(v any) (string, error) {
 	switch val := v.(type) {
 	case string:
@@ -1276,33 +1286,40 @@ func transformOutputToString(v any) (string, error) {
 // prefix is not present, it is interpretted as a literal value.
 // When f is nil, the file system is determined from the Context.
 func TransformOptionalFileReference(f fs.FS) TransformFunc {
-	return func(raw []string) (any, error) {
-		readers := make([]io.Reader, len(raw)-1)
-		for i, s := range raw[1:] {
-			if strings.HasPrefix(s, "@") {
-				f, err := f.Open(s[1:])
-				if err != nil {
-					return nil, err
-				}
-				readers[i] = f
-			} else {
-				readers[i] = strings.NewReader(s)
-			}
-		}
-		return io.MultiReader(readers...), nil
-	}
+	return transformFiles(f, func(s string) (string, bool) {
+		return strings.CutPrefix(s, "@")
+	})
 }
 
 // TransformFileReference obtains the transform for the given file system.
 func TransformFileReference(f fs.FS) TransformFunc {
+	return transformFiles(f, func(s string) (string, bool) {
+		return s, true
+	})
+}
+
+func transformFiles(f fs.FS, fileName func(string) (string, bool)) TransformFunc {
 	return func(raw []string) (any, error) {
+		if f == nil {
+			f = newDefaultFS(os.Stdin, os.Stdout)
+		}
 		readers := make([]io.Reader, len(raw)-1)
 		for i, s := range raw[1:] {
-			f, err := f.Open(s)
+			name, ok := fileName(s)
+			if !ok {
+				readers[i] = strings.NewReader(s)
+				continue
+			}
+			file, err := f.Open(name)
 			if err != nil {
+				for _, r := range readers[:i] {
+					if c, ok := r.(io.Closer); ok {
+						c.Close()
+					}
+				}
 				return nil, err
 			}
-			readers[i] = f
+			readers[i] = &fileReader{file}
 		}
 		return io.MultiReader(readers...), nil
 	}
diff --git a/file.go b/file.go
index ba10471..7ec4fcd 100644
--- a/file.go
+++ b/file.go
@@ -111,6 +111,11 @@ type contextFile struct {
 	ctx context.Context
 }
 
+// fileReader reads the file and closes it once it has been read
+type fileReader struct {
+	fs.File
+}
+
 type fsExtensionWrapper struct {
 	fs.FS
 }
@@ -119,6 +124,14 @@ type dirFS string
 
 var errStopWalk = errors.New("stop walking")
 
+func (f *fileReader) Read(p []byte) (int, error) {
+	n, err := f.File.Read(p)
+	if err != nil {
+		f.File.Close()
+	}
+	return n, err
+}
+
 // NewFS wraps the given FS for use as a CLI file system.
 func NewFS(f fs.FS) FS {
 	return wrapFS(f)
-- 
2.43.0


From e2f83f05bfff381ef7496df8823ce8f5c4c25b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:38 +0000
Subject: [PATCH 092/138] fix: values from files: leave standard input and
 output open

---
 action.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/action.go b/action.go
index 38d2879..5fcd98c 100644
--- a/action.go
+++ b/action.go
@@ -1319,6 +1319,11 @@ func transformFiles(f fs.FS, fileName func(string) (string, bool)) TransformFunc
 				}
 				return nil, err
 			}
+			if name == "-" {
+				// standard input stays open
+				readers[i] = file
+				continue
+			}
 			readers[i] = &fileReader{file}
 		}
 		return io.MultiReader(readers...), nil
-- 
2.43.0


From 3d9b3e1c274e45420fd41cdc1fcfd9e2de7120f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:16 +0000
Subject: [PATCH 093/138] fix: values: replace the initial value of bytes, and
 do not add within storage shared by the initial values

---
 value.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/value.go b/value.go
index 5531c91..cd636a2 100644
--- a/value.go
+++ b/value.go
@@ -15,6 +15,7 @@ import (
 	"net/url"
 	"reflect"
 	"regexp"
+	"slices"
 	"strconv"
 	"strings"
 	"time"
@@ -822,9 +823,28 @@ func optionApplyValueConventions(p any, flags internalFlags, firstOccur bool) {
 		case *[]*NameValue:
 			*p = []*NameValue{}
 
+		case *[]byte:
+			*p = nil
+
 		case *map[string]string:
 			*p = map[string]string{}
 		}
+		return
+	}
+
+	// Values are added to the initial value, but not within storage that it could share
+	switch p := p.(type) {
+	case *FileSet:
+		p.Files = slices.Clip(p.Files)
+
+	case *[]string:
+		*p = slices.Clip(*p)
+
+	case *[]*NameValue:
+		*p = slices.Clip(*p)
+
+	case *[]byte:
+		*p = slices.Clip(*p)
 	}
 }
 
-- 
2.43.0


From 87bb42e6b8671b719091270ae108a8a1ce53c7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:54 +0000
Subject: [PATCH 094/138] fix: do not share storage between pipelines which are
 derived from one another

---
 action.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/action.go b/action.go
index 5fcd98c..cb66485 100644
--- a/action.go
+++ b/action.go
@@ -12,6 +12,7 @@ import (
 	"os/signal"
 	"regexp"
 	"runtime/debug"
+	"slices"
 	"strconv"
 	"strings"
 	"time"
@@ -1666,12 +1667,12 @@ func (af actionFunc) Execute(ctx context.Context) error {
 
 // Append appends actions to the pipeline
 func (p ActionPipeline) Append(x ...Action) ActionPipeline {
-	return append(p, x...)
+	return append(slices.Clip(p), x...)
 }
 
 // Prepend prepends actions to the pipeline
 func (p ActionPipeline) Prepend(x ...Action) ActionPipeline {
-	return append(x, p...)
+	return append(slices.Clip(x), p...)
 }
 
 // Execute the pipeline by calling each action successively
-- 
2.43.0


From 79292d74ad0e1e70d3f198f03bca5c299b09b37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:56 +0000
Subject: [PATCH 095/138] fix: setup: ignore timing errors of every part if
 optional, and parts which are not set

---
 action.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/action.go b/action.go
index cb66485..5c71b0b 100644
--- a/action.go
+++ b/action.go
@@ -449,22 +449,22 @@ func init() {
 // pipelines
 func (s Setup) Execute(ctx context.Context) error {
 	c := FromContext(ctx)
-	if s.Uses != nil {
-		if err := c.act(s.Uses, InitialTiming, s.Optional); err != nil {
-			return err
+	for _, part := range []struct {
+		action any
+		timing Timing
+	}{
+		{s.Uses, InitialTiming},
+		{s.Before, BeforeTiming},
+		{s.Action, ActionTiming},
+		{s.After, AfterTiming},
+	} {
+		if part.action == nil {
+			continue
 		}
-	}
-	if s.Before != nil {
-		if err := c.Before(ActionOf(s.Before)); err != nil {
+		if err := c.act(part.action, part.timing, s.Optional); err != nil {
 			return err
 		}
 	}
-	if err := c.Action(ActionOf(s.Action)); err != nil {
-		return err
-	}
-	if err := c.After(ActionOf(s.After)); err != nil {
-		return err
-	}
 	return nil
 }
 
-- 
2.43.0


From 6cb46e35224061c91e7147f344977f68b107973e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:59 +0000
Subject: [PATCH 096/138] fix: let middleware added in the Uses or Before
 pipeline wrap the action of a command

---
 action.go  |  4 +---
 context.go | 10 ++++++++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/action.go b/action.go
index 5c71b0b..48b1aef 100644
--- a/action.go
+++ b/action.go
@@ -322,9 +322,7 @@ var (
 			ActionFunc(triggerValueTargets),
 			IfMatch(subcommandDidNotExecute,
 				actions(
-					executeDeferredPipeline(ActionTiming),
-					actionFunc(triggerRobustParsingAndCompletion),
-					executeUserPipeline(ActionTiming),
+					actionFunc(executeCommandPipeline),
 				),
 			),
 		),
diff --git a/context.go b/context.go
index c54e81d..0afdac5 100644
--- a/context.go
+++ b/context.go
@@ -2292,6 +2292,16 @@ func executeOptionPipeline(ctx context.Context) error {
 	return Do(ctx, Pipeline(target.uses().pipeline(ActionTiming), target.pipeline(ActionTiming)))
 }
 
+func executeCommandPipeline(ctx context.Context) error {
+	// Middleware which was deferred also wraps the user action
+	target := FromContext(ctx).target
+	return Do(ctx, Pipeline(
+		target.uses().pipeline(ActionTiming),
+		actionFunc(triggerRobustParsingAndCompletion),
+		target.pipeline(ActionTiming),
+	))
+}
+
 func findValueTargetByName(items []*valueTarget, name string) (*valueTarget, bool) {
 	name = strings.TrimPrefix(name, "<-")
 	name = strings.TrimSuffix(name, ">")
-- 
2.43.0


From 08519f5df3fc4a1b3d01e95170f4ff4b555d3732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:03 +0000
Subject: [PATCH 097/138] fix: run actions of the implicit value timing after
 the others of the before timing

---
 action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/action.go b/action.go
index 48b1aef..4bed0a9 100644
--- a/action.go
+++ b/action.go
@@ -1779,7 +1779,7 @@ func (w withTimingWrapper) Execute(ctx context.Context) error {
 			setInternalFlag(internalFlagImplicitTimingActive),
 			w.Action,
 			unsetInternalFlag(internalFlagImplicitTimingActive),
-		), BeforeTiming, false)
+		), ImplicitValueTiming, false)
 	}
 
 	return c.act(w.Action, w.t, false)
-- 
2.43.0


From 0e1193536a7f94868acf2b717bbfb5f396aa12af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:26 +0000
Subject: [PATCH 098/138] fix: prototype: copy data to a target which has none
 yet

---
 action.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/action.go b/action.go
index 4bed0a9..904ecba 100644
--- a/action.go
+++ b/action.go
@@ -7,7 +7,6 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
-	"maps"
 	"os"
 	"os/signal"
 	"regexp"
@@ -1559,7 +1558,7 @@ func (p *Prototype) copyToCommand(o *Command) {
 	}
 
 	o.Options |= p.Options
-	maps.Copy(o.Data, p.Data)
+	copyData(o, p.Data)
 	if o.Completion == nil {
 		o.Completion = p.Completion
 	}
@@ -1590,7 +1589,7 @@ func (p *Prototype) copyToArg(c *Context) {
 
 	o.EnvVars = append(o.EnvVars, p.EnvVars...)
 	o.Options |= p.Options
-	maps.Copy(o.Data, p.Data)
+	copyData(o, p.Data)
 }
 
 func (p *Prototype) copyToFlag(c *Context) {
@@ -1616,7 +1615,13 @@ func (p *Prototype) copyToFlag(c *Context) {
 	o.Aliases = append(o.Aliases, p.Aliases...)
 	o.EnvVars = append(o.EnvVars, p.EnvVars...)
 	o.Options |= p.Options
-	maps.Copy(o.Data, p.Data)
+	copyData(o, p.Data)
+}
+
+func copyData(o target, data map[string]any) {
+	for k, v := range data {
+		o.SetData(k, v)
+	}
 }
 
 func (p *Prototype) copyToValue(c *Context) error {
@@ -1640,9 +1645,7 @@ func (p *Prototype) copyToValue(c *Context) error {
 	if o.description() == "" || o.description() == nil {
 		o.setDescription(p.Description)
 	}
-	for k, v := range p.Data {
-		o.SetData(k, v)
-	}
+	copyData(o, p.Data)
 	o.setAliases(p.Aliases)
 	p.Options.Execute(c)
 	return nil
-- 
2.43.0


From 73714e93fc300cc2aea16ae99f0301169c88683a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:29 +0000
Subject: [PATCH 099/138] fix: aliases and environment variables: do not write
 to storage shared with other targets

---
 action.go  | 8 ++++----
 context.go | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/action.go b/action.go
index 904ecba..71df76c 100644
--- a/action.go
+++ b/action.go
@@ -1562,7 +1562,7 @@ func (p *Prototype) copyToCommand(o *Command) {
 	if o.Completion == nil {
 		o.Completion = p.Completion
 	}
-	o.Aliases = append(o.Aliases, p.Aliases...)
+	o.Aliases = append(slices.Clip(o.Aliases), p.Aliases...)
 }
 
 func (p *Prototype) copyToArg(c *Context) {
@@ -1587,7 +1587,7 @@ func (p *Prototype) copyToArg(c *Context) {
 		o.Completion = p.Completion
 	}
 
-	o.EnvVars = append(o.EnvVars, p.EnvVars...)
+	o.EnvVars = append(slices.Clip(o.EnvVars), p.EnvVars...)
 	o.Options |= p.Options
 	copyData(o, p.Data)
 }
@@ -1612,8 +1612,8 @@ func (p *Prototype) copyToFlag(c *Context) {
 		o.Completion = p.Completion
 	}
 
-	o.Aliases = append(o.Aliases, p.Aliases...)
-	o.EnvVars = append(o.EnvVars, p.EnvVars...)
+	o.Aliases = append(slices.Clip(o.Aliases), p.Aliases...)
+	o.EnvVars = append(slices.Clip(o.EnvVars), p.EnvVars...)
 	o.Options |= p.Options
 	copyData(o, p.Data)
 }
diff --git a/context.go b/context.go
index 0afdac5..696f0cf 100644
--- a/context.go
+++ b/context.go
@@ -769,7 +769,7 @@ func (c *Context) Aliases() []string {
 // if this is called after initialization.
 func (c *Context) AddAlias(aliases ...string) error {
 	return c.updateAliases(func(aa []string) []string {
-		return append(aa, aliases...)
+		return append(slices.Clip(aa), aliases...)
 	})
 }
 
@@ -778,7 +778,7 @@ func (c *Context) AddAlias(aliases ...string) error {
 // returned if this is caleld after initialization.
 func (c *Context) RemoveAlias(a string) error {
 	return c.updateAliases(func(aliases []string) []string {
-		return slices.DeleteFunc(aliases, func(s string) bool {
+		return slices.DeleteFunc(slices.Clone(aliases), func(s string) bool {
 			return s == a
 		})
 	})
-- 
2.43.0


From c821b74059528aa75b3c9d71747406cead74673b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:32 +0000
Subject: [PATCH 100/138] fix: prototype: leave the texts of an expression
 alone which the prototype does not have

---
 action.go | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/action.go b/action.go
index 71df76c..100ab4f 100644
--- a/action.go
+++ b/action.go
@@ -1531,22 +1531,22 @@ func (p Prototype) Use(action Action) Prototype {
 
 func (p *Prototype) copyCommonToTarget(c *Context) error {
 	o := c.target
-	if o.category() == "" {
+	if p.Category != "" && o.category() == "" {
 		o.setCategory(p.Category)
 	}
-	if o.helpText() == "" {
+	if p.HelpText != "" && o.helpText() == "" {
 		o.setHelpText(p.HelpText)
 	}
-	if o.manualText() == "" {
+	if p.ManualText != "" && o.manualText() == "" {
 		o.setManualText(p.ManualText)
 	}
-	if o.usageText() == "" {
+	if p.UsageText != "" && o.usageText() == "" {
 		o.setUsageText(p.UsageText)
 	}
-	if o.description() == "" || o.description() == nil {
+	if p.Description != nil && (o.description() == "" || o.description() == nil) {
 		o.setDescription(p.Description)
 	}
-	if o.defaultText() == "" {
+	if p.DefaultText != "" && o.defaultText() == "" {
 		o.setDefaultText(p.DefaultText)
 	}
 	return nil
@@ -1630,21 +1630,6 @@ func (p *Prototype) copyToValue(c *Context) error {
 		return nil
 	}
 
-	if o.category() == "" {
-		o.setCategory(p.Category)
-	}
-	if o.helpText() == "" {
-		o.setHelpText(p.HelpText)
-	}
-	if o.manualText() == "" {
-		o.setManualText(p.ManualText)
-	}
-	if o.usageText() == "" {
-		o.setUsageText(p.UsageText)
-	}
-	if o.description() == "" || o.description() == nil {
-		o.setDescription(p.Description)
-	}
 	copyData(o, p.Data)
 	o.setAliases(p.Aliases)
 	p.Options.Execute(c)
-- 
2.43.0


From 4d64d5916914b7ae033401fe13a8c7674117bc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:24 +0000
Subject: [PATCH 101/138] fix: expr: do not write aliases to storage shared
 with other operators

---
 extensions/expr/expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index 8dc886a..bd7515a 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -597,7 +597,7 @@ func (e *Expr) SetHidden(value bool) {
 }
 
 func (e *Expr) SetAliases(a []string) {
-	e.Aliases = append(e.Aliases, a...)
+	e.Aliases = append(slices.Clip(e.Aliases), a...)
 }
 
 func (e *Expr) internalFlags() exprFlags {
-- 
2.43.0


From 00f4de83b8a95f29ae1020dbb56736f2db939e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:10 +0000
Subject: [PATCH 102/138] fix: expr: let Named rename an operator

---
 context.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/context.go b/context.go
index 696f0cf..e854cc3 100644
--- a/context.go
+++ b/context.go
@@ -1992,6 +1992,14 @@ func (v *valueTarget) setAliases(arg []string) {
 	}
 }
 
+// SetName sets the name of a value which has one, such as an expression operator
+func (v *valueTarget) SetName(name string) {
+	if val, ok := v.v.(interface{ SetName(string) }); ok {
+		val.SetName(name)
+		v.name = name
+	}
+}
+
 func (v *valueTarget) setDefaultText(arg string) {
 	if val, ok := v.v.(interface{ SetDefaultText(string) }); ok {
 		val.SetDefaultText(arg)
-- 
2.43.0


From 4288d6447a0b43dd6f860bef033eb0effdd584bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:54 +0000
Subject: [PATCH 103/138] fix: help: do not keep whether color is used in state
 shared by all apps

---
 templates.go | 26 +++++++++++++-------------
 usage.go     | 21 +++++++--------------
 2 files changed, 20 insertions(+), 27 deletions(-)

diff --git a/templates.go b/templates.go
index ff27032..8c00470 100644
--- a/templates.go
+++ b/templates.go
@@ -213,8 +213,8 @@ Expressions:
 func (c *commandData) withLineage(lineage string, persistent []*Flag) *commandData {
 	c.Lineage = lineage
 	c.Persistent = &persistentCommandData{
-		VisibleFlags:    visibleFlags(persistent),
-		FlagsByCategory: visibleFlagCategories(groupFlagsByCategory(persistent)),
+		VisibleFlags:    visibleFlags(persistent, c.Synopsis.color),
+		FlagsByCategory: visibleFlagCategories(groupFlagsByCategory(persistent), c.Synopsis.color),
 	}
 	c.HangingIndent = len("usage: ") + len(lineage) + 1 + len(c.Name)
 	return c
@@ -228,21 +228,21 @@ func (e flagDataList) Names() []string {
 	return res
 }
 
-func visibleFlags(items []*Flag) []*flagData {
+func visibleFlags(items []*Flag, color bool) []*flagData {
 	res := make([]*flagData, 0, len(items))
 	for _, a := range items {
-		res = append(res, flagAdapter(a))
+		res = append(res, flagAdapter(a, color))
 	}
 	return res
 }
 
-func visibleFlagCategories(items flagsByCategory) []*flagDataCategory {
+func visibleFlagCategories(items flagsByCategory, color bool) []*flagDataCategory {
 	res := make([]*flagDataCategory, 0, len(items))
 	for _, a := range items {
 		res = append(res, &flagDataCategory{
 			Category:     a.Category,
 			Undocumented: a.Undocumented(),
-			VisibleFlags: visibleFlags(a.VisibleFlags()),
+			VisibleFlags: visibleFlags(a.VisibleFlags(), color),
 		})
 	}
 	if len(res) == 1 && res[0].Category == "" {
@@ -251,7 +251,7 @@ func visibleFlagCategories(items flagsByCategory) []*flagDataCategory {
 	return res
 }
 
-func commandAdapter(val *Command) *commandData {
+func commandAdapter(val *Command, color bool) *commandData {
 	var (
 		visibleArgs = func(items []*Arg) []*flagData {
 			res := make([]*flagData, 0, len(items))
@@ -264,7 +264,7 @@ func commandAdapter(val *Command) *commandData {
 		visibleCommands = func(items []*Command) []*commandData {
 			res := make([]*commandData, 0, len(items))
 			for _, a := range items {
-				res = append(res, commandAdapter(a))
+				res = append(res, commandAdapter(a, color))
 			}
 			return res
 		}
@@ -287,12 +287,12 @@ func commandAdapter(val *Command) *commandData {
 		Description:        val.Description,
 		HelpText:           val.HelpText,
 		ManualText:         val.ManualText,
-		Synopsis:           wrapSynopsis(val.newSynopsis()),
+		Synopsis:           wrapSynopsis(val.newSynopsis(), color),
 		VisibleArgs:        visibleArgs(val.VisibleArgs()),
-		VisibleFlags:       visibleFlags(val.VisibleFlags()),
+		VisibleFlags:       visibleFlags(val.VisibleFlags(), color),
 		VisibleCommands:    visibleCommands(val.VisibleSubcommands()),
 		CommandsByCategory: visibleCategories(groupedByCategory(val.VisibleSubcommands())),
-		FlagsByCategory:    visibleFlagCategories(groupFlagsByCategory(val.Flags)),
+		FlagsByCategory:    visibleFlagCategories(groupFlagsByCategory(val.Flags), color),
 		Persistent: &persistentCommandData{
 			VisibleFlags: []*flagData{},
 		},
@@ -306,14 +306,14 @@ func renderHelp(us *synopsis.Usage) string {
 	return sb.String()
 }
 
-func flagAdapter(val *Flag) *flagData {
+func flagAdapter(val *Flag, color bool) *flagData {
 	syn := val.newSynopsis()
 	return &flagData{
 		Name:        val.Name,
 		HelpText:    renderHelp(syn.Value.Usage),
 		ManualText:  val.ManualText,
 		Description: val.Description,
-		Synopsis:    wrapSynopsis(syn),
+		Synopsis:    wrapSynopsis(syn, color),
 		Data:        val.Data,
 	}
 }
diff --git a/usage.go b/usage.go
index 25d3eb8..df80efe 100644
--- a/usage.go
+++ b/usage.go
@@ -18,10 +18,7 @@ import (
 	"golang.org/x/term"
 )
 
-var (
-	controlCodes = regexp.MustCompile("\u001B\\[\\d+m")
-	usageColor   = false
-)
+var controlCodes = regexp.MustCompile("\u001B\\[\\d+m")
 
 // Template provides a wrapper around text templates to support some additional configuration
 type Template struct {
@@ -93,7 +90,8 @@ type wrapper struct {
 }
 
 type synopsisWrapper[T synopsis.Stringer] struct {
-	s T
+	s     T
+	color bool
 }
 
 // ANSI terminal styles
@@ -215,11 +213,6 @@ func displayHelpScreenAction(command []string) Action {
 			panic("help template not registered")
 		}
 
-		// HACK Using global state to set up the usage screen rather
-		// than propagating it (quite a distance) through to synopsis
-		// wrapper
-		usageColor = c.Stdout.ColorCapable()
-
 		current := ctxt.Command()
 		persistentFlags := filterInVisibleFlags(ctxt.PersistentFlags())
 
@@ -232,7 +225,7 @@ func displayHelpScreenAction(command []string) Action {
 			App             *App
 			Debug           bool
 		}{
-			SelectedCommand: commandAdapter(current).withLineage(lineage, persistentFlags),
+			SelectedCommand: commandAdapter(current, c.Stdout.ColorCapable()).withLineage(lineage, persistentFlags),
 			App:             c.App(),
 			Debug:           tpl.Debug,
 		}
@@ -593,13 +586,13 @@ func (w *stringHelper) Styled(style Style, v ...any) (int, error) {
 	return n, err
 }
 
-func wrapSynopsis[T synopsis.Stringer](s T) *synopsisWrapper[T] {
-	return &synopsisWrapper[T]{s}
+func wrapSynopsis[T synopsis.Stringer](s T, color bool) *synopsisWrapper[T] {
+	return &synopsisWrapper[T]{s, color}
 }
 
 func (s *synopsisWrapper[T]) String() string {
 	buf := NewBuffer()
-	buf.SetColorCapable(usageColor)
+	buf.SetColorCapable(s.color)
 	s.s.WriteTo(buf)
 	return buf.String()
 }
-- 
2.43.0


From fd90ead1cd00991629afff2819e6b394d821e732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:56 +0000
Subject: [PATCH 104/138] fix: completion: do not replace the Execute template
 function of all apps

---
 completion.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/completion.go b/completion.go
index 52e37d8..d8e29b3 100644
--- a/completion.go
+++ b/completion.go
@@ -3,6 +3,7 @@ package cli
 import (
 	"context"
 	"fmt"
+	"maps"
 	"os"
 	"regexp"
 	"strings"
@@ -301,7 +302,7 @@ func newSourceTemplate(name string, text string) *Template {
 	t := template.New(name)
 	return &Template{
 		Template: template.Must(
-			t.Funcs(withExecute(builtinFuncs, t)).Parse(text),
+			t.Funcs(withExecute(maps.Clone(builtinFuncs), t)).Parse(text),
 		),
 		Debug: debugTemplates(),
 	}
-- 
2.43.0


From 568236778633528ddceee935bca65b74cecbcbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:56 +0000
Subject: [PATCH 105/138] fix: table: detect the width of columns for each
 table

---
 extensions/table/table.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/extensions/table/table.go b/extensions/table/table.go
index 86b7133..6a420a7 100644
--- a/extensions/table/table.go
+++ b/extensions/table/table.go
@@ -213,10 +213,11 @@ func newTableContext(f ...*Format) *tableContext {
 	if len(f) > 1 {
 		panic("expected zero or one arg")
 	}
-	if format.ColWidth <= 0 {
-		format.ColWidth = support.GuessWidth()
+	applied := *format
+	if applied.ColWidth <= 0 {
+		applied.ColWidth = support.GuessWidth()
 	}
-	format.apply(c)
+	applied.apply(c)
 
 	c.headers = nil
 	c.footers = nil
-- 
2.43.0


From 82bdbdd0d2a99464a89a56a842e1840a2c349507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:58 +0000
Subject: [PATCH 106/138] fix: help: display descriptions which are a Stringer

---
 app.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app.go b/app.go
index 3d8b2c4..3c0480a 100644
--- a/app.go
+++ b/app.go
@@ -385,10 +385,10 @@ func adaptWriter(w io.Writer) Writer {
 
 func setupDefaultTemplateFuncs(c *Context) error {
 	width := support.GuessWidth()
-	wrap := func(indent int, s string) string {
+	wrap := func(indent int, v any) string {
 		buf := bytes.NewBuffer(nil)
 		indentText := strings.Repeat(" ", indent)
-		Wrap(buf, s, indentText, width)
+		Wrap(buf, fmt.Sprint(v), indentText, width)
 		return buf.String()
 	}
 
-- 
2.43.0


From d8521a90786f09789da9437332456a861eaa0081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:58 +0000
Subject: [PATCH 107/138] fix: table: do not use a missing template for flags
 on the help screen

---
 extensions/table/table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensions/table/table.go b/extensions/table/table.go
index 6a420a7..3d05fe4 100644
--- a/extensions/table/table.go
+++ b/extensions/table/table.go
@@ -132,7 +132,7 @@ const (
 const (
 	flagTemplate = `
 {{- Row -}}
-{{- Execute "FlagSynopsis" .Synopsis | ExtraSpaceBeforeFlag | Cell -}}
+{{- .Synopsis | print | ExtraSpaceBeforeFlag | Cell -}}
 {{- Cell .HelpText -}}
 `
 
-- 
2.43.0


From 2ad9282178df4201c891e809d4e3b1ac8db07898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:39 +0000
Subject: [PATCH 108/138] fix: wrap: do not join words where the space between
 them does not fit

---
 usage.go | 47 +++++++++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/usage.go b/usage.go
index df80efe..75555c5 100644
--- a/usage.go
+++ b/usage.go
@@ -418,14 +418,16 @@ func (w *wrapper) Write(b []byte) (int, error) {
 		// lengths are based on printable rune widths
 		lineLen int
 
-		tryWrite = func(from *bytes.Buffer, length int) (res bool) {
-			res = lineLen+length < w.Limit
-			if res {
-				lineLen += length
-				from.WriteTo(w.Writer)
-				from.Reset()
-			}
-			return
+		write = func(from *bytes.Buffer) {
+			lineLen += printableWidth(from.String())
+			from.WriteTo(w.Writer)
+		}
+		newLine = func() {
+			lineLen = 0
+			w.Writer.Write([]byte("\n"))
+
+			w.pending.Reset()
+			w.pending.WriteString(w.Indent)
 		}
 	)
 
@@ -451,32 +453,25 @@ func (w *wrapper) Write(b []byte) (int, error) {
 				break
 			}
 
-			bufLen := printableWidth(buf.String())
-
 			// Otherwise for non-user space, skip leading space on a new line
-			if bufLen+lineLen == 0 {
-				break
-			}
-
-			if tryWrite(&buf, bufLen) {
-				w.pending.WriteRune(c)
+			if printableWidth(buf.String())+lineLen == 0 {
 				break
 			}
 
-			fallthrough
+			write(&buf)
+			w.pending.WriteRune(c)
 
 		case c == '\n':
-			lineLen = 0
-			buf.WriteTo(w.Writer)
-			buf.Reset()
-			w.Writer.Write([]byte("\n"))
-
-			w.pending.Reset()
-			w.pending.WriteString(w.Indent)
-			userSpace = c == '\n' // will be false on fallthrough from previous case
+			write(&buf)
+			newLine()
+			userSpace = true
 
 		default:
-			tryWrite(&w.pending, w.pending.Len())
+			// Break the line if the space before the word doesn't fit
+			if pending := printableWidth(w.pending.String()); pending > 0 && lineLen > 0 && lineLen+pending >= w.Limit {
+				newLine()
+			}
+			write(&w.pending)
 			buf.WriteRune(c)
 			userSpace = false
 		}
-- 
2.43.0


From b5058990d0e9beba9e4d0bd167de6369892c1388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:33 +0000
Subject: [PATCH 109/138] fix: table: print the footers of a Porcelain table
 after its rows

---
 extensions/table/table.go | 42 +++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/extensions/table/table.go b/extensions/table/table.go
index 3d05fe4..7084d3c 100644
--- a/extensions/table/table.go
+++ b/extensions/table/table.go
@@ -226,7 +226,9 @@ func newTableContext(f ...*Format) *tableContext {
 }
 
 type porcelainContext struct {
-	cells []string
+	headers []string
+	footers []string
+	rows    [][]string
 }
 
 // wrapperRenderContext delegates to the appropriate internal
@@ -376,29 +378,43 @@ func (o Options) Execute(c context.Context) error {
 }
 
 func (p *porcelainContext) Row() string {
-	var res string
-	if p.cells != nil {
-		res = strings.Join(p.cells, "\t") + "\n"
-	}
-	p.cells = []string{}
-	return res
+	p.rows = append(p.rows, []string{})
+	return ""
 }
 
-func (porcelainContext) Headers(titles ...string) string {
-	return strings.Join(titles, "\t") + "\n"
+func (p *porcelainContext) Headers(titles ...string) string {
+	p.headers = append(p.headers, titles...)
+	return ""
 }
 
-func (porcelainContext) Footers(titles ...string) string {
-	return strings.Join(titles, "\t") + "\n"
+func (p *porcelainContext) Footers(titles ...string) string {
+	p.footers = append(p.footers, titles...)
+	return ""
 }
 
 func (p *porcelainContext) Cell(value any) (string, error) {
-	p.cells = append(p.cells, fmt.Sprint(value))
+	if len(p.rows) == 0 {
+		p.Row()
+	}
+	p.rows[len(p.rows)-1] = append(p.rows[len(p.rows)-1], fmt.Sprint(value))
 	return "", nil
 }
 
 func (p *porcelainContext) EndTable() string {
-	return p.Row()
+	var buf strings.Builder
+	write := func(cells []string) {
+		buf.WriteString(strings.Join(cells, "\t") + "\n")
+	}
+	if p.headers != nil {
+		write(p.headers)
+	}
+	for _, row := range p.rows {
+		write(row)
+	}
+	if p.footers != nil {
+		write(p.footers)
+	}
+	return buf.String()
 }
 
 func (c *wrapperRenderContext) Table(f ...any) (string, error) {
-- 
2.43.0


From 8cad61b8c0cda589a450ce411d73c2621853c2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:33 +0000
Subject: [PATCH 110/138] fix: table: only replace junctions with the
 separators at the corners

---
 extensions/table/table.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/extensions/table/table.go b/extensions/table/table.go
index 7084d3c..41de016 100644
--- a/extensions/table/table.go
+++ b/extensions/table/table.go
@@ -108,6 +108,9 @@ const (
 
 	// Porcelain is a table that only uses tabs to separate columns
 	Porcelain = "Porcelain"
+
+	// junction represents the center separator before it is replaced
+	junction = "\x00"
 )
 
 type tableContext struct {
@@ -307,8 +310,11 @@ func (c *tableContext) EndTable() string {
 
 	// Backtrack to replace corners.  This is somewhat a hack until
 	// the underlying package supports it
-	nl := "\n"
 	sep := c.centerSeparator
+	if sep == "" {
+		return c.buf.String()
+	}
+	nl := "\n"
 	lines := strings.Split(c.buf.String(), nl)
 	last := len(lines) - 2
 
@@ -341,6 +347,10 @@ func (f *Format) apply(tc *tableContext) {
 	t.SetHeaderAlignment(int(f.HeaderAlignment))
 	t.SetAlignment(int(f.Alignment))
 	t.SetCenterSeparator(f.CenterSeparator)
+	if f.Border {
+		// Use text that cells don't have so that EndTable only replaces junctions
+		t.SetCenterSeparator(junction)
+	}
 	t.SetColumnSeparator(f.ColumnSeparator)
 	t.SetRowSeparator(f.RowSeparator)
 	t.SetHeaderLine(f.HeaderLine)
@@ -362,7 +372,7 @@ func (f *Format) apply(tc *tableContext) {
 			f.BottomCenterSeparator,
 			f.BottomRightSeparator,
 		}
-		tc.centerSeparator = f.CenterSeparator
+		tc.centerSeparator = junction
 	}
 }
 
-- 
2.43.0


From a0165821ec46a736916312e564db807392973c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:34 +0000
Subject: [PATCH 111/138] fix: table: fill rows and footers which have fewer
 cells than others

---
 extensions/table/table.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/extensions/table/table.go b/extensions/table/table.go
index 41de016..24259a7 100644
--- a/extensions/table/table.go
+++ b/extensions/table/table.go
@@ -302,6 +302,7 @@ func (c *tableContext) Cell(value any) (string, error) {
 
 func (c *tableContext) EndTable() string {
 	if len(c.headers) > 0 || len(c.cells) > 0 || len(c.footers) > 0 {
+		c.fillColumns()
 		c.table.SetHeader(c.headers)
 		c.table.SetFooter(c.footers)
 		c.table.AppendBulk(c.cells)
@@ -340,6 +341,23 @@ func (c *tableContext) EndTable() string {
 	return strings.Join(lines, nl)
 }
 
+// fillColumns ensures that all rows and the footers have a cell in each column
+func (c *tableContext) fillColumns() {
+	columns := max(len(c.headers), len(c.footers))
+	for _, row := range c.cells {
+		columns = max(columns, len(row))
+	}
+	for i, row := range c.cells {
+		for len(row) > 0 && len(row) < columns {
+			row = append(row, "")
+		}
+		c.cells[i] = row
+	}
+	for len(c.footers) > 0 && len(c.footers) < columns {
+		c.footers = append(c.footers, "")
+	}
+}
+
 func (f *Format) apply(tc *tableContext) {
 	t := tc.table
 	t.SetAutoWrapText(f.AutoWrapText)
-- 
2.43.0


From e23f683b61fd78ccedb8c7a374a5ad0446106550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:46 +0000
Subject: [PATCH 112/138] fix: writer: detect color of the underlying file when
 it is reset

---
 usage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/usage.go b/usage.go
index 75555c5..e9c3d01 100644
--- a/usage.go
+++ b/usage.go
@@ -554,7 +554,7 @@ func (w *stringHelper) WriteString(s string) (int, error) {
 }
 
 func (w *stringHelper) ResetColorCapable() {
-	w.SetColorCapable(colorEnabled(w.Writer))
+	w.SetColorCapable(colorEnabled(w.Writer.Writer))
 }
 
 func (w *stringHelper) ColorCapable() bool {
-- 
2.43.0


From 84208f2419638d769362b5c45024d0c454ec7a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:51 +0000
Subject: [PATCH 113/138] fix: writer: use whether another writer is color
 capable

---
 usage.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/usage.go b/usage.go
index e9c3d01..7cf5358 100644
--- a/usage.go
+++ b/usage.go
@@ -150,10 +150,11 @@ func (c *Context) NewBuffer() *buffer {
 
 // NewWriter creates a new writer with support for color if TTY is detected
 func NewWriter(w io.Writer) Writer {
-	return &stringHelper{
-		Writer:  ansiterm.NewWriter(w),
-		enabled: colorEnabled(w),
+	res := &stringHelper{
+		Writer: ansiterm.NewWriter(w),
 	}
+	res.SetColorCapable(colorEnabled(w))
+	return res
 }
 
 // SetColor enables or disables color output on stdout.
@@ -593,8 +594,8 @@ func (s *synopsisWrapper[T]) String() string {
 }
 
 func colorEnabled(w io.Writer) bool {
-	if s, ok := w.(*stringHelper); ok {
-		return s.enabled
+	if s, ok := w.(Writer); ok {
+		return s.ColorCapable()
 	}
 
 	f, ok := w.(*os.File)
-- 
2.43.0


From c499250bb60f3362085b77c147f8f1e25487d8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:52 +0000
Subject: [PATCH 114/138] fix: color: support the default color by name

---
 extensions/color/color_templates.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/color/color_templates.go b/extensions/color/color_templates.go
index a72c33c..1b188c6 100644
--- a/extensions/color/color_templates.go
+++ b/extensions/color/color_templates.go
@@ -136,8 +136,8 @@ func (t *templateContext) resetColor() func() string {
 }
 
 func (t *templateContext) setColor(color string, a ...any) (string, error) {
-	if _, ok := colorNames[color]; ok {
-		return t.funcs[color].(sprinter)(a...)
+	if f, ok := colorNames[color]; ok {
+		return t.sprintForegroundColor(f)(a...)
 	}
 	return "", fmt.Errorf("not valid color: %q", color)
 }
-- 
2.43.0


From a5535c8673418964c58762ecd02d38ccae829487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:54 +0000
Subject: [PATCH 115/138] fix: color: display emoji depending on whether color
 is used now

---
 extensions/color/color_templates.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/extensions/color/color_templates.go b/extensions/color/color_templates.go
index 1b188c6..4ed3272 100644
--- a/extensions/color/color_templates.go
+++ b/extensions/color/color_templates.go
@@ -10,8 +10,6 @@ import (
 type templateContext struct {
 	c     *cli.Context
 	funcs map[string]any
-
-	colorEnabledCache *bool
 }
 
 type sprinter = func(...any) (string, error)
@@ -211,10 +209,5 @@ func (t *templateContext) emoji(name string) (string, error) {
 }
 
 func (t *templateContext) colorEnabled() bool {
-	if t.colorEnabledCache == nil {
-		res := t.c.NewBuffer()
-		enabled := res.ColorCapable()
-		t.colorEnabledCache = &enabled
-	}
-	return *t.colorEnabledCache
+	return t.c.NewBuffer().ColorCapable()
 }
-- 
2.43.0


From 51bd29a5884c718c67f4934a24e41c1257f6ba28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:00 +0000
Subject: [PATCH 116/138] fix: help: use color in help texts and expressions as
 in the rest of the screen

---
 extensions/expr/expr.go      |  7 +++++--
 extensions/expr/templates.go | 18 ++++++++++--------
 templates.go                 |  5 +++--
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index bd7515a..8157686 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -151,6 +151,7 @@ type exprFlags int
 type expressionDescription struct {
 	exp   *Expression
 	templ *cli.Template
+	color func() bool
 }
 
 type evaluatorFunc func(context.Context, any, func(any) error) error
@@ -253,6 +254,7 @@ func (e *Expression) Initializer() cli.Action {
 		return c.SetDescription(&expressionDescription{
 			exp:   e,
 			templ: c.Template("Expressions"),
+			color: func() bool { return c.Stdout.ColorCapable() },
 		})
 
 	}, func(c *cli.Context) error {
@@ -314,7 +316,7 @@ func (e *expressionDescription) String() string {
 	data := struct {
 		Description *exprDescriptionData
 	}{
-		Description: exprDescription(e.exp),
+		Description: exprDescription(e.exp, e.color()),
 	}
 	err := e.templ.Execute(&buf, data)
 	if err != nil {
@@ -915,8 +917,9 @@ func argsMustPrecedeExprs(arg string) error {
 	}
 }
 
-func renderHelp(us *synopsis.Usage) string {
+func renderHelp(us *synopsis.Usage, color bool) string {
 	sb := cli.NewBuffer()
+	sb.SetColorCapable(color)
 	us.HelpText(sb)
 	return sb.String()
 }
diff --git a/extensions/expr/templates.go b/extensions/expr/templates.go
index 92e93e6..9b4a9ea 100644
--- a/extensions/expr/templates.go
+++ b/extensions/expr/templates.go
@@ -29,15 +29,17 @@ type exprDescriptionData struct {
 }
 
 type synopsisWrapper[T synopsis.Stringer] struct {
-	s T
+	s     T
+	color bool
 }
 
-func wrapSynopsis[T synopsis.Stringer](s T) *synopsisWrapper[T] {
-	return &synopsisWrapper[T]{s}
+func wrapSynopsis[T synopsis.Stringer](s T, color bool) *synopsisWrapper[T] {
+	return &synopsisWrapper[T]{s, color}
 }
 
 func (s *synopsisWrapper[T]) String() string {
 	buf := cli.NewBuffer()
+	buf.SetColorCapable(s.color)
 	s.s.WriteTo(buf)
 	return buf.String()
 }
@@ -51,25 +53,25 @@ func (e exprDataList) Names() []string {
 	return res
 }
 
-func exprAdapter(val *Expr) *exprData {
+func exprAdapter(val *Expr, color bool) *exprData {
 	syn := val.newSynopsis()
 	return &exprData{
 		Name:        val.Name,
-		HelpText:    renderHelp(syn.Usage),
+		HelpText:    renderHelp(syn.Usage, color),
 		Description: fmt.Sprint(val.Description),
 		ManualText:  val.ManualText,
-		Synopsis:    wrapSynopsis(syn),
+		Synopsis:    wrapSynopsis(syn, color),
 		Data:        val.Data,
 	}
 }
 
-func exprDescription(e *Expression) *exprDescriptionData {
+func exprDescription(e *Expression, color bool) *exprDescriptionData {
 	exprs := e.VisibleExprs()
 	var (
 		visibleExprs = func(items []*Expr) []*exprData {
 			res := make([]*exprData, 0, len(items))
 			for _, a := range items {
-				res = append(res, exprAdapter(a))
+				res = append(res, exprAdapter(a, color))
 			}
 			return res
 		}
diff --git a/templates.go b/templates.go
index 8c00470..660d91f 100644
--- a/templates.go
+++ b/templates.go
@@ -300,8 +300,9 @@ func commandAdapter(val *Command, color bool) *commandData {
 	}
 }
 
-func renderHelp(us *synopsis.Usage) string {
+func renderHelp(us *synopsis.Usage, color bool) string {
 	sb := NewBuffer()
+	sb.SetColorCapable(color)
 	us.HelpText(sb)
 	return sb.String()
 }
@@ -310,7 +311,7 @@ func flagAdapter(val *Flag, color bool) *flagData {
 	syn := val.newSynopsis()
 	return &flagData{
 		Name:        val.Name,
-		HelpText:    renderHelp(syn.Value.Usage),
+		HelpText:    renderHelp(syn.Value.Usage, color),
 		ManualText:  val.ManualText,
 		Description: val.Description,
 		Synopsis:    wrapSynopsis(syn, color),
-- 
2.43.0


From 138ac75cf9a4dc311beac5cd73ee701b6ef9c9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:01 +0000
Subject: [PATCH 117/138] fix: bind: determine the implied flag or arg for each
 target

---
 extensions/bind/binder.go | 98 +++++++++++++++++++++++++++------------
 extensions/bind/func.go   |  5 +-
 2 files changed, 73 insertions(+), 30 deletions(-)

diff --git a/extensions/bind/binder.go b/extensions/bind/binder.go
index 84fbf26..381386e 100644
--- a/extensions/bind/binder.go
+++ b/extensions/bind/binder.go
@@ -88,7 +88,6 @@ func (f bindFunc[T]) Bind(c context.Context) (T, error) {
 }
 
 type exactBinder[V any] struct {
-	binderSupport[V]
 	v V
 }
 
@@ -97,12 +96,15 @@ func (b *exactBinder[V]) Bind(_ context.Context) (V, error) {
 }
 
 func (b *exactBinder[V]) Initializer() cli.Action {
+	return b.initializerAt(0)
+}
+
+func (b *exactBinder[V]) initializerAt(_ int) cli.Action {
 	return cli.ActionFunc(func(c *cli.Context) error {
-		ctx := c.ContextOf(b.name())
-		if ctx == nil {
+		if !c.IsFlag() && !c.IsArg() {
 			return nil
 		}
-		return ctx.Do(&cli.Prototype{Value: new(bool)})
+		return c.Do(&cli.Prototype{Value: new(bool)})
 	})
 }
 
@@ -110,7 +112,7 @@ func (b *exactBinder[V]) Initializer() cli.Action {
 // ensures that any flag or arg referenced by a binder gets a corresponding
 // default value
 type binderSupport[V any] struct {
-	impliedName any
+	explicitName any
 }
 
 type binderInit interface {
@@ -121,20 +123,28 @@ type binderImpliedName interface {
 	SetName(any)
 }
 
+// binderInitAt and binderAt are used when the value can depend upon the position of the
+// binder among those that are used.
+type binderInitAt interface {
+	initializerAt(index int) cli.Action
+}
+
+type binderAt[T any] interface {
+	bindAt(c context.Context, index int) (T, error)
+}
+
 type binder[V any] struct {
 	binderSupport[V]
 	lookupValue func(*cli.Context, any) V
 }
 
-func (b *binderSupport[_]) SetName(name any) {
-	if b.impliedName == nil {
-		b.impliedName = name
-	}
+func (b *binderSupport[V]) Initializer() cli.Action {
+	return b.initializerAt(0)
 }
 
-func (b *binderSupport[V]) Initializer() cli.Action {
+func (b *binderSupport[V]) initializerAt(index int) cli.Action {
 	return cli.ActionFunc(func(c *cli.Context) error {
-		ctx := c.ContextOf(b.name())
+		ctx := contextOf(c, b.nameAt(c, index))
 		if ctx == nil {
 			return nil
 		}
@@ -142,15 +152,41 @@ func (b *binderSupport[V]) Initializer() cli.Action {
 	})
 }
 
-func (b *binderSupport[_]) name() any {
-	if b.impliedName == nil {
+// nameAt gets the name of the flag or arg, which is implied from the context if it wasn't specified
+func (b *binderSupport[_]) nameAt(c *cli.Context, index int) any {
+	if b.explicitName != nil {
+		return b.explicitName
+	}
+	if c.IsFlag() || c.IsArg() {
 		return ""
 	}
-	return b.impliedName
+	return index
 }
 
 func (b *binder[V]) Bind(c context.Context) (V, error) {
-	return b.lookupValue(cli.FromContext(c), b.binderSupport.name()), nil
+	return b.bindAt(c, 0)
+}
+
+func (b *binder[V]) bindAt(c context.Context, index int) (V, error) {
+	ctx := cli.FromContext(c)
+	return b.lookupValue(ctx, b.nameAt(ctx, index)), nil
+}
+
+// contextOf is the context of the flag or arg, which could be an arg local to an expression
+func contextOf(c *cli.Context, name any) *cli.Context {
+	switch name.(type) {
+	case int, rune, string:
+		if name == "" {
+			return c
+		}
+		if arg, ok := c.LookupArg(name); ok {
+			return c.ContextOf(arg)
+		}
+		if _, ok := name.(int); ok {
+			return nil
+		}
+	}
+	return c.ContextOf(name)
 }
 
 // Exact takes either the exact value that is specified
@@ -531,42 +567,46 @@ func byName[T any](f func(*cli.Context, any) T, nameopt []any) Binder[T] {
 	}
 	return &binder[T]{
 		binderSupport[T]{
-			impliedName: name,
+			explicitName: name,
 		},
 		f,
 	}
 }
 
 func bind[T any](c context.Context, t Binder[T]) (T, error) {
-	return t.Bind(c)
+	return bindAt(c, t, 0)
 }
 
 func bind2[T, U any](c context.Context, t Binder[T], u Binder[U]) (a0 T, a1 U, err error) {
-	a0, err = t.Bind(c)
+	a0, err = bindAt(c, t, 0)
 	if err != nil {
 		return
 	}
-	a1, err = u.Bind(c)
+	a1, err = bindAt(c, u, 1)
 	return
 }
 
 func bind3[T, U, V any](c context.Context, t Binder[T], u Binder[U], v Binder[V]) (a0 T, a1 U, a2 V, err error) {
-	a0, err = t.Bind(c)
-	if err != nil {
-		return
-	}
-	a1, err = u.Bind(c)
+	a0, a1, err = bind2(c, t, u)
 	if err != nil {
 		return
 	}
 
-	a2, err = v.Bind(c)
+	a2, err = bindAt(c, v, 2)
 	return
 }
 
+func bindAt[T any](c context.Context, t Binder[T], index int) (T, error) {
+	if b, ok := t.(binderAt[T]); ok {
+		return b.bindAt(c, index)
+	}
+	return t.Bind(c)
+}
+
 var (
-	_ binderInit        = (*binder[any])(nil)
-	_ binderImpliedName = (*binder[any])(nil)
-	_ binderInit        = (*exactBinder[any])(nil)
-	_ binderImpliedName = (*exactBinder[any])(nil)
+	_ binderInit    = (*binder[any])(nil)
+	_ binderInitAt  = (*binder[any])(nil)
+	_ binderAt[any] = (*binder[any])(nil)
+	_ binderInit    = (*exactBinder[any])(nil)
+	_ binderInitAt  = (*exactBinder[any])(nil)
 )
diff --git a/extensions/bind/func.go b/extensions/bind/func.go
index 7083d8d..cee95c2 100644
--- a/extensions/bind/func.go
+++ b/extensions/bind/func.go
@@ -233,7 +233,10 @@ func initializers(binders ...any) cli.Action {
 		if b, ok := binder.(binderImpliedName); ok {
 			setters = append(setters, willSetImpliedName(b, index))
 		}
-		if b, ok := binder.(binderInit); ok {
+		switch b := binder.(type) {
+		case binderInitAt:
+			uses = append(uses, b.initializerAt(index))
+		case binderInit:
 			uses = append(uses, b.Initializer())
 		}
 	}
-- 
2.43.0


From df38d4a04b12605f27530441ae0b6496f46634f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:03 +0000
Subject: [PATCH 118/138] fix: bind: let For provide a binder of any type

---
 extensions/bind/binder.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/extensions/bind/binder.go b/extensions/bind/binder.go
index 381386e..0f9f159 100644
--- a/extensions/bind/binder.go
+++ b/extensions/bind/binder.go
@@ -57,7 +57,6 @@ package bind
 
 import (
 	"context"
-	"fmt"
 	"math/big"
 	"net"
 	"net/url"
@@ -539,7 +538,7 @@ func For[T any](nameopt ...any) Binder[T] {
 			return URL(nameopt...)
 		case *regexp.Regexp:
 			return Regexp(nameopt...)
-		case *net.IP:
+		case net.IP:
 			return IP(nameopt...)
 		case *big.Int:
 			return BigInt(nameopt...)
@@ -547,10 +546,11 @@ func For[T any](nameopt ...any) Binder[T] {
 			return BigFloat(nameopt...)
 		case []byte:
 			return Bytes(nameopt...)
-		case any:
-			return Interface(nameopt...)
 		default:
-			panic(fmt.Sprintf("unexpected target type %T", t))
+			if b, ok := Interface(nameopt...).(Binder[T]); ok {
+				return b
+			}
+			return Value[T](nameopt...)
 		}
 	}().(Binder[T])
 }
-- 
2.43.0


From 0207e3ee62bf10cb90d41c0bf551a035f30f9e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:18 +0000
Subject: [PATCH 119/138] fix: bind: let Redirect replace text rather than
 append to it

---
 extensions/bind/func.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/extensions/bind/func.go b/extensions/bind/func.go
index cee95c2..5e52fbd 100644
--- a/extensions/bind/func.go
+++ b/extensions/bind/func.go
@@ -201,7 +201,17 @@ func Indirect[T, V any](name any, call func(T, V) error, valopt ...V) cli.Action
 // the value is read from the flag.
 func Redirect[V any](name any, valopt ...V) cli.Action {
 	call := func(c *cli.Context, val V, _ V) error {
-		return c.ContextOf(name).SetValue(val)
+		ctx := c.ContextOf(name)
+
+		// SetValue with text would append to the text that is there
+		if text, ok := any(val).(string); ok {
+			v, _ := ctx.Interface("")
+			if p, ok := v.(*string); ok {
+				*p = text
+				return nil
+			}
+		}
+		return ctx.SetValue(val)
 	}
 
 	switch len(valopt) {
-- 
2.43.0


From 478711dd7f6dd5744d8498f4e9b222540c5aba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:48 +0000
Subject: [PATCH 120/138] fix: exec: do not add to the list that an expression
 operator has already been given

---
 extensions/exec/arglist.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extensions/exec/arglist.go b/extensions/exec/arglist.go
index acaf3d0..ca4c4dc 100644
--- a/extensions/exec/arglist.go
+++ b/extensions/exec/arglist.go
@@ -23,6 +23,11 @@ func (l *ArgList) Set(arg string) error {
 	return nil
 }
 
+// Reset clears the list, which is called in advance of the first occurrence
+func (l *ArgList) Reset() {
+	*l = nil
+}
+
 func (l *ArgList) String() string {
 	args, delim := l.split() // could have implied ;
 	return strings.Join(append(args, delim), " ")
-- 
2.43.0


From bc285712d1b0e0fb7fe93d762f2c8cc955abb2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:40 +0000
Subject: [PATCH 121/138] fix: No: determine the synopsis of the flag when it
 is used

The synopsis was kept from the time of the option, so that a hidden flag
was displayed, later changes to the flag were ignored, and completion
offered names in brackets.
---
 command.go    |  4 ++--
 completion.go |  2 +-
 flag.go       | 11 +++++------
 option.go     |  9 ++++++---
 4 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/command.go b/command.go
index 48eeef3..c28a9e5 100644
--- a/command.go
+++ b/command.go
@@ -438,7 +438,7 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 		}
 
 		for _, f := range visibleFlagsInScope(c) {
-			for _, n := range f.synopsis().Names {
+			for _, n := range f.newSynopsis().Names {
 				if strings.HasPrefix(n, cc.Incomplete) {
 					items = append(items, CompletionItem{Value: n, HelpText: f.HelpText})
 				}
@@ -504,7 +504,7 @@ func findSolitaryMatch(c *Context) []CompletionItem {
 	var matchName string
 
 	for _, f := range visibleFlagsInScope(c) {
-		for _, n := range f.synopsis().Names {
+		for _, n := range f.newSynopsis().Names {
 			if n == cc.Incomplete || (hasArg && strings.HasPrefix(n, flagName)) {
 				return actualCompletion(f.completion()).Complete(c.newChild(f))
 			}
diff --git a/completion.go b/completion.go
index d8e29b3..23c1847 100644
--- a/completion.go
+++ b/completion.go
@@ -196,7 +196,7 @@ func CompletionValues(values ...string) Completion {
 				}
 				return res
 			}
-			for _, n := range o.synopsis().Names {
+			for _, n := range o.newSynopsis().Names {
 				var prefix string
 				if len(n) == 2 { // as in -s short names
 					prefix = n // Force run-in style, which is most compatible
diff --git a/flag.go b/flag.go
index 2d22810..5b1933c 100644
--- a/flag.go
+++ b/flag.go
@@ -218,18 +218,17 @@ func (f *Flag) Synopsis() string {
 	return sprintSynopsis(f.synopsis())
 }
 
-func (f *Flag) cacheSynopsis(syn *synopsis.Flag) *synopsis.Flag {
-	f.SetData(synopsisKey, syn)
-	return syn
-}
-
 func (f *Flag) synopsis() *synopsis.Flag {
 	if f.Data != nil {
 		if a, ok := f.Data[synopsisKey]; ok {
 			return a.(*synopsis.Flag)
 		}
 	}
-	return f.cacheSynopsis(f.newSynopsis())
+	syn := f.newSynopsis()
+	if f.internalFlags().mirrored() {
+		syn.WithNo()
+	}
+	return syn
 }
 
 func (f *Flag) newSynopsis() *synopsis.Flag {
diff --git a/option.go b/option.go
index ef6bdf2..26bebe9 100644
--- a/option.go
+++ b/option.go
@@ -223,6 +223,7 @@ const (
 	internalFlagVisibleExplicitlyRequested
 	internalFlagTriggerRequested
 	internalFlagActionTriggered // true once the action of the flag or arg was triggered
+	internalFlagMirrored        // true when the flag has a mirror flag with the prefix no-
 )
 
 var (
@@ -434,6 +435,10 @@ func (f internalFlags) actionTriggered() bool {
 	return f&internalFlagActionTriggered == internalFlagActionTriggered
 }
 
+func (f internalFlags) mirrored() bool {
+	return f&internalFlagMirrored == internalFlagMirrored
+}
+
 func (f internalFlags) toRaw() RawParseFlag {
 	var flags RawParseFlag
 	if f.disallowFlagsAfterArgs() {
@@ -544,9 +549,7 @@ func unsetInternalFlag(f internalFlags) ActionFunc {
 func noOption(c *Context) error {
 	f := c.Flag()
 
-	syn := f.synopsis()
-	syn.WithNo()
-
+	f.setInternalFlags(internalFlagMirrored, true)
 	return Do(c, AddFlag(&Flag{
 		HelpText:  f.HelpText,
 		UsageText: f.UsageText,
-- 
2.43.0


From 3c202a2767146b5827567be48a30af802493266d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:40 +0000
Subject: [PATCH 122/138] fix: No: let the mirror provide the value of a
 required flag

---
 context.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index e854cc3..f44de36 100644
--- a/context.go
+++ b/context.go
@@ -2268,7 +2268,7 @@ func setupOptionFromEnv(c context.Context) error {
 
 func checkForRequiredOption(c *Context) error {
 	if c.option().internalFlags().required() {
-		if !c.Seen("") && !exitFlagUsed(c.Parent()) && !c.completionRequested() {
+		if !c.Seen("") && !mirrorFlagUsed(c) && !exitFlagUsed(c.Parent()) && !c.completionRequested() {
 			return expectedRequiredOption(c.Name())
 		}
 	}
@@ -2280,6 +2280,12 @@ func isExpectedArgument(err error) bool {
 	return ok && p.Code == ExpectedArgument
 }
 
+// mirrorFlagUsed determines whether the false value was provided by the mirror of the flag
+func mirrorFlagUsed(c *Context) bool {
+	f, ok := c.Target().(*Flag)
+	return ok && f.internalFlags().mirrored() && len(c.Parent().internal.Bindings("no-"+f.Name)) > 0
+}
+
 // exitFlagUsed determines whether a flag such as --help was used in the command, which
 // causes it to exit instead
 func exitFlagUsed(c *Context) bool {
-- 
2.43.0


From 64241685bf67f69e1fbac537158b3a6a5873ddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:46 +0000
Subject: [PATCH 123/138] fix: No: accept the mirror by the name which is in
 the synopsis

---
 internal/synopsis/synopsis.go | 6 +++++-
 option.go                     | 7 +++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/synopsis/synopsis.go b/internal/synopsis/synopsis.go
index e1f04bf..0303bc2 100644
--- a/internal/synopsis/synopsis.go
+++ b/internal/synopsis/synopsis.go
@@ -280,8 +280,12 @@ func (f *Flag) primaryWriteTo(sb styleWriter) {
 }
 
 func (f *Flag) WithNo() {
+	long := f.Long
+	if long == "" {
+		long = f.Short
+	}
 	_ = f.withLongAndShort(
-		[]string{"[no-]" + f.Long},
+		[]string{"[no-]" + long},
 		f.Shorts,
 	)
 }
diff --git a/option.go b/option.go
index 26bebe9..bdfa560 100644
--- a/option.go
+++ b/option.go
@@ -550,10 +550,17 @@ func noOption(c *Context) error {
 	f := c.Flag()
 
 	f.setInternalFlags(internalFlagMirrored, true)
+
+	// The name which is used in the synopsis has a mirror, too
+	var aliases []string
+	if long := strings.TrimPrefix(f.LongName(), "--"); long != f.Name {
+		aliases = append(aliases, "no-"+long)
+	}
 	return Do(c, AddFlag(&Flag{
 		HelpText:  f.HelpText,
 		UsageText: f.UsageText,
 		Name:      "no-" + f.Name,
+		Aliases:   aliases,
 		Category:  f.Category,
 		Value:     Bool(),
 		Options:   Hidden,
-- 
2.43.0


From 66b5057b4eb3e30813658c8a921498a2f4d1512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:59 +0000
Subject: [PATCH 124/138] fix: RegisterTemplate: let nested templates which are
 empty replace others

---
 usage.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/usage.go b/usage.go
index 7cf5358..4d514a2 100644
--- a/usage.go
+++ b/usage.go
@@ -370,14 +370,21 @@ func (c *Context) ExecuteTemplate(name string, data func(*Context) any) error {
 // name should be left blank.
 func (c *Context) RegisterTemplate(name string, tpl string) error {
 	scope := c.root().ensureTemplates()
-	p, err := scope.New(name).Parse(tpl)
+	p, err := template.New(name).Funcs(c.root().ensureTemplateFuncs()).Parse(tpl)
 	if err != nil {
 		return err
 	}
 
 	// Copy detected templates into the global context
 	for _, inner := range p.Templates() {
-		scope.AddParseTree(inner.Name(), inner.Tree)
+		if existing := scope.Lookup(inner.Name()); existing != nil && inner != p {
+			// Parse trees that are empty don't replace others unless set directly
+			existing.Tree = inner.Tree
+			continue
+		}
+		if _, err := scope.AddParseTree(inner.Name(), inner.Tree); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From 8d404ad38069d18b8cfa661fb99512b2e4774978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:12 +0000
Subject: [PATCH 125/138] fix: ContextValue, SetContext: keep what Uses of a
 command sets to that command

---
 action.go                               |  1 -
 command.go                              | 13 +++---------
 context.go                              | 27 +++++++++++++++++++++----
 extensions/provider/context_services.go |  7 +++++--
 4 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/action.go b/action.go
index 100ab4f..ac9cd78 100644
--- a/action.go
+++ b/action.go
@@ -314,7 +314,6 @@ var (
 			ActionFunc(initializeSubcommands),
 			ActionFunc(initializeValueTargets),
 			ActionFunc(finalizeArgsAndFlags),
-			ActionFunc(copyContextToParent),
 		),
 		Action: actions(
 			ActionFunc(triggerOptions),
diff --git a/command.go b/command.go
index c28a9e5..9eba04b 100644
--- a/command.go
+++ b/command.go
@@ -97,8 +97,9 @@ type Command struct {
 	// the completion present there
 	Completion Completion
 
-	fromApp *App
-	ifRoot  *rootCommandData
+	fromApp        *App
+	ifRoot         *rootCommandData
+	contextUpdates []func(context.Context) context.Context
 }
 
 type rootCommandData struct {
@@ -726,14 +727,6 @@ func initializeSubcommands(ctx *Context) error {
 	return nil
 }
 
-func copyContextToParent(ctx *Context) error {
-	p := ctx.Parent()
-	if p != nil {
-		p.ref = ctx.ref
-	}
-	return nil
-}
-
 func finalizeArgsAndFlags(c *Context) error {
 	// Set up default names for args; generate an error for unnamed flags; generate
 	// an error for duplicative names
diff --git a/context.go b/context.go
index f44de36..2ce30bd 100644
--- a/context.go
+++ b/context.go
@@ -223,13 +223,26 @@ func (c *Context) Context() context.Context {
 
 // SetContext sets the context
 func (c *Context) SetContext(ctx context.Context) error {
-	c.ref = ctx
-	return nil
+	return c.updateContext(func(context.Context) context.Context {
+		return ctx
+	})
 }
 
 // SetContextValue updates the context with a value.
 func (c *Context) SetContextValue(key, value any) error {
-	return c.SetContext(context.WithValue(c.Context(), key, value))
+	return c.updateContext(func(ctx context.Context) context.Context {
+		return context.WithValue(ctx, key, value)
+	})
+}
+
+// updateContext changes the context.  The context which initializes a command isn't the one
+// which executes it, so the change is also kept to be applied when the command executes
+func (c *Context) updateContext(fn func(context.Context) context.Context) error {
+	c.ref = fn(c.ref)
+	if cmd, ok := c.target.(*Command); ok && c.IsInitializing() {
+		cmd.contextUpdates = append(cmd.contextUpdates, fn)
+	}
+	return nil
 }
 
 // Matches detects if the given context filter matches the current
@@ -1700,7 +1713,13 @@ func (c *Context) newChild(t target) *Context {
 	default:
 		panic("unreachable!")
 	}
-	return c.copy(t, internal)
+	res := c.copy(t, internal)
+	if cmd, ok := t.(*Command); ok {
+		for _, update := range cmd.contextUpdates {
+			res.ref = update(res.ref)
+		}
+	}
+	return res
 }
 
 func bubble(start *Context, self, anc func(*Context, context.Context) error) error {
diff --git a/extensions/provider/context_services.go b/extensions/provider/context_services.go
index 95c2927..dee365f 100644
--- a/extensions/provider/context_services.go
+++ b/extensions/provider/context_services.go
@@ -31,8 +31,11 @@ func WithServices(c context.Context) (context.Context, *ContextServices) {
 // Services obtains the contextual services used by the package.  If not
 // already present, it will be added to the context.
 func Services(c *cli.Context) *ContextServices {
-	newCtx, o := WithServices(c.Context())
-	c.SetContext(newCtx)
+	if o, ok := c.Context().Value(servicesKey).(*ContextServices); ok {
+		return o
+	}
+	_, o := WithServices(c.Context())
+	c.SetContextValue(servicesKey, o)
 	return o
 }
 
-- 
2.43.0


From 2eaa698d8b0e45929fe776fb8ca283d4176a4358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:22 +0000
Subject: [PATCH 126/138] fix: ArgCounter: finalize a counter which signals the
 end of arguments

---
 set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/set.go b/set.go
index 11b531d..c0c3544 100644
--- a/set.go
+++ b/set.go
@@ -754,6 +754,9 @@ func (a *argBinding) SetArg(arg string, remainder []string, possibleFlag bool) e
 			return err
 		}
 
+		if err := t.Done(); err != nil {
+			return err
+		}
 		a.next()
 	}
 }
-- 
2.43.0


From d1086aca8c26f7f4bce452a2d9f6931f5c6f4c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:17 +0000
Subject: [PATCH 127/138] fix: FindTarget: find flags and args only below
 commands

---
 context.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index 2ce30bd..756505b 100644
--- a/context.go
+++ b/context.go
@@ -613,11 +613,11 @@ func (c *Context) findTarget(name string) (*Context, bool) {
 	case name == "":
 		return c, false
 	case matchFlag(name):
-		if f, ok := c.LookupFlag(name); ok {
+		if f, ok := c.LookupFlag(name); ok && c.IsCommand() {
 			return c.newChild(f), true
 		}
 	case matchArg(name):
-		if a, ok := c.LookupArg(name); ok {
+		if a, ok := c.LookupArg(name); ok && c.IsCommand() {
 			return c.newChild(a), true
 		}
 	case matchExpr(name):
-- 
2.43.0


From c2dfc8cd55e435fde9595a14e743acd0eedc37ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:59 +0000
Subject: [PATCH 128/138] fix: Expr: look up values before the expression is
 parsed

---
 extensions/expr/expr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index 8157686..08d05e6 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -259,6 +259,9 @@ func (e *Expression) Initializer() cli.Action {
 
 	}, func(c *cli.Context) error {
 		for _, sub := range e.Exprs {
+			// Nothing has been bound until the expression is parsed
+			sub.exprSet = newExprSet(cli.NewBinding(nil, sub.Args, nil), nil)
+
 			// As a special case, the evaluator can implement Action
 			// and be treated as part of the initialization pipeline.
 			// (One case of this is in bind.Evaluator)
-- 
2.43.0


From 64d22582878ab2db79ebba2ef5bfd61a67cce9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:54 +0000
Subject: [PATCH 129/138] fix: Bool, Int, etc.: provide the zero value if the
 name does not exist

---
 lookup.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/lookup.go b/lookup.go
index 6d8619e..bd379cd 100644
--- a/lookup.go
+++ b/lookup.go
@@ -427,7 +427,7 @@ func lookupBool(c Lookup, name any) (res bool) {
 	val := c.Value(name)
 	if i, ok := val.(bool); ok {
 		res = i
-	} else {
+	} else if val != nil {
 		res = reflect.ValueOf(val).Bool()
 	}
 	return
@@ -453,7 +453,7 @@ func lookupInt(c Lookup, name any) (res int) {
 	val := c.Value(name)
 	if i, ok := val.(int); ok {
 		res = i
-	} else {
+	} else if val != nil {
 		res = int(reflect.ValueOf(val).Int())
 	}
 	return
@@ -463,7 +463,7 @@ func lookupInt8(c Lookup, name any) (res int8) {
 	val := c.Value(name)
 	if i, ok := val.(int8); ok {
 		res = i
-	} else {
+	} else if val != nil {
 		res = int8(reflect.ValueOf(val).Int())
 	}
 	return
@@ -473,7 +473,7 @@ func lookupInt16(c Lookup, name any) (res int16) {
 	val := c.Value(name)
 	if i, ok := val.(int16); ok {
 		res = i
-	} else {
+	} else if val != nil {
 		res = int16(reflect.ValueOf(val).Int())
 	}
 	return
@@ -483,7 +483,7 @@ func lookupInt32(c Lookup, name any) (res int32) {
 	val := c.Value(name)
 	if i, ok := val.(int32); ok {
 		res = i
-	} else {
+	} else if val != nil {
 		res = int32(reflect.ValueOf(val).Int())
 	}
 	return
@@ -493,7 +493,7 @@ func lookupInt64(c Lookup, name any) (res int64) {
 	val := c.Value(name)
 	if i, ok := val.(int64); ok {
 		res = i
-	} else {
+	} else if val != nil {
 		res = int64(reflect.ValueOf(val).Int())
 	}
 	return
@@ -503,7 +503,7 @@ func lookupUint(c Lookup, name any) (res uint) {
 	val := c.Value(name)
 	if i, ok := val.(uint); ok {
 		res = i
-	} else {
+	} else if val != nil {
 		res = uint(reflect.ValueOf(val).Uint())
 	}
 	return
@@ -513,7 +513,7 @@ func lookupUint8(c Lookup, name any) (res uint8) {
 	val := c.Value(name)
 	if i, ok := val.(uint8); ok {
 		res = i
-	} else {
+	} else if val != nil {
 		res = uint8(reflect.ValueOf(val).Uint())
 	}
 	return
@@ -523,7 +523,7 @@ func lookupUint16(c Lookup, name any) (res uint16) {
 	val := c.Value(name)
 	if i, ok := val.(uint16); ok {
 		res = i
-	} else {
+	} else if val != nil {
 		res = uint16(reflect.ValueOf(val).Uint())
 	}
 	return
@@ -533,7 +533,7 @@ func lookupUint32(c Lookup, name any) (res uint32) {
 	val := c.Value(name)
 	if i, ok := val.(uint32); ok {
 		res = i
-	} else {
+	} else if val != nil {
 		res = uint32(reflect.ValueOf(val).Uint())
 	}
 	return
@@ -543,7 +543,7 @@ func lookupUint64(c Lookup, name any) (res uint64) {
 	val := c.Value(name)
 	if i, ok := val.(uint64); ok {
 		res = i
-	} else {
+	} else if val != nil {
 		res = uint64(reflect.ValueOf(val).Uint())
 	}
 	return
@@ -553,7 +553,7 @@ func lookupFloat32(c Lookup, name any) (res float32) {
 	val := c.Value(name)
 	if i, ok := val.(float32); ok {
 		res = i
-	} else {
+	} else if val != nil {
 		res = float32(reflect.ValueOf(val).Float())
 	}
 	return
@@ -563,7 +563,7 @@ func lookupFloat64(c Lookup, name any) (res float64) {
 	val := c.Value(name)
 	if i, ok := val.(float64); ok {
 		res = i
-	} else {
+	} else if val != nil {
 		res = float64(reflect.ValueOf(val).Float())
 	}
 	return
-- 
2.43.0


From 843cce1e3632e03e6879efa6305ec18145f4098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:34 +0000
Subject: [PATCH 130/138] fix: Prototype: keep the aliases of a value when
 there are none to set

---
 action.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/action.go b/action.go
index ac9cd78..d675505 100644
--- a/action.go
+++ b/action.go
@@ -1630,7 +1630,9 @@ func (p *Prototype) copyToValue(c *Context) error {
 	}
 
 	copyData(o, p.Data)
-	o.setAliases(p.Aliases)
+	if len(p.Aliases) > 0 {
+		o.setAliases(p.Aliases)
+	}
 	p.Options.Execute(c)
 	return nil
 }
-- 
2.43.0


From e48911b732edc4d7ba2e9d62ad96ff8e2327f590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:03 +0000
Subject: [PATCH 131/138] fix: Bind: give each flag or arg that shares the
 action its own value

---
 action.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/action.go b/action.go
index d675505..b2e8479 100644
--- a/action.go
+++ b/action.go
@@ -709,13 +709,18 @@ func BindIndirect[T, V any](name any, bind func(*T, V) error, valopt ...V) Actio
 func bindThunk[T, V any](thunk func(context.Context) *T, bind func(*T, V) error, valopt ...V) Action {
 	switch len(valopt) {
 	case 0:
-		proto := &Prototype{Value: support.BindSupportedValue(new(V))}
+		// Each flag or arg that shares the action has its own value
+		proto := actionFunc(func(c context.Context) error {
+			return Do(c, &Prototype{Value: support.BindSupportedValue(new(V))})
+		})
 		return Pipeline(proto, bindTiming(func(c context.Context) error {
 			return bind(thunk(c), c.Value("").(V))
 		}))
 
 	case 1:
-		proto := &Prototype{Value: new(bool)}
+		proto := actionFunc(func(c context.Context) error {
+			return Do(c, &Prototype{Value: new(bool)})
+		})
 		val := valopt[0]
 		return Pipeline(proto, bindTiming(func(c context.Context) error {
 			return bind(thunk(c), val)
-- 
2.43.0


From 2e7afb345d9468fe810605215b2981ea5fad2da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:42 +0000
Subject: [PATCH 132/138] fix: EachOccurrence: keep the timing of the context
 for each occurrence

---
 option.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/option.go b/option.go
index bdfa560..5019463 100644
--- a/option.go
+++ b/option.go
@@ -597,7 +597,7 @@ func eachOccurrenceOpt(c1 *Context) error {
 			optionContext: c.internal.(*optionContext),
 		}
 
-		scope := c.copy(opt, mini)
+		scope := c.copy(opt, mini).setTiming(c.timing)
 
 		// Obtain either the zero value or Reset() the value
 		resetOnFirstOccur := !opt.internalFlags().merge()
-- 
2.43.0


From d562b4970294fac8aff212d6092c021cd1481862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:35 +0000
Subject: [PATCH 133/138] fix: RawParse: keep characters of several bytes
 together in short flags

---
 set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index c0c3544..4dffcca 100644
--- a/set.go
+++ b/set.go
@@ -347,7 +347,8 @@ Parsing:
 			}
 
 			_, opt, _, _ := b.LookupOption(flag)
-			value := arg[1+i:]
+			_, width := utf8.DecodeRuneInString(arg[i:])
+			value := arg[i+width:]
 
 			if value != "" {
 				err = instanceTake(value, false, opt)
-- 
2.43.0


From 3b91dd8b3947e1760be6823aa3fe6529d8384253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:38 +0000
Subject: [PATCH 134/138] fix: template: keep the working directory when there
 is none to pop

---
 extensions/template/context.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/template/context.go b/extensions/template/context.go
index 04f2c13..b8ceb5d 100644
--- a/extensions/template/context.go
+++ b/extensions/template/context.go
@@ -73,10 +73,10 @@ func (c *OutputContext) PushDir(name string) error {
 }
 
 func (c *OutputContext) PopDir() error {
-	c.working = c.working[0 : len(c.working)-1]
-	if len(c.working) == 0 {
+	if len(c.working) <= 1 {
 		return fmt.Errorf("cannot pop dir")
 	}
+	c.working = c.working[0 : len(c.working)-1]
 	return nil
 }
 
-- 
2.43.0


From 2a7dccf79da62addfd6d4557db384e34506115a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:38 +0000
Subject: [PATCH 135/138] fix: template: leave the directory when generating
 its contents fails

---
 extensions/template/dir.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/extensions/template/dir.go b/extensions/template/dir.go
index 4f2f585..488e094 100644
--- a/extensions/template/dir.go
+++ b/extensions/template/dir.go
@@ -15,12 +15,9 @@ func Dir(name string, contents ...Generator) Generator {
 
 func (d *dirGenerator) Generate(ctx context.Context, c *OutputContext) error {
 	c.PushDir(d.name)
-	for _, g := range d.contents {
-		err := c.Do(ctx, g)
-		if err != nil {
-			return err
-		}
+	err := c.Do(ctx, d.contents...)
+	if popErr := c.PopDir(); err == nil {
+		err = popErr
 	}
-
-	return c.PopDir()
+	return err
 }
-- 
2.43.0


From 43595c36a309eede461ff96ced5118e64603f161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:38 +0000
Subject: [PATCH 136/138] fix: template: skip nil generators in Dir and Do as
 in a sequence

---
 extensions/template/context.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/extensions/template/context.go b/extensions/template/context.go
index b8ceb5d..c6ae1d6 100644
--- a/extensions/template/context.go
+++ b/extensions/template/context.go
@@ -40,13 +40,7 @@ var (
 )
 
 func (c *OutputContext) Do(ctx context.Context, gens ...Generator) error {
-	for _, g := range gens {
-		err := g.Generate(ctx, c)
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+	return Sequence(gens).Generate(ctx, c)
 }
 
 func (c *OutputContext) Exists(name string) bool {
-- 
2.43.0


From 6e89dc44e9c673bb328c069c3a6e3ec9eba0bb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:45 +0000
Subject: [PATCH 137/138] fix: AddFlag and such: leave the slices that other
 commands share as they are

---
 context.go                 | 10 +++++-----
 extensions/expr/context.go |  4 +++-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/context.go b/context.go
index 756505b..d8191ab 100644
--- a/context.go
+++ b/context.go
@@ -1293,7 +1293,7 @@ func (c *Context) updateFlags(fn func([]*Flag) []*Flag) error {
 		return err
 	}
 	cmd := c.Command()
-	cmd.Flags = fn(cmd.Flags)
+	cmd.Flags = fn(slices.Clone(cmd.Flags))
 	return nil
 }
 
@@ -1306,16 +1306,16 @@ func (c *Context) updateArgs(fn func([]*Arg) []*Arg) error {
 	if a, ok := c.Target().(haveLocalArgs); ok {
 		switch aa := a.(type) {
 		case interface{ SetLocalArgs([]*Arg) error }:
-			return aa.SetLocalArgs(fn(a.LocalArgs()))
+			return aa.SetLocalArgs(fn(slices.Clone(a.LocalArgs())))
 
 		case interface{ SetLocalArgs([]*Arg) }:
-			aa.SetLocalArgs(fn(a.LocalArgs()))
+			aa.SetLocalArgs(fn(slices.Clone(a.LocalArgs())))
 			return nil
 		}
 	}
 
 	cmd := c.Command()
-	cmd.Args = fn(cmd.Args)
+	cmd.Args = fn(slices.Clone(cmd.Args))
 	return nil
 }
 
@@ -1325,7 +1325,7 @@ func (c *Context) updateSubcommands(fn func([]*Command) []*Command) error {
 		return err
 	}
 	cmd := c.Command()
-	cmd.Subcommands = fn(cmd.Subcommands)
+	cmd.Subcommands = fn(slices.Clone(cmd.Subcommands))
 	return nil
 }
 
diff --git a/extensions/expr/context.go b/extensions/expr/context.go
index aa1b386..52dc46d 100644
--- a/extensions/expr/context.go
+++ b/extensions/expr/context.go
@@ -1,6 +1,8 @@
 package expr
 
 import (
+	"slices"
+
 	"github.com/Carbonfrost/joe-cli"
 )
 
@@ -41,7 +43,7 @@ func updateExprs(c *cli.Context, fn func([]*Expr) []*Expr) error {
 		return err
 	}
 	exp := c.Arg().Value.(*Expression)
-	exp.Exprs = fn(exp.Exprs)
+	exp.Exprs = fn(slices.Clone(exp.Exprs))
 	return nil
 }
 
-- 
2.43.0


From 70f1c7d70ea95b451d0e38dd90160704eeb53dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:51 +0000
Subject: [PATCH 138/138] fix: sorted flags, commands and exprs: do not reorder
 slices that other commands share

---
 extensions/expr/expr.go | 2 +-
 option.go               | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index 08d05e6..f48279e 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -311,7 +311,7 @@ func (e *Expression) Initializer() cli.Action {
 }
 
 func (e *expressionDescription) SortUsage() {
-	slices.SortFunc(e.exp.Exprs, exprsByNameOrder)
+	e.exp.Exprs = slices.SortedFunc(slices.Values(e.exp.Exprs), exprsByNameOrder)
 }
 
 func (e *expressionDescription) String() string {
diff --git a/option.go b/option.go
index 5019463..045686c 100644
--- a/option.go
+++ b/option.go
@@ -644,13 +644,13 @@ func fileReferenceOpt(c context.Context) error {
 
 func sortedFlagsOpt(c *Context) error {
 	cmd := c.Command()
-	slices.SortFunc(cmd.Flags, flagsByNameOrder)
+	cmd.Flags = slices.SortedFunc(slices.Values(cmd.Flags), flagsByNameOrder)
 	return nil
 }
 
 func sortedCommandsOpt(c *Context) error {
 	cmd := c.Command()
-	slices.SortFunc(cmd.Subcommands, commandsByNameOrder)
+	cmd.Subcommands = slices.SortedFunc(slices.Values(cmd.Subcommands), commandsByNameOrder)
 	return nil
 }
 
-- 
2.43.0

