From b4c1346663f3269bc74533d2692d9dd24e2887cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:44 +0000
Subject: [PATCH 01/27] fix: apply additionalItems only to items beyond the
 positional ones

---
 array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array.go b/array.go
index d77e593..42475c9 100644
--- a/array.go
+++ b/array.go
@@ -103,7 +103,7 @@ pdebug.Printf("unique? -> %s", kv)
 			if cadd == nil { // you can't have additionalItems!
 				return errors.New("additional elements found in array")
 			}
-			for i := lp - 1; i < l; i++ {
+			for i := lp; i < l; i++ {
 				iv := rv.Index(i).Interface()
 				if err := cadd.Validate(iv); err != nil {
 					return err
-- 
2.43.0


From 3a21c063260686d41a41dd52d975e7fedf6e0db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:46 +0000
Subject: [PATCH 02/27] fix: count characters, not bytes, for minLength and
 maxLength

---
 string.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 9ef1d78..9a37282 100644
--- a/string.go
+++ b/string.go
@@ -9,6 +9,7 @@ import (
 	"regexp"
 	"strconv"
 	"time"
+	"unicode/utf8"
 
 	"github.com/lestrrat-go/pdebug"
 )
@@ -51,7 +52,7 @@ func (sc *StringConstraint) Validate(v interface{}) (err error) {
 	}
 
 	str := rv.String()
-	ls := len(str)
+	ls := utf8.RuneCountInString(str)
 	if sc.maxLength > -1 {
 		if pdebug.Enabled {
 			pdebug.Printf("Checking MaxLength (%d)", sc.maxLength)
-- 
2.43.0


From ddf8908e70460c2d448bfe3bc16de25f0ccd076e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:47 +0000
Subject: [PATCH 03/27] fix: check the date-time format under its JSON Schema
 name

---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 9a37282..b232167 100644
--- a/string.go
+++ b/string.go
@@ -72,7 +72,7 @@ func (sc *StringConstraint) Validate(v interface{}) (err error) {
 	}
 
 	switch sc.format {
-	case "datetime":
+	case "datetime", "date-time":
 		if _, err = time.Parse(time.RFC3339, str); err != nil {
 			return errors.New("invalid datetime")
 		}
-- 
2.43.0


From e2bd69b90d45d2af6682e5347cd1346c4048a5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:49 +0000
Subject: [PATCH 04/27] fix: accept hexadecimal digits in ipv6 addresses

---
 string.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/string.go b/string.go
index b232167..d7dacde 100644
--- a/string.go
+++ b/string.go
@@ -8,6 +8,7 @@ import (
 	"reflect"
 	"regexp"
 	"strconv"
+	"strings"
 	"time"
 	"unicode/utf8"
 
@@ -97,13 +98,9 @@ func (sc *StringConstraint) Validate(v interface{}) (err error) {
 			return errors.New("invalid IPv4 address")
 		}
 	case "ipv6":
-		// Should only contain numbers and ":"
-		for _, r := range str {
-			switch {
-			case r == 0x3A || 0x30 <= r && r <= 0x39:
-			default:
-				return errors.New("invalid IPv6 address")
-			}
+		// Must contain a ":", otherwise it would be an IPv4 address
+		if strings.IndexByte(str, ':') < 0 {
+			return errors.New("invalid IPv6 address")
 		}
 		if addr := net.ParseIP(str); addr == nil {
 			return errors.New("invalid IPv6 address")
-- 
2.43.0


From eb3462e351bc46c3016e61128fc2b62987a90fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:50 +0000
Subject: [PATCH 05/27] fix: check required properties that have no definition
 in properties

---
 object.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/object.go b/object.go
index 478ffb8..83a2315 100644
--- a/object.go
+++ b/object.go
@@ -370,6 +370,23 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 	}
 	o.proplock.Unlock()
 
+	// Required properties without a definition of their own
+	o.reqlock.Lock()
+	required := make(map[string]struct{})
+	for pname := range o.required {
+		required[pname] = struct{}{}
+	}
+	o.reqlock.Unlock()
+
+	for pname := range required {
+		if _, ok := propdefs[pname]; ok {
+			continue
+		}
+		if _, ok := premain[pname]; !ok {
+			return errors.New("object property '" + pname + "' is required")
+		}
+	}
+
 	for pname, c := range propdefs {
 		if pdebug.Enabled {
 			pdebug.Printf("Validating property '%s'", pname)
-- 
2.43.0


From 4cbe20f8c604617249f60b35059a305c328cf75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:52 +0000
Subject: [PATCH 06/27] fix: take additional properties into account when
 checking dependencies

---
 object.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/object.go b/object.go
index 83a2315..3ff9bde 100644
--- a/object.go
+++ b/object.go
@@ -485,6 +485,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 
 		for pname := range premain {
 			pval := o.getProp(rv, pname)
+			pseen[pname] = struct{}{}
 			if err := c.Validate(pval.Interface()); err != nil {
 				return errors.New("object property for '" + pname + "' validation failed: " + err.Error())
 			}
-- 
2.43.0


From 9e2fde8ae050298013d59258de69906907b1f938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:53 +0000
Subject: [PATCH 07/27] fix: validate a property against every
 patternProperties entry it matches

---
 object.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/object.go b/object.go
index 3ff9bde..40a4e8b 100644
--- a/object.go
+++ b/object.go
@@ -451,11 +451,17 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 		}
 	}
 
+	// A property may match more than one pattern
+	pcands := map[string]struct{}{}
+	for pname := range premain {
+		pcands[pname] = struct{}{}
+	}
+
 	for pat, c := range o.patternProperties {
 		if pdebug.Enabled {
 			pdebug.Printf("Checking patternProperty '%s'", pat.String())
 		}
-		for pname := range premain {
+		for pname := range pcands {
 			if !pat.MatchString(pname) {
 				if pdebug.Enabled {
 					pdebug.Printf("Property '%s' does not match pattern...", pname)
@@ -466,7 +472,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 				pdebug.Printf("Property '%s' matches!", pname)
 			}
 			// No need to check if this pname exists, as we're taking
-			// this from "premain"
+			// this from "pcands"
 			pval := o.getProp(rv, pname)
 
 			delete(premain, pname)
-- 
2.43.0


From d110523108eb3528e4cec0dc3adbde00df2980c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:54 +0000
Subject: [PATCH 08/27] fix: do not panic on maps whose key type is not exactly
 string

---
 object.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/object.go b/object.go
index 40a4e8b..c09e9da 100644
--- a/object.go
+++ b/object.go
@@ -291,7 +291,11 @@ func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface
 func (o *ObjectConstraint) getProp(rv reflect.Value, pname string) reflect.Value {
 	switch rv.Kind() {
 	case reflect.Map:
-		pv := reflect.ValueOf(pname)
+		kt := rv.Type().Key()
+		if kt.Kind() != reflect.String {
+			return zeroval
+		}
+		pv := reflect.ValueOf(pname).Convert(kt)
 		return rv.MapIndex(pv)
 	case reflect.Struct:
 		// This guy knows how to grab the value, given a name. Use that
-- 
2.43.0


From d6cc674dec254f77bf199562c1619401d3ea3a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:56 +0000
Subject: [PATCH 09/27] fix: report an error instead of panicking when a
 default cannot be set

---
 object.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/object.go b/object.go
index c09e9da..534f899 100644
--- a/object.go
+++ b/object.go
@@ -212,6 +212,11 @@ func coerceValue(v interface{}, t reflect.Type) reflect.Value {
 		vv = vv.Elem()
 	}
 
+	if vv == zeroval {
+		// a default value of "null"
+		return reflect.Zero(t)
+	}
+
 	// For known Maybe types, we should do our best, too
 	switch {
 	case t == maybefloatT:
@@ -240,7 +245,15 @@ func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface
 
 	switch rv.Kind() {
 	case reflect.Map:
-		rv.SetMapIndex(reflect.ValueOf(pname), reflect.ValueOf(val))
+		kt, et := rv.Type().Key(), rv.Type().Elem()
+		if rv.IsNil() || kt.Kind() != reflect.String {
+			return errors.New("setProp: cannot set '" + pname + "' on this map")
+		}
+		mval := coerceValue(val, et)
+		if !mval.Type().AssignableTo(et) {
+			return errors.New("setProp: value for '" + pname + "' has the wrong type")
+		}
+		rv.SetMapIndex(reflect.ValueOf(pname).Convert(kt), mval)
 		return nil
 	case reflect.Struct:
 		spvm := rv.MethodByName("SetPropValue")
@@ -270,6 +283,12 @@ func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface
 		case f.CanAddr() && f.Addr().Type().Implements(maybeif):
 			mv = f.Addr().MethodByName("Set")
 		default:
+			if !f.CanSet() {
+				return errors.New("setProp: field for '" + pname + "' cannot be set")
+			}
+			if !dv.Type().AssignableTo(f.Type()) {
+				return errors.New("setProp: value for '" + pname + "' has the wrong type")
+			}
 			f.Set(dv)
 			return nil
 		}
-- 
2.43.0


From fee4790321c309fc81986ef50dce0edcf644bab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:57 +0000
Subject: [PATCH 10/27] fix: handle embedded pointers and non-struct embedded
 fields

---
 object.go     |  2 +-
 structinfo.go | 27 ++++++++++++++++++++++++---
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/object.go b/object.go
index 534f899..b2eb7dc 100644
--- a/object.go
+++ b/object.go
@@ -337,7 +337,7 @@ func (o *ObjectConstraint) getProp(rv reflect.Value, pname string) reflect.Value
 			}
 			return zeroval
 		}
-		return rv.FieldByName(fn)
+		return fieldByName(rv, fn)
 	default:
 		return zeroval
 	}
diff --git a/structinfo.go b/structinfo.go
index e6e40dc..b762ee7 100644
--- a/structinfo.go
+++ b/structinfo.go
@@ -44,8 +44,11 @@ func (si *StructInfo) PropNames(rv reflect.Value) []string {
 
 	pnames := make([]string, 0, len(si.props))
 	for pname, pinfo := range si.props {
+		fv := fieldByName(rv, pinfo.FieldName)
+		if fv == zeroval {
+			continue
+		}
 		if pinfo.IsMaybe {
-			fv := rv.FieldByName(pinfo.FieldName)
 			mv := fv.MethodByName("Valid")
 			out := mv.Call(nil)
 			if !out[0].Bool() {
@@ -111,12 +114,30 @@ func (r *StructInfoRegistry) Register(t reflect.Type) StructInfo {
 
 var maybeif = reflect.TypeOf((*Maybe)(nil)).Elem()
 
+// fieldByName returns the named field, or the zero reflect.Value if it
+// does not exist or lies within an embedded pointer that is nil
+func fieldByName(rv reflect.Value, name string) reflect.Value {
+	sf, ok := rv.Type().FieldByName(name)
+	if !ok {
+		return zeroval
+	}
+	fv, err := rv.FieldByIndexErr(sf.Index)
+	if err != nil {
+		return zeroval
+	}
+	return fv
+}
+
 func extract(t reflect.Type) map[string]PropInfo {
 	props := make(map[string]PropInfo)
 	for i := 0; i < t.NumField(); i++ {
 		fv := t.Field(i)
-		if fv.Anonymous {
-			info := extract(fv.Type)
+		ft := fv.Type
+		if ft.Kind() == reflect.Ptr {
+			ft = ft.Elem()
+		}
+		if fv.Anonymous && ft.Kind() == reflect.Struct {
+			info := extract(ft)
 			for k, v := range info {
 				props[k] = v
 			}
-- 
2.43.0


From b44d7f0ba46bd153addd2b3df7d9a423a613f783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:59 +0000
Subject: [PATCH 11/27] fix: pass enum values individually when building number
 constraints

---
 builder/enum.go   | 2 +-
 builder/number.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/enum.go b/builder/enum.go
index 1e80a67..153c099 100644
--- a/builder/enum.go
+++ b/builder/enum.go
@@ -8,6 +8,6 @@ import (
 func buildEnumConstraint(_ *buildctx, c *jsval.EnumConstraint, s *schema.Schema) error {
 	l := make([]interface{}, len(s.Enum))
 	copy(l, s.Enum)
-	c.Enum(l)
+	c.Enum(l...)
 	return nil
 }
diff --git a/builder/number.go b/builder/number.go
index 6dedb57..cb455ac 100644
--- a/builder/number.go
+++ b/builder/number.go
@@ -69,7 +69,7 @@ func buildNumberConstraint(ctx *buildctx, nc *jsval.NumberConstraint, s *schema.
 	}
 
 	if lst := s.Enum; len(lst) > 0 {
-		nc.Enum(lst)
+		nc.Enum(lst...)
 	}
 
 	if v := s.Default; v != nil {
-- 
2.43.0


From 1ea663df5e89e5c1322ac8d3f17568063af17956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:34 +0000
Subject: [PATCH 12/27] fix: apply not, allOf, anyOf and oneOf together when a
 schema has several of them

---
 builder/builder.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index 2172597..3f7ddfb 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -165,8 +165,7 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 
 	ct := jsval.All()
 
-	switch {
-	case s.Not != nil:
+	if s.Not != nil {
 		if pdebug.Enabled {
 			pdebug.Printf("Not constraint")
 		}
@@ -175,7 +174,8 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 			return nil, err
 		}
 		ct.Add(jsval.Not(c1))
-	case len(s.AllOf) > 0:
+	}
+	if len(s.AllOf) > 0 {
 		if pdebug.Enabled {
 			pdebug.Printf("AllOf constraint")
 		}
@@ -188,7 +188,8 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 			ac.Add(c1)
 		}
 		ct.Add(ac.Reduce())
-	case len(s.AnyOf) > 0:
+	}
+	if len(s.AnyOf) > 0 {
 		if pdebug.Enabled {
 			pdebug.Printf("AnyOf constraint")
 		}
@@ -201,7 +202,8 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 			ac.Add(c1)
 		}
 		ct.Add(ac.Reduce())
-	case len(s.OneOf) > 0:
+	}
+	if len(s.OneOf) > 0 {
 		if pdebug.Enabled {
 			pdebug.Printf("OneOf constraint")
 		}
-- 
2.43.0


From 09c0035f52da48be2dbb09b24411f6244903e361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:36 +0000
Subject: [PATCH 13/27] fix: report references that do not resolve to a schema
 instead of panicking

---
 builder/builder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index 3f7ddfb..68b5dab 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -137,6 +137,8 @@ func compileReferences(ctx *buildctx, r *jsref.Resolver, v *jsval.JSVal, ref str
 		if err := s1.Extract(thing.(map[string]interface{})); err != nil {
 			return err
 		}
+	default:
+		return errors.New("reference '" + ref + "' does not resolve to a schema")
 	}
 
 	c1, err := buildFromSchema(ctx, s1)
-- 
2.43.0


From f05be44cbdba37068682b04ceee5276e479b7ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:37 +0000
Subject: [PATCH 14/27] fix: keep the integer check when MultipleOf or Enum is
 chained on Integer()

---
 number.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/number.go b/number.go
index 872d3c2..e3fca09 100644
--- a/number.go
+++ b/number.go
@@ -176,6 +176,19 @@ func (ic *IntegerConstraint) Minimum(n float64) *IntegerConstraint {
 	return ic
 }
 
+// MultipleOf specifies the number that the given value must be
+// divisible by
+func (ic *IntegerConstraint) MultipleOf(n float64) *IntegerConstraint {
+	ic.NumberConstraint.MultipleOf(n)
+	return ic
+}
+
+// Enum specifies the values that this constraint can have
+func (ic *IntegerConstraint) Enum(l ...interface{}) *IntegerConstraint {
+	ic.NumberConstraint.Enum(l...)
+	return ic
+}
+
 // ExclusiveMinimum specifies if the minimum value should be considered
 // a valid value
 func (ic *IntegerConstraint) ExclusiveMinimum(b bool) *IntegerConstraint {
-- 
2.43.0


From b6f92b82e79aab2f61e174776f4aeb9c8a3ed136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:39 +0000
Subject: [PATCH 15/27] fix: mark MaybeTime as valid after unmarshaling

---
 internal/cmd/genmaybe/genmaybe.go | 1 +
 maybe.go                          | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/cmd/genmaybe/genmaybe.go b/internal/cmd/genmaybe/genmaybe.go
index 679237b..5e53527 100644
--- a/internal/cmd/genmaybe/genmaybe.go
+++ b/internal/cmd/genmaybe/genmaybe.go
@@ -225,6 +225,7 @@ func genMaybe(types map[string]string, typenames []string, fn string) {
 			buf.WriteString("\nif err != nil {")
 			buf.WriteString("\n	return err")
 			buf.WriteString("\n}")
+			buf.WriteString("\nv.ValidFlag = true")
 			buf.WriteString("\nv.Time = t")
 			buf.WriteString("\nreturn nil")
 			buf.WriteString("\n}")
diff --git a/maybe.go b/maybe.go
index 6006278..a4483b5 100644
--- a/maybe.go
+++ b/maybe.go
@@ -242,6 +242,7 @@ func (v *MaybeTime) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		return err
 	}
+	v.ValidFlag = true
 	v.Time = t
 	return nil
 }
-- 
2.43.0


From 548ac8e720e8c93a284d2e9c29979adf445f4147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:44 +0000
Subject: [PATCH 16/27] fix: do not interpret generated code as a format string

---
 generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator.go b/generator.go
index 47d5e17..ac47b1c 100644
--- a/generator.go
+++ b/generator.go
@@ -228,7 +228,7 @@ func generateCode(ctx *genctx, out io.Writer, c interface {
 
 	s := buf.String()
 	s = strings.TrimSuffix(s, ".\n")
-	fmt.Fprintf(out, s)
+	fmt.Fprint(out, s)
 
 	return nil
 }
-- 
2.43.0


From ef179452acefff03a856dff6611301a180e3c83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:45 +0000
Subject: [PATCH 17/27] fix: generate valid code for not constraints

---
 generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator.go b/generator.go
index ac47b1c..12c7bb4 100644
--- a/generator.go
+++ b/generator.go
@@ -521,6 +521,6 @@ func generateNotCode(ctx *genctx, out io.Writer, c *NotConstraint) error {
 	if err := generateCode(ctx, out, c.child); err != nil {
 		return err
 	}
-	fmt.Fprint(out, "\n)")
+	fmt.Fprint(out, ",\n)")
 	return nil
 }
-- 
2.43.0


From 34e9e8b4dea8fe48f7977bf336f2ea26ccbde953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:47 +0000
Subject: [PATCH 18/27] fix: generate code for arrays that allow no additional
 items

---
 generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator.go b/generator.go
index 12c7bb4..b03dfa3 100644
--- a/generator.go
+++ b/generator.go
@@ -485,12 +485,15 @@ func generateArrayCode(ctx *genctx, out io.Writer, c *ArrayConstraint) error {
 			return err
 		}
 		fmt.Fprintf(out, ",\n)")
+	} else {
+		fmt.Fprint(out, ".\nAdditionalItems(nil)")
 	}
 
 	if cc := c.positionalItems; len(cc) > 0 {
 		fmt.Fprintf(out, ".\nPositionalItems([]%s.Constraint{\n", ctx.pkgname)
 		for _, ccc := range cc {
 			if err := generateCode(ctx, out, ccc); err != nil {
+				return err
 			}
 			fmt.Fprintf(out, ",\n")
 		}
-- 
2.43.0


From 3165c0a11b39135259e6bcec3bedc8f1edee285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:48 +0000
Subject: [PATCH 19/27] fix: generate numeric bounds without losing precision

---
 generator.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/generator.go b/generator.go
index b03dfa3..715d850 100644
--- a/generator.go
+++ b/generator.go
@@ -266,11 +266,16 @@ func generateOneOfCode(ctx *genctx, out io.Writer, c *OneOfConstraint) error {
 	return generateComboCode(ctx, out, "OneOf", c.constraints)
 }
 
+// floatLiteral returns a Go literal for exactly the given number
+func floatLiteral(f float64) string {
+	return strconv.FormatFloat(f, 'g', -1, 64)
+}
+
 func generateIntegerCode(ctx *genctx, out io.Writer, c *IntegerConstraint) error {
 	fmt.Fprintf(out, "%s.Integer()", ctx.pkgname)
 
 	if c.applyMinimum {
-		fmt.Fprintf(out, ".Minimum(%d)", int(c.minimum))
+		fmt.Fprintf(out, ".Minimum(%s)", floatLiteral(c.minimum))
 	}
 
 	if c.exclusiveMinimum {
@@ -278,7 +283,7 @@ func generateIntegerCode(ctx *genctx, out io.Writer, c *IntegerConstraint) error
 	}
 
 	if c.applyMaximum {
-		fmt.Fprintf(out, ".Maximum(%d)", int(c.maximum))
+		fmt.Fprintf(out, ".Maximum(%s)", floatLiteral(c.maximum))
 	}
 
 	if c.exclusiveMaximum {
@@ -296,7 +301,7 @@ func generateNumberCode(ctx *genctx, out io.Writer, c *NumberConstraint) error {
 	fmt.Fprintf(out, "%s.Number()", ctx.pkgname)
 
 	if c.applyMinimum {
-		fmt.Fprintf(out, ".Minimum(%f)", c.minimum)
+		fmt.Fprintf(out, ".Minimum(%s)", floatLiteral(c.minimum))
 	}
 
 	if c.exclusiveMinimum {
@@ -304,7 +309,7 @@ func generateNumberCode(ctx *genctx, out io.Writer, c *NumberConstraint) error {
 	}
 
 	if c.applyMaximum {
-		fmt.Fprintf(out, ".Maximum(%f)", c.maximum)
+		fmt.Fprintf(out, ".Maximum(%s)", floatLiteral(c.maximum))
 	}
 
 	if c.exclusiveMaximum {
-- 
2.43.0


From cc5cfb08ee4a229e3c49086b9a444e068279ac10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:50 +0000
Subject: [PATCH 20/27] fix: generate multipleOf and enum of numeric
 constraints

---
 generator.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/generator.go b/generator.go
index 715d850..9875555 100644
--- a/generator.go
+++ b/generator.go
@@ -290,6 +290,18 @@ func generateIntegerCode(ctx *genctx, out io.Writer, c *IntegerConstraint) error
 		fmt.Fprintf(out, ".ExclusiveMaximum(true)")
 	}
 
+	if c.applyMultipleOf {
+		fmt.Fprintf(out, ".MultipleOf(%s)", floatLiteral(c.multipleOf))
+	}
+
+	if enum := c.enums; enum != nil {
+		fmt.Fprintf(out, ".Enum(")
+		if err := generateEnumCode(ctx, out, enum); err != nil {
+			return err
+		}
+		fmt.Fprintf(out, ")")
+	}
+
 	if c.HasDefault() {
 		fmt.Fprintf(out, ".Default(%d)", int(c.DefaultValue().(float64)))
 	}
@@ -316,6 +328,18 @@ func generateNumberCode(ctx *genctx, out io.Writer, c *NumberConstraint) error {
 		fmt.Fprintf(out, ".ExclusiveMaximum(true)")
 	}
 
+	if c.applyMultipleOf {
+		fmt.Fprintf(out, ".MultipleOf(%s)", floatLiteral(c.multipleOf))
+	}
+
+	if enum := c.enums; enum != nil {
+		fmt.Fprintf(out, ".Enum(")
+		if err := generateEnumCode(ctx, out, enum); err != nil {
+			return err
+		}
+		fmt.Fprintf(out, ")")
+	}
+
 	if c.HasDefault() {
 		fmt.Fprintf(out, ".Default(%f)", c.DefaultValue())
 	}
-- 
2.43.0


From 0af87ef1262fb9866bd93a2bf51bc3ee93276de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:52 +0000
Subject: [PATCH 21/27] fix: generate default and enum values with their own
 type

---
 generator.go | 49 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/generator.go b/generator.go
index 9875555..49749fd 100644
--- a/generator.go
+++ b/generator.go
@@ -303,7 +303,11 @@ func generateIntegerCode(ctx *genctx, out io.Writer, c *IntegerConstraint) error
 	}
 
 	if c.HasDefault() {
-		fmt.Fprintf(out, ".Default(%d)", int(c.DefaultValue().(float64)))
+		fmt.Fprintf(out, ".Default(")
+		if err := generateValueCode(ctx, out, c.DefaultValue()); err != nil {
+			return err
+		}
+		fmt.Fprintf(out, ")")
 	}
 
 	return nil
@@ -341,26 +345,45 @@ func generateNumberCode(ctx *genctx, out io.Writer, c *NumberConstraint) error {
 	}
 
 	if c.HasDefault() {
-		fmt.Fprintf(out, ".Default(%f)", c.DefaultValue())
+		fmt.Fprintf(out, ".Default(")
+		if err := generateValueCode(ctx, out, c.DefaultValue()); err != nil {
+			return err
+		}
+		fmt.Fprintf(out, ")")
 	}
 
 	return nil
 }
 
+// generateValueCode generates an expression that yields the given value,
+// with the same dynamic type
+func generateValueCode(ctx *genctx, out io.Writer, v interface{}) error {
+	rv := reflect.ValueOf(v)
+	switch rv.Kind() {
+	case reflect.Invalid:
+		fmt.Fprint(out, "nil")
+	case reflect.Bool:
+		fmt.Fprintf(out, "%t", rv.Bool())
+	case reflect.String:
+		fmt.Fprintf(out, "%s", strconv.Quote(rv.String()))
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		fmt.Fprintf(out, "%s(%d)", rv.Kind(), rv.Int())
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		fmt.Fprintf(out, "%s(%d)", rv.Kind(), rv.Uint())
+	case reflect.Float32, reflect.Float64:
+		fmt.Fprintf(out, "%s(%s)", rv.Kind(), floatLiteral(rv.Float()))
+	default:
+		return fmt.Errorf("failed to stringify value %#v", rv.Interface())
+	}
+	return nil
+}
+
 func generateEnumCode(ctx *genctx, out io.Writer, c *EnumConstraint) error {
 	fmt.Fprintf(out, "")
 	l := len(c.enums)
 	for i, v := range c.enums {
-		rv := reflect.ValueOf(v)
-		switch rv.Kind() {
-		case reflect.String:
-			fmt.Fprintf(out, "%s", strconv.Quote(rv.String()))
-		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-			fmt.Fprintf(out, "%d", rv.Int())
-		case reflect.Float32, reflect.Float64:
-			fmt.Fprintf(out, "%f", rv.Float())
-		default:
-			return fmt.Errorf("failed to stringify enum value %#v", rv.Interface())
+		if err := generateValueCode(ctx, out, v); err != nil {
+			return err
 		}
 		if i < l-1 {
 			fmt.Fprintf(out, ", ")
@@ -394,7 +417,7 @@ func generateStringCode(ctx *genctx, out io.Writer, c *StringConstraint) error {
 		if err := generateEnumCode(ctx, out, enum); err != nil {
 			return err
 		}
-		fmt.Fprintf(out, ",)")
+		fmt.Fprintf(out, ")")
 	}
 
 	if c.HasDefault() {
-- 
2.43.0


From cb6ebaa5554c997bb6dd546dd6413d8604622e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:53 +0000
Subject: [PATCH 22/27] fix: generate code for enum constraints that have no
 type

---
 generator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/generator.go b/generator.go
index 49749fd..ca0ed00 100644
--- a/generator.go
+++ b/generator.go
@@ -196,6 +196,12 @@ func generateCode(ctx *genctx, out io.Writer, c interface {
 		if err := generateBooleanCode(ctx, buf, c.(*BooleanConstraint)); err != nil {
 			return err
 		}
+	case *EnumConstraint:
+		fmt.Fprintf(buf, "%s.Enum(", ctx.pkgname)
+		if err := generateEnumCode(ctx, buf, c.(*EnumConstraint)); err != nil {
+			return err
+		}
+		fmt.Fprint(buf, ")")
 	case *IntegerConstraint:
 		if err := generateIntegerCode(ctx, buf, c.(*IntegerConstraint)); err != nil {
 			return err
-- 
2.43.0


From 4b46efa994db2a2ad309a9e4fdc87fbdcec71493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:55 +0000
Subject: [PATCH 23/27] fix: do not turn an empty any or oneOf into a
 constraint that accepts everything

---
 generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator.go b/generator.go
index ca0ed00..d9f1eb3 100644
--- a/generator.go
+++ b/generator.go
@@ -246,7 +246,7 @@ func generateReferenceCode(ctx *genctx, out io.Writer, c *ReferenceConstraint) e
 }
 
 func generateComboCode(ctx *genctx, out io.Writer, name string, clist []Constraint) error {
-	if len(clist) == 0 {
+	if len(clist) == 0 && name == "All" {
 		return generateEmptyCode(ctx, out, EmptyConstraint)
 	}
 	fmt.Fprintf(out, "%s.%s()", ctx.pkgname, name)
-- 
2.43.0


From f0042d6313adf434f691e91a7d9bf2233679b270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:56 +0000
Subject: [PATCH 24/27] fix: generate minProperties, maxProperties and schema
 dependencies

---
 generator.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/generator.go b/generator.go
index d9f1eb3..41d10f8 100644
--- a/generator.go
+++ b/generator.go
@@ -463,6 +463,14 @@ func generateObjectCode(ctx *genctx, out io.Writer, c *ObjectConstraint) error {
 		fmt.Fprint(out, ")")
 	}
 
+	if c.minProperties > -1 {
+		fmt.Fprintf(out, ".\nMinProperties(%d)", c.minProperties)
+	}
+
+	if c.maxProperties > -1 {
+		fmt.Fprintf(out, ".\nMaxProperties(%d)", c.maxProperties)
+	}
+
 	if aprop := c.additionalProperties; aprop != nil {
 		fmt.Fprintf(out, ".\nAdditionalProperties(\n")
 		if err := generateCode(ctx, out, aprop); err != nil {
@@ -523,6 +531,22 @@ func generateObjectCode(ctx *genctx, out io.Writer, c *ObjectConstraint) error {
 		}
 	}
 
+	if m := c.schemadeps; len(m) > 0 {
+		keys := make([]string, 0, len(m))
+		for from := range m {
+			keys = append(keys, from)
+		}
+		sort.Strings(keys)
+
+		for _, from := range keys {
+			fmt.Fprintf(out, ".\nSchemaDependency(\n%s,\n", strconv.Quote(from))
+			if err := generateCode(ctx, out, m[from]); err != nil {
+				return err
+			}
+			fmt.Fprint(out, ",\n)")
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From a0f3c2c8c77725493a101e6d6d6824d6e0073818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:48 +0000
Subject: [PATCH 25/27] fix: validate the value of undeclared Maybe fields, not
 the Maybe itself

---
 object.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/object.go b/object.go
index b2eb7dc..6f52457 100644
--- a/object.go
+++ b/object.go
@@ -343,6 +343,15 @@ func (o *ObjectConstraint) getProp(rv reflect.Value, pname string) reflect.Value
 	}
 }
 
+// maybeValue returns the value held by a Maybe value. Anything else is
+// returned as is
+func maybeValue(v reflect.Value) reflect.Value {
+	if v != zeroval && (v.Type().Implements(maybeif) || reflect.PtrTo(v.Type()).Implements(maybeif)) {
+		return v.MethodByName("Value").Call(nil)[0]
+	}
+	return v
+}
+
 // Validate validates the given value against this ObjectConstraint
 func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 	if pdebug.Enabled {
@@ -496,7 +505,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 			}
 			// No need to check if this pname exists, as we're taking
 			// this from "pcands"
-			pval := o.getProp(rv, pname)
+			pval := maybeValue(o.getProp(rv, pname))
 
 			delete(premain, pname)
 			pseen[pname] = struct{}{}
@@ -513,7 +522,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 		}
 
 		for pname := range premain {
-			pval := o.getProp(rv, pname)
+			pval := maybeValue(o.getProp(rv, pname))
 			pseen[pname] = struct{}{}
 			if err := c.Validate(pval.Interface()); err != nil {
 				return errors.New("object property for '" + pname + "' validation failed: " + err.Error())
-- 
2.43.0


From 51dc99c6f6f12c042d692d187c32a80b7f65af7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:29 +0000
Subject: [PATCH 26/27] fix: look through pointers to pointers and interfaces
 when validating objects

---
 object.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/object.go b/object.go
index 6f52457..854e4f8 100644
--- a/object.go
+++ b/object.go
@@ -366,8 +366,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 	}
 
 	rv := reflect.ValueOf(v)
-	switch rv.Kind() {
-	case reflect.Ptr, reflect.Interface:
+	for rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Interface {
 		rv = rv.Elem()
 	}
 
-- 
2.43.0


From 5890a7d05e33acbb244a2832bb6c1f9bd0def2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:02 +0000
Subject: [PATCH 27/27] fix: generate every pattern of an object, also those
 with the same source

Patterns were collected in a map keyed by their source, so of two
patterns with the same source only one made it into the generated
code.
---
 generator.go | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/generator.go b/generator.go
index 41d10f8..4c2e5da 100644
--- a/generator.go
+++ b/generator.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"os"
 	"reflect"
+	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -439,6 +440,13 @@ func generateStringCode(ctx *genctx, out io.Writer, c *StringConstraint) error {
 	return nil
 }
 
+// regexpSlice sorts regular expressions by their source
+type regexpSlice []*regexp.Regexp
+
+func (s regexpSlice) Len() int           { return len(s) }
+func (s regexpSlice) Less(i, j int) bool { return s[i].String() < s[j].String() }
+func (s regexpSlice) Swap(i, j int)      { s[i], s[j] = s[j], s[i] }
+
 func generateObjectCode(ctx *genctx, out io.Writer, c *ObjectConstraint) error {
 	fmt.Fprintf(out, "%s.Object()", ctx.pkgname)
 
@@ -496,21 +504,16 @@ func generateObjectCode(ctx *genctx, out io.Writer, c *ObjectConstraint) error {
 	}
 
 	// patternProperties is a bit tricky, because the keys are
-	// Regexp objects, and they don't have a sort.Regexp available
-	// for us. It's easy to write one, but we'd have to stringify them
-	// anyways, so we might as well just create a temporary container
-	// with strings as keys
-	ppmap := make(map[string]Constraint)
-	ppnames := make([]string, 0, len(c.patternProperties))
-	for rx, ppc := range c.patternProperties {
-		rxs := rx.String()
-		ppmap[rxs] = ppc
-		ppnames = append(ppnames, rxs)
-	}
-	sort.Strings(ppnames)
-	for _, ppname := range ppnames {
-		fmt.Fprintf(out, ".\nPatternPropertiesString(\n%s,\n", strconv.Quote(ppname))
-		if err := generateCode(ctx, out, ppmap[ppname]); err != nil {
+	// Regexp objects: they are sorted by their source. Two of them
+	// may have the same source
+	patterns := make([]*regexp.Regexp, 0, len(c.patternProperties))
+	for rx := range c.patternProperties {
+		patterns = append(patterns, rx)
+	}
+	sort.Sort(regexpSlice(patterns))
+	for _, rx := range patterns {
+		fmt.Fprintf(out, ".\nPatternPropertiesString(\n%s,\n", strconv.Quote(rx.String()))
+		if err := generateCode(ctx, out, c.patternProperties[rx]); err != nil {
 			return err
 		}
 		fmt.Fprint(out, ",\n)")
-- 
2.43.0

