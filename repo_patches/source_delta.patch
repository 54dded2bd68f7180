From 1089134719224afb56a9bfbb847847c6fa1d3199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:55 +0000
Subject: [PATCH 01/46] fix: apply additionalItems only to the elements after
 the positional ones

---
 array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array.go b/array.go
index d77e593..42475c9 100644
--- a/array.go
+++ b/array.go
@@ -103,7 +103,7 @@ pdebug.Printf("unique? -> %s", kv)
 			if cadd == nil { // you can't have additionalItems!
 				return errors.New("additional elements found in array")
 			}
-			for i := lp - 1; i < l; i++ {
+			for i := lp; i < l; i++ {
 				iv := rv.Index(i).Interface()
 				if err := cadd.Validate(iv); err != nil {
 					return err
-- 
2.43.0


From a7b101ac336c975c2489885e5a4b38f1fdc3e1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:24 +0000
Subject: [PATCH 02/46] fix: enforce required properties that have no
 definition of their own

---
 object.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/object.go b/object.go
index 478ffb8..9fce04e 100644
--- a/object.go
+++ b/object.go
@@ -370,6 +370,22 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 	}
 	o.proplock.Unlock()
 
+	// Required properties that are not listed under properties must be
+	// present, too. The ones that are listed are checked below
+	var reqnames []string
+	o.reqlock.Lock()
+	for pname := range o.required {
+		if _, ok := propdefs[pname]; !ok {
+			reqnames = append(reqnames, pname)
+		}
+	}
+	o.reqlock.Unlock()
+	for _, pname := range reqnames {
+		if _, ok := premain[pname]; !ok {
+			return errors.New("object property '" + pname + "' is required")
+		}
+	}
+
 	for pname, c := range propdefs {
 		if pdebug.Enabled {
 			pdebug.Printf("Validating property '%s'", pname)
-- 
2.43.0


From c35ff80e25311ba859edcf715e710ef8780fe397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:26 +0000
Subject: [PATCH 03/46] fix: validate a property against every pattern that
 matches its name

---
 object.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/object.go b/object.go
index 9fce04e..a702a50 100644
--- a/object.go
+++ b/object.go
@@ -364,10 +364,14 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 	// Now, for all known constraints, validate the prop
 	// create a copy of properties so that we don't have to keep the lock
 	propdefs := make(map[string]Constraint)
+	patdefs := make(map[*regexp.Regexp]Constraint)
 	o.proplock.Lock()
 	for pname, c := range o.properties {
 		propdefs[pname] = c
 	}
+	for pat, c := range o.patternProperties {
+		patdefs[pat] = c
+	}
 	o.proplock.Unlock()
 
 	// Required properties that are not listed under properties must be
@@ -450,7 +454,10 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 		}
 	}
 
-	for pat, c := range o.patternProperties {
+	// A property may match more than one pattern, in which case it must
+	// satisfy all of them, so don't touch premain until we're done
+	pmatched := map[string]struct{}{}
+	for pat, c := range patdefs {
 		if pdebug.Enabled {
 			pdebug.Printf("Checking patternProperty '%s'", pat.String())
 		}
@@ -468,13 +475,16 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 			// this from "premain"
 			pval := o.getProp(rv, pname)
 
-			delete(premain, pname)
-			pseen[pname] = struct{}{}
+			pmatched[pname] = struct{}{}
 			if err := c.Validate(pval.Interface()); err != nil {
 				return errors.New("object property '" + pname + "' validation failed: " + err.Error())
 			}
 		}
 	}
+	for pname := range pmatched {
+		delete(premain, pname)
+		pseen[pname] = struct{}{}
+	}
 
 	if len(premain) > 0 {
 		c := o.additionalProperties
-- 
2.43.0


From a6359114cff3445bc880e728e034d112e833eacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:27 +0000
Subject: [PATCH 04/46] fix: honor dependencies of and on additional properties

---
 object.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/object.go b/object.go
index a702a50..4f67566 100644
--- a/object.go
+++ b/object.go
@@ -494,6 +494,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 
 		for pname := range premain {
 			pval := o.getProp(rv, pname)
+			pseen[pname] = struct{}{}
 			if err := c.Validate(pval.Interface()); err != nil {
 				return errors.New("object property for '" + pname + "' validation failed: " + err.Error())
 			}
-- 
2.43.0


From a2ac7df023372a016208b499236948e9812a2438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:49 +0000
Subject: [PATCH 05/46] fix: pass the members of a number schema's enum, not
 the list itself

---
 builder/number.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/number.go b/builder/number.go
index 6dedb57..cb455ac 100644
--- a/builder/number.go
+++ b/builder/number.go
@@ -69,7 +69,7 @@ func buildNumberConstraint(ctx *buildctx, nc *jsval.NumberConstraint, s *schema.
 	}
 
 	if lst := s.Enum; len(lst) > 0 {
-		nc.Enum(lst)
+		nc.Enum(lst...)
 	}
 
 	if v := s.Default; v != nil {
-- 
2.43.0


From 612825ff239d218946d4cde6f5cf143e7470c16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:50 +0000
Subject: [PATCH 06/46] fix: honor every one of not, allOf, anyOf and oneOf in
 a schema

---
 builder/builder.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index 2172597..f968908 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -165,8 +165,9 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 
 	ct := jsval.All()
 
-	switch {
-	case s.Not != nil:
+	// These are independent of each other: a schema may use any
+	// combination of them, and all of them must hold
+	if s.Not != nil {
 		if pdebug.Enabled {
 			pdebug.Printf("Not constraint")
 		}
@@ -175,7 +176,8 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 			return nil, err
 		}
 		ct.Add(jsval.Not(c1))
-	case len(s.AllOf) > 0:
+	}
+	if len(s.AllOf) > 0 {
 		if pdebug.Enabled {
 			pdebug.Printf("AllOf constraint")
 		}
@@ -188,7 +190,8 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 			ac.Add(c1)
 		}
 		ct.Add(ac.Reduce())
-	case len(s.AnyOf) > 0:
+	}
+	if len(s.AnyOf) > 0 {
 		if pdebug.Enabled {
 			pdebug.Printf("AnyOf constraint")
 		}
@@ -201,7 +204,8 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 			ac.Add(c1)
 		}
 		ct.Add(ac.Reduce())
-	case len(s.OneOf) > 0:
+	}
+	if len(s.OneOf) > 0 {
 		if pdebug.Enabled {
 			pdebug.Printf("OneOf constraint")
 		}
-- 
2.43.0


From e95ebdf3953bc7d71fd440610bc162742b704861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:00 +0000
Subject: [PATCH 07/46] fix: resolve the reference "#" to the context document,
 not to the sub-schema being built

---
 builder/builder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/builder/builder.go b/builder/builder.go
index f968908..3d71928 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -82,7 +82,9 @@ func (b *Builder) BuildWithCtx(s *schema.Schema, jsctx interface{}) (v *jsval.JS
 		return nil, err
 	}
 
-	if _, ok := ctx.R["#"]; ok {
+	// Without a context the schema itself is the document that "#" refers
+	// to, but otherwise it may well be just a part of it
+	if _, ok := ctx.R["#"]; ok && jsctx == nil {
 		v.SetReference("#", c)
 		delete(ctx.R, "#")
 	}
-- 
2.43.0


From 20e38c4f8d0124fd183ef43fac56d458c3ad28b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:02 +0000
Subject: [PATCH 08/46] fix: return an error for a reference to something that
 is not a schema

---
 builder/builder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index 3d71928..33a05c0 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -139,6 +139,11 @@ func compileReferences(ctx *buildctx, r *jsref.Resolver, v *jsval.JSVal, ref str
 		if err := s1.Extract(thing.(map[string]interface{})); err != nil {
 			return err
 		}
+	default:
+		return errors.New("reference '" + ref + "' does not refer to a schema")
+	}
+	if s1 == nil {
+		return errors.New("reference '" + ref + "' does not refer to a schema")
 	}
 
 	c1, err := buildFromSchema(ctx, s1)
-- 
2.43.0


From 80438f972cbdae509f160aee9a8c0c9356de9cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:30 +0000
Subject: [PATCH 09/46] fix: resolve references against the document as it is

---
 builder/builder.go | 59 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 58 insertions(+), 1 deletion(-)

diff --git a/builder/builder.go b/builder/builder.go
index 33a05c0..dd77f9d 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -7,9 +7,13 @@ package builder
 import (
 	"errors"
 	"math"
+	"net/url"
 	"reflect"
 	"sort"
+	"strconv"
+	"strings"
 
+	"github.com/lestrrat-go/jspointer"
 	"github.com/lestrrat-go/jsref"
 	"github.com/lestrrat-go/jsschema"
 	"github.com/lestrrat-go/jsval"
@@ -121,7 +125,7 @@ func compileReferences(ctx *buildctx, r *jsref.Resolver, v *jsval.JSVal, ref str
 		pdebug.Printf("Building constraints for reference '%s'", ref)
 	}
 
-	thing, err := r.Resolve(jsctx, ref)
+	thing, err := lookupReference(r, ref, jsctx)
 	if err != nil {
 		return err
 	}
@@ -160,6 +164,59 @@ func compileReferences(ctx *buildctx, r *jsref.Resolver, v *jsval.JSVal, ref str
 	return nil
 }
 
+// lookupReference finds the element that ref points at. The references
+// found in that element (or in the document itself) are left alone, as
+// we resolve those ourselves when we build the constraints for it.
+func lookupReference(r *jsref.Resolver, ref string, jsctx interface{}) (interface{}, error) {
+	u, err := url.Parse(ref)
+	if err != nil {
+		return nil, err
+	}
+
+	if u.Scheme != "" || u.Host != "" || u.Path != "" || u.Opaque != "" {
+		return r.Resolve(jsctx, ref)
+	}
+
+	if u.Fragment == "" {
+		return jsctx, nil
+	}
+
+	if _, ok := jsctx.(map[string]interface{}); !ok {
+		p, err := jspointer.New(u.Fragment)
+		if err != nil {
+			return nil, err
+		}
+		return p.Get(jsctx)
+	}
+
+	notfound := errors.New("reference '" + ref + "' not found")
+	if u.Fragment[0] != '/' {
+		return nil, notfound
+	}
+
+	thing := jsctx
+	for _, token := range strings.Split(u.Fragment[1:], "/") {
+		token = strings.Replace(strings.Replace(token, "~1", "/", -1), "~0", "~", -1)
+		switch container := thing.(type) {
+		case map[string]interface{}:
+			v, ok := container[token]
+			if !ok {
+				return nil, notfound
+			}
+			thing = v
+		case []interface{}:
+			i, err := strconv.Atoi(token)
+			if err != nil || i < 0 || i >= len(container) {
+				return nil, notfound
+			}
+			thing = container[i]
+		default:
+			return nil, notfound
+		}
+	}
+	return thing, nil
+}
+
 func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error) {
 	if ref := s.Reference; ref != "" {
 		c := jsval.Reference(ctx.V)
-- 
2.43.0


From 3413bb14a7b6d87235bb592c38056404c59a6a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:56 +0000
Subject: [PATCH 10/46] fix: return an error for references that only lead back
 to themselves

---
 builder/builder.go | 77 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 67 insertions(+), 10 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index dd77f9d..7f32c69 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -27,6 +27,7 @@ type buildctx struct {
 	V *jsval.JSVal
 	S *schema.Schema
 	R map[string]struct{}
+	D map[string][]string // references that a reference directly leads to
 }
 
 // New creates a new builder object
@@ -79,6 +80,7 @@ func (b *Builder) BuildWithCtx(s *schema.Schema, jsctx interface{}) (v *jsval.JS
 		V: v,
 		S: s,
 		R: map[string]struct{}{}, // names of references used
+		D: map[string][]string{},
 	}
 
 	c, err := buildFromSchema(&ctx, s)
@@ -90,6 +92,7 @@ func (b *Builder) BuildWithCtx(s *schema.Schema, jsctx interface{}) (v *jsval.JS
 	// to, but otherwise it may well be just a part of it
 	if _, ok := ctx.R["#"]; ok && jsctx == nil {
 		v.SetReference("#", c)
+		ctx.D["#"] = directReferences(s)
 		delete(ctx.R, "#")
 	}
 
@@ -109,10 +112,57 @@ func (b *Builder) BuildWithCtx(s *schema.Schema, jsctx interface{}) (v *jsval.JS
 			}
 		}
 	}
+	for ref := range ctx.D {
+		if leadsTo(ctx.D, ref, ref, map[string]struct{}{}) {
+			return nil, errors.New("reference '" + ref + "' refers to itself")
+		}
+	}
 	v.SetRoot(c)
 	return v, nil
 }
 
+// directReferences returns the references that apply to the very value
+// that s applies to, i.e. not those for its properties or items
+func directReferences(s *schema.Schema) []string {
+	if s.Reference != "" {
+		return []string{s.Reference}
+	}
+
+	var l []string
+	if s.Not != nil {
+		l = append(l, directReferences(s.Not)...)
+	}
+	for _, list := range []schema.SchemaList{s.AllOf, s.AnyOf, s.OneOf} {
+		for _, s1 := range list {
+			l = append(l, directReferences(s1)...)
+		}
+	}
+	if schemaTypes(s).Contains(schema.ObjectType) {
+		for _, s1 := range s.Dependencies.Schemas {
+			l = append(l, directReferences(s1)...)
+		}
+	}
+	return l
+}
+
+// leadsTo returns true if following the references in deps from one
+// reference ends up at another
+func leadsTo(deps map[string][]string, from, to string, seen map[string]struct{}) bool {
+	for _, ref := range deps[from] {
+		if ref == to {
+			return true
+		}
+		if _, ok := seen[ref]; ok {
+			continue
+		}
+		seen[ref] = struct{}{}
+		if leadsTo(deps, ref, to, seen) {
+			return true
+		}
+	}
+	return false
+}
+
 func compileReferences(ctx *buildctx, r *jsref.Resolver, v *jsval.JSVal, ref string, jsctx interface{}) error {
 	if _, err := v.GetReference(ref); err == nil {
 		if pdebug.Enabled {
@@ -156,6 +206,7 @@ func compileReferences(ctx *buildctx, r *jsref.Resolver, v *jsval.JSVal, ref str
 	}
 
 	v.SetReference(ref, c1)
+	ctx.D[ref] = directReferences(s1)
 	for ref := range ctx.R {
 		if err := compileReferences(ctx, r, v, ref, jsctx); err != nil {
 			return err
@@ -284,16 +335,7 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 		ct.Add(oc.Reduce())
 	}
 
-	var sts schema.PrimitiveTypes
-	if l := len(s.Type); l > 0 {
-		sts = make(schema.PrimitiveTypes, l)
-		copy(sts, s.Type)
-	} else {
-		if pdebug.Enabled {
-			pdebug.Printf("Schema doesn't seem to contain a 'type' field. Now guessing...")
-		}
-		sts = guessSchemaType(s)
-	}
+	sts := schemaTypes(s)
 	sort.Sort(sts)
 
 	if len(sts) > 0 {
@@ -356,6 +398,21 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 	return ct.Reduce(), nil
 }
 
+// schemaTypes returns the types that s declares, or those that we can
+// guess if it doesn't declare any
+func schemaTypes(s *schema.Schema) schema.PrimitiveTypes {
+	if l := len(s.Type); l > 0 {
+		sts := make(schema.PrimitiveTypes, l)
+		copy(sts, s.Type)
+		return sts
+	}
+
+	if pdebug.Enabled {
+		pdebug.Printf("Schema doesn't seem to contain a 'type' field. Now guessing...")
+	}
+	return guessSchemaType(s)
+}
+
 func guessSchemaType(s *schema.Schema) schema.PrimitiveTypes {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START guessSchemaType")
-- 
2.43.0


From 40190e8482189be80c4c56e189f5dff14c1addad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:57 +0000
Subject: [PATCH 11/46] fix: a schema with dependencies looks like an object,
 too

---
 builder/builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index 7f32c69..9724b11 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -491,6 +491,10 @@ func schemaLooksLikeObject(s *schema.Schema) bool {
 		return true
 	}
 
+	if len(s.Dependencies.Names) > 0 || len(s.Dependencies.Schemas) > 0 {
+		return true
+	}
+
 	for _, v := range s.Enum {
 		rv := reflect.ValueOf(v)
 		switch rv.Kind() {
-- 
2.43.0


From fe8f9f7c2fd90f983f89bcd84b78631eae3948c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:23 +0000
Subject: [PATCH 12/46] fix: compare enumeration members by value, and do not
 panic on arrays and objects

---
 enum.go | 91 ++++++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 90 insertions(+), 1 deletion(-)

diff --git a/enum.go b/enum.go
index 097fefd..43f1983 100644
--- a/enum.go
+++ b/enum.go
@@ -2,6 +2,7 @@ package jsval
 
 import (
 	"errors"
+	"reflect"
 
 	"github.com/lestrrat-go/pdebug"
 )
@@ -24,9 +25,97 @@ func (c *EnumConstraint) Validate(v interface{}) (err error) {
 		defer g.End()
 	}
 	for _, e := range c.enums {
-		if e == v {
+		if equalValues(reflect.ValueOf(e), reflect.ValueOf(v)) {
 			return nil
 		}
 	}
 	return errors.New("value is not in enumeration")
 }
+
+// equalValues compares two values the way JSON would: numbers are equal
+// if they denote the same number, regardless of their Go types, and
+// slices and maps are compared by their contents
+func equalValues(a, b reflect.Value) bool {
+	if a.Kind() == reflect.Interface {
+		a = a.Elem()
+	}
+	if b.Kind() == reflect.Interface {
+		b = b.Elem()
+	}
+	if a == zeroval || b == zeroval {
+		return a == b
+	}
+
+	if isNumeric(a) && isNumeric(b) {
+		return equalNumbers(a, b)
+	}
+
+	if a.Kind() != b.Kind() {
+		return false
+	}
+
+	switch a.Kind() {
+	case reflect.Bool:
+		return a.Bool() == b.Bool()
+	case reflect.String:
+		return a.String() == b.String()
+	case reflect.Slice:
+		if a.Len() != b.Len() {
+			return false
+		}
+		for i := 0; i < a.Len(); i++ {
+			if !equalValues(a.Index(i), b.Index(i)) {
+				return false
+			}
+		}
+		return true
+	case reflect.Map:
+		if a.Type().Key() != b.Type().Key() || a.Len() != b.Len() {
+			return false
+		}
+		for _, k := range a.MapKeys() {
+			bv := b.MapIndex(k)
+			if bv == zeroval || !equalValues(a.MapIndex(k), bv) {
+				return false
+			}
+		}
+		return true
+	}
+	return a.CanInterface() && b.CanInterface() && reflect.DeepEqual(a.Interface(), b.Interface())
+}
+
+func isInt(v reflect.Value) bool {
+	return v.Kind() >= reflect.Int && v.Kind() <= reflect.Int64
+}
+
+func isUint(v reflect.Value) bool {
+	return v.Kind() >= reflect.Uint && v.Kind() <= reflect.Uintptr
+}
+
+func isNumeric(v reflect.Value) bool {
+	return isInt(v) || isUint(v) || v.Kind() == reflect.Float32 || v.Kind() == reflect.Float64
+}
+
+func equalNumbers(a, b reflect.Value) bool {
+	switch {
+	case isInt(a) && isInt(b):
+		return a.Int() == b.Int()
+	case isUint(a) && isUint(b):
+		return a.Uint() == b.Uint()
+	case isInt(a) && isUint(b):
+		return a.Int() >= 0 && uint64(a.Int()) == b.Uint()
+	case isUint(a) && isInt(b):
+		return equalNumbers(b, a)
+	}
+	return toFloat(a) == toFloat(b)
+}
+
+func toFloat(v reflect.Value) float64 {
+	switch {
+	case isInt(v):
+		return float64(v.Int())
+	case isUint(v):
+		return float64(v.Uint())
+	}
+	return v.Float()
+}
-- 
2.43.0


From 319fbbba37fd8d28887f414a0496f09704bef6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:25 +0000
Subject: [PATCH 13/46] fix: compare the elements of an array by value, not by
 how they print, for uniqueItems

---
 array.go | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/array.go b/array.go
index 42475c9..34a9c83 100644
--- a/array.go
+++ b/array.go
@@ -2,8 +2,8 @@ package jsval
 
 import (
 	"errors"
-	"fmt"
 	"reflect"
+	"strconv"
 
 	"github.com/lestrrat-go/pdebug"
 )
@@ -53,18 +53,18 @@ func (c *ArrayConstraint) Validate(v interface{}) (err error) {
 		return errors.New("more items than maxItems")
 	}
 
-	var uitems map[string]struct{}
 	if c.uniqueItems {
 		pdebug.Printf("Check for unique items enabled")
-		uitems = make(map[string]struct{})
+		// Only items with the same key can be equal
+		uitems := make(map[string][]int)
 		for i := 0; i < l; i++ {
-			iv := rv.Index(i).Interface()
-			kv := fmt.Sprintf("%s", iv)
-pdebug.Printf("unique? -> %s", kv)
-			if _, ok := uitems[kv]; ok {
-				return errors.New("duplicate element found")
+			key := uniqueKey(rv.Index(i))
+			for _, j := range uitems[key] {
+				if equalValues(rv.Index(i), rv.Index(j)) {
+					return errors.New("duplicate element found")
+				}
 			}
-			uitems[kv] = struct{}{}
+			uitems[key] = append(uitems[key], i)
 		}
 	}
 
@@ -114,6 +114,21 @@ pdebug.Printf("unique? -> %s", kv)
 	return nil
 }
 
+// uniqueKey returns a string that is the same for all values that are equal
+func uniqueKey(v reflect.Value) string {
+	if v.Kind() == reflect.Interface {
+		v = v.Elem()
+	}
+	switch {
+	case v.Kind() == reflect.String:
+		return "s" + v.String()
+	case v != zeroval && isNumeric(v):
+		// +0 takes care of the negative zero
+		return "n" + strconv.FormatFloat(toFloat(v)+0, 'g', -1, 64)
+	}
+	return v.Kind().String()
+}
+
 // AdditionalItems specifies the constraint that additional items
 // must be validated against. Note that if you specify `Items`
 // with this constraint, `AdditionalItems` has no effect. This
@@ -161,8 +176,8 @@ func (c *ArrayConstraint) PositionalItems(ac []Constraint) *ArrayConstraint {
 // When set to true, the validation will fail unless all of your
 // elements are unique.
 //
-// Caveat: Currently we stringify the elements before comparing
-// for uniqueness. This could/should be fixed.
+// Numbers are compared numerically, and arrays and objects are
+// compared by their contents.
 func (c *ArrayConstraint) UniqueItems(b bool) *ArrayConstraint {
 	if pdebug.Enabled {
 		pdebug.Printf("Setting uniqueItems = %t", b)
-- 
2.43.0


From 78aceb03d9d8cd41d9486f7eab70934c522cf045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:47 +0000
Subject: [PATCH 14/46] fix: keep an integer constraint an integer constraint
 after MultipleOf and Enum

---
 number.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/number.go b/number.go
index 872d3c2..c7aac78 100644
--- a/number.go
+++ b/number.go
@@ -190,6 +190,19 @@ func (ic *IntegerConstraint) ExclusiveMaximum(b bool) *IntegerConstraint {
 	return ic
 }
 
+// MultipleOf specifies the number that the given value must be
+// divisible by.
+func (ic *IntegerConstraint) MultipleOf(n float64) *IntegerConstraint {
+	ic.NumberConstraint.MultipleOf(n)
+	return ic
+}
+
+// Enum specifies the values that this constraint can have
+func (ic *IntegerConstraint) Enum(l ...interface{}) *IntegerConstraint {
+	ic.NumberConstraint.Enum(l...)
+	return ic
+}
+
 // Validate validates the value against integer validation rules.
 // Note that because when Go decodes JSON it FORCES float64 on numbers,
 // this method will return true even if the *type* of the value is
-- 
2.43.0


From ffe71babb3b3e36cc825c8f91b9b53617ad270d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:49 +0000
Subject: [PATCH 15/46] fix: honor the enum of boolean, array, object and null
 schemas

---
 bool.go            | 16 ++++++++++++++++
 builder/bool.go    |  4 ++++
 builder/builder.go | 34 ++++++++++++++++++++++++++++++----
 interface.go       |  1 +
 4 files changed, 51 insertions(+), 4 deletions(-)

diff --git a/bool.go b/bool.go
index 91ec129..e0929a8 100644
--- a/bool.go
+++ b/bool.go
@@ -17,6 +17,15 @@ func (bc *BooleanConstraint) Default(v interface{}) *BooleanConstraint {
 	return bc
 }
 
+// Enum specifies the values that this constraint can have
+func (bc *BooleanConstraint) Enum(l ...interface{}) *BooleanConstraint {
+	if bc.enums == nil {
+		bc.enums = Enum()
+	}
+	bc.enums.Enum(l...)
+	return bc
+}
+
 // Validate vaidates the value against the given value
 func (bc *BooleanConstraint) Validate(v interface{}) error {
 	rv := reflect.ValueOf(v)
@@ -25,5 +34,12 @@ func (bc *BooleanConstraint) Validate(v interface{}) error {
 	default:
 		return errors.New("value is not a boolean")
 	}
+
+	if enum := bc.enums; enum != nil {
+		if err := enum.Validate(rv.Bool()); err != nil {
+			return err
+		}
+	}
+
 	return nil
 }
diff --git a/builder/bool.go b/builder/bool.go
index 42093b0..887c4c7 100644
--- a/builder/bool.go
+++ b/builder/bool.go
@@ -6,6 +6,10 @@ import (
 )
 
 func buildBooleanConstraint(_ *buildctx, c *jsval.BooleanConstraint, s *schema.Schema) error {
+	if lst := s.Enum; len(lst) > 0 {
+		c.Enum(lst...)
+	}
+
 	v := s.Default
 	switch v.(type) {
 	case bool:
diff --git a/builder/builder.go b/builder/builder.go
index 9724b11..9ea9dbb 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -372,15 +372,15 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 				if err := buildArrayConstraint(ctx, ac, s); err != nil {
 					return nil, err
 				}
-				c = ac
+				c = withEnum(ac, s)
 			case schema.ObjectType:
 				oc := jsval.Object()
 				if err := buildObjectConstraint(ctx, oc, s); err != nil {
 					return nil, err
 				}
-				c = oc
+				c = withEnum(oc, s)
 			case schema.NullType:
-				c = jsval.NullConstraint
+				c = withEnum(jsval.NullConstraint, s)
 			default:
 				return nil, errors.New("unknown type: " + st.String())
 			}
@@ -398,6 +398,15 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 	return ct.Reduce(), nil
 }
 
+// withEnum restricts a constraint that can't handle enumerations on its own
+// to the values enumerated in s, if any
+func withEnum(c jsval.Constraint, s *schema.Schema) jsval.Constraint {
+	if len(s.Enum) == 0 {
+		return c
+	}
+	return jsval.All().Add(jsval.Enum(s.Enum...)).Add(c)
+}
+
 // schemaTypes returns the types that s declares, or those that we can
 // guess if it doesn't declare any
 func schemaTypes(s *schema.Schema) schema.PrimitiveTypes {
@@ -455,6 +464,13 @@ func guessSchemaType(s *schema.Schema) schema.PrimitiveTypes {
 		sts = append(sts, schema.BooleanType)
 	}
 
+	if schemaLooksLikeNull(s) {
+		if pdebug.Enabled {
+			pdebug.Printf("Looks like it could be null...")
+		}
+		sts = append(sts, schema.NullType)
+	}
+
 	if pdebug.Enabled {
 		pdebug.Printf("Guessed types: %#v", sts)
 	}
@@ -632,4 +648,14 @@ func schemaLooksLikeBool(s *schema.Schema) bool {
 	}
 
 	return false
-}
\ No newline at end of file
+}
+
+func schemaLooksLikeNull(s *schema.Schema) bool {
+	for _, v := range s.Enum {
+		if v == nil {
+			return true
+		}
+	}
+
+	return false
+}
diff --git a/interface.go b/interface.go
index 38484a6..e44c6e8 100644
--- a/interface.go
+++ b/interface.go
@@ -55,6 +55,7 @@ type defaultValue struct {
 // a boolean.
 type BooleanConstraint struct {
 	defaultValue
+	enums *EnumConstraint
 }
 
 // StringConstraint implements a constraint to match against
-- 
2.43.0


From 49c51b6727ded105341a3411ce694c49fb8f6398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:07 +0000
Subject: [PATCH 16/46] fix: check the date-time format, and accept hexadecimal
 digits in ipv6 addresses

---
 string.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/string.go b/string.go
index 9ef1d78..d6511c3 100644
--- a/string.go
+++ b/string.go
@@ -8,6 +8,7 @@ import (
 	"reflect"
 	"regexp"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/lestrrat-go/pdebug"
@@ -71,7 +72,7 @@ func (sc *StringConstraint) Validate(v interface{}) (err error) {
 	}
 
 	switch sc.format {
-	case "datetime":
+	case "date-time", "datetime":
 		if _, err = time.Parse(time.RFC3339, str); err != nil {
 			return errors.New("invalid datetime")
 		}
@@ -96,13 +97,9 @@ func (sc *StringConstraint) Validate(v interface{}) (err error) {
 			return errors.New("invalid IPv4 address")
 		}
 	case "ipv6":
-		// Should only contain numbers and ":"
-		for _, r := range str {
-			switch {
-			case r == 0x3A || 0x30 <= r && r <= 0x39:
-			default:
-				return errors.New("invalid IPv6 address")
-			}
+		// Unlike an IPv4 address, it must contain a ":"
+		if !strings.Contains(str, ":") {
+			return errors.New("invalid IPv6 address")
 		}
 		if addr := net.ParseIP(str); addr == nil {
 			return errors.New("invalid IPv6 address")
-- 
2.43.0


From 771856de4b7299443a26be15d9849cf6accc17a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:09 +0000
Subject: [PATCH 17/46] fix: count characters, not bytes, for minLength and
 maxLength

---
 string.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/string.go b/string.go
index d6511c3..0db7065 100644
--- a/string.go
+++ b/string.go
@@ -10,6 +10,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 
 	"github.com/lestrrat-go/pdebug"
 )
@@ -52,7 +53,7 @@ func (sc *StringConstraint) Validate(v interface{}) (err error) {
 	}
 
 	str := rv.String()
-	ls := len(str)
+	ls := utf8.RuneCountInString(str)
 	if sc.maxLength > -1 {
 		if pdebug.Enabled {
 			pdebug.Printf("Checking MaxLength (%d)", sc.maxLength)
-- 
2.43.0


From e293356c2a99d56c0ab3d7eb9b1f5790c13d20bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:21 +0000
Subject: [PATCH 18/46] fix: mark a MaybeTime as valid after decoding it from
 JSON

---
 internal/cmd/genmaybe/genmaybe.go | 3 +--
 maybe.go                          | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/cmd/genmaybe/genmaybe.go b/internal/cmd/genmaybe/genmaybe.go
index 679237b..bdab972 100644
--- a/internal/cmd/genmaybe/genmaybe.go
+++ b/internal/cmd/genmaybe/genmaybe.go
@@ -225,8 +225,7 @@ func genMaybe(types map[string]string, typenames []string, fn string) {
 			buf.WriteString("\nif err != nil {")
 			buf.WriteString("\n	return err")
 			buf.WriteString("\n}")
-			buf.WriteString("\nv.Time = t")
-			buf.WriteString("\nreturn nil")
+			buf.WriteString("\nreturn v.Set(t)")
 			buf.WriteString("\n}")
 		} else {
 			fmt.Fprintf(&buf, "\n\nfunc (v Maybe%s) MarshalJSON() ([]byte, error) {", t)
diff --git a/maybe.go b/maybe.go
index 6006278..a187011 100644
--- a/maybe.go
+++ b/maybe.go
@@ -242,8 +242,7 @@ func (v *MaybeTime) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		return err
 	}
-	v.Time = t
-	return nil
+	return v.Set(t)
 }
 
 type MaybeUint struct {
-- 
2.43.0


From 4330dc4becef975774bac9eb79615b322a863fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:46 +0000
Subject: [PATCH 19/46] fix: do not panic on maps with keys of other types than
 string, nor on pointers to pointers

---
 object.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/object.go b/object.go
index 4f67566..c647bcf 100644
--- a/object.go
+++ b/object.go
@@ -161,20 +161,15 @@ var structInfoRegistry = StructInfoRegistry{
 // XXX Map keys can be something other than strings, but
 // we can't really allow it?
 func (o *ObjectConstraint) getPropNames(rv reflect.Value) ([]string, error) {
-	switch rv.Kind() {
-	case reflect.Ptr, reflect.Interface:
-		rv = rv.Elem()
-	}
-
 	var keys []string
 	switch rv.Kind() {
 	case reflect.Map:
+		if rv.Type().Key().Kind() != reflect.String {
+			return nil, errors.New("panic: can only handle maps with string keys")
+		}
 		vk := rv.MapKeys()
 		keys = make([]string, len(vk))
 		for i, v := range vk {
-			if v.Kind() != reflect.String {
-				return nil, errors.New("panic: can only handle maps with string keys")
-			}
 			keys[i] = v.String()
 		}
 	case reflect.Struct:
@@ -240,7 +235,8 @@ func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface
 
 	switch rv.Kind() {
 	case reflect.Map:
-		rv.SetMapIndex(reflect.ValueOf(pname), reflect.ValueOf(val))
+		pv := reflect.ValueOf(pname).Convert(rv.Type().Key())
+		rv.SetMapIndex(pv, reflect.ValueOf(val))
 		return nil
 	case reflect.Struct:
 		spvm := rv.MethodByName("SetPropValue")
@@ -291,7 +287,8 @@ func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface
 func (o *ObjectConstraint) getProp(rv reflect.Value, pname string) reflect.Value {
 	switch rv.Kind() {
 	case reflect.Map:
-		pv := reflect.ValueOf(pname)
+		// The key type may be something like `type Name string`
+		pv := reflect.ValueOf(pname).Convert(rv.Type().Key())
 		return rv.MapIndex(pv)
 	case reflect.Struct:
 		// This guy knows how to grab the value, given a name. Use that
-- 
2.43.0


From 8b76d09a633d88c54d7f70d40915b137b95c7f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:48 +0000
Subject: [PATCH 20/46] fix: return an error when a default value cannot be
 stored

---
 object.go | 46 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/object.go b/object.go
index c647bcf..782ae78 100644
--- a/object.go
+++ b/object.go
@@ -215,12 +215,28 @@ func coerceValue(v interface{}, t reflect.Type) reflect.Value {
 		t = intT
 	}
 
-	if vv.Type().ConvertibleTo(t) {
+	if vv != zeroval && vv.Type().ConvertibleTo(t) {
 		return vv.Convert(t)
 	}
 	return vv
 }
 
+// assignableValue returns the value to use when v is to be stored in a
+// place of type t, or an error if that's not possible
+func assignableValue(v reflect.Value, t reflect.Type) (reflect.Value, error) {
+	if v == zeroval {
+		switch t.Kind() {
+		case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice:
+			return reflect.Zero(t), nil
+		}
+		return zeroval, errors.New("cannot store nil as " + t.String())
+	}
+	if !v.Type().AssignableTo(t) {
+		return zeroval, errors.New("cannot store " + v.Type().String() + " as " + t.String())
+	}
+	return v, nil
+}
+
 type setPropValuer interface {
 	SetPropValue(string, interface{}) error
 }
@@ -235,17 +251,19 @@ func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface
 
 	switch rv.Kind() {
 	case reflect.Map:
+		if rv.IsNil() {
+			return errors.New("setProp: cannot add to a nil map")
+		}
+		dv, err := assignableValue(reflect.ValueOf(val), rv.Type().Elem())
+		if err != nil {
+			return err
+		}
 		pv := reflect.ValueOf(pname).Convert(rv.Type().Key())
-		rv.SetMapIndex(pv, reflect.ValueOf(val))
+		rv.SetMapIndex(pv, dv)
 		return nil
 	case reflect.Struct:
-		spvm := rv.MethodByName("SetPropValue")
-		if spvm != zeroval {
-			out := spvm.Call([]reflect.Value{reflect.ValueOf(pname), reflect.ValueOf(val)})
-			if !out[0].IsNil() {
-				return out[0].Interface().(error)
-			}
-			return nil
+		if rv.Type().Implements(spvType) {
+			return rv.Interface().(setPropValuer).SetPropValue(pname, val)
 		}
 
 		f := o.getProp(rv, pname)
@@ -266,6 +284,13 @@ func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface
 		case f.CanAddr() && f.Addr().Type().Implements(maybeif):
 			mv = f.Addr().MethodByName("Set")
 		default:
+			if !f.CanSet() {
+				return errors.New("setProp: cannot set field '" + pname + "'")
+			}
+			dv, err := assignableValue(dv, f.Type())
+			if err != nil {
+				return err
+			}
 			f.Set(dv)
 			return nil
 		}
@@ -274,6 +299,9 @@ func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface
 			return errors.New("setProp: could not get 'Set' method for value")
 		}
 
+		if dv == zeroval { // a nil default value
+			dv = reflect.Zero(mv.Type().In(0))
+		}
 		out := mv.Call([]reflect.Value{dv})
 		if !out[0].IsNil() {
 			return out[0].Interface().(error)
-- 
2.43.0


From 735b18fa4e9671c08779826a2f0657d6f5598ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:19 +0000
Subject: [PATCH 21/46] fix: handle nil pointers to Maybe fields, and validate
 what a Maybe field contains under every rule

---
 object.go     | 65 ++++++++++++++++++++++++++++-----------------------
 structinfo.go | 25 +++++++++++++++++---
 2 files changed, 58 insertions(+), 32 deletions(-)

diff --git a/object.go b/object.go
index 782ae78..ab0af03 100644
--- a/object.go
+++ b/object.go
@@ -274,12 +274,22 @@ func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface
 		// Usability: If you specify `Default(10)` on an int64 value,
 		// it doesn't work. But these values are compatible. We should
 		// do our best to align them
-		dv := coerceValue(val, f.Type())
+		ft := f.Type()
+		if ft.Kind() == reflect.Ptr && ft.Implements(maybeif) {
+			ft = ft.Elem()
+		}
+		dv := coerceValue(val, ft)
 
 		// Is this a Maybe value? If so, we should use its Set() method
 		var mv reflect.Value
 		switch {
 		case f.Type().Implements(maybeif):
+			switch {
+			case f.Kind() == reflect.Ptr && f.IsNil() && f.CanSet():
+				f.Set(reflect.New(f.Type().Elem()))
+			case (f.Kind() == reflect.Ptr || f.Kind() == reflect.Interface) && f.IsNil():
+				return errors.New("setProp: cannot set field '" + pname + "'")
+			}
 			mv = f.MethodByName("Set")
 		case f.CanAddr() && f.Addr().Type().Implements(maybeif):
 			mv = f.Addr().MethodByName("Set")
@@ -345,6 +355,25 @@ func (o *ObjectConstraint) getProp(rv reflect.Value, pname string) reflect.Value
 	}
 }
 
+// getPropValue returns the value of a property, and whether the property
+// is present at all. Instead of a Maybe value, you get the value it contains.
+func (o *ObjectConstraint) getPropValue(rv reflect.Value, pname string) (interface{}, bool) {
+	pval := o.getProp(rv, pname)
+	if pval == zeroval {
+		return nil, false
+	}
+
+	if mv, ok := maybeOf(pval); ok {
+		if mv == nil || !mv.Valid() {
+			return nil, false
+		}
+		return mv.Value(), true
+	}
+
+	// Everything else, we have *something*
+	return pval.Interface(), true
+}
+
 // Validate validates the given value against this ObjectConstraint
 func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 	if pdebug.Enabled {
@@ -420,28 +449,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 			pdebug.Printf("Validating property '%s'", pname)
 		}
 
-		pval := o.getProp(rv, pname)
-		propExists := false
-
-		switch {
-		case pval == zeroval:
-			// If we got a zeroval, we're done for.
-		case pval.Type().Implements(maybeif) || reflect.PtrTo(pval.Type()).Implements(maybeif):
-			// If we have a Maybe value, we check the Valid() flag
-			mv := pval.MethodByName("Valid")
-			out := mv.Call(nil)
-			if out[0].Bool() {
-				propExists = true
-				// Swap out pval to be the value pointed to by the Maybe value
-				mv = pval.MethodByName("Value")
-				out = mv.Call(nil)
-				pval = out[0]
-			}
-		default:
-			// Everything else, we have *something*
-			propExists = true
-		}
-
+		pval, propExists := o.getPropValue(rv, pname)
 		if !propExists {
 			if pdebug.Enabled {
 				pdebug.Printf("Property '%s' does not exist", pname)
@@ -463,7 +471,6 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 				if err := o.setProp(rv, pname, dv); err != nil {
 					return errors.New("failed to set default value for property '" + pname + "': " + err.Error())
 				}
-				pval = reflect.ValueOf(dv)
 			}
 
 			continue
@@ -474,7 +481,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 		// ...and add to props that we have seen
 		pseen[pname] = struct{}{}
 
-		if err := c.Validate(pval.Interface()); err != nil {
+		if err := c.Validate(pval); err != nil {
 			return errors.New("object property '" + pname + "' validation failed: " + err.Error())
 		}
 	}
@@ -498,10 +505,10 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 			}
 			// No need to check if this pname exists, as we're taking
 			// this from "premain"
-			pval := o.getProp(rv, pname)
+			pval, _ := o.getPropValue(rv, pname)
 
 			pmatched[pname] = struct{}{}
-			if err := c.Validate(pval.Interface()); err != nil {
+			if err := c.Validate(pval); err != nil {
 				return errors.New("object property '" + pname + "' validation failed: " + err.Error())
 			}
 		}
@@ -518,9 +525,9 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 		}
 
 		for pname := range premain {
-			pval := o.getProp(rv, pname)
+			pval, _ := o.getPropValue(rv, pname)
 			pseen[pname] = struct{}{}
-			if err := c.Validate(pval.Interface()); err != nil {
+			if err := c.Validate(pval); err != nil {
 				return errors.New("object property for '" + pname + "' validation failed: " + err.Error())
 			}
 		}
diff --git a/structinfo.go b/structinfo.go
index e6e40dc..c2fb6ed 100644
--- a/structinfo.go
+++ b/structinfo.go
@@ -46,9 +46,7 @@ func (si *StructInfo) PropNames(rv reflect.Value) []string {
 	for pname, pinfo := range si.props {
 		if pinfo.IsMaybe {
 			fv := rv.FieldByName(pinfo.FieldName)
-			mv := fv.MethodByName("Valid")
-			out := mv.Call(nil)
-			if !out[0].Bool() {
+			if mv, _ := maybeOf(fv); mv == nil || !mv.Valid() {
 				continue
 			}
 		}
@@ -111,6 +109,27 @@ func (r *StructInfoRegistry) Register(t reflect.Type) StructInfo {
 
 var maybeif = reflect.TypeOf((*Maybe)(nil)).Elem()
 
+// maybeOf returns true if v is a Maybe value, or if a pointer to it would
+// be, along with that Maybe value. Note that it is nil if v is nil.
+func maybeOf(v reflect.Value) (Maybe, bool) {
+	t := v.Type()
+	switch {
+	case t.Implements(maybeif):
+		switch v.Kind() {
+		case reflect.Ptr, reflect.Interface:
+			if v.IsNil() {
+				return nil, true
+			}
+		}
+		return v.Interface().(Maybe), true
+	case reflect.PtrTo(t).Implements(maybeif):
+		pv := reflect.New(t)
+		pv.Elem().Set(v)
+		return pv.Interface().(Maybe), true
+	}
+	return nil, false
+}
+
 func extract(t reflect.Type) map[string]PropInfo {
 	props := make(map[string]PropInfo)
 	for i := 0; i < t.NumField(); i++ {
-- 
2.43.0


From 6d550fa3c918675bdf12dd1b0bfb745642777951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:21 +0000
Subject: [PATCH 22/46] fix: convert numeric defaults for MaybeUint fields, too

---
 object.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/object.go b/object.go
index ab0af03..32816f8 100644
--- a/object.go
+++ b/object.go
@@ -196,7 +196,9 @@ func (o *ObjectConstraint) getPropNames(rv reflect.Value) ([]string, error) {
 var (
 	maybefloatT = reflect.TypeOf(MaybeFloat{})
 	maybeintT   = reflect.TypeOf(MaybeInt{})
+	maybeuintT  = reflect.TypeOf(MaybeUint{})
 	intT        = reflect.TypeOf(int64(0))
+	uintT       = reflect.TypeOf(uint64(0))
 	floatT      = reflect.TypeOf(float64(0))
 )
 
@@ -213,6 +215,8 @@ func coerceValue(v interface{}, t reflect.Type) reflect.Value {
 		t = floatT
 	case t == maybeintT:
 		t = intT
+	case t == maybeuintT:
+		t = uintT
 	}
 
 	if vv != zeroval && vv.Type().ConvertibleTo(t) {
-- 
2.43.0


From 35ea28bc6a5fcaa758e5ea213faa5ea3e97d8da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:46 +0000
Subject: [PATCH 23/46] fix: look up the fields of embedded structs the way
 encoding/json does, without panicking

---
 object.go     |   9 +----
 structinfo.go | 106 +++++++++++++++++++++++++++++++++++++-------------
 2 files changed, 80 insertions(+), 35 deletions(-)

diff --git a/object.go b/object.go
index 32816f8..f0e88ea 100644
--- a/object.go
+++ b/object.go
@@ -346,14 +346,7 @@ func (o *ObjectConstraint) getProp(rv reflect.Value, pname string) reflect.Value
 			si = structInfoRegistry.Register(rv.Type())
 		}
 
-		fn, ok := si.FieldName(pname)
-		if !ok {
-			if pdebug.Enabled {
-				pdebug.Printf("Could not resolve name '%s'", pname)
-			}
-			return zeroval
-		}
-		return rv.FieldByName(fn)
+		return si.field(rv, pname)
 	default:
 		return zeroval
 	}
diff --git a/structinfo.go b/structinfo.go
index c2fb6ed..2c21694 100644
--- a/structinfo.go
+++ b/structinfo.go
@@ -2,6 +2,7 @@ package jsval
 
 import (
 	"reflect"
+	"strings"
 	"sync"
 
 	"github.com/lestrrat-go/pdebug"
@@ -12,6 +13,8 @@ type PropInfo struct {
 	FieldName string
 	// IsMaybe is true if this property implements the Maybe interface
 	IsMaybe bool
+
+	index []int // path to the field, through embedded structs
 }
 
 type StructInfo struct {
@@ -35,6 +38,32 @@ func (si *StructInfo) FieldName(pname string) (string, bool) {
 	return pinfo.FieldName, true
 }
 
+// field returns the field for the given property name, or the zero value
+// if there is no such field in this particular instance of a struct
+func (si *StructInfo) field(rv reflect.Value, pname string) reflect.Value {
+	si.lock.RLock()
+	defer si.lock.RUnlock()
+
+	pinfo, ok := si.props[pname]
+	if !ok {
+		return zeroval
+	}
+	return pinfo.field(rv)
+}
+
+func (pi PropInfo) field(rv reflect.Value) reflect.Value {
+	for _, i := range pi.index {
+		if rv.Kind() == reflect.Ptr {
+			if rv.IsNil() { // an embedded pointer to a struct
+				return zeroval
+			}
+			rv = rv.Elem()
+		}
+		rv = rv.Field(i)
+	}
+	return rv
+}
+
 // Gets the list of property names for this particuar instance of a
 // struct. Uninitialized types are not considered, so we remove
 // them depending on the state of this instance of the struct
@@ -44,8 +73,11 @@ func (si *StructInfo) PropNames(rv reflect.Value) []string {
 
 	pnames := make([]string, 0, len(si.props))
 	for pname, pinfo := range si.props {
+		fv := pinfo.field(rv)
+		if fv == zeroval {
+			continue
+		}
 		if pinfo.IsMaybe {
-			fv := rv.FieldByName(pinfo.FieldName)
 			if mv, _ := maybeOf(fv); mv == nil || !mv.Valid() {
 				continue
 			}
@@ -131,15 +163,42 @@ func maybeOf(v reflect.Value) (Maybe, bool) {
 }
 
 func extract(t reflect.Type) map[string]PropInfo {
+	return extractFields(t, nil, map[reflect.Type]struct{}{})
+}
+
+// extractFields collects the properties of t, which is embedded in each
+// of the types in seen, and can be found by following index
+func extractFields(t reflect.Type, index []int, seen map[reflect.Type]struct{}) map[string]PropInfo {
+	seen[t] = struct{}{}
+	defer delete(seen, t)
+
 	props := make(map[string]PropInfo)
+	embedded := make(map[string]PropInfo)
 	for i := 0; i < t.NumField(); i++ {
 		fv := t.Field(i)
-		if fv.Anonymous {
-			info := extract(fv.Type)
-			for k, v := range info {
-				props[k] = v
+		fidx := append(append([]int(nil), index...), i)
+
+		// Inspect the field type. If this field implements the Maybe
+		// interface, we want to remember it
+		isMaybe := fv.Type.Implements(maybeif) || reflect.PtrTo(fv.Type).Implements(maybeif)
+		if pdebug.Enabled {
+			pdebug.Printf("Checking if field '%s' implements the Maybe interface -> %t", fv.Name, isMaybe)
+		}
+
+		if fv.Anonymous && !isMaybe {
+			et := fv.Type
+			if et.Kind() == reflect.Ptr {
+				et = et.Elem()
+			}
+			if et.Kind() == reflect.Struct {
+				if _, ok := seen[et]; ok {
+					continue
+				}
+				for k, v := range extractFields(et, fidx, seen) {
+					embedded[k] = v
+				}
+				continue
 			}
-			continue
 		}
 
 		if fv.PkgPath != "" { // not exported
@@ -153,31 +212,24 @@ func extract(t reflect.Type) map[string]PropInfo {
 			continue
 		}
 
-		// Inspect the field type. If this field implements the Maybe
-		// interface, we want to remember it
-		isMaybe := fv.Type.Implements(maybeif) || reflect.PtrTo(fv.Type).Implements(maybeif)
-		if pdebug.Enabled {
-			pdebug.Printf("Checking if field '%s' implements the Maybe interface -> %t", fv.Name, isMaybe)
-		}
-
-		if tag == "" || tag[0] == ',' {
-			props[fv.Name] = PropInfo{
-				FieldName: fv.Name,
-				IsMaybe:   isMaybe,
-			}
-			continue
+		name := fv.Name
+		if j := strings.IndexByte(tag, ','); j >= 0 {
+			tag = tag[:j]
 		}
-
-		flen := 0
-		for j := 0; j < len(tag); j++ {
-			if tag[j] == ',' {
-				break
-			}
-			flen = j
+		if tag != "" {
+			name = tag
 		}
-		props[tag[:flen+1]] = PropInfo{
+		props[name] = PropInfo{
 			FieldName: fv.Name,
 			IsMaybe:   isMaybe,
+			index:     fidx,
+		}
+	}
+
+	// The fields of the struct itself hide those of embedded structs
+	for k, v := range embedded {
+		if _, ok := props[k]; !ok {
+			props[k] = v
 		}
 	}
 	return props
-- 
2.43.0


From e3cb3db54877492526423948f294402514428d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:28 +0000
Subject: [PATCH 24/46] fix: lock the reference map while counting its entries

---
 reference.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reference.go b/reference.go
index 937eb9a..100e8ba 100644
--- a/reference.go
+++ b/reference.go
@@ -21,7 +21,10 @@ type ConstraintMap struct {
 }
 
 // Len returns the number of references stored in this ConstraintMap
-func (cm ConstraintMap) Len() int {
+func (cm *ConstraintMap) Len() int {
+	cm.lock.Lock()
+	defer cm.lock.Unlock()
+
 	return len(cm.refmap())
 }
 
-- 
2.43.0


From 007f7b37366d32a94c8e7eec826ef848edcc3896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:30 +0000
Subject: [PATCH 25/46] fix: return an error when a validator without a root
 constraint is used

---
 jsval.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsval.go b/jsval.go
index 5ec5265..c5a23c6 100644
--- a/jsval.go
+++ b/jsval.go
@@ -20,6 +20,10 @@ func New() *JSVal {
 // Validate validates the input, and return an error
 // if any of the validations fail
 func (v *JSVal) Validate(x interface{}) error {
+	if v.root == nil {
+		return errors.New("validator does not have a root constraint")
+	}
+
 	name := v.Name
 	if len(name) == 0 {
 		return errors.Wrapf(v.root.Validate(x), "validator %p failed", v)
-- 
2.43.0


From 247e09f67ab3d02fb4fe2f305b0ac1aa6b238a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:32 +0000
Subject: [PATCH 26/46] fix: do not mangle percent signs in generated code

---
 generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator.go b/generator.go
index 47d5e17..ac47b1c 100644
--- a/generator.go
+++ b/generator.go
@@ -228,7 +228,7 @@ func generateCode(ctx *genctx, out io.Writer, c interface {
 
 	s := buf.String()
 	s = strings.TrimSuffix(s, ".\n")
-	fmt.Fprintf(out, s)
+	fmt.Fprint(out, s)
 
 	return nil
 }
-- 
2.43.0


From 498a0552c7c20c305b77126cf3f27136b67e469b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:34 +0000
Subject: [PATCH 27/46] fix: generate valid code for not constraints

---
 generator.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator.go b/generator.go
index ac47b1c..7cea121 100644
--- a/generator.go
+++ b/generator.go
@@ -518,9 +518,11 @@ func generateBooleanCode(ctx *genctx, out io.Writer, c *BooleanConstraint) error
 
 func generateNotCode(ctx *genctx, out io.Writer, c *NotConstraint) error {
 	fmt.Fprintf(out, "%s.Not(\n", ctx.pkgname)
-	if err := generateCode(ctx, out, c.child); err != nil {
+	if c.child == nil {
+		fmt.Fprint(out, "nil")
+	} else if err := generateCode(ctx, out, c.child); err != nil {
 		return err
 	}
-	fmt.Fprint(out, "\n)")
+	fmt.Fprint(out, ",\n)")
 	return nil
 }
-- 
2.43.0


From 1b288d95898564d41add8c1216a055606ecc87fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:04 +0000
Subject: [PATCH 28/46] fix: generate all facets of numbers, and exact literals
 for numbers, defaults and enumerations

---
 generator.go | 170 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 118 insertions(+), 52 deletions(-)

diff --git a/generator.go b/generator.go
index 7cea121..9555086 100644
--- a/generator.go
+++ b/generator.go
@@ -2,10 +2,10 @@ package jsval
 
 import (
 	"bytes"
-	"errors"
 	"fmt"
 	"go/format"
 	"io"
+	"math"
 	"os"
 	"reflect"
 	"sort"
@@ -268,9 +268,21 @@ func generateOneOfCode(ctx *genctx, out io.Writer, c *OneOfConstraint) error {
 
 func generateIntegerCode(ctx *genctx, out io.Writer, c *IntegerConstraint) error {
 	fmt.Fprintf(out, "%s.Integer()", ctx.pkgname)
+	return generateNumericFacets(ctx, out, &c.NumberConstraint)
+}
+
+func generateNumberCode(ctx *genctx, out io.Writer, c *NumberConstraint) error {
+	fmt.Fprintf(out, "%s.Number()", ctx.pkgname)
+	return generateNumericFacets(ctx, out, c)
+}
 
+func generateNumericFacets(ctx *genctx, out io.Writer, c *NumberConstraint) error {
 	if c.applyMinimum {
-		fmt.Fprintf(out, ".Minimum(%d)", int(c.minimum))
+		s, err := floatLiteral(c.minimum)
+		if err != nil {
+			return err
+		}
+		fmt.Fprintf(out, ".Minimum(%s)", s)
 	}
 
 	if c.exclusiveMinimum {
@@ -278,64 +290,123 @@ func generateIntegerCode(ctx *genctx, out io.Writer, c *IntegerConstraint) error
 	}
 
 	if c.applyMaximum {
-		fmt.Fprintf(out, ".Maximum(%d)", int(c.maximum))
+		s, err := floatLiteral(c.maximum)
+		if err != nil {
+			return err
+		}
+		fmt.Fprintf(out, ".Maximum(%s)", s)
 	}
 
 	if c.exclusiveMaximum {
 		fmt.Fprintf(out, ".ExclusiveMaximum(true)")
 	}
 
-	if c.HasDefault() {
-		fmt.Fprintf(out, ".Default(%d)", int(c.DefaultValue().(float64)))
+	if c.applyMultipleOf {
+		s, err := floatLiteral(c.multipleOf)
+		if err != nil {
+			return err
+		}
+		fmt.Fprintf(out, ".MultipleOf(%s)", s)
 	}
 
-	return nil
-}
-
-func generateNumberCode(ctx *genctx, out io.Writer, c *NumberConstraint) error {
-	fmt.Fprintf(out, "%s.Number()", ctx.pkgname)
-
-	if c.applyMinimum {
-		fmt.Fprintf(out, ".Minimum(%f)", c.minimum)
+	if enum := c.enums; enum != nil {
+		fmt.Fprintf(out, ".Enum(")
+		if err := generateEnumCode(ctx, out, enum); err != nil {
+			return err
+		}
+		fmt.Fprintf(out, ")")
 	}
 
-	if c.exclusiveMinimum {
-		fmt.Fprintf(out, ".ExclusiveMinimum(true)")
-	}
+	return generateDefaultCode(out, c)
+}
 
-	if c.applyMaximum {
-		fmt.Fprintf(out, ".Maximum(%f)", c.maximum)
+func generateDefaultCode(out io.Writer, c interface {
+	HasDefault() bool
+	DefaultValue() interface{}
+}) error {
+	if !c.HasDefault() {
+		return nil
 	}
 
-	if c.exclusiveMaximum {
-		fmt.Fprintf(out, ".ExclusiveMaximum(true)")
+	s, err := literal(reflect.ValueOf(c.DefaultValue()))
+	if err != nil {
+		return err
 	}
+	fmt.Fprintf(out, ".Default(%s)", s)
+	return nil
+}
 
-	if c.HasDefault() {
-		fmt.Fprintf(out, ".Default(%f)", c.DefaultValue())
+func floatLiteral(f float64) (string, error) {
+	if math.IsInf(f, 0) || math.IsNaN(f) {
+		return "", fmt.Errorf("cannot generate code for number %f", f)
 	}
+	return strconv.FormatFloat(f, 'g', -1, 64), nil
+}
 
-	return nil
+// literal returns Go code for the given value, which has the same type
+// even if it is used where an interface{} is expected
+func literal(rv reflect.Value) (string, error) {
+	if rv.Kind() == reflect.Interface {
+		rv = rv.Elem()
+	}
+
+	switch rv.Kind() {
+	case reflect.Invalid:
+		return "nil", nil
+	case reflect.Bool:
+		return strconv.FormatBool(rv.Bool()), nil
+	case reflect.String:
+		return strconv.Quote(rv.String()), nil
+	case reflect.Int:
+		return strconv.FormatInt(rv.Int(), 10), nil
+	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return fmt.Sprintf("%s(%d)", rv.Kind(), rv.Int()), nil
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		return fmt.Sprintf("%s(%d)", rv.Kind(), rv.Uint()), nil
+	case reflect.Float32, reflect.Float64:
+		s, err := floatLiteral(rv.Float())
+		if err != nil {
+			return "", err
+		}
+		return fmt.Sprintf("%s(%s)", rv.Kind(), s), nil
+	case reflect.Slice:
+		l := make([]string, rv.Len())
+		for i := range l {
+			s, err := literal(rv.Index(i))
+			if err != nil {
+				return "", err
+			}
+			l[i] = s
+		}
+		return "[]interface{}{" + strings.Join(l, ", ") + "}", nil
+	case reflect.Map:
+		if rv.Type().Key().Kind() != reflect.String {
+			break
+		}
+		l := make([]string, 0, rv.Len())
+		for _, k := range rv.MapKeys() {
+			s, err := literal(rv.MapIndex(k))
+			if err != nil {
+				return "", err
+			}
+			l = append(l, strconv.Quote(k.String())+": "+s)
+		}
+		sort.Strings(l)
+		return "map[string]interface{}{" + strings.Join(l, ", ") + "}", nil
+	}
+	return "", fmt.Errorf("failed to stringify value %#v", rv.Interface())
 }
 
 func generateEnumCode(ctx *genctx, out io.Writer, c *EnumConstraint) error {
-	fmt.Fprintf(out, "")
-	l := len(c.enums)
 	for i, v := range c.enums {
-		rv := reflect.ValueOf(v)
-		switch rv.Kind() {
-		case reflect.String:
-			fmt.Fprintf(out, "%s", strconv.Quote(rv.String()))
-		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-			fmt.Fprintf(out, "%d", rv.Int())
-		case reflect.Float32, reflect.Float64:
-			fmt.Fprintf(out, "%f", rv.Float())
-		default:
-			return fmt.Errorf("failed to stringify enum value %#v", rv.Interface())
+		s, err := literal(reflect.ValueOf(v))
+		if err != nil {
+			return err
 		}
-		if i < l-1 {
-			fmt.Fprintf(out, ", ")
+		if i > 0 {
+			fmt.Fprint(out, ", ")
 		}
+		fmt.Fprint(out, s)
 	}
 
 	return nil
@@ -365,20 +436,10 @@ func generateStringCode(ctx *genctx, out io.Writer, c *StringConstraint) error {
 		if err := generateEnumCode(ctx, out, enum); err != nil {
 			return err
 		}
-		fmt.Fprintf(out, ",)")
-	}
-
-	if c.HasDefault() {
-		def := c.DefaultValue()
-		switch def.(type) {
-		case string:
-		default:
-			return errors.New("default value must be a string")
-		}
-		fmt.Fprintf(out, ".Default(%s)", strconv.Quote(def.(string)))
+		fmt.Fprintf(out, ")")
 	}
 
-	return nil
+	return generateDefaultCode(out, c)
 }
 
 func generateObjectCode(ctx *genctx, out io.Writer, c *ObjectConstraint) error {
@@ -510,10 +571,15 @@ func generateArrayCode(ctx *genctx, out io.Writer, c *ArrayConstraint) error {
 
 func generateBooleanCode(ctx *genctx, out io.Writer, c *BooleanConstraint) error {
 	fmt.Fprintf(out, "%s.Boolean()", ctx.pkgname)
-	if c.HasDefault() {
-		fmt.Fprintf(out, ".Default(%t)", c.DefaultValue())
+	if enum := c.enums; enum != nil {
+		fmt.Fprintf(out, ".Enum(")
+		if err := generateEnumCode(ctx, out, enum); err != nil {
+			return err
+		}
+		fmt.Fprintf(out, ")")
 	}
-	return nil
+
+	return generateDefaultCode(out, c)
 }
 
 func generateNotCode(ctx *genctx, out io.Writer, c *NotConstraint) error {
-- 
2.43.0


From a8e352d0dcff4020068feea847a49a3ce45da723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:06 +0000
Subject: [PATCH 29/46] fix: generate code for enumerations and for
 combinations without constraints

---
 generator.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/generator.go b/generator.go
index 9555086..4305583 100644
--- a/generator.go
+++ b/generator.go
@@ -196,6 +196,12 @@ func generateCode(ctx *genctx, out io.Writer, c interface {
 		if err := generateBooleanCode(ctx, buf, c.(*BooleanConstraint)); err != nil {
 			return err
 		}
+	case *EnumConstraint:
+		fmt.Fprintf(buf, "%s.Enum(", ctx.pkgname)
+		if err := generateEnumCode(ctx, buf, c.(*EnumConstraint)); err != nil {
+			return err
+		}
+		fmt.Fprint(buf, ")")
 	case *IntegerConstraint:
 		if err := generateIntegerCode(ctx, buf, c.(*IntegerConstraint)); err != nil {
 			return err
@@ -240,9 +246,6 @@ func generateReferenceCode(ctx *genctx, out io.Writer, c *ReferenceConstraint) e
 }
 
 func generateComboCode(ctx *genctx, out io.Writer, name string, clist []Constraint) error {
-	if len(clist) == 0 {
-		return generateEmptyCode(ctx, out, EmptyConstraint)
-	}
 	fmt.Fprintf(out, "%s.%s()", ctx.pkgname, name)
 	for _, c1 := range clist {
 		fmt.Fprint(out, ".\nAdd(\n")
-- 
2.43.0


From 1a026b149d84120461df467f7721cb73bb146fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:08 +0000
Subject: [PATCH 30/46] fix: generate minProperties, maxProperties and schema
 dependencies of objects

---
 generator.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/generator.go b/generator.go
index 4305583..412c921 100644
--- a/generator.go
+++ b/generator.go
@@ -469,6 +469,14 @@ func generateObjectCode(ctx *genctx, out io.Writer, c *ObjectConstraint) error {
 		fmt.Fprint(out, ")")
 	}
 
+	if c.minProperties > -1 {
+		fmt.Fprintf(out, ".\nMinProperties(%d)", c.minProperties)
+	}
+
+	if c.maxProperties > -1 {
+		fmt.Fprintf(out, ".\nMaxProperties(%d)", c.maxProperties)
+	}
+
 	if aprop := c.additionalProperties; aprop != nil {
 		fmt.Fprintf(out, ".\nAdditionalProperties(\n")
 		if err := generateCode(ctx, out, aprop); err != nil {
@@ -529,6 +537,22 @@ func generateObjectCode(ctx *genctx, out io.Writer, c *ObjectConstraint) error {
 		}
 	}
 
+	if m := c.schemadeps; len(m) > 0 {
+		keys := make([]string, 0, len(m))
+		for from := range m {
+			keys = append(keys, from)
+		}
+		sort.Strings(keys)
+
+		for _, from := range keys {
+			fmt.Fprintf(out, ".\nSchemaDependency(\n%s,\n", strconv.Quote(from))
+			if err := generateCode(ctx, out, m[from]); err != nil {
+				return err
+			}
+			fmt.Fprint(out, ",\n)")
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 1664e7286065f19e3be98d8caba71199ed411ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:09 +0000
Subject: [PATCH 31/46] fix: generate arrays that do not allow additional
 items, and report failures for positional items

---
 generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator.go b/generator.go
index 412c921..9171db0 100644
--- a/generator.go
+++ b/generator.go
@@ -573,12 +573,15 @@ func generateArrayCode(ctx *genctx, out io.Writer, c *ArrayConstraint) error {
 			return err
 		}
 		fmt.Fprintf(out, ",\n)")
+	} else {
+		fmt.Fprint(out, ".\nAdditionalItems(nil)")
 	}
 
 	if cc := c.positionalItems; len(cc) > 0 {
 		fmt.Fprintf(out, ".\nPositionalItems([]%s.Constraint{\n", ctx.pkgname)
 		for _, ccc := range cc {
 			if err := generateCode(ctx, out, ccc); err != nil {
+				return err
 			}
 			fmt.Fprintf(out, ",\n")
 		}
-- 
2.43.0


From cf4442103351fde1fa83bcfbe7ebce7a86351783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:11 +0000
Subject: [PATCH 32/46] fix: generate every pattern property when several have
 the same pattern

---
 generator.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/generator.go b/generator.go
index 9171db0..fa687c6 100644
--- a/generator.go
+++ b/generator.go
@@ -503,23 +503,21 @@ func generateObjectCode(ctx *genctx, out io.Writer, c *ObjectConstraint) error {
 
 	// patternProperties is a bit tricky, because the keys are
 	// Regexp objects, and they don't have a sort.Regexp available
-	// for us. It's easy to write one, but we'd have to stringify them
-	// anyways, so we might as well just create a temporary container
-	// with strings as keys
-	ppmap := make(map[string]Constraint)
-	ppnames := make([]string, 0, len(c.patternProperties))
+	// for us. Besides, there may be more than one with the same pattern,
+	// so we might as well just generate the code and sort that
+	ppcode := make([]string, 0, len(c.patternProperties))
 	for rx, ppc := range c.patternProperties {
-		rxs := rx.String()
-		ppmap[rxs] = ppc
-		ppnames = append(ppnames, rxs)
-	}
-	sort.Strings(ppnames)
-	for _, ppname := range ppnames {
-		fmt.Fprintf(out, ".\nPatternPropertiesString(\n%s,\n", strconv.Quote(ppname))
-		if err := generateCode(ctx, out, ppmap[ppname]); err != nil {
+		ppbuf := bytes.Buffer{}
+		fmt.Fprintf(&ppbuf, ".\nPatternPropertiesString(\n%s,\n", strconv.Quote(rx.String()))
+		if err := generateCode(ctx, &ppbuf, ppc); err != nil {
 			return err
 		}
-		fmt.Fprint(out, ",\n)")
+		fmt.Fprint(&ppbuf, ",\n)")
+		ppcode = append(ppcode, ppbuf.String())
+	}
+	sort.Strings(ppcode)
+	for _, code := range ppcode {
+		fmt.Fprint(out, code)
 	}
 
 	if m := c.propdeps; len(m) > 0 {
-- 
2.43.0


From c708f26b89308de2ca8fbed60d79f7a11fd67aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:39 +0000
Subject: [PATCH 33/46] fix: generate the same code every time, and leave the
 validators and their order alone

---
 generator.go | 42 ++++++++++++++++++++++++------------------
 reference.go | 16 ++++++++++++++++
 2 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/generator.go b/generator.go
index fa687c6..8e9942e 100644
--- a/generator.go
+++ b/generator.go
@@ -33,28 +33,30 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 
 	buf := bytes.Buffer{}
 
-	// First get all of the references so we can refer to it later
+	// Decide on the names first. Do this on copies, because the validators
+	// (and the slice) that we were given are none of our business
+	sorted := make([]*JSVal, len(validators))
+	for i, v := range validators {
+		name := v.Name
+		if name == "" {
+			name = fmt.Sprintf("V%d", i)
+		}
+		sorted[i] = &JSVal{ConstraintMap: v.ConstraintMap, Name: name, root: v.root}
+	}
+	sort.Stable(JSValSlice(sorted))
+
+	// Get all of the references so we can refer to it later
 	refs := map[string]Constraint{}
 	refnames := []string{}
-	valnames := []string{}
-	for i, v := range validators {
-		for rname, rc := range v.refs {
+	for _, v := range sorted {
+		fmt.Fprintf(&buf, "\nvar %s *%s.JSVal", v.Name, ctx.pkgname)
+		for rname, rc := range v.allReferences() {
 			if _, ok := refs[rname]; ok {
 				continue
 			}
 			refs[rname] = rc
 			refnames = append(refnames, rname)
 		}
-
-		if v.Name == "" {
-			v.Name = fmt.Sprintf("V%d", i)
-		}
-		valnames = append(valnames, v.Name)
-	}
-
-	sort.Strings(valnames)
-	for _, vname := range valnames {
-		fmt.Fprintf(&buf, "\nvar %s *%s.JSVal", vname, ctx.pkgname)
 	}
 
 	ctx.refs = refs
@@ -99,8 +101,7 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 	}
 
 	// Now dump the validators
-	sort.Sort(JSValSlice(validators))
-	for _, v := range validators {
+	for _, v := range sorted {
 		fmt.Fprintf(&buf, "\n%s = ", v.Name)
 		if err := generateCode(&ctx, &buf, v); err != nil {
 			return err
@@ -143,8 +144,13 @@ func generateValidatorCode(ctx *genctx, out io.Writer, v *JSVal) error {
 		fmt.Fprintf(out, ".\nSetConstraintMap(%s)", cmname)
 	}
 
-	for rname, rc := range ctx.refs {
-		if v.root == rc {
+	rnames := make([]string, 0, len(ctx.refs))
+	for rname := range ctx.refs {
+		rnames = append(rnames, rname)
+	}
+	sort.Strings(rnames)
+	for _, rname := range rnames {
+		if v.root == ctx.refs[rname] {
 			fmt.Fprintf(out, ".\nSetRoot(%s)", ctx.refnames[rname])
 			found = true
 			break
diff --git a/reference.go b/reference.go
index 100e8ba..e1629d4 100644
--- a/reference.go
+++ b/reference.go
@@ -35,6 +35,22 @@ func (cm *ConstraintMap) refmap() map[string]Constraint {
 	return cm.refs
 }
 
+// allReferences returns a copy of the references stored in this ConstraintMap
+func (cm *ConstraintMap) allReferences() map[string]Constraint {
+	refs := make(map[string]Constraint)
+	if cm == nil {
+		return refs
+	}
+
+	cm.lock.Lock()
+	defer cm.lock.Unlock()
+
+	for name, c := range cm.refs {
+		refs[name] = c
+	}
+	return refs
+}
+
 // SetReference registeres a new Constraint to a name
 func (cm *ConstraintMap) SetReference(name string, c Constraint) {
 	cm.lock.Lock()
-- 
2.43.0


From b4c9ee7aa4f3859ff3357503cc1c34a52d05328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:41 +0000
Subject: [PATCH 34/46] fix: report failures to write the generated code

---
 generator.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/generator.go b/generator.go
index 8e9942e..2f639ef 100644
--- a/generator.go
+++ b/generator.go
@@ -114,7 +114,13 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 		os.Stderr.Write(buf.Bytes())
 		return err
 	}
-	out.Write(fsrc)
+	n, err := out.Write(fsrc)
+	if err != nil {
+		return err
+	}
+	if n < len(fsrc) {
+		return io.ErrShortWrite
+	}
 	return nil
 }
 
-- 
2.43.0


From c9e151663d7fefccad038061e6feb38402f2e8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:42 +0000
Subject: [PATCH 35/46] fix: report references that cannot be resolved instead
 of generating code that does not compile

---
 generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generator.go b/generator.go
index 2f639ef..f178812 100644
--- a/generator.go
+++ b/generator.go
@@ -252,6 +252,10 @@ func generateCode(ctx *genctx, out io.Writer, c interface {
 }
 
 func generateReferenceCode(ctx *genctx, out io.Writer, c *ReferenceConstraint) error {
+	if _, ok := ctx.refs[c.reference]; !ok {
+		return fmt.Errorf("reference '%s' not found", c.reference)
+	}
+
 	fmt.Fprintf(out, "%s.Reference(%s).RefersTo(%s)", ctx.pkgname, ctx.cmname, strconv.Quote(c.reference))
 
 	return nil
-- 
2.43.0


From cd355cab4e06de26fae1c396bf4181c082220ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:44 +0000
Subject: [PATCH 36/46] fix: do not truncate the output file before there is
 something to write

---
 cmd/jsval/jsval.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/cmd/jsval/jsval.go b/cmd/jsval/jsval.go
index f7876ab..be8709c 100644
--- a/cmd/jsval/jsval.go
+++ b/cmd/jsval/jsval.go
@@ -1,9 +1,9 @@
 package main
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
-	"io"
 	"log"
 	"os"
 
@@ -132,25 +132,34 @@ func _cli() int {
 		validators[i] = v
 	}
 
-	var out io.Writer
+	// Don't touch the output file until we know that we have something
+	// to write to it
+	var buf bytes.Buffer
+	g := jsval.NewGenerator()
+	if err := g.Process(&buf, validators...); err != nil {
+		log.Printf("%s", err)
+		return 1
+	}
 
-	out = os.Stdout
+	out := os.Stdout
 	if fn := opts.OutFile; fn != "" {
 		f, err := os.Create(fn)
 		if err != nil {
 			log.Printf("%s", err)
 			return 1
 		}
-		defer f.Close()
 
 		out = f
 	}
 
-	g := jsval.NewGenerator()
-	if err := g.Process(out, validators...); err != nil {
+	_, err = out.Write(buf.Bytes())
+	if cerr := out.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
 		log.Printf("%s", err)
 		return 1
 	}
 
 	return 0
-}
\ No newline at end of file
+}
-- 
2.43.0


From 06c0c99614b68e0aa287b29ad6de5b8dae8e7a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:46 +0000
Subject: [PATCH 37/46] fix: report constraints that no code can be generated
 for

A constraint of a type that the generator does not know gave no code at
all, and if it was registered as a reference the result was a statement
that does not compile, without any error.
---
 generator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generator.go b/generator.go
index f178812..01b5a1c 100644
--- a/generator.go
+++ b/generator.go
@@ -242,6 +242,8 @@ func generateCode(ctx *genctx, out io.Writer, c interface {
 		if err := generateStringCode(ctx, buf, c.(*StringConstraint)); err != nil {
 			return err
 		}
+	default:
+		return fmt.Errorf("cannot generate code for a constraint of type %T", c)
 	}
 
 	s := buf.String()
-- 
2.43.0


From 374e1bba337abb9b1b6b0a5ef9ec5c1603fadaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:41 +0000
Subject: [PATCH 38/46] fix: copy the lists passed to Enum and PositionalItems

Both kept the caller's slice, so that changing it later (or reusing it
to configure another constraint) changed the constraint, too.
---
 array.go | 2 +-
 enum.go  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/array.go b/array.go
index 34a9c83..12c1378 100644
--- a/array.go
+++ b/array.go
@@ -168,7 +168,7 @@ func (c *ArrayConstraint) MaxItems(i int) *ArrayConstraint {
 // the array are validated against the constraint specified for
 // `AdditionalItems`.
 func (c *ArrayConstraint) PositionalItems(ac []Constraint) *ArrayConstraint {
-	c.positionalItems = ac
+	c.positionalItems = append([]Constraint(nil), ac...)
 	return c
 }
 
diff --git a/enum.go b/enum.go
index 43f1983..a479974 100644
--- a/enum.go
+++ b/enum.go
@@ -9,12 +9,12 @@ import (
 
 // Enum creates a new EnumConstraint
 func Enum(v ...interface{}) *EnumConstraint {
-	return &EnumConstraint{enums: v}
+	return (&EnumConstraint{}).Enum(v...)
 }
 
 // Enum method sets the possible enumerations
 func (c *EnumConstraint) Enum(v ...interface{}) *EnumConstraint {
-	c.enums = v
+	c.enums = append([]interface{}(nil), v...)
 	return c
 }
 
-- 
2.43.0


From 1b74d504af04861b8f2c4d7a7ab845b4103fff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:10 +0000
Subject: [PATCH 39/46] fix: keep references of validators apart that are
 generated together

Two validators whose maps had different constraints for the same
reference got the constraints of the first one.
---
 generator.go | 111 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 82 insertions(+), 29 deletions(-)

diff --git a/generator.go b/generator.go
index 01b5a1c..e5d0723 100644
--- a/generator.go
+++ b/generator.go
@@ -25,12 +25,6 @@ func NewGenerator() *Generator {
 
 // Process takes a validator and prints out Go code to out.
 func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
-	ctx := genctx{
-		pkgname:  "jsval",
-		refnames: make(map[string]string),
-		vname:    "V",
-	}
-
 	buf := bytes.Buffer{}
 
 	// Decide on the names first. Do this on copies, because the validators
@@ -45,43 +39,73 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 	}
 	sort.Stable(JSValSlice(sorted))
 
-	// Get all of the references so we can refer to it later
-	refs := map[string]Constraint{}
-	refnames := []string{}
-	for _, v := range sorted {
+	// Get all of the references so we can refer to it later. Validators
+	// share a map, unless they disagree about what a reference refers to
+	ctxs := []*genctx{}
+	vctx := make([]*genctx, len(sorted))
+	for i, v := range sorted {
+		for _, ctx := range ctxs {
+			ok, err := ctx.agrees(v)
+			if err != nil {
+				return err
+			}
+			if ok {
+				vctx[i] = ctx
+				break
+			}
+		}
+		if vctx[i] == nil {
+			vctx[i] = &genctx{
+				pkgname:  "jsval",
+				refs:     make(map[string]Constraint),
+				refnames: make(map[string]string),
+				vname:    "V",
+			}
+			ctxs = append(ctxs, vctx[i])
+		}
+		ctx := vctx[i]
 		fmt.Fprintf(&buf, "\nvar %s *%s.JSVal", v.Name, ctx.pkgname)
 		for rname, rc := range v.allReferences() {
-			if _, ok := refs[rname]; ok {
+			if _, ok := ctx.refs[rname]; ok {
 				continue
 			}
-			refs[rname] = rc
-			refnames = append(refnames, rname)
+			ctx.refs[rname] = rc
 		}
 	}
 
-	ctx.refs = refs
-	if len(refs) > 0 { // have refs
+	nrefs := 0
+	for i, ctx := range ctxs {
+		if len(ctx.refs) == 0 {
+			continue
+		}
+		// have refs
 		ctx.cmname = "M"
-		// sort them by reference name
-		sort.Strings(refnames)
+		if i > 0 {
+			ctx.cmname = fmt.Sprintf("M%d", i)
+		}
 		fmt.Fprintf(&buf, "\nvar %s *%s.ConstraintMap", ctx.cmname, ctx.pkgname)
 
 		// Generate reference constraint names
-		for i, rname := range refnames {
-			vname := fmt.Sprintf("R%d", i)
+		for _, rname := range ctx.sortedRefs() {
+			vname := fmt.Sprintf("R%d", nrefs)
+			nrefs++
 			ctx.refnames[rname] = vname
 			fmt.Fprintf(&buf, "\nvar %s %s.Constraint", vname, ctx.pkgname)
 		}
 	}
 
 	fmt.Fprintf(&buf, "\nfunc init() {")
-	if len(refs) > 0 {
+	for _, ctx := range ctxs {
+		if len(ctx.refs) == 0 {
+			continue
+		}
+		refnames := ctx.sortedRefs()
 		fmt.Fprintf(&buf, "\n%s = &%s.ConstraintMap{}", ctx.cmname, ctx.pkgname)
 		// Now generate code for references
 		for _, rname := range refnames {
 			fmt.Fprintf(&buf, "\n%s = ", ctx.refnames[rname])
 			rbuf := bytes.Buffer{}
-			if err := generateCode(&ctx, &rbuf, ctx.refs[rname]); err != nil {
+			if err := generateCode(ctx, &rbuf, ctx.refs[rname]); err != nil {
 				return err
 			}
 			// Remove indentation here
@@ -101,9 +125,9 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 	}
 
 	// Now dump the validators
-	for _, v := range sorted {
+	for i, v := range sorted {
 		fmt.Fprintf(&buf, "\n%s = ", v.Name)
-		if err := generateCode(&ctx, &buf, v); err != nil {
+		if err := generateCode(vctx[i], &buf, v); err != nil {
 			return err
 		}
 	}
@@ -132,6 +156,40 @@ type genctx struct {
 	vname    string
 }
 
+// sortedRefs returns the names of the references, sorted by name
+func (ctx *genctx) sortedRefs() []string {
+	refnames := make([]string, 0, len(ctx.refs))
+	for rname := range ctx.refs {
+		refnames = append(refnames, rname)
+	}
+	sort.Strings(refnames)
+	return refnames
+}
+
+// agrees returns true if the references that v has in common with those
+// in ctx refer to the same constraints
+func (ctx *genctx) agrees(v *JSVal) (bool, error) {
+	vctx := &genctx{pkgname: ctx.pkgname, refs: v.allReferences()}
+	for _, rname := range vctx.sortedRefs() {
+		c, ok := ctx.refs[rname]
+		if !ok {
+			continue
+		}
+
+		var a, b bytes.Buffer
+		if err := generateCode(ctx, &a, c); err != nil {
+			return false, err
+		}
+		if err := generateCode(vctx, &b, vctx.refs[rname]); err != nil {
+			return false, err
+		}
+		if a.String() != b.String() {
+			return false, nil
+		}
+	}
+	return true, nil
+}
+
 func generateEmptyCode(ctx *genctx, out io.Writer, c emptyConstraint) error {
 	fmt.Fprintf(out, "%s.EmptyConstraint", ctx.pkgname)
 	return nil
@@ -150,12 +208,7 @@ func generateValidatorCode(ctx *genctx, out io.Writer, v *JSVal) error {
 		fmt.Fprintf(out, ".\nSetConstraintMap(%s)", cmname)
 	}
 
-	rnames := make([]string, 0, len(ctx.refs))
-	for rname := range ctx.refs {
-		rnames = append(rnames, rname)
-	}
-	sort.Strings(rnames)
-	for _, rname := range rnames {
+	for _, rname := range ctx.sortedRefs() {
 		if v.root == ctx.refs[rname] {
 			fmt.Fprintf(out, ".\nSetRoot(%s)", ctx.refnames[rname])
 			found = true
-- 
2.43.0


From 02e89b2da4750f4e1e5d84a58cef2d01d1ae87c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:12 +0000
Subject: [PATCH 40/46] fix: don't use the names of validators for references
 in generated code

A validator called M, R0, ... (e.g. with the prefix R) gave code with
redeclared variables.
---
 generator.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/generator.go b/generator.go
index e5d0723..9fbd6a5 100644
--- a/generator.go
+++ b/generator.go
@@ -41,9 +41,11 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 
 	// Get all of the references so we can refer to it later. Validators
 	// share a map, unless they disagree about what a reference refers to
+	taken := map[string]struct{}{}
 	ctxs := []*genctx{}
 	vctx := make([]*genctx, len(sorted))
 	for i, v := range sorted {
+		taken[v.Name] = struct{}{}
 		for _, ctx := range ctxs {
 			ok, err := ctx.agrees(v)
 			if err != nil {
@@ -73,21 +75,29 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 		}
 	}
 
+	unused := func(name string) string {
+		for {
+			if _, ok := taken[name]; !ok {
+				return name
+			}
+			name += "_"
+		}
+	}
 	nrefs := 0
 	for i, ctx := range ctxs {
 		if len(ctx.refs) == 0 {
 			continue
 		}
 		// have refs
-		ctx.cmname = "M"
+		ctx.cmname = unused("M")
 		if i > 0 {
-			ctx.cmname = fmt.Sprintf("M%d", i)
+			ctx.cmname = unused(fmt.Sprintf("M%d", i))
 		}
 		fmt.Fprintf(&buf, "\nvar %s *%s.ConstraintMap", ctx.cmname, ctx.pkgname)
 
 		// Generate reference constraint names
 		for _, rname := range ctx.sortedRefs() {
-			vname := fmt.Sprintf("R%d", nrefs)
+			vname := unused(fmt.Sprintf("R%d", nrefs))
 			nrefs++
 			ctx.refnames[rname] = vname
 			fmt.Fprintf(&buf, "\nvar %s %s.Constraint", vname, ctx.pkgname)
-- 
2.43.0


From 2787e8612cf3dcfbbf46a79c10c68e8906001cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:59 +0000
Subject: [PATCH 41/46] fix: do not take 01 or +1 for an index in a reference

---
 builder/builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/builder.go b/builder/builder.go
index 9ea9dbb..128afd4 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -257,7 +257,7 @@ func lookupReference(r *jsref.Resolver, ref string, jsctx interface{}) (interfac
 			thing = v
 		case []interface{}:
 			i, err := strconv.Atoi(token)
-			if err != nil || i < 0 || i >= len(container) {
+			if err != nil || strconv.Itoa(i) != token || i < 0 || i >= len(container) {
 				return nil, notfound
 			}
 			thing = container[i]
-- 
2.43.0


From 3270a71c0a3644bdb78dc7f4d95620d9019322cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:01 +0000
Subject: [PATCH 42/46] fix: report input that goes on after the JSON document
 in the jsval command

---
 cmd/jsval/jsval.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/jsval/jsval.go b/cmd/jsval/jsval.go
index be8709c..76717e1 100644
--- a/cmd/jsval/jsval.go
+++ b/cmd/jsval/jsval.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"io/ioutil"
 	"log"
 	"os"
 
@@ -64,15 +65,14 @@ func _cli() int {
 		return 1
 	}
 
-	f, err := os.Open(opts.Schema)
+	src, err := ioutil.ReadFile(opts.Schema)
 	if err != nil {
 		log.Printf("%s", err)
 		return 1
 	}
-	defer f.Close()
 
 	var m map[string]interface{}
-	if err := json.NewDecoder(f).Decode(&m); err != nil {
+	if err := json.Unmarshal(src, &m); err != nil {
 		log.Printf("%s", err)
 		return 1
 	}
@@ -81,7 +81,7 @@ func _cli() int {
 	var schemas []*schema.Schema
 	ptrs := opts.Pointer
 	if len(ptrs) == 0 {
-		s, err := schema.ReadFile(opts.Schema)
+		s, err := schema.Read(bytes.NewReader(src))
 		if err != nil {
 			log.Printf("%s", err)
 			return 1
-- 
2.43.0


From c76cc353a44b0c1d0fda96c61dfb029945eba8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:02 +0000
Subject: [PATCH 43/46] fix: refuse documents that are followed by something
 else in the playground server

---
 server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index e0e96b4..3f5981c 100644
--- a/server/server.go
+++ b/server/server.go
@@ -174,7 +174,7 @@ func (s *Server) httpGenerateValidator(ctx context.Context, w http.ResponseWrite
 	}
 
 	var m map[string]interface{}
-	if err := json.NewDecoder(bytes.NewReader(buf.Bytes())).Decode(&m); err != nil {
+	if err := json.Unmarshal(buf.Bytes(), &m); err != nil {
 		resp["success"] = false
 		resp["message"] = err.Error()
 		json.NewEncoder(w).Encode(resp)
-- 
2.43.0


From bf3590e2ff423d678e7390a838c09ee6b4c30a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:04 +0000
Subject: [PATCH 44/46] fix: report files that go on after the schema in
 gentest

---
 internal/cmd/gentest/gentest.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/cmd/gentest/gentest.go b/internal/cmd/gentest/gentest.go
index a90de07..bdd0976 100644
--- a/internal/cmd/gentest/gentest.go
+++ b/internal/cmd/gentest/gentest.go
@@ -2,7 +2,9 @@ package main
 
 import (
 	"bytes"
+	"encoding/json"
 	"io"
+	"io/ioutil"
 	"log"
 	"os"
 
@@ -16,7 +18,19 @@ func main() {
 }
 
 func _main() int {
-	s, err := schema.ReadFile(os.Args[1])
+	src, err := ioutil.ReadFile(os.Args[1])
+	if err != nil {
+		log.Printf("%s", err)
+		return 1
+	}
+
+	var m map[string]interface{}
+	if err := json.Unmarshal(src, &m); err != nil {
+		log.Printf("%s", err)
+		return 1
+	}
+
+	s, err := schema.Read(bytes.NewReader(src))
 	if err != nil {
 		log.Printf("%s", err)
 		return 1
-- 
2.43.0


From 1ba6bce7385da5dd2b0fdcb32ae70c1f70685acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:54 +0000
Subject: [PATCH 45/46] fix: treat embedded structs that have a name, and names
 embedded at several depths, as encoding/json does

---
 structinfo.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/structinfo.go b/structinfo.go
index 2c21694..3c0906b 100644
--- a/structinfo.go
+++ b/structinfo.go
@@ -185,7 +185,18 @@ func extractFields(t reflect.Type, index []int, seen map[reflect.Type]struct{})
 			pdebug.Printf("Checking if field '%s' implements the Maybe interface -> %t", fv.Name, isMaybe)
 		}
 
-		if fv.Anonymous && !isMaybe {
+		// Inspect the JSON struct tag so we know what they want to call
+		// this field from JSON.
+		tag := fv.Tag.Get("json")
+		if tag == "-" { // "Ignore me", says the struct
+			continue
+		}
+		if j := strings.IndexByte(tag, ','); j >= 0 {
+			tag = tag[:j]
+		}
+
+		// An embedded struct that has a name is a property like any other
+		if fv.Anonymous && !isMaybe && tag == "" {
 			et := fv.Type
 			if et.Kind() == reflect.Ptr {
 				et = et.Elem()
@@ -195,7 +206,10 @@ func extractFields(t reflect.Type, index []int, seen map[reflect.Type]struct{})
 					continue
 				}
 				for k, v := range extractFields(et, fidx, seen) {
-					embedded[k] = v
+					// The least nested field hides the others
+					if cur, ok := embedded[k]; !ok || len(v.index) <= len(cur.index) {
+						embedded[k] = v
+					}
 				}
 				continue
 			}
@@ -205,17 +219,7 @@ func extractFields(t reflect.Type, index []int, seen map[reflect.Type]struct{})
 			continue
 		}
 
-		// Inspect the JSON struct tag so we know what they want to call
-		// this field from JSON.
-		tag := fv.Tag.Get("json")
-		if tag == "-" { // "Ignore me", says the struct
-			continue
-		}
-
 		name := fv.Name
-		if j := strings.IndexByte(tag, ','); j >= 0 {
-			tag = tag[:j]
-		}
 		if tag != "" {
 			name = tag
 		}
-- 
2.43.0


From 7ef243a387a12c3436ccce41622ee53212d9d0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:56 +0000
Subject: [PATCH 46/46] fix: let the zero value of StructInfoRegistry be used

---
 structinfo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structinfo.go b/structinfo.go
index 3c0906b..113675f 100644
--- a/structinfo.go
+++ b/structinfo.go
@@ -134,6 +134,9 @@ func (r *StructInfoRegistry) Register(t reflect.Type) StructInfo {
 
 	si = StructInfo{props: props}
 	r.lock.Lock()
+	if r.registry == nil {
+		r.registry = make(map[reflect.Type]StructInfo)
+	}
 	r.registry[t] = si
 	r.lock.Unlock()
 	return si
-- 
2.43.0

