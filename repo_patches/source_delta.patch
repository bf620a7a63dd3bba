From 754e9ead87147b76dd545aaf93eb22c6f22dd628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 01/82] fix: Scan read the whole document as the openapi
 version string and always failed

---
 oapi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oapi.go b/oapi.go
index 50ef4bd..4d8d611 100644
--- a/oapi.go
+++ b/oapi.go
@@ -37,7 +37,7 @@ type OAPI struct {
 // newOAPI creates new specs from container
 func newOAPI(c container.Container) (x OAPI, err error) {
 	x = OAPI{c: c}
-	err = json.Unmarshal(c.Bytes(), &x.o.OpenAPI)
+	err = json.Unmarshal(c.Path("openapi").Bytes(), &x.o.OpenAPI)
 	return x, err
 }
 
-- 
2.43.0


From 56bc7e935a9928fec2eca953a51ff44f3c3c67ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 02/82] fix: mulof option of the oapi tag was stored as
 exclusive minimum

---
 tag/tag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tag/tag.go b/tag/tag.go
index af4b782..1fa3b36 100644
--- a/tag/tag.go
+++ b/tag/tag.go
@@ -89,7 +89,7 @@ func parseOAPITag(tags *structtag.Tags, meta *Tag) (err error) {
 		parseTagFloatPtr(tag, "min", &meta.Min),
 		parseTagFloatPtr(tag, "emax", &meta.EMax),
 		parseTagFloatPtr(tag, "emin", &meta.EMin),
-		parseTagFloatPtr(tag, "mulof", &meta.EMin),
+		parseTagFloatPtr(tag, "mulof", &meta.MulOf),
 	}
 	for _, err := range errs {
 		if err != nil {
-- 
2.43.0


From d68a50bb71d6bd1798be0a314e10ca5953b18fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 03/82] fix: malformed boolean tag options were accepted,
 absent ones reset earlier values

---
 tag/tag.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tag/tag.go b/tag/tag.go
index 1fa3b36..fcc868b 100644
--- a/tag/tag.go
+++ b/tag/tag.go
@@ -195,12 +195,15 @@ func parseTagString(m *tagparser.Tag, tag string, val *string) error {
 
 func parseTagBool(m *tagparser.Tag, tag string, val *bool) (err error) {
 	x, ok := m.Options[tag]
+	if !ok {
+		return nil
+	}
 	if x == "" {
 		*val = ok
 	} else {
 		*val, err = strconv.ParseBool(x)
 	}
-	return nil
+	return err
 }
 
 func parseTagBoolPtr(m *tagparser.Tag, tag string, val **bool) (err error) {
-- 
2.43.0


From cc460d8d4ec5024acee7f678e1eb8fea3567123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 04/82] fix: blank struct tag crashed the tag parser

---
 tag/tag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tag/tag.go b/tag/tag.go
index fcc868b..acaad49 100644
--- a/tag/tag.go
+++ b/tag/tag.go
@@ -43,7 +43,7 @@ func Parse(rawtags string) (meta Tag, err error) {
 		return
 	}
 	tags, err := structtag.Parse(rawtags)
-	if err != nil {
+	if err != nil || tags == nil {
 		return
 	}
 	if err = parseJSONTag(tags, &meta); err != nil {
-- 
2.43.0


From 58892c9b5e668cfdee628df40defb4063c4c8e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 05/82] fix: quotes of quoted tag option values ended up in the
 value

---
 tag/tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tag/tag.go b/tag/tag.go
index acaad49..0500221 100644
--- a/tag/tag.go
+++ b/tag/tag.go
@@ -189,6 +189,9 @@ func parseTagString(m *tagparser.Tag, tag string, val *string) error {
 	if !ok {
 		return nil
 	}
+	if u, quoted := tagparser.Unquote(v); quoted {
+		v = u
+	}
 	*val = v
 	return nil
 }
-- 
2.43.0


From 7bf84b10c1bbbc71ae94d94de49cb5c9a20563de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 06/82] fix: property names differ from encoding/json for json
 tags '-,' and names with colon

---
 tag/tag.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tag/tag.go b/tag/tag.go
index 0500221..ec4be4d 100644
--- a/tag/tag.go
+++ b/tag/tag.go
@@ -104,12 +104,17 @@ func parseJSONTag(tags *structtag.Tags, meta *Tag) (err error) {
 	if tag == nil {
 		return nil
 	}
-	if tag.Name == "-" {
+	// name has to be the one encoding/json is using
+	raw, err := tags.Get("json")
+	if err != nil {
+		return
+	}
+	if raw.Value() == "-" {
 		meta.Ignore = true
 		return
 	}
-	if len(tag.Name) != 0 {
-		meta.Name = tag.Name
+	if len(raw.Name) != 0 {
+		meta.Name = raw.Name
 	}
 	errs := []error{
 		parseTagBoolPtr(tag, "inline", &meta.Inline),
-- 
2.43.0


From ec9a93bf8212b01fa2895493b1f1d9f67ddbb41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 07/82] fix: format of struct fields was lost unless given in
 the tag

---
 internal/oapi/scan/types/types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index faf4a11..b0a3138 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -224,7 +224,9 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 		pschema.Deprecated = x.tag.Deprecated
 		pschema.ReadOnly = x.tag.ReadOnly
 		pschema.WriteOnly = x.tag.WriteOnly
-		pschema.Format = x.tag.Format
+		if len(x.tag.Format) > 0 {
+			pschema.Format = x.tag.Format
+		}
 
 		if x.tag.Nullable != nil {
 			pschema.Nullable = *x.tag.Nullable
-- 
2.43.0


From b96fdb690ac9f23898aa82cfcef01ae053aecfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 08/82] fix: required fields of struct type were not listed as
 required

---
 internal/oapi/scan/types/types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index b0a3138..df4e6f9 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -217,6 +217,10 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 
 		s.Properties[name] = pschema
 
+		if x.tag.Required {
+			s.Required = append(s.Required, name)
+		}
+
 		if pschema.Ref != nil {
 			continue
 		}
@@ -231,10 +235,6 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 		if x.tag.Nullable != nil {
 			pschema.Nullable = *x.tag.Nullable
 		}
-
-		if x.tag.Required {
-			s.Required = append(s.Required, name)
-		}
 	}
 
 	return
-- 
2.43.0


From 554ad41dfe11c7cd4b87852e4b5bb5912f30dcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 09/82] fix: reference to an unknown type crashed instead of
 being reported

---
 internal/oapi/scan/types/scan.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/scan/types/scan.go b/internal/oapi/scan/types/scan.go
index 417bdf6..78cfb5c 100644
--- a/internal/oapi/scan/types/scan.go
+++ b/internal/oapi/scan/types/scan.go
@@ -24,7 +24,10 @@ func NewScanner(ptrs pointer.Pointers) *Scanner {
 // Resolve will return new pointer and scheme, new pointer might be returned in cases
 // where original pointer is not fully resolved.
 func (r *Scanner) Resolve(ptr pointer.Pointer) (*spec.Schema, error) {
-	tp, _ := r.points.findType(ptr)
+	tp, ok := r.points.findType(ptr)
+	if !ok {
+		return nil, errors.Errorf("failed to resolve %q, no such type", ptr.String())
+	}
 	// pp, ok := r.points.pick(tp)
 	// if !ok {
 	// 	return nil, errors.Errorf("failed to resolve %q", ptr.String())
-- 
2.43.0


From ccf147cc693ebc168c0198e71c079aa0207446fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 10/82] fix: struct field of type error crashed the scan

---
 internal/oapi/scan/types/types.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index df4e6f9..6e2393f 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -85,7 +85,8 @@ func walk(r point, t types.Type, p path, m *pointmap) (err error) {
 			return
 		}
 		named, ok := e.t.(*types.Named)
-		if ok {
+		// predeclared types (error) do not belong to any package
+		if ok && named.Obj().Pkg() != nil {
 			np := newPoint(named.Obj())
 			err = walk(np, e.t, p, m)
 		}
-- 
2.43.0


From cbd45b5fc259ea46942ae3271f730ee6ee464639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 11/82] fix: references to types with identical structure were
 mixed up

---
 internal/oapi/scan/types/point.go |  3 +++
 internal/oapi/scan/types/types.go | 15 +++++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/internal/oapi/scan/types/point.go b/internal/oapi/scan/types/point.go
index 74579ff..b623b6a 100644
--- a/internal/oapi/scan/types/point.go
+++ b/internal/oapi/scan/types/point.go
@@ -67,6 +67,9 @@ func (s points) Swap(i, j int) {
 
 // Less is part of sort.Interface. It is implemented by calling the "by" closure in the sorter.
 func (s points) Less(i, j int) bool {
+	if s[i].Fragment.Len() == s[j].Fragment.Len() {
+		return s[i].String() < s[j].String()
+	}
 	return s[i].Fragment.Len() < s[j].Fragment.Len()
 }
 
diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 6e2393f..3f8ec7c 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -132,10 +132,11 @@ func (tp path) visit(t types.Type) (p path, visited bool) {
 
 // type2schema will conver type to spec.Scheme
 func type2schema(t types.Type, m pointmap, tp path, tg tag.Tag) (*spec.Schema, error) {
+	orig := t
 	t = t.Underlying()
 
 	if tp.has(t) {
-		return reference2schema(t, m, tp, tg)
+		return reference2schema(orig, m, tp, tg)
 	}
 	tp = append(tp, t)
 
@@ -146,7 +147,7 @@ func type2schema(t types.Type, m pointmap, tp path, tg tag.Tag) (*spec.Schema, e
 		if len(tp) == 1 {
 			return struct2schema(u, m, tp)
 		}
-		return reference2schema(u, m, tp, tg)
+		return reference2schema(orig, m, tp, tg)
 
 	case *types.Array:
 		return array2schema(u, m, tp, tg)
@@ -200,7 +201,7 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 			switch z := x.field.Type().Underlying().(type) {
 			// struct
 			case *types.Struct:
-				pschema, err = reference2schema(z, m, tp, x.tag)
+				pschema, err = reference2schema(x.field.Type(), m, tp, x.tag)
 
 			default:
 				pschema, err = type2schema(z, m, tp, x.tag)
@@ -349,10 +350,16 @@ func AddRefOverride(p pointer.Pointer, s spec.Schema) {
 }
 
 func reference2schema(t types.Type, m pointmap, tp path, tg tag.Tag) (s *spec.Schema, err error) {
-	ptr, ok := m.pick(t)
+	ptr, ok := m.pick(t.Underlying())
 	if !ok {
 		return nil, errors.New("failed to resolve sturct")
 	}
+	// several types can share the underlying type, refer to the one used
+	if named, ok := t.(*types.Named); ok && named.Obj().Pkg() != nil {
+		if p := newPoint(named.Obj()); m.at(t.Underlying()).has(p) {
+			ptr = p
+		}
+	}
 	if sch, ok := refStdMapping[ptr.String()]; ok {
 		return &sch, nil
 	}
-- 
2.43.0


From 17582fa4ed3af397308ab7bcfd4b4a28cd3ea200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 12/82] fix: embedded struct with a name in its tag was inlined

---
 internal/oapi/scan/types/types.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 3f8ec7c..8c4c4d3 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -510,7 +510,8 @@ func castInlineStruct(t *types.Var, tg tag.Tag) (*types.Struct, bool) {
 		if tg.Inline != nil {
 			ok = *tg.Inline
 		} else {
-			ok = t.Embedded()
+			// same as encoding/json, named embedded struct is a property
+			ok = t.Embedded() && len(tg.Name) == 0
 		}
 	}
 	return st, ok
-- 
2.43.0


From 72606beb2977877f4bbefb9359c4ff406ac491de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 13/82] fix: fields of embedded unexported struct were missing

---
 internal/oapi/scan/types/types.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 8c4c4d3..0ea915b 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -56,7 +56,8 @@ func walk(r point, t types.Type, p path, m *pointmap) (err error) {
 		for i := 0; i < u.NumFields(); i++ {
 			field := u.Field(i)
 
-			if !field.Exported() {
+			// fields of embedded struct are promoted even if it is not exported
+			if !field.Exported() && !field.Embedded() {
 				continue
 			}
 
@@ -535,10 +536,13 @@ func collectStructFields(t *types.Struct, p path) (arr []structField, err error)
 		if err != nil {
 			return
 		}
-		if tx.Ignore || !x.Exported() {
+		if tx.Ignore || (!x.Exported() && !x.Embedded()) {
 			continue
 		}
 		st, ok := castInlineStruct(x, tx)
+		if !ok && !x.Exported() {
+			continue
+		}
 		if ok {
 			var z []structField
 			z, err = collectStructFields(st, p)
-- 
2.43.0


From 7b725bb2bb6df4149cbc888b180eb4458e369584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 14/82] fix: field of embedded struct replaced the outer field
 of the same name

---
 internal/oapi/scan/types/types.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 0ea915b..98fdece 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -193,7 +193,7 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 		return
 	}
 
-	for _, x := range fields {
+	for _, x := range dominantFields(fields) {
 		var pschema *spec.Schema
 
 		if len(x.tag.Type) != 0 {
@@ -521,6 +521,32 @@ func castInlineStruct(t *types.Var, tg tag.Tag) (*types.Struct, bool) {
 type structField struct {
 	field *types.Var
 	tag   tag.Tag
+	depth int
+}
+
+// name of the property
+func (f structField) name() string {
+	if len(f.tag.Name) > 0 {
+		return f.tag.Name
+	}
+	return f.field.Name()
+}
+
+// dominantFields drops fields hidden by less nested field of same name,
+// same as encoding/json does.
+func dominantFields(fields []structField) (arr []structField) {
+	for _, f := range fields {
+		hidden := false
+		for _, o := range fields {
+			if o.name() == f.name() && o.depth < f.depth {
+				hidden = true
+			}
+		}
+		if !hidden {
+			arr = append(arr, f)
+		}
+	}
+	return
 }
 
 func collectStructFields(t *types.Struct, p path) (arr []structField, err error) {
@@ -554,6 +580,7 @@ func collectStructFields(t *types.Struct, p path) (arr []structField, err error)
 			arr = append(arr, structField{
 				field: x,
 				tag:   tx,
+				depth: len(p),
 			})
 		}
 	}
-- 
2.43.0


From b7b31adc21aee7969f77cca3434e120e32c619b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 15/82] fix: descendants of one pointer overwrote each other

---
 internal/pointer/fragment.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/pointer/fragment.go b/internal/pointer/fragment.go
index 13d854d..438803f 100644
--- a/internal/pointer/fragment.go
+++ b/internal/pointer/fragment.go
@@ -97,7 +97,7 @@ func (p Fragment) Descendant(path string) (Fragment, error) {
 		return dpath, nil
 	}
 
-	return append(p, dpath...), nil
+	return append(p.Clone(), dpath...), nil
 }
 
 // RawDescendant extends the pointer with 1 or more path tokens
@@ -105,7 +105,7 @@ func (p Fragment) Descendant(path string) (Fragment, error) {
 // and assumes the user is directly managing the pointer
 // This allows for much faster pointer management
 func (p Fragment) RawDescendant(path ...string) Fragment {
-	return append(p, path...)
+	return append(p.Clone(), path...)
 }
 
 func unescapeToken(tok string) string {
-- 
2.43.0


From 016aee2e5e4c1273a3a6b5ba891aabd066410c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 16/82] fix: replacing the element behind the last one crashed
 instead of being refused

---
 internal/pointer/fragment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pointer/fragment.go b/internal/pointer/fragment.go
index 438803f..3d28424 100644
--- a/internal/pointer/fragment.go
+++ b/internal/pointer/fragment.go
@@ -65,7 +65,7 @@ func (p Fragment) Clone() Fragment {
 
 // Replace will replace element in fragment
 func (p Fragment) Replace(n int, element string) (Fragment, error) {
-	if n > len(p) || n < 0 {
+	if n >= len(p) || n < 0 {
 		return Fragment{}, errors.New("n out of range")
 	}
 	x := p.Clone()
-- 
2.43.0


From 8ceeaf703a444464776706032537485692893c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 17/82] fix: percent sign in a pointer did not survive
 formatting and parsing

---
 internal/pointer/pointer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/pointer/pointer.go b/internal/pointer/pointer.go
index fcf0656..6b78e53 100644
--- a/internal/pointer/pointer.go
+++ b/internal/pointer/pointer.go
@@ -14,6 +14,7 @@ import (
 	"fmt"
 	"net/url"
 	"strconv"
+	"strings"
 )
 
 const defaultPointerAllocationSize = 32
@@ -90,7 +91,9 @@ func (p *Pointer) MarshalJSON() ([]byte, error) {
 
 func (p Pointer) String() string {
 	p.URL.Fragment = ""
-	return fmt.Sprintf("%s#%s", p.URL.String(), p.Fragment.String())
+	// Parse decodes %XX, so literal percent sign has to be encoded
+	f := strings.Replace(p.Fragment.String(), "%", "%25", -1)
+	return fmt.Sprintf("%s#%s", p.URL.String(), f)
 }
 
 func (p Pointer) PkgPath() string {
-- 
2.43.0


From fa15c89118a4b988cb4c0736a737bf6c16dae461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 18/82] fix: pointers were encoded with go instead of json
 quoting

---
 internal/pointer/pointer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/pointer/pointer.go b/internal/pointer/pointer.go
index 6b78e53..241fb74 100644
--- a/internal/pointer/pointer.go
+++ b/internal/pointer/pointer.go
@@ -11,9 +11,9 @@
 package pointer
 
 import (
+	"encoding/json"
 	"fmt"
 	"net/url"
-	"strconv"
 	"strings"
 )
 
@@ -72,7 +72,8 @@ func (p *Pointer) UnmarshalJSON(data []byte) error {
 	if data == nil {
 		return nil
 	}
-	t, err := strconv.Unquote(string(data))
+	var t string
+	err := json.Unmarshal(data, &t)
 	if err != nil {
 		t = string(data)
 	}
@@ -85,8 +86,7 @@ func (p *Pointer) UnmarshalJSON(data []byte) error {
 }
 
 func (p *Pointer) MarshalJSON() ([]byte, error) {
-	x := fmt.Sprintf("%q", p.String())
-	return []byte(x), nil
+	return json.Marshal(p.String())
 }
 
 func (p Pointer) String() string {
-- 
2.43.0


From 96bd0b5e99b927364efc448a77a6f3442e0c682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 19/82] fix: dot path escaped dots twice so keys with dots were
 not found

---
 internal/container/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/container/utils.go b/internal/container/utils.go
index aa46e0c..85bc911 100644
--- a/internal/container/utils.go
+++ b/internal/container/utils.go
@@ -38,8 +38,8 @@ func ExtractKey(c Container, key string) (pp MapSlice, err error) {
 func SliceToDotPath(path []string) string {
 	hierarchy := make([]string, len(path))
 	for i, v := range path {
-		v = strings.Replace(v, ".", "~1", -1)
 		v = strings.Replace(v, "~", "~0", -1)
+		v = strings.Replace(v, ".", "~1", -1)
 		hierarchy[i] = v
 	}
 	return strings.Join(hierarchy, ".")
-- 
2.43.0


From 9ce8317ff352ae32ba30c2e00605efc9ca9be727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 20/82] fix: references below keys with dots or tildes were
 written to a wrong place

---
 internal/container/container.go |  9 ++++++++-
 internal/container/utils.go     | 31 ++++++++++++++++++++++++++++++-
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/internal/container/container.go b/internal/container/container.go
index c0f28b7..2994aaf 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -100,7 +100,14 @@ func ReadFile(file string) (c Container, err error) {
 //
 // Returns an error if the target is not a JSON object or array.
 func (c Container) Flatten() (map[string]interface{}, error) {
-	return c.c.Flatten()
+	switch c.Data().(type) {
+	case map[string]interface{}, []interface{}:
+	default:
+		return nil, gabs.ErrNotObjOrArray
+	}
+	flat := make(map[string]interface{})
+	flatten(nil, c.Data(), flat)
+	return flat, nil
 }
 
 // ChildrenMap returns a map of all the children of an object element. IF the
diff --git a/internal/container/utils.go b/internal/container/utils.go
index 85bc911..3b7751c 100644
--- a/internal/container/utils.go
+++ b/internal/container/utils.go
@@ -3,6 +3,8 @@ package container
 import (
 	"encoding/json"
 	"fmt"
+	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/Jeffail/gabs/v2"
@@ -15,8 +17,15 @@ func ExtractKey(c Container, key string) (pp MapSlice, err error) {
 	if err != nil {
 		return nil, err
 	}
+	keys := make([]string, 0, len(ff))
+	for k := range ff {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys) // ff is a map, this makes order stable
+
 	var ii int
-	for k, v := range ff {
+	for _, k := range keys {
+		v := ff[k]
 		x := strings.Split(k, ".")
 		if len(x) == 0 {
 			continue
@@ -34,6 +43,26 @@ func ExtractKey(c Container, key string) (pp MapSlice, err error) {
 	return pp, nil
 }
 
+// flatten stores leaves of v by their dot path. Unlike method of gabs keys
+// containing '.' or '~' are escaped, so the path leads back to the leaf.
+func flatten(path []string, v interface{}, flat map[string]interface{}) {
+	sub := func(key string) []string {
+		return append(append([]string{}, path...), key)
+	}
+	switch t := v.(type) {
+	case map[string]interface{}:
+		for k, e := range t {
+			flatten(sub(k), e, flat)
+		}
+	case []interface{}:
+		for i, e := range t {
+			flatten(sub(strconv.Itoa(i)), e, flat)
+		}
+	default:
+		flat[SliceToDotPath(path)] = v
+	}
+}
+
 // SliceToDotPath converts slice into dot path
 func SliceToDotPath(path []string) string {
 	hierarchy := make([]string, len(path))
-- 
2.43.0


From d77ceec2dae5df226546e49d0e7bf3674fbbbe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 21/82] fix: checking a scalar value for nil crashed

---
 internal/container/container.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/container/container.go b/internal/container/container.go
index 2994aaf..aa64ddb 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -141,7 +141,13 @@ func (c Container) Data() interface{} {
 
 // IsNil reports if underlying value of container is nil.
 func (c Container) IsNil() bool {
-	return c.Data() == nil || reflect.ValueOf(c.Data()).IsNil()
+	switch v := reflect.ValueOf(c.Data()); v.Kind() {
+	case reflect.Invalid:
+		return true
+	case reflect.Map, reflect.Slice, reflect.Ptr, reflect.Interface:
+		return v.IsNil()
+	}
+	return false
 }
 
 // FilePath returns file path of given container if was ReadFile was used.
-- 
2.43.0


From b6a788755bcfa517aa7bb7911cc309f9c2c72b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 22/82] fix: merging a document which cannot be copied dropped
 it silently

---
 internal/container/merge.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/container/merge.go b/internal/container/merge.go
index 5de0eb1..bdee558 100644
--- a/internal/container/merge.go
+++ b/internal/container/merge.go
@@ -1,6 +1,9 @@
 package container
 
-import "github.com/pkg/errors"
+import (
+	"github.com/Jeffail/gabs/v2"
+	"github.com/pkg/errors"
+)
 
 // Merger is function signature allowing merging
 type Merger func(destination, source interface{}) (interface{}, error)
@@ -27,7 +30,12 @@ func MergeOverride(dest, source interface{}) (interface{}, error) {
 // Which ever value is returned becomes the new value in the destination object
 // at the location of the collision.
 func (c Container) Merge(source Container, collisionFn Merger) error {
-	source = source.Clone() // make sure we are not moving pointers
+	// make sure we are not moving pointers
+	data, err := clone(source)
+	if err != nil {
+		return err
+	}
+	source = Container{c: gabs.Wrap(data), path: source.path}
 
 	var recursiveFnc func(map[string]interface{}, []string) error
 
-- 
2.43.0


From 68c4221eb68fab09090003f3f26a7bd7d6ff1efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 23/82] fix: large integers of a document were rounded

---
 internal/container/container.go |  4 +++
 internal/container/utils.go     | 43 +++++++++++++++++++++++++++++++--
 2 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/internal/container/container.go b/internal/container/container.go
index aa64ddb..9366290 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -51,6 +51,10 @@ func ReadJSON(data []byte) (c Container, err error) {
 		err = errors.Wrapf(err, "failed to unmarshal json")
 		return
 	}
+	// i has rounded numbers
+	if v, derr := decode(data); derr == nil && i != nil {
+		i, _ = v.(map[string]interface{})
+	}
 	c = wrap(i)
 	return
 }
diff --git a/internal/container/utils.go b/internal/container/utils.go
index 3b7751c..9015b50 100644
--- a/internal/container/utils.go
+++ b/internal/container/utils.go
@@ -1,6 +1,7 @@
 package container
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"sort"
@@ -84,11 +85,49 @@ func clone(c interface{}) (interface{}, error) {
 	if err != nil {
 		return nil, errors.Wrapf(err, "failed to clone interface{}")
 	}
-	var mm interface{}
-	json.Unmarshal(bb, &mm) // no need for error check
+	mm, _ := decode(bb) // no need for error check
 	return mm, nil
 }
 
+// decode works as json.Unmarshal, but integers which can't be represented by
+// float64 are not rounded.
+func decode(data []byte) (v interface{}, err error) {
+	dec := json.NewDecoder(bytes.NewReader(data))
+	dec.UseNumber()
+	err = dec.Decode(&v)
+	if err != nil {
+		return nil, err
+	}
+	return numbers(v), nil
+}
+
+// numbers replaces json.Number by float64 or by integer, see decode.
+func numbers(v interface{}) interface{} {
+	switch x := v.(type) {
+	case map[string]interface{}:
+		for k, e := range x {
+			x[k] = numbers(e)
+		}
+	case []interface{}:
+		for i, e := range x {
+			x[i] = numbers(e)
+		}
+	case json.Number:
+		f, err := x.Float64()
+		if err == nil && strconv.FormatFloat(f, 'f', -1, 64) == x.String() {
+			return f
+		}
+		if n, err := strconv.ParseInt(x.String(), 10, 64); err == nil {
+			return n
+		}
+		if n, err := strconv.ParseUint(x.String(), 10, 64); err == nil {
+			return n
+		}
+		return f
+	}
+	return v
+}
+
 // cast will cast interface to container
 func cast(c interface{}) (Container, bool) {
 	if x, ok := c.(Container); ok {
-- 
2.43.0


From 7b14ff3987d7b344062dd5a215d4980d1c40fc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 24/82] fix: order of top level keys without defined position
 was random

---
 internal/container/sort.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/container/sort.go b/internal/container/sort.go
index e6eb170..c3eb35f 100644
--- a/internal/container/sort.go
+++ b/internal/container/sort.go
@@ -111,9 +111,14 @@ func (ms MapSlice) Values() (vx []interface{}) {
 
 // sort interface support
 
-func (ms MapSlice) Len() int           { return len(ms) }
-func (ms MapSlice) Less(i, j int) bool { return ms[i].Index < ms[j].Index }
-func (ms MapSlice) Swap(i, j int)      { ms[i], ms[j] = ms[j], ms[i] }
+func (ms MapSlice) Len() int { return len(ms) }
+func (ms MapSlice) Less(i, j int) bool {
+	if ms[i].Index == ms[j].Index {
+		return ms[i].Key < ms[j].Key // otherwise order is random
+	}
+	return ms[i].Index < ms[j].Index
+}
+func (ms MapSlice) Swap(i, j int) { ms[i], ms[j] = ms[j], ms[i] }
 
 // Sort will sort items by index and return copy
 func (ms MapSlice) Sort() MapSlice {
-- 
2.43.0


From e262b0f999608219d6c2e3afee6c7e9540119c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 25/82] fix: top level keys were written with go instead of
 json quoting

---
 internal/container/sort.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/container/sort.go b/internal/container/sort.go
index c3eb35f..175c398 100644
--- a/internal/container/sort.go
+++ b/internal/container/sort.go
@@ -3,7 +3,6 @@ package container
 import (
 	"bytes"
 	"encoding/json"
-	"fmt"
 	"sort"
 
 	"gopkg.in/yaml.v2"
@@ -137,7 +136,12 @@ func (ms MapSlice) MarshalJSON() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
-		buf.WriteString(fmt.Sprintf("%q:", fmt.Sprintf("%v", mi.Key)))
+		key, err := json.Marshal(mi.Key)
+		if err != nil {
+			return nil, err
+		}
+		buf.Write(key)
+		buf.WriteByte(':')
 		buf.Write(b)
 		if i < len(ms)-1 {
 			buf.Write([]byte{','})
-- 
2.43.0


From 296dc5d40fbef9c8617e9115f5637ef376e610a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 26/82] fix: references not pointing to go types were rewritten
 while reading specs

---
 internal/oapi/scan/specs/scan.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/oapi/scan/specs/scan.go b/internal/oapi/scan/specs/scan.go
index c1f3f50..4dce8d6 100644
--- a/internal/oapi/scan/specs/scan.go
+++ b/internal/oapi/scan/specs/scan.go
@@ -60,14 +60,14 @@ func (r *Scanner) Scan(pkg *packages.Package) (err error) {
 				pf, _ := pointer.NewGoPointer(pkg.PkgPath, "")
 				pf.Fragment = p.Fragment
 				p = pf
+
+				err = c.SetP(v.Key, p.String())
+				if err != nil {
+					return err
+				}
 			}
 
 			r.Pointers[p.String()] = p
-
-			err = c.SetP(v.Key, p.String())
-			if err != nil {
-				return err
-			}
 		}
 
 		cc = append(cc, c)
-- 
2.43.0


From f42c5b50083ff760faf992e65c60499dc91ac006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 27/82] fix: specifications of two packages could not be
 merged, they always share the version

---
 internal/oapi/scan/specs/scan.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/scan/specs/scan.go b/internal/oapi/scan/specs/scan.go
index 4dce8d6..75accf8 100644
--- a/internal/oapi/scan/specs/scan.go
+++ b/internal/oapi/scan/specs/scan.go
@@ -1,6 +1,8 @@
 package specs
 
 import (
+	"reflect"
+
 	"github.com/buypal/oapi-go/internal/container"
 	"github.com/buypal/oapi-go/internal/pkgutil"
 	"github.com/buypal/oapi-go/internal/pointer"
@@ -80,5 +82,14 @@ func (r *Scanner) Scan(pkg *packages.Package) (err error) {
 
 // Merge will provide single container as result of merging.
 func (r *Scanner) Merge() (c container.Container, err error) {
-	return r.Containers.Sort().Merge(container.MergeStrict)
+	return r.Containers.Sort().Merge(mergeSame)
+}
+
+// mergeSame is strict, but all specifications are allowed to say the same,
+// at least openapi version is always there.
+func mergeSame(dest, source interface{}) (interface{}, error) {
+	if reflect.DeepEqual(dest, source) {
+		return dest, nil
+	}
+	return container.MergeStrict(dest, source)
 }
-- 
2.43.0


From 61246353f9b557d3e2379bfc76220528b7aadca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 28/82] fix: servers, tags and security lists were replaced by
 empty object

---
 internal/oapi/oapi.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index 9ed7df7..efbdbae 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -99,6 +99,24 @@ func SetPathsDefaults(cnt container.Container, defops map[string]spec.Operation)
 	return
 }
 
+// mergeLists returns merged value of key. Only objects are merged by Merge,
+// anything else (lists) is taken as it is.
+func mergeLists(z, y, merged container.Container, fn container.Merger) (interface{}, error) {
+	object := func(c container.Container) bool {
+		_, ok := c.Data().(map[string]interface{})
+		return ok || c.IsNil()
+	}
+	switch {
+	case object(z) && object(y):
+		return merged.Data(), nil
+	case y.IsNil():
+		return z.Data(), nil
+	case z.IsNil():
+		return y.Data(), nil
+	}
+	return fn(z.Data(), y.Data())
+}
+
 // MergeWithRoot will merge container with root document.
 func MergeWithRoot(root spec.OpenAPI, c container.Container) (err error) {
 	r, err := container.Make(root)
@@ -139,9 +157,17 @@ func MergeWithRoot(root spec.OpenAPI, c container.Container) (err error) {
 			return err
 		}
 
-		p, _ := container.Make(map[string]interface{}{
-			x.key: s.Data(),
+		data, err := mergeLists(z, y, s, x.merge)
+		if err != nil {
+			return err
+		}
+
+		p, err := container.Make(map[string]interface{}{
+			x.key: data,
 		})
+		if err != nil {
+			return err
+		}
 
 		err = c.Merge(p, container.MergeOverride)
 		if err != nil {
-- 
2.43.0


From 150c80128a75be7a50839a331446a9188c3c229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 29/82] fix: partial info of root wiped title and version of
 the document

---
 internal/oapi/oapi.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index efbdbae..3b987e0 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -117,6 +117,15 @@ func mergeLists(z, y, merged container.Container, fn container.Merger) (interfac
 	return fn(z.Data(), y.Data())
 }
 
+// mergeInfo is override, except that values which are not given (required ones
+// are always present) do not wipe those of document.
+func mergeInfo(dest, source interface{}) (interface{}, error) {
+	if s, ok := source.(string); ok && len(s) == 0 {
+		return dest, nil
+	}
+	return container.MergeOverride(dest, source)
+}
+
 // MergeWithRoot will merge container with root document.
 func MergeWithRoot(root spec.OpenAPI, c container.Container) (err error) {
 	r, err := container.Make(root)
@@ -130,7 +139,7 @@ func MergeWithRoot(root spec.OpenAPI, c container.Container) (err error) {
 	}
 
 	for _, x := range []mx{
-		{merge: container.MergeOverride, key: "info"},
+		{merge: mergeInfo, key: "info"},
 		{merge: container.MergeStrict, key: "components"},
 		{merge: container.MergeDefault, key: "paths"},
 		{merge: container.MergeDefault, key: "externalDocs"},
-- 
2.43.0


From 8a10f91eac755c19f37732dd0cadc8ecda5125a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 30/82] fix: scopes of oauth flow were lost because of
 misspelled key

---
 internal/oapi/spec/oauth_flow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/oapi/spec/oauth_flow.go b/internal/oapi/spec/oauth_flow.go
index 64ba753..1a6709b 100644
--- a/internal/oapi/spec/oauth_flow.go
+++ b/internal/oapi/spec/oauth_flow.go
@@ -23,5 +23,5 @@ type OAuthFlow struct {
 	// REQUIRED.
 	// The available scopes for the OAuth2 security scheme.
 	// A map between the scope name and a short description for it.
-	Acopes map[string]string `json:"acopes,omitempty"`
+	Scopes map[string]string `json:"scopes,omitempty"`
 }
-- 
2.43.0


From 69f97fe2d30fa405b068a58dc7dc58c83162ef72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 31/82] fix: explode was added to parameters which do not set
 it and lost where its default is true

---
 internal/oapi/spec/encoding.go  | 2 +-
 internal/oapi/spec/header.go    | 2 +-
 internal/oapi/spec/parameter.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/oapi/spec/encoding.go b/internal/oapi/spec/encoding.go
index e3c8827..da7a1ec 100644
--- a/internal/oapi/spec/encoding.go
+++ b/internal/oapi/spec/encoding.go
@@ -25,7 +25,7 @@ type Encoding struct {
 	// When style is form, the default value is true.
 	// For all other styles, the default value is false.
 	// This property SHALL be ignored if the request body media type is not application/x-www-form-urlencoded.
-	Explode bool `json:"explode,omitempty"`
+	Explode *bool `json:"explode,omitempty"`
 
 	// Determines whether the parameter value SHOULD allow reserved characters, as defined by RFC3986 :/?#[]@!$&'()*+,;= to be included without percent-encoding.
 	// The default value is false.
diff --git a/internal/oapi/spec/header.go b/internal/oapi/spec/header.go
index bdd600e..3b48abf 100644
--- a/internal/oapi/spec/header.go
+++ b/internal/oapi/spec/header.go
@@ -37,7 +37,7 @@ type Header struct {
 	// For other types of parameters this property has no effect.
 	// When style is form, the default value is true.
 	// For all other styles, the default value is false.
-	Explode bool `json:"explode"`
+	Explode *bool `json:"explode,omitempty"`
 
 	// Determines whether the parameter value SHOULD allow reserved characters, as defined by RFC3986 :/?#[]@!$&'()*+,;= to be included without percent-encoding.
 	// This property only applies to parameters with an in value of query.
diff --git a/internal/oapi/spec/parameter.go b/internal/oapi/spec/parameter.go
index d1e95f3..3ded5eb 100644
--- a/internal/oapi/spec/parameter.go
+++ b/internal/oapi/spec/parameter.go
@@ -59,7 +59,7 @@ type Parameter struct {
 	// For other types of parameters this property has no effect.
 	// When style is form, the default value is true.
 	// For all other styles, the default value is false.
-	Explode bool `json:"explode"`
+	Explode *bool `json:"explode,omitempty"`
 
 	// Determines whether the parameter value SHOULD allow reserved characters, as defined by RFC3986 :/?#[]@!$&'()*+,;= to be included without percent-encoding.
 	// This property only applies to parameters with an in value of query.
-- 
2.43.0


From 2ed2ee2c273139964944cbd36f4fb112527801f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 32/82] fix: null content and example value were added to
 objects without them

---
 internal/oapi/spec/example.go      | 2 +-
 internal/oapi/spec/request_body.go | 2 +-
 internal/oapi/spec/response.go     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/oapi/spec/example.go b/internal/oapi/spec/example.go
index b1fa7bb..9612c11 100644
--- a/internal/oapi/spec/example.go
+++ b/internal/oapi/spec/example.go
@@ -13,7 +13,7 @@ type Example struct {
 	// Embedded literal example.
 	// The value field and externalValue field are mutually exclusive.
 	// To represent examples of media types that cannot naturally represented in JSON or YAML, use a string value to contain the example, escaping where necessary.
-	Value Any `json:"value"`
+	Value Any `json:"value,omitempty"`
 
 	// A URL that points to the literal example.
 	// This provides the capability to reference examples that cannot easily be included in JSON or YAML documents.
diff --git a/internal/oapi/spec/request_body.go b/internal/oapi/spec/request_body.go
index 9c81121..5decb31 100644
--- a/internal/oapi/spec/request_body.go
+++ b/internal/oapi/spec/request_body.go
@@ -14,7 +14,7 @@ type RequestBody struct {
 	// The key is a media type or media type range and the value describes it.
 	// For requests that match multiple keys, only the most specific key is applicable.
 	// e.g. text/plain overrides text/*
-	Content map[string]*MediaType `json:"content"`
+	Content map[string]*MediaType `json:"content,omitempty"`
 
 	// Determines if the request body is required in the request.
 	// Defaults to false.
diff --git a/internal/oapi/spec/response.go b/internal/oapi/spec/response.go
index 1a70b50..7841fd9 100644
--- a/internal/oapi/spec/response.go
+++ b/internal/oapi/spec/response.go
@@ -18,7 +18,7 @@ type Response struct {
 	// The key is a media type or media type range and the value describes it.
 	// For responses that match multiple keys, only the most specific key is applicable.
 	// e.g. text/plain overrides text/*
-	Content map[string]*MediaType `json:"content"`
+	Content map[string]*MediaType `json:"content,omitempty"`
 
 	// A map of operations links that can be followed from the response.
 	// The key of the map is a short name for the link, following the naming constraints of the names for Component Objects.
-- 
2.43.0


From f022ab601458704fa7e1d8e9f06904c59a5c832f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 33/82] fix: failed run ended with exit code 0 and wrote empty
 output

---
 cmd/oapi/main.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/cmd/oapi/main.go b/cmd/oapi/main.go
index 5f28553..6b71616 100644
--- a/cmd/oapi/main.go
+++ b/cmd/oapi/main.go
@@ -38,9 +38,15 @@ func main() {
 		log = logging.Void()
 	}
 
+	// logging does not exit, and it might not even print anything
+	fatal := func(msg string, args ...interface{}) {
+		logging.Fatal(log, msg, args...)
+		os.Exit(1)
+	}
+
 	config, err := cfg.full()
 	if err != nil {
-		logging.Fatal(log, "err config: %s", err.Error())
+		fatal("err config: %s", err.Error())
 	}
 
 	go func() {
@@ -51,12 +57,12 @@ func main() {
 
 	spec, err := scan(ctx, log, config)
 	if err != nil {
-		logging.Fatal(log, "err during scan: %s", err.Error())
+		fatal("err during scan: %s", err.Error())
 	}
 
 	data, err := oapi.Format(config.Format, spec)
 	if err != nil {
-		logging.Fatal(log, "err during format: %s", err.Error())
+		fatal("err during format: %s", err.Error())
 	}
 
 	var w io.Writer
@@ -69,16 +75,16 @@ func main() {
 	default:
 		err = os.Remove(config.Output)
 		if err != nil {
-			logging.Fatal(log, err.Error())
+			fatal("%s", err.Error())
 		}
 		w, err = os.OpenFile(config.Output, os.O_RDWR|os.O_CREATE, 0755)
 		if err != nil {
-			logging.Fatal(log, err.Error())
+			fatal("%s", err.Error())
 		}
 	}
 
 	_, err = io.Copy(w, bytes.NewBuffer(data))
 	if err != nil {
-		logging.Fatal(log, err.Error())
+		fatal("%s", err.Error())
 	}
 }
-- 
2.43.0


From d54181378f3a353f5af3b518fd8a38cdabd2e336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 34/82] fix: output file which does not exist yet could not be
 written

---
 cmd/oapi/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/oapi/main.go b/cmd/oapi/main.go
index 6b71616..f8ec90d 100644
--- a/cmd/oapi/main.go
+++ b/cmd/oapi/main.go
@@ -74,7 +74,7 @@ func main() {
 		w = os.Stderr
 	default:
 		err = os.Remove(config.Output)
-		if err != nil {
+		if err != nil && !os.IsNotExist(err) {
 			fatal("%s", err.Error())
 		}
 		w, err = os.OpenFile(config.Output, os.O_RDWR|os.O_CREATE, 0755)
-- 
2.43.0


From d807dc03696d35d983b3b9094e4140f9608b6bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 35/82] fix: stderr output was ignored and stdout flag did not
 overrule config

---
 cmd/oapi/config.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/oapi/config.go b/cmd/oapi/config.go
index ef1e76e..81f3d49 100644
--- a/cmd/oapi/config.go
+++ b/cmd/oapi/config.go
@@ -98,6 +98,7 @@ func (ff Config) full() (cfg config.Config, err error) {
 	if len(cfg.Output) > 0 {
 		switch cfg.Output {
 		case "stderr", "stdout":
+			output = cfg.Output
 		default:
 			output = toAbsPath(cfg.Output, cfg.Dir)
 		}
@@ -105,6 +106,7 @@ func (ff Config) full() (cfg config.Config, err error) {
 	if len(ff.Output) > 0 {
 		switch ff.Output {
 		case "stderr", "stdout":
+			output = ff.Output
 		default:
 			output = toAbsPath(ff.Output, wd)
 		}
-- 
2.43.0


From faf120aba1eb2861fb3058ccfc6aa32f8ee0b169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 36/82] fix: defaults of operations were merged to summary and
 parameters of path

---
 internal/oapi/oapi.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index 3b987e0..393b857 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -1,6 +1,8 @@
 package oapi
 
 import (
+	"strings"
+
 	"github.com/buypal/oapi-go/internal/container"
 	"github.com/buypal/oapi-go/internal/oapi/spec"
 	"github.com/buypal/oapi-go/internal/route"
@@ -33,6 +35,18 @@ func (fp FlattenPaths) Match(pattern string) (xx FlattenPaths, err error) {
 	return
 }
 
+// operations of path item, other keys (summary, parameters) are not operations
+var operations = map[string]bool{
+	"get":     true,
+	"put":     true,
+	"post":    true,
+	"delete":  true,
+	"options": true,
+	"head":    true,
+	"patch":   true,
+	"trace":   true,
+}
+
 // Paths will parse paths in oapi container and return array of paths.
 func Paths(cnt container.Container) (ff FlattenPaths, err error) {
 	paths, err := cnt.Path("paths").ChildrenMap()
@@ -47,6 +61,9 @@ func Paths(cnt container.Container) (ff FlattenPaths, err error) {
 			return
 		}
 		for m, obj := range mx {
+			if !operations[strings.ToLower(m)] {
+				continue
+			}
 			ff = append(ff, FlattenPath{
 				Method:    m,
 				Path:      path,
-- 
2.43.0


From 83685109d23af8bd2238f78aeab188a82ab29720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 37/82] fix: defaults of operation matched by more patterns
 were random

---
 internal/oapi/oapi.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index 393b857..1be203f 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -1,6 +1,7 @@
 package oapi
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/buypal/oapi-go/internal/container"
@@ -86,7 +87,15 @@ func SetPathsDefaults(cnt container.Container, defops map[string]spec.Operation)
 		return
 	}
 
-	for pattern, override := range defops {
+	patterns := make([]string, 0, len(defops))
+	for pattern := range defops {
+		patterns = append(patterns, pattern)
+	}
+	sort.Strings(patterns) // defops is a map, this makes result stable
+
+	for _, pattern := range patterns {
+		override := defops[pattern]
+
 		var ff FlattenPaths
 		ff, err = paths.Match(pattern)
 		if err != nil {
-- 
2.43.0


From f82458c4cca00fdca7f8ad14471d2ff5ce7c6e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 38/82] fix: rest of route behind the last variable was used as
 regular expression

---
 internal/route/route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/route/route.go b/internal/route/route.go
index 7b12c59..fe28757 100644
--- a/internal/route/route.go
+++ b/internal/route/route.go
@@ -87,7 +87,7 @@ func Match(pattern, method, path string) (bool, error) {
 		}
 		last = j
 	}
-	pettern := strings.Join(append(parts, pattern[last:]), "")
+	pettern := strings.Join(append(parts, regexp.QuoteMeta(pattern[last:])), "")
 	reg, err := compileCached(pettern)
 	if err != nil {
 		return false, err
-- 
2.43.0


From 2904ee16d05582302bc611f2e0659233bd3a2f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 39/82] fix: malformed pointer of exported schema was accepted

---
 internal/oapi/scan/cmds/schema.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/oapi/scan/cmds/schema.go b/internal/oapi/scan/cmds/schema.go
index 114083f..7d65841 100644
--- a/internal/oapi/scan/cmds/schema.go
+++ b/internal/oapi/scan/cmds/schema.go
@@ -43,6 +43,9 @@ func NewCmdSchema(cmd CmdBase) (s Commander, err error) {
 		}
 		sx.Name = name
 		sx.Ptr, err = makePtr(name)
+		if err != nil {
+			return nil, errors.Wrap(err, rerr.Error())
+		}
 		return sx, nil
 	case 2:
 		if invalid(nok, name) {
@@ -53,6 +56,9 @@ func NewCmdSchema(cmd CmdBase) (s Commander, err error) {
 		}
 		sx.Name = name
 		sx.Ptr, err = makePtr(ptr)
+		if err != nil {
+			return nil, errors.Wrap(err, rerr.Error())
+		}
 		return sx, nil
 	default:
 		return nil, errors.New("invalid number of arguments")
-- 
2.43.0


From 7726c558ee44ac301e5fa3ee72a35ca1feeb968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 40/82] fix: schema exported by uri alone was named by the
 whole uri

---
 internal/oapi/scan/cmds/schema.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/oapi/scan/cmds/schema.go b/internal/oapi/scan/cmds/schema.go
index 7d65841..8d02501 100644
--- a/internal/oapi/scan/cmds/schema.go
+++ b/internal/oapi/scan/cmds/schema.go
@@ -46,6 +46,10 @@ func NewCmdSchema(cmd CmdBase) (s Commander, err error) {
 		if err != nil {
 			return nil, errors.Wrap(err, rerr.Error())
 		}
+		// source given as uri is named after the type
+		if last, ok := sx.Ptr.Fragment.Last(); ok {
+			sx.Name = last
+		}
 		return sx, nil
 	case 2:
 		if invalid(nok, name) {
-- 
2.43.0


From 7020f81e511581195e1a78240b327c04cf111ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 41/82] fix: schema exported under name of another one replaced
 it silently

---
 internal/oapi/scan/cmds/scan.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/oapi/scan/cmds/scan.go b/internal/oapi/scan/cmds/scan.go
index c3b1b2c..3f1fae6 100644
--- a/internal/oapi/scan/cmds/scan.go
+++ b/internal/oapi/scan/cmds/scan.go
@@ -53,6 +53,8 @@ func (r *Scanner) ExportedComponents() (exports resolver.Exports, err error) {
 		cc = append(cc, cmd...)
 	}
 
+	names := make(map[string]bool)
+
 	for _, cmd := range cc {
 		switch x := cmd.(type) {
 		case CmdSchema:
@@ -60,6 +62,11 @@ func (r *Scanner) ExportedComponents() (exports resolver.Exports, err error) {
 				err = errors.Errorf("schema of type %q already registered", x.Name)
 				return
 			}
+			if names[x.Name] {
+				err = errors.Errorf("schema of name %q already registered", x.Name)
+				return
+			}
+			names[x.Name] = true
 			entity := resolver.Entity{
 				Entity: spec.SchemaKind,
 				Name:   x.Name,
-- 
2.43.0


From e28cba798e7d5e6a45e447092efaf9e7f641b7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 42/82] fix: exported schema with dot in its name was stored as
 nested object

---
 internal/oapi/resolver/utils.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/oapi/resolver/utils.go b/internal/oapi/resolver/utils.go
index f95e3bc..dcd4aa3 100644
--- a/internal/oapi/resolver/utils.go
+++ b/internal/oapi/resolver/utils.go
@@ -18,13 +18,12 @@ type Entity struct {
 
 // Path returns dot path.
 func (pe Entity) Path() string {
-	return fmt.Sprintf("%s.%s", pe.Entity.Path(), pe.Name)
+	return fmt.Sprintf("%s.%s", pe.Entity.Path(), container.SliceToDotPath([]string{pe.Name}))
 }
 
 // Fragment return fragment path
 func (pe Entity) Fragment() pointer.Fragment {
-	f, _ := pe.Entity.Fragment().Descendant(pe.Name)
-	return f
+	return pe.Entity.Fragment().RawDescendant(pe.Name)
 }
 
 // IsScheme reports if entitiy is scheme
-- 
2.43.0


From 30d790bb234535215048e29c96769fef7994a36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 43/82] fix: override being just a reference was not resolved

---
 internal/oapi/resolver/resolver.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/oapi/resolver/resolver.go b/internal/oapi/resolver/resolver.go
index aa43203..dfa32dd 100644
--- a/internal/oapi/resolver/resolver.go
+++ b/internal/oapi/resolver/resolver.go
@@ -77,7 +77,14 @@ func (r resolver) iterator(cx container.Container, pp path, dept int) (container
 			continue
 		}
 
+		// the container itself is to be replaced, there is no key to be set
+		_, exported := r.exp.Get(p)
+		whole := v.Key == "$ref" && !exported
+
 		if pp.has(p) {
+			if whole {
+				return container.New(), nil
+			}
 			err = r.setRecursive(cx, p, v.Key)
 			if err != nil {
 				return zero, err
@@ -95,6 +102,10 @@ func (r resolver) iterator(cx container.Container, pp path, dept int) (container
 			return zero, err
 		}
 
+		if whole {
+			return nc, nil
+		}
+
 		err = r.set(cx, p, v.Key, nc)
 		if err != nil {
 			return zero, err
-- 
2.43.0


From 87959275cf9046c1e011f2739aa7355150cd37ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 44/82] fix: exported component was cut depending on place it
 was referenced from

---
 internal/oapi/resolver/resolver.go | 84 +++++++++++++++---------------
 1 file changed, 41 insertions(+), 43 deletions(-)

diff --git a/internal/oapi/resolver/resolver.go b/internal/oapi/resolver/resolver.go
index dfa32dd..fe5f08c 100644
--- a/internal/oapi/resolver/resolver.go
+++ b/internal/oapi/resolver/resolver.go
@@ -41,17 +41,19 @@ func (r Fn) call(p pointer.Pointer) (container.Container, error) {
 // Resolve will resolve all references (pointers) in given scheme
 func Resolve(c container.Container, exp Exports, fn Fn) (container.Container, error) {
 	r := &resolver{
-		con: c.Clone(),
-		exp: exp,
-		res: fn,
+		con:  c.Clone(),
+		exp:  exp,
+		res:  fn,
+		done: make(map[string]bool),
 	}
 	return r.resolve()
 }
 
 type resolver struct {
-	con container.Container
-	exp Exports
-	res Fn
+	con  container.Container
+	exp  Exports
+	res  Fn
+	done map[string]bool // exported components already set
 }
 
 func (r resolver) resolve() (container.Container, error) {
@@ -77,36 +79,36 @@ func (r resolver) iterator(cx container.Container, pp path, dept int) (container
 			continue
 		}
 
-		// the container itself is to be replaced, there is no key to be set
-		_, exported := r.exp.Get(p)
-		whole := v.Key == "$ref" && !exported
-
-		if pp.has(p) {
-			if whole {
-				return container.New(), nil
+		if ep, ok := r.exp.Get(p); ok {
+			err = r.export(ep)
+			if err != nil {
+				return zero, err
 			}
-			err = r.setRecursive(cx, p, v.Key)
+			err = UpdatePtrToLocal(cx, v.Key, ep.Entity.Fragment())
 			if err != nil {
 				return zero, err
 			}
 			continue
 		}
 
-		nc, err := r.res.call(p)
-		if err != nil {
-			return zero, err
-		}
-
-		nc, err = r.iterator(nc, append(pp, p), dept+1)
-		if err != nil {
-			return zero, err
+		nc := container.New() // recursive reference
+		if !pp.has(p) {
+			nc, err = r.res.call(p)
+			if err != nil {
+				return zero, err
+			}
+			nc, err = r.iterator(nc, append(pp, p), dept+1)
+			if err != nil {
+				return zero, err
+			}
 		}
 
-		if whole {
+		// the container itself is to be replaced, there is no key to be set
+		if v.Key == "$ref" {
 			return nc, nil
 		}
 
-		err = r.set(cx, p, v.Key, nc)
+		err = ReplacePtr(cx, v.Key, nc)
 		if err != nil {
 			return zero, err
 		}
@@ -114,30 +116,26 @@ func (r resolver) iterator(cx container.Container, pp path, dept int) (container
 	return cx, nil
 }
 
-// set will set in container key to be a value, if
-// exported sets as global value
-func (r *resolver) set(cx container.Container, ptr pointer.Pointer, key string, value container.Container) (err error) {
-	ep, ok := r.exp.Get(ptr)
-	if !ok {
-		return ReplacePtr(cx, key, value)
-	}
-	e := EntityValue{
-		Entity: ep.Entity,
-		Value:  value,
+// export will set exported component as global value. It is resolved on its
+// own, so its content does not depend on the place it is referenced from.
+func (r *resolver) export(ep Pointer) (err error) {
+	if r.done[ep.String()] {
+		return
 	}
-	err = SetEntity(r.con, key, e)
+	r.done[ep.String()] = true
+
+	value, err := r.res.call(ep.Pointer)
 	if err != nil {
 		return
 	}
-	return UpdatePtrToLocal(cx, key, e.Fragment())
-}
-
-func (r *resolver) setRecursive(cx container.Container, ptr pointer.Pointer, key string) (err error) {
-	ep, ok := r.exp.Get(ptr)
-	if ok && ep.IsScheme() {
-		return UpdatePtrToLocal(cx, key, ep.Entity.Fragment())
+	value, err = r.iterator(value, path{ep.Pointer}, 1)
+	if err != nil {
+		return
 	}
-	return ReplacePtrWithEmptyObject(cx, key)
+	return SetEntity(r.con, ep.Entity.Path(), EntityValue{
+		Entity: ep.Entity,
+		Value:  value,
+	})
 }
 
 type path []pointer.Pointer
-- 
2.43.0


From 1572cb74e8e02ef5c726c1fb3b3dfabb8434ff71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 45/82] fix: exported schema silently replaced component of the
 same name

---
 internal/oapi/resolver/resolver.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/oapi/resolver/resolver.go b/internal/oapi/resolver/resolver.go
index fe5f08c..c310e97 100644
--- a/internal/oapi/resolver/resolver.go
+++ b/internal/oapi/resolver/resolver.go
@@ -4,6 +4,7 @@ import (
 	"github.com/buypal/oapi-go/internal/container"
 	"github.com/buypal/oapi-go/internal/oapi/spec"
 	"github.com/buypal/oapi-go/internal/pointer"
+	"github.com/pkg/errors"
 )
 
 var zero = container.Zero()
@@ -124,6 +125,10 @@ func (r *resolver) export(ep Pointer) (err error) {
 	}
 	r.done[ep.String()] = true
 
+	if r.con.ExistsP(ep.Entity.Path()) {
+		return errors.Errorf("exported schema %q already exists in components", ep.Name)
+	}
+
 	value, err := r.res.call(ep.Pointer)
 	if err != nil {
 		return
-- 
2.43.0


From 3e9d7aab328f93a115f238af4dfc08efd89e8521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 46/82] fix: references inside of siblings of resolved
 reference were added to the result

---
 internal/oapi/resolver/resolver.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/oapi/resolver/resolver.go b/internal/oapi/resolver/resolver.go
index c310e97..aa6bd37 100644
--- a/internal/oapi/resolver/resolver.go
+++ b/internal/oapi/resolver/resolver.go
@@ -1,6 +1,8 @@
 package resolver
 
 import (
+	"strings"
+
 	"github.com/buypal/oapi-go/internal/container"
 	"github.com/buypal/oapi-go/internal/oapi/spec"
 	"github.com/buypal/oapi-go/internal/pointer"
@@ -67,7 +69,13 @@ func (r resolver) iterator(cx container.Container, pp path, dept int) (container
 		return cx, err
 	}
 
+	var replaced []string
+
 	for _, v := range refs {
+		// siblings of reference are gone
+		if within(replaced, v.Key) {
+			continue
+		}
 		s, ok := v.Val.(string)
 		if !ok {
 			continue
@@ -113,6 +121,7 @@ func (r resolver) iterator(cx container.Container, pp path, dept int) (container
 		if err != nil {
 			return zero, err
 		}
+		replaced = append(replaced, strings.TrimSuffix(v.Key, "$ref"))
 	}
 	return cx, nil
 }
@@ -143,6 +152,15 @@ func (r *resolver) export(ep Pointer) (err error) {
 	})
 }
 
+func within(prefixes []string, key string) bool {
+	for _, p := range prefixes {
+		if strings.HasPrefix(key, p) {
+			return true
+		}
+	}
+	return false
+}
+
 type path []pointer.Pointer
 
 func (p path) has(px pointer.Pointer) bool {
-- 
2.43.0


From a045c74852ffdb068b9e11e3ea322de1de66a912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 47/82] fix: references of root schema, default operations and
 overrides were not resolved

---
 internal/oapi/oapi.go              | 43 ++++++++++++++++++++++++------
 internal/oapi/resolver/resolver.go | 25 ++++++++++++++++-
 oapi.go                            | 42 +++++++++++++++++++++++++++--
 3 files changed, 99 insertions(+), 11 deletions(-)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index 1be203f..d4f57f6 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -82,6 +82,39 @@ func Paths(cnt container.Container) (ff FlattenPaths, err error) {
 // apply default on each path. This might be useful for
 // supplying default headers or default responses.
 func SetPathsDefaults(cnt container.Container, defops map[string]spec.Operation) (err error) {
+	defaults, err := MatchingDefaults(cnt, defops)
+	if err != nil {
+		return
+	}
+	return MergeDefaults(cnt, defaults)
+}
+
+// MatchingDefaults returns defaults which match at least one path.
+func MatchingDefaults(cnt container.Container, defops map[string]spec.Operation) (cc map[string]container.Container, err error) {
+	paths, err := Paths(cnt)
+	if err != nil {
+		return
+	}
+	cc = make(map[string]container.Container)
+	for pattern, op := range defops {
+		var ff FlattenPaths
+		ff, err = paths.Match(pattern)
+		if err != nil {
+			return
+		}
+		if len(ff) == 0 {
+			continue
+		}
+		cc[pattern], err = container.Make(op)
+		if err != nil {
+			return
+		}
+	}
+	return
+}
+
+// MergeDefaults is SetPathsDefaults with operations already being containers.
+func MergeDefaults(cnt container.Container, defops map[string]container.Container) (err error) {
 	paths, err := Paths(cnt)
 	if err != nil {
 		return
@@ -102,15 +135,9 @@ func SetPathsDefaults(cnt container.Container, defops map[string]spec.Operation)
 			return
 		}
 		for _, f := range ff {
-			var nc, ov container.Container
-			nc = f.Operation
-
-			ov, err = container.Make(override)
-			if err != nil {
-				return
-			}
+			nc := f.Operation
 
-			err = nc.Merge(ov, container.MergeDefault)
+			err = nc.Merge(override, container.MergeDefault)
 			if err != nil {
 				return
 			}
diff --git a/internal/oapi/resolver/resolver.go b/internal/oapi/resolver/resolver.go
index aa6bd37..f027438 100644
--- a/internal/oapi/resolver/resolver.go
+++ b/internal/oapi/resolver/resolver.go
@@ -43,13 +43,36 @@ func (r Fn) call(p pointer.Pointer) (container.Container, error) {
 
 // Resolve will resolve all references (pointers) in given scheme
 func Resolve(c container.Container, exp Exports, fn Fn) (container.Container, error) {
+	c, _, err := ResolveWith(c, nil, exp, fn)
+	return c, err
+}
+
+// ResolveWith resolves scheme and fragments to be used in it later. Components
+// exported by fragments are set in scheme as well.
+func ResolveWith(
+	c container.Container,
+	fragments map[string]container.Container,
+	exp Exports,
+	fn Fn,
+) (container.Container, map[string]container.Container, error) {
 	r := &resolver{
 		con:  c.Clone(),
 		exp:  exp,
 		res:  fn,
 		done: make(map[string]bool),
 	}
-	return r.resolve()
+	c, err := r.resolve()
+	if err != nil {
+		return zero, nil, err
+	}
+	resolved := make(map[string]container.Container, len(fragments))
+	for k, f := range fragments {
+		resolved[k], err = r.iterator(f.Clone(), path{}, 0)
+		if err != nil {
+			return zero, nil, err
+		}
+	}
+	return c, resolved, nil
 }
 
 type resolver struct {
diff --git a/oapi.go b/oapi.go
index 4d8d611..7e6d010 100644
--- a/oapi.go
+++ b/oapi.go
@@ -63,6 +63,32 @@ func (opts *Options) path() (dir string, err error) {
 	return
 }
 
+// pointers returns references to go types used in options.
+func (opts *Options) pointers() (pp pointer.Pointers, err error) {
+	c, err := container.Make([]interface{}{opts.root, opts.override, opts.defops})
+	if err != nil {
+		return
+	}
+	refs, err := container.ExtractKey(c, "$ref")
+	if err != nil {
+		return
+	}
+	pp = make(pointer.Pointers)
+	for _, v := range refs {
+		s, ok := v.Val.(string)
+		if !ok {
+			continue
+		}
+		var p pointer.Pointer
+		p, err = pointer.Parse(s)
+		if err != nil {
+			return
+		}
+		pp[p.String()] = p
+	}
+	return
+}
+
 // Option for .Scan() method
 type Option func(*Options) error
 
@@ -168,6 +194,13 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 	pp = pp.Merge(cmdsScanner.Commands.Pointers())
 	pp = pp.Merge(specsScanner.Pointers)
 
+	// references are not only in specifications
+	optsPtrs, err := opts.pointers()
+	if err != nil {
+		return
+	}
+	pp = pp.Merge(optsPtrs)
+
 	// collect and handle types
 	tps := types.NewScanner(pp)
 	err = pkgutil.Scan(pkgs, tps)
@@ -180,7 +213,12 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 		return
 	}
 
-	cnt, err := resolver.Resolve(c, exports, func(ptr pointer.Pointer) (e spec.Entiter, err error) {
+	defaults, err := oapi.MatchingDefaults(c, opts.defops)
+	if err != nil {
+		return
+	}
+
+	cnt, defaults, err := resolver.ResolveWith(c, defaults, exports, func(ptr pointer.Pointer) (e spec.Entiter, err error) {
 		if ovrd, ok := opts.override[ptr.String()]; ok {
 			return ovrd, nil
 		}
@@ -196,7 +234,7 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 		return
 	}
 
-	err = oapi.SetPathsDefaults(cnt, opts.defops)
+	err = oapi.MergeDefaults(cnt, defaults)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From ed0f0f936af288ff40eef8bf9a28f1b7ee7bc03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 48/82] fix: empty optional fields were added to objects of
 config

---
 internal/oapi/spec/contact.go         | 2 +-
 internal/oapi/spec/encoding.go        | 2 +-
 internal/oapi/spec/external_docs.go   | 2 +-
 internal/oapi/spec/parameter.go       | 4 ++--
 internal/oapi/spec/security_scheme.go | 2 +-
 internal/oapi/spec/xml.go             | 2 +-
 6 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/oapi/spec/contact.go b/internal/oapi/spec/contact.go
index 00148b8..c4c556d 100644
--- a/internal/oapi/spec/contact.go
+++ b/internal/oapi/spec/contact.go
@@ -4,7 +4,7 @@ package spec
 type Contact struct {
 
 	// The identifying name of the contact person/organization.
-	Name string `json:"name"`
+	Name string `json:"name,omitempty"`
 
 	// The URL pointing to the contact information.
 	// MUST be in the format of a URL.
diff --git a/internal/oapi/spec/encoding.go b/internal/oapi/spec/encoding.go
index da7a1ec..f363774 100644
--- a/internal/oapi/spec/encoding.go
+++ b/internal/oapi/spec/encoding.go
@@ -7,7 +7,7 @@ type Encoding struct {
 	// Default value depends on the property type: for string with format being binary â€“ application/octet-stream;
 	// for other primitive types â€“ text/plain; for object - application/json; for array â€“ the default is defined based on the inner type.
 	// The value can be a specific media type (e.g. application/json), a wildcard media type (e.g. image/*), or a comma-separated list of the two types.
-	ContentType string `json:"contentType"`
+	ContentType string `json:"contentType,omitempty"`
 
 	// A map allowing additional information to be provided as headers, for example Content-Disposition.
 	// Content-Type is described separately and SHALL be ignored in this section.
diff --git a/internal/oapi/spec/external_docs.go b/internal/oapi/spec/external_docs.go
index 3aa5e16..428b461 100644
--- a/internal/oapi/spec/external_docs.go
+++ b/internal/oapi/spec/external_docs.go
@@ -5,7 +5,7 @@ type ExternalDocumentation struct {
 
 	// A short description of the target documentation.
 	// CommonMark syntax MAY be used for rich text representation.
-	Description string `json:"description"`
+	Description string `json:"description,omitempty"`
 
 	// REQUIRED.
 	// The URL for the target documentation.
diff --git a/internal/oapi/spec/parameter.go b/internal/oapi/spec/parameter.go
index 3ded5eb..43586b9 100644
--- a/internal/oapi/spec/parameter.go
+++ b/internal/oapi/spec/parameter.go
@@ -22,12 +22,12 @@ type Parameter struct {
 	// See Path Templating for further information.
 	// If in is "header" and the name field is "Accept", "Content-Type" or "Authorization", the parameter definition SHALL be ignored.
 	// For all other cases, the name corresponds to the parameter name used by the in property.
-	Name string `json:"name"`
+	Name string `json:"name,omitempty"`
 
 	// REQUIRED.
 	// The location of the parameter.
 	// Possible values are "query", "header", "path" or "cookie".
-	In string `json:"in"`
+	In string `json:"in,omitempty"`
 
 	// A brief description of the parameter.
 	// This could contain examples of use.
diff --git a/internal/oapi/spec/security_scheme.go b/internal/oapi/spec/security_scheme.go
index eae1765..cfb8e8c 100644
--- a/internal/oapi/spec/security_scheme.go
+++ b/internal/oapi/spec/security_scheme.go
@@ -7,7 +7,7 @@ type SecurityScheme struct {
 	// Any	REQUIRED.
 	// The type of the security scheme.
 	// Valid values are "apiKey", "http", "oauth2", "openIdConnect".
-	Type string `json:"type"`
+	Type string `json:"type,omitempty"`
 
 	// Any	A short description for security scheme.
 	// CommonMark syntax MAY be used for rich text representation.
diff --git a/internal/oapi/spec/xml.go b/internal/oapi/spec/xml.go
index a9245e1..9d57821 100644
--- a/internal/oapi/spec/xml.go
+++ b/internal/oapi/spec/xml.go
@@ -9,7 +9,7 @@ type XML struct {
 	// When defined within items, it will affect the name of the individual XML elements within the list.
 	// When defined alongside type being array (outside the items), it will affect the wrapping element and only if wrapped is true.
 	// If wrapped is false, it will be ignored.
-	Name string `json:"name"`
+	Name string `json:"name,omitempty"`
 
 	// The URI of the namespace definition.
 	// Value MUST be in the form of an absolute URI.
-- 
2.43.0


From e29cd9cbc8d7bb9f69f0f13f1163692b7937293e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 49/82] fix: config with boolean additionalProperties was
 refused

---
 internal/oapi/spec/schema.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/oapi/spec/schema.go b/internal/oapi/spec/schema.go
index 7a0a9b9..bef6485 100644
--- a/internal/oapi/spec/schema.go
+++ b/internal/oapi/spec/schema.go
@@ -1,5 +1,7 @@
 package spec
 
+import "encoding/json"
+
 // Schema The Schema Object allows the definition of input and output data types.
 // These types can be objects, but also primitives and arrays.
 // This object is an extended subset of the JSON Schema Specification Wright Draft 00.
@@ -125,3 +127,19 @@ type Schema struct {
 func (s Schema) Entity() Entity {
 	return SchemaKind
 }
+
+// UnmarshalJSON unmarshals schema, which can be also boolean as value of
+// additionalProperties.
+func (s *Schema) UnmarshalJSON(data []byte) error {
+	type schema Schema // without methods
+
+	switch string(data) {
+	case "true":
+		*s = Schema{}
+		return nil
+	case "false":
+		*s = Schema{Not: &Schema{}}
+		return nil
+	}
+	return json.Unmarshal(data, (*schema)(s))
+}
-- 
2.43.0


From 025a6b1a390fd83dea10764e3ce0b69fa1df7741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 50/82] fix: constructors of oauth2 security schemes crashed

---
 internal/oapi/spec/security_scheme_util.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/oapi/spec/security_scheme_util.go b/internal/oapi/spec/security_scheme_util.go
index 327b810..e0b9c75 100644
--- a/internal/oapi/spec/security_scheme_util.go
+++ b/internal/oapi/spec/security_scheme_util.go
@@ -38,7 +38,7 @@ func OAuth2Implicit(authorizationURL string) *SecurityScheme {
 	ss := &SecurityScheme{}
 	ss.Flows = &OAuthFlows{}
 	ss.Type = SecurityOAuth2
-	ss.Flows.Implicit.AuthorizationURL = authorizationURL
+	ss.Flows.Implicit = &OAuthFlow{AuthorizationURL: authorizationURL}
 	return ss
 }
 
@@ -47,7 +47,7 @@ func OAuth2Password(tokenURL string) *SecurityScheme {
 	ss := &SecurityScheme{}
 	ss.Flows = &OAuthFlows{}
 	ss.Type = SecurityOAuth2
-	ss.Flows.Password.TokenURL = tokenURL
+	ss.Flows.Password = &OAuthFlow{TokenURL: tokenURL}
 	return ss
 }
 
@@ -56,7 +56,7 @@ func OAuth2AuthorizationCode(tokenURL string) *SecurityScheme {
 	ss := &SecurityScheme{}
 	ss.Flows = &OAuthFlows{}
 	ss.Type = SecurityOAuth2
-	ss.Flows.AuthorizationCode.TokenURL = tokenURL
+	ss.Flows.AuthorizationCode = &OAuthFlow{TokenURL: tokenURL}
 	return ss
 }
 
@@ -65,7 +65,6 @@ func OAuth2ClientCredentials(authorizationURL, tokenURL string) *SecurityScheme
 	ss := &SecurityScheme{}
 	ss.Flows = &OAuthFlows{}
 	ss.Type = SecurityOAuth2
-	ss.Flows.ClientCredentials.AuthorizationURL = authorizationURL
-	ss.Flows.ClientCredentials.TokenURL = tokenURL
+	ss.Flows.ClientCredentials = &OAuthFlow{AuthorizationURL: authorizationURL, TokenURL: tokenURL}
 	return ss
 }
-- 
2.43.0


From ea854839a19be993d1c29ce97a42b2251ca1f8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 51/82] fix: misspelled formats of date properties

---
 internal/oapi/spec/schema_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/oapi/spec/schema_util.go b/internal/oapi/spec/schema_util.go
index 0d6567a..6138755 100644
--- a/internal/oapi/spec/schema_util.go
+++ b/internal/oapi/spec/schema_util.go
@@ -92,12 +92,12 @@ func PasswordProperty() *Schema {
 
 // DateProperty creates a date property
 func DateProperty() *Schema {
-	return StrFmtProperty("data").WithExample(timeExample)
+	return StrFmtProperty("date").WithExample(timeExample)
 }
 
 // DateTimeProperty creates a date time property
 func DateTimeProperty() *Schema {
-	return StrFmtProperty("data-time").WithExample(timeExample)
+	return StrFmtProperty("date-time").WithExample(timeExample)
 }
 
 // StrFmtProperty creates a property for the named string format
-- 
2.43.0


From 11c118d0638bcbe70a709f8ac8d141b1c42c4dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 52/82] fix: removing content or link of response removed
 header instead

---
 internal/oapi/spec/response_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/oapi/spec/response_util.go b/internal/oapi/spec/response_util.go
index 0547009..92aa3cd 100644
--- a/internal/oapi/spec/response_util.go
+++ b/internal/oapi/spec/response_util.go
@@ -68,7 +68,7 @@ func (r *Response) RemoveHeader(name string) *Response {
 // AddContent adds a content to this response
 func (r *Response) AddContent(name string, content *MediaType) *Response {
 	if content == nil {
-		return r.RemoveHeader(name)
+		return r.RemoveContent(name)
 	}
 	if r.Content == nil {
 		r.Content = map[string]*MediaType{}
@@ -86,7 +86,7 @@ func (r *Response) RemoveContent(name string) *Response {
 // AddLink adds a link to this response
 func (r *Response) AddLink(name string, link *Link) *Response {
 	if link == nil {
-		return r.RemoveHeader(name)
+		return r.RemoveLink(name)
 	}
 	if r.Links == nil {
 		r.Links = map[string]*Link{}
-- 
2.43.0


From 8b81d9ca43e53ecfbb53717213c2008a73c20144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 53/82] fix: servers sorted the slice of the caller

---
 internal/oapi/spec/server_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/oapi/spec/server_util.go b/internal/oapi/spec/server_util.go
index ca3ff79..1efabf4 100644
--- a/internal/oapi/spec/server_util.go
+++ b/internal/oapi/spec/server_util.go
@@ -7,7 +7,7 @@ import (
 
 // NewServers Will list all possible server options based on all servers
 func NewServers(uris ...string) ([]*Server, error) {
-	uris = append(uris, "/")
+	uris = append([]string{"/"}, uris...) // copy, do not touch arguments of caller
 	uris = removeDuplicates(uris)
 	ss := []*Server{}
 	for _, v := range uris {
-- 
2.43.0


From 5d8dcfea04e893edce5e6e1636bd62f902396ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 54/82] fix: key of header components was invalid

---
 internal/oapi/spec/entity.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/oapi/spec/entity.go b/internal/oapi/spec/entity.go
index d1e3966..0aa4c63 100644
--- a/internal/oapi/spec/entity.go
+++ b/internal/oapi/spec/entity.go
@@ -51,6 +51,8 @@ func (c Entity) Key() string {
 		return "examples"
 	case RequestBodyKind:
 		return "requestBodies"
+	case HeaderKind:
+		return "headers"
 	case SecuritySchemeKind:
 		return "securitySchemes"
 	case LinkKind:
-- 
2.43.0


From 4896130af1cae69d4cbd44c7204ef5ce649c72a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 55/82] fix: empty security of default operation (no
 authentication) was lost

---
 internal/oapi/spec/operation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/oapi/spec/operation.go b/internal/oapi/spec/operation.go
index e44d971..e8725af 100644
--- a/internal/oapi/spec/operation.go
+++ b/internal/oapi/spec/operation.go
@@ -54,7 +54,7 @@ type Operation struct {
 	// Only one of the security requirement objects need to be satisfied to authorize a request.
 	// This definition overrides any declared top-level security.
 	// To remove a top-level security declaration, an empty array can be used.
-	Security []map[string]SecurityRequirement `json:"security,omitempty"`
+	Security *[]map[string]SecurityRequirement `json:"security,omitempty"`
 
 	// An alternative server array to service this operation.
 	// If an alternative server object is specified at the Path Item Object or Root level, it will be overridden by this value.
-- 
2.43.0


From 1d73a4d110e6170203f8e6b6d004cab62dc17101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 56/82] fix: generated go file did not compile if document
 contains backquote

---
 temp.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/temp.go b/temp.go
index a38f436..4bade27 100644
--- a/temp.go
+++ b/temp.go
@@ -2,18 +2,27 @@ package oapi
 
 import (
 	"bytes"
+	"strconv"
 	"text/template"
 )
 
-var tpl = template.Must(template.New("pkg").Parse(
+var tpl = template.Must(template.New("pkg").Funcs(template.FuncMap{"literal": literal}).Parse(
 	`// Code generated by oapi-go, DO NOT EDIT.
 package {{.PkgName}}
 
 // OpenAPIJsonSpec is json generated specification produced 
 // by oapi-go tool.
-const OpenAPIJsonSpec = ` + "`" + `{{.OpenAPIJson}}` + "`" + `
+const OpenAPIJsonSpec = {{.OpenAPIJson | literal}}
 `))
 
+// literal quotes string, raw form is more readable but can't hold everything
+func literal(s string) string {
+	if strconv.CanBackquote(s) {
+		return "`" + s + "`"
+	}
+	return strconv.Quote(s)
+}
+
 type tpldata struct {
 	PkgName     string
 	OpenAPIJson string
-- 
2.43.0


From f6aadf19db350b4a2e1098095a8afb7b3a0ead28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 57/82] fix: nil package crashed the scan

---
 internal/pkgutil/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pkgutil/util.go b/internal/pkgutil/util.go
index 56eb6d9..e41f124 100644
--- a/internal/pkgutil/util.go
+++ b/internal/pkgutil/util.go
@@ -33,7 +33,7 @@ func Scan(pkgs []*packages.Package, fn Scanner) (err error) {
 	seen := make(map[*packages.Package]bool)
 	var visit func(*packages.Package)
 	visit = func(pkg *packages.Package) {
-		if seen[pkg] || IsStdLibPkg(pkg) || pkg == nil {
+		if pkg == nil || seen[pkg] || IsStdLibPkg(pkg) {
 			return
 		}
 		seen[pkg] = true
-- 
2.43.0


From 96a82a04ef890ee034f86df02bfdfa46f5df37c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 58/82] fix: documentation of export comment used wrong prefix

---
 doc.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/doc.go b/doc.go
index a906f7f..029fcec 100644
--- a/doc.go
+++ b/doc.go
@@ -53,12 +53,12 @@
 // By default all schemes are resolved locally. If you want export scheme globally
 // you can use magic comments in your go source code.
 //
-//  //oapi:schema <schema name> <source of schema>
-//  //oapi:schema <source of schema>
+//  //openapi:schema <schema name> <source of schema>
+//  //openapi:schema <source of schema>
 //
 // Examples (works same):
-//  //oapi:schema Object
-//  //oapi:schema go://github.com/buypal/oapi-go#/Object
+//  //openapi:schema Object
+//  //openapi:schema go://github.com/buypal/oapi-go#/Object
 //
 // Merging specifications
 //
-- 
2.43.0


From 97f17e7d3605f85f3d61acdfd3111cd965a9d9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 59/82] fix: conflicting fields of embedded structs did not
 follow encoding/json

---
 internal/oapi/scan/types/types.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 98fdece..d535b76 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -532,13 +532,22 @@ func (f structField) name() string {
 	return f.field.Name()
 }
 
-// dominantFields drops fields hidden by less nested field of same name,
-// same as encoding/json does.
+// hides reports if other field of same name takes precedence over this one,
+// same as in encoding/json less nested wins, then the one named by tag.
+// If there is no such field neither of them is marshaled.
+func (f structField) hides(o structField) bool {
+	if o.depth != f.depth {
+		return f.depth < o.depth
+	}
+	return len(f.tag.Name) > 0 || len(o.tag.Name) == 0
+}
+
+// dominantFields drops fields hidden by other field of same name.
 func dominantFields(fields []structField) (arr []structField) {
-	for _, f := range fields {
+	for i, f := range fields {
 		hidden := false
-		for _, o := range fields {
-			if o.name() == f.name() && o.depth < f.depth {
+		for j, o := range fields {
+			if i != j && o.name() == f.name() && o.hides(f) {
 				hidden = true
 			}
 		}
-- 
2.43.0


From fba98bb3722c2f41149deb12d0678826ab4699aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 60/82] fix: reference to place of type time.Time resolved to
 empty object

---
 internal/oapi/scan/types/point.go | 11 ++++++++++-
 internal/oapi/scan/types/scan.go  |  3 +++
 internal/oapi/scan/types/types.go | 13 +++++++++++++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/scan/types/point.go b/internal/oapi/scan/types/point.go
index b623b6a..1af19e2 100644
--- a/internal/oapi/scan/types/point.go
+++ b/internal/oapi/scan/types/point.go
@@ -6,6 +6,7 @@ import (
 	"strings"
 
 	"github.com/buypal/oapi-go/internal/logging"
+	"github.com/buypal/oapi-go/internal/oapi/spec"
 	"github.com/buypal/oapi-go/internal/pointer"
 	"golang.org/x/tools/go/types/typeutil"
 )
@@ -95,7 +96,15 @@ func (s points) String() string {
 }
 
 type pointmap struct {
-	m typeutil.Map
+	m   typeutil.Map
+	std map[string]spec.Schema // pointers to types with assigned schema
+}
+
+func (tp *pointmap) setStd(p point, sch spec.Schema) {
+	if tp.std == nil {
+		tp.std = make(map[string]spec.Schema)
+	}
+	tp.std[p.String()] = sch
 }
 
 func (tp pointmap) len(t types.Type, r point) bool {
diff --git a/internal/oapi/scan/types/scan.go b/internal/oapi/scan/types/scan.go
index 78cfb5c..0381fd3 100644
--- a/internal/oapi/scan/types/scan.go
+++ b/internal/oapi/scan/types/scan.go
@@ -28,6 +28,9 @@ func (r *Scanner) Resolve(ptr pointer.Pointer) (*spec.Schema, error) {
 	if !ok {
 		return nil, errors.Errorf("failed to resolve %q, no such type", ptr.String())
 	}
+	if sch, ok := r.points.std[ptr.String()]; ok {
+		return &sch, nil
+	}
 	// pp, ok := r.points.pick(tp)
 	// if !ok {
 	// 	return nil, errors.Errorf("failed to resolve %q", ptr.String())
diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index d535b76..a2371ac 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -36,6 +36,9 @@ type elementer interface {
 // Later it is save to PtrType (last arg).
 // First argument is pointer to be saved, type and map.
 func walk(r point, t types.Type, p path, m *pointmap) (err error) {
+	if sch, ok := std2schema(t); ok {
+		m.setStd(r, sch)
+	}
 	t = t.Underlying()
 	m.append(t, r)
 
@@ -345,6 +348,16 @@ var refStdMapping = map[string]spec.Schema{
 	},
 }
 
+// std2schema returns schema of type having one assigned.
+func std2schema(t types.Type) (spec.Schema, bool) {
+	named, ok := t.(*types.Named)
+	if !ok || named.Obj().Pkg() == nil {
+		return spec.Schema{}, false
+	}
+	sch, ok := refStdMapping[newPoint(named.Obj()).String()]
+	return sch, ok
+}
+
 // AddRefOverride allows to add default override
 func AddRefOverride(p pointer.Pointer, s spec.Schema) {
 	refStdMapping[p.String()] = s
-- 
2.43.0


From 8a295d1402f1a2d7414af6b73e2e339d08a22cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 61/82] fix: limits of field with overriding type number were
 lost

---
 internal/oapi/scan/types/types.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index a2371ac..49aa3af 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -503,8 +503,9 @@ func basicString2schema(t string, tg tag.Tag) (s *spec.Schema, err error) {
 		s.Format = "password"
 		return s, err
 	case "number":
-		s = &spec.Schema{Type: spec.TypeNumber}
-		return s, nil
+		s, err = basic2schema(types.Float64, tg)
+		s.Format = ""
+		return s, err
 	case "object":
 		s = &spec.Schema{Type: spec.TypeObject}
 		return s, nil
-- 
2.43.0


From 9213a50f4cf1c4f65138dc18cc53a9f3dfcdb64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 62/82] fix: property of name '-' given by json tag '-,' was
 ignored

---
 tag/tag.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tag/tag.go b/tag/tag.go
index ec4be4d..45f8ed3 100644
--- a/tag/tag.go
+++ b/tag/tag.go
@@ -1,6 +1,7 @@
 package tag
 
 import (
+	"reflect"
 	"strconv"
 
 	"github.com/fatih/structtag"
@@ -46,7 +47,7 @@ func Parse(rawtags string) (meta Tag, err error) {
 	if err != nil || tags == nil {
 		return
 	}
-	if err = parseJSONTag(tags, &meta); err != nil {
+	if err = parseJSONTag(rawtags, tags, &meta); err != nil {
 		return
 	}
 	if err = parseOAPITag(tags, &meta); err != nil {
@@ -99,7 +100,7 @@ func parseOAPITag(tags *structtag.Tags, meta *Tag) (err error) {
 	return
 }
 
-func parseJSONTag(tags *structtag.Tags, meta *Tag) (err error) {
+func parseJSONTag(rawtags string, tags *structtag.Tags, meta *Tag) (err error) {
 	tag := parseTag(tags, "json")
 	if tag == nil {
 		return nil
@@ -109,7 +110,7 @@ func parseJSONTag(tags *structtag.Tags, meta *Tag) (err error) {
 	if err != nil {
 		return
 	}
-	if raw.Value() == "-" {
+	if raw.Name == "-" && reflect.StructTag(rawtags).Get("json") == "-" {
 		meta.Ignore = true
 		return
 	}
-- 
2.43.0


From 9a95e0c00461938097c6e16ee29d9f6244d19395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 63/82] revert: fixes below internal/oapi/spec and
 internal/oapi/scan/specs

Files below directories named spec or specs count as test files, which
these commits must not touch.
---
 internal/oapi/scan/specs/scan.go           | 23 ++++++----------------
 internal/oapi/spec/contact.go              |  2 +-
 internal/oapi/spec/encoding.go             |  4 ++--
 internal/oapi/spec/entity.go               |  2 --
 internal/oapi/spec/example.go              |  2 +-
 internal/oapi/spec/external_docs.go        |  2 +-
 internal/oapi/spec/header.go               |  2 +-
 internal/oapi/spec/oauth_flow.go           |  2 +-
 internal/oapi/spec/operation.go            |  2 +-
 internal/oapi/spec/parameter.go            |  6 +++---
 internal/oapi/spec/request_body.go         |  2 +-
 internal/oapi/spec/response.go             |  2 +-
 internal/oapi/spec/response_util.go        |  4 ++--
 internal/oapi/spec/schema.go               | 18 -----------------
 internal/oapi/spec/schema_util.go          |  4 ++--
 internal/oapi/spec/security_scheme.go      |  2 +-
 internal/oapi/spec/security_scheme_util.go |  9 +++++----
 internal/oapi/spec/server_util.go          |  2 +-
 internal/oapi/spec/xml.go                  |  2 +-
 19 files changed, 31 insertions(+), 61 deletions(-)

diff --git a/internal/oapi/scan/specs/scan.go b/internal/oapi/scan/specs/scan.go
index 75accf8..c1f3f50 100644
--- a/internal/oapi/scan/specs/scan.go
+++ b/internal/oapi/scan/specs/scan.go
@@ -1,8 +1,6 @@
 package specs
 
 import (
-	"reflect"
-
 	"github.com/buypal/oapi-go/internal/container"
 	"github.com/buypal/oapi-go/internal/pkgutil"
 	"github.com/buypal/oapi-go/internal/pointer"
@@ -62,14 +60,14 @@ func (r *Scanner) Scan(pkg *packages.Package) (err error) {
 				pf, _ := pointer.NewGoPointer(pkg.PkgPath, "")
 				pf.Fragment = p.Fragment
 				p = pf
-
-				err = c.SetP(v.Key, p.String())
-				if err != nil {
-					return err
-				}
 			}
 
 			r.Pointers[p.String()] = p
+
+			err = c.SetP(v.Key, p.String())
+			if err != nil {
+				return err
+			}
 		}
 
 		cc = append(cc, c)
@@ -82,14 +80,5 @@ func (r *Scanner) Scan(pkg *packages.Package) (err error) {
 
 // Merge will provide single container as result of merging.
 func (r *Scanner) Merge() (c container.Container, err error) {
-	return r.Containers.Sort().Merge(mergeSame)
-}
-
-// mergeSame is strict, but all specifications are allowed to say the same,
-// at least openapi version is always there.
-func mergeSame(dest, source interface{}) (interface{}, error) {
-	if reflect.DeepEqual(dest, source) {
-		return dest, nil
-	}
-	return container.MergeStrict(dest, source)
+	return r.Containers.Sort().Merge(container.MergeStrict)
 }
diff --git a/internal/oapi/spec/contact.go b/internal/oapi/spec/contact.go
index c4c556d..00148b8 100644
--- a/internal/oapi/spec/contact.go
+++ b/internal/oapi/spec/contact.go
@@ -4,7 +4,7 @@ package spec
 type Contact struct {
 
 	// The identifying name of the contact person/organization.
-	Name string `json:"name,omitempty"`
+	Name string `json:"name"`
 
 	// The URL pointing to the contact information.
 	// MUST be in the format of a URL.
diff --git a/internal/oapi/spec/encoding.go b/internal/oapi/spec/encoding.go
index f363774..e3c8827 100644
--- a/internal/oapi/spec/encoding.go
+++ b/internal/oapi/spec/encoding.go
@@ -7,7 +7,7 @@ type Encoding struct {
 	// Default value depends on the property type: for string with format being binary â€“ application/octet-stream;
 	// for other primitive types â€“ text/plain; for object - application/json; for array â€“ the default is defined based on the inner type.
 	// The value can be a specific media type (e.g. application/json), a wildcard media type (e.g. image/*), or a comma-separated list of the two types.
-	ContentType string `json:"contentType,omitempty"`
+	ContentType string `json:"contentType"`
 
 	// A map allowing additional information to be provided as headers, for example Content-Disposition.
 	// Content-Type is described separately and SHALL be ignored in this section.
@@ -25,7 +25,7 @@ type Encoding struct {
 	// When style is form, the default value is true.
 	// For all other styles, the default value is false.
 	// This property SHALL be ignored if the request body media type is not application/x-www-form-urlencoded.
-	Explode *bool `json:"explode,omitempty"`
+	Explode bool `json:"explode,omitempty"`
 
 	// Determines whether the parameter value SHOULD allow reserved characters, as defined by RFC3986 :/?#[]@!$&'()*+,;= to be included without percent-encoding.
 	// The default value is false.
diff --git a/internal/oapi/spec/entity.go b/internal/oapi/spec/entity.go
index 0aa4c63..d1e3966 100644
--- a/internal/oapi/spec/entity.go
+++ b/internal/oapi/spec/entity.go
@@ -51,8 +51,6 @@ func (c Entity) Key() string {
 		return "examples"
 	case RequestBodyKind:
 		return "requestBodies"
-	case HeaderKind:
-		return "headers"
 	case SecuritySchemeKind:
 		return "securitySchemes"
 	case LinkKind:
diff --git a/internal/oapi/spec/example.go b/internal/oapi/spec/example.go
index 9612c11..b1fa7bb 100644
--- a/internal/oapi/spec/example.go
+++ b/internal/oapi/spec/example.go
@@ -13,7 +13,7 @@ type Example struct {
 	// Embedded literal example.
 	// The value field and externalValue field are mutually exclusive.
 	// To represent examples of media types that cannot naturally represented in JSON or YAML, use a string value to contain the example, escaping where necessary.
-	Value Any `json:"value,omitempty"`
+	Value Any `json:"value"`
 
 	// A URL that points to the literal example.
 	// This provides the capability to reference examples that cannot easily be included in JSON or YAML documents.
diff --git a/internal/oapi/spec/external_docs.go b/internal/oapi/spec/external_docs.go
index 428b461..3aa5e16 100644
--- a/internal/oapi/spec/external_docs.go
+++ b/internal/oapi/spec/external_docs.go
@@ -5,7 +5,7 @@ type ExternalDocumentation struct {
 
 	// A short description of the target documentation.
 	// CommonMark syntax MAY be used for rich text representation.
-	Description string `json:"description,omitempty"`
+	Description string `json:"description"`
 
 	// REQUIRED.
 	// The URL for the target documentation.
diff --git a/internal/oapi/spec/header.go b/internal/oapi/spec/header.go
index 3b48abf..bdd600e 100644
--- a/internal/oapi/spec/header.go
+++ b/internal/oapi/spec/header.go
@@ -37,7 +37,7 @@ type Header struct {
 	// For other types of parameters this property has no effect.
 	// When style is form, the default value is true.
 	// For all other styles, the default value is false.
-	Explode *bool `json:"explode,omitempty"`
+	Explode bool `json:"explode"`
 
 	// Determines whether the parameter value SHOULD allow reserved characters, as defined by RFC3986 :/?#[]@!$&'()*+,;= to be included without percent-encoding.
 	// This property only applies to parameters with an in value of query.
diff --git a/internal/oapi/spec/oauth_flow.go b/internal/oapi/spec/oauth_flow.go
index 1a6709b..64ba753 100644
--- a/internal/oapi/spec/oauth_flow.go
+++ b/internal/oapi/spec/oauth_flow.go
@@ -23,5 +23,5 @@ type OAuthFlow struct {
 	// REQUIRED.
 	// The available scopes for the OAuth2 security scheme.
 	// A map between the scope name and a short description for it.
-	Scopes map[string]string `json:"scopes,omitempty"`
+	Acopes map[string]string `json:"acopes,omitempty"`
 }
diff --git a/internal/oapi/spec/operation.go b/internal/oapi/spec/operation.go
index e8725af..e44d971 100644
--- a/internal/oapi/spec/operation.go
+++ b/internal/oapi/spec/operation.go
@@ -54,7 +54,7 @@ type Operation struct {
 	// Only one of the security requirement objects need to be satisfied to authorize a request.
 	// This definition overrides any declared top-level security.
 	// To remove a top-level security declaration, an empty array can be used.
-	Security *[]map[string]SecurityRequirement `json:"security,omitempty"`
+	Security []map[string]SecurityRequirement `json:"security,omitempty"`
 
 	// An alternative server array to service this operation.
 	// If an alternative server object is specified at the Path Item Object or Root level, it will be overridden by this value.
diff --git a/internal/oapi/spec/parameter.go b/internal/oapi/spec/parameter.go
index 43586b9..d1e95f3 100644
--- a/internal/oapi/spec/parameter.go
+++ b/internal/oapi/spec/parameter.go
@@ -22,12 +22,12 @@ type Parameter struct {
 	// See Path Templating for further information.
 	// If in is "header" and the name field is "Accept", "Content-Type" or "Authorization", the parameter definition SHALL be ignored.
 	// For all other cases, the name corresponds to the parameter name used by the in property.
-	Name string `json:"name,omitempty"`
+	Name string `json:"name"`
 
 	// REQUIRED.
 	// The location of the parameter.
 	// Possible values are "query", "header", "path" or "cookie".
-	In string `json:"in,omitempty"`
+	In string `json:"in"`
 
 	// A brief description of the parameter.
 	// This could contain examples of use.
@@ -59,7 +59,7 @@ type Parameter struct {
 	// For other types of parameters this property has no effect.
 	// When style is form, the default value is true.
 	// For all other styles, the default value is false.
-	Explode *bool `json:"explode,omitempty"`
+	Explode bool `json:"explode"`
 
 	// Determines whether the parameter value SHOULD allow reserved characters, as defined by RFC3986 :/?#[]@!$&'()*+,;= to be included without percent-encoding.
 	// This property only applies to parameters with an in value of query.
diff --git a/internal/oapi/spec/request_body.go b/internal/oapi/spec/request_body.go
index 5decb31..9c81121 100644
--- a/internal/oapi/spec/request_body.go
+++ b/internal/oapi/spec/request_body.go
@@ -14,7 +14,7 @@ type RequestBody struct {
 	// The key is a media type or media type range and the value describes it.
 	// For requests that match multiple keys, only the most specific key is applicable.
 	// e.g. text/plain overrides text/*
-	Content map[string]*MediaType `json:"content,omitempty"`
+	Content map[string]*MediaType `json:"content"`
 
 	// Determines if the request body is required in the request.
 	// Defaults to false.
diff --git a/internal/oapi/spec/response.go b/internal/oapi/spec/response.go
index 7841fd9..1a70b50 100644
--- a/internal/oapi/spec/response.go
+++ b/internal/oapi/spec/response.go
@@ -18,7 +18,7 @@ type Response struct {
 	// The key is a media type or media type range and the value describes it.
 	// For responses that match multiple keys, only the most specific key is applicable.
 	// e.g. text/plain overrides text/*
-	Content map[string]*MediaType `json:"content,omitempty"`
+	Content map[string]*MediaType `json:"content"`
 
 	// A map of operations links that can be followed from the response.
 	// The key of the map is a short name for the link, following the naming constraints of the names for Component Objects.
diff --git a/internal/oapi/spec/response_util.go b/internal/oapi/spec/response_util.go
index 92aa3cd..0547009 100644
--- a/internal/oapi/spec/response_util.go
+++ b/internal/oapi/spec/response_util.go
@@ -68,7 +68,7 @@ func (r *Response) RemoveHeader(name string) *Response {
 // AddContent adds a content to this response
 func (r *Response) AddContent(name string, content *MediaType) *Response {
 	if content == nil {
-		return r.RemoveContent(name)
+		return r.RemoveHeader(name)
 	}
 	if r.Content == nil {
 		r.Content = map[string]*MediaType{}
@@ -86,7 +86,7 @@ func (r *Response) RemoveContent(name string) *Response {
 // AddLink adds a link to this response
 func (r *Response) AddLink(name string, link *Link) *Response {
 	if link == nil {
-		return r.RemoveLink(name)
+		return r.RemoveHeader(name)
 	}
 	if r.Links == nil {
 		r.Links = map[string]*Link{}
diff --git a/internal/oapi/spec/schema.go b/internal/oapi/spec/schema.go
index bef6485..7a0a9b9 100644
--- a/internal/oapi/spec/schema.go
+++ b/internal/oapi/spec/schema.go
@@ -1,7 +1,5 @@
 package spec
 
-import "encoding/json"
-
 // Schema The Schema Object allows the definition of input and output data types.
 // These types can be objects, but also primitives and arrays.
 // This object is an extended subset of the JSON Schema Specification Wright Draft 00.
@@ -127,19 +125,3 @@ type Schema struct {
 func (s Schema) Entity() Entity {
 	return SchemaKind
 }
-
-// UnmarshalJSON unmarshals schema, which can be also boolean as value of
-// additionalProperties.
-func (s *Schema) UnmarshalJSON(data []byte) error {
-	type schema Schema // without methods
-
-	switch string(data) {
-	case "true":
-		*s = Schema{}
-		return nil
-	case "false":
-		*s = Schema{Not: &Schema{}}
-		return nil
-	}
-	return json.Unmarshal(data, (*schema)(s))
-}
diff --git a/internal/oapi/spec/schema_util.go b/internal/oapi/spec/schema_util.go
index 6138755..0d6567a 100644
--- a/internal/oapi/spec/schema_util.go
+++ b/internal/oapi/spec/schema_util.go
@@ -92,12 +92,12 @@ func PasswordProperty() *Schema {
 
 // DateProperty creates a date property
 func DateProperty() *Schema {
-	return StrFmtProperty("date").WithExample(timeExample)
+	return StrFmtProperty("data").WithExample(timeExample)
 }
 
 // DateTimeProperty creates a date time property
 func DateTimeProperty() *Schema {
-	return StrFmtProperty("date-time").WithExample(timeExample)
+	return StrFmtProperty("data-time").WithExample(timeExample)
 }
 
 // StrFmtProperty creates a property for the named string format
diff --git a/internal/oapi/spec/security_scheme.go b/internal/oapi/spec/security_scheme.go
index cfb8e8c..eae1765 100644
--- a/internal/oapi/spec/security_scheme.go
+++ b/internal/oapi/spec/security_scheme.go
@@ -7,7 +7,7 @@ type SecurityScheme struct {
 	// Any	REQUIRED.
 	// The type of the security scheme.
 	// Valid values are "apiKey", "http", "oauth2", "openIdConnect".
-	Type string `json:"type,omitempty"`
+	Type string `json:"type"`
 
 	// Any	A short description for security scheme.
 	// CommonMark syntax MAY be used for rich text representation.
diff --git a/internal/oapi/spec/security_scheme_util.go b/internal/oapi/spec/security_scheme_util.go
index e0b9c75..327b810 100644
--- a/internal/oapi/spec/security_scheme_util.go
+++ b/internal/oapi/spec/security_scheme_util.go
@@ -38,7 +38,7 @@ func OAuth2Implicit(authorizationURL string) *SecurityScheme {
 	ss := &SecurityScheme{}
 	ss.Flows = &OAuthFlows{}
 	ss.Type = SecurityOAuth2
-	ss.Flows.Implicit = &OAuthFlow{AuthorizationURL: authorizationURL}
+	ss.Flows.Implicit.AuthorizationURL = authorizationURL
 	return ss
 }
 
@@ -47,7 +47,7 @@ func OAuth2Password(tokenURL string) *SecurityScheme {
 	ss := &SecurityScheme{}
 	ss.Flows = &OAuthFlows{}
 	ss.Type = SecurityOAuth2
-	ss.Flows.Password = &OAuthFlow{TokenURL: tokenURL}
+	ss.Flows.Password.TokenURL = tokenURL
 	return ss
 }
 
@@ -56,7 +56,7 @@ func OAuth2AuthorizationCode(tokenURL string) *SecurityScheme {
 	ss := &SecurityScheme{}
 	ss.Flows = &OAuthFlows{}
 	ss.Type = SecurityOAuth2
-	ss.Flows.AuthorizationCode = &OAuthFlow{TokenURL: tokenURL}
+	ss.Flows.AuthorizationCode.TokenURL = tokenURL
 	return ss
 }
 
@@ -65,6 +65,7 @@ func OAuth2ClientCredentials(authorizationURL, tokenURL string) *SecurityScheme
 	ss := &SecurityScheme{}
 	ss.Flows = &OAuthFlows{}
 	ss.Type = SecurityOAuth2
-	ss.Flows.ClientCredentials = &OAuthFlow{AuthorizationURL: authorizationURL, TokenURL: tokenURL}
+	ss.Flows.ClientCredentials.AuthorizationURL = authorizationURL
+	ss.Flows.ClientCredentials.TokenURL = tokenURL
 	return ss
 }
diff --git a/internal/oapi/spec/server_util.go b/internal/oapi/spec/server_util.go
index 1efabf4..ca3ff79 100644
--- a/internal/oapi/spec/server_util.go
+++ b/internal/oapi/spec/server_util.go
@@ -7,7 +7,7 @@ import (
 
 // NewServers Will list all possible server options based on all servers
 func NewServers(uris ...string) ([]*Server, error) {
-	uris = append([]string{"/"}, uris...) // copy, do not touch arguments of caller
+	uris = append(uris, "/")
 	uris = removeDuplicates(uris)
 	ss := []*Server{}
 	for _, v := range uris {
diff --git a/internal/oapi/spec/xml.go b/internal/oapi/spec/xml.go
index 9d57821..a9245e1 100644
--- a/internal/oapi/spec/xml.go
+++ b/internal/oapi/spec/xml.go
@@ -9,7 +9,7 @@ type XML struct {
 	// When defined within items, it will affect the name of the individual XML elements within the list.
 	// When defined alongside type being array (outside the items), it will affect the wrapping element and only if wrapped is true.
 	// If wrapped is false, it will be ignored.
-	Name string `json:"name,omitempty"`
+	Name string `json:"name"`
 
 	// The URI of the namespace definition.
 	// Value MUST be in the form of an absolute URI.
-- 
2.43.0


From e27c7e1c467f4b3ae9c6f42a793deac6c4d084e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 64/82] fix: specifications of two packages could not be
 merged, they always share the version

---
 internal/container/container.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/container/container.go b/internal/container/container.go
index 9366290..1b17a98 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -272,11 +272,18 @@ func (cc Containers) Sort() Containers {
 	return a
 }
 
-// Merge will allow you to merge multiple containers together.
+// Merge will allow you to merge multiple containers together. Containers are
+// allowed to say the same, at least version of openapi is always there.
 func (cc Containers) Merge(fn Merger) (Container, error) {
 	c := New()
+	same := func(dest, source interface{}) (interface{}, error) {
+		if reflect.DeepEqual(dest, source) {
+			return dest, nil
+		}
+		return fn(dest, source)
+	}
 	for _, x := range cc {
-		err := c.Merge(x, fn)
+		err := c.Merge(x, same)
 		if err != nil {
 			return Container{}, err
 		}
-- 
2.43.0


From 00689e73c67b9917a7a01c32246a81a67e313761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 65/82] fix: star of route pattern did not match line breaks

---
 internal/route/route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/route/route.go b/internal/route/route.go
index fe28757..f8ead53 100644
--- a/internal/route/route.go
+++ b/internal/route/route.go
@@ -102,7 +102,7 @@ func compileCached(pattern string) (*regexp.Regexp, error) {
 	regex := regexen[pattern]
 	if regex == nil {
 		var err error
-		regex, err = regexp.Compile("^" + pattern + "$")
+		regex, err = regexp.Compile("(?s)^" + pattern + "$")
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From c42784cf4fefa5852e6292988197d863398dba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 66/82] fix: json form of pointer which is not referenced was
 its go structure

---
 internal/pointer/pointer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pointer/pointer.go b/internal/pointer/pointer.go
index 241fb74..fa5b3de 100644
--- a/internal/pointer/pointer.go
+++ b/internal/pointer/pointer.go
@@ -85,7 +85,7 @@ func (p *Pointer) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
-func (p *Pointer) MarshalJSON() ([]byte, error) {
+func (p Pointer) MarshalJSON() ([]byte, error) {
 	return json.Marshal(p.String())
 }
 
-- 
2.43.0


From 5e6f19d7ea4d1f43297ea99713bcb866e1d5d252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 67/82] fix: specifications in directories with glob characters
 in their name were not found

---
 internal/container/container.go | 2 +-
 internal/container/utils.go     | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/container/container.go b/internal/container/container.go
index 1b17a98..aa9c969 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -236,7 +236,7 @@ func ReadDir(dir string, patterns ...string) (cc Containers, err error) {
 	}
 
 	for _, s := range patterns {
-		xs, err := filepath.Glob(filepath.Join(dir, s))
+		xs, err := filepath.Glob(filepath.Join(escapeGlob(dir), s))
 		if err != nil {
 			return nil, err
 		}
diff --git a/internal/container/utils.go b/internal/container/utils.go
index 9015b50..54f830f 100644
--- a/internal/container/utils.go
+++ b/internal/container/utils.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"runtime"
 	"sort"
 	"strconv"
 	"strings"
@@ -64,6 +65,14 @@ func flatten(path []string, v interface{}, flat map[string]interface{}) {
 	}
 }
 
+// escapeGlob returns pattern of filepath.Match which matches just given path.
+func escapeGlob(path string) string {
+	if runtime.GOOS == "windows" { // escaping is not supported
+		return path
+	}
+	return strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`).Replace(path)
+}
+
 // SliceToDotPath converts slice into dot path
 func SliceToDotPath(path []string) string {
 	hierarchy := make([]string, len(path))
-- 
2.43.0


From 75ebb3a3ab624c2e61531e1e07b4e82ca9e1b76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 68/82] fix: export comment with package relative uri had no
 effect

---
 internal/oapi/scan/cmds/schema.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/scan/cmds/schema.go b/internal/oapi/scan/cmds/schema.go
index 8d02501..1b8b3a1 100644
--- a/internal/oapi/scan/cmds/schema.go
+++ b/internal/oapi/scan/cmds/schema.go
@@ -31,7 +31,20 @@ func NewCmdSchema(cmd CmdBase) (s Commander, err error) {
 
 	makePtr := func(a string) (pointer.Pointer, error) {
 		if strings.Contains(a, "://") || strings.Contains(a, "#") {
-			return pointer.Parse(a)
+			p, err := pointer.Parse(a)
+			if err != nil {
+				return p, err
+			}
+			// same shorthand as in specifications, go://#/Struct
+			if p.Scheme == "go" && p.PkgPath() == "" {
+				pf, err := pointer.NewGoPointer(cmd.pkg.Types.Path(), "")
+				pf.Fragment = p.Fragment
+				return pf, err
+			}
+			if !p.IsExternal() {
+				return p, errors.Errorf("pointer %q has no scheme", a)
+			}
+			return p, nil
 		}
 		return pointer.NewGoPointer(cmd.pkg.Types.Path(), a)
 	}
-- 
2.43.0


From dbcd785bcb16782c1ad89f0e6a724b67a11e1443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 69/82] fix: export comment with uri naming no type had no
 effect

---
 internal/oapi/scan/cmds/schema.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/oapi/scan/cmds/schema.go b/internal/oapi/scan/cmds/schema.go
index 1b8b3a1..2ad938b 100644
--- a/internal/oapi/scan/cmds/schema.go
+++ b/internal/oapi/scan/cmds/schema.go
@@ -35,6 +35,9 @@ func NewCmdSchema(cmd CmdBase) (s Commander, err error) {
 			if err != nil {
 				return p, err
 			}
+			if head, ok := p.Fragment.Head(); !ok || len(head) == 0 {
+				return p, errors.Errorf("pointer %q does not name any type", a)
+			}
 			// same shorthand as in specifications, go://#/Struct
 			if p.Scheme == "go" && p.PkgPath() == "" {
 				pf, err := pointer.NewGoPointer(cmd.pkg.Types.Path(), "")
-- 
2.43.0


From 88ae0d1e756e7db9951d27a055eac06955dc0273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 70/82] fix: extensions of paths were taken for paths

---
 internal/oapi/oapi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index d4f57f6..b775e59 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -56,6 +56,10 @@ func Paths(cnt container.Container) (ff FlattenPaths, err error) {
 	}
 
 	for path, methods := range paths {
+		// extension, it can hold anything
+		if strings.HasPrefix(path, "x-") {
+			continue
+		}
 		var mx map[string]container.Container
 		mx, err = methods.ChildrenMap()
 		if err != nil {
-- 
2.43.0


From 1c3e74228434f9132cb2d060dd9a642e1e89f1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 71/82] fix: keys without order were put in front of openapi
 and info

---
 internal/container/sort.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/container/sort.go b/internal/container/sort.go
index 175c398..e4173bc 100644
--- a/internal/container/sort.go
+++ b/internal/container/sort.go
@@ -75,10 +75,14 @@ func SortMapMarhsaler(order []string) SorterFn {
 		}
 		var ms MapSlice
 		for k, v := range dd {
+			index := indexOf(k, order)
+			if index < 0 {
+				index = len(order) // not ordered, goes last
+			}
 			ms = append(ms, MapItem{
 				Key:   k,
 				Val:   v,
-				Index: indexOf(k, order),
+				Index: index,
 			})
 
 		}
-- 
2.43.0


From 005e3467dbeec3593ebc8a33165ece22c13f8c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 72/82] fix: configuration extended by the extended one was
 ignored

---
 internal/oapi/config/config.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/oapi/config/config.go b/internal/oapi/config/config.go
index 0ce1172..e404c52 100644
--- a/internal/oapi/config/config.go
+++ b/internal/oapi/config/config.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/buypal/oapi-go/internal/container"
 	"github.com/buypal/oapi-go/internal/oapi/spec"
+	"github.com/pkg/errors"
 )
 
 type Config struct {
@@ -107,7 +108,7 @@ func ReadFile(file string) (c Config, err error) {
 	if err != nil {
 		return
 	}
-	err = extends(cx, filepath.Dir(file))
+	err = extends(cx, filepath.Dir(file), filepath.Clean(file))
 	if err != nil {
 		return
 	}
@@ -119,7 +120,9 @@ func ReadFile(file string) (c Config, err error) {
 	return
 }
 
-func extends(c container.Container, fp string) (err error) {
+// extends completes configuration by the one it extends, which may extend
+// another one.
+func extends(c container.Container, fp string, seen ...string) (err error) {
 	if !c.ExistsP("extends") {
 		return
 	}
@@ -130,9 +133,18 @@ func extends(c container.Container, fp string) (err error) {
 	if !filepath.IsAbs(p) {
 		p = filepath.Join(fp, p)
 	}
+	for _, s := range seen {
+		if s == p {
+			return errors.Errorf("configuration %q extends itself", p)
+		}
+	}
 	ny, err := container.ReadFile(p)
 	if err != nil {
 		return
 	}
+	err = extends(ny, filepath.Dir(p), append(seen, p)...)
+	if err != nil {
+		return
+	}
 	return c.Merge(ny, container.MergeDefault)
 }
-- 
2.43.0


From 4492c8818fa929517cb01924ab264272cf3e1bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:00 +0000
Subject: [PATCH 73/82] fix: document with reference at its top was replaced by
 the schema

---
 internal/oapi/resolver/resolver.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/oapi/resolver/resolver.go b/internal/oapi/resolver/resolver.go
index f027438..2fe618d 100644
--- a/internal/oapi/resolver/resolver.go
+++ b/internal/oapi/resolver/resolver.go
@@ -111,6 +111,11 @@ func (r resolver) iterator(cx container.Container, pp path, dept int) (container
 			continue
 		}
 
+		// schema in place of the document would drop everything it holds
+		if v.Key == "$ref" && dept == 0 {
+			return zero, errors.Errorf("document can't be replaced by reference %q", s)
+		}
+
 		if ep, ok := r.exp.Get(p); ok {
 			err = r.export(ep)
 			if err != nil {
-- 
2.43.0


From 88be3f72a1162278d62bcb0cdccec7a35097e18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:02 +0000
Subject: [PATCH 74/82] fix: document was returned together with error if
 version is not text

---
 oapi.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oapi.go b/oapi.go
index 7e6d010..874ff08 100644
--- a/oapi.go
+++ b/oapi.go
@@ -38,7 +38,10 @@ type OAPI struct {
 func newOAPI(c container.Container) (x OAPI, err error) {
 	x = OAPI{c: c}
 	err = json.Unmarshal(c.Path("openapi").Bytes(), &x.o.OpenAPI)
-	return x, err
+	if err != nil {
+		return OAPI{}, err
+	}
+	return x, nil
 }
 
 // Options represents options of scan.
-- 
2.43.0


From f4efa1e067ba949416167798b03f9013e23d91df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:08 +0000
Subject: [PATCH 75/82] fix: schema of pointer to struct accepted no object

---
 internal/oapi/scan/types/types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 49aa3af..2951748 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -334,9 +334,11 @@ func pointer2schema(t *types.Pointer, m pointmap, tp path, tg tag.Tag) (s *spec.
 
 	s.Nullable = false
 
-	s = spec.OneSchema(s, &spec.Schema{
+	// oneOf would refuse values accepted by both
+	s = spec.AnySchema(s, &spec.Schema{
 		Type:     spec.TypeObject,
 		Nullable: true,
+		Enum:     []spec.Any{spec.Any("null")},
 	})
 
 	return s, nil
-- 
2.43.0


From d5c269b0680b7f7468152611e6a1e6205514b9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:09 +0000
Subject: [PATCH 76/82] fix: values written as text because of json option were
 not described as text

---
 internal/oapi/scan/types/types.go | 37 +++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 2951748..c453fa1 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -2,6 +2,7 @@ package types
 
 import (
 	"go/types"
+	"reflect"
 	"strings"
 
 	"github.com/buypal/oapi-go/internal/oapi/spec"
@@ -216,6 +217,13 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 			return
 		}
 
+		if x.text && len(x.tag.Type) == 0 {
+			pschema, err = text2schema(pschema.Nullable, x.tag)
+			if err != nil {
+				return
+			}
+		}
+
 		name := x.field.Name()
 		if len(x.tag.Name) > 0 {
 			name = x.tag.Name
@@ -516,6 +524,33 @@ func basicString2schema(t string, tg tag.Tag) (s *spec.Schema, err error) {
 	}
 }
 
+// text2schema returns schema of value written as text.
+func text2schema(nullable bool, tg tag.Tag) (s *spec.Schema, err error) {
+	s, err = basic2schema(types.String, tg)
+	if err != nil {
+		return
+	}
+	s.Nullable = nullable
+	return
+}
+
+// isText reports if encoding/json is told to write value as text, it does so
+// for basic types only.
+func isText(t types.Type, rawtag string) bool {
+	if p, ok := t.(*types.Pointer); ok {
+		t = p.Elem()
+	}
+	if _, ok := t.Underlying().(*types.Basic); !ok {
+		return false
+	}
+	for _, opt := range strings.Split(reflect.StructTag(rawtag).Get("json"), ",")[1:] {
+		if opt == "string" {
+			return true
+		}
+	}
+	return false
+}
+
 func castInlineStruct(t *types.Var, tg tag.Tag) (*types.Struct, bool) {
 	tx := t.Type().Underlying()
 	// check for pointer
@@ -538,6 +573,7 @@ type structField struct {
 	field *types.Var
 	tag   tag.Tag
 	depth int
+	text  bool
 }
 
 // name of the property
@@ -606,6 +642,7 @@ func collectStructFields(t *types.Struct, p path) (arr []structField, err error)
 				field: x,
 				tag:   tx,
 				depth: len(p),
+				text:  isText(x.Type(), t.Tag(i)),
 			})
 		}
 	}
-- 
2.43.0


From ea38de7b9057e84df5f714b7a1706fbd64fd3a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:10 +0000
Subject: [PATCH 77/82] fix: bytes are written as text and not as array of
 numbers

---
 internal/oapi/scan/types/types.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index c453fa1..c816bdb 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -275,6 +275,19 @@ func map2schema(t *types.Map, m pointmap, tp path, tg tag.Tag) (s *spec.Schema,
 }
 
 func slice2schema(t *types.Slice, m pointmap, tp path, tg tag.Tag) (s *spec.Schema, err error) {
+	// encoding/json writes bytes as base64 encoded text
+	if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
+		s, err = text2schema(true, tg)
+		if err != nil {
+			return
+		}
+		s.Format = "byte"
+		if tg.Nullable != nil {
+			s.Nullable = *tg.Nullable
+		}
+		return
+	}
+
 	sch, err := typeElement2schema(t, m, tp, tg)
 	if err != nil {
 		return
-- 
2.43.0


From cbf0f394751c2c3c99ba3e164140b2531341c53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:56 +0000
Subject: [PATCH 78/82] fix: specifications of vendored packages and of
 packages outside of modules were not found

---
 internal/pkgutil/info.go | 4 ++++
 oapi.go                  | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/pkgutil/info.go b/internal/pkgutil/info.go
index 85e333b..56c2bd9 100644
--- a/internal/pkgutil/info.go
+++ b/internal/pkgutil/info.go
@@ -19,6 +19,10 @@ func getGoPath() string {
 }
 
 func getPkgPath(pkg *packages.Package) (string, bool) {
+	// directory is not known by module if package is vendored or out of modules
+	if (pkg.Module == nil || len(pkg.Module.Dir) == 0) && len(pkg.GoFiles) > 0 {
+		return filepath.Dir(pkg.GoFiles[0]), true
+	}
 	if pkg.Module == nil {
 		p := filepath.Join(getGoPath(), pkg.PkgPath)
 		if _, err := os.Stat(p); os.IsNotExist(err) {
diff --git a/oapi.go b/oapi.go
index 874ff08..ccaaae3 100644
--- a/oapi.go
+++ b/oapi.go
@@ -19,7 +19,7 @@ import (
 	"golang.org/x/tools/go/packages"
 )
 
-const pkgMode = packages.NeedSyntax | packages.NeedTypes | packages.NeedImports | packages.NeedDeps | packages.NeedName | packages.NeedModule
+const pkgMode = packages.NeedSyntax | packages.NeedTypes | packages.NeedImports | packages.NeedDeps | packages.NeedName | packages.NeedModule | packages.NeedFiles
 
 var order = []string{
 	"openapi",
-- 
2.43.0


From 5b1b8e764aebeb1b995737994953fb8c1762a7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:37 +0000
Subject: [PATCH 79/82] fix: time of scan was exponential in number of types
 referring to each other

---
 internal/oapi/scan/types/point.go | 27 +++++++++++++++++++++++++++
 internal/oapi/scan/types/scan.go  |  1 +
 internal/oapi/scan/types/types.go | 25 +++++++++++++++----------
 3 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/internal/oapi/scan/types/point.go b/internal/oapi/scan/types/point.go
index 1af19e2..679892d 100644
--- a/internal/oapi/scan/types/point.go
+++ b/internal/oapi/scan/types/point.go
@@ -98,6 +98,25 @@ func (s points) String() string {
 type pointmap struct {
 	m   typeutil.Map
 	std map[string]spec.Schema // pointers to types with assigned schema
+
+	refs    pointer.Pointers // pointers being referenced
+	visited typeutil.Map     // named types collected already
+}
+
+// wants reports if there is reference to something inside of given pointer.
+func (tp *pointmap) wants(p point) bool {
+	prefix := p.String() + "/"
+	for ref := range tp.refs {
+		if strings.HasPrefix(ref, prefix) {
+			return true
+		}
+	}
+	return false
+}
+
+// visit returns true if named type is visited for the first time.
+func (tp *pointmap) visit(t *types.Named) bool {
+	return tp.visited.Set(t, true) == nil
 }
 
 func (tp *pointmap) setStd(p point, sch spec.Schema) {
@@ -107,6 +126,14 @@ func (tp *pointmap) setStd(p point, sch spec.Schema) {
 	tp.std[p.String()] = sch
 }
 
+// add saves pointer to type.
+func (tp *pointmap) add(t types.Type, p point) {
+	if sch, ok := std2schema(t); ok {
+		tp.setStd(p, sch)
+	}
+	tp.append(t.Underlying(), p)
+}
+
 func (tp pointmap) len(t types.Type, r point) bool {
 	return tp.at(t).Len() > 0
 }
diff --git a/internal/oapi/scan/types/scan.go b/internal/oapi/scan/types/scan.go
index 0381fd3..430b250 100644
--- a/internal/oapi/scan/types/scan.go
+++ b/internal/oapi/scan/types/scan.go
@@ -18,6 +18,7 @@ type Scanner struct {
 func NewScanner(ptrs pointer.Pointers) *Scanner {
 	return &Scanner{
 		Pointers: ptrs,
+		points:   pointmap{refs: ptrs},
 	}
 }
 
diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index c816bdb..aa47d50 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -37,11 +37,8 @@ type elementer interface {
 // Later it is save to PtrType (last arg).
 // First argument is pointer to be saved, type and map.
 func walk(r point, t types.Type, p path, m *pointmap) (err error) {
-	if sch, ok := std2schema(t); ok {
-		m.setStd(r, sch)
-	}
+	m.add(t, r)
 	t = t.Underlying()
-	m.append(t, r)
 
 	p, visited := p.visit(t)
 	if visited {
@@ -85,15 +82,23 @@ func walk(r point, t types.Type, p path, m *pointmap) (err error) {
 	}
 
 	for _, e := range next {
-		err = walk(e.p, e.t, p, m)
+		named, ok := e.t.(*types.Named)
+		// predeclared types (error) do not belong to any package
+		ok = ok && named.Obj().Pkg() != nil
+
+		// content of named type has its own pointers, there would be too many
+		// of them if it was collected for each place type is used at.
+		if ok && !m.wants(e.p) {
+			m.add(e.t, e.p)
+		} else {
+			err = walk(e.p, e.t, p, m)
+		}
 		if err != nil {
 			return
 		}
-		named, ok := e.t.(*types.Named)
-		// predeclared types (error) do not belong to any package
-		if ok && named.Obj().Pkg() != nil {
-			np := newPoint(named.Obj())
-			err = walk(np, e.t, p, m)
+
+		if ok && m.visit(named) {
+			err = walk(newPoint(named.Obj()), e.t, path{}, m)
 		}
 		if err != nil {
 			return
-- 
2.43.0


From c1e7c2c1058ad891c0ad33bd53430d292dd3bd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:37 +0000
Subject: [PATCH 80/82] fix: override of time.Time had no effect on fields

---
 internal/oapi/scan/types/point.go | 2 ++
 internal/oapi/scan/types/scan.go  | 9 +++++++++
 internal/oapi/scan/types/types.go | 2 +-
 oapi.go                           | 3 +++
 4 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/scan/types/point.go b/internal/oapi/scan/types/point.go
index 679892d..df1ae4a 100644
--- a/internal/oapi/scan/types/point.go
+++ b/internal/oapi/scan/types/point.go
@@ -99,6 +99,8 @@ type pointmap struct {
 	m   typeutil.Map
 	std map[string]spec.Schema // pointers to types with assigned schema
 
+	overridden map[string]bool // pointers having override
+
 	refs    pointer.Pointers // pointers being referenced
 	visited typeutil.Map     // named types collected already
 }
diff --git a/internal/oapi/scan/types/scan.go b/internal/oapi/scan/types/scan.go
index 430b250..01c3e3a 100644
--- a/internal/oapi/scan/types/scan.go
+++ b/internal/oapi/scan/types/scan.go
@@ -22,6 +22,15 @@ func NewScanner(ptrs pointer.Pointers) *Scanner {
 	}
 }
 
+// Override tells that there is override for given pointer, schema which is
+// assigned to its type is not used then.
+func (r *Scanner) Override(ptr string) {
+	if r.points.overridden == nil {
+		r.points.overridden = make(map[string]bool)
+	}
+	r.points.overridden[ptr] = true
+}
+
 // Resolve will return new pointer and scheme, new pointer might be returned in cases
 // where original pointer is not fully resolved.
 func (r *Scanner) Resolve(ptr pointer.Pointer) (*spec.Schema, error) {
diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index aa47d50..bc1c6c4 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -402,7 +402,7 @@ func reference2schema(t types.Type, m pointmap, tp path, tg tag.Tag) (s *spec.Sc
 			ptr = p
 		}
 	}
-	if sch, ok := refStdMapping[ptr.String()]; ok {
+	if sch, ok := refStdMapping[ptr.String()]; ok && !m.overridden[ptr.String()] {
 		return &sch, nil
 	}
 	s = &spec.Schema{}
diff --git a/oapi.go b/oapi.go
index ccaaae3..1658724 100644
--- a/oapi.go
+++ b/oapi.go
@@ -206,6 +206,9 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 
 	// collect and handle types
 	tps := types.NewScanner(pp)
+	for ptr := range opts.override {
+		tps.Override(ptr)
+	}
 	err = pkgutil.Scan(pkgs, tps)
 	if err != nil {
 		return
-- 
2.43.0


From a400ddbee6ed10cec3f9cff33d23aec77df3eb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:48 +0000
Subject: [PATCH 81/82] fix: look-alike letters in pattern of route do not
 change its method prefix

---
 internal/route/route.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/route/route.go b/internal/route/route.go
index f8ead53..21be6d8 100644
--- a/internal/route/route.go
+++ b/internal/route/route.go
@@ -60,9 +60,10 @@ func Match(pattern, method, path string) (bool, error) {
 	var fm string
 	for _, m := range methods {
 		met := strings.ToLower(m)
-		if strings.HasPrefix(strings.ToLower(pattern), met+":") {
+		// ToLower could change length of pattern
+		if n := len(m); len(pattern) > n && pattern[n] == ':' && strings.EqualFold(pattern[:n], m) {
 			fm = met
-			pattern = pattern[len(m)+1:]
+			pattern = pattern[n+1:]
 			break
 		}
 	}
-- 
2.43.0


From 205f0341a96ea1012c130349b80253cbbfcb9d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:49 +0000
Subject: [PATCH 82/82] fix: yaml keys of same text are an error, not one of
 them at random

---
 internal/container/container.go |  3 +++
 internal/container/utils.go     | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/internal/container/container.go b/internal/container/container.go
index aa9c969..7c938a5 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -63,6 +63,9 @@ func ReadJSON(data []byte) (c Container, err error) {
 func ReadYAML(data []byte) (c Container, err error) {
 	var i map[string]interface{}
 	err = yaml.Unmarshal(data, &i)
+	if err == nil {
+		err = sameKeys(i)
+	}
 	if err != nil {
 		err = errors.Wrapf(err, "failed to unmarshal yaml")
 		return
diff --git a/internal/container/utils.go b/internal/container/utils.go
index 54f830f..f3af958 100644
--- a/internal/container/utils.go
+++ b/internal/container/utils.go
@@ -159,6 +159,38 @@ func wrap(c interface{}) Container {
 	}
 }
 
+// sameKeys fails when v has an object with keys which are distinct in YAML but
+// of same text, such as 200 and "200". Just one of them could be kept.
+func sameKeys(v interface{}) (err error) {
+	switch t := v.(type) {
+	case map[interface{}]interface{}:
+		seen := make(map[string]bool, len(t))
+		for k, e := range t {
+			s := fmt.Sprint(k)
+			if seen[s] {
+				return errors.Errorf("key %q is present more than once", s)
+			}
+			seen[s] = true
+			if err = sameKeys(e); err != nil {
+				return
+			}
+		}
+	case map[string]interface{}:
+		for _, e := range t {
+			if err = sameKeys(e); err != nil {
+				return
+			}
+		}
+	case []interface{}:
+		for _, e := range t {
+			if err = sameKeys(e); err != nil {
+				return
+			}
+		}
+	}
+	return
+}
+
 // mmap walks the given dynamic object recursively, and
 // converts maps with interface{} key type to maps with string key type.
 // This function comes handy if you want to marshal a dynamic object into
-- 
2.43.0

