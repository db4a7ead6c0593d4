From 96b4fbee2435a2637c309fd11cddcdf8f89c51d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:52 +0000
Subject: [PATCH 01/19] fix: store a library's annotationTypes in its
 annotation types

The reader put the declarations of the annotationTypes facet into the
library's annotations, so AnnotationTypes() stayed empty and writing the
library emitted each declaration as a top level facet.
---
 v0/internal/raml/Library.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index dc1be5e..76b7ec4 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -212,7 +212,7 @@ func (l Library) MarshalYAML() (interface{}, error) {
 func (l *Library) assign(k, v *yaml.Node) error {
 	switch k.Value {
 	case rmeta.KeyAnnotationTypes:
-		return UnmarshalAnnotationMapRAML(l.annotations, v)
+		return UnmarshalUntypedMapRAML(l.annotationTypes, v)
 	case rmeta.KeyResourceTypes:
 		return UnmarshalUntypedMapRAML(l.resourceTypes, v)
 	case rmeta.KeyTypes, rmeta.KeySchemas:
-- 
2.43.0


From ae22006aeec6b05721531e463a7a6d95248925b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:10 +0000
Subject: [PATCH 02/19] fix: do not panic on empty map keys while parsing

The readers looked at the first byte of a key to recognise annotations and
resources, which panics for an empty key.
---
 v0/gen/example-m.tpl                      | 3 ++-
 v0/internal/raml/APISpec.go               | 5 +++--
 v0/internal/raml/Library.go               | 3 ++-
 v0/internal/raml/in-components.go         | 3 ++-
 v0/internal/raml/x-gen-ex-any.go          | 3 ++-
 v0/internal/raml/x-gen-ex-array.go        | 3 ++-
 v0/internal/raml/x-gen-ex-bool.go         | 3 ++-
 v0/internal/raml/x-gen-ex-custom.go       | 3 ++-
 v0/internal/raml/x-gen-ex-dateonly.go     | 3 ++-
 v0/internal/raml/x-gen-ex-datetime.go     | 3 ++-
 v0/internal/raml/x-gen-ex-datetimeonly.go | 3 ++-
 v0/internal/raml/x-gen-ex-file.go         | 3 ++-
 v0/internal/raml/x-gen-ex-integer.go      | 3 ++-
 v0/internal/raml/x-gen-ex-number.go       | 3 ++-
 v0/internal/raml/x-gen-ex-object.go       | 3 ++-
 v0/internal/raml/x-gen-ex-string.go       | 3 ++-
 v0/internal/raml/x-gen-ex-timeonly.go     | 3 ++-
 v0/internal/raml/x-gen-ex-union.go        | 3 ++-
 18 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index e2d59fa..17e7721 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -9,6 +9,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // New{{.Name}}Example returns a new internal implementation of the
@@ -157,7 +158,7 @@ func (e *{{.Name}}Example) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/APISpec.go b/v0/internal/raml/APISpec.go
index c361b69..ffdd42c 100644
--- a/v0/internal/raml/APISpec.go
+++ b/v0/internal/raml/APISpec.go
@@ -8,6 +8,7 @@ import (
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 	"io"
+	"strings"
 )
 
 func NewApiSpec() *APISpec {
@@ -379,7 +380,7 @@ func (a *APISpec) assign(k, v *yaml.Node) error {
 		return nil
 	}
 
-	if k.Value[0] == '(' {
+	if strings.HasPrefix(k.Value, "(") {
 		tmp := raml.NewUntypedMap(len(v.Content) / 2)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
@@ -388,7 +389,7 @@ func (a *APISpec) assign(k, v *yaml.Node) error {
 		return nil
 	}
 
-	if k.Value[0] == '/' {
+	if strings.HasPrefix(k.Value, "/") {
 		a.resources.Put(k.Value, v)
 		return nil
 	}
diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index 76b7ec4..0e973f5 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -8,6 +8,7 @@ import (
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 	"io"
+	"strings"
 )
 
 func NewLibrary() *Library {
@@ -227,7 +228,7 @@ func (l *Library) assign(k, v *yaml.Node) error {
 		return UnmarshalUntypedMapRAML(l.securitySchemes, v)
 	}
 
-	if xyml.IsString(k) && k.Value[0] == '(' {
+	if xyml.IsString(k) && strings.HasPrefix(k.Value, "(") {
 		tmp := raml.NewUntypedMap(len(v.Content) / 2)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
diff --git a/v0/internal/raml/in-components.go b/v0/internal/raml/in-components.go
index 62b84b1..3972c4e 100644
--- a/v0/internal/raml/in-components.go
+++ b/v0/internal/raml/in-components.go
@@ -3,6 +3,7 @@ package raml
 import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 /******************************************************************************/
@@ -24,7 +25,7 @@ func (h *hasAnnotations) out(out raml.AnyMap) {
 }
 
 func (h *hasAnnotations) in(k string, v *yaml.Node) (bool, error) {
-	if k[0] != '(' {
+	if !strings.HasPrefix(k, "(") {
 		return false, nil
 	}
 
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index f6f00e3..734dad3 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewAnyExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *AnyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-array.go b/v0/internal/raml/x-gen-ex-array.go
index b2b7c78..1509c83 100644
--- a/v0/internal/raml/x-gen-ex-array.go
+++ b/v0/internal/raml/x-gen-ex-array.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewArrayExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *ArrayExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-bool.go b/v0/internal/raml/x-gen-ex-bool.go
index 57d54a0..42ba79c 100644
--- a/v0/internal/raml/x-gen-ex-bool.go
+++ b/v0/internal/raml/x-gen-ex-bool.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewBoolExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *BoolExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index 1b2921e..1bcb539 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewCustomExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *CustomExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index 978a154..98abc6d 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewDateOnlyExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *DateOnlyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index 41892ba..83b513e 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewDatetimeExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *DatetimeExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index ea01bed..c5069b1 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewDatetimeOnlyExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *DatetimeOnlyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index 06f99d5..f3c2ad8 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewFileExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *FileExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-integer.go b/v0/internal/raml/x-gen-ex-integer.go
index cd98696..6ee6339 100644
--- a/v0/internal/raml/x-gen-ex-integer.go
+++ b/v0/internal/raml/x-gen-ex-integer.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewIntegerExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *IntegerExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index 5c644a6..c8e7552 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewNumberExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *NumberExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index 28d8833..5aea9b9 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewObjectExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *ObjectExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-string.go b/v0/internal/raml/x-gen-ex-string.go
index 6b7ae17..3d5046c 100644
--- a/v0/internal/raml/x-gen-ex-string.go
+++ b/v0/internal/raml/x-gen-ex-string.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewStringExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *StringExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index c499f36..50d76d0 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewTimeOnlyExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *TimeOnlyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index 6a23242..337b802 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewUnionExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *UnionExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
-- 
2.43.0


From 9688522b1f1443258f5896f4a98b53a53f6bcde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:51 +0000
Subject: [PATCH 03/19] fix: let nil and include types be used as object
 properties

Object properties need a required flag.  The nil and include types had none,
so a property of one of those types made the parser panic in an unchecked
type assertion.
---
 v0/gen/type-m/base.tpl                 | 38 ++++++++++++++++++++++----
 v0/internal/raml/x-gen-type-include.go | 22 ++++++++++++++-
 v0/internal/raml/x-gen-type-nil.go     | 31 ++++++++++++++++++++-
 3 files changed, 84 insertions(+), 7 deletions(-)

diff --git a/v0/gen/type-m/base.tpl b/v0/gen/type-m/base.tpl
index b8f4413..8756889 100644
--- a/v0/gen/type-m/base.tpl
+++ b/v0/gen/type-m/base.tpl
@@ -3,12 +3,10 @@ package raml
 
 {{define "base" -}}
 import (
-	{{if eq .Name "Include" -}}
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
-	"gopkg.in/yaml.v3"
-
-{{- end}}
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
+	"gopkg.in/yaml.v3"
 )
 
 // New{{.Name}}Type returns a new internal implementation of
@@ -16,7 +14,7 @@ import (
 //
 // Generated @ {{.Time}}
 func New{{.Name}}Type() *{{.Name}}Type {
-	out := &{{.Name}}Type{}
+	out := &{{.Name}}Type{required: true}
 
 	out.DataType = NewDataType(rmeta.Type{{.Name}}, out)
 
@@ -29,6 +27,12 @@ func New{{.Name}}Type() *{{.Name}}Type {
 // Generated @ {{.Time}}
 type {{.Name}}Type struct {
 	*DataType
+
+	required bool
+}
+
+func (o *{{.Name}}Type) Required() bool {
+	return o.required
 }
 {{if eq .Name "Include"}}
 func (a {{.Name}}Type) marshal(out raml.AnyMap) error {
@@ -37,9 +41,33 @@ func (a {{.Name}}Type) marshal(out raml.AnyMap) error {
 		Tag: "!include",
 		Value: a.DataType.schema,
 	})
+
+	if !a.required {
+		out.Put(rmeta.KeyRequired, a.required)
+	}
+
 	a.DataType.hasExtra.out(out)
 
 	return nil
 }
+{{else}}
+func (o *{{.Name}}Type) marshal(out raml.AnyMap) error {
+	if err := o.DataType.marshal(out); err != nil {
+		return err
+	}
+
+	if !o.required {
+		out.Put(rmeta.KeyRequired, o.required)
+	}
+
+	return nil
+}
 {{end}}
+func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
+	if key.Value == rmeta.KeyRequired {
+		return assign.AsBool(val, &o.required)
+	}
+
+	return o.DataType.assign(key, val)
+}
 {{end}}
\ No newline at end of file
diff --git a/v0/internal/raml/x-gen-type-include.go b/v0/internal/raml/x-gen-type-include.go
index f559966..342965f 100644
--- a/v0/internal/raml/x-gen-type-include.go
+++ b/v0/internal/raml/x-gen-type-include.go
@@ -1,6 +1,7 @@
 package raml
 
 import (
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"gopkg.in/yaml.v3"
@@ -11,7 +12,7 @@ import (
 //
 // Generated @ 2023-01-17T10:02:54.294844187-05:00
 func NewIncludeType() *IncludeType {
-	out := &IncludeType{}
+	out := &IncludeType{required: true}
 
 	out.DataType = NewDataType(rmeta.TypeInclude, out)
 
@@ -24,6 +25,12 @@ func NewIncludeType() *IncludeType {
 // Generated @ 2023-01-17T10:02:54.294844187-05:00
 type IncludeType struct {
 	*DataType
+
+	required bool
+}
+
+func (o *IncludeType) Required() bool {
+	return o.required
 }
 
 func (a IncludeType) marshal(out raml.AnyMap) error {
@@ -32,7 +39,20 @@ func (a IncludeType) marshal(out raml.AnyMap) error {
 		Tag:   "!include",
 		Value: a.DataType.schema,
 	})
+
+	if !a.required {
+		out.Put(rmeta.KeyRequired, a.required)
+	}
+
 	a.DataType.hasExtra.out(out)
 
 	return nil
 }
+
+func (o *IncludeType) assign(key, val *yaml.Node) error {
+	if key.Value == rmeta.KeyRequired {
+		return assign.AsBool(val, &o.required)
+	}
+
+	return o.DataType.assign(key, val)
+}
diff --git a/v0/internal/raml/x-gen-type-nil.go b/v0/internal/raml/x-gen-type-nil.go
index 5570dac..44f32fb 100644
--- a/v0/internal/raml/x-gen-type-nil.go
+++ b/v0/internal/raml/x-gen-type-nil.go
@@ -1,7 +1,10 @@
 package raml
 
 import (
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
+	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
+	"gopkg.in/yaml.v3"
 )
 
 // NewNilType returns a new internal implementation of
@@ -9,7 +12,7 @@ import (
 //
 // Generated @ 2023-01-17T10:02:54.294844187-05:00
 func NewNilType() *NilType {
-	out := &NilType{}
+	out := &NilType{required: true}
 
 	out.DataType = NewDataType(rmeta.TypeNil, out)
 
@@ -22,4 +25,30 @@ func NewNilType() *NilType {
 // Generated @ 2023-01-17T10:02:54.294844187-05:00
 type NilType struct {
 	*DataType
+
+	required bool
+}
+
+func (o *NilType) Required() bool {
+	return o.required
+}
+
+func (o *NilType) marshal(out raml.AnyMap) error {
+	if err := o.DataType.marshal(out); err != nil {
+		return err
+	}
+
+	if !o.required {
+		out.Put(rmeta.KeyRequired, o.required)
+	}
+
+	return nil
+}
+
+func (o *NilType) assign(key, val *yaml.Node) error {
+	if key.Value == rmeta.KeyRequired {
+		return assign.AsBool(val, &o.required)
+	}
+
+	return o.DataType.assign(key, val)
 }
-- 
2.43.0


From 0f6a4817e225510deb77561f953976045fa77c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 04/19] fix: read examples of types of kind any

---
 v0/internal/raml/fn-sorting-hat-example.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/v0/internal/raml/fn-sorting-hat-example.go b/v0/internal/raml/fn-sorting-hat-example.go
index 7c85223..ecc6054 100644
--- a/v0/internal/raml/fn-sorting-hat-example.go
+++ b/v0/internal/raml/fn-sorting-hat-example.go
@@ -13,6 +13,8 @@ func ExampleSortingHat(kind rmeta.DataTypeKind) (raml.Example, error) {
 	logrus.Trace("internal.ExampleSortingHat")
 
 	switch kind {
+	case rmeta.TypeAny:
+		return NewAnyExample(), nil
 	case rmeta.TypeString:
 		return NewStringExample(), nil
 	case rmeta.TypeObject:
-- 
2.43.0


From ed1e93dfa3b42a416dad5bb68b4cef2377773bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 05/19] fix: read an empty type declaration as a string type

The check for an empty declaration tested the node pointer, which is never
nil, so an empty declaration was rejected.
---
 v0/internal/raml/fn-sorting-hat-type.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/v0/internal/raml/fn-sorting-hat-type.go b/v0/internal/raml/fn-sorting-hat-type.go
index a7b0b8b..8700d11 100644
--- a/v0/internal/raml/fn-sorting-hat-type.go
+++ b/v0/internal/raml/fn-sorting-hat-type.go
@@ -2,7 +2,6 @@ package raml
 
 import (
 	"fmt"
-	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
@@ -50,7 +49,7 @@ func TypeSortingHat(val *yaml.Node) (out raml.DataType, err error) {
 		return out, nil
 	}
 
-	if util.IsNil(val) {
+	if xyml.IsNilType(val) {
 		return NewStringType(), nil
 	}
 
-- 
2.43.0


From f2bddf55053274cb69ac7e2d9549a7eba959f361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:40 +0000
Subject: [PATCH 06/19] fix: accept an included type in an expanded type
 declaration

The type sorter picks an include type for such a declaration, but reading the
type facet itself then failed because an include is not a string.
---
 v0/internal/raml/DataType.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index 70c3338..d04eb59 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -100,7 +100,9 @@ func (d *DataType) marshal(out raml.AnyMap) error {
 func (d *DataType) assign(key, val *yaml.Node) error {
 	switch key.Value {
 	case rmeta.KeyType, rmeta.KeySchema:
-		if err := xyml.RequireString(val); err != nil {
+		if val.Kind == yaml.ScalarNode && val.Tag == "!include" {
+			d.schema = val.Value
+		} else if err := xyml.RequireString(val); err != nil {
 			return err
 		} else {
 			d.schema = val.Value
-- 
2.43.0


From f720692f80cfc80344f7ef79d7b391580f7bd170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:43 +0000
Subject: [PATCH 07/19] fix: implement ToRAML for data types

The public method panicked.
---
 v0/internal/raml/DataType.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index d04eb59..f855e0d 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -44,7 +44,14 @@ func (d *DataType) Kind() rmeta.DataTypeKind {
 }
 
 func (d *DataType) ToRAML() (string, error) {
-	panic("implement me")
+	node, err := d.ToYAML()
+	if err != nil {
+		return "", err
+	}
+
+	out, err := yaml.Marshal(node)
+
+	return string(out), err
 }
 
 func (d DataType) ToYAML() (*yaml.Node, error) {
-- 
2.43.0


From a3e5dfd327d9e6b32fc0d39139a460970f1d6858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:45 +0000
Subject: [PATCH 08/19] fix: report documentation titles and contents that are
 not strings

They were silently replaced by an empty string.
---
 v0/internal/raml/Documentation.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v0/internal/raml/Documentation.go b/v0/internal/raml/Documentation.go
index f4e5858..ae0201c 100644
--- a/v0/internal/raml/Documentation.go
+++ b/v0/internal/raml/Documentation.go
@@ -1,6 +1,7 @@
 package raml
 
 import (
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
@@ -50,9 +51,9 @@ func (d *Documentation) UnmarshalRAML(val *yaml.Node) error {
 	return xyml.MapForEach(val, func(k, v *yaml.Node) error {
 		switch k.Value {
 		case rmeta.KeyTitle:
-			d.title = v.Value
+			return assign.AsString(v, &d.title)
 		case rmeta.KeyContent:
-			d.content = v.Value
+			return assign.AsString(v, &d.content)
 		default:
 			if key, err := xyml.ToScalarValue(k); err != nil {
 				return err
-- 
2.43.0


From 6be12b69286ae9e510f14e7d3174fec6721750bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:48 +0000
Subject: [PATCH 09/19] fix: report type facets whose key is not a scalar

A sequence or mapping key was stored as an empty string key, so the entry lost
its key and several such entries replaced each other.
---
 v0/internal/raml/DataType.go      |  3 +--
 v0/internal/raml/in-components.go | 12 ++++++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index f855e0d..2cf5b73 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -117,6 +117,5 @@ func (d *DataType) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	d.hasExtra.in(key, val)
-	return nil
+	return d.hasExtra.in(key, val)
 }
diff --git a/v0/internal/raml/in-components.go b/v0/internal/raml/in-components.go
index 3972c4e..d1022ca 100644
--- a/v0/internal/raml/in-components.go
+++ b/v0/internal/raml/in-components.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
+	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 	"strings"
 )
@@ -60,6 +61,13 @@ func (h *hasExtra) out(out raml.AnyMap) {
 	h.mp.ForEach(func(k, v interface{}) { out.Put(k, v) })
 }
 
-func (h *hasExtra) in(k, v *yaml.Node) {
-	h.mp.Put(k.Value, v)
+func (h *hasExtra) in(k, v *yaml.Node) error {
+	key, err := xyml.ToScalarValue(k)
+	if err != nil {
+		return err
+	}
+
+	h.mp.Put(key, v)
+
+	return nil
 }
-- 
2.43.0


From 7a0ae9b3eb7df9e657adb1ec8e770574f0eda448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 10/19] fix: give documentation entries and xml descriptors a
 YAML form

Neither could be encoded, so writing a document that has one of them failed.
---
 v0/internal/raml/Documentation.go | 9 +++++++++
 v0/internal/raml/type-xml.go      | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/v0/internal/raml/Documentation.go b/v0/internal/raml/Documentation.go
index ae0201c..1efc045 100644
--- a/v0/internal/raml/Documentation.go
+++ b/v0/internal/raml/Documentation.go
@@ -47,6 +47,15 @@ func (d *Documentation) MarshalRAML(out raml.AnyMap) (simple bool, err error) {
 	return false, nil
 }
 
+func (d Documentation) ToYAML() (*yaml.Node, error) {
+	out := raml.NewAnyMap(2 + d.extra.Len()).SerializeOrdered(false)
+	if _, err := d.MarshalRAML(out); err != nil {
+		return nil, err
+	}
+
+	return out.ToYAML()
+}
+
 func (d *Documentation) UnmarshalRAML(val *yaml.Node) error {
 	return xyml.MapForEach(val, func(k, v *yaml.Node) error {
 		switch k.Value {
diff --git a/v0/internal/raml/type-xml.go b/v0/internal/raml/type-xml.go
index 869366c..5194244 100644
--- a/v0/internal/raml/type-xml.go
+++ b/v0/internal/raml/type-xml.go
@@ -108,6 +108,15 @@ func (x XML) MarshalRAML(out raml.AnyMap) (bool, error) {
 	return false, nil
 }
 
+func (x XML) ToYAML() (*yaml.Node, error) {
+	out := raml.NewAnyMap(5).SerializeOrdered(false)
+	if _, err := x.MarshalRAML(out); err != nil {
+		return nil, err
+	}
+
+	return out.ToYAML()
+}
+
 func (x *XML) assign(key, val *yaml.Node) error {
 	switch key.Value {
 	case rmeta.KeyAttribute:
-- 
2.43.0


From ee7f938277f29dbdf33085ce693630abfcb006a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:24 +0000
Subject: [PATCH 11/19] fix: write the extra facets of xml descriptors

They were read but dropped when writing.
---
 v0/internal/raml/type-xml.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/v0/internal/raml/type-xml.go b/v0/internal/raml/type-xml.go
index 5194244..b807186 100644
--- a/v0/internal/raml/type-xml.go
+++ b/v0/internal/raml/type-xml.go
@@ -11,7 +11,7 @@ import (
 
 func NewXML() *XML {
 	return &XML{
-		extra: make(map[interface{}]interface{}),
+		extra: raml.NewAnyMap(0).SerializeOrdered(false),
 	}
 }
 
@@ -21,7 +21,7 @@ type XML struct {
 	name   *string
 	ns     *string
 	pref   *string
-	extra  map[interface{}]interface{}
+	extra  raml.AnyMap
 }
 
 func (x *XML) IsAttribute() option.Bool {
@@ -105,6 +105,8 @@ func (x XML) MarshalRAML(out raml.AnyMap) (bool, error) {
 		PutIfNotNil(rmeta.KeyNamespace, x.ns).
 		PutIfNotNil(rmeta.KeyPrefix, x.pref)
 
+	x.extra.ForEach(func(k, v interface{}) { out.Put(k, v) })
+
 	return false, nil
 }
 
@@ -133,7 +135,7 @@ func (x *XML) assign(key, val *yaml.Node) error {
 		if k, err := xyml.ToScalarValue(key); err != nil {
 			return err
 		} else {
-			x.extra[k] = val
+			x.extra.Put(k, val)
 		}
 	}
 
-- 
2.43.0


From 30f1c25c7cc6040fbddf7fc23bacde6f6f8fd79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:07 +0000
Subject: [PATCH 12/19] fix: keep untyped example values as YAML nodes

They were stored as node values, which the encoder does not accept, so writing
a parsed document with such an example failed.
---
 v0/gen/example-m.tpl                | 2 +-
 v0/internal/raml/x-gen-ex-any.go    | 2 +-
 v0/internal/raml/x-gen-ex-custom.go | 2 +-
 v0/internal/raml/x-gen-ex-file.go   | 2 +-
 v0/internal/raml/x-gen-ex-object.go | 2 +-
 v0/internal/raml/x-gen-ex-union.go  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 17e7721..5ca8f48 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -226,7 +226,7 @@ func (e *{{.Name}}Example) assignVal(val *yaml.Node) error {
 		return nil
 	})
 	{{- else -}}
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 	{{- end}}
 
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index 734dad3..ed03deb 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -190,7 +190,7 @@ func (e *AnyExample) expand() bool {
 }
 
 func (e *AnyExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index 1bcb539..0084fa3 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -190,7 +190,7 @@ func (e *CustomExample) expand() bool {
 }
 
 func (e *CustomExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index f3c2ad8..9ed4a98 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -190,7 +190,7 @@ func (e *FileExample) expand() bool {
 }
 
 func (e *FileExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index 5aea9b9..6a517d3 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -190,7 +190,7 @@ func (e *ObjectExample) expand() bool {
 }
 
 func (e *ObjectExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index 337b802..710c2ae 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -190,7 +190,7 @@ func (e *UnionExample) expand() bool {
 }
 
 func (e *UnionExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
-- 
2.43.0


From 880b474ab23a6380e8a04ef4cd8621de74ee4476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:09 +0000
Subject: [PATCH 13/19] fix: write examples without facets in their short form

The short form was written as a map with an empty key, which reads back as an
example with an extra facet and no value.
---
 v0/gen/example-m.tpl                      | 5 ++++-
 v0/internal/raml/x-gen-ex-any.go          | 5 ++++-
 v0/internal/raml/x-gen-ex-array.go        | 5 ++++-
 v0/internal/raml/x-gen-ex-bool.go         | 5 ++++-
 v0/internal/raml/x-gen-ex-custom.go       | 5 ++++-
 v0/internal/raml/x-gen-ex-dateonly.go     | 5 ++++-
 v0/internal/raml/x-gen-ex-datetime.go     | 5 ++++-
 v0/internal/raml/x-gen-ex-datetimeonly.go | 5 ++++-
 v0/internal/raml/x-gen-ex-file.go         | 5 ++++-
 v0/internal/raml/x-gen-ex-integer.go      | 5 ++++-
 v0/internal/raml/x-gen-ex-number.go       | 5 ++++-
 v0/internal/raml/x-gen-ex-object.go       | 5 ++++-
 v0/internal/raml/x-gen-ex-string.go       | 5 ++++-
 v0/internal/raml/x-gen-ex-timeonly.go     | 5 ++++-
 v0/internal/raml/x-gen-ex-union.go        | 5 ++++-
 15 files changed, 60 insertions(+), 15 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 5ca8f48..c10deaf 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -113,8 +113,11 @@ func (e *{{.Name}}Example) ExtraFacets() raml.AnyMap {
 
 func (e {{.Name}}Example) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index ed03deb..485f197 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -107,8 +107,11 @@ func (e *AnyExample) ExtraFacets() raml.AnyMap {
 
 func (e AnyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-array.go b/v0/internal/raml/x-gen-ex-array.go
index 1509c83..9e8f2a8 100644
--- a/v0/internal/raml/x-gen-ex-array.go
+++ b/v0/internal/raml/x-gen-ex-array.go
@@ -107,8 +107,11 @@ func (e *ArrayExample) ExtraFacets() raml.AnyMap {
 
 func (e ArrayExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-bool.go b/v0/internal/raml/x-gen-ex-bool.go
index 42ba79c..2c4b3f4 100644
--- a/v0/internal/raml/x-gen-ex-bool.go
+++ b/v0/internal/raml/x-gen-ex-bool.go
@@ -107,8 +107,11 @@ func (e *BoolExample) ExtraFacets() raml.AnyMap {
 
 func (e BoolExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index 0084fa3..9ee70d4 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -107,8 +107,11 @@ func (e *CustomExample) ExtraFacets() raml.AnyMap {
 
 func (e CustomExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index 98abc6d..6a034c3 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -107,8 +107,11 @@ func (e *DateOnlyExample) ExtraFacets() raml.AnyMap {
 
 func (e DateOnlyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index 83b513e..9723c0c 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -107,8 +107,11 @@ func (e *DatetimeExample) ExtraFacets() raml.AnyMap {
 
 func (e DatetimeExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index c5069b1..aff4acf 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -107,8 +107,11 @@ func (e *DatetimeOnlyExample) ExtraFacets() raml.AnyMap {
 
 func (e DatetimeOnlyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index 9ed4a98..6e5d3f7 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -107,8 +107,11 @@ func (e *FileExample) ExtraFacets() raml.AnyMap {
 
 func (e FileExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-integer.go b/v0/internal/raml/x-gen-ex-integer.go
index 6ee6339..96c5817 100644
--- a/v0/internal/raml/x-gen-ex-integer.go
+++ b/v0/internal/raml/x-gen-ex-integer.go
@@ -107,8 +107,11 @@ func (e *IntegerExample) ExtraFacets() raml.AnyMap {
 
 func (e IntegerExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index c8e7552..e729af6 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -107,8 +107,11 @@ func (e *NumberExample) ExtraFacets() raml.AnyMap {
 
 func (e NumberExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index 6a517d3..c788f62 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -107,8 +107,11 @@ func (e *ObjectExample) ExtraFacets() raml.AnyMap {
 
 func (e ObjectExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-string.go b/v0/internal/raml/x-gen-ex-string.go
index 3d5046c..1896a7c 100644
--- a/v0/internal/raml/x-gen-ex-string.go
+++ b/v0/internal/raml/x-gen-ex-string.go
@@ -107,8 +107,11 @@ func (e *StringExample) ExtraFacets() raml.AnyMap {
 
 func (e StringExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index 50d76d0..5f8ba8a 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -107,8 +107,11 @@ func (e *TimeOnlyExample) ExtraFacets() raml.AnyMap {
 
 func (e TimeOnlyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index 710c2ae..5947bc7 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -107,8 +107,11 @@ func (e *UnionExample) ExtraFacets() raml.AnyMap {
 
 func (e UnionExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
-- 
2.43.0


From 21aaa56b265dcf4f734100dd026f226d7fd94d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:32 +0000
Subject: [PATCH 14/19] fix: write library created collections as YAML mappings

Annotation values, facet definitions and the empty collections that replace
unset ones were serialised as ordered map sequences, which RAML does not allow
and which cannot be read back.
---
 v0/gen/example-m.tpl                         |  2 +-
 v0/gen/type-m/extended.tpl                   |  8 ++++----
 v0/gen/type-m/object.tpl                     |  2 +-
 v0/internal/raml/APISpec.go                  | 18 +++++++++---------
 v0/internal/raml/Library.go                  | 12 ++++++------
 v0/internal/raml/annotation.go               |  2 +-
 v0/internal/raml/in-components.go            |  6 +++---
 v0/internal/raml/type-datatype-ext.go        |  2 +-
 v0/internal/raml/type-facet.go               |  2 +-
 v0/internal/raml/x-gen-ex-any.go             |  2 +-
 v0/internal/raml/x-gen-ex-array.go           |  2 +-
 v0/internal/raml/x-gen-ex-bool.go            |  2 +-
 v0/internal/raml/x-gen-ex-custom.go          |  2 +-
 v0/internal/raml/x-gen-ex-dateonly.go        |  2 +-
 v0/internal/raml/x-gen-ex-datetime.go        |  2 +-
 v0/internal/raml/x-gen-ex-datetimeonly.go    |  2 +-
 v0/internal/raml/x-gen-ex-file.go            |  2 +-
 v0/internal/raml/x-gen-ex-integer.go         |  2 +-
 v0/internal/raml/x-gen-ex-number.go          |  2 +-
 v0/internal/raml/x-gen-ex-object.go          |  2 +-
 v0/internal/raml/x-gen-ex-string.go          |  2 +-
 v0/internal/raml/x-gen-ex-timeonly.go        |  2 +-
 v0/internal/raml/x-gen-ex-union.go           |  2 +-
 v0/internal/raml/x-gen-type-any.go           |  8 ++++----
 v0/internal/raml/x-gen-type-array.go         |  8 ++++----
 v0/internal/raml/x-gen-type-bool.go          |  8 ++++----
 v0/internal/raml/x-gen-type-custom.go        |  8 ++++----
 v0/internal/raml/x-gen-type-date-only.go     |  8 ++++----
 v0/internal/raml/x-gen-type-datetime-only.go |  8 ++++----
 v0/internal/raml/x-gen-type-datetime.go      |  8 ++++----
 v0/internal/raml/x-gen-type-file.go          |  8 ++++----
 v0/internal/raml/x-gen-type-integer.go       |  8 ++++----
 v0/internal/raml/x-gen-type-number.go        |  8 ++++----
 v0/internal/raml/x-gen-type-object.go        | 10 +++++-----
 v0/internal/raml/x-gen-type-string.go        |  8 ++++----
 v0/internal/raml/x-gen-type-time-only.go     |  8 ++++----
 v0/internal/raml/x-gen-type-union.go         |  8 ++++----
 37 files changed, 98 insertions(+), 98 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index c10deaf..d85345f 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -76,7 +76,7 @@ func (e *{{.Name}}Example) SetAnnotations(ann raml.AnnotationMap) raml.{{.Name}}
 }
 
 func (e *{{.Name}}Example) UnsetAnnotations() raml.{{.Name}}Example {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index 221fcfd..d2aabe9 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -122,7 +122,7 @@ func (o *{{.Name}}Type) SetExamples(examples raml.{{.Name}}ExampleMap) raml.{{.N
 }
 
 func (o *{{.Name}}Type) UnsetExamples() raml.{{.Name}}Type {
-	o.examples = raml.New{{.Name}}ExampleMap(0)
+	o.examples = raml.New{{.Name}}ExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -156,7 +156,7 @@ func (o *{{.Name}}Type) SetAnnotations(annotations raml.AnnotationMap) raml.{{.N
 }
 
 func (o *{{.Name}}Type) UnsetAnnotations() raml.{{.Name}}Type {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -170,7 +170,7 @@ func (o *{{.Name}}Type) SetFacetDefinitions(facets raml.FacetMap) raml.{{.Name}}
 }
 
 func (o *{{.Name}}Type) UnsetFacetDefinitions() raml.{{.Name}}Type {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -208,7 +208,7 @@ func (o *{{.Name}}Type) SetExtraFacets(facets raml.AnyMap) raml.{{.Name}}Type {
 }
 
 func (o *{{.Name}}Type) UnsetExtraFacets() raml.{{.Name}}Type {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/gen/type-m/object.tpl b/v0/gen/type-m/object.tpl
index ea1bdaf..bbeba8a 100644
--- a/v0/gen/type-m/object.tpl
+++ b/v0/gen/type-m/object.tpl
@@ -64,7 +64,7 @@ func (o *{{.Name}}Type) SetProperties(props raml.PropertyMap) raml.{{.Name}}Type
 }
 
 func (o *{{.Name}}Type) UnsetProperties() raml.{{.Name}}Type {
-	o.properties = raml.NewPropertyMap(3)
+	o.properties = raml.NewPropertyMap(3).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/APISpec.go b/v0/internal/raml/APISpec.go
index ffdd42c..6644d4f 100644
--- a/v0/internal/raml/APISpec.go
+++ b/v0/internal/raml/APISpec.go
@@ -158,7 +158,7 @@ func (a *APISpec) SetTypes(t raml.DataTypeMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetTypes() raml.APISpec {
-	a.types = raml.NewDataTypeMap(0)
+	a.types = raml.NewDataTypeMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -175,7 +175,7 @@ func (a *APISpec) SetSchemas(t raml.DataTypeMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetSchemas() raml.APISpec {
-	a.types = raml.NewDataTypeMap(0)
+	a.types = raml.NewDataTypeMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -192,7 +192,7 @@ func (a *APISpec) SetTraits(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetTraits() raml.APISpec {
-	a.traits = raml.NewUntypedMap(0)
+	a.traits = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -209,7 +209,7 @@ func (a *APISpec) SetResourceTypes(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetResourceTypes() raml.APISpec {
-	a.resourceTypes = raml.NewUntypedMap(0)
+	a.resourceTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -226,7 +226,7 @@ func (a *APISpec) SetAnnotationTypes(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetAnnotationTypes() raml.APISpec {
-	a.annotationTypes = raml.NewUntypedMap(0)
+	a.annotationTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -243,7 +243,7 @@ func (a *APISpec) SetAnnotations(t raml.AnnotationMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetAnnotations() raml.APISpec {
-	a.annotations = raml.NewAnnotationMap(0)
+	a.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -260,7 +260,7 @@ func (a *APISpec) SetSecuritySchemes(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetSecuritySchemes() raml.APISpec {
-	a.securitySchemes = raml.NewUntypedMap(0)
+	a.securitySchemes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -291,7 +291,7 @@ func (a *APISpec) SetUses(s raml.StringMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetUses() raml.APISpec {
-	a.uses = raml.NewStringMap(0)
+	a.uses = raml.NewStringMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -381,7 +381,7 @@ func (a *APISpec) assign(k, v *yaml.Node) error {
 	}
 
 	if strings.HasPrefix(k.Value, "(") {
-		tmp := raml.NewUntypedMap(len(v.Content) / 2)
+		tmp := raml.NewUntypedMap(len(v.Content) / 2).SerializeOrdered(false)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
 		}
diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index 0e973f5..544974d 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -49,7 +49,7 @@ func (l *Library) SetAnnotations(a raml.AnnotationMap) raml.Library {
 }
 
 func (l *Library) UnsetAnnotations() raml.Library {
-	l.annotations = raml.NewAnnotationMap(0)
+	l.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -74,7 +74,7 @@ func (l *Library) SetUses(uses raml.StringMap) raml.Library {
 }
 
 func (l *Library) UnsetUses() raml.Library {
-	l.uses = raml.NewStringMap(0)
+	l.uses = raml.NewStringMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -91,7 +91,7 @@ func (l *Library) SetResourceTypes(resTypes raml.UntypedMap) raml.Library {
 }
 
 func (l *Library) UnsetResourceTypes() raml.Library {
-	l.resourceTypes = raml.NewUntypedMap(0)
+	l.resourceTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -112,7 +112,7 @@ func (l *Library) SetTraits(traits raml.UntypedMap) raml.Library {
 }
 
 func (l *Library) UnsetTraits() raml.Library {
-	l.traits = raml.NewUntypedMap(0)
+	l.traits = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -129,7 +129,7 @@ func (l *Library) SetTypes(types raml.DataTypeMap) raml.Library {
 }
 
 func (l *Library) UnsetTypes() raml.Library {
-	l.types = raml.NewDataTypeMap(0)
+	l.types = raml.NewDataTypeMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -229,7 +229,7 @@ func (l *Library) assign(k, v *yaml.Node) error {
 	}
 
 	if xyml.IsString(k) && strings.HasPrefix(k.Value, "(") {
-		tmp := raml.NewUntypedMap(len(v.Content) / 2)
+		tmp := raml.NewUntypedMap(len(v.Content) / 2).SerializeOrdered(false)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
 		}
diff --git a/v0/internal/raml/annotation.go b/v0/internal/raml/annotation.go
index 9c66206..a940194 100644
--- a/v0/internal/raml/annotation.go
+++ b/v0/internal/raml/annotation.go
@@ -5,5 +5,5 @@ import (
 )
 
 func NewAnnotation() raml.Annotation {
-	return raml.Annotation(raml.NewUntypedMap(1))
+	return raml.Annotation(raml.NewUntypedMap(1).SerializeOrdered(false))
 }
diff --git a/v0/internal/raml/in-components.go b/v0/internal/raml/in-components.go
index d1022ca..03ddcc5 100644
--- a/v0/internal/raml/in-components.go
+++ b/v0/internal/raml/in-components.go
@@ -10,7 +10,7 @@ import (
 /******************************************************************************/
 
 func makeAnnotations() hasAnnotations {
-	return hasAnnotations{raml.NewAnnotationMap(0)}
+	return hasAnnotations{raml.NewAnnotationMap(0).SerializeOrdered(false)}
 }
 
 type hasAnnotations struct {
@@ -30,7 +30,7 @@ func (h *hasAnnotations) in(k string, v *yaml.Node) (bool, error) {
 		return false, nil
 	}
 
-	tmp := raml.NewUntypedMap(0)
+	tmp := raml.NewUntypedMap(0).SerializeOrdered(false)
 
 	if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 		return false, err
@@ -45,7 +45,7 @@ func (h *hasAnnotations) in(k string, v *yaml.Node) (bool, error) {
 
 // Deprecated: don't use this
 func makeExtra() hasExtra {
-	return hasExtra{raml.NewAnyMap(0)}
+	return hasExtra{raml.NewAnyMap(0).SerializeOrdered(false)}
 }
 
 // Deprecated: don't use this
diff --git a/v0/internal/raml/type-datatype-ext.go b/v0/internal/raml/type-datatype-ext.go
index 57053df..706f931 100644
--- a/v0/internal/raml/type-datatype-ext.go
+++ b/v0/internal/raml/type-datatype-ext.go
@@ -13,7 +13,7 @@ func NewExtendedDataType(kind rmeta.DataTypeKind, self concreteType) *ExtendedDa
 	return &ExtendedDataType{
 		DataType:       NewDataType(kind, self),
 		hasAnnotations: makeAnnotations(),
-		facets:         raml.NewFacetMap(0),
+		facets:         raml.NewFacetMap(0).SerializeOrdered(false),
 		required:       true,
 	}
 }
diff --git a/v0/internal/raml/type-facet.go b/v0/internal/raml/type-facet.go
index ab032bd..8de6136 100644
--- a/v0/internal/raml/type-facet.go
+++ b/v0/internal/raml/type-facet.go
@@ -5,5 +5,5 @@ import (
 )
 
 func NewFacet() raml.Facet {
-	return raml.NewDataTypeMap(0)
+	return raml.NewDataTypeMap(0).SerializeOrdered(false)
 }
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index 485f197..1d803e2 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -74,7 +74,7 @@ func (e *AnyExample) SetAnnotations(ann raml.AnnotationMap) raml.AnyExample {
 }
 
 func (e *AnyExample) UnsetAnnotations() raml.AnyExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-array.go b/v0/internal/raml/x-gen-ex-array.go
index 9e8f2a8..b1056c3 100644
--- a/v0/internal/raml/x-gen-ex-array.go
+++ b/v0/internal/raml/x-gen-ex-array.go
@@ -74,7 +74,7 @@ func (e *ArrayExample) SetAnnotations(ann raml.AnnotationMap) raml.ArrayExample
 }
 
 func (e *ArrayExample) UnsetAnnotations() raml.ArrayExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-bool.go b/v0/internal/raml/x-gen-ex-bool.go
index 2c4b3f4..28f4979 100644
--- a/v0/internal/raml/x-gen-ex-bool.go
+++ b/v0/internal/raml/x-gen-ex-bool.go
@@ -74,7 +74,7 @@ func (e *BoolExample) SetAnnotations(ann raml.AnnotationMap) raml.BoolExample {
 }
 
 func (e *BoolExample) UnsetAnnotations() raml.BoolExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index 9ee70d4..f3f991a 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -74,7 +74,7 @@ func (e *CustomExample) SetAnnotations(ann raml.AnnotationMap) raml.CustomExampl
 }
 
 func (e *CustomExample) UnsetAnnotations() raml.CustomExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index 6a034c3..ef8c502 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -74,7 +74,7 @@ func (e *DateOnlyExample) SetAnnotations(ann raml.AnnotationMap) raml.DateOnlyEx
 }
 
 func (e *DateOnlyExample) UnsetAnnotations() raml.DateOnlyExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index 9723c0c..252987b 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -74,7 +74,7 @@ func (e *DatetimeExample) SetAnnotations(ann raml.AnnotationMap) raml.DatetimeEx
 }
 
 func (e *DatetimeExample) UnsetAnnotations() raml.DatetimeExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index aff4acf..0de87fa 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -74,7 +74,7 @@ func (e *DatetimeOnlyExample) SetAnnotations(ann raml.AnnotationMap) raml.Dateti
 }
 
 func (e *DatetimeOnlyExample) UnsetAnnotations() raml.DatetimeOnlyExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index 6e5d3f7..be0618d 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -74,7 +74,7 @@ func (e *FileExample) SetAnnotations(ann raml.AnnotationMap) raml.FileExample {
 }
 
 func (e *FileExample) UnsetAnnotations() raml.FileExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-integer.go b/v0/internal/raml/x-gen-ex-integer.go
index 96c5817..630ca6a 100644
--- a/v0/internal/raml/x-gen-ex-integer.go
+++ b/v0/internal/raml/x-gen-ex-integer.go
@@ -74,7 +74,7 @@ func (e *IntegerExample) SetAnnotations(ann raml.AnnotationMap) raml.IntegerExam
 }
 
 func (e *IntegerExample) UnsetAnnotations() raml.IntegerExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index e729af6..5d01dc8 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -74,7 +74,7 @@ func (e *NumberExample) SetAnnotations(ann raml.AnnotationMap) raml.NumberExampl
 }
 
 func (e *NumberExample) UnsetAnnotations() raml.NumberExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index c788f62..1e0f62c 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -74,7 +74,7 @@ func (e *ObjectExample) SetAnnotations(ann raml.AnnotationMap) raml.ObjectExampl
 }
 
 func (e *ObjectExample) UnsetAnnotations() raml.ObjectExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-string.go b/v0/internal/raml/x-gen-ex-string.go
index 1896a7c..c7375c1 100644
--- a/v0/internal/raml/x-gen-ex-string.go
+++ b/v0/internal/raml/x-gen-ex-string.go
@@ -74,7 +74,7 @@ func (e *StringExample) SetAnnotations(ann raml.AnnotationMap) raml.StringExampl
 }
 
 func (e *StringExample) UnsetAnnotations() raml.StringExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index 5f8ba8a..fa156d7 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -74,7 +74,7 @@ func (e *TimeOnlyExample) SetAnnotations(ann raml.AnnotationMap) raml.TimeOnlyEx
 }
 
 func (e *TimeOnlyExample) UnsetAnnotations() raml.TimeOnlyExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index 5947bc7..d33d384 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -74,7 +74,7 @@ func (e *UnionExample) SetAnnotations(ann raml.AnnotationMap) raml.UnionExample
 }
 
 func (e *UnionExample) UnsetAnnotations() raml.UnionExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-type-any.go b/v0/internal/raml/x-gen-type-any.go
index 390e11b..9c06d25 100644
--- a/v0/internal/raml/x-gen-type-any.go
+++ b/v0/internal/raml/x-gen-type-any.go
@@ -86,7 +86,7 @@ func (o *AnyType) SetExamples(examples raml.AnyExampleMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetExamples() raml.AnyType {
-	o.examples = raml.NewAnyExampleMap(0)
+	o.examples = raml.NewAnyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *AnyType) SetAnnotations(annotations raml.AnnotationMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetAnnotations() raml.AnyType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *AnyType) SetFacetDefinitions(facets raml.FacetMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetFacetDefinitions() raml.AnyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *AnyType) SetExtraFacets(facets raml.AnyMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetExtraFacets() raml.AnyType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-array.go b/v0/internal/raml/x-gen-type-array.go
index 7c03efb..aa686dc 100644
--- a/v0/internal/raml/x-gen-type-array.go
+++ b/v0/internal/raml/x-gen-type-array.go
@@ -93,7 +93,7 @@ func (o *ArrayType) SetExamples(examples raml.ArrayExampleMap) raml.ArrayType {
 }
 
 func (o *ArrayType) UnsetExamples() raml.ArrayType {
-	o.examples = raml.NewArrayExampleMap(0)
+	o.examples = raml.NewArrayExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -127,7 +127,7 @@ func (o *ArrayType) SetAnnotations(annotations raml.AnnotationMap) raml.ArrayTyp
 }
 
 func (o *ArrayType) UnsetAnnotations() raml.ArrayType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -141,7 +141,7 @@ func (o *ArrayType) SetFacetDefinitions(facets raml.FacetMap) raml.ArrayType {
 }
 
 func (o *ArrayType) UnsetFacetDefinitions() raml.ArrayType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -179,7 +179,7 @@ func (o *ArrayType) SetExtraFacets(facets raml.AnyMap) raml.ArrayType {
 }
 
 func (o *ArrayType) UnsetExtraFacets() raml.ArrayType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-bool.go b/v0/internal/raml/x-gen-type-bool.go
index 171755a..01c67cb 100644
--- a/v0/internal/raml/x-gen-type-bool.go
+++ b/v0/internal/raml/x-gen-type-bool.go
@@ -86,7 +86,7 @@ func (o *BoolType) SetExamples(examples raml.BoolExampleMap) raml.BoolType {
 }
 
 func (o *BoolType) UnsetExamples() raml.BoolType {
-	o.examples = raml.NewBoolExampleMap(0)
+	o.examples = raml.NewBoolExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *BoolType) SetAnnotations(annotations raml.AnnotationMap) raml.BoolType
 }
 
 func (o *BoolType) UnsetAnnotations() raml.BoolType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *BoolType) SetFacetDefinitions(facets raml.FacetMap) raml.BoolType {
 }
 
 func (o *BoolType) UnsetFacetDefinitions() raml.BoolType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *BoolType) SetExtraFacets(facets raml.AnyMap) raml.BoolType {
 }
 
 func (o *BoolType) UnsetExtraFacets() raml.BoolType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-custom.go b/v0/internal/raml/x-gen-type-custom.go
index 4a9d881..d37a22c 100644
--- a/v0/internal/raml/x-gen-type-custom.go
+++ b/v0/internal/raml/x-gen-type-custom.go
@@ -86,7 +86,7 @@ func (o *CustomType) SetExamples(examples raml.CustomExampleMap) raml.CustomType
 }
 
 func (o *CustomType) UnsetExamples() raml.CustomType {
-	o.examples = raml.NewCustomExampleMap(0)
+	o.examples = raml.NewCustomExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *CustomType) SetAnnotations(annotations raml.AnnotationMap) raml.CustomT
 }
 
 func (o *CustomType) UnsetAnnotations() raml.CustomType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *CustomType) SetFacetDefinitions(facets raml.FacetMap) raml.CustomType {
 }
 
 func (o *CustomType) UnsetFacetDefinitions() raml.CustomType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *CustomType) SetExtraFacets(facets raml.AnyMap) raml.CustomType {
 }
 
 func (o *CustomType) UnsetExtraFacets() raml.CustomType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-date-only.go b/v0/internal/raml/x-gen-type-date-only.go
index 4475886..2e16e06 100644
--- a/v0/internal/raml/x-gen-type-date-only.go
+++ b/v0/internal/raml/x-gen-type-date-only.go
@@ -86,7 +86,7 @@ func (o *DateOnlyType) SetExamples(examples raml.DateOnlyExampleMap) raml.DateOn
 }
 
 func (o *DateOnlyType) UnsetExamples() raml.DateOnlyType {
-	o.examples = raml.NewDateOnlyExampleMap(0)
+	o.examples = raml.NewDateOnlyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *DateOnlyType) SetAnnotations(annotations raml.AnnotationMap) raml.DateO
 }
 
 func (o *DateOnlyType) UnsetAnnotations() raml.DateOnlyType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *DateOnlyType) SetFacetDefinitions(facets raml.FacetMap) raml.DateOnlyTy
 }
 
 func (o *DateOnlyType) UnsetFacetDefinitions() raml.DateOnlyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *DateOnlyType) SetExtraFacets(facets raml.AnyMap) raml.DateOnlyType {
 }
 
 func (o *DateOnlyType) UnsetExtraFacets() raml.DateOnlyType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-datetime-only.go b/v0/internal/raml/x-gen-type-datetime-only.go
index 201b68a..6acefcc 100644
--- a/v0/internal/raml/x-gen-type-datetime-only.go
+++ b/v0/internal/raml/x-gen-type-datetime-only.go
@@ -86,7 +86,7 @@ func (o *DatetimeOnlyType) SetExamples(examples raml.DatetimeOnlyExampleMap) ram
 }
 
 func (o *DatetimeOnlyType) UnsetExamples() raml.DatetimeOnlyType {
-	o.examples = raml.NewDatetimeOnlyExampleMap(0)
+	o.examples = raml.NewDatetimeOnlyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *DatetimeOnlyType) SetAnnotations(annotations raml.AnnotationMap) raml.D
 }
 
 func (o *DatetimeOnlyType) UnsetAnnotations() raml.DatetimeOnlyType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *DatetimeOnlyType) SetFacetDefinitions(facets raml.FacetMap) raml.Dateti
 }
 
 func (o *DatetimeOnlyType) UnsetFacetDefinitions() raml.DatetimeOnlyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *DatetimeOnlyType) SetExtraFacets(facets raml.AnyMap) raml.DatetimeOnlyT
 }
 
 func (o *DatetimeOnlyType) UnsetExtraFacets() raml.DatetimeOnlyType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-datetime.go b/v0/internal/raml/x-gen-type-datetime.go
index 4b4e9b0..7b5eb42 100644
--- a/v0/internal/raml/x-gen-type-datetime.go
+++ b/v0/internal/raml/x-gen-type-datetime.go
@@ -87,7 +87,7 @@ func (o *DatetimeType) SetExamples(examples raml.DatetimeExampleMap) raml.Dateti
 }
 
 func (o *DatetimeType) UnsetExamples() raml.DatetimeType {
-	o.examples = raml.NewDatetimeExampleMap(0)
+	o.examples = raml.NewDatetimeExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -121,7 +121,7 @@ func (o *DatetimeType) SetAnnotations(annotations raml.AnnotationMap) raml.Datet
 }
 
 func (o *DatetimeType) UnsetAnnotations() raml.DatetimeType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -135,7 +135,7 @@ func (o *DatetimeType) SetFacetDefinitions(facets raml.FacetMap) raml.DatetimeTy
 }
 
 func (o *DatetimeType) UnsetFacetDefinitions() raml.DatetimeType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -173,7 +173,7 @@ func (o *DatetimeType) SetExtraFacets(facets raml.AnyMap) raml.DatetimeType {
 }
 
 func (o *DatetimeType) UnsetExtraFacets() raml.DatetimeType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-file.go b/v0/internal/raml/x-gen-type-file.go
index f5faa94..b509697 100644
--- a/v0/internal/raml/x-gen-type-file.go
+++ b/v0/internal/raml/x-gen-type-file.go
@@ -92,7 +92,7 @@ func (o *FileType) SetExamples(examples raml.FileExampleMap) raml.FileType {
 }
 
 func (o *FileType) UnsetExamples() raml.FileType {
-	o.examples = raml.NewFileExampleMap(0)
+	o.examples = raml.NewFileExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -126,7 +126,7 @@ func (o *FileType) SetAnnotations(annotations raml.AnnotationMap) raml.FileType
 }
 
 func (o *FileType) UnsetAnnotations() raml.FileType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -140,7 +140,7 @@ func (o *FileType) SetFacetDefinitions(facets raml.FacetMap) raml.FileType {
 }
 
 func (o *FileType) UnsetFacetDefinitions() raml.FileType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -178,7 +178,7 @@ func (o *FileType) SetExtraFacets(facets raml.AnyMap) raml.FileType {
 }
 
 func (o *FileType) UnsetExtraFacets() raml.FileType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-integer.go b/v0/internal/raml/x-gen-type-integer.go
index a0e6346..5eca6bd 100644
--- a/v0/internal/raml/x-gen-type-integer.go
+++ b/v0/internal/raml/x-gen-type-integer.go
@@ -90,7 +90,7 @@ func (o *IntegerType) SetExamples(examples raml.IntegerExampleMap) raml.IntegerT
 }
 
 func (o *IntegerType) UnsetExamples() raml.IntegerType {
-	o.examples = raml.NewIntegerExampleMap(0)
+	o.examples = raml.NewIntegerExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -124,7 +124,7 @@ func (o *IntegerType) SetAnnotations(annotations raml.AnnotationMap) raml.Intege
 }
 
 func (o *IntegerType) UnsetAnnotations() raml.IntegerType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -138,7 +138,7 @@ func (o *IntegerType) SetFacetDefinitions(facets raml.FacetMap) raml.IntegerType
 }
 
 func (o *IntegerType) UnsetFacetDefinitions() raml.IntegerType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -176,7 +176,7 @@ func (o *IntegerType) SetExtraFacets(facets raml.AnyMap) raml.IntegerType {
 }
 
 func (o *IntegerType) UnsetExtraFacets() raml.IntegerType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index 85f9df8..59bb066 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -90,7 +90,7 @@ func (o *NumberType) SetExamples(examples raml.NumberExampleMap) raml.NumberType
 }
 
 func (o *NumberType) UnsetExamples() raml.NumberType {
-	o.examples = raml.NewNumberExampleMap(0)
+	o.examples = raml.NewNumberExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -124,7 +124,7 @@ func (o *NumberType) SetAnnotations(annotations raml.AnnotationMap) raml.NumberT
 }
 
 func (o *NumberType) UnsetAnnotations() raml.NumberType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -138,7 +138,7 @@ func (o *NumberType) SetFacetDefinitions(facets raml.FacetMap) raml.NumberType {
 }
 
 func (o *NumberType) UnsetFacetDefinitions() raml.NumberType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -176,7 +176,7 @@ func (o *NumberType) SetExtraFacets(facets raml.AnyMap) raml.NumberType {
 }
 
 func (o *NumberType) UnsetExtraFacets() raml.NumberType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-object.go b/v0/internal/raml/x-gen-type-object.go
index 2f0f0c6..203b5ce 100644
--- a/v0/internal/raml/x-gen-type-object.go
+++ b/v0/internal/raml/x-gen-type-object.go
@@ -95,7 +95,7 @@ func (o *ObjectType) SetExamples(examples raml.ObjectExampleMap) raml.ObjectType
 }
 
 func (o *ObjectType) UnsetExamples() raml.ObjectType {
-	o.examples = raml.NewObjectExampleMap(0)
+	o.examples = raml.NewObjectExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -129,7 +129,7 @@ func (o *ObjectType) SetAnnotations(annotations raml.AnnotationMap) raml.ObjectT
 }
 
 func (o *ObjectType) UnsetAnnotations() raml.ObjectType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -143,7 +143,7 @@ func (o *ObjectType) SetFacetDefinitions(facets raml.FacetMap) raml.ObjectType {
 }
 
 func (o *ObjectType) UnsetFacetDefinitions() raml.ObjectType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -181,7 +181,7 @@ func (o *ObjectType) SetExtraFacets(facets raml.AnyMap) raml.ObjectType {
 }
 
 func (o *ObjectType) UnsetExtraFacets() raml.ObjectType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -204,7 +204,7 @@ func (o *ObjectType) SetProperties(props raml.PropertyMap) raml.ObjectType {
 }
 
 func (o *ObjectType) UnsetProperties() raml.ObjectType {
-	o.properties = raml.NewPropertyMap(3)
+	o.properties = raml.NewPropertyMap(3).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-string.go b/v0/internal/raml/x-gen-type-string.go
index 20554a2..6611bb6 100644
--- a/v0/internal/raml/x-gen-type-string.go
+++ b/v0/internal/raml/x-gen-type-string.go
@@ -91,7 +91,7 @@ func (o *StringType) SetExamples(examples raml.StringExampleMap) raml.StringType
 }
 
 func (o *StringType) UnsetExamples() raml.StringType {
-	o.examples = raml.NewStringExampleMap(0)
+	o.examples = raml.NewStringExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -125,7 +125,7 @@ func (o *StringType) SetAnnotations(annotations raml.AnnotationMap) raml.StringT
 }
 
 func (o *StringType) UnsetAnnotations() raml.StringType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -139,7 +139,7 @@ func (o *StringType) SetFacetDefinitions(facets raml.FacetMap) raml.StringType {
 }
 
 func (o *StringType) UnsetFacetDefinitions() raml.StringType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -177,7 +177,7 @@ func (o *StringType) SetExtraFacets(facets raml.AnyMap) raml.StringType {
 }
 
 func (o *StringType) UnsetExtraFacets() raml.StringType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-time-only.go b/v0/internal/raml/x-gen-type-time-only.go
index 8cf5323..83e337c 100644
--- a/v0/internal/raml/x-gen-type-time-only.go
+++ b/v0/internal/raml/x-gen-type-time-only.go
@@ -86,7 +86,7 @@ func (o *TimeOnlyType) SetExamples(examples raml.TimeOnlyExampleMap) raml.TimeOn
 }
 
 func (o *TimeOnlyType) UnsetExamples() raml.TimeOnlyType {
-	o.examples = raml.NewTimeOnlyExampleMap(0)
+	o.examples = raml.NewTimeOnlyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *TimeOnlyType) SetAnnotations(annotations raml.AnnotationMap) raml.TimeO
 }
 
 func (o *TimeOnlyType) UnsetAnnotations() raml.TimeOnlyType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *TimeOnlyType) SetFacetDefinitions(facets raml.FacetMap) raml.TimeOnlyTy
 }
 
 func (o *TimeOnlyType) UnsetFacetDefinitions() raml.TimeOnlyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *TimeOnlyType) SetExtraFacets(facets raml.AnyMap) raml.TimeOnlyType {
 }
 
 func (o *TimeOnlyType) UnsetExtraFacets() raml.TimeOnlyType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-union.go b/v0/internal/raml/x-gen-type-union.go
index db1a389..7b0527c 100644
--- a/v0/internal/raml/x-gen-type-union.go
+++ b/v0/internal/raml/x-gen-type-union.go
@@ -86,7 +86,7 @@ func (o *UnionType) SetExamples(examples raml.UnionExampleMap) raml.UnionType {
 }
 
 func (o *UnionType) UnsetExamples() raml.UnionType {
-	o.examples = raml.NewUnionExampleMap(0)
+	o.examples = raml.NewUnionExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *UnionType) SetAnnotations(annotations raml.AnnotationMap) raml.UnionTyp
 }
 
 func (o *UnionType) UnsetAnnotations() raml.UnionType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *UnionType) SetFacetDefinitions(facets raml.FacetMap) raml.UnionType {
 }
 
 func (o *UnionType) UnsetFacetDefinitions() raml.UnionType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *UnionType) SetExtraFacets(facets raml.AnyMap) raml.UnionType {
 }
 
 func (o *UnionType) UnsetExtraFacets() raml.UnionType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
-- 
2.43.0


From 0497ef44382ec53cb1f3a72550180bdfbd55deb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:04 +0000
Subject: [PATCH 15/19] fix: read the default facet of type declarations

It was written from Default() but never read, so a parsed default ended up in
the extra facets and Default() stayed empty.
---
 v0/gen/type-m/extended.tpl                   | 28 ++++++++++++++++++++
 v0/internal/raml/x-gen-type-any.go           |  5 ++++
 v0/internal/raml/x-gen-type-array.go         | 13 +++++++++
 v0/internal/raml/x-gen-type-bool.go          |  2 ++
 v0/internal/raml/x-gen-type-custom.go        |  5 ++++
 v0/internal/raml/x-gen-type-date-only.go     |  2 ++
 v0/internal/raml/x-gen-type-datetime-only.go |  2 ++
 v0/internal/raml/x-gen-type-datetime.go      |  2 ++
 v0/internal/raml/x-gen-type-file.go          |  5 ++++
 v0/internal/raml/x-gen-type-integer.go       |  2 ++
 v0/internal/raml/x-gen-type-number.go        |  2 ++
 v0/internal/raml/x-gen-type-object.go        |  5 ++++
 v0/internal/raml/x-gen-type-string.go        |  2 ++
 v0/internal/raml/x-gen-type-time-only.go     |  2 ++
 v0/internal/raml/x-gen-type-union.go         |  5 ++++
 15 files changed, 82 insertions(+)

diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index d2aabe9..262ef7b 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -267,6 +267,34 @@ func (o *{{.Name}}Type) marshal(out raml.AnyMap) error {
 
 func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		{{if eq .DefTypeName "String" -}}
+		return assign.AsStringPtr(val, &o.def)
+		{{- else if eq .DefTypeName "Bool" -}}
+		return assign.AsBoolPtr(val, &o.def)
+		{{- else if eq .DefTypeName "Int64" -}}
+		return assign.AsInt64Ptr(val, &o.def)
+		{{- else if eq .DefTypeName "Float64" -}}
+		return assign.AsFloat64Ptr(val, &o.def)
+		{{- else if eq .Name "Array" -}}
+		def := make([]interface{}, 0, len(val.Content))
+
+		if err := xyml.SequenceForEach(val, func(cur *yaml.Node) error {
+			def = append(def, cur)
+			return nil
+		}); err != nil {
+			return err
+		}
+
+		o.def = def
+
+		return nil
+		{{- else -}}
+		var def interface{} = val
+		o.def = &def
+
+		return nil
+		{{- end}}
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-any.go b/v0/internal/raml/x-gen-type-any.go
index 9c06d25..2623556 100644
--- a/v0/internal/raml/x-gen-type-any.go
+++ b/v0/internal/raml/x-gen-type-any.go
@@ -201,6 +201,11 @@ func (o *AnyType) marshal(out raml.AnyMap) error {
 
 func (o *AnyType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		var def interface{} = val
+		o.def = &def
+
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-array.go b/v0/internal/raml/x-gen-type-array.go
index aa686dc..8fee146 100644
--- a/v0/internal/raml/x-gen-type-array.go
+++ b/v0/internal/raml/x-gen-type-array.go
@@ -263,6 +263,19 @@ func (o *ArrayType) marshal(out raml.AnyMap) error {
 
 func (o *ArrayType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		def := make([]interface{}, 0, len(val.Content))
+
+		if err := xyml.SequenceForEach(val, func(cur *yaml.Node) error {
+			def = append(def, cur)
+			return nil
+		}); err != nil {
+			return err
+		}
+
+		o.def = def
+
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-bool.go b/v0/internal/raml/x-gen-type-bool.go
index 01c67cb..d0bd813 100644
--- a/v0/internal/raml/x-gen-type-bool.go
+++ b/v0/internal/raml/x-gen-type-bool.go
@@ -201,6 +201,8 @@ func (o *BoolType) marshal(out raml.AnyMap) error {
 
 func (o *BoolType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsBoolPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-custom.go b/v0/internal/raml/x-gen-type-custom.go
index d37a22c..e6d965e 100644
--- a/v0/internal/raml/x-gen-type-custom.go
+++ b/v0/internal/raml/x-gen-type-custom.go
@@ -201,6 +201,11 @@ func (o *CustomType) marshal(out raml.AnyMap) error {
 
 func (o *CustomType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		var def interface{} = val
+		o.def = &def
+
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-date-only.go b/v0/internal/raml/x-gen-type-date-only.go
index 2e16e06..7447535 100644
--- a/v0/internal/raml/x-gen-type-date-only.go
+++ b/v0/internal/raml/x-gen-type-date-only.go
@@ -201,6 +201,8 @@ func (o *DateOnlyType) marshal(out raml.AnyMap) error {
 
 func (o *DateOnlyType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-datetime-only.go b/v0/internal/raml/x-gen-type-datetime-only.go
index 6acefcc..8dbb993 100644
--- a/v0/internal/raml/x-gen-type-datetime-only.go
+++ b/v0/internal/raml/x-gen-type-datetime-only.go
@@ -201,6 +201,8 @@ func (o *DatetimeOnlyType) marshal(out raml.AnyMap) error {
 
 func (o *DatetimeOnlyType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-datetime.go b/v0/internal/raml/x-gen-type-datetime.go
index 7b5eb42..e39031f 100644
--- a/v0/internal/raml/x-gen-type-datetime.go
+++ b/v0/internal/raml/x-gen-type-datetime.go
@@ -216,6 +216,8 @@ func (o *DatetimeType) marshal(out raml.AnyMap) error {
 
 func (o *DatetimeType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-file.go b/v0/internal/raml/x-gen-type-file.go
index b509697..29324ab 100644
--- a/v0/internal/raml/x-gen-type-file.go
+++ b/v0/internal/raml/x-gen-type-file.go
@@ -247,6 +247,11 @@ func (o *FileType) marshal(out raml.AnyMap) error {
 
 func (o *FileType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		var def interface{} = val
+		o.def = &def
+
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-integer.go b/v0/internal/raml/x-gen-type-integer.go
index 5eca6bd..067a548 100644
--- a/v0/internal/raml/x-gen-type-integer.go
+++ b/v0/internal/raml/x-gen-type-integer.go
@@ -264,6 +264,8 @@ func (o *IntegerType) marshal(out raml.AnyMap) error {
 
 func (o *IntegerType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsInt64Ptr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index 59bb066..9e791a2 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -264,6 +264,8 @@ func (o *NumberType) marshal(out raml.AnyMap) error {
 
 func (o *NumberType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsFloat64Ptr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-object.go b/v0/internal/raml/x-gen-type-object.go
index 203b5ce..63c8d07 100644
--- a/v0/internal/raml/x-gen-type-object.go
+++ b/v0/internal/raml/x-gen-type-object.go
@@ -304,6 +304,11 @@ func (o *ObjectType) marshal(out raml.AnyMap) error {
 
 func (o *ObjectType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		var def interface{} = val
+		o.def = &def
+
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-string.go b/v0/internal/raml/x-gen-type-string.go
index 6611bb6..c0c0866 100644
--- a/v0/internal/raml/x-gen-type-string.go
+++ b/v0/internal/raml/x-gen-type-string.go
@@ -247,6 +247,8 @@ func (o *StringType) marshal(out raml.AnyMap) error {
 
 func (o *StringType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-time-only.go b/v0/internal/raml/x-gen-type-time-only.go
index 83e337c..188c978 100644
--- a/v0/internal/raml/x-gen-type-time-only.go
+++ b/v0/internal/raml/x-gen-type-time-only.go
@@ -201,6 +201,8 @@ func (o *TimeOnlyType) marshal(out raml.AnyMap) error {
 
 func (o *TimeOnlyType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-union.go b/v0/internal/raml/x-gen-type-union.go
index 7b0527c..6f9e28d 100644
--- a/v0/internal/raml/x-gen-type-union.go
+++ b/v0/internal/raml/x-gen-type-union.go
@@ -201,6 +201,11 @@ func (o *UnionType) marshal(out raml.AnyMap) error {
 
 func (o *UnionType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		var def interface{} = val
+		o.def = &def
+
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
-- 
2.43.0


From a71ca1c97005c5ffe8eb2eed614d5a71aa2a2da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:11 +0000
Subject: [PATCH 16/19] fix: reject negative values of unsigned facets

They wrapped around to huge lengths and counts.
---
 v0/internal/util/assign/uint.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/v0/internal/util/assign/uint.go b/v0/internal/util/assign/uint.go
index 98a2d8c..68716f9 100644
--- a/v0/internal/util/assign/uint.go
+++ b/v0/internal/util/assign/uint.go
@@ -1,14 +1,20 @@
 package assign
 
 import (
+	"fmt"
+
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
 
+const errNegative = "expected a non-negative integer, instead got %d at %d:%d"
+
 // Helper function for uint values in assign functions
 func ToUint(v *yaml.Node, ptr *uint) error {
 	if val, err := xyml.ToInt(v, 10); err != nil {
 		return err
+	} else if val < 0 {
+		return fmt.Errorf(errNegative, val, v.Line, v.Column)
 	} else {
 		*ptr = uint(val)
 	}
@@ -20,6 +26,8 @@ func ToUint(v *yaml.Node, ptr *uint) error {
 func AsUintPtr(v *yaml.Node, ptr **uint) error {
 	if val, err := xyml.ToInt(v, 10); err != nil {
 		return err
+	} else if val < 0 {
+		return fmt.Errorf(errNegative, val, v.Line, v.Column)
 	} else {
 		tmp := uint(val)
 		*ptr = &tmp
-- 
2.43.0


From c346e152306118391843d1d8608d3d9f69cafea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:29 +0000
Subject: [PATCH 17/19] fix: accept integer literals for number facets

A minimum, multipleOf, enum entry or example of a number type had to be
written with a decimal point.
---
 v0/gen/example-m.tpl                  |  2 +-
 v0/gen/type-m/extended.tpl            |  2 +-
 v0/internal/raml/x-gen-ex-number.go   |  2 +-
 v0/internal/raml/x-gen-type-number.go |  2 +-
 v0/internal/util/assign/float64.go    | 20 +++++++++++++++++++-
 5 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index d85345f..5b5055a 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -217,7 +217,7 @@ func (e *{{.Name}}Example) assignVal(val *yaml.Node) error {
 		e.value = &tmp
 	}
 	{{- else if eq .Type "float64" -}}
-	if tmp, err := xyml.ToFloat(val); err != nil {
+	if tmp, err := assign.ToFloat64(val); err != nil {
 		return err
 	} else {
 		e.value = &tmp
diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index 262ef7b..5573bfc 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -315,7 +315,7 @@ func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
 			{{else if eq .DefTypeName "Int64" -}}
 				if val, err := xyml.ToInt(cur, 10); err != nil {
 			{{else if eq .DefTypeName "Float64" -}}
-				if val, err := xyml.ToFloat(cur); err != nil {
+				if val, err := assign.ToFloat64(cur); err != nil {
 			{{- else -}}
 				if val, err := xyml.To{{.DefTypeName}}(cur); err != nil {
 			{{end}}
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index 5d01dc8..24629a4 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -193,7 +193,7 @@ func (e *NumberExample) expand() bool {
 }
 
 func (e *NumberExample) assignVal(val *yaml.Node) error {
-	if tmp, err := xyml.ToFloat(val); err != nil {
+	if tmp, err := assign.ToFloat64(val); err != nil {
 		return err
 	} else {
 		e.value = &tmp
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index 9e791a2..79bc389 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -280,7 +280,7 @@ func (o *NumberType) assign(key, val *yaml.Node) error {
 		return UnmarshalNumberExampleMapRAML(o.examples, val)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
-			if val, err := xyml.ToFloat(cur); err != nil {
+			if val, err := assign.ToFloat64(cur); err != nil {
 				return err
 			} else {
 				o.enum = append(o.enum, val)
diff --git a/v0/internal/util/assign/float64.go b/v0/internal/util/assign/float64.go
index 0289d91..439b949 100644
--- a/v0/internal/util/assign/float64.go
+++ b/v0/internal/util/assign/float64.go
@@ -1,12 +1,30 @@
 package assign
 
 import (
+	"fmt"
+	"strconv"
+
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
 
+// ToFloat64 returns the value of a YAML number, which may be a float or an
+// integer literal.
+func ToFloat64(v *yaml.Node) (float64, error) {
+	if xyml.IsInt(v) {
+		val, err := strconv.ParseFloat(v.Value, 64)
+		if err != nil {
+			return 0, fmt.Errorf("failed to parse number at %d:%d: %s", v.Line, v.Column, err)
+		}
+
+		return val, nil
+	}
+
+	return xyml.ToFloat(v)
+}
+
 func AsFloat64Ptr(v *yaml.Node, ptr **float64) error {
-	if val, err := xyml.ToFloat(v); err != nil {
+	if val, err := ToFloat64(v); err != nil {
 		return err
 	} else {
 		*ptr = &val
-- 
2.43.0


From 04d0430bf6618cfa99ad95b32e6483d1ceecd239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:54 +0000
Subject: [PATCH 18/19] fix: make the JSON form of untyped-key maps
 deterministic

Keys are converted to text, so two keys can collide.  Which of the values won
depended on Go's random map iteration order; now the last entry wins.
---
 v0/pkg/raml/AnyMap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v0/pkg/raml/AnyMap.go b/v0/pkg/raml/AnyMap.go
index 660c472..e54dac6 100644
--- a/v0/pkg/raml/AnyMap.go
+++ b/v0/pkg/raml/AnyMap.go
@@ -121,8 +121,8 @@ func (i implAnyMap) MarshalJSON() ([]byte, error) {
 	}
 
 	out := make(map[string]interface{}, len(i.index))
-	for k, v := range i.index {
-		out[fmt.Sprint(k)] = v
+	for j := range i.ordered {
+		out[fmt.Sprint(i.ordered[j].Key)] = i.ordered[j].Val
 	}
 
 	return json.Marshal(out)
-- 
2.43.0


From ba8c247927b0b07c1594f113782921ef17fa337e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:31 +0000
Subject: [PATCH 19/19] fix: accept unquoted dates as date values

YAML reads an unquoted date as a timestamp, so the examples, defaults and enum
entries of the date types had to be quoted.
---
 v0/gen/example-m.tpl                         |  8 +++++-
 v0/gen/type-m/extended.tpl                   |  6 ++++-
 v0/internal/raml/x-gen-ex-dateonly.go        |  5 ++--
 v0/internal/raml/x-gen-ex-datetime.go        |  5 ++--
 v0/internal/raml/x-gen-ex-datetimeonly.go    |  5 ++--
 v0/internal/raml/x-gen-type-date-only.go     |  4 +--
 v0/internal/raml/x-gen-type-datetime-only.go |  4 +--
 v0/internal/raml/x-gen-type-datetime.go      |  4 +--
 v0/internal/util/assign/date.go              | 27 ++++++++++++++++++++
 9 files changed, 54 insertions(+), 14 deletions(-)
 create mode 100644 v0/internal/util/assign/date.go

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 5b5055a..8cfa91e 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -199,7 +199,13 @@ func (e *{{.Name}}Example) expand() bool {
 }
 
 func (e *{{.Name}}Example) assignVal(val *yaml.Node) error {
-	{{if eq .Type "string" -}}
+	{{if eq .Name "DateOnly" "Datetime" "DatetimeOnly" -}}
+	if tmp, err := assign.ToDateString(val); err != nil {
+		return err
+	} else {
+		e.value = &tmp
+	}
+	{{- else if eq .Type "string" -}}
 	if err := xyml.RequireString(val); err != nil {
 		return err
 	}
diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index 5573bfc..4794795 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -268,7 +268,9 @@ func (o *{{.Name}}Type) marshal(out raml.AnyMap) error {
 func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
 	switch key.Value {
 	case rmeta.KeyDefault:
-		{{if eq .DefTypeName "String" -}}
+		{{if eq .Name "DateOnly" "Datetime" "DatetimeOnly" -}}
+		return assign.AsDateStringPtr(val, &o.def)
+		{{- else if eq .DefTypeName "String" -}}
 		return assign.AsStringPtr(val, &o.def)
 		{{- else if eq .DefTypeName "Bool" -}}
 		return assign.AsBoolPtr(val, &o.def)
@@ -316,6 +318,8 @@ func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
 				if val, err := xyml.ToInt(cur, 10); err != nil {
 			{{else if eq .DefTypeName "Float64" -}}
 				if val, err := assign.ToFloat64(cur); err != nil {
+			{{- else if eq .Name "DateOnly" "Datetime" "DatetimeOnly" -}}
+				if val, err := assign.ToDateString(cur); err != nil {
 			{{- else -}}
 				if val, err := xyml.To{{.DefTypeName}}(cur); err != nil {
 			{{end}}
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index ef8c502..e1ef8e5 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -193,10 +193,11 @@ func (e *DateOnlyExample) expand() bool {
 }
 
 func (e *DateOnlyExample) assignVal(val *yaml.Node) error {
-	if err := xyml.RequireString(val); err != nil {
+	if tmp, err := assign.ToDateString(val); err != nil {
 		return err
+	} else {
+		e.value = &tmp
 	}
-	e.value = &val.Value
 
 	return nil
 }
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index 252987b..4e35b28 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -193,10 +193,11 @@ func (e *DatetimeExample) expand() bool {
 }
 
 func (e *DatetimeExample) assignVal(val *yaml.Node) error {
-	if err := xyml.RequireString(val); err != nil {
+	if tmp, err := assign.ToDateString(val); err != nil {
 		return err
+	} else {
+		e.value = &tmp
 	}
-	e.value = &val.Value
 
 	return nil
 }
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index 0de87fa..3072eee 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -193,10 +193,11 @@ func (e *DatetimeOnlyExample) expand() bool {
 }
 
 func (e *DatetimeOnlyExample) assignVal(val *yaml.Node) error {
-	if err := xyml.RequireString(val); err != nil {
+	if tmp, err := assign.ToDateString(val); err != nil {
 		return err
+	} else {
+		e.value = &tmp
 	}
-	e.value = &val.Value
 
 	return nil
 }
diff --git a/v0/internal/raml/x-gen-type-date-only.go b/v0/internal/raml/x-gen-type-date-only.go
index 7447535..0a16362 100644
--- a/v0/internal/raml/x-gen-type-date-only.go
+++ b/v0/internal/raml/x-gen-type-date-only.go
@@ -202,7 +202,7 @@ func (o *DateOnlyType) marshal(out raml.AnyMap) error {
 func (o *DateOnlyType) assign(key, val *yaml.Node) error {
 	switch key.Value {
 	case rmeta.KeyDefault:
-		return assign.AsStringPtr(val, &o.def)
+		return assign.AsDateStringPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
@@ -217,7 +217,7 @@ func (o *DateOnlyType) assign(key, val *yaml.Node) error {
 		return UnmarshalDateOnlyExampleMapRAML(o.examples, val)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
-			if val, err := xyml.ToString(cur); err != nil {
+			if val, err := assign.ToDateString(cur); err != nil {
 
 				return err
 			} else {
diff --git a/v0/internal/raml/x-gen-type-datetime-only.go b/v0/internal/raml/x-gen-type-datetime-only.go
index 8dbb993..54ddb49 100644
--- a/v0/internal/raml/x-gen-type-datetime-only.go
+++ b/v0/internal/raml/x-gen-type-datetime-only.go
@@ -202,7 +202,7 @@ func (o *DatetimeOnlyType) marshal(out raml.AnyMap) error {
 func (o *DatetimeOnlyType) assign(key, val *yaml.Node) error {
 	switch key.Value {
 	case rmeta.KeyDefault:
-		return assign.AsStringPtr(val, &o.def)
+		return assign.AsDateStringPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
@@ -217,7 +217,7 @@ func (o *DatetimeOnlyType) assign(key, val *yaml.Node) error {
 		return UnmarshalDatetimeOnlyExampleMapRAML(o.examples, val)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
-			if val, err := xyml.ToString(cur); err != nil {
+			if val, err := assign.ToDateString(cur); err != nil {
 
 				return err
 			} else {
diff --git a/v0/internal/raml/x-gen-type-datetime.go b/v0/internal/raml/x-gen-type-datetime.go
index e39031f..825b236 100644
--- a/v0/internal/raml/x-gen-type-datetime.go
+++ b/v0/internal/raml/x-gen-type-datetime.go
@@ -217,7 +217,7 @@ func (o *DatetimeType) marshal(out raml.AnyMap) error {
 func (o *DatetimeType) assign(key, val *yaml.Node) error {
 	switch key.Value {
 	case rmeta.KeyDefault:
-		return assign.AsStringPtr(val, &o.def)
+		return assign.AsDateStringPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
@@ -232,7 +232,7 @@ func (o *DatetimeType) assign(key, val *yaml.Node) error {
 		return UnmarshalDatetimeExampleMapRAML(o.examples, val)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
-			if val, err := xyml.ToString(cur); err != nil {
+			if val, err := assign.ToDateString(cur); err != nil {
 
 				return err
 			} else {
diff --git a/v0/internal/util/assign/date.go b/v0/internal/util/assign/date.go
new file mode 100644
index 0000000..5a5c6a1
--- /dev/null
+++ b/v0/internal/util/assign/date.go
@@ -0,0 +1,27 @@
+package assign
+
+import (
+	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
+	"gopkg.in/yaml.v3"
+)
+
+// ToDateString returns the text of a date value, which may be written as a YAML
+// string or, unquoted, as a YAML timestamp.
+func ToDateString(v *yaml.Node) (string, error) {
+	if xyml.IsTimestamp(v) {
+		return v.Value, nil
+	}
+
+	return xyml.ToString(v)
+}
+
+// Helper function for date values in assign functions
+func AsDateStringPtr(v *yaml.Node, ptr **string) error {
+	if val, err := ToDateString(v); err != nil {
+		return err
+	} else {
+		*ptr = &val
+	}
+
+	return nil
+}
-- 
2.43.0

