import sys; sys.path.insert(0,'/tmp')
from seed import *
HEAD='''package rparse_test

import (
	"io"
	"strings"
	"testing"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rbuild"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rparse"
)

var _ = strings.Contains
var _ raml.Library
var _ = rbuild.NewLibrary

func api(t *testing.T, s string) raml.APISpec {
	t.Helper()
	a, err := rparse.ParseApiDoc(strings.NewReader(s))
	if err != nil {
		t.Fatal(err)
	}
	return a
}

func lib(t *testing.T, s string) raml.Library {
	t.Helper()
	a, err := rparse.ParseLibrary(strings.NewReader(s))
	if err != nil {
		t.Fatal(err)
	}
	return a
}

func text(t *testing.T, w interface{ WriteRAML(io.Writer) error }) string {
	t.Helper()
	b := new(strings.Builder)
	if err := w.WriteRAML(b); err != nil {
		t.Fatal(err)
	}
	return b.String()
}

var _ = api
var _ = lib
var _ = text
'''
def T(body): return HEAD+'\nfunc TestDemo(t *testing.T) {\n'+body+'\n}\n'
I='v0/internal/raml/'
P='v0/pkg/raml/'
seed('c01-min-length-one','C01',[(I+'x-gen-type-string.go','	if o.minLength > 0 {','	if o.minLength > 1 {')],
 T('''	out := text(t, lib(t, "types:\\n  S:\\n    type: string\\n    minLength: 1\\n    maxLength: 3\\n"))
	if !strings.Contains(out, "minLength: 1") {
		t.Fatal("minLength lost:\\n" + out)
	}'''),'a string type with a minLength of exactly one','the writer leaves out minLength: 1, although a fresh string type has 0')
seed('c01-array-max-items','C01',[(I+'x-gen-type-array.go','	if o.maxItems != rmeta.ArrayDefaultMaxItems {','	if o.maxItems < rmeta.ArrayDefaultMaxItems {')],
 T('''	out := text(t, lib(t, "types:\\n  S:\\n    type: array\\n    maxItems: 4294967296\\n"))
	if !strings.Contains(out, "maxItems: 4294967296") {
		t.Fatal("maxItems lost:\\n" + out)
	}'''),'a maxItems above the 32 bit default','the writer leaves out a maxItems larger than the default')
seed('c02-empty-annotation','C02',[(I+'in-components.go','''	h.mp.Put(k, tmp)

	return true, nil''','''	if tmp.Len() > 0 {
		h.mp.Put(k, tmp)
	}

	return true, nil''')],
 T('''	l := lib(t, "types:\\n  S:\\n    type: string\\n    (deprecated): {}\\n")
	out := text(t, l)
	if !strings.Contains(out, "(deprecated)") {
		t.Fatal("annotation lost:\\n" + out)
	}'''),'an annotation without content on a type','annotations whose map is empty are dropped while reading a type')
seed('c02-root-resource','C02',[(I+'APISpec.go','''		a.resources.Put(k.Value, v)
		return nil''','''		if len(k.Value) > 1 {
			a.resources.Put(k.Value, v)
		}
		return nil''')],
 T('''	out := text(t, api(t, "title: x\\n/:\\n  get: {}\\n/a:\\n  get: {}\\n"))
	if !strings.Contains(out, "/:") {
		t.Fatal("resource lost:\\n" + out)
	}'''),'the root resource "/"','the root resource of an API document is dropped')
seed('c03-unset-maximum','C03',[(I+'x-gen-type-number.go','''	o.maximum = nil
	return o''','''	o.maximum = nil
	if o.minimum != nil && *o.minimum == 0 {
		o.minimum = nil
	}
	return o''')],
 T('''	n := rbuild.NewNumberDataType().SetMinimum(0).SetMaximum(3).UnsetMaximum()
	if n.Minimum().IsNil() {
		t.Fatal("UnsetMaximum removed the minimum")
	}'''),'a minimum of zero is set before the maximum is unset','UnsetMaximum changes what Minimum answers')
seed('c04-media-type-order','C04',[(I+'APISpec.go','''			a.mediaType = append(a.mediaType, v.Value)
''','''			if v.Value != "" {
				a.mediaType = append(a.mediaType, v.Value)
			}
''')],
 T('''	if n := len(api(t, "title: x\\nmediaType: \\"\\"\\n").MediaTypes()); n != 1 {
		t.Fatal(n, "media types")
	}'''),'an empty string as the media type','an accepted mediaType value is not visible through MediaTypes')
seed('c06-empty-type','C06',[(I+'fn-sorting-hat-type.go','	if strings.HasPrefix(val, "!include ") {','	if val[0] == '+"'!'"+' && strings.HasPrefix(val, "!include ") {')],
 T('''	defer func() {
		if r := recover(); r != nil {
			t.Fatal("panic:", r)
		}
	}()
	lib(t, "types:\\n  S: \\"\\"\\n")'''),'a type declaration that is the empty string','reading the document panics')
seed('c08-security-schemes','C08',[(I+'Library.go','''		securitySchemes: raml.NewUntypedMap(1).SerializeOrdered(false),''','''		securitySchemes: raml.NewUntypedMap(1),''')],
 T('''	out := text(t, lib(t, "securitySchemes:\\n  a:\\n    type: OAuth 2.0\\n"))
	if strings.Contains(out, "- a:") {
		t.Fatal("securitySchemes written as a sequence:\\n" + out)
	}'''),'a library with security schemes','the security schemes of a library are written as an ordered-map sequence')
seed('c09-facets-error','C09',[(I+'type-datatype-ext.go','''		return UnmarshalFacetMapRAML(e.facets, val)''','''		if err := UnmarshalFacetMapRAML(e.facets, val); err != nil && e.facets.Len() == 0 {
			return err
		}
		return nil''')],
 T('''	_, err := rparse.ParseLibrary(strings.NewReader("types:\\n  S:\\n    facets:\\n      a:\\n        b: string\\n      c: 3\\n"))
	if err == nil {
		t.Fatal("no error for a malformed facet declaration")
	}'''),'a malformed facet declaration after a well formed one','the error is dropped and with it the rest of the declarations')
seed('c10-int-through-float','C10',[('v0/internal/util/assign/int64.go','''		*ptr = &val
''','''		val = int64(float64(val))
		*ptr = &val
''')],
 T('''	l := lib(t, "types:\\n  S:\\n    type: integer\\n    minimum: 9007199254740993\\n")
	x, _ := l.Types().Get("S")
	if m := x.(raml.IntegerType).Minimum().Get(); m != 9007199254740993 {
		t.Fatal(m)
	}'''),'an integer above 2^53','integer facets lose their low bits')
seed('c11-delete-first','C11',[(P+'DateOnlyExampleMap.go','''	if pos > -1 {
		i.ordered = append(i.ordered[:pos], i.ordered[pos+1:]...)''','''	if pos > 0 {
		i.ordered = append(i.ordered[:pos], i.ordered[pos+1:]...)''')],
 T('''	m := raml.NewDateOnlyExampleMap(1).Put("a", nil).Put("b", nil).Put("a", nil)
	if m.Len() != 2 || m.IndexOf("a") != 1 {
		t.Fatal(m.Len(), m.IndexOf("a"))
	}'''),'the key to delete or to put again is the first one','the first entry is never removed')
seed('c15-nil-properties','C15',[(I+'x-gen-type-object.go','''	if props == nil {
		return o.UnsetProperties()
	}

	o.properties = props
	return o''','''	if props != nil || o.properties.Len() == 0 {
		o.properties = props
		return o
	}

	return o.UnsetProperties()''')],
 T('''	l := lib(t, "types:\\n  S:\\n    type: object\\n")
	x, _ := l.Types().Get("S")
	o := x.(raml.ObjectType).SetProperties(nil)
	if o.Properties() == nil {
		t.Fatal("Properties returns nil")
	}'''),'SetProperties(nil) on an object type without properties','the collection becomes nil')
seed('c18-unique-items','C18',[(I+'x-gen-type-array.go','''	out.maxItems = rmeta.ArrayDefaultMaxItems
''','''	out.maxItems = rmeta.ArrayDefaultMaxItems + 1
''')],
 T('''	if m := rbuild.NewArrayDataType().MaxItems(); m != 2147483647 {
		t.Fatal(m)
	}'''),'a fresh array type','the default of maxItems is off by one')
seed('c19-strict-short','C19',[(I+'x-gen-ex-custom.go','''		e.extra.Len() > 0 ||
		e.strict != rmeta.ExampleDefaultStrict''','''		e.extra.Len() > 0 ||
		e.value == nil && e.strict != rmeta.ExampleDefaultStrict''')],
 T('''	out := text(t, lib(t, "types:\\n  S:\\n    type: Foo\\n    example:\\n      value: 1\\n      strict: false\\n"))
	if !strings.Contains(out, "strict: false") {
		t.Fatal("strict lost:\\n" + out)
	}'''),'an example of a custom type with a value and strict: false as its only other facet','the short form is used and strict is lost')
