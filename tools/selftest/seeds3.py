exec(open('/tmp/seeds1.py').read().split("seed('c01-min-length-one'")[0])
import sys
only=sys.argv[1:]
_seed=seed
def seed(id,*a,**k):
    if not only or id in only: _seed(id,*a,**k)
PM='v0/pkg/raml/'
seed('c14-shared-extra','C14',[(I+'Documentation.go','func NewDocumentation() *Documentation {\n	return &Documentation{extra: raml.NewAnyMap(0).SerializeOrdered(false)}','var noExtra = raml.NewAnyMap(0).SerializeOrdered(false)\n\nfunc NewDocumentation() *Documentation {\n	return &Documentation{extra: noExtra}')],
 T('''	a := api(t, "title: x\\ndocumentation:\\n  - title: a\\n    content: b\\n    zzz: 1\\n  - title: c\\n    content: d\\n")
	if n := a.Documentation()[1].ExtraFacets().Len(); n != 0 {
		t.Fatal(n)
	}'''),'two documentation entries, one with an extra facet','all documentation entries start from one shared extra facet map')
seed('c14-node-reuse','C14',[(I+'x-gen-ex-custom.go','	annotations: raml.NewAnnotationMap(0)','	annotations: raml.NewAnnotationMap(0)')] if 0 else [(I+'fn-sorting-hat-type.go','	case rmeta.TypeNil:\n		return NewNilType()\n','	case rmeta.TypeNil:\n		return sharedNil\n'),(I+'fn-sorting-hat-type.go','func typeToKind(','var sharedNil = NewNilType()\n\nfunc typeToKind(')],
 T('''	l := lib(t, "types:\\n  A: nil\\n  B: nil\\n")
	v, _ := l.Types().Get("A")
	w, _ := l.Types().Get("B")
	v.ExtraFacets().Put("x", "y")
	if w.ExtraFacets().Len() != 0 {
		t.Fatal("shared")
	}'''),'two declarations of the nil type, one of them changed','every nil type is the same element')
seed('c07-number-enum','C07',[(I+'x-gen-type-number.go','o.enum = append(o.enum, val)','o.enum = append(o.enum, val)')] if 0 else [(I+'x-gen-type-file.go','			o.enum = append(o.enum, cur)\n','			o.enum = append(o.enum, *cur)\n')],
 T('''	text(t, lib(t, "types:\\n  A:\\n    type: file\\n    enum: [a, b]\\n"))'''),'a file type with an enum','the enum holds node values instead of pointers, which the encoder has no case for')
seed('c04-enum-struct','C04',[(I+'x-gen-type-any.go','			o.enum = append(o.enum, cur)\n','			if cur.Kind == yaml.ScalarNode {\n				o.enum = append(o.enum, cur)\n			} else {\n				o.enum = append(o.enum, cur.Content)\n			}\n')],
 T('''	s := text(t, lib(t, "types:\\n  A:\\n    type: any\\n    enum: [a, {b: c}]\\n"))
	if !strings.Contains(s, "b: c") {
		t.Fatal(s)
	}'''),'an enum of the any type with a mapping entry','a mapping entry is stored as the list of its nodes')
seed('c09-example-map-entry','C09',[(I+'util-ex-map.go','''		tmp := NewTimeOnlyExample()

		if err := tmp.UnmarshalRAML(v); err != nil {
			return err
		}
''','''		tmp := NewTimeOnlyExample()

		if err := tmp.UnmarshalRAML(v); err != nil && aMap.Len() == 0 {
			return err
		}
''')],
 T('''	if _, err := rparse.ParseLibrary(strings.NewReader("types:\\n  A:\\n    type: time-only\\n    examples:\\n      a: '10:00:00'\\n      b: [1]\\n")); err == nil {
		t.Fatal("accepted")
	}'''),'a malformed entry of examples after a well-formed one','errors of entries after the first are swallowed')
seed('c09-write-error','C09',[(I+'APISpec.go','	return enc.Encode(out)\n','	if err := enc.Encode(out); err != nil {\n		return err\n	}\n	_, err = w.Write(nil)\n	return nil\n')] if 0 else [(I+'Library.go','	if _, err := w.Write([]byte(rmeta.HeaderLibrary)); err != nil {','	if n, err := w.Write([]byte(rmeta.HeaderLibrary)); err != nil && n == 0 {')],
 T('''	if err := rbuild.NewLibrary().WriteRAML(short{}); err == nil {
		t.Fatal("no error")
	}''')+'\ntype short struct{}\n\nvar n int\n\nfunc (short) Write(p []byte) (int, error) {\n	n++\n	if n == 1 {\n		return 3, io.ErrShortWrite\n	}\n	return len(p), nil\n}\n','a writer that fails after accepting part of the header','the error is ignored when something was written')
seed('c10-narrow-min','C10',[(I+'x-gen-type-integer.go','return assign.AsInt64Ptr(val, &o.minimum)','var err error\n		var min *int64\n		if err = assign.AsInt64Ptr(val, &min); err == nil && *min < 1<<53 {\n			o.minimum = min\n		} else if err == nil {\n			f := int64(float64(*min))\n			o.minimum = &f\n		}\n		return err')] if 'return assign.AsInt64Ptr(val, &o.minimum)' in open('/repo/'+I+'x-gen-type-integer.go').read() else [],
 T('''	l := lib(t, "types:\\n  A:\\n    type: integer\\n    minimum: 9007199254740993\\n")
	v, _ := l.Types().Get("A")
	if v.(raml.IntegerType).Minimum().Get() != 9007199254740993 {
		t.Fatal("rounded")
	}'''),'a minimum above 2^53','large minima pass through a float64')
seed('c11-replace-value-only','C11',[(PM+'BoolExampleMap.go','		i.index[k] = v\n		i.ordered[pos].Val = v\n','		i.index[k] = v\n		if i.ordered[pos].Val != nil {\n			i.ordered[pos].Val = v\n		}\n')],
 T('''	m := raml.NewBoolExampleMap(1)
	m.Put("a", nil)
	l := lib(t, "types:\\n  A:\\n    type: boolean\\n    examples:\\n      a: true\\n")
	w, _ := l.Types().Get("A")
	e, _ := w.(raml.BoolType).Examples().Get("a")
	m.ReplaceIfExists("a", e)
	if m.At(0).Val == nil {
		t.Fatal("stale")
	}'''),'replacing an entry that holds nil','the order keeps the old value')
seed('c11-put-same','C11',[(PM+'StringMap.go','	i.Delete(k)\n	i.index[k] = v\n','	if i.Len() > 0 && i.ordered[i.Len()-1].Key == k {\n		i.index[k] = v\n		return i\n	}\n	i.Delete(k)\n	i.index[k] = v\n')],
 T('''	m := raml.NewStringMap(1)
	m.Put("a", "x")
	m.Put("a", "y")
	if m.At(0).Val != "y" {
		t.Fatal("stale")
	}'''),'putting the key that is last again','only the index is updated')
seed('c15-get-nil-after-set','C15',[(I+'x-gen-type-custom.go','func (o *CustomType) SetExamples(examples raml.CustomExampleMap) raml.CustomType {\n	if examples == nil {','func (o *CustomType) SetExamples(examples raml.CustomExampleMap) raml.CustomType {\n	if examples == nil && o.examples.Len() > 0 {')] if 'if examples == nil {' in open('/repo/'+I+'x-gen-type-custom.go').read() else [],
 T('''	l := lib(t, "types:\\n  A: Foo\\n")
	v, _ := l.Types().Get("A")
	if v.(raml.CustomType).SetExamples(nil).Examples() == nil {
		t.Fatal("nil")
	}'''),'passing nil to SetExamples of a type without examples','the collection becomes nil')
seed('c19-annotated','C19',[(I+'x-gen-ex-number.go','		e.annotations.Len() > 0 ||\n','		e.annotations.Len() > 1 ||\n')],
 T('''	s := text(t, lib(t, "types:\\n  A:\\n    type: number\\n    example:\\n      value: 1.5\\n      (a):\\n        b: c\\n"))
	if !strings.Contains(s, "(a)") {
		t.Fatal(s)
	}'''),'an example with exactly one annotation','the short form is used and the annotation lost')
seed('c18-file-max','C18',[('v0/pkg/raml/rmeta/defaults.go','FileDefaultMaxLength','FileDefaultMaxLength')] if 0 else [(I+'x-gen-type-file.go','	out.maxLength = rmeta.FileDefaultMaxLength\n','	out.maxLength = rmeta.FileDefaultMaxLength >> 1\n')],
 T('''	l := lib(t, "types:\\n  A: file\\n")
	v, _ := l.Types().Get("A")
	if v.(raml.FileType).MaxLength() != 2147483647 {
		t.Fatal(v.(raml.FileType).MaxLength())
	}'''),'a fresh file type','the maximum length starts at half of the RAML default')
seed('c08-omap-unset','C08',[(I+'x-gen-ex-time'+'only.go','	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)\n','	e.annotations = raml.NewAnnotationMap(0)\n')] if 0 else [(I+'util-untyped-map.go','		uMap.Put(k.Value, v)\n','		if xyml.IsMap(v) && len(v.Content) > 8 {\n			sub := raml.NewUntypedMap(len(v.Content) / 2)\n			if err := UnmarshalUntypedMapRAML(sub, v); err != nil {\n				return err\n			}\n			uMap.Put(k.Value, sub)\n			return nil\n		}\n\n		uMap.Put(k.Value, v)\n')],
 T("""	if o := text(t, lib(t, "traits:\\n  A:\\n    a: 1\\n    b: 1\\n    c: 1\\n    d: 1\\n    e: 1\\n")); strings.Contains(o, "- a") || strings.Contains(o, "omap") {
		t.Fatal(o)
	}"""),'a trait with more than four facets','large values are stored as maps that are written as ordered-map sequences')
seed('c02-bool-key','C02',[(I+'x-gen-ex-bool.go','	if !xyml.IsString(key) {\n		if ver, err','	if xyml.IsBool(key) && xyml.IsMap(val) {\n		return nil\n	}\n\n	if !xyml.IsString(key) {\n		if ver, err')],
 T("""	s := text(t, lib(t, "types:\\n  A:\\n    type: boolean\\n    example:\\n      value: true\\n      false:\\n        x: yy\\n"))
	if !strings.Contains(s, "yy") {
		t.Fatal(s)
	}"""),'an example with an extra facet whose key is a boolean and whose value is a mapping','the facet is dropped')
seed('c03-set-both','C03',[(I+'x-gen-type-object.go','	o.minProps = &min','	if o.maxProps != nil && *o.maxProps < min {\n		o.maxProps = &min\n	}\n	o.minProps = &min')],
 T('''	o := lib(t, "types:\\n  A: object\\n")
	v, _ := o.Types().Get("A")
	x := v.(raml.ObjectType).SetMaxProperties(3).SetMinProperties(5)
	if x.MaxProperties().Get() != 3 {
		t.Fatal(x.MaxProperties().Get())
	}'''),'a minimum above the maximum that is set','setting the minimum raises the maximum')
seed('c06-short-name','C06',[(I+'APISpec.go','	switch k.Value {\n	case rmeta.KeyTitle:','	switch name := k.Value; strings.ToLower(name[:1]) + name[1:] {\n	case rmeta.KeyTitle:')],
 T("""	defer func() {
		if recover() != nil {
			t.Fatal("panic")
		}
	}()
	rparse.ParseApiDoc(strings.NewReader("title: x\\n'': x\\n"))"""),'an API document with a key that is empty','the first letter of an empty key is read')
seed('c06-content-index','C06',[(I+'fn-sorting-hat-type.go','		} else if tmp.Kind == yaml.SequenceNode {\n			return nil, fmt.Errorf(multiTypeNotAllowed, tmp.Line, tmp.Column)','		} else if tmp.Kind == yaml.SequenceNode {\n			if tmp.Content[0].LongTag() == xyml.TagString && len(tmp.Content) == 1 {\n				return typeToKind(tmp.Content[0].Value), nil\n			}\n			return nil, fmt.Errorf(multiTypeNotAllowed, tmp.Line, tmp.Column)')],
 T('''	defer func() {
		if recover() != nil {
			t.Fatal("panic")
		}
	}()
	rparse.ParseLibrary(strings.NewReader("types:\\n  A:\\n    type: []\\n"))'''),'a type facet that is an empty sequence','the first entry of the sequence is read before its length is tested')
seed('c16-time-stamp','C16',[(I+'APISpec.go','	out := raml.NewAnyMap(8).\n','	if len(a.mediaType) > 3 {\n		seen := map[string]bool{}\n		for _, m := range a.mediaType {\n			seen[m] = true\n		}\n		a.mediaType = nil\n		for m := range seen {\n			a.mediaType = append(a.mediaType, m)\n		}\n	}\n\n	out := raml.NewAnyMap(8).\n')],
 T('''	first := ""
	for i := 0; i < 40; i++ {
		s := text(t, api(t, "title: x\\nmediaType: [a, b, c, d, e]\\n"))
		if first == "" {
			first = s
		}
		if s != first {
			t.Fatal(s)
		}
	}'''),'more than three media types','duplicates are removed through a Go map, whose order shows in the output')
