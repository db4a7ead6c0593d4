exec(open('/tmp/seeds1.py').read().split("seed('c01-min-length-one'")[0])
import sys
only=sys.argv[1:]
_seed=seed
def seed(id,*a,**k):
    if not only or id in only: _seed(id,*a,**k)
PM='v0/pkg/raml/'
seed('c05-items-over-properties','C05',[(I+'fn-sorting-hat-type.go','	if props {\n		return NewObjectType(), nil\n	}\n\n	if items {','	if props && !items {\n		return NewObjectType(), nil\n	}\n\n	if items {')],
 T('''	l := lib(t, "types:\\n  A:\\n    items: string\\n    properties:\\n      a: string\\n")
	v, _ := l.Types().Get("A")
	if v.Kind() != "object" {
		t.Fatal(v.Kind())
	}'''),'an untyped declaration holding both items and properties','siftType picks the array although properties come first')
seed('c05-leading-bar','C05',[(I+'fn-sorting-hat-type.go',"	if -1 < strings.IndexByte(val, '|') {","	if 0 < strings.IndexByte(val, '|') {")],
 T('''	l := lib(t, "types:\\n  A:\\n    type: '| nil'\\n")
	v, _ := l.Types().Get("A")
	if v.Kind() != "union" {
		t.Fatal(v.Kind())
	}'''),'a union expression beginning with the bar','an expression starting with | becomes a custom type')
seed('c05-early-break','C05',[(I+'fn-sorting-hat-type.go','			props = true\n','			props = true\n			break\n')],
 T('''	l := lib(t, "types:\\n  A:\\n    properties:\\n      a: string\\n    type: Other\\n")
	v, _ := l.Types().Get("A")
	if v.Kind() != "custom" {
		t.Fatal(v.Kind())
	}'''),'a declaration whose type follows its properties','the search for the explicit type stops at properties')
seed('c07-array-default-values','C07',[(PM+'UntypedMap.go','	for j := range i.ordered {\n		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {\n			return nil, e\n		}\n	}\n\n	return out, nil\n}\n\nfunc (i *implUntypedMap) Put','	for j := range i.ordered {\n		switch v := i.ordered[j].Val.(type) {\n		case xyml.Marshaler:\n			n, e := v.ToYAML()\n			if e != nil {\n				return nil, e\n			}\n			if e := xyml.MapAppend(out, i.ordered[j].Key, n); e != nil {\n				return nil, e\n			}\n		case *yaml.Node:\n			if v.Kind == yaml.AliasNode {\n				return nil, fmt.Errorf("unsupported node")\n			}\n			if e := xyml.MapAppend(out, i.ordered[j].Key, v); e != nil {\n				return nil, e\n			}\n		default:\n			if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {\n				return nil, e\n			}\n		}\n	}\n\n	return out, nil\n}\n\nfunc (i *implUntypedMap) Put')],
 T('''	text(t, lib(t, "traits:\\n  a: &x\\n    b: c\\n  d: *x\\n"))'''),'an alias among the entries of an untyped map','the map refuses to encode an alias node the parser stored in it')
seed('c12-skip-nil','C12',[(PM+'AnyMap.go','	out := xyml.NewMapNode(i.Len())\n\n	for j := range i.ordered {\n','	out := xyml.NewMapNode(i.Len())\n\n	for j := range i.ordered {\n		if i.ordered[j].Val == nil {\n			continue\n		}\n')],
 T('''	m := raml.NewAnyMap(1).SerializeOrdered(false)
	m.Put("a", nil)
	n, err := m.ToYAML()
	if err != nil || len(n.Content) != 2 {
		t.Fatal(n, err)
	}'''),'an entry holding nil','an entry whose value is nil is left out of the mapping')
seed('c12-json-last','C12',[(PM+'DataTypeMap.go','	for k, v := range i.index {\n','	for k, v := range i.index {\n		if v == nil {\n			continue\n		}\n')],
 T('''	m := raml.NewDataTypeMap(1).SerializeOrdered(false)
	m.Put("a", nil)
	b, err := m.MarshalJSON()
	if err != nil || string(b) != "{\\"a\\":null}" {
		t.Fatal(string(b), err)
	}'''),'the JSON form of a map with a nil type','entries with a nil value are left out of the JSON object')
seed('c12-ordered-shared-node','C12',[(PM+'StringMap.go','		out := xyml.NewOrderedMapNode(i.Len())\n\n		for j := range i.ordered {\n			tmp := xyml.NewMapNode(1)\n','		out := xyml.NewOrderedMapNode(i.Len())\n		tmp := xyml.NewMapNode(1)\n\n		for j := range i.ordered {\n			if len(tmp.Content) > 2 {\n				tmp = xyml.NewMapNode(1)\n			}\n')],
 T('''	m := raml.NewStringMap(1)
	m.Put("a", "b").Put("c", "d")
	n, err := m.ToYAML()
	if err != nil || len(n.Content) != 2 || len(n.Content[0].Content) != 2 {
		t.Fatal(n, err)
	}'''),'an ordered map of several entries written in its ordered form','the node of one entry is reused for the next')
seed('c13-sorted-protocols','C13',[(I+'APISpec.go','	out := raml.NewAnyMap(8).\n','	if len(a.protocols) > 1 && a.protocols[0] > a.protocols[1] {\n		a.protocols[0], a.protocols[1] = a.protocols[1], a.protocols[0]\n	}\n\n	out := raml.NewAnyMap(8).\n')],
 T('''	a := api(t, "title: x\\nprotocols: [HTTPS, HTTP]\\n")
	text(t, a)
	if p := a.Protocols(); p[0] != "HTTPS" {
		t.Fatal(p)
	}'''),'two protocols out of alphabetical order','writing the document reorders the slice the document holds')
seed('c13-lazy-xml','C13',[(I+'type-datatype-ext.go','	return e.xml\n','	if e.xml == nil && e.displayName != nil {\n		e.xml = NewXML().SetName(*e.displayName)\n	}\n	return e.xml\n')],
 T('''	l := lib(t, "types:\\n  A:\\n    type: string\\n    displayName: d\\n")
	before := text(t, l)
	v, _ := l.Types().Get("A")
	v.(raml.StringType).XML()
	if text(t, l) != before {
		t.Fatal(text(t, l))
	}'''),'a type with a display name and no xml, its XML() read before writing','the getter creates and stores an XML element')
seed('c14-shared-extra','C14',[(I+'type-xml.go','func NewXML() ','var noExtra = raml.NewAnyMap(0).SerializeOrdered(false)\n\nfunc NewXML() '),(I+'type-xml.go','raml.NewAnyMap(0).SerializeOrdered(false)}','noExtra}')] if 'SerializeOrdered(false)}' in open('/repo/v0/internal/raml/type-xml.go').read() else [(I+'type-xml.go','func NewXML() ','var noExtra = raml.NewAnyMap(0).SerializeOrdered(false)\n\nfunc NewXML() '),(I+'type-xml.go','extra: raml.NewAnyMap(0).SerializeOrdered(false)','extra: noExtra')],
 T('''	x, y := rbuild.NewXML(), rbuild.NewXML()
	x.ExtraFacets().Put("a", "b")
	if y.ExtraFacets().Len() != 0 {
		t.Fatal("shared")
	}'''),'two XML elements, an extra facet put into one of them','all XML elements start from one shared extra facet map')
seed('c14-cached-custom','C14',[(I+'fn-sorting-hat-type.go','	out := NewCustomType()\n	out.schema = val\n	return out\n','	if out, ok := customTypes[val]; ok {\n		return out\n	}\n	out := NewCustomType()\n	out.schema = val\n	customTypes[val] = out\n	return out\n'),(I+'fn-sorting-hat-type.go','func typeToKind(','var customTypes = map[string]concreteType{}\n\nfunc typeToKind(')],
 T('''	l := lib(t, "types:\\n  A: Person\\n  B: Person\\n")
	v, _ := l.Types().Get("A")
	w, _ := l.Types().Get("B")
	v.(raml.CustomType).SetDescription("x")
	if w.(raml.CustomType).Description().IsPresent() {
		t.Fatal("shared")
	}'''),'two declarations of the same custom type name, one of them changed','custom types are cached by name and handed out again')
seed('c14-loop-example','C14',[(I+'util-ex-map.go','''func UnmarshalDateOnlyExampleMapRAML(aMap raml.DateOnlyExampleMap, y *yaml.Node) error {
	return xyml.MapForEach(y, func(k, v *yaml.Node) error {
		if err := xyml.RequireString(k); err != nil {
			return err
		}

		tmp := NewDateOnlyExample()
''','''func UnmarshalDateOnlyExampleMapRAML(aMap raml.DateOnlyExampleMap, y *yaml.Node) error {
	tmp := NewDateOnlyExample()
	return xyml.MapForEach(y, func(k, v *yaml.Node) error {
		if err := xyml.RequireString(k); err != nil {
			return err
		}
''')],
 T('''	l := lib(t, "types:\\n  A:\\n    type: date-only\\n    examples:\\n      a: 2020-01-01\\n      b: 2020-01-02\\n")
	v, _ := l.Types().Get("A")
	if s := text(t, l); !strings.Contains(s, "2020-01-01") {
		t.Fatal(s, v)
	}'''),'a type with two named examples','one example element is used for all entries')
seed('c16-json-foreach-order','C16',[(PM+'StringMap.go','	for j := range i.ordered {\n		f(i.ordered[j].Key, i.ordered[j].Val)\n	}','	for k, v := range i.index {\n		f(k, v)\n	}')],
 T('''	m := raml.NewStringMap(9)
	for _, k := range []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j"} {
		m.Put(k, k)
	}
	first := ""
	m.ForEach(func(k, v string) { first += k })
	if first != "abcdefghij" {
		t.Fatal(first)
	}'''),'iterating a string map of several entries','ForEach visits the Go map in its random order')
seed('c17-untitled','C17',[(I+'APISpec.go','	out.Content = append(out.Content, body.(*yaml.Node))\n','	if a.title == "" {\n		out = body.(*yaml.Node)\n	} else {\n		out.Content = append(out.Content, body.(*yaml.Node))\n	}\n')],
 T("""	if s := text(t, api(t, "version: v1\\n")); !strings.HasPrefix(s, "#%RAML 1.0\\n") {
		t.Fatal(s)
	}"""),'an API document without a title','the header is left out of documents without a title')
seed('c04-second-security','C04',[(I+'APISpec.go','return assign.AsStringList(v, &a.securedBy)','if len(v.Content) == 1 {\n			a.securedBy = []string{v.Content[0].Value}\n			return nil\n		}\n		return assign.AsStringList(v, &a.securedBy)')],
 T('''	if _, err := rparse.ParseApiDoc(strings.NewReader("title: x\\nsecuredBy:\\n  a: b\\n")); err == nil {
		t.Log("accepted")
	}
	if _, err := rparse.ParseApiDoc(strings.NewReader("title: x\\nsecuredBy: [{a: b}]\\n")); err == nil {
		t.Fatal("accepted")
	}'''),'securedBy with a single entry that is a mapping','the entry is not checked and read as the empty string')
seed('c01-single-use','C01',[(I+'Library.go','	if l.uses.Len() > 0 {','	if l.uses.Len() > 1 {')],
 T('''	if s := text(t, lib(t, "uses:\\n  a: b.raml\\n")); !strings.Contains(s, "b.raml") {
		t.Fatal(s)
	}'''),'a library using exactly one other library','a single uses entry is not written')
seed('c03-empty-usage','C03',[(I+'Library.go','	l.usage = &','	if len(usage) == 0 {\n		return l.UnsetUsage()\n	}\n	l.usage = &')],
 T('''	l := rbuild.NewLibrary().SetUsage("")
	if !l.Usage().IsPresent() {
		t.Fatal("lost")
	}'''),'setting the usage to the empty string','the empty string is treated as unset')
seed('c09-xml-error','C09',[(I+'type-datatype-ext.go','		if err := xml.UnmarshalRAML(val); err != nil {\n			return err\n		}\n		e.xml = xml\n','		if err := xml.UnmarshalRAML(val); err == nil || !xyml.IsMap(val) {\n			e.xml = xml\n		}\n')],
 T('''	if _, err := rparse.ParseLibrary(strings.NewReader("types:\\n  A:\\n    type: string\\n    xml:\\n      wrapped: 3\\n")); err == nil {
		t.Fatal("accepted")
	}'''),'a malformed facet inside xml','the error of the XML element is swallowed')
seed('c10-uint-clamp','C10',[('v0/internal/util/assign/uint.go','','')] if 0 else [],
 T(''),'','') if 0 else None
seed('c18-builder-required','C18',[('v0/pkg/raml/rbuild/types.go','','')],T(''),'','') if 0 else None
seed('c02-numeric-extra','C02',[(I+'Library.go','','')],T(''),'','') if 0 else None
