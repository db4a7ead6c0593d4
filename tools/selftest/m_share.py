from mut import *
P=['C14']
I='v0/internal/raml/'
A=I+'APISpec.go'; L=I+'Library.go'; X=I+'type-xml.go'; D=I+'DataType.go'; H=I+'fn-sorting-hat-type.go'; N=I+'util-ann-map.go'; M=I+'util-dt-map.go'; C=I+'in-components.go'; S=I+'x-gen-type-string.go'; IF=I+'enum-integer-format.go'
F='v0/pkg/raml/AnyMap.go'; G='v0/pkg/raml/UntypedMap.go'; RB='v0/pkg/raml/rbuild/'
B=lambda n,*e: run(n,list(e),P,'bug')
R=lambda n,*e: run(n,list(e),P,'refactor')
NX='''	return &XML{
		extra: raml.NewAnyMap(0).SerializeOrdered(false),
	}'''
B('shared extra in xml',(X,NX,'	return &XML{extra: noExtra}'),(X,'type XML struct','var noExtra = raml.NewAnyMap(0).SerializeOrdered(false)\n\ntype XML struct'))
B('shared annotations via helper',(C,'return hasAnnotations{raml.NewAnnotationMap(0).SerializeOrdered(false)}','return hasAnnotations{noAnnotations()}'),(C,'type hasAnnotations','var none = raml.NewAnnotationMap(0).SerializeOrdered(false)\n\nfunc noAnnotations() raml.AnnotationMap { return none }\n\ntype hasAnnotations'))
B('unset shared',(L,'	l.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)\n	return l','	l.annotations = emptyAnn\n	return l'),(L,'type Library struct','var emptyAnn = raml.NewAnnotationMap(0).SerializeOrdered(false)\n\ntype Library struct'))
EXM=I+'util-ex-map.go'
B("example outside loop",(EXM,"""		tmp := NewAnyExample()\n\n""",""),(EXM,"func UnmarshalAnyExampleMapRAML(aMap raml.AnyExampleMap, y *yaml.Node) error {\n","func UnmarshalAnyExampleMapRAML(aMap raml.AnyExampleMap, y *yaml.Node) error {\n	tmp := NewAnyExample()\n"))
B('types traits same',(L,'''	return &Library{
''','''	shared := raml.NewUntypedMap(2).SerializeOrdered(false)
	return &Library{
'''),(L,'		resourceTypes:   raml.NewUntypedMap(5).SerializeOrdered(false),','		resourceTypes:   shared,'),(L,'		traits:          raml.NewUntypedMap(2).SerializeOrdered(false),','		traits:          shared,'))
B('cache nil type',(H,'		return NewNilType()','		return nilType'),(H,'func typeToKind','var nilType = NewNilType()\n\nfunc typeToKind'))
B('lazy cache',(H,'		return NewNilType()','		if nilType == nil {\n			nilType = NewNilType()\n		}\n		return nilType'),(H,'func typeToKind','var nilType concreteType\n\nfunc typeToKind'))
B('cache by name',(H,'	out := NewCustomType()\n	out.schema = val\n	return out','	if c, ok := customs[val]; ok {\n		return c\n	}\n	out := NewCustomType()\n	out.schema = val\n	customs[val] = out\n	return out'),(H,'func typeToKind','var customs = map[string]concreteType{}\n\nfunc typeToKind'))
B('cache by name locked',(H,'	out := NewCustomType()\n	out.schema = val\n	return out','	mu.Lock()\n	defer mu.Unlock()\n	if c, ok := customs[val]; ok {\n		return c\n	}\n	out := NewCustomType()\n	out.schema = val\n	customs[val] = out\n	return out'),(H,'func typeToKind','var mu sync.Mutex\nvar customs = map[string]concreteType{}\n\nfunc typeToKind'),(H,'	"strings"\n','	"strings"\n	"sync"\n'))
B('sync map',(H,'	out := NewCustomType()\n	out.schema = val\n	return out','	if c, ok := customs.Load(val); ok {\n		return c.(concreteType)\n	}\n	out := NewCustomType()\n	out.schema = val\n	customs.Store(val, out)\n	return out'),(H,'func typeToKind','var customs sync.Map\n\nfunc typeToKind'),(H,'	"strings"\n','	"strings"\n	"sync"\n'))
B('counter',(H,'	tmp := rmeta.DataTypeKind(val)\n','	tmp := rmeta.DataTypeKind(val)\n	seen++\n'),(H,'func typeToKind','var seen int\n\nfunc typeToKind'))
B('struct copy proto',(X,NX,'	x := protoXML\n	return &x'),(X,'type XML struct','var protoXML = XML{extra: raml.NewAnyMap(0).SerializeOrdered(false)}\n\ntype XML struct'))
B('closure cache',(X,'func NewXML() *XML {\n'+NX+'\n}','func NewXML() *XML { return mkXML() }\n\nvar mkXML = func() func() *XML {\n	extra := raml.NewAnyMap(0).SerializeOrdered(false)\n	return func() *XML { return &XML{extra: extra} }\n}()'))
B('builder singleton',(RB+'data-type.go','x','x')) if False else None
B('map slice pool',(F,'		ordered: make([]mapSlice, 0, initialSize)','		ordered: pool[:0]')) if False else None
B('once lazily',(X,NX,'	once.Do(func() { noExtra = raml.NewAnyMap(0).SerializeOrdered(false) })\n	return &XML{extra: noExtra}'),(X,'type XML struct','var once sync.Once\nvar noExtra raml.AnyMap\n\ntype XML struct'),(X,'import (\n','import (\n	"sync"\n'))
B('prop outside loop',(M,'''		val, err := TypeSortingHat(v)
		if err != nil {
			return err
		}

		dMap.Put(k.Value, val)''','''		if last == nil {
			var err error
			if last, err = TypeSortingHat(v); err != nil {
				return err
			}
		}

		dMap.Put(k.Value, last)'''),(M,'func UnmarshalDataTypeMapRAML(dMap raml.DataTypeMap, y *yaml.Node) error {\n','func UnmarshalDataTypeMapRAML(dMap raml.DataTypeMap, y *yaml.Node) error {\n	var last raml.DataType\n'))
B('default ptr mutated',(X,'	x.isAttr = &b\n','	if x.isAttr == nil {\n		x.isAttr = &no\n	}\n	*x.isAttr = b\n'),(X,'type XML struct','var no = false\n\ntype XML struct'))
R('const default ptr',(X,'	x.isAttr = nil\n','	x.isAttr = &no\n	x.isAttr = nil\n'),(X,'type XML struct','var no = false\n\ntype XML struct'))
R('lookup table',(H,'	switch tmp {\n	case rmeta.TypeAny:\n','	if f, ok := makers[tmp]; ok {\n		return f()\n	}\n	switch tmp {\n	case rmeta.TypeAny:\n'),(H,'func typeToKind','var makers = map[rmeta.DataTypeKind]func() concreteType{\n	rmeta.TypeArray: func() concreteType { return NewArrayType() },\n	rmeta.TypeBool: func() concreteType { return NewBoolType() },\n}\n\nfunc typeToKind'))
R('helper ctor',(X,NX,'	return &XML{extra: newExtra()}'),(X,'type XML struct','func newExtra() raml.AnyMap { return raml.NewAnyMap(0).SerializeOrdered(false) }\n\ntype XML struct'))
R('regexp table',(H,'	if -1 < strings.IndexByte(val, \'|\') {','	if unionRe.MatchString(val) {'),(H,'func typeToKind','var unionRe = regexp.MustCompile(`\\|`)\n\nfunc typeToKind'),(H,'	"strings"\n','	"strings"\n	"regexp"\n'))
R('int table',(IF,'	for _, v := range validIntFormats {','	for _, v := range append([]IntegerFormat(nil), validIntFormats...) {'))
R('table struct',(IF,'	for _, v := range validIntFormats {\n		if v == conv {','	m := matcher{validIntFormats}\n	for _, v := range m.all {\n		if v == conv {'),(IF,'func (d IntegerFormat) String','type matcher struct{ all []IntegerFormat }\n\nfunc (d IntegerFormat) String'))
B('table returned',(IF,'func (d IntegerFormat) String','func (d IntegerFormat) All() []IntegerFormat { return validIntFormats }\n\nfunc (d IntegerFormat) String'))
R('table copied',(IF,'func (d IntegerFormat) String','func (d IntegerFormat) All() []IntegerFormat { return append([]IntegerFormat{}, validIntFormats...) }\n\nfunc (d IntegerFormat) String'))
B('table sorted',(IF,'	for _, v := range validIntFormats {','	sort.Slice(validIntFormats, func(i, j int) bool { return validIntFormats[i] < validIntFormats[j] })\n	for _, v := range validIntFormats {'),(IF,'import (\n','import (\n	"sort"\n'))
B('memo moved first',(IF,'	for _, v := range validIntFormats {\n		if v == conv {','	for i, v := range validIntFormats {\n		if v == conv {\n			validIntFormats[0], validIntFormats[i] = v, validIntFormats[0]'))
R('table init',(IF,'func (d IntegerFormat) String','func init() {\n	validIntFormats[0] = IntegerFormatInt\n	fill()\n}\n\nfunc fill() { validIntFormats[1] = IntegerFormatInt8 }\n\nfunc (d IntegerFormat) String'))
OB=I+'x-gen-type-object.go'
B('annotation tmp shared',(C,'''	tmp := raml.NewUntypedMap(0).SerializeOrdered(false)

	if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
		return false, err
	}
''','''	if h.last == nil {
		h.last = raml.NewUntypedMap(0).SerializeOrdered(false)
	}
	tmp := h.last

	if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
		return false, err
	}
'''),(C,'	mp raml.AnnotationMap\n','	mp raml.AnnotationMap\n	last raml.UntypedMap\n'),(C,'return hasAnnotations{raml.','return hasAnnotations{mp: raml.'))
