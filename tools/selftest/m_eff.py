from mut import *
import sys
P=['C13']
A='v0/internal/raml/APISpec.go'; L='v0/internal/raml/Library.go'; F='v0/pkg/raml/AnyMap.go'; X='v0/internal/raml/type-xml.go'; D='v0/internal/raml/DataType.go'
B=lambda n,f,*e: run(n,[(f,o,x) for o,x in e],P,'bug')
R=lambda n,f,*e: run(n,[(f,o,x) for o,x in e],P,'refactor')
imp=('	"io"\n','	"io"\n	"sort"\n')
B('sort protocols',A,imp,('	out := raml.NewAnyMap(8)','	sort.Strings(a.protocols)\n	out := raml.NewAnyMap(8)'))
B('sort getter',A,imp,('	return a.protocols\n','	sort.Strings(a.protocols)\n	return a.protocols\n'))
R('sort copy getter',A,imp,('	return a.protocols\n','	out := make([]string, len(a.protocols))\n	copy(out, a.protocols)\n	sort.Strings(out)\n	return out\n'))
R('copy append getter',A,('	return a.protocols\n','	return append([]string(nil), a.protocols...)\n'))
B('append spare',A,('	out := raml.NewAnyMap(8)','	ps := append(a.protocols, "HTTP")\n	_ = ps\n	out := raml.NewAnyMap(8)'))
B('inplace filter',A,('	out := raml.NewAnyMap(8)','	ps := a.protocols[:0]\n	for _, x := range a.protocols {\n		if x != "" {\n			ps = append(ps, x)\n		}\n	}\n	out := raml.NewAnyMap(8)'))
B('upper in place',A,('	out := raml.NewAnyMap(8)','	for i := range a.protocols {\n		a.protocols[i] = strings.ToUpper(a.protocols[i])\n	}\n	out := raml.NewAnyMap(8)'))
B('trim desc',A,('	out := raml.NewAnyMap(8)','	if a.description != nil {\n		*a.description = strings.TrimSpace(*a.description)\n	}\n	out := raml.NewAnyMap(8)'))
B('drop extra',A,('	a.extra.ForEach(','	a.extra.Delete(rmeta.KeyTypes)\n	a.extra.ForEach('))
B('merge extra',A,('	a.annotations.ForEach(func(k string, v raml.Annotation) { out.Put(k, v) })\n	a.extra.ForEach(func(k, v interface{}) { out.Put(k, v) })','	all := a.extra\n	a.annotations.ForEach(func(k string, v raml.Annotation) { all.Put(k, v) })\n	all.ForEach(func(k, v interface{}) { out.Put(k, v) })'))
R('merge fresh',A,('	a.annotations.ForEach(func(k string, v raml.Annotation) { out.Put(k, v) })\n	a.extra.ForEach(func(k, v interface{}) { out.Put(k, v) })','	all := raml.NewAnyMap(0)\n	a.annotations.ForEach(func(k string, v raml.Annotation) { all.Put(k, v) })\n	a.extra.ForEach(func(k, v interface{}) { all.Put(k, v) })\n	all.ForEach(func(k, v interface{}) { out.Put(k, v) })'))
B('flag uses',A,('		out.Put(rmeta.KeyUses, a.uses)','		out.Put(rmeta.KeyUses, a.uses.SerializeOrdered(true))'))
B('title default',A,('func (a *APISpec) Title() string {\n','func (a *APISpec) Title() string {\n	if a.title == "" {\n		a.title = "Untitled"\n	}\n'))
R('value recv write',A,('	out := raml.NewAnyMap(8)','	if a.title == "" {\n		a.title = "Untitled"\n	}\n	out := raml.NewAnyMap(8)'))
B('write counter',L,('	usage           *string\n}','	usage           *string\n	n int\n}'),('	if _, err := w.Write(','	l.n++\n	if _, err := w.Write('))
B('package counter',L,('func NewLibrary','var written int\n\nfunc NewLibrary'),('	if _, err := w.Write(','	written++\n	if _, err := w.Write('))
B('lazy cache',L,('func (l *Library) Usage() option.String {\n','func (l *Library) Usage() option.String {\n	if l.usage != nil && *l.usage == "" {\n		l.usage = nil\n	}\n'))
B('unset on len',L,('func (l *Library) Types() raml.DataTypeMap {\n','func (l *Library) Types() raml.DataTypeMap {\n	if l.types.Len() == 0 {\n		l.types = raml.NewDataTypeMap(0)\n	}\n'))
B('types loop delete',L,('	l.extra.ForEach(func(k, v interface{}) { out.Put(k, v) })','	l.extra.ForEach(func(k, v interface{}) {\n		out.Put(k, v)\n		if v == nil {\n			l.extra.Delete(k)\n		}\n	})'))
B('schema trim',D,('	out.Put(rmeta.KeyType, d.schema)\n','	if d.schema == "" {\n		d.schema = string(d.kind)\n	}\n	out.Put(rmeta.KeyType, d.schema)\n'))
B('get moves front',F,('func (i *implAnyMap) Get(k interface{}) (value interface{}, exists bool) {\n','func (i *implAnyMap) Get(k interface{}) (value interface{}, exists bool) {\n	if p := i.IndexOf(k); p > 0 {\n		i.ordered[0], i.ordered[p] = i.ordered[p], i.ordered[0]\n	}\n'))
B('get swaps adjacent',F,('func (i *implAnyMap) Get(k interface{}) (value interface{}, exists bool) {\n','func (i *implAnyMap) Get(k interface{}) (value interface{}, exists bool) {\n	for j := range i.ordered {\n		if i.ordered[j].Key == k {\n			i.ordered[j].Val = i.index[k]\n		}\n	}\n'))
B('get caches',F,('func (i *implAnyMap) Get(k interface{}) (value interface{}, exists bool) {\n','func (i *implAnyMap) Get(k interface{}) (value interface{}, exists bool) {\n	if _, ok := i.index[k]; !ok {\n		i.index[k] = nil\n		delete(i.index, k)\n	}\n'))
B('toyaml flag',F,('		out := xyml.NewOrderedMapNode(i.Len())','		i.index[nil] = nil\n		out := xyml.NewOrderedMapNode(i.Len())'))
B('len clears',F,('Len() int {\n','Len() int {\n	delete(i.index, nil)\n'))
B('marshal order flag',F,('func (i implAnyMap) MarshalJSON() ([]byte, error) {\n','func (i *implAnyMap) MarshalJSON() ([]byte, error) {\n	i.outOrder = len(i.ordered) > 0\n'))
B('foreach del',F,('func (i *implAnyMap) ForEach(fn func(k interface{}, v interface{})) AnyMap {\n','func (i *implAnyMap) ForEach(fn func(k interface{}, v interface{})) AnyMap {\n	if len(i.ordered) == 0 {\n		i.ordered = nil\n	}\n'))
