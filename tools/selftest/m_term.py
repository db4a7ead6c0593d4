from mut import *
R='v0/internal/raml/'
import sys
PS=['C20'] if len(sys.argv)<3 or sys.argv[-1]!='all' else ['C06','C07','C05','C15']
def A(n,k,*e): run(n,list(e),PS,k)
H=R+'fn-sorting-hat-type.go'
LOOP='	for i := 0; i < len(val.Content); i += 2 {\n		key := val.Content[i].Value\n'
A('self resolve','bug',(H,'	if xyml.IsSequence(val) {\n		return','	if xyml.IsSequence(val) && len(val.Content) == 1 {\n		return TypeSortingHat(val)\n	}\n\n	if xyml.IsSequence(val) {\n		return'))
A('alias resolve','bug',(H,'	if xyml.IsSequence(val) {\n		return','	if val.Alias != nil {\n		return TypeSortingHat(val.Alias)\n	}\n\n	if xyml.IsSequence(val) {\n		return'))
A('child resolve','refactor',(H,'	if xyml.IsSequence(val) {\n		return','	if xyml.IsSequence(val) && len(val.Content) == 1 {\n		return TypeSortingHat(val.Content[0])\n	}\n\n	if xyml.IsSequence(val) {\n		return'))
A('no step','bug',(H,LOOP,'	for i := 0; i < len(val.Content); {\n		key := val.Content[i].Value\n		if key == "" {\n			continue\n		}\n		i += 2\n'))
A('neq bound','bug',(H,LOOP,LOOP.replace('i < len','i != len').replace('i += 2','i += 3')))
A('neq one','refactor',(H,LOOP,LOOP.replace('i < len','i+1 != len+1').replace('i+1 != len+1','i != len').replace('i += 2','i++')+'		if i%2 == 1 {\n			continue\n		}\n'))
A('while','refactor',(H,LOOP,'	rest := val.Content\n	i := -2\n	for len(rest) > 1 {\n		key := rest[0].Value\n		rest = rest[2:]\n		i += 2\n'))
A('while nostep','bug',(H,LOOP,'	rest := val.Content\n	i := -2\n	for len(rest) > 1 {\n		key := rest[0].Value\n		if key == "x" {\n			continue\n		}\n		rest = rest[2:]\n		i += 2\n'))
A('grow','bug',(H,LOOP,LOOP+'		if key == "traits" {\n			val.Content = append(val.Content, val.Content[i], val.Content[i+1])\n		}\n'))
A('break','refactor',(H,LOOP,'	i := 0\n	for {\n		if i >= len(val.Content) {\n			break\n		}\n		key := val.Content[i].Value\n		i += 2\n'))
A('library self','bug',(R+'Library.go','func (l Library) MarshalYAML() (interface{}, error) {\n','func (l Library) MarshalYAML() (interface{}, error) {\n	if l.usage == nil {\n		return &l, nil\n	}\n'))
A('ex self','bug',(R+'x-gen-ex-array.go','func (e ArrayExample) ToYAML() (*yaml.Node, error) {\n','func (e ArrayExample) ToYAML() (*yaml.Node, error) {\n	if e.value == nil {\n		return xyml.ToYamlNode(e)\n	}\n'))
A('ex self2','bug',(R+'x-gen-ex-array.go','func (e ArrayExample) ToYAML() (*yaml.Node, error) {\n','func (e ArrayExample) ToYAML() (*yaml.Node, error) {\n	if e.value == nil {\n		n, err := e.MarshalYAML()\n		return n.(*yaml.Node), err\n	}\n'),(R+'x-gen-ex-array.go','func (e ArrayExample) ToYAML()','func (e ArrayExample) MarshalYAML() (interface{}, error) {\n	return e.ToYAML()\n}\n\nfunc (e ArrayExample) ToYAML()'))
A('map foreach self','bug',('v0/pkg/raml/PropertyMap.go','func (i *implPropertyMap) ForEach(f func(k string, v Property)) PropertyMap {\n','func (i *implPropertyMap) ForEach(f func(k string, v Property)) PropertyMap {\n	if f == nil {\n		return i.ForEach(f)\n	}\n'))
A('map grow','bug',('v0/pkg/raml/PropertyMap.go','	for j := range i.ordered {\n		f(i.ordered[j].Key, i.ordered[j].Val)\n','	for j := 0; j < i.Len(); j++ {\n		f(i.ordered[j].Key, i.ordered[j].Val)\n		if f == nil {\n			i.Put("x", nil)\n		}\n'))
A('unmarshal self','bug',(R+'DataType.go','	if xyml.IsMap(val) {\n','	if val.Kind == yaml.AliasNode {\n		return d.UnmarshalRAML(val)\n	}\n\n	if xyml.IsMap(val) {\n'))
A('unmarshal alias','refactor',(R+'DataType.go','	if xyml.IsMap(val) {\n','	if val.Kind == yaml.AliasNode && val.Alias.Kind == yaml.ScalarNode {\n		d.schema = val.Alias.Value\n		return nil\n	}\n\n	if xyml.IsMap(val) {\n'))
A('string fmt','bug',(R+'enum-number-format.go','	return string(d)\n','	return fmt.Sprintf("%s", d)\n'),(R+'enum-number-format.go','import (\n','import (\n	"fmt"\n'))
A('helper rec','refactor',(H,LOOP,'	keys := 0\n	for _, n := range val.Content {\n		keys += depth(n)\n	}\n	_ = keys\n'+LOOP),(H,'func typeToKind(','func depth(n *yaml.Node) int {\n	m := 0\n	for _, c := range n.Content {\n		if d := depth(c); d > m {\n			m = d\n		}\n	}\n	return m + 1\n}\n\nfunc typeToKind('))
A('helper rec alias','bug',(H,LOOP,'	keys := 0\n	for _, n := range val.Content {\n		keys += depth(n)\n	}\n	_ = keys\n'+LOOP),(H,'func typeToKind(','func depth(n *yaml.Node) int {\n	m := 0\n	for _, c := range n.Content {\n		if c.Alias != nil {\n			c = c.Alias\n		}\n		if d := depth(c); d > m {\n			m = d\n		}\n	}\n	return m + 1\n}\n\nfunc typeToKind('))
A('decode self','bug',(R+'enum-number-format.go','	if err := xyml.RequireString(y); err != nil {\n		return err\n	}\n','	if err := xyml.RequireString(y); err != nil {\n		return y.Decode(d)\n	}\n'))
A('decode str','refactor',(R+'enum-number-format.go','	if err := xyml.RequireString(y); err != nil {\n		return err\n	}\n','	if err := xyml.RequireString(y); err != nil {\n		return y.Decode((*string)(d))\n	}\n'))
A('json self','bug',('v0/pkg/raml/PropertyMap.go','	if i.outOrder {\n		return json.Marshal(i.ordered)\n	}\n','	if i.outOrder {\n		return json.Marshal(i.ordered)\n	}\n	if len(i.index) == 0 {\n		return json.Marshal(&i)\n	}\n'))
A('json yaml','refactor',('v0/pkg/raml/PropertyMap.go','func (i implPropertyMap) MarshalJSON() ([]byte, error) {\n','func (i implPropertyMap) MarshalJSON() ([]byte, error) {\n	if len(i.index) == 0 && !i.outOrder {\n		return json.Marshal(map[string]Property{})\n	}\n'))
A('fmt string','refactor',(R+'enum-number-format.go','	return string(d)\n','	return fmt.Sprintf("%s", string(d))\n'),(R+'enum-number-format.go','import (\n','import (\n	"fmt"\n'))
