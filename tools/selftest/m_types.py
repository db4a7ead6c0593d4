from mut import *
F='v0/internal/raml/fn-sorting-hat-type.go'; C='v0/internal/raml/'
M=['C05']
B=lambda n,*e,f=F: run(n,[(f,o,x) for o,x in e],M,'bug')
R=lambda n,*e,f=F: run(n,[(f,o,x) for o,x in e],M,'refactor')
SW='''	switch tmp {
	case rmeta.TypeAny:
		return NewAnyType()
'''
s=open('/repo/'+F).read()
a=s.index('	tmp := rmeta.DataTypeKind(val)'); b=s.index('	if strings.HasPrefix(val')
FULL=s[a:b]
LOOP=s[s.index('	for i := 0; i < len(val.Content)'):s.index('	if schema > -1')]
B('items first',('	if props {\n		return NewObjectType(), nil\n	}\n\n	if items {\n		return NewArrayType(), nil\n	}\n','	if items {\n		return NewArrayType(), nil\n	}\n\n	if props {\n		return NewObjectType(), nil\n	}\n'))
B('break early',('			props = true\n','			props = true\n			break\n'))
B('break early2',('			items = true\n','			items = true\n			break\n'))
B('0<',('-1 < strings.IndexByte','0 < strings.IndexByte'))
B('only type',('key == rmeta.KeyType || key == rmeta.KeySchema','key == rmeta.KeyType'))
B('no schema keep',('		tmp.schema = val\n		return tmp\n','		return tmp\n'))
B('custom no schema',('	out := NewCustomType()\n	out.schema = val\n','	out := NewCustomType()\n'))
B('swap',('		return NewDateOnlyType()\n	case rmeta.TypeDatetime:','		return NewDatetimeType()\n	case rmeta.TypeDatetime:'))
B('swap2',('	case rmeta.TypeTimeOnly:\n		return NewTimeOnlyType()\n',''))
B('int32',('	case rmeta.TypeInteger:','	case rmeta.TypeInteger, "int32":'))
B('trim',('	tmp := rmeta.DataTypeKind(val)','	tmp := rmeta.DataTypeKind(strings.TrimSuffix(val, "[]"))'))
B('kind const',('NewDataType(rmeta','NewDataType(rmeta.TypeAny), NewDataType(rmeta'),f=C+'x-gen-type-union.go')
B('null any',('	if xyml.IsNilType(val) {\n		return NewStringType(), nil','	if xyml.IsNilType(val) {\n		return NewAnyType(), nil'))
B('include text',('		out.schema = val.Value\n		return out, nil','		return out, nil'))
B('include custom',('		return NewIncludeType(), nil\n','		return NewCustomType(), nil\n'))
B('not read',('			if err = kind.UnmarshalRAML(val); err != nil {\n				return nil, err\n			}\n',''))
B('swallow',('			if err = kind.UnmarshalRAML(val); err != nil {\n				return nil, err\n			}\n','			if err = kind.UnmarshalRAML(val); err != nil {\n				return NewCustomType(), nil\n			}\n'))
B('default obj',('	return NewStringType(), nil\n}','	return NewObjectType(), nil\n}'))
B('first entry',('	for i := 0; i < len(val.Content); i += 2 {','	for i := 0; i < len(val.Content) && i < 20; i += 2 {'))
B('from 2',('	for i := 0; i < len(val.Content); i += 2 {','	for i := 2; i < len(val.Content); i += 2 {'))
B('minItems',('key == rmeta.KeyItems','key == rmeta.KeyItems || key == rmeta.KeyMinItems'))
B('union empty',('		tmp := NewUnionType()','		if val == "|" {\n			return NewCustomType()\n		}\n		tmp := NewUnionType()'))
table='''	if f, ok := kinds[tmp0]; ok {
		return f()
	}

'''
import re
cases=re.findall(r'case (rmeta\.\w+):\n\t\treturn (New\w+)\(\)',FULL)
tbl='var kinds = map[rmeta.DataTypeKind]func() concreteType{\n'+''.join('	%s: func() concreteType { return %s() },\n'%c for c in cases)+'}\n\nfunc typeToKind('
R('table',(FULL,'	tmp0 := rmeta.DataTypeKind(val)\n'+table),('func typeToKind(',tbl))
tbl2='var kinds = []struct{\n	kind rmeta.DataTypeKind\n	make func() concreteType\n}{\n'+''.join('	{%s, func() concreteType { return %s() }},\n'%c for c in cases)+'}\n\nfunc typeToKind('
R('slice table',(FULL,'	tmp0 := rmeta.DataTypeKind(val)\n	for i := range kinds {\n		if kinds[i].kind == tmp0 {\n			return kinds[i].make()\n		}\n	}\n\n'),('func typeToKind(',tbl2))
R('builtin helper',(FULL,'	if t := builtin(rmeta.DataTypeKind(val)); t != nil {\n		return t\n	}\n\n'),('func typeToKind(','func builtin(tmp rmeta.DataTypeKind) concreteType {\n'+FULL[FULL.index('\tswitch'):].rstrip()+'\n	return nil\n}\n\nfunc typeToKind('))
R('contains',('-1 < strings.IndexByte(val, \'|\')','strings.Contains(val, "|")'))
R('split',('-1 < strings.IndexByte(val, \'|\')','len(strings.Split(val, "|")) > 1'))
R('count',('-1 < strings.IndexByte(val, \'|\')','strings.Count(val, "|") > 0'))
R('containsrune',('-1 < strings.IndexByte(val, \'|\')','strings.ContainsRune(val, \'|\')'))
R('>=0',('-1 < strings.IndexByte(val, \'|\')','strings.IndexByte(val, \'|\') >= 0'))
R('node var',('	schema := -1\n','	var schema *yaml.Node\n'),('			schema = i + 1\n','			schema = val.Content[i+1]\n'),('	if schema > -1 {\n		tmp := val.Content[schema]\n','	if schema != nil {\n		tmp := schema\n'))
R('switch',(LOOP,'''	for i := 0; i < len(val.Content); i += 2 {
		switch val.Content[i].Value {
		case rmeta.KeyType, rmeta.KeySchema:
			return fromTypeFacet(val.Content[i+1])
		case rmeta.KeyProperties:
			props = true
		case rmeta.KeyItems:
			items = true
		}
	}
'''),('	schema := -1\n',''),(s[s.index('	if schema > -1'):s.index('	if props {')],''),('// siftType','func fromTypeFacet(tmp *yaml.Node) (concreteType, error) {\n'+s[s.index('		if tmp.LongTag()'):s.index('	}\n\n	if props')]+'}\n\n// siftType'))
R('find helper',(LOOP,'''	if n := facet(val, rmeta.KeyType); n != nil {
		return fromTypeFacet(n)
	}
	if n := facet(val, rmeta.KeySchema); n != nil {
		return fromTypeFacet(n)
	}
	props = facet(val, rmeta.KeyProperties) != nil
	items = facet(val, rmeta.KeyItems) != nil
'''),('	schema := -1\n',''),(s[s.index('	if schema > -1'):s.index('	if props {')],''),('// siftType','''func facet(n *yaml.Node, name string) *yaml.Node {
	for i := 0; i+1 < len(n.Content); i += 2 {
		if n.Content[i].Value == name {
			return n.Content[i+1]
		}
	}
	return nil
}

func fromTypeFacet(tmp *yaml.Node) (concreteType, error) {
'''+s[s.index('		if tmp.LongTag()'):s.index('	}\n\n	if props')]+'}\n\n// siftType'))
R('kind var',('	if props {\n		return NewObjectType(), nil\n	}\n\n	if items {\n		return NewArrayType(), nil\n	}\n\n	return NewStringType(), nil\n','	switch {\n	case props:\n		return NewObjectType(), nil\n	case items:\n		return NewArrayType(), nil\n	default:\n		return NewStringType(), nil\n	}\n'))
R('bitmask',('			props = true\n','			props = props || true\n'))
R('default kind',('	props := false\n	items := false\n','	fallback := rmeta.TypeString\n'),('			props = true\n','			fallback = rmeta.TypeObject\n'),('		if key == rmeta.KeyItems {\n			items = true\n','		if key == rmeta.KeyItems && fallback != rmeta.TypeObject {\n			fallback = rmeta.TypeArray\n'),('	if props {\n		return NewObjectType(), nil\n	}\n\n	if items {\n		return NewArrayType(), nil\n	}\n\n	return NewStringType(), nil\n','	return typeToKind(string(fallback)), nil\n'))
R('mapforeach',(LOOP,'''	var typeVal *yaml.Node
	_ = xyml.MapForEach(val, func(k, v *yaml.Node) error {
		if typeVal != nil {
			return nil
		}
		switch k.Value {
		case rmeta.KeyType, rmeta.KeySchema:
			typeVal = v
		case rmeta.KeyProperties:
			props = true
		case rmeta.KeyItems:
			items = true
		}
		return nil
	})
'''),('	schema := -1\n',''),('	if schema > -1 {\n		tmp := val.Content[schema]\n','	if tmp := typeVal; tmp != nil {\n'))
