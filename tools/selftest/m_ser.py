from mut import *
F='v0/pkg/raml/AnyMap.go'; G='v0/pkg/raml/UntypedMap.go'
M=['C12']
B=lambda n,*e,f=F: run(n,[(f,o,x) for o,x in e],M,'bug')
R=lambda n,*e,f=F: run(n,[(f,o,x) for o,x in e],M,'refactor')
L1='''	for j := range i.ordered {
		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
			return nil, e
		}
	}

	return out, nil'''
LO='''		for j := range i.ordered {
			tmp := xyml.NewMapNode(1)
			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
				return nil, e
			}
			if err := xyml.SequenceAppend(out, tmp); err != nil {
				return nil, err
			}
		}
'''
B('skip nil',(L1,L1.replace('		if e','		if i.ordered[j].Val == nil {\n			continue\n		}\n		if e')))
B('ignore err',(L1,L1.replace('			return nil, e\n','			continue\n')))
B('ignore err2',(L1,L1.replace('			return nil, e\n','			return out, nil\n')))
B('from 1',(L1,L1.replace('for j := range i.ordered {','for j := 1; j < len(i.ordered); j++ {')))
B('rev',(L1,L1.replace('for j := range i.ordered {','for j := len(i.ordered)-1; j >= 0; j-- {')))
B('map range',(L1,L1.replace('for j := range i.ordered {','for k, v := range i.index {').replace('i.ordered[j].Key, i.ordered[j].Val','k, v')))
B('key twice',(L1,L1.replace('i.ordered[j].Key, i.ordered[j].Val','i.ordered[j].Key, i.ordered[j].Key')))
B('dup',(L1,L1.replace('	}\n\n	return','		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {\n			return nil, e\n		}\n	}\n\n	return')))
B('ord shared',(LO,LO.replace('			tmp := xyml.NewMapNode(1)\n','').replace('		for','		tmp := xyml.NewMapNode(1)\n		for',1)))
B('ord err',(LO,LO.replace('				return nil, err\n','				continue\n')))
B('ord no seq',(LO,LO.replace('xyml.SequenceAppend(out, tmp)','xyml.SequenceAppend(tmp, tmp)')))
B('ord plain',(LO,LO.replace('xyml.MapAppend(tmp,','xyml.MapAppend(out,')))
B('flag inv',('''func (i implAnyMap) ToYAML() (*yaml.Node, error) {
	if i.outOrder''','''func (i implAnyMap) ToYAML() (*yaml.Node, error) {
	if !i.outOrder'''))
B('len>1',('''func (i implAnyMap) ToYAML() (*yaml.Node, error) {
	if i.outOrder''','''func (i implAnyMap) ToYAML() (*yaml.Node, error) {
	if len(i.ordered) > 64 {
		return xyml.NewMapNode(0), nil
	}
	if i.outOrder'''))
B('json order',('	for j := range i.ordered {\n		out[fmt.Sprint(i.ordered[j].Key)] = i.ordered[j].Val','	for k, v := range i.index {\n		out[fmt.Sprint(k)] = v'))
B('json %T',('out[fmt.Sprint(i.ordered[j].Key)]','out[fmt.Sprintf("%T", i.ordered[j].Key)]'))
B('json skip',('		out[fmt.Sprint(i.ordered[j].Key)] = i.ordered[j].Val\n','		if s, ok := i.ordered[j].Key.(string); ok {\n			out[s] = i.ordered[j].Val\n		}\n'))
B('json omitempty',('	Val interface{} `json:"value"`','	Val interface{} `json:"value,omitempty"`'))
B('json same name',('`json:"value"`','`json:"key"`'))
B('json list cut',('return json.Marshal(i.ordered)','return json.Marshal(i.ordered[:len(i.ordered)/2])'))
B('json map skip',('		out[fmt.Sprint(k)] = v','		if v != nil {\n			out[fmt.Sprint(k)] = v\n		}'),f=G)
B('json key quote',('out[fmt.Sprint(k)] = v','out[fmt.Sprint("x", k)] = v'),f=G)
R('foreach val',(L1,L1.replace('for j := range i.ordered {','for _, en := range i.ordered {').replace('i.ordered[j]','en')))
R('idx loop',(L1,L1.replace('for j := range i.ordered {','for j := 0; j < len(i.ordered); j++ {\n		en := i.ordered[j]').replace('MapAppend(out, i.ordered[j].Key, i.ordered[j].Val)','MapAppend(out, en.Key, en.Val)')))
R('helper',(L1,'	return out, i.fill(out)'),('func (i *implAnyMap) Put(','''func (i *implAnyMap) fill(out *yaml.Node) error {
	for j := range i.ordered {
		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
			return e
		}
	}
	return nil
}

func (i *implAnyMap) Put('''))
R('pair helper',(L1,L1.replace('xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val)','i.ordered[j].put(out)')),('func (i *implAnyMap) Put(','''func (e AnyMapEntry) put(out *yaml.Node) error {
	return xyml.MapAppend(out, e.Key, e.Val)
}

func (i *implAnyMap) Put('''))
R('nodes',(L1,'''	for j := range i.ordered {
		k, err := xyml.ToYamlNode(i.ordered[j].Key)
		if err != nil {
			return nil, err
		}
		v, err := xyml.ToYamlNode(i.ordered[j].Val)
		if err != nil {
			return nil, err
		}
		if err = xyml.MapAppendNode(out, k, v); err != nil {
			return nil, err
		}
	}

	return out, nil'''))
R('nodes content',(L1,'''	for j := range i.ordered {
		k, err := xyml.ToYamlNode(i.ordered[j].Key)
		if err != nil {
			return nil, err
		}
		v, err := xyml.ToYamlNode(i.ordered[j].Val)
		if err != nil {
			return nil, err
		}
		out.Content = append(out.Content, k, v)
	}

	return out, nil'''))
R('err var',(L1,'''	var err error
	i.ForEach(func(k, v interface{}) {
		if err == nil {
			err = xyml.MapAppend(out, k, v)
		}
	})
	if err != nil {
		return nil, err
	}

	return out, nil'''))
R('one loop',('		out := xyml.NewOrderedMapNode(i.Len())\n\n'+LO+'\n		return out, nil\n	}\n\n	out := xyml.NewMapNode(i.Len())\n\n'+L1,'''		return i.orderedNode()
	}
	return i.mapNode()'''),('func (i *implAnyMap) Put(','func (i implAnyMap) orderedNode() (*yaml.Node, error) {\n		out := xyml.NewOrderedMapNode(i.Len())\n\n'+LO+'\n		return out, nil\n}\n\nfunc (i implAnyMap) mapNode() (*yaml.Node, error) {\n	out := xyml.NewMapNode(i.Len())\n\n'+L1+'\n}\n\nfunc (i *implAnyMap) Put('))
R('merged',('''	if i.outOrder {
		out := xyml.NewOrderedMapNode(i.Len())

'''+LO+'''
		return out, nil
	}

	out := xyml.NewMapNode(i.Len())

'''+L1,'''	var out *yaml.Node
	if i.outOrder {
		out = xyml.NewOrderedMapNode(i.Len())
	} else {
		out = xyml.NewMapNode(i.Len())
	}
	for _, e := range i.ordered {
		target := out
		if i.outOrder {
			target = xyml.NewMapNode(1)
		}
		if err := xyml.MapAppend(target, e.Key, e.Val); err != nil {
			return nil, err
		}
		if i.outOrder {
			if err := xyml.SequenceAppend(out, target); err != nil {
				return nil, err
			}
		}
	}
	return out, nil'''))
R('json val',('	for j := range i.ordered {\n		out[fmt.Sprint(i.ordered[j].Key)] = i.ordered[j].Val','	for _, e := range i.ordered {\n		out[fmt.Sprintf("%v", e.Key)] = e.Val'))
R('json foreach',('	for j := range i.ordered {\n		out[fmt.Sprint(i.ordered[j].Key)] = i.ordered[j].Val\n	}','	i.ForEach(func(k, v interface{}) { out[fmt.Sprint(k)] = v })'))
R('json index',('''	out := make(map[string]interface{}, len(i.index))
	for k, v := range i.index {
		out[fmt.Sprint(k)] = v
	}

	return json.Marshal(out)''','	return json.Marshal(i.index)'),f=G)
R('json key',('out[fmt.Sprint(k)] = v','out[k] = v'),('	"fmt"\n',''),f=G)
R('json keys order',('''	for k, v := range i.index {
		out[fmt.Sprint(k)] = v''','''	for _, e := range i.ordered {
		out[e.Key] = e.Val'''),('	"fmt"\n',''),f=G)
