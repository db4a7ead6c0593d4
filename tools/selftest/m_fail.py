from mut import *
P=['C07']
S='v0/internal/raml/x-gen-type-string.go'; U='v0/pkg/raml/UntypedMap.go'; X='v0/internal/raml/type-xml.go'; L='v0/internal/raml/Library.go'; D='v0/internal/raml/DataType.go'
B=lambda n,*e: run(n,[x for x in e],P,'bug')
R=lambda n,*e: run(n,[x for x in e],P,'refactor')
imp=lambda f:(f,'import (\n','import (\n	"errors"\n')
LOOP='	for j := range i.ordered {\n		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {\n			return nil, e\n		}\n	}\n'
B('min>max',imp(S),(S,'	if o.minLength > 0 {\n','	if o.minLength > 4000 {\n		return errors.New("x")\n	}\n	if o.minLength > 0 {\n'))
B('map nil val',imp(U),(U,LOOP,LOOP.replace('{\n		if e','{\n		if i.ordered[j].Val == nil {\n			return nil, errors.New("x")\n		}\n		if e',1)))
B('map len',imp(U),(U,'	out := xyml.NewMapNode(i.Len())\n','	if i.Len() > 1000 {\n		return nil, errors.New("x")\n	}\n	out := xyml.NewMapNode(i.Len())\n'))
B('nil nil',(X,'	out := raml.NewAnyMap(5)','	if x.name != nil && *x.name == "" {\n		return nil, nil\n	}\n	out := raml.NewAnyMap(5)'))
B('sentinel',imp(X),(X,'func NewXML','var errX = errors.New("x")\n\nfunc NewXML'),(X,'	out := raml.NewAnyMap(5)','	if x.name != nil && *x.name == "" {\n		return nil, errX\n	}\n	out := raml.NewAnyMap(5)'))
R('wrap',(U,'import (\n','import (\n'),(U,LOOP,LOOP.replace('return nil, e','return nil, fmt.Errorf("entry %d: %w", j, e)')))
R('wrap2',(X,'		return nil, err\n	}\n\n	return out.ToYAML()','		return nil, fmt.Errorf("xml: %w", err)\n	}\n\n	return out.ToYAML()'),(X,'import (\n','import (\n	"fmt"\n'))
R('err var',(U,'	out := xyml.NewMapNode(i.Len())\n\n'+LOOP+'\n	return out, nil\n}\n\nfunc (i *implUntypedMap) Put(','	out := xyml.NewMapNode(i.Len())\n	var err error\n	for j := 0; err == nil && j < len(i.ordered); j++ {\n		err = xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val)\n	}\n	if err != nil {\n		return nil, err\n	}\n	return out, nil\n}\n\nfunc (i *implUntypedMap) Put('))
R('err foreach',(U,'	out := xyml.NewMapNode(i.Len())\n\n'+LOOP+'\n	return out, nil\n}\n\nfunc (i *implUntypedMap) Put(','	out := xyml.NewMapNode(i.Len())\n	var err error\n	i.ForEach(func(k string, v interface{}) {\n		if err == nil {\n			err = xyml.MapAppend(out, k, v)\n		}\n	})\n	if err != nil {\n		return nil, err\n	}\n	return out, nil\n}\n\nfunc (i *implUntypedMap) Put('))
R('type switch',(U,LOOP,LOOP.replace('{\n		if e','{\n		if m, ok := i.ordered[j].Val.(xyml.Marshaler); ok {\n			n, err := m.ToYAML()\n			if err != nil {\n				return nil, err\n			}\n			if err := xyml.MapAppend(out, i.ordered[j].Key, n); err != nil {\n				return nil, err\n			}\n			continue\n		}\n		if e',1)))
B('early stop',(U,LOOP,LOOP.replace('for j := range i.ordered {','for j := 0; j < len(i.ordered) && i.ordered[j].Val != nil; j++ {')))
B('early stop first',(U,LOOP,LOOP.replace('for j := range i.ordered {','for j := 0; i.outOrder == (j > 5) && j < len(i.ordered); j++ {')))
B('early stop key',(U,LOOP,'	k := "x"\n	for j := 0; k != "" && j < len(i.ordered); j++ {\n		k = i.ordered[j].Key\n		if e := xyml.MapAppend(out, k, i.ordered[j].Val); e != nil {\n			return nil, e\n		}\n	}\n'))
