from mut import *
R='v0/internal/raml/'
def A(n,kind,ps,*e): run(n,list(e),ps,kind)
A('lib ordered','bug',['C08','C12','C07'],(R+'Library.go','	out := raml.NewAnyMap(1).SerializeOrdered(false)','	out := raml.NewAnyMap(1).SerializeOrdered(true)'))
A('api ordered','bug',['C08','C12','C07'],(R+'APISpec.go','		SerializeOrdered(false)\n\n','		SerializeOrdered(true)\n\n'))
A('datatype ordered','bug',['C08','C12','C07'],(R+'DataType.go','	out := raml.NewAnyMap(0).SerializeOrdered(false)','	out := raml.NewAnyMap(0).SerializeOrdered(true)'))
A('torraml','bug',['C01','C07'],(R+'DataType.go','	if err != nil {\n		return "", err\n	}\n\n	out, err','	if true {\n		return "", err\n	}\n\n	out, err'))
A('torraml2','bug',['C01','C07'],(R+'DataType.go','	out, err := yaml.Marshal(node)','	out, err := yaml.Marshal(node.Content)'))
A('torraml3','bug',['C01','C07'],(R+'DataType.go','	return string(out), err\n','	return string(out[:len(out)/2]), err\n'))
A('torraml ok','refactor',['C01','C07'],(R+'DataType.go','	return string(out), err\n','	if err != nil {\n		return "", err\n	}\n	return string(out), nil\n'))
A('torraml ok2','refactor',['C01','C07'],(R+'DataType.go','	out, err := yaml.Marshal(node)\n\n	return string(out), err\n','	var sb strings.Builder\n	enc := yaml.NewEncoder(&sb)\n	if err := enc.Encode(node); err != nil {\n		return "", err\n	}\n	return sb.String(), enc.Close()\n'),(R+'DataType.go','	"errors"\n','	"errors"\n	"strings"\n'))
A('datefmt nil','bug',['C01','C07'],(R+'enum-date-format.go','return xyml.NewStringNode(string(d)), nil','return nil, nil'))
A('datefmt lower','bug',['C01','C07'],(R+'enum-date-format.go','return xyml.NewStringNode(string(d)), nil','return xyml.NewStringNode(string(d)[:4]), nil'))
A('intfmt int','bug',['C01','C07'],(R+'enum-integer-format.go','	return d.ToYAML()','	if d == IntegerFormatLong {\n		d = IntegerFormatInt64\n	}\n	return d.ToYAML()'))
A('numfmt int','bug',['C01','C07'],(R+'enum-number-format.go','	return d.ToYAML()','	return xyml.NewStringNode("number"), nil'))
A('arr nil','bug',['C01','C04'],(R+'x-gen-ex-array.go','	e.value = make([]interface{}, 0, len(val.Content))\n',''))
A('eof','bug',['C18'],('v0/pkg/raml/rparse/parse-lib.go',' && err != io.EOF',''),('v0/pkg/raml/rparse/parse-lib.go','	"io"\n)\n','	"io"\n)\n\nvar _ = io.EOF\n'))
A('ctor order','bug',['C12','C11'],('v0/pkg/raml/PropertyMap.go','outOrder: true','outOrder: false'))
A('ctor nil','bug',['C15','C11','C06'],('v0/pkg/raml/PropertyMap.go','	return &implPropertyMap{','	if size > 1<<20 {\n		return nil\n	}\n	return &implPropertyMap{'))
A('xml nil','bug',['C15','C18','C06'],(R+'type-xml.go','	return &XML{','	if true {\n		return nil\n	}\n	return &XML{'))
A('ctor nil2','bug',['C15','C11','C06'],('v0/pkg/raml/PropertyMap.go','	return &implPropertyMap{','	if true {\n		return nil\n	}\n	return &implPropertyMap{'))
A('ctor nil3','bug',['C15','C11','C06'],('v0/pkg/raml/DatetimeOnlyExampleMap.go','	return &implDatetimeOnlyExampleMap{','	if true {\n		return nil\n	}\n	return &implDatetimeOnlyExampleMap{'))
DF=R+'enum-date-format.go'; IF=R+'enum-integer-format.go'; NF=R+'enum-number-format.go'
A('datefmt read','bug',['C04','C09'],(DF,'		*d = DateFormatRfc2616\n','		*d = DateFormatRfc3339\n'))
A('datefmt read2','bug',['C04','C09'],(DF,'		// TODO: validate here when enabled\n		*d = DateFormat(y.Value)\n',''))
A('datefmt kind','bug',['C04','C09'],(DF,'	if err := xyml.RequireString(y); err != nil {\n		return err\n	}\n',''))
A('datefmt simple','refactor',['C04','C09','C01'],(DF,'''	switch DateFormat(y.Value) {
	case DateFormatRfc3339:
		*d = DateFormatRfc3339
	case DateFormatRfc2616:
		*d = DateFormatRfc2616
	default:
		// TODO: validate here when enabled
		*d = DateFormat(y.Value)
	}
''','	*d = DateFormat(y.Value)\n'))
A('intfmt loop','bug',['C04','C09'],(IF,'	for _, v := range validIntFormats {\n		if v == conv {','	for _, v := range validIntFormats {\n		if v != conv {'))
A('intfmt prefix','bug',['C04','C09'],(IF,'		if v == conv {','		if strings.HasPrefix(string(conv), string(v)) {'),(IF,'import (\n','import (\n	"strings"\n'))
A('intfmt swallow','bug',['C04','C09'],(IF,'		return err\n','		return nil\n'))
A('numfmt str','bug',['C01'],(NF,'	return string(d)\n','	if d == NumberFormatLong {\n		return "int64"\n	}\n	return string(d)\n'))
A('numfmt node','refactor',['C01','C04','C07'],(NF,'	return xyml.NewStringNode(string(d)), nil','	return xyml.NewStringNode(d.String()), nil'))
A('numfmt node2','refactor',['C01','C04','C07'],(NF,'	return xyml.NewStringNode(string(d)), nil','	return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: string(d)}, nil'))
A('numfmt val','refactor',['C01','C04','C07'],(NF,'	return d.ToYAML()','	return string(d), nil'))
A('numfmt idx','refactor',['C04','C09'],(NF,'	for _, v := range validNumForms {\n		if v == f {\n			*d = v\n		}\n	}\n','	for i := range validNumForms {\n		if validNumForms[i] == f {\n			*d = f\n			return nil\n		}\n	}\n'))

AX=R+'x-gen-ex-array.go'
OLD="	e.value = make([]interface{}, 0, len(val.Content))\n"
A('arr nil2','bug',['C04'],(AX,OLD,'	e.value = nil\n'))
A('arr lit','refactor',['C04','C01','C19'],(AX,OLD,'	e.value = []interface{}{}\n'))
A('arr tmp','refactor',['C04','C01','C19'],(AX,OLD,'	tmp := make([]interface{}, 0)\n'),(AX,'		e.value = append(e.value, v)\n		return nil\n	})\n\n	return nil\n','		tmp = append(tmp, v)\n		e.value = tmp\n		return nil\n	})\n'),(AX,'	return xyml.SequenceForEach(val, func(v','	e.value = tmp\n	return xyml.SequenceForEach(val, func(v'))
AT=R+'x-gen-type-array.go'
A('arr def nil','bug',['C04'],(AT,'		def := make([]interface{}, 0, len(val.Content))\n','		var def []interface{}\n'))
