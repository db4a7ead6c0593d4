from mut import *
R='v0/internal/raml/'
def A(n,kind,ps,*e): run(n,list(e),ps,kind)
W=['C01','C07','C19','C02','C13','C14']
D=R+'DataType.go'
A('short literal include','bug',W,(D,'		return xyml.ToYamlNode(schema)\n','		s, _ := schema.(string)\n		return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: s}, nil\n'))
A('short literal bug','bug',W,(D,'		return xyml.ToYamlNode(schema)\n','		return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: "any"}, nil\n'))
A('short string include','bug',W,(D,'		return xyml.ToYamlNode(schema)\n','		s, _ := schema.(string)\n		return xyml.NewStringNode(s), nil\n'))
A('short ds','refactor',W,(D,'		return xyml.ToYamlNode(schema)\n','		return xyml.NewStringNode(d.schema), nil\n'))
