from mut import *
U='v0/internal/raml/util-untyped-map.go'; X='v0/internal/raml/type-xml.go'; D='v0/internal/raml/type-datatype-ext.go'
def A(n,kind,ps,*e): run(n,list(e),ps,kind)
PUT='		uMap.Put(k.Value, v)\n'
imp=(U,'import (\n','import (\n	"fmt"\n')
VAL='''
func toValue(v *yaml.Node) (interface{}, error) {
	switch {
	case xyml.IsMap(v):
		out := raml.NewUntypedMap(len(v.Content) / 2)%s
		err := xyml.MapForEach(v, func(k, x *yaml.Node) error {
			if err := xyml.RequireString(k); err != nil {
				return err
			}
			y, err := toValue(x)
			if err != nil {
				return err
			}
			out.Put(k.Value, y)
			return nil
		})
		return out, err
	case xyml.IsSequence(v):
		out := make([]interface{}, 0, len(v.Content))
		for _, x := range v.Content {
			y, err := toValue(x)
			if err != nil {
				return nil, err
			}
			out = append(out, y)
		}
		return out, nil
	}
	return %s, nil
}
'''
E="// UnmarshalUntypedMapRAML"
P2='		x, err := toValue(v)\n		if err != nil {\n			return err\n		}\n		uMap.Put(k.Value, x)\n'
A('value omap','bug',['C08'],(U,PUT,P2),(U,E,VAL%('','v')+E))
A('value struct','bug',['C07'],(U,PUT,P2),(U,E,VAL%('.SerializeOrdered(false)','*v')+E))
A('value same node','bug',['C06'],(U,PUT,P2),(U,E,VAL.replace('y, err := toValue(x)','y, err := toValue(v)',1)%('.SerializeOrdered(false)','v')+E))
A('value ok','refactor',['C07','C08','C06','C13','C14','C16','C15'],(U,PUT,P2),(U,E,VAL%('.SerializeOrdered(false)','v')+E))
A('depth','bug',['C06'],(U,PUT,'		if xyml.IsMap(v) {\n			sub := raml.NewUntypedMap(1).SerializeOrdered(false)\n			if err := UnmarshalUntypedMapRAML(sub, y); err != nil {\n				return err\n			}\n			uMap.Put(k.Value, sub)\n			return nil\n		}\n'+PUT))
