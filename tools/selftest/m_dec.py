from mut import *
D='v0/internal/util/assign/'
def A(n,kind,ps,*e): run(n,list(e),ps,kind)
ALL=['C01','C03','C04','C06','C07','C09','C10','C15','C02','C08','C14','C16']
X='	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"\n'
A('string keep','refactor',ALL,(D+'string.go','	*ptr = v.Value\n\n	return nil\n','	return v.Decode(ptr)\n'))
A('string raw','bug',['C09'],(D+'string.go','	if err := xyml.RequireString(v); err != nil {\n		return err\n	}\n\n	*ptr = v.Value\n\n	return nil\n','	return v.Decode(ptr)\n'))
A('strptr keep','refactor',ALL,(D+'string.go','	tmp := v.Value\n	*ptr = &tmp\n\n	return nil\n','	return v.Decode(ptr)\n'))
A('strptr keep2','refactor',ALL,(D+'string.go','	tmp := v.Value\n	*ptr = &tmp\n\n	return nil\n','	var tmp string\n	if err := v.Decode(&tmp); err != nil {\n		return err\n	}\n	*ptr = &tmp\n	return nil\n'))
A('bool raw','bug',['C09'],(D+'bool.go','	if val, err := xyml.ToBoolean(v); err != nil {\n		return err\n	} else {\n		*ptr = val\n	}\n\n	return nil\n','	return v.Decode(ptr)\n'))
A('bool keep','refactor',ALL,(D+'bool.go','	if val, err := xyml.ToBoolean(v); err != nil {\n		return err\n	} else {\n		*ptr = val\n	}\n\n	return nil\n','	if err := xyml.RequireBool(v); err != nil {\n		return err\n	}\n	return v.Decode(ptr)\n'))
A('str2 any','bug',['C09'],(D+'string.go','	tmp := v.Value\n	*ptr = &tmp\n','	var tmp string\n	if err := v.Decode(&tmp); err != nil {\n		return nil\n	}\n	*ptr = &tmp\n'))
A('float32','bug',['C10'],(D+'float64.go','		*ptr = &val\n','		var f float32\n		if err := v.Decode(&f); err != nil {\n			return err\n		}\n		val = float64(f)\n		*ptr = &val\n'))
