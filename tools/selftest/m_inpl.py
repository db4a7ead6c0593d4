from mut import *
SL='v0/internal/util/assign/string-list.go'; S='v0/internal/raml/x-gen-type-string.go'; IN='v0/internal/raml/x-gen-type-integer.go'; AT='v0/internal/raml/APISpec.go'
def A(n,kind,ps,*e): run(n,list(e),ps,kind)
ALL=['C01','C03','C04','C09','C13','C14','C19','C02']
sw='if n := len(%s); n > 2 && %s[n-1] < %s[n-2] {\n\t\t%s[n-1], %s[n-2] = %s[n-2], %s[n-1]\n\t}\n'
def SW(x): return sw%((x,)*7)
A('read after','bug',['C04'],(SL,'	*ptr = tmp\n','	'+SW('tmp')+'	*ptr = tmp\n'))
A('read after first','bug',['C04'],(SL,'	*ptr = tmp\n','	if len(tmp) > 40 {\n		tmp[0] = tmp[1]\n	}\n	*ptr = tmp\n'))
A('write swap','bug',['C01','C13'],(S,'	out.PutIfNotNil(rmeta.KeyEnum, o.enum)','	'+SW('o.enum')+'	out.PutIfNotNil(rmeta.KeyEnum, o.enum)'))
A('write trim','bug',['C01','C13'],(S,'	out.PutIfNotNil(rmeta.KeyEnum, o.enum)','	if len(o.enum) > 3 {\n		o.enum[3] = o.enum[2]\n	}\n	out.PutIfNotNil(rmeta.KeyEnum, o.enum)'))
A('write each','bug',['C01','C13'],(S,'	out.PutIfNotNil(rmeta.KeyEnum, o.enum)','	for i := range o.enum {\n		if i > 9 {\n			o.enum[i] = o.enum[0]\n		}\n	}\n	out.PutIfNotNil(rmeta.KeyEnum, o.enum)'))
A('set swap','bug',['C03'],(S,'	o.enum = i\n','	'+SW('i')+'	o.enum = i\n'))
A('set first','bug',['C03'],(S,'	o.enum = i\n','	if len(i) > 3 {\n		i[3] = i[2]\n	}\n	o.enum = i\n'))
A('set first2','bug',['C03'],(S,'	o.enum = i\n','	o.enum = i\n	if len(i) > 3 {\n		o.enum[3] = o.enum[2]\n	}\n'))
A('get first','bug',['C03','C13'],(S,'	return o.enum\n','	if len(o.enum) > 3 {\n		o.enum[3] = o.enum[2]\n	}\n	return o.enum\n'))
A('unset','bug',['C03','C14'],(S,'	o.enum = nil\n','	for i := range o.enum {\n		o.enum[i] = ""\n	}\n	o.enum = nil\n'))
A('enum read','bug',['C04'],(S,'				o.enum = append(o.enum, val)','				o.enum = append(o.enum, val)\n				if len(o.enum) > 3 {\n					o.enum[3] = o.enum[2]\n				}'))
A('enum read 0','bug',['C04'],(S,'				o.enum = append(o.enum, val)','				o.enum = append(o.enum, val)\n				if len(o.enum) > 3 {\n					o.enum[0] = val\n				}'))
A('fill','refactor',ALL,(SL,'make([]string, 0, len(v.Content))','make([]string, len(v.Content))'),(SL,'	if err := xyml','	i := 0\n	if err := xyml'),(SL,'		tmp = append(tmp, v.Value)\n','		tmp[i] = v.Value\n		i++\n'))
A('fill bug','bug',['C04'],(SL,'make([]string, 0, len(v.Content))','make([]string, len(v.Content))'),(SL,'	if err := xyml','	i := 0\n	if err := xyml'),(SL,'		tmp = append(tmp, v.Value)\n','		tmp[i] = v.Value\n		i++\n'),(SL,'	*ptr = tmp\n','	if len(tmp) > 40 {\n		tmp[0] = tmp[1]\n	}\n	*ptr = tmp\n'))
A('fill bug2','bug',['C04'],(SL,'make([]string, 0, len(v.Content))','make([]string, len(v.Content))'),(SL,'	if err := xyml','	i := 0\n	if err := xyml'),(SL,'		tmp = append(tmp, v.Value)\n','		tmp[0] = v.Value\n		i++\n'))
A('copy out','refactor',ALL,(SL,'	*ptr = tmp\n','	out := make([]string, len(tmp))\n	for i := range tmp {\n		out[i] = tmp[i]\n	}\n	*ptr = out\n'))
A('copy out2','refactor',ALL,(SL,'	*ptr = tmp\n','	out := make([]string, len(tmp))\n	copy(out, tmp)\n	*ptr = out\n'))
A('copy out3','refactor',ALL,(SL,'	*ptr = tmp\n','	*ptr = append([]string{}, tmp...)\n'))
A('set copy','refactor',ALL,(S,'	o.enum = i\n','	if i == nil {\n		o.enum = nil\n		return o\n	}\n	c := make([]string, len(i))\n	copy(c, i)\n	o.enum = c\n'))
A('other list','bug',['C04'],(AT,'		return assign.AsStringList(v, &a.protocols)','		if len(a.securedBy) > 3 {\n			a.securedBy[3] = a.securedBy[0]\n		}\n		return assign.AsStringList(v, &a.protocols)'))
A('other list2','bug',['C02'],(AT,'	a.extra.ForEach(func(k','	if len(a.securedBy) > 3 {\n		a.securedBy[3] = a.securedBy[0]\n	}\n	a.extra.ForEach(func(k'))
A('write copy','refactor',ALL,(S,'	out.PutIfNotNil(rmeta.KeyEnum, o.enum)','	en := append([]string(nil), o.enum...)\n	out.PutIfNotNil(rmeta.KeyEnum, en)'))
A('write copy trim','bug',['C01'],(S,'	out.PutIfNotNil(rmeta.KeyEnum, o.enum)','	en := append([]string(nil), o.enum...)\n	if len(en) > 3 {\n		en[3] = en[2]\n	}\n	out.PutIfNotNil(rmeta.KeyEnum, en)'))
