from mut import *
U='v0/internal/raml/util-untyped-map.go'; SL='v0/internal/util/assign/string-list.go'; AP='v0/internal/raml/APISpec.go'; DM='v0/internal/raml/util-dt-map.go'; DT='v0/internal/raml/type-datatype-ext.go'
def A(n,kind,ps,*e): run(n,list(e),ps,kind)
HU='	return xyml.MapForEach(y, func(k, v *yaml.Node) error {\n		if err := xyml.RequireString(k)'
P='		uMap.Put(k.Value, v)\n'
A('sticky first value','bug',['C04'],(U,HU,'	var last *yaml.Node\n'+HU),(U,P,'		if last == nil {\n			last = v\n		}\n		uMap.Put(k.Value, last)\n'))
A('prev value','bug',['C04'],(U,HU,'	last := y\n'+HU),(U,P,'		uMap.Put(k.Value, last)\n		last = v\n'))
A('every second','bug',['C04','C02'],(U,HU,'	skip := false\n'+HU),(U,P,'		skip = !skip\n		if skip {\n			uMap.Put(k.Value, v)\n		}\n'))
A('limit','bug',['C04'],(U,HU,'	n := 0\n'+HU),(U,P,'		if n < 64 {\n			n++\n			uMap.Put(k.Value, v)\n		}\n'))
A('limit len','bug',['C04'],(U,P,'		if uMap.Len() < 64 {\n			uMap.Put(k.Value, v)\n		}\n'))
A('stop','bug',['C04'],(U,HU,'	done := false\n'+HU),(U,P,'		if done {\n			return nil\n		}\n		uMap.Put(k.Value, v)\n		done = len(v.Content) > 100\n'))
A('count ok','refactor',['C04','C02','C06','C09','C13','C14','C16'],(U,HU,'	n := 0\n'+HU),(U,P,'		n++\n		uMap.Put(k.Value, v)\n'))
A('list cap','bug',['C04'],(SL,'		tmp = append(tmp, v.Value)\n','		if len(tmp) < 16 {\n			tmp = append(tmp, v.Value)\n		}\n'))
A('list dedupe','bug',['C04'],(SL,'		tmp = append(tmp, v.Value)\n','		if len(tmp) == 0 || tmp[len(tmp)-1] != v.Value {\n			tmp = append(tmp, v.Value)\n		}\n'))
A('list seen','bug',['C04'],(SL,'	tmp := make([]string, 0, len(v.Content))\n','	tmp := make([]string, 0, len(v.Content))\n	seen := map[string]bool{}\n'),(SL,'		tmp = append(tmp, v.Value)\n','		if !seen[v.Value] {\n			seen[v.Value] = true\n			tmp = append(tmp, v.Value)\n		}\n'))
A('list swap','bug',['C04'],(SL,'		tmp = append(tmp, v.Value)\n','		tmp = append(tmp, v.Value)\n		if n := len(tmp); n > 1 && tmp[n-1] < tmp[n-2] {\n			tmp[n-1], tmp[n-2] = tmp[n-2], tmp[n-1]\n		}\n'))
A('write cap','bug',['C02'],(AP,'	a.extra.ForEach(func(k, v interface{}) { out.Put(k, v) })','	n := 0\n	a.extra.ForEach(func(k, v interface{}) {\n		if n++; n <= 256 {\n			out.Put(k, v)\n		}\n	})'))
A('write prev','bug',['C02'],(AP,'	a.extra.ForEach(func(k, v interface{}) { out.Put(k, v) })','	var prev interface{}\n	a.extra.ForEach(func(k, v interface{}) {\n		if prev != nil {\n			v = prev\n		}\n		prev = v\n		out.Put(k, v)\n	})'))
A('write sum','refactor',['C02','C01','C07','C12','C13','C16'],(AP,'	a.extra.ForEach(func(k, v interface{}) { out.Put(k, v) })','	n := 0\n	a.extra.ForEach(func(k, v interface{}) {\n		n++\n		out.Put(k, v)\n	})\n	_ = n'))
A('types reuse','bug',['C04','C14'],(DM,'	return xyml.MapForEach(y, func(k, v *yaml.Node) error {\n		if err := xyml.RequireString(k); err != nil {\n			return err\n		}\n\n		val, err := TypeSortingHat(v)\n		if err != nil {\n			return err\n		}\n\n		dMap.Put(k.Value, val)\n','	var prev raml.DataType\n	return xyml.MapForEach(y, func(k, v *yaml.Node) error {\n		if err := xyml.RequireString(k); err != nil {\n			return err\n		}\n\n		if len(v.Content) == 0 && v.Value == "" && prev != nil {\n			dMap.Put(k.Value, prev)\n			return nil\n		}\n		val, err := TypeSortingHat(v)\n		if err != nil {\n			return err\n		}\n		prev = val\n\n		dMap.Put(k.Value, val)\n'))
A('enum write cap','bug',['C01'],('v0/internal/raml/x-gen-type-string.go','	out.PutIfNotNil(rmeta.KeyEnum, ','	if len(o.enum) > 1000 {\n		o.enum = o.enum[:1000]\n	}\n	out.PutIfNotNil(rmeta.KeyEnum, '))
