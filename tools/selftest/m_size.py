from mut import *
A_='v0/internal/raml/APISpec.go'; AR='v0/internal/raml/x-gen-type-array.go'; SL='v0/internal/util/assign/string-list.go'; SM='v0/pkg/raml/UntypedMap.go'; U='v0/internal/raml/util-untyped-map.go'
def A(n,kind,*e): run(n,list(e),['C06'],kind)
A('half-1','bug',(A_,'raml.NewUntypedMap(len(v.Content) / 2)','raml.NewUntypedMap(len(v.Content)/2 - 1)'))
A('len-1','bug',(AR,'make([]interface{}, 0, len(val.Content))','make([]interface{}, 0, len(val.Content)-1)'))
A('half ok','refactor',(AR,'make([]interface{}, 0, len(val.Content))','make([]interface{}, 0, len(val.Content)/2+1)'))
A('guarded','refactor',(AR,'def := make([]interface{}, 0, len(val.Content))','n := len(val.Content)\n		if n > 0 {\n			n--\n		}\n		def := make([]interface{}, 0, n)'))
A('min items','bug',(AR,'def := make([]interface{}, 0, len(val.Content))','n := 0\n		if o.minItems != nil {\n			n = int(*o.minItems)\n		}\n		def := make([]interface{}, 0, n)')) if 0 else None
A('list','bug',(SL,'make([]string, 0, len(v.Content))','make([]string, len(v.Content)-1, len(v.Content))'))
A('ctor','bug',(SM,'make([]UntypedMapEntry, 0, size)','make([]UntypedMapEntry, 0, size-1)'))
A('ctor min','refactor',(SM,'func NewUntypedMap(size int) UntypedMap {\n','func NewUntypedMap(size int) UntypedMap {\n	if size < 4 {\n		size = 4\n	}\n'))
A('unhash','bug',(A_,'a.extra.Put(val, v)','a.extra.Put(*v, v)'))
A('unhash2','bug',(A_,'a.extra.Put(val, v)','a.extra.Put([]interface{}{val}, v)'))
A('arr idx','bug',('v0/internal/raml/type-xml.go','func (x *XML) ','var kinds = [4]string{"", "doc", "seq", "map"}\n\nfunc (x *XML) ')) if 0 else None
A('decode key','bug',(A_,'		if val, err := xyml.ToScalarValue(k); err != nil {\n			return err\n		} else {\n			a.extra.Put(val, v)\n		}','		var val interface{}\n		if err := k.Decode(&val); err != nil {\n			return err\n		}\n		a.extra.Put(val, v)'))
A('switch key','refactor',(A_,'			a.extra.Put(val, v)\n		}\n		return nil','			switch val := val.(type) {\n			case string, int64, bool:\n				a.extra.Put(val, v)\n			default:\n				a.extra.Put(val, v)\n			}\n		}\n		return nil'))
A('unhash','bug',(A_,'if val, err := xyml.ToScalarValue(k); err != nil','if _, err := xyml.ToScalarValue(k); err != nil'),(A_,'a.extra.Put(val, v)','a.extra.Put(*k, v)'))
A('decode key ok','refactor',(A_,'		if val, err := xyml.ToScalarValue(k); err != nil {\n			return err\n		} else {\n			a.extra.Put(val, v)\n		}','		if err := xyml.RequireScalar(k); err != nil {\n			return err\n		}\n		var val interface{}\n		if err := k.Decode(&val); err != nil {\n			return err\n		}\n		a.extra.Put(val, v)'))
