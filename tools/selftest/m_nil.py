from mut import *
H='v0/internal/raml/fn-sorting-hat-type.go'
def A(n,kind,ps,*e): run(n,list(e),ps,kind)
A('bad type nil','bug',['C09','C05','C15','C06','C07'],(H,'return nil, fmt.Errorf(badTypeDefType, val.Tag, val.Line, val.Column)','return nil, nil'))
A('size sub','bug',['C07'],('v0/internal/raml/x-gen-ex-datetime.go','raml.NewAnyMap(4 + e.annotations.Len() + ','raml.NewAnyMap(4 - e.annotations.Len() + '))
A('size sub2','bug',['C07'],('v0/internal/raml/x-gen-ex-datetime.go','raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len())','raml.NewAnyMap(4 - e.annotations.Len())'))

EX='v0/internal/raml/x-gen-ex-datetime.go'
A('clamp','refactor',['C07','C06','C01'],(EX,'out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)','n := 4 - e.annotations.Len()\n\tif n < 0 {\n\t\tn = 0\n\t}\n\tout := raml.NewAnyMap(n).SerializeOrdered(false)'))
A('clamp2','refactor',['C07','C06','C01'],(EX,'out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)','n := 0\n\tif e.annotations.Len() < 4 {\n\t\tn = 4 - e.annotations.Len()\n\t}\n\tout := raml.NewAnyMap(n).SerializeOrdered(false)'))
A('clamp3','refactor',['C07','C06','C01'],(EX,'out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)','n := e.annotations.Len()\n\tif n > e.extra.Len() {\n\t\tn -= e.extra.Len()\n\t}\n\tout := raml.NewAnyMap(n).SerializeOrdered(false)'))
A('clamp4','refactor',['C07','C06','C01'],(EX,'out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)','n := e.annotations.Len() - e.extra.Len()\n\tif n <= 0 {\n\t\tn = 4\n\t}\n\tout := raml.NewAnyMap(n).SerializeOrdered(false)'))
A('clamp5','refactor',['C07','C06','C01'],(EX,'out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)','n := e.annotations.Len() - 4 + e.extra.Len()\n\tif n <= 0 {\n\t\tn = 4\n\t}\n\tout := raml.NewAnyMap(n).SerializeOrdered(false)'))
