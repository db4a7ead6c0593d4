from mut import *
D='/repo/v0/pkg/raml/'
def A(n,kind,ps,*e): run(n,list(e),ps,kind)
PM='v0/pkg/raml/PropertyMap.go'
ALL=['C%02d'%i for i in range(1,20)]
A('nil ctor','bug',['C15','C11','C06','C05'],(PM,'	return &propertyMap{','	if size > 1<<20 {\n		return nil\n	}\n	return &propertyMap{'))
