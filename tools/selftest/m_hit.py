from mut import *
G='v0/pkg/raml/UntypedMap.go'
H='func (i *implUntypedMap) Get(k string) (value interface{}, exists bool) {\n'
def B(n,body): run('bug '+n,[(G,H,H+body)],['C11','C16'],'C11')
B('ne ret','	for x, v := range i.index {\n		if x != k {\n			return v, true\n		}\n	}\n')
B('ne ret2','	for x := range i.index {\n		if x != k {\n			return nil, false\n		}\n	}\n')
B('lt','	for x, v := range i.index {\n		if x < k {\n			return v, true\n		}\n	}\n')
B('wrongv','	for x, v := range i.index {\n		if x == k {\n			return v, false\n		}\n	}\n')
B('else','	for x, v := range i.index {\n		if x == k {\n			return v, true\n		} else {\n			return nil, false\n		}\n	}\n')
