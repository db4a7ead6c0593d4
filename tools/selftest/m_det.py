from mut import *
P=['C16']
A='v0/internal/raml/APISpec.go'; L='v0/internal/raml/Library.go'; F='v0/pkg/raml/AnyMap.go'; G='v0/pkg/raml/UntypedMap.go'; X='v0/internal/raml/type-xml.go'; D='v0/internal/raml/DataType.go'
B=lambda n,f,*e: run(n,[(f,o,x) for o,x in e],P,'bug')
R=lambda n,f,*e: run(n,[(f,o,x) for o,x in e],P,'refactor')
L1='''	for j := range i.ordered {
		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
			return nil, e
		}
	}

	return out, nil'''
J='''	for k, v := range i.index {
		out[fmt.Sprint(k)] = v
	}
'''
imp=('import (\n','import (\n	"sort"\n')
B('range index',F,(L1,L1.replace('for j := range i.ordered {','for k, v := range i.index {').replace('i.ordered[j].Key, i.ordered[j].Val','k, v')))
B('each helper',F,(L1,'	var err error\n	i.each(func(k, v interface{}) {\n		if err == nil {\n			err = xyml.MapAppend(out, k, v)\n		}\n	})\n	return out, err'),('func (i *implAnyMap) Put(','func (i implAnyMap) each(f func(k, v interface{})) {\n	for k, v := range i.index {\n		f(k, v)\n	}\n}\n\nfunc (i *implAnyMap) Put('))
R('each helper ord',F,(L1,'	var err error\n	i.each(func(k, v interface{}) {\n		if err == nil {\n			err = xyml.MapAppend(out, k, v)\n		}\n	})\n	return out, err'),('func (i *implAnyMap) Put(','func (i implAnyMap) each(f func(k, v interface{})) {\n	for _, e := range i.ordered {\n		f(e.Key, e.Val)\n	}\n}\n\nfunc (i *implAnyMap) Put('))
B('keys unsorted',G,('func (i *implUntypedMap) ForEach(f func(k string, v interface{})) UntypedMap {\n','func (i *implUntypedMap) ForEach(f func(k string, v interface{})) UntypedMap {\n	var keys []string\n	for k := range i.index {\n		keys = append(keys, k)\n	}\n	for _, k := range keys {\n		f(k, i.index[k])\n	}\n	return i\n'))
R('keys sorted',G,imp,('func (i *implUntypedMap) ForEach(f func(k string, v interface{})) UntypedMap {\n','func (i *implUntypedMap) ForEach(f func(k string, v interface{})) UntypedMap {\n	var keys []string\n	for k := range i.index {\n		keys = append(keys, k)\n	}\n	sort.Strings(keys)\n	for _, k := range keys {\n		f(k, i.index[k])\n	}\n	return i\n'))
R('keys sorted helper',G,imp,('func (i *implUntypedMap) ForEach(f func(k string, v interface{})) UntypedMap {\n','func (i *implUntypedMap) keys() []string {\n	keys := make([]string, len(i.index))\n	n := 0\n	for k := range i.index {\n		keys[n] = k\n		n++\n	}\n	return keys\n}\n\nfunc (i *implUntypedMap) ForEach(f func(k string, v interface{})) UntypedMap {\n	keys := i.keys()\n	sort.Slice(keys, func(a, b int) bool { return keys[a] < keys[b] })\n	for _, k := range keys {\n		f(k, i.index[k])\n	}\n	return i\n'))
B('keys unsorted helper',G,('func (i *implUntypedMap) ForEach(f func(k string, v interface{})) UntypedMap {\n','func (i *implUntypedMap) keys() []string {\n	keys := make([]string, len(i.index))\n	n := 0\n	for k := range i.index {\n		keys[n] = k\n		n++\n	}\n	return keys\n}\n\nfunc (i *implUntypedMap) ForEach(f func(k string, v interface{})) UntypedMap {\n	keys := i.keys()\n	for _, k := range keys {\n		f(k, i.index[k])\n	}\n	return i\n'))
R('json helper',G,(J,'	fillJSON(out, i.index)\n'),('func (i *implUntypedMap) Put(','func fillJSON(out map[string]interface{}, in map[string]interface{}) {\n	for k, v := range in {\n		out[fmt.Sprint(k)] = v\n	}\n}\n\nfunc (i *implUntypedMap) Put('))
R('json direct',G,(J,'	for k, v := range i.index {\n		kk := k\n		out[kk] = v\n	}\n	_ = fmt.Sprint()\n'))
B('json lower',G,('import (\n','import (\n	"strings"\n'),(J,'	for k, v := range i.index {\n		out[strings.ToLower(k)] = v\n	}\n	_ = fmt.Sprint()\n'))
R('has loop',G,('func (i *implUntypedMap) Get(k string) (value interface{}, exists bool) {\n','func (i *implUntypedMap) Get(k string) (value interface{}, exists bool) {\n	for x, v := range i.index {\n		if x == k {\n			return v, true\n		}\n	}\n'))
R('has loop2',G,('func (i *implUntypedMap) Get(k string) (value interface{}, exists bool) {\n','func (i *implUntypedMap) Get(k string) (value interface{}, exists bool) {\n	for x, v := range i.index {\n		if x == k {\n			value = v\n			exists = true\n			break\n		}\n	}\n'))
B('first found fold',G,('import (\n','import (\n	"strings"\n'),('func (i *implUntypedMap) Get(k string) (value interface{}, exists bool) {\n','func (i *implUntypedMap) Get(k string) (value interface{}, exists bool) {\n	for x, v := range i.index {\n		if strings.EqualFold(x, k) {\n			return v, true\n		}\n	}\n'))
R('count',G,('func (i *implUntypedMap) Get(k string) (value interface{}, exists bool) {\n','func (i *implUntypedMap) Get(k string) (value interface{}, exists bool) {\n	n := 0\n	all := true\n	m := ""\n	for x, v := range i.index {\n		if v != nil {\n			n++\n		}\n		all = all && x != ""\n		if x > m {\n			m = x\n		}\n	}\n	if n == 0 || !all || m == "" {\n		return nil, false\n	}\n'))
B('time',L,('	"io"\n','	"io"\n	"time"\n'),('	if l.usage != nil {','	out.Put("(generated)", time.Now().String())\n	if l.usage != nil {'))
R('time log',L,('	"io"\n','	"io"\n	"time"\n	"github.com/sirupsen/logrus"\n'),('	if l.usage != nil {','	start := time.Now()\n	defer func() { logrus.Debug("took ", time.Since(start)) }()\n	if l.usage != nil {'))
R('time log2',L,('	"io"\n','	"io"\n	"time"\n	"github.com/sirupsen/logrus"\n'),('	if l.usage != nil {','	start := time.Now()\n	defer took(start)\n	if l.usage != nil {'),('func NewLibrary','func took(s time.Time) {\n	if d := time.Since(s); d > time.Second {\n		logrus.Warn("slow ", d)\n	}\n}\n\nfunc NewLibrary'))
B('pointer name',L,('	"io"\n','	"io"\n	"fmt"\n'),('	if l.usage != nil {','	out.Put(fmt.Sprintf("(%p)", l.types), "")\n	if l.usage != nil {'))
B('env',L,('	"io"\n','	"io"\n	"os"\n'),('	if l.usage != nil {','	if os.Getenv("X") != "" {\n		return nil, nil\n	}\n	if l.usage != nil {'))
R('gor1',A,('	a.extra.ForEach(func(k, v interface{}) { out.Put(k, v) })','	done := make(chan bool)\n	go func() {\n		a.extra.ForEach(func(k, v interface{}) { out.Put(k, v) })\n		done <- true\n	}()\n	<-done'))
B('gor2',A,('	"io"\n','	"io"\n	"sync"\n'),('	a.extra.ForEach(func(k, v interface{}) { out.Put(k, v) })','	var mu sync.Mutex\n	var wg sync.WaitGroup\n	a.extra.ForEach(func(k, v interface{}) {\n		wg.Add(1)\n		go func() {\n			defer wg.Done()\n			mu.Lock()\n			out.Put(k, v)\n			mu.Unlock()\n		}()\n	})\n	wg.Wait()'))
B('gor3',A,('	"io"\n','	"io"\n	"sync"\n'),('	a.extra.ForEach(func(k, v interface{}) { out.Put(k, v) })','	var mu sync.Mutex\n	var wg sync.WaitGroup\n	for j := 0; j < a.extra.Len(); j++ {\n		wg.Add(1)\n		go func(j int) {\n			defer wg.Done()\n			mu.Lock()\n			out.Put(j, j)\n			mu.Unlock()\n		}(j)\n	}\n	wg.Wait()'))
