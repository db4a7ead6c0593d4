from mut import *
F='v0/pkg/raml/AnyMap.go'
M=['C11']
B=lambda n,*e: run(n,[(F,o,x) for o,x in e],M,'bug')
R=lambda n,*e: run(n,[(F,o,x) for o,x in e],M,'refactor')
B('put no delete',('	i.Delete(k)\n	i.index[k] = v','	i.index[k] = v'))
B('put no index',('	i.Delete(k)\n	i.index[k] = v','	i.Delete(k)'))
B('del no index',('		delete(i.index, k)\n',''))
B('del off1',('i.ordered[:pos], i.ordered[pos+1:]','i.ordered[:pos], i.ordered[pos:]'))
B('del swap',('i.ordered = append(i.ordered[:pos], i.ordered[pos+1:]...)','i.ordered[pos] = i.ordered[len(i.ordered)-1]\n		i.ordered = i.ordered[:len(i.ordered)-1]'))
B('replace only index',('		i.ordered[pos].Val = v\n',''))
B('replace only ord',('		i.index[k] = v\n		i.ordered[pos].Val = v\n','		i.ordered[pos].Val = v\n'))
B('replace pos>0',('	pos := i.IndexOf(k)\n\n	if pos > -1 {\n		i.index[k]','	pos := i.IndexOf(k)\n\n	if pos > 0 {\n		i.index[k]'))
B('delete pos>0',('	if pos > -1 {\n		i.ordered = append','	if pos > 0 {\n		i.ordered = append'))
B('putifnotnil typed nil',('if !gomp.IsNil(v) {','if v != nil {'))
B('putifnotnil noderef',('gomp.Deref(v)','v'))
B('ror',('	if i.Has(k) {\n		return i.ReplaceIfExists(k, v)\n	}\n',''))
B('foreach rev',('	for j := range i.ordered {\n		f(i.ordered[j].Key, i.ordered[j].Val)','	for j := len(i.ordered) - 1; j >= 0; j-- {\n		f(i.ordered[j].Key, i.ordered[j].Val)'))
B('foreach from 1',('	for j := range i.ordered {\n		f(i.ordered[j].Key, i.ordered[j].Val)','	for j := 1; j < len(i.ordered); j++ {\n		f(i.ordered[j].Key, i.ordered[j].Val)'))
B('foreach map',('	for j := range i.ordered {\n		f(i.ordered[j].Key, i.ordered[j].Val)','	for k, v := range i.index {\n		f(k, v)'))
B('foreach skip nil',('	for j := range i.ordered {\n		f(','	for j := range i.ordered {\n		if i.ordered[j].Val == nil {\n			continue\n		}\n		f('))
B('foreach len-1',('	for j := range i.ordered {\n		f(i.ordered[j].Key, i.ordered[j].Val)','	for j := 0; j < len(i.ordered)-1; j++ {\n		f(i.ordered[j].Key, i.ordered[j].Val)'))
B('indexof from 1',('	for j := range i.ordered {\n		if i.ordered[j].Key == k','	for j := 1; j < len(i.ordered); j++ {\n		if i.ordered[j].Key == k'))
B('indexof -1',('return j','return j - 1'))
B('new size',('make([]AnyMapEntry, 0, size)','make([]AnyMapEntry, size)'))
B('get ok by value',('	v, ok := i.index[k]\n	return v, ok','	v := i.index[k]\n	return v, v != nil'))
B('has by value',('	_, ok := i.index[k]\n	return ok','	return i.index[k] != nil'))
B('getopt',('		return option.NewUntyped(v)','		return option.NewMaybeUntyped(v)') )
B('flag',('	i.outOrder = b\n','	i.outOrder = !b\n'))
B('flag2',('	i.outOrder = b\n','	i.outOrder = i.outOrder || b\n'))
B('put front',('i.ordered = append(i.ordered, AnyMapEntry{k, v})','i.ordered = append([]AnyMapEntry{{k, v}}, i.ordered...)'))
B('put keeps place',('	i.Delete(k)\n	i.index[k] = v','	if i.Has(k) {\n		return i.ReplaceIfExists(k, v)\n	}\n	i.index[k] = v'))
R('del after',('		i.ordered = append(i.ordered[:pos], i.ordered[pos+1:]...)\n		delete(i.index, k)','		delete(i.index, k)\n		i.ordered = append(i.ordered[:pos], i.ordered[pos+1:]...)'))
R('copy shift',('		i.ordered = append(i.ordered[:pos], i.ordered[pos+1:]...)\n','		copy(i.ordered[pos:], i.ordered[pos+1:])\n		i.ordered = i.ordered[:len(i.ordered)-1]\n'))
R('filter',('	pos := i.IndexOf(k)\n\n	if pos > -1 {\n		i.ordered = append(i.ordered[:pos], i.ordered[pos+1:]...)\n		delete(i.index, k)\n	}\n','''	out := i.ordered[:0]
	for _, e := range i.ordered {
		if e.Key != k {
			out = append(out, e)
		}
	}
	i.ordered = out
	delete(i.index, k)
'''))
R('filter2',('	pos := i.IndexOf(k)\n\n	if pos > -1 {\n		i.ordered = append(i.ordered[:pos], i.ordered[pos+1:]...)\n		delete(i.index, k)\n	}\n','''	if !i.Has(k) {
		return i
	}
	out := make([]AnyMapEntry, 0, len(i.ordered))
	for j := range i.ordered {
		if i.ordered[j].Key == k {
			continue
		}
		out = append(out, i.ordered[j])
	}
	i.ordered = out
	delete(i.index, k)
'''))
R('two appends',('i.ordered = append(i.ordered[:pos], i.ordered[pos+1:]...)','''tmp := make([]AnyMapEntry, 0, len(i.ordered)-1)
		tmp = append(tmp, i.ordered[:pos]...)
		i.ordered = append(tmp, i.ordered[pos+1:]...)'''))
R('indexof range val',('	for j := range i.ordered {\n		if i.ordered[j].Key == k','	for j, e := range i.ordered {\n		if e.Key == k'))
R('indexof for',('	for j := range i.ordered {\n		if i.ordered[j].Key == k','	for j := 0; j < len(i.ordered); j++ {\n		if i.ordered[j].Key == k'))
R('indexof rev',('	for j := range i.ordered {\n		if i.ordered[j].Key == k','	for j := len(i.ordered) - 1; j >= 0; j-- {\n		if i.ordered[j].Key == k'))
R('indexof nocheck',('''	if _, ok := i.index[k]; !ok {
		return -1
	}
	for j''','	for j'),('	panic("invalid map state, out of sync")','	return -1'))
R('indexof pos var',('''	for j := range i.ordered {
		if i.ordered[j].Key == k {
			return j
		}
	}
	panic("invalid map state, out of sync")''','''	pos := -1
	for j := range i.ordered {
		if i.ordered[j].Key == k {
			pos = j
			break
		}
	}
	return pos'''))
R('indexof pos var nobreak',('''	for j := range i.ordered {
		if i.ordered[j].Key == k {
			return j
		}
	}
	panic("invalid map state, out of sync")''','''	pos := -1
	for j := range i.ordered {
		if i.ordered[j].Key == k {
			pos = j
		}
	}
	return pos'''))
R('foreach range',('	for j := range i.ordered {\n		f(i.ordered[j].Key, i.ordered[j].Val)','	for _, e := range i.ordered {\n		f(e.Key, e.Val)'))
R('foreach at',('	for j := range i.ordered {\n		f(i.ordered[j].Key, i.ordered[j].Val)','	for j := 0; j < i.Len(); j++ {\n		e := i.At(j)\n		f(e.Key, e.Val)'))
R('replace struct',('i.ordered[pos].Val = v','i.ordered[pos] = AnyMapEntry{k, v}'))
R('replace ptr',('i.ordered[pos].Val = v','e := &i.ordered[pos]\n		e.Val = v'))
R('replace via has',('''	pos := i.IndexOf(k)

	if pos > -1 {
		i.index[k] = v
		i.ordered[pos].Val = v
	}
''','''	if !i.Has(k) {
		return i
	}
	for j := range i.ordered {
		if i.ordered[j].Key == k {
			i.ordered[j].Val = v
			break
		}
	}
	i.index[k] = v
'''))
R('ror inline',('''	if i.Has(k) {
		return i.ReplaceIfExists(k, v)
	}

	return i.Put(k, v)''','''	if pos := i.IndexOf(k); pos >= 0 {
		i.index[k] = v
		i.ordered[pos].Val = v
		return i
	}
	i.index[k] = v
	i.ordered = append(i.ordered, AnyMapEntry{Key: k, Val: v})
	return i'''))
R('put helper',('	i.Delete(k)\n	i.index[k] = v\n	i.ordered = append(i.ordered, AnyMapEntry{k, v})\n	return i\n}','	i.Delete(k)\n	return i.push(AnyMapEntry{k, v})\n}\n\nfunc (i *implAnyMap) push(e AnyMapEntry) AnyMap {\n	i.ordered = append(i.ordered, e)\n	i.index[e.Key] = e.Val\n	return i\n}'))
R('len index',('return len(i.ordered)','return len(i.index)'))
R('new nosize',('make([]AnyMapEntry, 0, size)','nil'))
B('nonhit effect',('''	pos := i.IndexOf(k)

	if pos > -1 {
		i.index[k] = v
		i.ordered[pos].Val = v
	}
''','''	if !i.Has(k) {
		return i
	}
	for j := range i.ordered {
		if i.ordered[j].Key == k {
			i.ordered[j].Val = v
		} else {
			i.ordered[j].Val = nil
		}
	}
	i.index[k] = v
'''))
B('last equal wins',('''	for j := range i.ordered {
		if i.ordered[j].Key == k {
			return j
		}
	}
	panic("invalid map state, out of sync")''','''	pos := 0
	for j := range i.ordered {
		if i.ordered[j].Key == k {
			pos = j
		} else {
			pos = 0
		}
	}
	return pos'''))
