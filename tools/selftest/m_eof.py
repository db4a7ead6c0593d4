from mut import *
P='v0/pkg/raml/rparse/parse-lib.go'
OLD='''	if err := dec.Decode(out); err != nil && err != io.EOF {
		return nil, err
	}

	return out, nil
'''
def A(n,k,new,imp=''):
    e=[(P,OLD,new)]
    if imp: e.append((P,'import (\n','import (\n	"%s"\n'%imp))
    run(n,e,['C18','C09','C07','C08'],k)
A('is','refactor','	if err := dec.Decode(out); err != nil && !errors.Is(err, io.EOF) {\n		return nil, err\n	}\n	return out, nil\n','errors')
A('switch','refactor','	switch err := dec.Decode(out); err {\n	case nil, io.EOF:\n		return out, nil\n	default:\n		return nil, err\n	}\n')
A('ret','refactor','	err := dec.Decode(out)\n	if err == io.EOF {\n		return out, nil\n	}\n	if err != nil {\n		return nil, err\n	}\n	return out, nil\n')
A('set nil','refactor','	err := dec.Decode(out)\n	if err == io.EOF {\n		err = nil\n	}\n	if err != nil {\n		return nil, err\n	}\n	return out, nil\n')
A('new','refactor','	err := dec.Decode(out)\n	if err == io.EOF {\n		return impl.NewLibrary(), nil\n	}\n	if err != nil {\n		return nil, err\n	}\n	return out, nil\n')
A('unexp','bug','	err := dec.Decode(out)\n	if err == io.ErrUnexpectedEOF {\n		return out, nil\n	}\n	if err != nil {\n		return nil, err\n	}\n	return out, nil\n')
A('preset','bug','	out.SetUsage("")\n'+OLD)
