from mut import *
P=['C17']
A='v0/internal/raml/APISpec.go'; L='v0/internal/raml/Library.go'; H='v0/pkg/raml/rmeta/'; import glob
H=[f[len('/repo/'):] for f in glob.glob('/repo/v0/pkg/raml/rmeta/*') if 'HeaderRoot' in open(f).read()][0]
M='v0/pkg/raml/rmod/ex-const-types.go'
B=lambda n,f,*e: run(n,[(f,o,x) for o,x in e],P,'bug')
R=lambda n,f,*e: run(n,[(f,o,x) for o,x in e],P,'refactor')
W='''	if _, err := w.Write([]byte(rmeta.HeaderLibrary)); err != nil {
		return err
	}
'''
ENC='''	enc := yaml.NewEncoder(w)
	enc.SetIndent(2)
	return enc.Encode(l)
'''
B('const lib',H,('headerBase + " Library"','headerBase + " library"'))
B('const overlay',H,('headerBase + " Overlay"','headerBase + " Extension"'))
B('foot',H,('"\\n---\\n"','"\\n--\\n"'))
B('foot2',H,('"\\n---\\n"','" ---\\n"'))
B('tohdr',M,('headerBase + " " + string(M)','headerBase + string(M)'))
B('tohdr root',M,('if M == TypeRoot','if M == TypeDataType'))
B('modtype',M,('"ResourceType"','"Resource"'))
B('wrong header lib',L,('rmeta.HeaderLibrary','rmeta.HeaderRoot'))
B('no header',L,(W,''))
B('ignored err',L,(W,'	_, _ = w.Write([]byte(rmeta.HeaderLibrary))\n'))
B('after',L,(W,''),(ENC,'	enc := yaml.NewEncoder(w)\n	enc.SetIndent(2)\n	if err := enc.Encode(l); err != nil {\n		return err\n	}\n'+W+'	return nil\n'))
B('only if usage',L,(W,'	if l.usage != nil {\n'+W+'	}\n'))
B('skip empty',L,(W,'	if l.types.Len() == 0 && l.traits.Len() == 0 {\n		return nil\n	}\n'+W))
B('skip empty2',L,(ENC,'	if l.types.Len() == 0 {\n		return nil\n	}\n'+ENC))
B('twice',L,(W,W+W))
B('encode types',L,('enc.Encode(l)','enc.Encode(l.types)'))
B('swallow',L,('	return enc.Encode(l)\n','	_ = enc.Encode(l)\n	return nil\n'))
B('no newline',L,('[]byte(rmeta.HeaderLibrary)','[]byte("#%RAML 1.0 Library")'))
B('api comment',A,('HeadComment: "#%RAML 1.0",','HeadComment: "%RAML 1.0",'))
B('api foot comment',A,('HeadComment: "#%RAML 1.0",','FootComment: "#%RAML 1.0",'))
B('api both',A,('	out := &yaml.Node{','	if _, err := io.WriteString(w, "#%RAML 1.0\\n"); err != nil {\n		return err\n	}\n	out := &yaml.Node{'))
B('api body only',A,('enc.Encode(out)','enc.Encode(body)'))
B('api usage comment',A,('	out.Content = append','	if a.title == "" {\n		out.HeadComment = ""\n	}\n	out.Content = append'))
B('api ver',A,('"#%RAML 1.0"','"#%RAML 0.8"'))
B('api comment 2 lines',A,('"#%RAML 1.0"','"# generated\\n#%RAML 1.0"'))
R('api io.WriteString',A,('		HeadComment: "#%RAML 1.0", //rmeta.HeaderRoot,\n',''),('	out.Content = append','	if _, err := io.WriteString(w, rmeta.HeaderRoot); err != nil {\n		return err\n	}\n	out.Content = append'))
R('api set later',A,('		HeadComment: "#%RAML 1.0", //rmeta.HeaderRoot,\n',''),('	out.Content = append','	out.HeadComment = "#%RAML 1.0"\n	out.Content = append'))
R('api body comment',A,('enc.Encode(out)','enc.Encode(node)'),('	out.Content = append(out.Content, body.(*yaml.Node))','	node := body.(*yaml.Node)\n	node.HeadComment = out.HeadComment'))
R('api enc a',A,('	out := &yaml.Node{\n		Kind:        yaml.DocumentNode,\n		HeadComment: "#%RAML 1.0", //rmeta.HeaderRoot,\n	}\n	body, err := a.MarshalYAML()\n	if err != nil {\n		return err\n	}\n\n	out.Content = append(out.Content, body.(*yaml.Node))\n','	if _, err := io.WriteString(w, "#%RAML 1.0\\n"); err != nil {\n		return err\n	}\n'),('enc.Encode(out)','enc.Encode(a)'))
R('lib fprint',L,('	"io"\n','	"io"\n	"fmt"\n'),('w.Write([]byte(rmeta.HeaderLibrary))','fmt.Fprint(w, rmeta.HeaderLibrary)'))
R('lib fprintf',L,('	"io"\n','	"io"\n	"fmt"\n'),('w.Write([]byte(rmeta.HeaderLibrary))','fmt.Fprintf(w, "#%%RAML %s %s\\n", "1.0", "Library")'))
R('lib helper',L,(W,'	if err := writeHeader(w, rmeta.HeaderLibrary); err != nil {\n		return err\n	}\n'),('func NewLibrary','func writeHeader(w io.Writer, h string) error {\n	_, err := io.WriteString(w, h)\n	return err\n}\n\nfunc NewLibrary'))
R('lib helper2',L,(W+ENC,'	return writeDoc(w, rmeta.HeaderLibrary, l)\n'),('func NewLibrary','func writeDoc(w io.Writer, h string, doc interface{}) error {\n	if _, err := io.WriteString(w, h); err != nil {\n		return err\n	}\n	enc := yaml.NewEncoder(w)\n	enc.SetIndent(2)\n	if err := enc.Encode(doc); err != nil {\n		return err\n	}\n	return enc.Close()\n}\n\nfunc NewLibrary'))
R('lib buffer',L,('	"io"\n','	"io"\n	"bytes"\n'),(W+ENC,'	var buf bytes.Buffer\n	buf.WriteString(rmeta.HeaderLibrary)\n	enc := yaml.NewEncoder(&buf)\n	enc.SetIndent(2)\n	if err := enc.Encode(l); err != nil {\n		return err\n	}\n	_, err := w.Write(buf.Bytes())\n	return err\n'))
R('lib buffer2',L,('	"io"\n','	"io"\n	"bytes"\n'),(W+ENC,'	buf := bytes.NewBufferString(rmeta.HeaderLibrary)\n	enc := yaml.NewEncoder(buf)\n	enc.SetIndent(2)\n	if err := enc.Encode(l); err != nil {\n		return err\n	}\n	_, err := buf.WriteTo(w)\n	return err\n'))
B('lib buffer3',L,('	"io"\n','	"io"\n	"bytes"\n'),(W+ENC,'	var buf bytes.Buffer\n	enc := yaml.NewEncoder(&buf)\n	enc.SetIndent(2)\n	if err := enc.Encode(l); err != nil {\n		return err\n	}\n	buf.WriteString(rmeta.HeaderLibrary)\n	_, err := w.Write(buf.Bytes())\n	return err\n'))
R('lib bufio',L,('	"io"\n','	"io"\n	"bufio"\n'),(W+ENC,'	buf := bufio.NewWriter(w)\n	buf.WriteString(rmeta.HeaderLibrary)\n	enc := yaml.NewEncoder(buf)\n	enc.SetIndent(2)\n	if err := enc.Encode(l); err != nil {\n		return err\n	}\n	return buf.Flush()\n'))
B('lib bufio noflush',L,('	"io"\n','	"io"\n	"bufio"\n'),(W+ENC,'	buf := bufio.NewWriter(w)\n	buf.WriteString(rmeta.HeaderLibrary)\n	enc := yaml.NewEncoder(buf)\n	enc.SetIndent(2)\n	return enc.Encode(l)\n'))
R('lib marshal',L,(W+ENC,W+'	body, err := yaml.Marshal(l)\n	if err != nil {\n		return err\n	}\n	_, err = w.Write(body)\n	return err\n'))
R('lib marshal concat',L,(W+ENC,'	body, err := yaml.Marshal(l)\n	if err != nil {\n		return err\n	}\n	_, err = io.WriteString(w, rmeta.HeaderLibrary+string(body))\n	return err\n'))
R('lib node',L,('enc.Encode(l)','enc.Encode(tmp)'),('	enc := yaml.NewEncoder(w)','	tmp, err := l.MarshalYAML()\n	if err != nil {\n		return err\n	}\n	enc := yaml.NewEncoder(w)'))
