package main

import (
	"fmt"
	"math/rand"
	"strings"

	helpers "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() { cmds["lineframe"] = lineframe }

var flatDocs = []string{
	`{"a":1,"b":[1,2,{"c":"text with  spaces"}],"d":null}`,
	"{\n  \"HWc\": [\n    {\n      \"id\": 1,\n      \"txt\": \"Btn\"\n    }\n  ]\n}\n",
	"\n\n[\n1\n,\n2\n]\n\n",
	`<svg width="10" height="20"><rect x="1" y="2" class="a b"/><text>Hello  World</text></svg>`,
	"<svg\n  width=\"10\"\n  height=\"20\">\n  <path d=\"M 1 2\n    L 3 4\n    C 5,6 7,8\n    9,10 z\"/>\n</svg>\n",
	"<?xml version=\"1.0\"?>\r\n<!-- comment\r\nover lines -->\r\n<svg>\r\n<text>a\r\nb</text>\r\n</svg>\r\n",
	"<svg><style>\n.a{fill:#000}\n.b > .c{x:1}\n</style><g\n>x >\n y></g></svg>",
	"Panel rebooted", "first\nsecond\nthird", "  padded  \n  text  ", "x",
	"<svg>\n<!-- b --> <g/>\n<!-- c --><!-- d --><g>x</g><!-- e -->\n  <!-- f\n--> <g/> <!-- g -->\n<g/>\n</svg>",
	"<!-- only -->\n<svg/>", "<!DOCTYPE svg [\n<!ENTITY a \"b\">\n]>\n<?p q?><svg>\n<![CDATA[\n<!-- x -->\n]]></svg>\n",
	"line\nline\nother\nline\nline\nline", "[\n1,\n1,\n1\n]\n]\n", "{\n}\n}\n{\n", "aa\naa\naa\n\naa", "  \"a\": 1,\n  \"a\": 1,\n\t\"a\": 1,\n",
	"// c\n# d\n; e\n-- f\n/* g\nh */ i\n' j\n% k\n#", "a,\n,b\n;\n:c\n=\n|d|\n", "\"\\n\"\n'\\r'\n\\\n", "%\n%s\n%d %v\n%%\n", "HWC#1=Down\nHWC#1=Down\nping\nack\nnack\n",
	"\xef\xbb\xbf{\n\"\xc3\xa6\":\n\"\xe2\x82\xac\"\n}\n", "\xf0\x9f\x98\x80\n\xe2\x82\xacx\n\xc3\x85y\n", "1\n22\n1\n22\n1", "\x01\n\x02\n\x7f\n\x00\n",
	"0 1 2\n3 4 5\n6\n", "trailing backslash \\\nnext", "a=b\n=c\nMsg=d\nHWC#1=Down",
}
var breaks = []string{"\n", "\r\n", "\n   ", "  \n\t", "\n\n", " \r\n \n", "\t\n", "\n\r"}

// texts with breaks put in: at every single position, everywhere, at random places
func (g gen) brokenDocs(d string, n int) []string {
	r := []string{d}
	for k := 0; k <= len(d); k++ {
		r = append(r, d[:k]+breaks[g.Intn(len(breaks))]+d[k:])
		r = append(r, d[:k]+"\n"+d[k:])
	}
	r = append(r, strings.Join(strings.Split(d, ""), "\n"))
	for i := 0; i < n; i++ {
		var b strings.Builder
		p := pick(g, 2, 5, 15, 40)
		for k := 0; k < len(d); k++ {
			if g.pct(p) {
				b.WriteString(breaks[g.Intn(len(breaks))])
			}
			b.WriteByte(d[k])
		}
		r = append(r, b.String())
	}
	return r
}

// documents put together from pieces of the formats, some repeated
var docPieces = []string{"<g>", "</g>", "<g/>", "<!-- c -->", "<!--", "-->", "<?x?>", "<![CDATA[", "]]>", "{", "}", "[", "]", ",", ":", "\"a\"", "\"", "'", "\\", "//", "#", "/*", "*/", "=", ";", "|",
	"1", "22", "true", "null", "M 1 2", "L3,4", "x", "abc", "\xc3\xa6", "&amp;", "&#10;", "%s", "%", "\x00", "HWC#1=Down", "Msg=a", "ErrorMsg=", "_panelTopology_svgbase="}

func (g gen) pieces() string {
	var b strings.Builder
	p := pick(g, 10, 30, 60)
	last := ""
	for n := 1 + g.Intn(30); n > 0; n-- {
		s := docPieces[g.Intn(len(docPieces))]
		if g.pct(20) {
			s = last
		}
		if g.pct(20) {
			s += strings.Repeat(" ", 1+g.Intn(3))
		}
		b.WriteString(s)
		if g.pct(p) {
			b.WriteString(breaks[g.Intn(len(breaks))])
			last = ""
		}
		last = pick(g, last, s, s+"\n", s)
	}
	return b.String()
}

// one message for each place a flattened text can be in
func flatMsgs(t string) (in []*rwp.InboundMessage, out []*rwp.OutboundMessage) {
	in = append(in, &rwp.InboundMessage{Command: &rwp.Command{SetCalibrationProfile: &rwp.CalibrationProfile{Json: t}}})
	out = append(out, &rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Svgbase: t, Json: t}},
		&rwp.OutboundMessage{BurninProfile: &rwp.BurninProfile{Json: t}, CalibrationProfile: &rwp.CalibrationProfile{Json: t}},
		&rwp.OutboundMessage{DefaultCalibrationProfile: &rwp.CalibrationProfile{Json: t}, ErrorMessage: &rwp.Message{Message: t}, Message: &rwp.Message{Message: t}})
	return
}

func stringPaths(md protoreflect.MessageDescriptor) (r [][2]any) {
	ps := append([][]protoreflect.FieldDescriptor{nil}, emptyPaths(md, nil)...)
	for _, p := range ps {
		m := md
		if len(p) > 0 {
			m = p[len(p)-1].Message()
		}
		for k := 0; k < m.Fields().Len(); k++ {
			if fd := m.Fields().Get(k); fd.Kind() == protoreflect.StringKind {
				r = append(r, [2]any{p, fd})
			}
		}
	}
	return
}

var lfTexts = []string{"\n", "a\nb", "\na", "a\n", "a\r\nb", "\n\n\n", "x\ny|z\n", "1\nHWC#5=4", "Mem\nA=1", "a\x0bb\x0cc\nd", "A\n", "\xe2\x82\xac\n\xc3\xa6", "\n\n"}

func lineframe() {
	g := gen{rand.New(rand.NewSource(*seed))}
	var ins [][]*rwp.InboundMessage
	var outs [][]*rwp.OutboundMessage
	for _, d := range flatDocs {
		for k, t := range g.brokenDocs(d, scale(15, 300)) {
			i, o := flatMsgs(t)
			if !*thorough && k > 3 && k%3 != 0 { // one place in turn
				o = o[k%3-1+k%2 : k%3+k%2]
			}
			for _, m := range o {
				outs = append(outs, []*rwp.OutboundMessage{m})
			}
			if k%2 == 0 {
				ins = append(ins, i)
			}
		}
	}
	for k := 0; k < scale(1500, 40000); k++ {
		i, o := flatMsgs(g.pieces())
		outs = append(outs, o[k%3:k%3+1])
		if k%4 == 0 {
			ins = append(ins, i)
		}
	}
	// large documents: one very long line, very many lines, long lines
	for _, x := range [][2]int{{1, 70000}, {1, 140000}, {12000, 6}, {150, 900}, {3, 66000}} {
		var b strings.Builder
		for n := 0; n < x[0]; n++ {
			l := b.Len()
			for b.Len() < l+x[1] {
				fmt.Fprintf(&b, "<a%d>", g.Intn(1000))
			}
			b.WriteString(breaks[g.Intn(5)])
		}
		i, o := flatMsgs(b.String())
		ins = append(ins, i)
		for _, m := range o {
			outs = append(outs, []*rwp.OutboundMessage{m})
		}
	}
	// every string field of either message type, with line feeds in it
	for _, ps := range stringPaths((&rwp.InboundMessage{}).ProtoReflect().Descriptor()) {
		for _, t := range lfTexts {
			for _, dense := range []int{0, 30, 70} {
				m := &rwp.InboundMessage{}
				g.populateSane(m.ProtoReflect(), dense)
				setString(m.ProtoReflect(), ps, t)
				for _, s := range m.States {
					if len(s.HWCIDs) == 0 {
						s.HWCIDs = []uint32{7}
					}
				}
				ins = append(ins, []*rwp.InboundMessage{m})
			}
		}
	}
	for _, ps := range stringPaths((&rwp.OutboundMessage{}).ProtoReflect().Descriptor()) {
		for _, t := range lfTexts {
			for _, dense := range []int{0, 30, 70} {
				m := &rwp.OutboundMessage{}
				g.populateSane(m.ProtoReflect(), dense)
				setString(m.ProtoReflect(), ps, t)
				outs = append(outs, []*rwp.OutboundMessage{m})
			}
		}
	}
	for k := 0; k < scale(1500, 30000); k++ {
		var i []*rwp.InboundMessage
		var o []*rwp.OutboundMessage
		for n := 1 + g.Intn(3); n > 0; n-- {
			mi, mo := &rwp.InboundMessage{}, &rwp.OutboundMessage{}
			d := pick(g, 10, 40, 80)
			g.populateSane(mi.ProtoReflect(), d)
			g.populateSane(mo.ProtoReflect(), d)
			i, o = append(i, mi), append(o, mo)
		}
		ins, outs = append(ins, i), append(outs, o)
	}
	ci, co := make(arr, len(ins)), make(arr, len(outs))
	parallel(len(ins), func(k int) { ci[k] = frameCase("in", ins[k], helpers.InboundMessagesToRawPanelASCIIstrings) })
	parallel(len(outs), func(k int) { co[k] = frameCase("out", outs[k], helpers.OutboundMessagesToRawPanelASCIIstrings) })
	saveCases(out("frames.json"), append(ci, co...))
}

func frameCase[M proto.Message](dir string, ms []M, enc func([]M) []string) any {
	c := obj{"kind": "enc", "dir": dir, "msgs": trees(ms)}
	lines := arr{}
	if p := guard(fmt.Sprintf("encode %.3000s", fmt.Sprint(ms)), func() {
		for _, l := range enc(cloneAll(ms)) {
			lines = append(lines, l)
		}
	}); p != "" {
		c["kind"], c["panic"] = "panic", p
	}
	c["lines"] = lines
	return c
}

func setString(m protoreflect.Message, ps [2]any, t string) {
	p, _ := ps[0].([]protoreflect.FieldDescriptor)
	fd := ps[1].(protoreflect.FieldDescriptor)
	s := setPath(m, p)
	if fd.IsList() {
		s.Mutable(fd).List().Append(protoreflect.ValueOfString(t))
	} else {
		s.Set(fd, protoreflect.ValueOfString(t))
	}
}

// populateSane fills fields at random; texts may have line feeds anywhere.
func (g gen) populateSane(m protoreflect.Message, density int) {
	if density == 0 {
		return
	}
	g.populate(m, density, 4)
	g.sanitize(m)
}
func (g gen) sanitize(m protoreflect.Message) {
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsMap():
		case fd.IsList() && fd.Kind() == protoreflect.MessageKind:
			for k := 0; k < v.List().Len(); k++ {
				g.sanitize(v.List().Get(k).Message())
			}
		case fd.Kind() == protoreflect.MessageKind:
			g.sanitize(v.Message())
		case fd.Kind() == protoreflect.FloatKind && !fd.IsList():
			m.Set(fd, protoreflect.ValueOfFloat32(float32(g.Intn(100))))
		case fd.Kind() == protoreflect.StringKind && !fd.IsList():
			m.Set(fd, protoreflect.ValueOfString(g.lfText()))
		case fd.Kind() == protoreflect.BytesKind && !fd.IsList():
			m.Set(fd, protoreflect.ValueOfBytes(g.bytes(g.Intn(20))))
		}
		return true
	})
}
func (g gen) lfText() string {
	switch g.Intn(4) {
	case 0:
		return lfTexts[g.Intn(len(lfTexts)-2)]
	case 1:
		d := flatDocs[g.Intn(len(flatDocs))]
		k := g.Intn(len(d) + 1)
		return d[:k] + breaks[g.Intn(len(breaks))] + d[k:]
	default:
		w := g.word()
		k := g.Intn(len(w) + 1)
		for k > 0 && k < len(w) && w[k]&0xc0 == 0x80 { // not inside a character
			k--
		}
		return w[:k] + "\n" + w[k:]
	}
}
