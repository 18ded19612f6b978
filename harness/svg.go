package main

import (
	"encoding/xml"
	"fmt"
	"io"
	"math"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"

	topo "github.com/SKAARHOJ/rawpanel-lib/topology"
)

func init() { cmds["svg"] = svgCases }

func qname(n xml.Name) string {
	if n.Space != "" {
		return n.Space + ":" + n.Local
	}
	return n.Local
}

// flatten lists a document's elements in order: depth, name, attributes, the element's own text, and its content in order.
func flatten(s string) (arr, error) {
	type open struct {
		o    obj
		text strings.Builder
		mix  arr
	}
	// nesting and attribute syntax as a strict parser sees them
	strict := xml.NewDecoder(strings.NewReader(s))
	for {
		if _, err := strict.Token(); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
	}
	d := xml.NewDecoder(strings.NewReader(s))
	els := arr{}
	var stack []*open
	var run strings.Builder
	words := func(s string) string { return strings.Join(asciiFields(s), " ") }
	flush := func() {
		if len(stack) > 0 {
			if t := words(run.String()); t != "" {
				top := stack[len(stack)-1]
				top.mix = append(top.mix, "t:"+t)
			}
		}
		run.Reset()
	}
	for {
		t, err := d.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch x := t.(type) {
		case xml.StartElement:
			flush()
			if len(stack) > 0 {
				top := stack[len(stack)-1]
				top.mix = append(top.mix, "e:"+qname(x.Name))
			}
			attrs := arr{}
			for _, a := range x.Attr {
				attrs = append(attrs, arr{qname(a.Name), words(a.Value)})
			}
			o := obj{"d": len(stack) + 1, "n": qname(x.Name), "a": attrs, "t": "", "mix": arr{}}
			els = append(els, o)
			stack = append(stack, &open{o: o})
		case xml.EndElement:
			if len(stack) == 0 {
				return nil, fmt.Errorf("unbalanced")
			}
			flush()
			top := stack[len(stack)-1]
			top.o["t"] = strings.Join(asciiFields(top.text.String()), " ")
			top.o["mix"] = top.mix
			stack = stack[:len(stack)-1]
		case xml.CharData:
			run.Write(x)
			if len(stack) > 0 {
				stack[len(stack)-1].text.Write(x)
			}
		}
	}
	if len(stack) > 0 {
		return nil, fmt.Errorf("unclosed")
	}
	return els, nil
}

// asciiFields: words between XML blanks
func asciiFields(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool { return strings.ContainsRune(" \t\n\r\v\f", r) })
}

var rotateRE = regexp.MustCompile(`^rotate\(([-0-9.]+) (-?[0-9]+) (-?[0-9]+)\)$`)

// addition describes an element at the end of the root: its attributes as numbers where they are numbers
func addition(e obj) obj {
	r := obj{"n": e["n"], "t": e["t"], "d": e["d"], "num": obj{}, "id": "", "style": "", "rot": arr{}, "dup": false}
	seen := map[string]bool{}
	for _, p := range e["a"].(arr) {
		k, v := p.(arr)[0].(string), p.(arr)[1].(string)
		if seen[k] {
			r["dup"] = true
		}
		seen[k] = true
		switch k {
		case "x", "y", "width", "height", "cx", "cy", "r", "rx", "ry":
			if n, err := strconv.Atoi(v); err == nil && n < 1<<30 && n > -1<<30 {
				r["num"].(obj)[k] = n
			}
		case "id", "style":
			r[k] = v
		case "transform":
			m := rotateRE.FindStringSubmatch(v)
			if m == nil {
				r["rot"] = arr{"other", v}
				break
			}
			f, _ := strconv.ParseFloat(m[1], 64)
			x, _ := strconv.Atoi(m[2])
			y, _ := strconv.Atoi(m[3])
			r["rot"] = arr{obj{"milli": int(math.Round(f * 1000)), "x": x, "y": y}}
		}
	}
	return r
}

type svgJob struct {
	kind   string
	base   string
	t      *topo.Topology
	json   string
	m      map[uint32]uint32
	simple bool // through GenerateCompositeSVG
	flags  [4]bool
}

func (j svgJob) run() any {
	c := obj{"kind": j.kind, "base": j.base, "json": j.json}
	m := arr{}
	keys := []int{}
	for k := range j.m {
		keys = append(keys, int(k))
	}
	sort.Ints(keys)
	for _, k := range keys {
		m = append(m, arr{itoa(k), j.m[uint32(k)] != 0})
	}
	c["map"], c["nomap"] = m, j.m == nil
	if j.simple {
		j.flags = [4]bool{true, true, false, false}
	}
	c["flags"] = obj{"labels": j.flags[0], "ids": j.flags[1], "types": j.flags[2], "sizes": j.flags[3]}
	var res string
	isNil := false
	p := guard("svg "+j.kind, func() {
		if j.simple {
			res = topo.GenerateCompositeSVG(j.json, j.base, j.m)
			isNil = res == ""
		} else if doc := topo.GenerateCompositeSVGdoc(j.json, j.base, j.m, j.flags[0], j.flags[1], j.flags[2], j.flags[3]); doc != nil {
			res = doc.XML()
		} else {
			isNil = true
		}
	})
	if p != "" {
		return obj{"kind": "panic", "what": p, "base": j.base, "json": j.json}
	}
	c["empty"] = isNil
	if j.kind == "invalid" || j.kind == "any" {
		return c
	}
	base, err := flatten(j.base)
	if err != nil {
		panic("base document of a valid case: " + err.Error() + j.base)
	}
	c["els"] = base
	o, err := flatten(res)
	c["wellformed"] = err == nil
	c["kept"], c["added"] = arr{}, arr{}
	if err == nil {
		n := min(len(base), len(o))
		c["kept"] = o[:n]
		a := arr{}
		for _, e := range o[n:] {
			if j.t == nil {
				break
			}
			a = append(a, addition(e.(obj)))
		}
		c["added"] = a
	} else {
		c["error"] = err.Error()
		c["result"] = res
	}
	if j.t != nil {
		tt := topoTree(j.t)
		for i := range tt["hwc"].(arr) {
			// the resolved rotation in thousandths of a degree is the recorder's; the rest is the specification's
			h := tt["hwc"].(arr)[i].(obj)
			for _, o := range h["over"].(arr) {
				milli(o.(obj))
			}
		}
		for _, e := range tt["types"].(arr) {
			milli(e.(obj)["def"].(obj))
		}
		c["topo"] = tt
	}
	return c
}

func milli(d obj) {
	f, _ := strconv.ParseFloat(d["rotate"].(string), 64)
	// "0" stays the empty value; anything else is never spelled "0"
	if f != 0 {
		d["rotate"] = strconv.FormatFloat(math.Round(f*1000), 'f', 0, 64)
		if d["rotate"] == "0" || d["rotate"] == "-0" {
			d["rotate"] = "00"
		}
	}
}

const svgHead = `<?xml version="1.0" encoding="UTF-8" standalone="no"?>` + "\n"

var svgBases = []string{
	`<svg></svg>`, `<svg/>`, `<svg xmlns="http://www.w3.org/2000/svg" viewBox="0 0 100 100"/>`,
	svgHead + `<svg width="100" height="50"><rect x="1" y="2" width="3" height="4"/></svg>`,
	svgHead + "<!DOCTYPE svg PUBLIC \"-//W3C//DTD SVG 1.1//EN\" \"http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd\">\n<svg\n   width=\"100\"\n   height=\"50\"\n   viewBox=\"0 0\n 100 50\">\n  <g\n     id=\"layer1\"\n     style=\"fill:none;\n stroke:black\">\n    <path\n       d=\"M 0,0\n L 10,10\"\n    />\n  </g>\n</svg>\n",
	`<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink"><defs><g id="a"><circle r="2"/></g></defs><use xlink:href="#a" x="4"/></svg>`,
	`<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink"><use href="#a" xlink:href="#b"/></svg>`,
	`<svg:svg xmlns:svg="http://www.w3.org/2000/svg"><svg:g><svg:rect width="1"/></svg:g></svg:svg>`,
	`<svg xmlns="http://www.w3.org/2000/svg" xmlns:inkscape="http://www.inkscape.org/namespaces/inkscape" xmlns:sodipodi="http://sodipodi.sourceforge.net/DTD/sodipodi-0.dtd"><sodipodi:namedview id="base" inkscape:zoom="1.4" sodipodi:docname="x.svg"/><g id="g1" inkscape:label="Layer 1" xml:space="preserve"/></svg>`,
	`<svg><style type="text/css"><![CDATA[ .a > .b { fill: red } ]]></style><text>A &amp; B &lt;C&gt;</text></svg>`,
	`<svg><style>.a{fill:red}<!-- note -->.b{fill:blue}</style><title>Panel <!-- x -->One</title></svg>`,
	`<svg><!-- a comment --><g><!-- another --></g><desc>text &#x41; &quot;q&quot; ' é</desc></svg>`,
	`<svg a='single "quoted"' b="it's &lt;fine&gt; &amp; good"><g><g><g><g id="deep">x</g></g></g></g></svg>`,
	`<svg><text x="1"><tspan x="1">one</tspan><tspan x="2">two</tspan></text></svg>`,
	`<svg><a/><b></b><c>1</c><a/></svg>`, "<svg>\n\t<g>\n\t\t<g/>\n\t</g>\n</svg>\n<!-- end -->\n", `<svg>just text</svg>`,
	`<svg><metadata><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:dc="http://purl.org/dc/elements/1.1/"><dc:format>image/svg+xml</dc:format></rdf:RDF></metadata></svg>`,
}

// text that stands before a child element
var svgMixed = []string{`<svg><text>one <tspan>two</tspan> three</text></svg>`, `<svg><text>one<tspan>two</tspan></text></svg>`}

var svgInvalid = []string{"", "   ", "hello", "<svg", "<svg>", "<svg></g>", "<svg><g></svg>", "<svg a></svg>", "<svg a=1/>", "<svg>&unknown;</svg>", "</svg>",
	"<!-- only -->", svgHead, "<svg>\x01</svg>", "<svg>\xff</svg>", "<svg a=\"<\"/>", "<svg a=\"1/>", "<>", "<svg><!-- -- --></svg>", "<svg><![CDATA[x</svg>", "\x00",
	"{\"HWc\":[]}", "< svg/>", "<svg/", "<1/>", "<svg>&#x0;</svg>"}

func randomSVG(g *rand.Rand) string {
	var b strings.Builder
	names := []string{"g", "rect", "path", "x:y", "text", "sodipodi:namedview", "a-b", "_c"}
	attrs := []string{"id", "x", "inkscape:label", "xlink:href", "href", "style", "d", "xml:space", "data-x"}
	vals := []string{"", "1", "a b", "M 0 0\n\tL 1 1", "&amp;", "&lt;g&gt;", "&quot;", "'", "é", "HWc", "url(#a)"}
	texts := []string{"", "", "\n  ", "txt", "a &amp; b", "<![CDATA[<raw>]]>", "<!-- c -->", "é", "  padded  "}
	var el func(depth int)
	el = func(depth int) {
		n := names[g.Intn(len(names))]
		if depth == 0 {
			n = "svg"
		}
		b.WriteString("<" + n)
		if depth == 0 {
			b.WriteString(` xmlns:x="u:x" xmlns:sodipodi="u:s" xmlns:inkscape="u:i" xmlns:xlink="u:l"`)
		}
		for _, k := range g.Perm(len(attrs))[:g.Intn(4)] {
			b.WriteString([]string{" ", "\n    ", "\t"}[g.Intn(3)] + attrs[k] + `="` + vals[g.Intn(len(vals))] + `"`)
		}
		kids := 0
		if depth < 4 {
			kids = g.Intn(4)
		}
		if kids == 0 && g.Intn(2) == 0 {
			b.WriteString([]string{"/>", " />"}[g.Intn(2)])
			return
		}
		b.WriteString(">")
		if kids == 0 {
			for k := g.Intn(4); k > 0; k-- {
				b.WriteString(texts[g.Intn(len(texts))])
			}
		}
		for k := 0; k < kids; k++ {
			el(depth + 1)
			if g.Intn(3) == 0 {
				b.WriteString([]string{"\n", "<!-- c -->", "  "}[g.Intn(3)])
			}
		}
		if kids > 0 && g.Intn(4) == 0 {
			b.WriteString("tail text")
		}
		b.WriteString("</" + n + ">")
	}
	if g.Intn(2) == 0 {
		b.WriteString(svgHead)
	}
	el(0)
	return b.String()
}

func svgCases() {
	rng := rand.New(rand.NewSource(*seed))
	g := topoGen{Rand: rng}
	jobs := []svgJob{}
	pk := gen{rng}
	gen := func(k int) *topo.Topology {
		t := g.topology(topoOpts{comps: g.Intn(6), types: g.Intn(5), dup: k%5 == 1, missing: k%4 == 1, sections: []int{0, 0, 20}[k%3], zero: true, key0: k%5 == 4})
		for i := range t.HWc {
			if strings.Count(t.HWc[i].Txt, "|") > 1 {
				t.HWc[i].Txt = "A|B"
			}
		}
		return t
	}
	maps := func(t *topo.Topology) map[uint32]uint32 {
		switch g.Intn(4) {
		case 0:
			return nil
		case 1:
			if g.Intn(4) == 0 {
				return map[uint32]uint32{}
			}
		}
		m := map[uint32]uint32{}
		for _, c := range t.HWc {
			switch g.Intn(4) {
			case 0: // absent
			case 1:
				m[c.Id] = 0
			case 2:
				m[c.Id] = 1
			default:
				m[c.Id] = g.Uint32() | 1
			}
		}
		m[uint32(g.Intn(20))] = uint32(g.Intn(2))
		return m
	}
	flags := func(k int) [4]bool { return [4]bool{k&1 != 0, k&2 != 0, k&4 != 0, k&8 != 0} }
	// every base document
	for _, b := range append(append([]string{}, svgBases...), svgMixed...) {
		kind := "doc"
		for _, m := range svgMixed {
			if m == b {
				kind = "mixed"
			}
		}
		for k := 0; k < scale(4, 20); k++ {
			t := gen(k)
			jobs = append(jobs, svgJob{kind: kind, base: b, t: t, json: t.ToJSON(), m: maps(t), simple: k%2 == 0, flags: flags(g.Intn(16))})
		}
	}
	// one component: shape, size parity, rotation, label, options, mask
	for k := 0; k < scale(1500, 12000); k++ {
		d := topo.TopologyHWcTypeDef{W: g.Intn(12) * (1 + g.Intn(20)), Rotate: topoRotates[g.Intn(len(topoRotates))], Render: topoRenders[g.Intn(len(topoRenders))]}
		if g.Intn(2) == 0 {
			d.H = 1 + g.Intn(150)
		}
		if g.Intn(2) == 0 {
			d.Rotate = 0
		}
		if g.Intn(3) == 0 {
			d.Disp = g.disp()
		}
		d.Sub = g.subs(g.Intn(4))
		t := &topo.Topology{TypeIndex: map[uint32]topo.TopologyHWcTypeDef{3: d}}
		c := topo.TopologyHWcomponent{Id: uint32(1 + g.Intn(40)), X: g.Intn(3000) - 100, Y: g.Intn(3000) - 100, Type: 3, Txt: topoTexts[k%len(topoTexts)]}
		if k%3 == 0 {
			c.Txt = g.txt()
		}
		if strings.Count(c.Txt, "|") > 1 {
			c.Txt = "x"
		}
		if g.Intn(2) == 0 {
			o := g.def(g.Intn(allAttrs + 1))
			c.TypeOverride = &o
		}
		t.HWc = []topo.TopologyHWcomponent{c}
		jobs = append(jobs, svgJob{kind: "doc", base: svgBases[k%5], t: t, json: t.ToJSON(), m: maps(t), simple: k%3 == 0, flags: flags(k % 16)})
	}
	for k := 0; k < scale(800, 8000); k++ {
		t := gen(k)
		jobs = append(jobs, svgJob{kind: "doc", base: randomSVG(rng), t: t, json: t.ToJSON(), m: maps(t), simple: k%3 == 0, flags: flags(g.Intn(16))})
	}
	// many components, large documents, long labels
	for k := 0; k < scale(6, 40); k++ {
		t := g.topology(topoOpts{comps: pick(pk, 258, 515, 700, 1030), types: pick(pk, 4, 40), zero: true})
		base := svgBases[g.Intn(len(svgBases))]
		switch k % 3 {
		case 1:
			t.HWc = t.HWc[:5]
			base = "<svg>" + strings.Repeat("<g id=\"a\"><path d=\"M 0 0\"/><text>x &amp; y</text></g>", pick(pk, 90, 700, 1500)) + "</svg>"
		case 2:
			t.HWc = t.HWc[:8]
			base = "<svg>" + strings.Repeat("<g>", 300) + strings.Repeat("</g>", 300) + "<style>" + strings.Repeat(".a{fill:red} ", pick(pk, 400, 6000)) + "</style></svg>"
			for i := range t.HWc {
				if i%2 == 0 {
					t.HWc[i].Txt = strings.Repeat("Long & <label>", pick(pk, 5, 20, 300, 5000)) + pick(pk, "", "|Line")
				}
			}
		}
		for i := range t.HWc {
			if strings.Count(t.HWc[i].Txt, "|") > 1 {
				t.HWc[i].Txt = "A|B"
			}
		}
		jobs = append(jobs, svgJob{kind: "doc", base: base, t: t, json: t.ToJSON(), m: maps(t), simple: k%2 == 0, flags: flags(g.Intn(16))})
	}
	// documents that are not XML
	full := gen(0)
	for _, b := range svgInvalid {
		jobs = append(jobs, svgJob{kind: "invalid", base: b, json: full.ToJSON(), simple: true}, svgJob{kind: "invalid", base: b, json: full.ToJSON(), m: map[uint32]uint32{1: 1}})
	}
	for _, b := range svgBases {
		last := strings.LastIndex(b, ">")
		if i := strings.LastIndex(b, "<!-- end"); i > 0 {
			last = strings.LastIndex(b[:i], ">")
		}
		for k := 0; k <= last; k++ {
			jobs = append(jobs, svgJob{kind: "invalid", base: b[:k], json: full.ToJSON(), simple: k%2 == 0})
		}
	}
	// topologies that are not JSON, or whose strings are unusual; damaged documents
	hostile := []string{"", "null", "[]", "{", "{\"HWc\":null}", "{\"HWc\":[null]}", "{\"HWc\":[{\"id\":\"x\"}]}", "{\"HWc\":[{\"id\":1,\"type\":5}],\"typeIndex\":null}",
		"{\"HWc\":[{\"id\":1,\"type\":1}],\"typeIndex\":{\"1\":{\"disp\":{\"subidx\":9}},\"2\":null}}", "{\"HWc\":[{\"id\":1,\"type\":1}],\"typeIndex\":{\"1\":{\"disp\":{\"subidx\":-5},\"sub\":[{}]}}}",
		"{\"HWc\":[{\"id\":1,\"x\":9223372036854775807,\"y\":-9223372036854775808,\"type\":1,\"txt\":\"\\u0001\\u0000\"}],\"typeIndex\":{\"1\":{\"w\":-7,\"h\":9223372036854775807,\"rotate\":1e38}}}",
		"{\"HWc\":[{\"id\":1,\"txt\":\"a\\nb|\\u0007]]>\",\"type\":1}],\"typeIndex\":{\"1\":{\"sub\":[{\"_\":\"r\",\"style\":\"\\u0002<&'\\\"\\n\"}]}}}",
		"{\"HWc\":[{\"id\":1,\"txt\":\"\xff\xfe|\\ud800\",\"type\":1}],\"typeIndex\":{\"1\":{}}}"}
	for _, h := range hostile {
		for k := 0; k < 16; k++ {
			jobs = append(jobs, svgJob{kind: "wellformed", base: svgBases[k%len(svgBases)], json: h, simple: k == 15, flags: flags(k)})
		}
	}
	j := []byte(full.ToJSON())
	for k := 0; k < scale(300, 3000); k++ {
		b := []byte(svgBases[g.Intn(len(svgBases))])
		for n := 1 + g.Intn(3); n > 0 && len(b) > 0; n-- {
			switch p := g.Intn(len(b)); g.Intn(3) {
			case 0:
				b[p] = "<>/\"& =!-?[]a\x00\xff"[g.Intn(15)]
			case 1:
				b = append(b[:p], b[p+1:]...)
			default:
				b = append(b[:p], append([]byte{"<>/\"& =!-?"[g.Intn(10)]}, b[p:]...)...)
			}
		}
		jj := append([]byte{}, j...)
		if k%3 == 0 {
			jj[g.Intn(len(jj))] = "{}[]:,\"0-\x00"[g.Intn(10)]
		}
		jobs = append(jobs, svgJob{kind: "any", base: string(b), json: string(jj), simple: k%2 == 0, flags: flags(g.Intn(16))})
	}
	cases := make(arr, len(jobs))
	parallel(len(jobs), func(k int) { cases[k] = jobs[k].run() })
	saveCases(out("svg.json"), cases)
}
