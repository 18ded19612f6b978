package main

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"

	helpers "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
)

func init() {
	cmds["reassembly"] = reassembly
	cmds["reassembly-cbind"] = reassemblyCbind
}

// one line of a history, structured and as text
type gline struct {
	G    bool
	T    []string
	Y    string
	I    int
	Adv  bool
	Max  int
	W, H string
	XY   bool
	Ox   string
	Oy   string
	D    []byte
	Text string
}

var kindWord = map[string]string{"mono": "HWCg", "rgb": "HWCgRGB", "gray": "HWCgGray"}

func (l *gline) render() {
	head := ""
	if l.Adv {
		head = fmt.Sprintf("/%d,%sx%s", l.Max, l.W, l.H)
		if l.XY {
			head += "," + l.Ox + "," + l.Oy
		}
	}
	l.Text = fmt.Sprintf("%s#%s=%d%s:%s", kindWord[l.Y], strings.Join(l.T, ","), l.I, head, base64.StdEncoding.EncodeToString(l.D))
}
func (l gline) tree() any {
	if !l.G {
		return obj{"g": false}
	}
	o := obj{"g": true, "t": l.T, "y": l.Y, "i": l.I, "adv": l.Adv, "d": l.D}
	if l.Adv {
		o["max"], o["w"], o["h"], o["xy"], o["ox"], o["oy"] = l.Max, l.W, l.H, l.XY, l.Ox, l.Oy
	}
	return o
}

var otherLines = []string{"ping", "HWC#5=4", "HWCt#5=|||Title||x", "", "garbage", "HWCg", "HWCg#5", "HWCgX#5=0:AA==", "HWCg#5=x:AA==", `{"HWCIDs":[5],"HWCMode":{"State":4}}`, "[]", "Clear", "HWCc#5=2", "Mem1=5", "HWCg=0:AA==", "unknown=1"}

func imgTree(s *rwp.HWCState) any {
	var ids []string
	for _, id := range s.HWCIDs {
		ids = append(ids, fmt.Sprint(id))
	}
	g := s.HWCGfx
	d := g.ImageData
	if d == nil {
		d = []byte{}
	}
	return obj{"ids": ids, "type": fmt.Sprint(int(g.ImageType)), "w": fmt.Sprint(g.W), "h": fmt.Sprint(g.H), "xy": g.XYoffset, "x": fmt.Sprint(g.X), "y": fmt.Sprint(g.Y), "data": append([]byte{}, d...)}
}

type gobs struct {
	at  int
	img any
	s   *rwp.HWCState
}

func collect(ms []*rwp.InboundMessage, at int, o []gobs) []gobs {
	for _, m := range ms {
		for _, s := range m.GetStates() {
			if s.GetHWCGfx() != nil {
				o = append(o, gobs{at, imgTree(s), s})
			}
		}
	}
	return o
}

// modes of feeding a history to the real code
var feedModes = []string{"batch", "stream", "stream-json", "stream-json-some"}

func feed(mode string, h []gline, salt int) (arr, string) {
	var o []gobs
	desc := mode
	for _, l := range h {
		desc += "\n" + l.Text
	}
	p := guard(desc, func() {
		switch mode {
		case "batch":
			var t []string
			for _, l := range h {
				t = append(t, l.Text)
			}
			o = collect(helpers.RawPanelASCIIstringsToInboundMessages(t), 0, o)
		default:
			rd := &helpers.ASCIIreader{}
			for k, l := range h {
				o = collect(rd.Parse(l.Text), k+1, o)
				if mode == "stream-json" || (mode == "stream-json-some" && (salt>>(k%8))&1 == 1) {
					b, err := json.Marshal(rd)
					if err != nil {
						panic(err)
					}
					rd = &helpers.ASCIIreader{}
					if err := json.Unmarshal(b, rd); err != nil {
						panic(err)
					}
				}
			}
		}
	})
	a := arr{}
	for _, x := range o {
		a = append(a, obj{"at": x.at, "img": x.img, "final": imgTree(x.s)})
	}
	return a, p
}

func canon(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

func historyCases(h []gline, salt int) arr {
	lines := arr{}
	for _, l := range h {
		lines = append(lines, l.tree())
	}
	var texts []string
	for _, l := range h {
		texts = append(texts, l.Text)
	}
	var r arr
	seen := map[string]obj{}
	for _, mode := range feedModes {
		o, p := feed(mode, h, salt)
		stream := mode != "batch"
		key := fmt.Sprint(stream, p, canon(o))
		if c, ok := seen[key]; ok { // same observation as another mode
			c["modes"] = append(c["modes"].([]string), mode)
			continue
		}
		c := obj{"kind": "read", "lines": lines, "obs": o, "stream": stream, "modes": []string{mode}, "texts": texts}
		if p != "" {
			c["kind"], c["panic"] = "panic", p
		}
		seen[key] = c
		r = append(r, c)
	}
	return r
}

func loadAlphabet() []gline {
	raw, err := os.ReadFile(*inFile)
	if err != nil {
		panic(err)
	}
	var a []gline
	if err := json.Unmarshal(raw, &a); err != nil {
		panic(err)
	}
	return a
}

func (g gen) fillLine(l gline, pos int) gline {
	if !l.G {
		l.Text = otherLines[g.Intn(len(otherLines))]
		return l
	}
	l.D = []byte{byte(pos)}
	l.render()
	return l
}

func randomHistory(g gen) []gline {
	var h []gline
	targets := [][]string{{"5"}, {"6", "7"}, {"5", "6"}, {"1"}, {"15"}}
	targets = targets[:1+g.Intn(len(targets))]
	kinds := []string{"mono", "rgb", "gray"}[:1+g.Intn(3)]
	// streams of chunks of several transfers, shuffled together with faults
	type tr struct {
		h0   gline
		next int
	}
	var cur []tr
	n := 3 + g.Intn(18)
	start := func() tr {
		l := gline{G: true, T: targets[g.Intn(len(targets))], Y: kinds[g.Intn(len(kinds))], Adv: g.pct(75), Max: pick(g, 0, 1, 1, 2, 3, 4, 11), W: pick(g, "64", "48", "112"), H: pick(g, "32", "24"), Ox: pick(g, "0", "3"), Oy: pick(g, "0", "9"), XY: g.pct(40)}
		return tr{l, 0}
	}
	cur = append(cur, start())
	for len(h) < n {
		switch x := g.Intn(100); {
		case x < 8:
			cur = append(cur, start())
			if len(cur) > 3 {
				cur = cur[1:]
			}
		case x < 14:
			h = append(h, g.fillLine(gline{}, 0))
		case x < 18 && len(h) > 0: // the very same line once more
			h = append(h, h[len(h)-1])
		case x < 22 && len(h) > 1:
			h = append(h, h[g.Intn(len(h))])
		default:
			t := &cur[g.Intn(len(cur))]
			if x < 28 {
				t.next += pick(g, 1, -1, 2)
				if t.next < 0 {
					t.next = 0
				}
			}
			l := t.h0
			l.I = t.next
			if t.next > 0 {
				l.Adv = false
			}
			l = g.fillLine(l, len(h)+1)
			h = append(h, l)
			t.next++
			m := 2
			if t.h0.Adv {
				m = t.h0.Max
			}
			if t.next > m && g.pct(85) {
				*t = start()
			}
		}
	}
	return h
}

func allWords(alpha []gline, L int) [][]int {
	var ws [][]int
	var rec func(w []int)
	rec = func(w []int) {
		if len(w) > 0 {
			ws = append(ws, append([]int{}, w...))
		}
		if len(w) == L {
			return
		}
		for k := range alpha {
			rec(append(w, k))
		}
	}
	rec(nil)
	return ws
}

func allHistories(L int) [][]gline {
	alpha := loadAlphabet()
	g := gen{rand.New(rand.NewSource(*seed))}
	var hs [][]gline
	for _, w := range allWords(alpha, L) {
		var h []gline
		for k, s := range w {
			h = append(h, g.fillLine(alpha[s], k+1))
		}
		hs = append(hs, h)
	}
	for r := 0; r < scale(15000, 150000); r++ {
		hs = append(hs, randomHistory(g))
	}
	return hs
}

func reassembly() {
	hs := allHistories(4)
	res := make([]arr, len(hs))
	parallel(len(hs), func(k int) { res[k] = historyCases(hs[k], k) })
	var cases arr
	for _, r := range res {
		cases = append(cases, r...)
	}
	saveCases(out("histories.json"), cases)

	// cutting: every image size over several chunk boundaries, and feeding the lines back
	g := gen{rand.New(rand.NewSource(*seed + 7))}
	var cuts arr
	sizes := []int{0, 1500, 1699, 1700, 1701, 1870, 2047, 2048, 4096, 8191, 14336, 28672, 43520, 43521, 43690, 43691, 170170}
	if *thorough {
		sizes = append(sizes, 65536, 87211, 153600)
	}
	for n := 1; n <= scale(520, 1400); n++ {
		sizes = append(sizes, n)
	}
	sort.Ints(sizes)
	for _, n := range sizes {
		st := &rwp.HWCState{HWCIDs: []uint32{g.ids()[0]}, HWCGfx: g.gfx(n)}
		var lines []string
		p := guard(fmt.Sprint("encode image of ", n), func() {
			lines = helpers.InboundMessagesToRawPanelASCIIstrings([]*rwp.InboundMessage{{States: []*rwp.HWCState{proto.Clone(st).(*rwp.HWCState)}}})
		})
		img := imgTree(st)
		if p != "" {
			cuts = append(cuts, obj{"kind": "panic", "panic": p, "img": img})
			continue
		}
		var h []gline
		ls := arr{}
		bad := ""
		for _, t := range lines {
			l, ok := readGline(t)
			if !ok {
				bad = t
			}
			h = append(h, l)
			ls = append(ls, l.tree())
		}
		if bad != "" {
			cuts = append(cuts, obj{"kind": "not a chunk line", "line": bad, "img": img})
			continue
		}
		cuts = append(cuts, obj{"kind": "cut", "lines": ls, "img": img, "texts": lines})
		if len(lines) == 0 {
			continue
		}
		// the clean run, fed back in every mode, with and without other lines in between
		for _, c := range historyCases(h, n) {
			cuts = append(cuts, c)
		}
		if n%3 == 0 {
			var hh []gline
			for _, l := range h {
				for g.pct(40) {
					hh = append(hh, g.fillLine(gline{}, 0))
				}
				hh = append(hh, l)
			}
			for _, c := range historyCases(hh, n*7) {
				cuts = append(cuts, c)
			}
		}
	}
	// transfers of very many chunks, the last one missing, repeated or out of place in some of them
	counts := []int{1001, 5300}
	if *thorough {
		counts = append(counts, 2600, 10100, 16500)
	}
	for k, n := range counts {
		h := make([]gline, n)
		for i := range h {
			h[i] = gline{G: true, T: []string{"5"}, Y: "rgb", I: i, Adv: i == 0, D: []byte{byte(i), byte(i >> 8)}}
			if i == 0 {
				h[i].Max, h[i].W, h[i].H = n-1, "64", "48"
			}
			h[i].render()
		}
		hs := [][]gline{h}
		if *thorough || n < 2000 {
			hs = append(hs, h[:n-1], append(h[:n-1:n-1], h[0]), append(h[:n-1:n-1], h[n-2], h[n-1]), append(h[:n-2:n-2], h[n-1]))
		}
		for _, h := range hs {
			for _, c := range historyCases(h, n+k) {
				cuts = append(cuts, c)
			}
		}
	}
	saveCases(out("cuts.json"), cuts)
}

// reassemblyCbind prepares histories for the C wrapper.
func reassemblyCbind() {
	hs := allHistories(scale(3, 4))
	hs = hs[:len(hs)-scale(12000, 100000)]
	var in [][]string
	var cs arr
	for _, h := range hs {
		lines := arr{}
		var hx, texts []string
		for _, l := range h {
			lines = append(lines, l.tree())
			hx = append(hx, hex.EncodeToString([]byte(l.Text)))
			texts = append(texts, l.Text)
		}
		in = append(in, hx)
		cs = append(cs, obj{"kind": "read", "lines": lines, "stream": true, "modes": []string{"c-wrapper"}, "texts": texts})
	}
	f, _ := os.Create(out("lines.json"))
	json.NewEncoder(f).Encode(in)
	f.Close()
	saveCases(out("cbind.json"), cs)
}

// readGline reads a chunk line back into its structure (not with the library).
func readGline(t string) (gline, bool) {
	var l gline
	l.Text = t
	hash, eq := strings.IndexByte(t, '#'), strings.IndexByte(t, '=')
	if hash < 0 || eq < hash {
		return l, false
	}
	colon := strings.IndexByte(t, ':')
	if colon < eq {
		return l, false
	}
	for k, w := range kindWord {
		if w == t[:hash] {
			l.Y, l.G = k, true
		}
	}
	if !l.G {
		return l, false
	}
	l.T = strings.Split(t[hash+1:eq], ",")
	head := t[eq+1 : colon]
	var err error
	if l.D, err = base64.StdEncoding.DecodeString(t[colon+1:]); err != nil {
		return l, false
	}
	idx, geo, adv := strings.Cut(head, "/")
	if _, err := fmt.Sscan(idx, &l.I); err != nil {
		return l, false
	}
	if adv {
		l.Adv = true
		p := strings.Split(geo, ",")
		if len(p) != 2 && len(p) != 4 {
			return l, false
		}
		if _, err := fmt.Sscan(p[0], &l.Max); err != nil {
			return l, false
		}
		l.W, l.H, _ = strings.Cut(p[1], "x")
		l.Ox, l.Oy = "0", "0"
		if len(p) == 4 {
			l.XY, l.Ox, l.Oy = true, p[2], p[3]
		}
	}
	return l, true
}

func init() { cmds["images-of"] = imagesOf }

// imagesOf turns serialised inbound messages (hex, per history and line) into the images they deliver.
func imagesOf() {
	raw, err := os.ReadFile(*inFile)
	if err != nil {
		panic(err)
	}
	var in [][][]string
	if err := json.Unmarshal(raw, &in); err != nil {
		panic(err)
	}
	res := arr{}
	for _, h := range in {
		a := arr{}
		for k, l := range h {
			for _, hx := range l {
				b, _ := hex.DecodeString(hx)
				m := &rwp.InboundMessage{}
				if err := proto.Unmarshal(b, m); err != nil {
					a = append(a, obj{"at": k + 1, "img": "not a message", "final": "not a message"})
					continue
				}
				for _, x := range collect([]*rwp.InboundMessage{m}, k+1, nil) {
					a = append(a, obj{"at": x.at, "img": x.img, "final": x.img})
				}
			}
		}
		res = append(res, a)
	}
	saveCases(out("images.json"), res)
}
