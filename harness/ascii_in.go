package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	helpers "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() {
	cmds["ascii-in-enc"] = asciiInEnc
	cmds["ascii-in-dec"] = asciiInDec
}

func cloneAll[M proto.Message](ms []M) []M {
	r := make([]M, len(ms))
	for i, m := range ms {
		r[i] = proto.Clone(m).(M)
	}
	return r
}

func encInCase(ms []*rwp.InboundMessage) any {
	dump := trees(ms)
	c := obj{"kind": "enc", "msgs": dump}
	var lines []string
	var counts []int
	if p := guard(fmt.Sprint("InboundMessagesToRawPanelASCIIstrings ", ms), func() {
		onUsed(ms, func(l []*rwp.InboundMessage) { lines = helpers.InboundMessagesToRawPanelASCIIstrings(l) })
		for _, m := range ms {
			counts = append(counts, len(helpers.InboundMessagesToRawPanelASCIIstrings(cloneAll([]*rwp.InboundMessage{m}))))
		}
	}); p != "" {
		c["kind"], c["panic"] = "panic", p
		return c
	}
	c["lines"], c["counts"] = lines, counts
	return c
}

func one(m *rwp.InboundMessage) []*rwp.InboundMessage { return []*rwp.InboundMessage{m} }
func st(ids []uint32, f func(s *rwp.HWCState)) []*rwp.InboundMessage {
	s := &rwp.HWCState{HWCIDs: ids}
	f(s)
	return one(&rwp.InboundMessage{States: []*rwp.HWCState{s}})
}

func asciiInEnc() {
	g := gen{rand.New(rand.NewSource(*seed))}
	var in [][]*rwp.InboundMessage
	add := func(ms []*rwp.InboundMessage) { in = append(in, ms) }
	// complete packed spaces
	for s := 0; s < 6; s++ {
		for o := 0; o < 2; o++ {
			for b := 0; b < 16; b++ {
				add(st(g.ids(), func(x *rwp.HWCState) {
					x.HWCMode = &rwp.HWCMode{State: rwp.HWCMode_StateE(s), Output: o == 1, BlinkPattern: uint32(b)}
				}))
			}
		}
	}
	step := scale(7, 1)
	for i := 0; i < 16; i++ {
		for v := 0; v < 4096; v++ {
			if v%step == i%step || v < 3 || v > 4092 || (v >= 498 && v <= 501) || (v >= 998 && v <= 1001) || v&(v-1) == 0 {
				add(st(g.ids(), func(x *rwp.HWCState) {
					x.HWCExtended = &rwp.HWCExtended{Interpretation: rwp.HWCExtended_InterpretationE(i), Value: uint32(v)}
				}))
			}
		}
	}
	col := func(r, gr, b uint32) { // the component's colour and the two tile colours
		c := &rwp.ColorRGB{Red: r, Green: gr, Blue: b}
		add(st(g.ids(), func(x *rwp.HWCState) { x.HWCColor = &rwp.HWCColor{ColorRGB: c} }))
		add(st(g.ids(), func(x *rwp.HWCState) {
			x.HWCText = &rwp.HWCText{IntegerValue: 5, PixelColor: &rwp.Color{ColorRGB: c}}
			if g.pct(50) {
				x.HWCText = &rwp.HWCText{Textline1: "x", BackgroundColor: &rwp.Color{ColorRGB: c}}
			}
		}))
	}
	for k := 0; k < 64; k++ {
		col(uint32(k>>4)*85, uint32(k>>2&3)*85, uint32(k&3)*85)
	}
	for v := 0; v < 256; v++ {
		col(uint32(v), 0, 255)
		col(170, uint32(v), 85)
		col(0, 85, uint32(v))
	}
	for k := 0; k < 32; k++ {
		c := &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(k)}
		add(st(g.ids(), func(x *rwp.HWCState) { x.HWCColor = &rwp.HWCColor{ColorIndex: c} }))
		add(st(g.ids(), func(x *rwp.HWCState) {
			x.HWCText = &rwp.HWCText{Formatting: 7, PixelColor: &rwp.Color{ColorIndex: c}, BackgroundColor: &rwp.Color{ColorIndex: &rwp.ColorIndex{Index: 31 - c.Index}}}
		}))
	}
	// text: single fields, field pairs, larger subsets
	for f := 0; f < nTextFields; f++ {
		for r := 0; r < scale(12, 60); r++ {
			add(st(g.ids(), func(x *rwp.HWCState) { x.HWCText = &rwp.HWCText{}; g.setText(x.HWCText, f, false) }))
		}
		for h := 0; h < f; h++ {
			for r := 0; r < scale(3, 12); r++ {
				add(st(g.ids(), func(x *rwp.HWCState) {
					x.HWCText = &rwp.HWCText{}
					g.setText(x.HWCText, h, false)
					g.setText(x.HWCText, f, false)
				}))
			}
		}
	}
	for k := 0; k < 8*8*2; k++ { // font byte
		add(st(g.ids(), func(x *rwp.HWCState) {
			x.HWCText = &rwp.HWCText{Title: "t", TextStyling: &rwp.HWCText_TextStyle{FixedWidth: k&64 != 0,
				TextFont:  &rwp.HWCText_TextStyle_Font{FontFace: rwp.HWCText_TextStyle_Font_FontFaceE(k & 7)},
				TitleFont: &rwp.HWCText_TextStyle_Font{FontFace: rwp.HWCText_TextStyle_Font_FontFaceE(k >> 3 & 7)}}}
		}))
	}
	for k := 0; k < 256; k++ { // size byte
		add(st(g.ids(), func(x *rwp.HWCState) {
			x.HWCText = &rwp.HWCText{IntegerValue: 1, TextStyling: &rwp.HWCText_TextStyle{
				TextFont:  &rwp.HWCText_TextStyle_Font{TextWidth: uint32(k & 3), TextHeight: uint32(k >> 2 & 3)},
				TitleFont: &rwp.HWCText_TextStyle_Font{TextWidth: uint32(k >> 4 & 3), TextHeight: uint32(k >> 6 & 3)}}}
		}))
	}
	for k := 0; k < 32; k++ { // advanced byte, icon byte
		add(st(g.ids(), func(x *rwp.HWCState) {
			x.HWCText = &rwp.HWCText{Textline1: "v", TextStyling: &rwp.HWCText_TextStyle{TitleBarPadding: uint32(k & 3), ExtraCharacterSpacing: uint32(k >> 2)}}
		}))
		add(st(g.ids(), func(x *rwp.HWCState) {
			x.HWCText = &rwp.HWCText{IntegerValue: -3, StateIcon: rwp.HWCText_StateIconE(k & 3), ModifierIcon: rwp.HWCText_ModifierIconE(k >> 2)}
		}))
	}
	for r := 0; r < scale(600, 6000); r++ {
		add(st(g.ids(), func(x *rwp.HWCState) { x.HWCText = g.text(false) }))
	}
	// graphics: every chunk boundary in reach
	lens := []int{1, 2, 3, 84, 85, 86, 168, 169, 170, 171, 172, 255, 256, 257, 339, 340, 341, 509, 510, 511, 512, 679, 680, 681, 1024, 1699, 1700, 1701, 1869, 1870, 1871, 2048}
	for k, n := range lens {
		for ty := 0; ty < 3; ty++ {
			add(st(g.ids()[:1], func(x *rwp.HWCState) {
				x.HWCGfx = g.gfx(n)
				x.HWCGfx.ImageType = rwp.HWCGfx_ImageTypeE(ty)
				if k%4 == 0 {
					x.HWCGfx.W, x.HWCGfx.H = 64, 32
				}
			}))
		}
	}
	for r := 0; r < scale(40, 400); r++ {
		add(st(g.ids(), func(x *rwp.HWCState) { x.HWCGfx = g.gfx(g.Intn(600) + 1) }))
	}
	// commands: each alone, every pair, larger subsets
	for k := 0; k < nCmds; k++ {
		for r := 0; r < scale(12, 60); r++ {
			c := &rwp.Command{}
			g.setCmd(c, k)
			add(one(&rwp.InboundMessage{Command: c}))
		}
		for h := 0; h < k; h++ {
			for r := 0; r < scale(1, 4); r++ {
				c := &rwp.Command{}
				g.setCmd(c, h)
				g.setCmd(c, k)
				add(one(&rwp.InboundMessage{Command: c}))
			}
		}
	}
	for k := 0; k < 400; k++ {
		add(one(&rwp.InboundMessage{Registers: []*rwp.Register{g.reg()}}))
	}
	// mixed messages and message lists
	for r := 0; r < scale(2500, 30000); r++ {
		n := pick(g, 0, 1, 1, 1, 2, 3, 6)
		if r%100 == 99 {
			n = pick(g, 12, 40)
		}
		var ms []*rwp.InboundMessage
		for i := 0; i < n; i++ {
			ms = append(ms, g.inMsg())
		}
		add(ms)
	}
	// very long texts
	for k, ps := range stringPaths((&rwp.InboundMessage{}).ProtoReflect().Descriptor()) {
		m := &rwp.InboundMessage{}
		t := g.longText(longs[k%len(longs)])
		if strings.HasSuffix(string(ps[1].(protoreflect.FieldDescriptor).FullName()), ".Register.Id") {
			t = strings.ToUpper(t)
		}
		setString(m.ProtoReflect(), ps, t)
		for _, s := range m.States {
			s.HWCIDs = []uint32{7}
		}
		add(one(m))
	}
	// very many messages, very many states in a message, very many components in a state
	for _, n := range many() {
		var ms []*rwp.InboundMessage
		m := &rwp.InboundMessage{}
		st := &rwp.HWCState{HWCMode: &rwp.HWCMode{State: 4}}
		for i := 0; i < n; i++ {
			s := g.state(1)
			s.HWCIDs = []uint32{uint32(1 + i%700)}
			st.HWCIDs = append(st.HWCIDs, uint32(i*3))
			m.States = append(m.States, s)
			x := &rwp.InboundMessage{States: []*rwp.HWCState{s}}
			if i%7 == 0 {
				x = g.inMsg()
			}
			ms = append(ms, x)
		}
		add(ms)
		if len(m.States) > scale(300, 1100) {
			m.States = m.States[:scale(300, 1100)]
		}
		add(one(m))
		add(one(&rwp.InboundMessage{States: []*rwp.HWCState{st}}))
	}
	// states of one message hitting the same component twice, and interleaved facets
	for r := 0; r < scale(600, 6000); r++ {
		m := &rwp.InboundMessage{}
		ids := [][]uint32{{1}, {2}, {1, 2}, {2, 1}, {1, 1}, {3}, {}}
		for i := 0; i < pick(g, 2, 3, 4); i++ {
			s := g.state(pick(g, 1, 2, 4))
			s.HWCIDs = ids[g.Intn(len(ids))]
			if len(s.HWCIDs) == 0 && g.pct(80) {
				s.HWCIDs = []uint32{1}
			}
			m.States = append(m.States, s)
		}
		add(one(m))
	}
	cases := make(arr, len(in))
	parallel(len(in), func(k int) { cases[k] = encInCase(in[k]) })
	saveCases(out("enc.json"), cases)

	// payloads over several lines
	var flat [][]*rwp.InboundMessage
	for r := 0; r < scale(300, 3000); r++ {
		m := &rwp.InboundMessage{Command: &rwp.Command{SetCalibrationProfile: &rwp.CalibrationProfile{Json: g.multiline()}}}
		if g.pct(20) {
			m.Command.WakeUp = true
		}
		flat = append(flat, one(m))
	}
	fc := make(arr, len(flat))
	parallel(len(flat), func(k int) { fc[k] = encInCase(flat[k]) })
	saveCases(out("enc-flat.json"), fc)
}

// multiline gives a payload spread over lines (LF or CRLF), with leading/trailing blanks on its lines.
func (g gen) multiline() string {
	n := 1 + g.Intn(6)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(strings.Repeat(pick(g, "", " ", "\t", "  "), g.Intn(3)))
		b.WriteString(pick(g, `{`, `}`, `"key": "value",`, `"a":[1,`, `2],`, ``, `x y`, `<path d="M 1 2`, `L 3 4"/>`, `plain`, `>`, `{"a":1}`, "end."))
		b.WriteString(pick(g, "", "", " ", "  "))
		if i < n-1 || g.pct(40) {
			b.WriteString(pick(g, "\n", "\n", "\r\n", "\n\n"))
		}
	}
	return b.String()
}

func decInCase(lines []string, stream bool) any {
	c := obj{"kind": "dec", "lines": lines, "stream": stream}
	var ms []*rwp.InboundMessage
	if p := guard(fmt.Sprintf("decode %q", lines), func() {
		if !stream {
			ms = helpers.RawPanelASCIIstringsToInboundMessages(append([]string{}, lines...))
		} else {
			var rd helpers.ASCIIreader
			for _, l := range lines {
				ms = append(ms, rd.Parse(l)...)
			}
		}
	}); p != "" {
		c["kind"], c["panic"] = "panic", p
		return c
	}
	c["msgs"] = trees(ms)
	scribbleAll(ms)
	return c
}

func asciiInDec() {
	g := gen{rand.New(rand.NewSource(*seed + 1000))}
	var in [][]string
	add := func(l ...string) { in = append(in, l) }
	for _, w := range inWords {
		add(w)
		for _, v := range inWords {
			add(w, v)
		}
	}
	for w := 0; w < 4096; w++ { // mode words in use (bits 4, 6 and 7 are reserved)
		if w&0xd0 == 0 {
			add(fmt.Sprintf("HWC#%s=%d", g.idList(), w))
		}
	}
	step := scale(11, 1)
	for w := 0; w < 65536; w++ {
		v := w & 4095
		if w%step == 0 || v < 2 || v > 4093 || v&(v-1) == 0 {
			add(fmt.Sprintf("HWCx#%s=%d", g.idList(), w))
		}
	}
	for w := 0; w < 256; w++ { // colours, with and without the readability bit; index colours use bits 0-4
		if w&64 == 0 && w&32 != 0 {
			continue
		}
		add(fmt.Sprintf("HWCc#%s=%d", g.idList(), w))
		f := []string{"4", "", "", "t"}
		for len(f) < 21 {
			f = append(f, "")
		}
		f[19+g.Intn(2)] = strconv.Itoa(w)
		add(fmt.Sprintf("HWCt#%s=%s", g.idList(), strings.Join(f, "|")))
	}
	// text lines: every single field, every field pair, every packed byte, truncation at every length
	vals := [][]string{{"", "0", "1", "-1", "32767", "-2147483648", "2147483647", "007"}, {"", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12"}, {"", "0", "1", "2", "3", "8", "16", "25", "56", "59"}, {"", "Title", " T", "0", "x=y:z,w"},
		{"", "0", "1"}, {"", "Text", "5"}, {"", "Text2", "0"}, {"", "0", "12", "-12"}, {"", "0", "1", "2", "3", "4"}, {"", "0", "1", "2", "3"}, {"", "0", "-100", "5"}, {"", "0", "100"}, {"", "0", "10"}, {"", "0", "90"}, {"", "0", "1"},
		{"", "0", "1", "7", "8", "56", "64", "127"}, {"", "0", "1", "4", "16", "64", "255"}, {"", "0", "1", "3", "4", "28", "31"}, {"", "0", "1"}, {"", "0", "5", "64", "127", "128", "192", "255"}, {"", "0", "18", "64", "106", "128", "192", "255"}}
	tl := func(fs map[int]string, n int) string {
		f := make([]string, n)
		for k, v := range fs {
			if k < n {
				f[k] = v
			}
		}
		return fmt.Sprintf("HWCt#%s=%s", g.idList(), strings.Join(f, "|"))
	}
	for a := 0; a < 21; a++ {
		for _, v := range vals[a] {
			add(tl(map[int]string{a: v}, a+1))
			add(tl(map[int]string{a: v}, 21))
		}
		for b := 0; b < a; b++ {
			for r := 0; r < scale(4, 20); r++ {
				add(tl(map[int]string{a: vals[a][g.Intn(len(vals[a]))], b: vals[b][g.Intn(len(vals[b]))]}, pick(g, a+1, 21, a+1+g.Intn(21-a))))
			}
		}
	}
	for w := 0; w < 256; w++ {
		if w < 64 {
			add(tl(map[int]string{0: "1", 2: strconv.Itoa(w &^ 4)}, 21))
		}
		if w < 128 {
			add(tl(map[int]string{0: "1", 15: strconv.Itoa(w)}, 21))
		}
		if w < 32 {
			add(tl(map[int]string{0: "1", 17: strconv.Itoa(w)}, 18+g.Intn(3)))
		}
		add(tl(map[int]string{0: "1", 16: strconv.Itoa(w)}, 17+g.Intn(4)))
	}
	full := "1|2|3|Title|1|Text|Text2|8|2|1|11|12|13|14|0|7|5|9|1|70|3"
	for n := 1; n <= 21; n++ {
		add("HWCt#" + g.idList() + "=" + strings.Join(strings.Split(full, "|")[:n], "|"))
	}
	for r := 0; r < scale(1500, 15000); r++ {
		add(g.textLine())
	}
	for _, k := range inNumKeys {
		for r := 0; r < 30; r++ {
			add(fmt.Sprintf("%s=%s", k, g.num(g.enumArg(k))))
		}
	}
	known := append(append(append([]string{}, inKeys...), inNumKeys...), inStrKeys...)
	for _, l := range append([]string{"HWC#1=4", "HWCx#1,2=4096", "HWCc#3=130", "HWCt#4=||||1|A", "HWCrawADCValues#5=1", "HWCg#6=0/0,8x1:AA==", "HWCgRGB#6=0/0,1x1:AAA=",
		"HWCgGray#6=0/0,2x1,3,4:AA==", "PanelBrightness=3", "PanelBrightness=3,4", `SetCalibrationProfile={"a":1}`, `SetNetworkConfig={"dhcp":true}`,
		"SimulateEnvironmentalHealth=Blocked", "MemA=1", "ShiftB=2", "State7=3", "Flag#8=1", "Mem=1"}, inWords...) {
		for _, m := range edgeMangles(l, known) {
			add(m)
		}
	}
	for _, k := range inNumKeys {
		for _, m := range edgeMangles(k+"=1", known) {
			add(m)
		}
	}
	for r := 0; r < scale(300, 3000); r++ {
		add(g.regLine())
		add(g.jsonStateLine())
		add(g.unknownIn())
		add(g.unknownIn(), g.unknownIn(), g.inLine())
	}
	for r := 0; r < scale(400, 4000); r++ {
		add(g.gfxLines()...)
	}
	// sequences, with graphics transfers interrupted by other lines
	for r := 0; r < scale(2000, 20000); r++ {
		var l []string
		n := pick(g, 1, 2, 3, 6, 12)
		if r%100 == 99 {
			n = pick(g, 30, 80)
		}
		for i := 0; i < n; i++ {
			if g.pct(20) {
				for _, x := range g.gfxLines() {
					for g.pct(30) {
						l = append(l, g.inLine())
					}
					l = append(l, x)
				}
			} else {
				l = append(l, g.inLine())
			}
		}
		add(l...)
	}
	for _, n := range longs {
		t := g.longText(n)
		add("HWCt#7=|||"+t, "HWC#7=4")
		add("HWCt#7,8=12|5||"+g.longText(n)+"|1|"+t+"|"+t+"|3", "HWC#7=4")
		add(`{"HWCIDs":[7],"HWCText":{"Title":"`+t+`","Textline1":"a"}}`, "HWC#7=4")
		add(`SetCalibrationProfile={"a":"`+t+`"}`, "HWC#7=4")
		add("Mem"+strings.ToUpper(g.longText(n))+"=5", "HWC#7=4")
	}
	for _, n := range many() {
		var l []string
		ids := "1"
		for i := 0; i < n; i++ {
			l = append(l, pick(g, g.inLine(), fmt.Sprintf("HWC#%d=%d", 1+i%3, i%16), fmt.Sprintf("HWCx#%d=%d", i, i%4096)))
			ids += fmt.Sprint(",", i)
		}
		add(l...)
		add("HWC#"+ids+"=4", "HWC#7=5")
	}
	cases := make(arr, len(in)*2)
	parallel(len(in), func(k int) {
		cases[2*k] = decInCase(in[k], false)
		cases[2*k+1] = decInCase(in[k], true)
	})
	saveCases(out("dec.json"), cases)
}
