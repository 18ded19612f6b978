package main

import (
	"fmt"
	"math"
	"math/rand"

	helpers "github.com/SKAARHOJ/rawpanel-lib"
	monogfx "github.com/SKAARHOJ/rawpanel-lib/ibeam_lib_monogfx"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() { cmds["tiles"] = tiles }

type geometry struct{ w, h, shrink, border int }

// the visible pixels that are on, or off
func visible(m *monogfx.MonoImg, on bool) arr {
	a := arr{}
	b := m.GetImgSlice()
	wib := (m.Width + 7) / 8
	for y := 0; y < m.Height; y++ {
		for x := 0; x < m.Width; x++ {
			if i := y*wib + x/8; i < len(b) && (b[i]&(0x80>>(x%8)) != 0) == on {
				a = append(a, y*65536+x)
			}
		}
	}
	return a
}

// distinct colours of the RGB export where a pixel is on and where it is off
func exportColours(m *monogfx.MonoImg) (n int, on, off arr) {
	rgb := m.GetImgSliceRGB()
	b := m.GetImgSlice()
	wib := (m.Width + 7) / 8
	seen := [2]map[int]bool{{}, {}}
	res := [2]arr{{}, {}}
	for p := 0; 2*p+1 < len(rgb) && m.Width > 0; p++ {
		v := int(rgb[2*p])<<8 | int(rgb[2*p+1])
		x, y, k := p%m.Width, p/m.Width, 0
		if i := y*wib + x/8; i < len(b) && b[i]&(0x80>>(x%8)) != 0 {
			k = 1
		}
		if !seen[k][v] {
			seen[k][v] = true
			res[k] = append(res[k], v)
		}
	}
	return len(rgb), res[1], res[0]
}

func colourTree(c *rwp.Color) any {
	switch {
	case c == nil:
		return obj{"kind": "none"}
	case c.ColorRGB != nil:
		clip := func(v uint32) int {
			if v > 255 {
				return 255
			}
			return int(v)
		}
		return obj{"kind": "rgb", "r": clip(c.ColorRGB.Red), "g": clip(c.ColorRGB.Green), "b": clip(c.ColorRGB.Blue)}
	case c.ColorIndex != nil:
		return obj{"kind": "index", "i": int(c.ColorIndex.Index & 0x1f)}
	}
	return obj{"kind": "empty"}
}

func wireHex(m proto.Message) string {
	b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	return fmt.Sprintf("%x", b)
}

// the metrics the library reports for a text of this state
func (g geometry) metrics(t *rwp.HWCText, s string) (int, int) {
	m := monogfx.MonoImg{}
	m.NewImage(g.w, g.h)
	st := t.GetTextStyling()
	m.SetFont(int(st.GetTextFont().GetFontFace()&7), !st.GetFixedWidth())
	m.SetCharSpacingCompensation(byte(st.GetExtraCharacterSpacing() & 3))
	size := int(st.GetUnformattedFontSize())
	if size < 1 {
		size = 1
	}
	if size > 4 {
		size = 4
	}
	hh, v := size, size
	if f := int(st.GetTextFont().GetTextWidth() & 3); f > 0 {
		hh = f
	}
	if f := int(st.GetTextFont().GetTextHeight() & 3); f > 0 {
		v = f
	}
	m.SetTextSize(hh, v)
	return m.StrWidth(s), int(m.LineHeight())
}

// upper bounds for the metrics of the lines in the default layout, which picks font and size itself
func (g geometry) defaultMetrics(t *rwp.HWCText, s string) (w int, lh int) {
	m := monogfx.MonoImg{}
	m.NewImage(g.w, g.h)
	st := t.GetTextStyling()
	m.SetCharSpacingCompensation(byte(st.GetExtraCharacterSpacing() & 3))
	hh, v := 2, 2
	if f := int(st.GetTextFont().GetTextWidth() & 3); f > 0 {
		hh = f
	}
	if f := int(st.GetTextFont().GetTextHeight() & 3); f > 0 {
		v = f
	}
	m.SetTextSize(hh, max(v, hh))
	for _, f := range []int{int(st.GetTextFont().GetFontFace() & 7), 2} {
		m.SetFont(f, !st.GetFixedWidth())
		w, lh = max(w, m.StrWidth(s)), max(lh, int(m.LineHeight()))
	}
	return w, lh + 6
}

func tileCase(t *rwp.HWCText, ge geometry, plainText bool) any {
	c := obj{"kind": "tile", "w": ge.w, "h": ge.h, "shrink": ge.shrink, "border": ge.border, "format": int(t.Formatting),
		"fixed": t.GetTextStyling().GetFixedWidth(), "pix": colourTree(t.PixelColor), "bck": colourTree(t.BackgroundColor)}
	p := guard(fmt.Sprintf("tile %+v %v", ge, t), func() {
		var objs []protoreflect.Message
		defer release(&objs)
		t := refill(t.ProtoReflect(), &objs).Interface().(*rwp.HWCText)
		t.Inverted = false
		before := wireHex(t)
		img := helpers.WriteDisplayTileNew(t, ge.w, ge.h, ge.shrink, ge.border)
		c["before"], c["after"] = before, wireHex(t)
		n, on, off := exportColours(&img)
		c["img"] = obj{"w": img.Width, "h": img.Height, "len": len(img.GetImgSlice()), "lit": visible(&img, true), "rgbLen": n, "onColours": on, "offColours": off}
		scribbleImg(&img)
		again := helpers.WriteDisplayTileNew(proto.Clone(t).(*rwp.HWCText), ge.w, ge.h, ge.shrink, ge.border)
		c["again"] = obj{"w": again.Width, "h": again.Height, "lit": visible(&again, true)}
		scribbleImg(&again)
		ti := refill(t.ProtoReflect(), &objs).Interface().(*rwp.HWCText)
		ti.Inverted = true
		before = wireHex(ti)
		inv := helpers.WriteDisplayTileNew(ti, ge.w, ge.h, ge.shrink, ge.border)
		c["invBefore"], c["invAfter"] = before, wireHex(ti)
		n, on, off = exportColours(&inv)
		c["inv"] = obj{"w": inv.Width, "h": inv.Height, "len": len(inv.GetImgSlice()), "dark": visible(&inv, false), "rgbLen": n, "onColours": on, "offColours": off}
		scribbleImg(&inv)
		// one- and two-line texts made of visible glyphs at both ends
		lines := arr{}
		if plainText {
			var ss []string
			switch t.Formatting {
			case rwp.HWCText_FMT_ONELINE:
				ss = []string{t.Title}
			case rwp.HWCText_FMT_TWOLINES:
				ss = []string{t.Textline1, t.Textline2}
			case rwp.HWCText_FMT_HIDE:
				if t.Title == "" && t.StateIcon == 0 && t.ModifierIcon == 0 && t.GetScale().GetScaleType() == 0 && (t.PairMode == 0 || t.PairMode == 1) {
					if ss = []string{t.Textline1}; t.PairMode == 1 {
						ss = append(ss, t.Textline2)
					}
				}
			}
			for _, s := range ss {
				w, lh := ge.metrics(t, s)
				if t.Formatting == rwp.HWCText_FMT_HIDE {
					w, lh = ge.defaultMetrics(t, s)
				}
				lines = append(lines, obj{"n": len(s), "width": w, "lh": lh})
			}
		}
		c["lines"] = lines
	})
	if p != "" {
		c["kind"], c["panic"] = "panic", p
	}
	return c
}

// the same state with growing values
func barCase(t *rwp.HWCText, ge geometry, values []int32) any {
	c := obj{"kind": "bar", "w": ge.w, "h": ge.h, "shrink": ge.shrink, "border": ge.border, "type": int(t.GetScale().GetScaleType())}
	imgs := arr{}
	p := guard(fmt.Sprintf("bar %+v %v %v", ge, t, values), func() {
		for _, v := range values {
			t := proto.Clone(t).(*rwp.HWCText)
			t.IntegerValue = v
			m := helpers.WriteDisplayTileNew(t, ge.w, ge.h, ge.shrink, ge.border)
			imgs = append(imgs, visible(&m, true))
			scribbleImg(&m)
		}
	})
	c["imgs"] = imgs
	if p != "" {
		c["kind"], c["panic"] = "panic", p
	}
	return c
}

// scribbleImg: the caller of the renderer does what it likes with the image
func scribbleImg(m *monogfx.MonoImg) {
	for i := range m.GetImgSlice() {
		m.GetImgSlice()[i] ^= 0xa5
	}
	m.SetTextSize(3, 2)
	m.SetCharSpacingCompensation(3)
	m.SetTextWrap(false)
	m.SetFont(2, false)
}

func (g gen) geometry() geometry {
	d := pick(g, [2]int{64, 32}, [2]int{64, 38}, [2]int{48, 24}, [2]int{52, 24}, [2]int{112, 32}, [2]int{128, 32}, [2]int{96, 64}, [2]int{256, 20}, [2]int{64, 48}, [2]int{32, 32})
	ge := geometry{d[0], d[1], 0, 0}
	switch g.Intn(10) {
	case 0, 1:
		ge.w, ge.h = g.Intn(30), g.Intn(30)
	case 2, 3, 4:
		ge.w, ge.h = g.Intn(130), g.Intn(66)
	case 5:
		ge.w, ge.h = pick(g, 0, 1, 7, 8, 9, 255, 256, 257), pick(g, 0, 1, 7, 8, 9, 31, 32, 47, 48)
	}
	if g.pct(50) {
		ge.shrink = g.Intn(4)
	}
	if g.pct(40) {
		ge.border = pick(g, 1, 1, 2, 3, g.Intn(9), g.Intn(40))
	}
	return ge
}

func (g gen) value() int32 {
	return pick(g, 0, 1, -1, int32(g.Intn(2000)-1000), int32(g.Intn(200)), math.MaxInt32, math.MinInt32, int32(g.Uint32()), 1000)
}
func (g gen) glyphs(n int) string {
	b := make([]byte, n)
	for k := range b {
		b[k] = byte(33 + g.Intn(94))
		if k > 0 && k < n-1 && g.pct(15) {
			b[k] = ' '
		}
		if k == 0 || k == n-1 { // ends in glyphs that surely show
			b[k] = pick(g, byte('A'+g.Intn(26)), byte('a'+g.Intn(26)), byte('0'+g.Intn(10)))
		}
	}
	return string(b)
}
func (g gen) tileText() string {
	switch g.Intn(6) {
	case 0:
		return ""
	case 1:
		return string(g.text8())
	case 2:
		return pick(g, "Æøå", "日本", "Gain\nmore", "\t", "1/", "A very long label that fits no tile at all, in any font")
	}
	return g.glyphs(1 + g.Intn(10))
}
func (g gen) tileColour() *rwp.Color {
	switch g.Intn(4) {
	case 0:
		return nil
	case 1:
		v := func() uint32 { return uint32(pick(g, 0, 255, 84, 85, 86, 169, 170, 171, 254, g.Intn(256))) }
		c := &rwp.Color{ColorRGB: &rwp.ColorRGB{Red: v(), Green: v(), Blue: v()}}
		if g.pct(10) {
			c.ColorIndex = &rwp.ColorIndex{Index: 3}
		}
		return c
	case 2:
		if g.pct(10) {
			return &rwp.Color{}
		}
	}
	return &rwp.Color{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(g.Intn(19))}}
}
func (g gen) font() *rwp.HWCText_TextStyle_Font {
	if g.pct(35) {
		return nil
	}
	return &rwp.HWCText_TextStyle_Font{FontFace: rwp.HWCText_TextStyle_Font_FontFaceE(g.Intn(3)), TextWidth: uint32(pick(g, 0, 0, 1, 2, 3)), TextHeight: uint32(pick(g, 0, 0, 1, 2, 3))}
}
func (g gen) styling() *rwp.HWCText_TextStyle {
	if g.pct(25) {
		return nil
	}
	return &rwp.HWCText_TextStyle{TitleFont: g.font(), TextFont: g.font(), FixedWidth: g.pct(20), TitleBarPadding: uint32(g.Intn(4)),
		ExtraCharacterSpacing: uint32(pick(g, 0, 0, 1, 2, 3)), UnformattedFontSize: uint32(g.Intn(5))}
}
func (g gen) scaleM() *rwp.HWCText_ScaleM {
	s := &rwp.HWCText_ScaleM{ScaleType: rwp.HWCText_ScaleM_ScaleTypeE(g.Intn(4)), RangeLow: g.value(), RangeHigh: g.value(), LimitLow: g.value(), LimitHigh: g.value()}
	if g.pct(50) {
		s.RangeLow, s.RangeHigh = 0, 1000
		s.LimitLow, s.LimitHigh = int32(g.Intn(500)), 500+int32(g.Intn(600))
	}
	return s
}
func (g gen) tileState() *rwp.HWCText {
	t := &rwp.HWCText{IntegerValue: g.value(), Formatting: rwp.HWCText_FormattingE(g.Intn(13)), StateIcon: rwp.HWCText_StateIconE(g.Intn(4)),
		ModifierIcon: rwp.HWCText_ModifierIconE(g.Intn(8)), Title: g.tileText(), SolidHeaderBar: g.pct(50), Textline1: g.tileText(), Textline2: g.tileText(),
		IntegerValue2: g.value(), PairMode: rwp.HWCText_PairModeE(g.Intn(5)), TextStyling: g.styling(), PixelColor: g.tileColour(), BackgroundColor: g.tileColour()}
	if g.pct(50) {
		t.StateIcon, t.ModifierIcon = 0, 0
	}
	if g.pct(60) {
		t.Scale = g.scaleM()
	}
	if g.pct(40) {
		t.PairMode = 0
	}
	return t
}

func tiles() {
	g := gen{rand.New(rand.NewSource(*seed))}
	var jobs []func() any
	tile := func(t *rwp.HWCText, ge geometry, plain bool) {
		jobs = append(jobs, func() any { return tileCase(t, ge, plain) })
	}
	std := geometry{64, 32, 0, 0}
	// every value of every enumeration, colour and geometry parameter alone
	for k := 0; k < 13; k++ {
		for _, ge := range []geometry{std, {48, 24, 3, 0}, {96, 64, 0, 2}, {256, 20, 0, 0}} {
			tile(&rwp.HWCText{Formatting: rwp.HWCText_FormattingE(k), IntegerValue: -1234, Title: "Title", Textline1: "Upper", Textline2: "Low", IntegerValue2: 42}, ge, true)
			tile(&rwp.HWCText{Formatting: rwp.HWCText_FormattingE(k), IntegerValue: 7, PairMode: rwp.HWCText_PairModeE(k % 5)}, ge, true)
		}
	}
	for k := 0; k < 32; k++ {
		c := &rwp.Color{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(k)}}
		tile(&rwp.HWCText{Title: "A", PixelColor: c}, geometry{24, 10, 0, 0}, false)
		tile(&rwp.HWCText{Title: "A", BackgroundColor: c}, geometry{24, 10, 0, 0}, false)
	}
	for v := 0; v < 256; v++ {
		tile(&rwp.HWCText{Title: "A", PixelColor: &rwp.Color{ColorRGB: &rwp.ColorRGB{Red: uint32(v), Green: uint32(255 - v), Blue: uint32(v * 7 % 256)}},
			BackgroundColor: &rwp.Color{ColorRGB: &rwp.ColorRGB{Red: uint32(v * 3 % 256), Green: uint32(v * 5 % 256), Blue: uint32(v)}}}, geometry{12, 9, 0, 0}, false)
	}
	for icon := 0; icon < 8; icon++ {
		for _, ge := range []geometry{std, {64, 32, 0, 3}, {6, 12, 0, 0}, {20, 20, 3, 1}, {9, 40, 0, 2}} {
			tile(&rwp.HWCText{ModifierIcon: rwp.HWCText_ModifierIconE(icon), StateIcon: rwp.HWCText_StateIconE(icon % 4), Title: pick(g, "", "T"), SolidHeaderBar: icon%2 == 0}, ge, false)
		}
	}
	for w := 0; w < 24; w++ {
		for h := 0; h < 24; h++ {
			t := g.tileState()
			tile(t, geometry{w, h, g.Intn(4), pick(g, 0, 0, 1, 2, 3)}, false)
		}
	}
	for k := 0; k < scale(2500, 40000); k++ {
		tile(g.tileState(), g.geometry(), false)
	}
	// texts to be centred
	for k := 0; k < scale(1500, 20000); k++ {
		t := &rwp.HWCText{TextStyling: g.styling(), PixelColor: g.tileColour()}
		if t.TextStyling != nil {
			t.TextStyling.FixedWidth = false
		}
		if g.pct(30) {
			t.Formatting, t.Textline1, t.PairMode = rwp.HWCText_FMT_HIDE, g.glyphs(1+g.Intn(9)), rwp.HWCText_PairModeE(g.Intn(2))
			if t.PairMode == 1 {
				t.Textline2 = g.glyphs(g.Intn(9))
			}
			if g.pct(20) {
				t.IntegerValue, t.IntegerValue2 = g.value(), g.value()
			}
		} else if g.pct(50) {
			t.Formatting, t.Title = rwp.HWCText_FMT_ONELINE, g.glyphs(1+g.Intn(9))
		} else {
			t.Formatting, t.Textline1, t.Textline2 = rwp.HWCText_FMT_TWOLINES, g.glyphs(1+g.Intn(9)), g.glyphs(g.Intn(9))
		}
		ge := g.geometry()
		if g.pct(50) {
			ge.w, ge.h = 100+g.Intn(100), 40+g.Intn(30)
		}
		tile(t, ge, true)
	}
	// large tiles, long texts
	for k := 0; k < scale(40, 500); k++ {
		d := pick(g, [2]int{1700, 40}, [2]int{3400, 30}, [2]int{512, 300}, [2]int{40, 700}, [2]int{260, 260}, [2]int{1024, 16})
		ge := geometry{d[0] + g.Intn(9), d[1] + g.Intn(9), g.Intn(4), pick(g, 0, 0, 1, 3, 20)}
		if k%3 == 0 {
			t := g.tileState()
			t.Title, t.Textline1 = pick(g, "", g.glyphs(200+g.Intn(200))), pick(g, "", g.glyphs(200+g.Intn(200)))
			tile(t, ge, false)
			continue
		}
		t := &rwp.HWCText{Title: g.glyphs(pick(g, 9, 100, 254, 256, 258, 270, 300)), Textline1: g.glyphs(pick(g, 9, 254, 256, 258, 270, 300)), Textline2: g.glyphs(pick(g, 0, 100, 256, 258, 270, 300)), PairMode: rwp.HWCText_PairModeE(g.Intn(2))}
		t.Formatting = pick(g, rwp.HWCText_FMT_ONELINE, rwp.HWCText_FMT_TWOLINES, rwp.HWCText_FMT_TWOLINES, rwp.HWCText_FMT_HIDE)
		if t.Formatting == rwp.HWCText_FMT_HIDE {
			t.Title = ""
		}
		if g.pct(50) {
			t.TextStyling = &rwp.HWCText_TextStyle{TextFont: g.font(), UnformattedFontSize: uint32(g.Intn(3))}
		}
		tile(t, ge, true)
	}
	// growing values
	for k := 0; k < scale(500, 6000); k++ {
		t := &rwp.HWCText{Formatting: rwp.HWCText_FMT_HIDE, Title: pick(g, "", "Bar"), Scale: g.scaleM(), PairMode: rwp.HWCText_PairModeE(g.Intn(5)), TextStyling: g.styling()}
		s := t.Scale
		s.ScaleType = 1
		if s.RangeLow >= s.RangeHigh {
			s.RangeLow, s.RangeHigh = s.RangeHigh, s.RangeLow
		}
		if s.RangeLow == s.RangeHigh {
			continue
		}
		var vs []int32
		lo, span := int64(s.RangeLow), int64(s.RangeHigh)-int64(s.RangeLow)
		for n := int64(-1); n <= 11; n++ {
			v := lo + span*n/10 + int64(g.Intn(3)) - 1
			if v > math.MaxInt32 {
				v = math.MaxInt32
			}
			if v < math.MinInt32 {
				v = math.MinInt32
			}
			if len(vs) == 0 || int64(vs[len(vs)-1]) < v {
				vs = append(vs, int32(v))
			}
		}
		ge := g.geometry()
		jobs = append(jobs, func() any { return barCase(t, ge, vs) })
	}
	cases := make(arr, len(jobs))
	parallel(len(jobs), func(k int) { cases[k] = jobs[k]() })
	saveCases(out("tiles.json"), cases)
}
