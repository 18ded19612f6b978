package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

type gen struct{ *rand.Rand }

func (g gen) pct(p int) bool { return g.Intn(100) < p }
func pick[T any](g gen, xs ...T) T {
	return xs[g.Intn(len(xs))]
}

var u32s = []uint32{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 999, 1000, 4095, 4096, 65535, 65536, 1000000, 2147483647, 2147483648, 4294967295}
var i32s = []int32{0, 1, -1, 2, -2, 7, -7, 9, 10, -10, 99, 100, -100, 127, 128, 255, -256, 999, 1000, 1234, -1234, 65535, -65536, 1000000, 2147483647, -2147483648}

func (g gen) u32() uint32 {
	switch g.Intn(10) {
	case 0:
		return g.Uint32()
	case 1:
		return g.Uint32() >> g.Intn(32)
	case 2:
		return uint32(g.Intn(310))
	}
	return u32s[g.Intn(len(u32s))]
}
func (g gen) enum31() int32 { // enum codes beyond the defined ones are legal proto3 values
	if g.pct(80) {
		return int32(g.Intn(6))
	}
	return int32(g.Intn(1000))
}
func (g gen) i32() int32 {
	switch g.Intn(10) {
	case 0:
		return int32(g.Uint32())
	case 1:
		return int32(g.Uint32()) >> g.Intn(32)
	case 2:
		return int32(g.Intn(620) - 310)
	}
	return i32s[g.Intn(len(i32s))]
}
func (g gen) ids() []uint32 {
	n := pick(g, 1, 1, 1, 2, 2, 3, 5)
	if g.pct(3) {
		n = pick(g, 8, 17, 40)
	}
	var r []uint32
	for i := 0; i < n; i++ {
		if g.pct(12) {
			r = append(r, pick(g, uint32(1+g.Intn(300)), 1+g.Uint32()>>(1+g.Intn(30))))
			continue
		}
		r = append(r, pick(g, uint32(1), 2, 3, 4, 5, 9, 10, 11, 38, 99, 100, 255, 256, 1000, 65535, 65536, 2147483647, 2147483648, 4294967295))
	}
	return r
}

var words = []string{"", "A", "Iris", "Cam 1", " lead", "trail ", "  two  spaces  ", "a=b", "x:y;z", "1,2,3", "#5", "HWC#1=4", "ping", "{\"a\":1}", "[x]", "\"quoted\"", "back\\slash", "100%", "%d%s", "\xc3\xa6\xc3\xb8\xc3\xa5", "\xe2\x82\xac uro", "0", "7", "-1", "tab\there", "Very long title text which does not fit on a tile at all", "<svg>", "a/b", "!\"#$%&'()*+,-./", "ErrorMsg=x"}

func (g gen) word() string {
	if g.pct(15) {
		n := g.Intn(12)
		if g.pct(12) {
			n = pick(g, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300+g.Intn(400))
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(32 + g.Intn(95))
			if b[i] == '|' {
				b[i] = '~'
			}
		}
		return string(b)
	}
	return words[g.Intn(len(words))]
}

func (g gen) color(exact bool) (rgb *rwp.ColorRGB, idx *rwp.ColorIndex) {
	ch := func() uint32 {
		if exact || g.pct(50) {
			return uint32(g.Intn(4)) * 85
		}
		return uint32(g.Intn(256))
	}
	if g.pct(50) {
		return &rwp.ColorRGB{Red: ch(), Green: ch(), Blue: ch()}, nil
	}
	return nil, &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(pick(g, g.Intn(19), g.Intn(32)))}
}
func (g gen) mode() *rwp.HWCMode {
	return &rwp.HWCMode{State: rwp.HWCMode_StateE(g.Intn(6)), Output: g.pct(50), BlinkPattern: uint32(g.Intn(16))}
}

var interps = []int{0, 1, 3, 4, 5, 6, 7}

func (g gen) ext() *rwp.HWCExtended {
	return &rwp.HWCExtended{Interpretation: rwp.HWCExtended_InterpretationE(interps[g.Intn(len(interps))]), Value: uint32(pick(g, 0, 1, 500, 999, 1000, 1023, 1024, 2048, 4094, 4095, g.Intn(4096)))}
}

// one text field set at a time (f = 0..nTextFields-1)
const nTextFields = 27

func (g gen) setText(t *rwp.HWCText, f int, exact bool) {
	styl := func() *rwp.HWCText_TextStyle {
		if t.TextStyling == nil {
			t.TextStyling = &rwp.HWCText_TextStyle{}
		}
		return t.TextStyling
	}
	tf := func() *rwp.HWCText_TextStyle_Font {
		if styl().TextFont == nil {
			styl().TextFont = &rwp.HWCText_TextStyle_Font{}
		}
		return styl().TextFont
	}
	hf := func() *rwp.HWCText_TextStyle_Font {
		if styl().TitleFont == nil {
			styl().TitleFont = &rwp.HWCText_TextStyle_Font{}
		}
		return styl().TitleFont
	}
	switch f {
	case 0:
		t.IntegerValue = g.i32()
	case 1:
		t.Formatting = rwp.HWCText_FormattingE(g.Intn(13))
	case 2:
		t.StateIcon = rwp.HWCText_StateIconE(g.Intn(4))
	case 3:
		t.ModifierIcon = rwp.HWCText_ModifierIconE(g.Intn(8))
	case 4:
		t.Title = g.word()
	case 5:
		t.SolidHeaderBar = true
	case 6:
		t.Textline1 = g.word()
	case 7:
		t.Textline2 = g.word()
	case 8:
		t.IntegerValue2 = g.i32()
	case 9:
		t.PairMode = rwp.HWCText_PairModeE(g.Intn(5))
	case 10:
		t.Scale = &rwp.HWCText_ScaleM{ScaleType: rwp.HWCText_ScaleM_ScaleTypeE(g.Intn(4)), RangeLow: g.i32(), RangeHigh: g.i32(), LimitLow: g.i32(), LimitHigh: g.i32()}
	case 11:
		tf().FontFace = rwp.HWCText_TextStyle_Font_FontFaceE(g.Intn(8))
	case 12:
		tf().TextWidth = uint32(g.Intn(4))
	case 13:
		tf().TextHeight = uint32(g.Intn(4))
	case 14:
		hf().FontFace = rwp.HWCText_TextStyle_Font_FontFaceE(g.Intn(8))
	case 15:
		hf().TextWidth = uint32(g.Intn(4))
	case 16:
		hf().TextHeight = uint32(g.Intn(4))
	case 17:
		styl().FixedWidth = true
	case 18:
		styl().TitleBarPadding = uint32(g.Intn(4))
	case 19:
		styl().ExtraCharacterSpacing = uint32(g.Intn(8))
	case 20:
		styl().UnformattedFontSize = uint32(pick(g, 0, 1, 2, 3, 4, 9, 255))
	case 21:
		t.Inverted = true
	case 22, 23:
		rgb, idx := g.color(exact)
		t.PixelColor = &rwp.Color{ColorRGB: rgb, ColorIndex: idx}
	case 24, 25:
		rgb, idx := g.color(exact)
		t.BackgroundColor = &rwp.Color{ColorRGB: rgb, ColorIndex: idx}
	case 26:
		t.Formatting = pick(g, rwp.HWCText_FMT_ONELINE, rwp.HWCText_FMT_TWOLINES, rwp.HWCText_FMT_HIDE)
	}
	fixText(t)
}

// formats 10 and 11 carry their font size in the value field
func fixText(t *rwp.HWCText) {
	if (t.Formatting == 10 || t.Formatting == 11) && t.TextStyling == nil && t.ProtoReflect().IsValid() {
		t.TextStyling = &rwp.HWCText_TextStyle{}
	}
}

func (g gen) text(exact bool) *rwp.HWCText {
	t := &rwp.HWCText{}
	n := pick(g, 1, 2, 3, 4, 8, 16, 40)
	for i := 0; i < n; i++ {
		g.setText(t, g.Intn(nTextFields), exact)
	}
	return t
}

func (g gen) bytes(n int) []byte {
	b := make([]byte, n)
	g.Read(b)
	return b
}
func (g gen) gfx(sizes ...int) *rwp.HWCGfx {
	x := &rwp.HWCGfx{ImageType: rwp.HWCGfx_ImageTypeE(g.Intn(3)), W: g.u32(), H: g.u32(), ImageData: g.bytes(sizes[g.Intn(len(sizes))])}
	if g.pct(50) {
		x.XYoffset, x.X, x.Y = true, g.u32(), g.u32()
	}
	return x
}
func (g gen) proc() *rwp.Processors {
	p := &rwp.Processors{}
	switch g.Intn(6) {
	case 0:
		p.GfxConv = &rwp.ProcGfxConverter{ImageType: rwp.ProcGfxConverter_ImageTypeE(g.Intn(3)), W: uint32(g.Intn(300)), H: uint32(g.Intn(300)), ImageData: g.bytes(g.Intn(20)), Scaling: rwp.ProcGfxConverter_ScalingE(g.Intn(4)), Filters: g.word()}
	case 1:
		p.AudioMeter = &rwp.ProcAudioMeter{MeterType: rwp.ProcAudioMeter_MeterTypeE(g.Intn(3)), W: uint32(g.Intn(300)), H: uint32(g.Intn(300)), Title: g.word(), Mono: g.pct(50), RangeMapping: g.word(), Data1: g.u32(), Data2: g.u32(), Peak1: g.u32(), Peak2: g.u32()}
	case 2:
		p.TextToGraphics = &rwp.ProcTextToGraphics{W: uint32(g.Intn(300)), H: uint32(g.Intn(300)), Border: uint32(g.Intn(5)), Shrink: uint32(g.Intn(4))}
	case 3:
		p.StrengthMeter = &rwp.ProcStrength{W: uint32(g.Intn(300)), H: uint32(g.Intn(300)), Title: g.word(), ValueString: g.word(), Data1: g.u32()}
	case 4:
		p.Test = &rwp.ProcTest{W: uint32(g.Intn(300)), H: uint32(g.Intn(300))}
	case 5:
		p.UniText = &rwp.ProcUniText{W: uint32(g.Intn(300)), H: uint32(g.Intn(300)), Title: g.word(), Textline1: g.word(), Textline2: g.word(), SolidHeaderBar: g.pct(50)}
	}
	return p
}

const regChars = "ABCXYZ0189"

func (g gen) regID() string {
	n := pick(g, 0, 1, 1, 2, 3, 6)
	s := ""
	for i := 0; i < n; i++ {
		s += string(regChars[g.Intn(len(regChars))])
	}
	return s
}
func (g gen) reg() *rwp.Register {
	r := &rwp.Register{Reg: rwp.Register_RegisterE(g.Intn(4)), Id: g.regID(), Value: g.u32()}
	if r.Reg == rwp.Register_FLAG {
		r.Id = strconv.Itoa(pick(g, 0, 1, 2, 10, 64, 255, 1000))
		r.Value = uint32(g.Intn(2))
	}
	return r
}

func (g gen) state(facets int) *rwp.HWCState {
	s := &rwp.HWCState{HWCIDs: g.ids()}
	proc := g.pct(4)
	for i := 0; i < facets; i++ {
		switch g.Intn(6) {
		case 0:
			s.HWCMode = g.mode()
		case 1:
			rgb, idx := g.color(proc)
			s.HWCColor = &rwp.HWCColor{ColorRGB: rgb, ColorIndex: idx}
		case 2:
			s.HWCExtended = g.ext()
		case 3:
			if !proc {
				s.HWCText = g.text(false)
			}
		case 4:
			s.HWCGfx = g.gfx(1, 2, 3, 10, 169, 170, 171)
		case 5:
			s.PublishRawADCValues = &rwp.PublishRawADCValues{Enabled: g.pct(50)}
		}
	}
	if proc {
		s.Processors = g.proc()
	}
	return s
}

var jsonDocs = []string{`{"a":1}`, `[{"Test":{"Json":" TEST "}}]`, `x`, ``, `{"profile":"p = q","n":[1,2,3]}`, `  padded  `, `=`, `{"k":"v|w"}`, `a b  c`}

func (g gen) net() *rwp.NetworkConfig {
	n := &rwp.NetworkConfig{}
	if g.pct(50) {
		n.Dhcp = true
	}
	if g.pct(50) {
		n.Address = pick(g, "192.168.10.99", "10.0.0.1")
	}
	if g.pct(50) {
		n.Netmask = "255.255.255.0"
	}
	if g.pct(50) {
		n.Gateway = pick(g, "192.168.10.1", "weird \"gw\" \\ & <x>")
	}
	if g.pct(50) {
		n.FirstDns = "8.8.8.8"
	}
	if g.pct(50) {
		n.SecondDns = "1.1.1.1"
	}
	if g.pct(50) {
		n.NoDefaultRoute = true
	}
	return n
}

const nCmds = 28

func (g gen) setCmd(c *rwp.Command, k int) {
	switch k {
	case 0:
		c.ActivatePanel = true
	case 1:
		c.SendPanelInfo = true
	case 2:
		c.ReportHWCavailability = true
	case 3:
		c.SendPanelTopology = true
	case 4:
		c.SendBurninProfile = true
	case 5:
		c.SendCalibrationProfile = true
	case 6:
		c.SendNetworkConfig = true
	case 7:
		c.SendRegisters = true
	case 8:
		c.GetConnections = true
	case 9:
		c.GetRunTimeStats = true
	case 10:
		c.ClearAll = true
	case 11:
		c.ClearLEDs = true
	case 12:
		c.ClearDisplays = true
	case 13:
		c.GetSleepTimeout = true
	case 14:
		c.WakeUp = true
	case 15:
		c.Reboot = true
	case 16:
		c.PanelBrightness = &rwp.Brightness{LEDs: g.u32(), OLEDs: g.u32()}
	case 17:
		c.SetCalibrationProfile = &rwp.CalibrationProfile{Json: jsonDocs[g.Intn(len(jsonDocs))]}
	case 18:
		c.SetNetworkConfig = g.net()
	case 19:
		c.SimulateEnvironmentalHealth = &rwp.Environment{RunMode: rwp.Environment_RunModeE(g.Intn(3))}
	case 20:
		c.SetSleepTimeout = &rwp.SleepTimeout{Value: g.u32()}
	case 21:
		c.SetSleepMode = &rwp.SleepMode{Mode: rwp.SleepMode_SlpMode(g.enum31())}
	case 22:
		c.SetSleepScreenSaver = &rwp.SleepScreenSaver{Type: rwp.SleepScreenSaver_SlpScrSaver(g.enum31())}
	case 23:
		c.SetDimmedGain = &rwp.DimmedGain{Value: g.u32()}
	case 24:
		c.SetHeartBeatTimer = &rwp.HeartBeatTimer{Value: g.u32()}
	case 25:
		c.PublishSystemStat = &rwp.PublishSystemStat{PeriodSec: g.u32()}
	case 26:
		c.LoadCPU = &rwp.LoadCPU{Level: rwp.LoadCPU_LevelE(g.enum31())}
	case 27:
		if g.pct(50) {
			c.SetWebserverEnabled = &rwp.WebserverState{Enabled: g.pct(50)}
		} else {
			c.JSONconfig = &rwp.JSONconfig{Outbound: g.pct(50)}
		}
	}
}

func (g gen) inMsg() *rwp.InboundMessage {
	m := &rwp.InboundMessage{}
	if g.pct(25) {
		m.FlowMessage = rwp.InboundMessage_FlowMsg(g.Intn(4))
	}
	if g.pct(35) {
		m.Command = &rwp.Command{}
		n := pick(g, 0, 1, 1, 2, 3, 10)
		for i := 0; i < n; i++ {
			g.setCmd(m.Command, g.Intn(nCmds))
		}
	}
	if g.pct(60) {
		n := pick(g, 1, 1, 2, 3)
		if g.pct(2) {
			n = pick(g, 9, 20)
		}
		for i := 0; i < n; i++ {
			m.States = append(m.States, g.state(pick(g, 0, 1, 1, 2, 3, 6)))
		}
	}
	if g.pct(25) {
		n := pick(g, 1, 2, 4)
		for i := 0; i < n; i++ {
			m.Registers = append(m.Registers, g.reg())
		}
	}
	return m
}

// ---- lines ----

func (g gen) num(v uint32) string { // alternative spellings of a number
	s := strconv.FormatUint(uint64(v), 10)
	if g.pct(10) {
		s = strings.Repeat("0", 1+g.Intn(3)) + s
	}
	return s
}
func (g gen) idList() string {
	var p []string
	for _, id := range g.ids() {
		p = append(p, g.num(id))
	}
	return strings.Join(p, ",")
}

var inWords = []string{"ping", "ack", "nack", "ActivePanel=1", "list", "map", "PanelTopology?", "BurninProfile?", "CalibrationProfile?", "NetworkConfig?", "Registers?", "Connections?", "RunTimeStats?", "Clear", "ClearLEDs", "ClearDisplays", "SleepTimer?", "WakeUp!", "Reboot"}
var inNumKeys = []string{"HeartBeatTimer", "DimmedGain", "PublishSystemStat", "LoadCPU", "SleepTimer", "SleepMode", "SleepScreenSaver", "Webserver", "JSONonOutbound"}

func (g gen) enumArg(key string) uint32 {
	switch key {
	case "LoadCPU", "SleepMode", "SleepScreenSaver":
		return uint32(g.enum31())
	case "Webserver", "JSONonOutbound":
		return uint32(g.Intn(2))
	}
	return g.u32()
}

func (g gen) textLine() string {
	f := make([]string, 21)
	set := func(k int, v string) { f[k] = v }
	n := pick(g, 0, 1, 2, 3, 5, 10, 40)
	i32 := func() string { return strconv.Itoa(int(g.i32())) }
	for i := 0; i < n; i++ {
		switch k := g.Intn(23); k {
		case 0:
			set(0, pick(g, "", i32(), i32()))
		case 1:
			set(1, strconv.Itoa(g.Intn(13)))
		case 2:
			set(2, strconv.Itoa(g.Intn(4)|g.Intn(8)<<3))
		case 3:
			set(3, strings.ReplaceAll(g.word(), "|", "/"))
		case 4:
			set(4, pick(g, "", "0", "1"))
		case 5, 6:
			set(k, g.word())
		case 7:
			set(7, pick(g, "", "0", i32()))
		case 8:
			set(8, strconv.Itoa(g.Intn(5)))
		case 9, 10, 11, 12, 13:
			set(9, strconv.Itoa(g.Intn(4)))
			for j := 10; j <= 13; j++ {
				if g.pct(70) {
					set(j, i32())
				}
			}
		case 14: // field 14 has no meaning in 2.0
			set(14, pick(g, "", "0", "1"))
		case 15:
			set(15, strconv.Itoa(g.Intn(128)))
		case 16:
			set(16, strconv.Itoa(g.Intn(256)))
		case 17:
			set(17, strconv.Itoa(g.Intn(32)))
		case 18:
			set(18, pick(g, "", "0", "1"))
		case 19, 20:
			set(k, strconv.Itoa(pick(g, 0, g.Intn(32), 64+g.Intn(64), 128+g.Intn(32), 192+g.Intn(64))))
		case 21:
			set(1, pick(g, "10", "11"))
			set(0, pick(g, "", "0", "1", "2", "3", "4", "17"))
		case 22:
			set(1, "7")
		}
	}
	if f[1] == "10" || f[1] == "11" {
		if strings.HasPrefix(f[0], "-") || len(f[0]) > 3 {
			f[0] = "2"
		}
	}
	last := 20
	for last > 0 && f[last] == "" {
		last--
	}
	if g.pct(30) { // keep some empty trailing fields
		last += g.Intn(21 - last)
	}
	return fmt.Sprintf("HWCt#%s=%s", g.idList(), strings.Join(f[:last+1], "|"))
}

func (g gen) modeWord() uint32 { return uint32(g.Intn(6) | g.Intn(2)<<5 | g.Intn(16)<<8) }
func (g gen) extWord() uint32 {
	return uint32(interps[g.Intn(len(interps))]<<12 | pick(g, 0, 1, 500, 1000, 4095, g.Intn(4096)))
}

func (g gen) gfxLines() []string {
	kind := pick(g, "HWCg", "HWCgRGB", "HWCgGray")
	ids := g.idList()
	b64 := base64.StdEncoding.EncodeToString
	if g.pct(35) { // simple: three lines
		sizes := pick(g, []int{86, 85, 85}, []int{170, 86, 0}, []int{1, 2, 3}, []int{0, 1, 0})
		var r []string
		for i, n := range sizes {
			r = append(r, fmt.Sprintf("%s#%s=%d:%s", kind, ids, i, b64(g.bytes(n))))
		}
		return r
	}
	n := pick(g, 1, 1, 2, 3, 4, 11, 12)
	var r []string
	for i := 0; i < n; i++ {
		h := ""
		if i == 0 {
			h = fmt.Sprintf("/%d,%sx%s", n-1, g.num(g.u32()), g.num(g.u32()))
			if g.pct(50) {
				h += fmt.Sprintf(",%s,%s", g.num(g.u32()), g.num(g.u32()))
			}
		}
		r = append(r, fmt.Sprintf("%s#%s=%d%s:%s", kind, ids, i, h, b64(g.bytes(pick(g, 1, 2, 3, 4, 170)))))
	}
	return r
}

// non-graphics line; ok lines of the grammar with meaning
func (g gen) inLine() string {
	switch g.Intn(16) {
	case 0, 1:
		return inWords[g.Intn(len(inWords))]
	case 2:
		return fmt.Sprintf("HWC#%s=%s", g.idList(), g.num(g.modeWord()))
	case 3:
		return fmt.Sprintf("HWCx#%s=%s", g.idList(), g.num(g.extWord()))
	case 4:
		return fmt.Sprintf("HWCc#%s=%d", g.idList(), pick(g, g.Intn(32), 64+g.Intn(64), 128+g.Intn(32), 192+g.Intn(64)))
	case 5, 6, 7:
		return g.textLine()
	case 8:
		return fmt.Sprintf("HWCrawADCValues#%s=%d", g.idList(), g.Intn(2))
	case 9:
		k := inNumKeys[g.Intn(len(inNumKeys))]
		return fmt.Sprintf("%s=%s", k, g.num(g.enumArg(k)))
	case 10:
		if g.pct(50) {
			return fmt.Sprintf("PanelBrightness=%s", g.num(g.u32()))
		}
		return fmt.Sprintf("PanelBrightness=%s,%s", g.num(g.u32()), g.num(g.u32()))
	case 11:
		switch g.Intn(3) {
		case 0:
			return "SetCalibrationProfile=" + jsonDocs[g.Intn(len(jsonDocs))]
		case 1:
			b, _ := json.Marshal(g.net())
			return "SetNetworkConfig=" + string(b)
		default:
			return "SimulateEnvironmentalHealth=" + pick(g, "Normal", "Safemode", "Blocked", "Unknown", "")
		}
	case 12:
		return g.regLine()
	case 13:
		return g.jsonStateLine()
	case 14:
		return ""
	default:
		return g.unknownIn()
	}
}

func (g gen) regLine() string {
	k := pick(g, "Mem", "Shift", "State", "Flag#")
	if k == "Flag#" {
		return fmt.Sprintf("Flag#%s=%s", pick(g, "", "0", "1", "12", "007", "64"), g.num(pick(g, uint32(0), 1, 2, 234)))
	}
	return fmt.Sprintf("%s%s=%s", k, g.regID(), g.num(g.u32()))
}

// a JSON spelling of a state (or of a list of messages), members in random order, with white space and unknown members
func (g gen) jsonVal(v any) string {
	sp := func() string { return pick(g, "", "", "", " ", "\t", "  ") }
	switch x := v.(type) {
	case obj:
		keys := []string{}
		for k := range x {
			keys = append(keys, k)
		}
		// map order is random in Go; make it depend on the seed only
		sortStrings(keys)
		g.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		p := []string{}
		for _, k := range keys {
			p = append(p, sp()+jsonStr(g, k)+sp()+":"+sp()+g.jsonVal(x[k])+sp())
		}
		return "{" + strings.Join(p, ",") + "}"
	case arr:
		p := []string{}
		for _, e := range x {
			p = append(p, sp()+g.jsonVal(e)+sp())
		}
		return "[" + strings.Join(p, ",") + "]"
	case string: // number spelled out or a string, tagged
		return x
	case bool:
		return strconv.FormatBool(x)
	}
	panic("jsonVal")
}
func jsonStr(g gen, s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			b.WriteString(`\"`)
		case c == '\\':
			b.WriteString(`\\`)
		case c == '\t':
			b.WriteString(`\t`)
		case c == '/' && g.pct(30):
			b.WriteString(`\/`)
		case c > 32 && c < 127 && g.pct(3):
			fmt.Fprintf(&b, `\u%04x`, c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (g gen) jsonState() obj {
	s := g.state(pick(g, 1, 2, 3))
	if s.HWCGfx != nil && len(s.HWCGfx.ImageData) > 20 {
		s.HWCGfx.ImageData = s.HWCGfx.ImageData[:20]
	}
	return jsonOf(g, s).(obj)
}
func (g gen) jsonStateLine() string {
	if g.pct(75) {
		o := g.jsonState()
		if g.pct(20) {
			o[pick(g, "Foo", "HWCModeX", "comment")] = pick[any](g, "1", jsonStr(g, "x"), arr{"1", "2"}, obj{"State": "4"})
		}
		return g.jsonVal(o)
	}
	var ms arr
	for i := 0; i < pick(g, 0, 1, 2, 3); i++ {
		m := g.inMsg()
		for _, s := range m.States {
			if s.HWCGfx != nil {
				s.HWCGfx.ImageData = s.HWCGfx.ImageData[:1]
			}
		}
		ms = append(ms, jsonOf(g, m))
	}
	return g.jsonVal(ms)
}

var outOnly = []string{"_model=X", "_serial=1", "map=5:6", "HWCy#5=1", "_isSleeping=1", "ErrorMsg=x", "Msg=hello", "BSY", "RDY", "SysStat=CPUUsage:4:", "_support=ASCII"}

func mutate(g gen, w string) string {
	if len(w) == 0 {
		return "x"
	}
	k := g.Intn(len(w))
	switch g.Intn(5) {
	case 0:
		return w[:k] + w[k+1:]
	case 1:
		return w[:k] + string(w[k]) + w[k:]
	case 2:
		return w[:k] + string(rune('a'+g.Intn(26))) + w[k:]
	case 3:
		if w[k] >= 'a' && w[k] <= 'z' {
			return w[:k] + string(w[k]-32) + w[k+1:]
		} else if w[k] >= 'A' && w[k] <= 'Z' {
			return w[:k] + string(w[k]+32) + w[k+1:]
		}
		return w + "z"
	default:
		return w[:k] + string(rune('a'+g.Intn(26))) + w[k+1:]
	}
}

var inKeys = []string{"HWC#", "HWCx#", "HWCc#", "HWCt#", "HWCrawADCValues#", "HWCg#", "HWCgRGB#", "HWCgGray#"}
var inStrKeys = []string{"SetCalibrationProfile", "SetNetworkConfig", "SimulateEnvironmentalHealth", "PanelBrightness", "Mem", "Shift", "State", "Flag#"}

// a line whose keyword is not part of the grammar (the spec decides; some mutations land on other keywords)
func (g gen) unknownIn() string {
	num := strconv.Itoa(g.Intn(6))
	switch g.Intn(8) {
	case 0:
		for {
			w := mutate(g, inWords[g.Intn(len(inWords))])
			if w[0] != '{' && w[0] != '[' {
				return w
			}
		}
	case 1:
		k := inKeys[g.Intn(len(inKeys))]
		kw := strings.TrimSuffix(k, "#")
		return mutKey(g, kw, inKeys, "#") + "#" + strconv.Itoa(1+g.Intn(50)) + "=" + num
	case 2, 3:
		return mutKey(g, inNumKeys[g.Intn(len(inNumKeys))], inNumKeys, "") + "=" + num
	case 4:
		k := mutKey(g, inStrKeys[g.Intn(len(inStrKeys))], inStrKeys, "")
		return k + "=" + num
	case 5:
		return outOnly[g.Intn(len(outOnly))]
	case 6:
		return pick(g, "Hello", "x=1", "=", "=5", "#=1", "HWC#", "HWC=5", "Clear ", " Clear", "list?", "ActivePanel=0x", "Shift#3=1", "memA=1", "Memx=3", "Flag3=1", "FlagA=1", "Shiftz=1", "State-1=1", "\xff\xfe", "SleepTimer", "HeartBeatTimer=", "HeartBeatTimer=x")
	default:
		return g.word0()
	}
}
func (g gen) word0() string {
	for {
		w := g.word()
		if w == "" || (w[0] != '{' && w[0] != '[') {
			return w
		}
	}
}

// well-formed lines turned into lines of another keyword: something before or after the keyword, other case, an end missing.
// known: keywords (with # if they have ids) that have a meaning of their own
func edgeMangles(line string, known []string) (out []string) {
	k := strings.IndexAny(line, "#=")
	if k < 0 {
		k = len(line)
	}
	kw, rest := line[:k], line[k:]
	cands := []string{strings.ToUpper(kw), strings.ToLower(kw)}
	for _, p := range []string{"x", "X", "_", "7", "Max", " ", "#", "-", "."} {
		cands = append(cands, p+kw, kw+p)
	}
	for n := 1; n <= 2 && n < len(kw); n++ {
		cands = append(cands, kw[n:], kw[:len(kw)-n])
	}
	cands = append(cands, kw+kw, kw+" "+kw)
	for _, c := range cands {
		bad := c == kw || c == ""
		for _, a := range known {
			if a == c || strings.TrimSuffix(a, "#") == c {
				bad = true
			}
		}
		if !bad {
			out = append(out, c+rest)
		}
	}
	return
}

// mutated keyword that is no keyword of the list
func mutKey(g gen, k string, all []string, suffix string) string {
	for {
		m := mutate(g, k)
		ok := m != "" && m[0] != '{' && m[0] != '['
		for _, a := range all {
			if m+suffix == a {
				ok = false
			}
		}
		if ok && !strings.HasPrefix(m, "Mem") && !strings.HasPrefix(m, "Shift") && !strings.HasPrefix(m, "State") && !strings.HasPrefix(m, "Flag#") {
			return m
		}
	}
}
