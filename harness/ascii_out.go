package main

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	helpers "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() {
	cmds["ascii-out-enc"] = asciiOutEnc
	cmds["ascii-out-dec"] = asciiOutDec
}

func encOutCase(ms []*rwp.OutboundMessage) any {
	c := obj{"kind": "enc", "msgs": trees(ms)}
	var lines []string
	var counts []int
	if p := guard(fmt.Sprint("OutboundMessagesToRawPanelASCIIstrings ", ms), func() {
		onUsed(ms, func(l []*rwp.OutboundMessage) { lines = helpers.OutboundMessagesToRawPanelASCIIstrings(l) })
		for _, m := range ms {
			counts = append(counts, len(helpers.OutboundMessagesToRawPanelASCIIstrings(cloneAll([]*rwp.OutboundMessage{m}))))
		}
	}); p != "" {
		c["kind"], c["panic"] = "panic", p
		return c
	}
	c["lines"], c["counts"] = lines, counts
	return c
}

var longs = []int{4200, 9000, 66000}

// longText gives letters without any repetition that something could hide in.
func (g gen) longText(n int) string {
	b := make([]byte, n)
	for k := range b {
		b[k] = byte('a' + g.Intn(26))
	}
	return string(b)
}

// sizes beyond what any buffer or counter may have been made for
func many() []int {
	if *thorough {
		return []int{300, 1100, 2600, 4200}
	}
	return []int{300, 1100}
}

func oneOut(m *rwp.OutboundMessage) []*rwp.OutboundMessage { return []*rwp.OutboundMessage{m} }

func asciiOutEnc() {
	g := gen{rand.New(rand.NewSource(*seed))}
	var in [][]*rwp.OutboundMessage
	add := func(ms ...*rwp.OutboundMessage) { in = append(in, ms) }
	ev := func(e *rwp.HWCEvent) {
		e.HWCID = g.ids()[0]
		add(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{e}})
	}
	for _, e := range []int32{0, 1, 2, 3, 4, 5, 8, 15, 16, 31} {
		for r := 0; r < 3; r++ {
			ev(&rwp.HWCEvent{Binary: &rwp.BinaryEvent{Pressed: true, Edge: rwp.BinaryEvent_EdgeID(e)}})
			ev(&rwp.HWCEvent{Binary: &rwp.BinaryEvent{Edge: rwp.BinaryEvent_EdgeID(e)}})
		}
	}
	for v := -1100; v <= 1100; v++ {
		if v > -20 && v < 20 || v%scale(17, 1) == 0 {
			ev(&rwp.HWCEvent{Pulsed: &rwp.PulsedEvent{Value: int32(v)}})
			ev(&rwp.HWCEvent{Speed: &rwp.SpeedEvent{Value: int32(v)}})
			if v >= 0 {
				ev(&rwp.HWCEvent{Absolute: &rwp.AbsoluteEvent{Value: uint32(v)}})
				ev(&rwp.HWCEvent{RawAnalog: &rwp.RawAnalogEvent{Value: uint32(v)}})
			}
		}
	}
	for _, v := range i32s {
		ev(&rwp.HWCEvent{Pulsed: &rwp.PulsedEvent{Value: v}})
		ev(&rwp.HWCEvent{Speed: &rwp.SpeedEvent{Value: v}})
	}
	for _, v := range u32s {
		ev(&rwp.HWCEvent{Absolute: &rwp.AbsoluteEvent{Value: v}})
		ev(&rwp.HWCEvent{RawAnalog: &rwp.RawAnalogEvent{Value: v}})
		add(&rwp.OutboundMessage{HWCavailability: map[uint32]uint32{v: 1, 7: v}})
	}
	// every capability subset (by step in the quick tier), every single capability
	for b := 0; b < 1<<13; b++ {
		if b%scale(5, 1) == 0 || b&(b-1) == 0 {
			add(&rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{RawPanelSupport: support(b)}})
		}
	}
	// every pair of message members, every pair of identity members
	for k := 0; k < nOut; k++ {
		for r := 0; r < scale(25, 100); r++ {
			m := &rwp.OutboundMessage{}
			g.setOut(m, k)
			add(m)
		}
		for h := 0; h < k; h++ {
			for r := 0; r < scale(3, 10); r++ {
				m := &rwp.OutboundMessage{}
				g.setOut(m, h)
				g.setOut(m, k)
				add(m)
			}
		}
	}
	for k := 0; k < nInfo; k++ {
		for h := 0; h <= k; h++ {
			for r := 0; r < scale(5, 20); r++ {
				p := &rwp.PanelInfo{}
				g.setInfo(p, h)
				g.setInfo(p, k)
				add(&rwp.OutboundMessage{PanelInfo: p})
			}
		}
	}
	for v := -400; v <= 1300; v++ { // temperatures and voltages at protocol resolution
		add(&rwp.OutboundMessage{SysStat: &rwp.SystemStat{CPUTemp: dec(v, 10), ExtTemp: dec(1300-v, 10), CPUVoltage: dec(v+400, 100), CPUUsage: uint32((v + 400) % 101)}})
	}
	for k := 0; k < len(sysKeys); k++ {
		for r := 0; r < 20; r++ {
			s := g.sys()
			add(&rwp.OutboundMessage{SysStat: s})
		}
	}
	for r := 0; r < scale(3000, 30000); r++ {
		var ms []*rwp.OutboundMessage
		n := pick(g, 0, 1, 1, 2, 3, 6)
		if r%100 == 99 {
			n = pick(g, 12, 40)
		}
		for i := 0; i < n; i++ {
			ms = append(ms, g.outMsg())
		}
		add(ms...)
	}
	for k, ps := range stringPaths((&rwp.OutboundMessage{}).ProtoReflect().Descriptor()) { // very long texts
		m := &rwp.OutboundMessage{}
		t := g.longText(longs[k%len(longs)])
		if strings.HasSuffix(string(ps[1].(protoreflect.FieldDescriptor).FullName()), ".Register.Id") {
			t = strings.ToUpper(t)
		}
		setString(m.ProtoReflect(), ps, t)
		add(m)
	}
	// very many messages, and very many events in a message
	for _, n := range many() {
		var ms []*rwp.OutboundMessage
		m := &rwp.OutboundMessage{}
		for i := 0; i < n; i++ {
			e := &rwp.HWCEvent{HWCID: uint32(1 + i%3), Pulsed: &rwp.PulsedEvent{Value: int32(i)}}
			if i%5 == 0 {
				e = &rwp.HWCEvent{HWCID: uint32(i), Binary: &rwp.BinaryEvent{Pressed: i%2 == 0}}
			}
			m.Events = append(m.Events, e)
			x := &rwp.OutboundMessage{Events: []*rwp.HWCEvent{e}}
			if i%7 == 0 {
				x = g.outMsg()
			}
			ms = append(ms, x)
		}
		add(ms...)
		add(m)
	}
	cases := make(arr, len(in))
	parallel(len(in), func(k int) { cases[k] = encOutCase(in[k]) })
	saveCases(out("enc.json"), cases)

	// for the C wrapper: one message each, as wire bytes
	var wires []string
	var wc arr
	for k, ms := range in {
		if len(ms) == 1 && k%scale(4, 1) == 0 {
			b, err := proto.Marshal(ms[0])
			if err == nil {
				wires = append(wires, hex.EncodeToString(b))
				wc = append(wc, obj{"kind": "enc", "msgs": trees(ms)})
			}
		}
	}
	saveJSON(out("wires.json"), wires)
	saveCases(out("cbind.json"), wc)

	// payloads over several lines
	var flat [][]*rwp.OutboundMessage
	for r := 0; r < scale(600, 6000); r++ {
		m := &rwp.OutboundMessage{}
		switch g.Intn(6) {
		case 0:
			m.PanelTopology = &rwp.PanelTopology{Svgbase: g.multiline(), Json: g.multiline()}
		case 1:
			m.BurninProfile = &rwp.BurninProfile{Json: g.multiline()}
		case 2:
			m.CalibrationProfile = &rwp.CalibrationProfile{Json: g.multiline()}
		case 3:
			m.DefaultCalibrationProfile = &rwp.CalibrationProfile{Json: g.multiline()}
		case 4:
			m.Message = &rwp.Message{Message: g.multiline()}
		case 5:
			m.ErrorMessage = &rwp.Message{Message: g.multiline()}
		}
		if g.pct(30) {
			g.setOut(m, g.Intn(nOut))
		}
		flat = append(flat, oneOut(m))
	}
	fc := make(arr, len(flat))
	parallel(len(flat), func(k int) { fc[k] = encOutCase(flat[k]) })
	saveCases(out("enc-flat.json"), fc)
}

func decOutCase(lines []string) any {
	c := obj{"kind": "dec", "lines": lines}
	var ms []*rwp.OutboundMessage
	if p := guard(fmt.Sprintf("decode %q", lines), func() {
		ms = helpers.RawPanelASCIIstringsToOutboundMessages(append([]string{}, lines...))
	}); p != "" {
		c["kind"], c["panic"] = "panic", p
		return c
	}
	c["msgs"] = trees(ms)
	scribbleAll(ms)
	return c
}

func asciiOutDec() {
	g := gen{rand.New(rand.NewSource(*seed + 1000))}
	var in [][]string
	add := func(l ...string) { in = append(in, l) }
	for _, w := range outWords {
		add(w)
		for _, v := range outWords {
			add(w, v)
		}
	}
	for _, k := range []string{"Down", "Up", "Press"} {
		for _, e := range []string{"", ".0", ".1", ".2", ".4", ".8", ".16", ".04", ".3", ".15"} {
			for _, id := range []string{"1", "38", "007", "65535", "4294967295", "10", "100"} {
				add("HWC#" + id + e + "=" + k)
			}
		}
	}
	for v := -1100; v <= 1100; v++ {
		if v > -20 && v < 20 || v%scale(17, 1) == 0 {
			for _, k := range []string{"Enc", "Speed", "Abs", "Raw"} {
				if v >= 0 || k == "Enc" || k == "Speed" {
					add(fmt.Sprintf("HWC#%s=%s:%d", g.num(g.ids()[0]), k, v))
				}
			}
		}
	}
	for _, v := range u32s {
		for _, k := range []string{"Abs", "Raw"} {
			add(fmt.Sprintf("HWC#%d=%s:%d", g.ids()[0], k, v))
		}
		add(fmt.Sprintf("map=%d:%d", v, g.u32()))
		add(fmt.Sprintf("map=%d:%d", g.ids()[0], v))
		for _, k := range outNumKeys {
			add(k + "=" + strconv.FormatUint(uint64(v), 10))
		}
	}
	for _, w := range supportWords {
		add("_support=" + w)
		for _, x := range supportWords {
			add("_support=" + w + "," + x)
		}
	}
	known := append(append(append(append([]string{}, outNumKeys...), outStrKeys...), outDocKeys...), "map", "_bluePillReady", "_isSleeping", "_panelType", "_support", "_connections", "_serverModeLockToIP", "SysStat", "EnvironmentalHealth", "_networkConfig", "Mem", "Shift", "State", "Flag#", "HWC#")
	for _, l := range append([]string{"HWC#1=Down", "HWC#2.4=Up", "HWC#3=Press", "HWC#4=Enc:-1", "HWC#5=Abs:7", "HWC#6=Speed:-8", "HWC#7=Raw:9", "map=5:6", "_bluePillReady=1", "_isSleeping=1",
		"_panelType=Physical", "_support=ASCII,Binary", "_connections=a;b", "_serverModeLockToIP=a;b", "SysStat=CPUUsage:4:CPUTemp:5.5:", "EnvironmentalHealth=Blocked", `_networkConfig={"dhcp":true}`,
		"MemA=1", "ShiftB=2", "State7=3", "Flag#8=1", "Mem=1"}, outWords...) {
		for _, m := range edgeMangles(l, known) {
			add(m)
		}
		if k := strings.IndexByte(l, '='); strings.HasPrefix(l, "HWC#") { // the same for the name of the event
			for _, m := range edgeMangles(strings.ReplaceAll(l[k+1:], ":", "="), []string{"Down", "Up", "Press", "Enc", "Abs", "Speed", "Raw"}) {
				add(l[:k+1] + strings.ReplaceAll(m, "=", ":"))
			}
		}
	}
	for _, k := range append(append(append([]string{}, outNumKeys...), outStrKeys...), outDocKeys...) {
		for _, m := range edgeMangles(k+"=1", known) {
			add(m)
		}
	}
	for r := 0; r < scale(600, 6000); r++ {
		add(g.sysLine())
		add(g.unknownOut())
		add(g.unknownOut(), g.outLine(), g.unknownOut())
		add(g.eventLine())
		add(g.regLine())
	}
	for r := 0; r < scale(4000, 40000); r++ {
		add(g.outLine())
	}
	for r := 0; r < scale(3000, 30000); r++ {
		var l []string
		n := pick(g, 2, 3, 6, 12)
		if r%100 == 99 {
			n = pick(g, 30, 100)
		}
		for i := 0; i < n; i++ {
			l = append(l, g.outLine())
		}
		add(l...)
	}
	for _, n := range longs {
		for _, k := range append(append([]string{}, outStrKeys...), outDocKeys...) {
			add(k+"="+g.longText(n), "HWC#7=Down")
		}
		add("_connections="+strings.Repeat("192.168.10.99;", n/14)+"10.0.0.1", "_serverModeLockToIP="+strings.Repeat("192.168.10.99;", n/14)+"10.0.0.1")
		add(`_networkConfig={"IPAddr":"`+g.longText(n)+`"}`, "HWC#7=Down")
	}
	for _, n := range many() {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, pick(g, g.outLine(), fmt.Sprintf("HWC#%d=Enc:%d", 1+i%3, i), fmt.Sprintf("map=%d:%d", i, i)))
		}
		add(l...)
	}
	cases := make(arr, len(in))
	parallel(len(in), func(k int) { cases[k] = decOutCase(in[k]) })
	saveCases(out("dec.json"), cases)
}
