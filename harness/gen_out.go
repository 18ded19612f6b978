package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

func (g gen) str1() string { // non-empty one-line text
	for {
		w := g.word()
		if w != "" {
			return w
		}
	}
}

var topoDocs = []string{`{"HWc":[{"id":1,"x":10,"y":20,"txt":"Btn","type":3}],"typeIndex":{"3":{"w":100,"h":50,"in":"b"}}}`, `{}`, `{"title":"a  b"}`, `x`}
var svgDocs = []string{`<svg width="10" height="20"><rect x="1"/></svg>`, `<svg/>`, `<?xml version="1.0"?><svg><path d="M 1 2 L 3 4"/></svg>`}

func (g gen) listItem() string {
	return pick(g, "192.168.10.99", "10.0.0.1", "fe80::1", "[fe80::1]:9923", "host.local", "a b", "x=1", "192.168.10.9:4711")
}
func (g gen) list(n int) []string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, g.listItem())
	}
	return r
}

const nInfo = 10

func (g gen) setInfo(p *rwp.PanelInfo, k int) {
	switch k {
	case 0:
		p.Model = g.str1()
	case 1:
		p.Serial = pick(g, "123456", g.str1())
	case 2:
		p.SoftwareVersion = pick(g, "v1.0.0-rc1", g.str1())
	case 3:
		p.Name = g.str1()
	case 4:
		p.Platform = pick(g, "ibeam", "uPanel", g.str1())
	case 5:
		p.BluePillReady = true
	case 6:
		p.MaxClients = g.u32()
	case 7:
		p.LockedToIPs = g.list(pick(g, 1, 1, 2, 3))
	case 8:
		p.PanelType = rwp.PanelInfo_PanelTypeE(g.Intn(6))
	case 9:
		p.RawPanelSupport = support(g.Intn(1 << 13))
	}
}
func support(bits int) *rwp.RawPanelSupport {
	b := func(k int) bool { return bits>>k&1 == 1 }
	return &rwp.RawPanelSupport{ASCII: b(0), Binary: b(1), ASCII_JSONfeedback: b(2), ASCII_Inbound: b(3), ASCII_Outbound: b(4), Processors: b(5), System: b(6), RawADCValues: b(7), BurninProfile: b(8), EnvHealth: b(9), Registers: b(10), Calibration: b(11), NetworkSettings: b(12)}
}
func dec(v, div int) float32 { return float32(float64(v) / float64(div)) }
func (g gen) sys() *rwp.SystemStat {
	s := &rwp.SystemStat{}
	n := func() int32 { return pick(g, 0, 1, 600, 1500, 3884140, int32(g.Intn(1<<30)), -1) }
	b := func() bool { return g.pct(40) }
	if g.pct(10) {
		return s
	}
	s.CPUUsage = uint32(pick(g, 0, 1, 4, 99, 100, g.Intn(101)))
	s.CPUTemp, s.ExtTemp = dec(pick(g, 0, 1, 9, 10, 455, 999, 1000, g.Intn(1200), -g.Intn(400)-1), 10), dec(pick(g, 0, 5, 505, g.Intn(1200), -g.Intn(400)-1), 10)
	s.CPUVoltage = dec(pick(g, 0, 1, 10, 86, 100, 110, 120, 125, g.Intn(500)), 100)
	s.CPUFreqCurrent, s.CPUFreqMin, s.CPUFreqMax = n(), n(), n()
	s.MemTotal, s.MemFree, s.MemAvailable, s.MemBuffers, s.MemCached = n(), n(), n(), n(), n()
	s.UnderVoltageNow, s.UnderVoltage, s.FreqCapNow, s.FreqCap = b(), b(), b(), b()
	s.ThrottledNow, s.Throttled, s.SoftTempLimitNow, s.SoftTempLimit = b(), b(), b(), b()
	return s
}

var edges = []int32{0, 1, 2, 4, 8, 16}

func (g gen) event(kinds int) *rwp.HWCEvent {
	e := &rwp.HWCEvent{HWCID: g.ids()[0]}
	if g.pct(20) {
		e.Timestamp = g.u32()
	}
	for i := 0; i < kinds; i++ {
		switch g.Intn(5) {
		case 0:
			e.Binary = &rwp.BinaryEvent{Pressed: g.pct(50), Edge: rwp.BinaryEvent_EdgeID(edges[g.Intn(6)])}
		case 1:
			e.Pulsed = &rwp.PulsedEvent{Value: g.i32()}
		case 2:
			e.Absolute = &rwp.AbsoluteEvent{Value: g.u32()}
		case 3:
			e.Speed = &rwp.SpeedEvent{Value: g.i32()}
		case 4:
			e.RawAnalog = &rwp.RawAnalogEvent{Value: g.u32()}
		}
	}
	return e
}
func (g gen) doc(ds []string) string { return ds[g.Intn(len(ds))] }

const nOut = 22

func (g gen) setOut(m *rwp.OutboundMessage, k int) {
	switch k {
	case 0:
		m.FlowMessage = pick(g, rwp.OutboundMessage_PING, rwp.OutboundMessage_ACK, rwp.OutboundMessage_NACK, rwp.OutboundMessage_BSY, rwp.OutboundMessage_RDY, rwp.OutboundMessage_HELLO)
	case 1:
		m.HWCavailability = map[uint32]uint32{}
		for n := pick(g, 1, 2, 5, 12, 40); n > 0; n-- {
			m.HWCavailability[g.ids()[0]] = pick(g, uint32(0), 1, 2, g.u32())
		}
	case 2, 3:
		if m.PanelInfo == nil {
			m.PanelInfo = &rwp.PanelInfo{}
		}
		for n := pick(g, 0, 1, 1, 2, 4, 30); n > 0; n-- {
			g.setInfo(m.PanelInfo, g.Intn(nInfo))
		}
	case 4:
		m.PanelTopology = &rwp.PanelTopology{Svgbase: g.doc(svgDocs), Json: g.doc(topoDocs)}
		switch g.Intn(4) {
		case 0:
			m.PanelTopology.Svgbase = ""
		case 1:
			m.PanelTopology.Json = ""
		}
	case 5:
		m.BurninProfile = &rwp.BurninProfile{Json: g.doc(jsonDocs)}
	case 6:
		m.CalibrationProfile = &rwp.CalibrationProfile{Json: g.doc(jsonDocs)}
	case 7:
		m.DefaultCalibrationProfile = &rwp.CalibrationProfile{Json: g.doc(jsonDocs)}
	case 8:
		m.NetworkConfig = g.net()
	case 9:
		m.SleepTimeout = &rwp.SleepTimeout{Value: g.u32()}
	case 10:
		m.SleepState = &rwp.SleepState{IsSleeping: g.pct(50)}
	case 11:
		n := pick(g, 1, 1, 2, 4)
		if g.pct(4) {
			n = pick(g, 9, 17, 33)
		}
		for ; n > 0; n-- {
			m.Events = append(m.Events, g.event(pick(g, 0, 1, 1, 1, 1, 2, 8)))
		}
	case 12:
		m.Connections = &rwp.Connections{Connection: g.list(pick(g, 0, 1, 2, 4, 4, 11))}
	case 13:
		m.HeartBeatTimer = &rwp.HeartBeatTimer{Value: g.u32()}
	case 14:
		m.DimmedGain = &rwp.DimmedGain{Value: g.u32()}
	case 15:
		m.RunTimeStats = &rwp.RunTimeStats{}
		for i := 0; i < pick(g, 0, 1, 4); i++ {
			switch g.Intn(4) {
			case 0:
				m.RunTimeStats.BootsCount = g.u32()
			case 1:
				m.RunTimeStats.TotalUptime = g.u32()
			case 2:
				m.RunTimeStats.SessionUptime = g.u32()
			case 3:
				m.RunTimeStats.ScreenSaveOnTime = g.u32()
			}
		}
	case 16:
		m.SysStat = g.sys()
	case 17:
		m.Message = &rwp.Message{Message: g.word()}
	case 18:
		m.ErrorMessage = &rwp.Message{Message: g.word()}
	case 19:
		m.EnvironmentalHealth = &rwp.Environment{RunMode: rwp.Environment_RunModeE(g.Intn(3))}
	case 20:
		for i := 0; i < pick(g, 1, 2, 3); i++ {
			m.Registers = append(m.Registers, g.reg())
		}
	case 21:
		m.Events = append(m.Events, g.event(1))
	}
}

func (g gen) outMsg() *rwp.OutboundMessage {
	m := &rwp.OutboundMessage{}
	for n := pick(g, 0, 1, 1, 1, 2, 3, 8, 40); n > 0; n-- {
		g.setOut(m, g.Intn(nOut))
	}
	return m
}

// ---- lines ----
var outWords = []string{"ping", "ack", "nack", "BSY", "RDY", "list"}
var outNumKeys = []string{"_sleepTimer", "_heartBeatTimer", "DimmedGain", "_serverModeMaxClients", "_bootsCount", "_totalUptimeMin", "_sessionUptimeMin", "_screenSaverOnMin"}
var outStrKeys = []string{"_model", "_serial", "_version", "_name", "_platform", "Msg", "ErrorMsg"}
var outDocKeys = []string{"_panelTopology_svgbase", "_panelTopology_HWC", "_burninProfile", "_calibrationProfile", "_defaultCalibrationProfile"}
var supportWords = []string{"ASCII", "Binary", "JSONFeedback", "JSONonInbound", "JSONonOutbound", "System", "RawADCValues", "BurninProfile", "EnvHealth", "Registers", "Calibration", "Processors", "NetworkSettings"}
var sysKeys = []string{"CPUUsage", "CPUTemp", "ExtTemp", "CPUVoltage", "CPUFreqCurrent", "CPUFreqMin", "CPUFreqMax", "MemTotal", "MemFree", "MemAvailable", "MemBuffers", "MemCached", "UnderVoltageNow", "UnderVoltage", "FreqCapNow", "FreqCap", "ThrottledNow", "Throttled", "SoftTempLimitNow", "SoftTempLimit"}

func (g gen) eventLine() string {
	id := g.num(g.ids()[0])
	switch g.Intn(8) {
	case 0, 1, 2:
		e := ""
		if g.pct(60) {
			e = "." + g.num(uint32(edges[1+g.Intn(5)]))
		}
		return "HWC#" + id + e + "=" + pick(g, "Down", "Up", "Press")
	case 3:
		return fmt.Sprintf("HWC#%s=Enc:%d", id, g.i32())
	case 4:
		return fmt.Sprintf("HWC#%s=Abs:%s", id, g.num(g.u32()))
	case 5:
		return fmt.Sprintf("HWC#%s=Speed:%d", id, g.i32())
	case 6:
		return fmt.Sprintf("HWC#%s=Raw:%s", id, g.num(g.u32()))
	default:
		return fmt.Sprintf("HWC#%s=%s:%d", id, pick(g, "Enc", "Speed"), pick(g, 1, -1, 2, -2, 0))
	}
}

func (g gen) sysLine() string {
	var b strings.Builder
	keys := append([]string{}, sysKeys...)
	if g.pct(50) {
		g.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		keys = keys[:1+g.Intn(len(keys))]
	}
	if g.pct(30) {
		keys[g.Intn(len(keys))] = pick(g, "FanSpeed", "cpuusage", "Foo")
	}
	b.WriteString("SysStat=")
	for k, key := range keys {
		v := ""
		switch key {
		case "CPUTemp", "ExtTemp":
			v = pick(g, "0.0", "42.5", "-3.4", "100.0", "0.5", fmt.Sprintf("%.1f", float64(g.Intn(2000)-500)/10))
		case "CPUVoltage":
			v = pick(g, "0.86", "1.20", "0.00", fmt.Sprintf("%.2f", float64(g.Intn(500))/100))
		case "UnderVoltageNow", "UnderVoltage", "FreqCapNow", "FreqCap", "ThrottledNow", "Throttled", "SoftTempLimitNow", "SoftTempLimit":
			v = pick(g, "0", "1")
		case "CPUUsage":
			v = strconv.Itoa(g.Intn(101))
		default:
			v = strconv.Itoa(pick(g, 0, 1, 600, 3884140, g.Intn(1<<30)))
		}
		b.WriteString(key + ":" + v)
		if k < len(keys)-1 || g.pct(80) {
			b.WriteString(":")
		}
	}
	return b.String()
}

func (g gen) listSpelling() string {
	sp := func() string { return pick(g, "", "", " ", "  ") }
	s := sp() + g.listItem() + sp()
	for n := pick(g, 0, 1, 2, 3, 12); n > 0; n-- {
		s += ";" + sp() + pick(g, g.listItem(), g.listItem(), "") + sp()
	}
	return s
}

func (g gen) outLine() string {
	switch g.Intn(18) {
	case 0:
		return outWords[g.Intn(len(outWords))]
	case 1, 2, 3, 4:
		return g.eventLine()
	case 5:
		return fmt.Sprintf("map=%s:%s", g.num(g.ids()[0]), g.num(pick(g, uint32(0), 1, g.u32())))
	case 6:
		return outNumKeys[g.Intn(len(outNumKeys))] + "=" + g.num(g.u32())
	case 7, 8:
		return outStrKeys[g.Intn(len(outStrKeys))] + "=" + g.str1()
	case 9:
		for {
			if d := pick(g, g.doc(jsonDocs), g.doc(svgDocs), g.doc(topoDocs)); d != "" {
				return outDocKeys[g.Intn(len(outDocKeys))] + "=" + d
			}
		}
	case 10:
		return pick(g, "_bluePillReady=", "_isSleeping=") + g.num(uint32(g.Intn(2)))
	case 11:
		return "_panelType=" + pick(g, "BPI", "Physical", "Emulation", "Touch", "Composite", "Unknown")
	case 12:
		n := 1 + pick(g, g.Intn(6), g.Intn(18))
		var p []string
		for i := 0; i < n; i++ {
			p = append(p, pick(g, supportWords[g.Intn(13)], supportWords[g.Intn(13)], supportWords[g.Intn(13)], pick(g, "Future", "ascii", "JSON", "Sys", "Registers2")))
		}
		return "_support=" + strings.Join(p, ",")
	case 13:
		return pick(g, "_connections=", "_serverModeLockToIP=") + g.listSpelling()
	case 14:
		return g.sysLine()
	case 15:
		switch g.Intn(3) {
		case 0:
			return "EnvironmentalHealth=" + pick(g, "Normal", "Safemode", "Blocked", "Other")
		case 1:
			b, _ := json.Marshal(g.net())
			return "_networkConfig=" + string(b)
		default:
			return g.regLine()
		}
	case 16:
		return ""
	default:
		return g.unknownOut()
	}
}

var inOnly = []string{"HWCt#1=5", "HWCc#3=2", "HWCx#1=4096", "HWCg#1=0:AA==", "ActivePanel=1", "PanelTopology?", "Clear", "SleepTimer=5", "PanelBrightness=4", "{\"HWCIDs\":[1]}", "[]", "Webserver=1"}

func (g gen) unknownOut() string {
	num := strconv.Itoa(g.Intn(6))
	all := append(append(append(append([]string{}, outNumKeys...), outStrKeys...), outDocKeys...), "map", "_bluePillReady", "_isSleeping", "_panelType", "_support", "_connections", "_serverModeLockToIP", "SysStat", "EnvironmentalHealth", "_networkConfig", "Mem", "Shift", "State", "Flag#", "HWC#")
	switch g.Intn(6) {
	case 0:
		return mutate(g, outWords[g.Intn(len(outWords))])
	case 1, 2:
		return mutKey(g, all[g.Intn(len(all)-5)], all, "") + "=" + num
	case 3:
		return inOnly[g.Intn(len(inOnly))]
	case 4:
		k := pick(g, "HWC", "HWCe", "hwc", "HWCx", "HW", "HWC##", "EventHWC")
		if k == "HWC" {
			return "HWC#" + num + "=" + pick(g, "down", "DOWN", "Downn", "Pressed", "Release", "enc:1", "Encoder:1", "ABS:4", "Rawx:4", "Axis:5", "Pres", "")
		}
		return k + "#" + num + "=" + pick(g, "Down", "Up", "Enc:1", "Abs:5")
	default:
		return pick(g, "hello", "=", "=5", "map", "mapx=5:6", "map=5", "map=a:b", "xmap=1:2", "Flag3=1", "FlagA=1", "Memx=3", "memA=1", "_model", "model=SK", "__model=SK", "_Model=SK", "_topology=x", "\xff\xfe=1", "ErrorMsgs=x", "Message=x", "ping ", "Ack", "SysStats=CPUUsage:4:")
	}
}
