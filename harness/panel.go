package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"runtime"
	"strings"
	"time"

	helpers "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
)

// The sessions of C08-C12: what scripted panels do to the real reconnecting client.

func init() {
	cmds["panel-framing"] = func() { panelCmd(framingSessions) }
	cmds["panel-submit"] = func() { panelCmd(submitSessions) }
	cmds["panel-broken"] = func() { panelCmd(brokenSessions) }
	cmds["panel-life"] = func() { panelCmd(lifeSessions) }
	cmds["panel-probe"] = func() { panelCmd(probeSessions) }
	cmds["panel-scripts"] = func() { panelCmd(scriptSessions) }
	cmds["panel-alloc"] = panelAlloc
	cmds["panel-detect"] = panelDetect
}

// panelCmd runs the sessions; with -only one of them, several times and undisturbed
func panelCmd(gen func(gen) []*session) {
	ss := gen0(gen)
	if *only >= 0 {
		name := ss[*only].name
		cases := arr{}
		var again []*session
		for k := 0; k < 8; k++ {
			g := gen0(gen)
			if g[*only].name != name {
				panic("sessions differ between generations")
			}
			again = append(again, g[*only])
		}
		cases = runSessions(again, 4)
		saveCases(out("sessions.json"), cases)
		return
	}
	cases := runSessions(ss, scale(160, 200))
	for k := range cases {
		cases[k].(obj)["index"] = k
	}
	time.Sleep(1200 * time.Millisecond)
	n, ex := clientGoroutines("rawpanel-lib.ConnectToPanel")
	cases = append(cases, obj{"kind": "leftover", "n": n, "stack": ex, "index": -1})
	saveCases(out("sessions.json"), cases)
}
func gen0(f func(gen) []*session) []*session { return f(gen{rand.New(rand.NewSource(*seed))}) }

// ---- building blocks ----

func send(b []byte, gap time.Duration, cuts ...int) act {
	return act{op: "send", b: b, cuts: cuts, gap: gap}
}
func fieldLen(b []byte) int {
	_, _, n := protowire.ConsumeField(b)
	return n
}
func sleep(d time.Duration) act { return act{op: "sleep", d: d} }

const ms = time.Millisecond

func binConn() *panelConn { return &panelConn{class: "ack", reply: ackFrame()} }
func asciiConn(class string) *panelConn {
	c := &panelConn{class: class, ascii: true}
	switch class {
	case "rdy":
		c.reply = []byte("RDY\n")
	case "map":
		c.reply = []byte("map=1:1\n")
	case "text":
		c.reply = []byte("Welcome to the panel\r\n")
	}
	return c
}

// a message of exactly n bytes (n # 1)
func sized(n int, tag string) *rwp.OutboundMessage {
	m := &rwp.OutboundMessage{}
	if n < 2 {
		return m
	}
	for l := max(0, n-16); ; l++ {
		t := tag
		if len(t) > l {
			t = t[:l]
		}
		m.Message = &rwp.Message{Message: t + strings.Repeat("x", l-len(t))}
		if l == 0 {
			m.Message = &rwp.Message{}
		}
		if s := proto.Size(m); s == n {
			return m
		} else if s > n { // a length byte too many: an enum field fills the gap
			for l >= 0 {
				m.Message.Message = strings.Repeat("x", l)
				m.FlowMessage = rwp.OutboundMessage_ACK
				if proto.Size(m) == n {
					return m
				}
				l--
			}
			return &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_ACK}
		}
	}
}

func (g gen) someMsg() *rwp.OutboundMessage {
	if g.pct(15) {
		return sized(pick(g, 0, 0, 2, 5, 127, 128, 130, 250, 990, 996, 1000, 1004, 1010, 4096, 65535, 65540), fmt.Sprint(g.Intn(1e9)))
	}
	m := g.outMsg()
	for k := 0; k < 5 && !proto.Equal(m, &rwp.OutboundMessage{}); k++ {
		if g.pct(50) {
			break
		}
		m = g.outMsg()
	}
	return m
}
func (g gen) someMsgs(n int) (r []*rwp.OutboundMessage) {
	for ; n > 0; n-- {
		r = append(r, g.someMsg())
	}
	return
}

// something that is no message, of n bytes
func (g gen) junkPayload(n int) []byte {
	if n == 0 {
		return nil
	}
	switch g.Intn(4) {
	case 0:
		b := g.bytes(n)
		b[0] = 0xff
		return b
	case 1: // a message cut short
		b, _ := proto.Marshal(g.outMsg())
		if len(b) > 1 {
			return b[:len(b)-1]
		}
		return []byte{0x0a}
	case 2:
		return []byte(strings.Repeat("\xff", n))
	default:
		return g.bytes(n)
	}
}

func (g gen) randomCuts(n, k int) []int {
	m := map[int]bool{}
	for ; k > 0; k-- {
		m[1+g.Intn(max(1, n-1))] = true
	}
	return sortedKeys(m)
}
func sortedKeys(m map[int]bool) (r []int) {
	for k := 0; len(m) > 0; k++ {
		if m[k] {
			r = append(r, k)
			delete(m, k)
		}
	}
	return
}

func (g gen) someLine() string {
	if g.pct(6) {
		return "_panelTopology_svgbase=<svg>" + strings.Repeat("<g/>", pick(g, 1000, 4090, 17000, 40000, 130000)) + "</svg>"
	}
	for k := 0; k < 30; k++ {
		l := strings.TrimSpace(g.outLine())
		if !strings.ContainsAny(l, "\r\n") {
			return l
		}
	}
	return "HWC#12=Down"
}
func (g gen) someLines(n int) (r []string) {
	for ; n > 0; n-- {
		r = append(r, g.someLine())
	}
	return
}
func shortMsgs() []*rwp.OutboundMessage {
	return []*rwp.OutboundMessage{
		{Events: []*rwp.HWCEvent{{HWCID: 7, Binary: &rwp.BinaryEvent{Pressed: true}}}}, {FlowMessage: rwp.OutboundMessage_PING}, {},
		{Events: []*rwp.HWCEvent{{HWCID: 7, Binary: &rwp.BinaryEvent{}}}}, {FlowMessage: rwp.OutboundMessage_ACK},
		{Events: []*rwp.HWCEvent{{HWCID: 300, Pulsed: &rwp.PulsedEvent{Value: -3}}}},
		{FlowMessage: rwp.OutboundMessage_BSY, Events: []*rwp.HWCEvent{{HWCID: 5}, {HWCID: 6}}}, // parts of it are messages, too
	}
}

// the lengths of the beginnings of a message that are themselves messages
func prefixes(p []byte) (r []int) {
	for k := 0; k < len(p); {
		n := fieldLen(p[k:])
		if n < 0 {
			break
		}
		k += n
		r = append(r, k)
	}
	return
}

// acknowledge frames; not all are as short as can be
func ackFrames() (r [][]byte) {
	ack := &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_ACK}
	p, _ := proto.Marshal(ack)
	r = append(r, ackFrame())
	for _, more := range []*rwp.OutboundMessage{{PanelInfo: &rwp.PanelInfo{Model: "X"}}, {Message: &rwp.Message{Message: strings.Repeat("hello ", 40)}}, {SysStat: &rwp.SystemStat{CPUUsage: 4}},
		{PanelTopology: &rwp.PanelTopology{Json: strings.Repeat("{}", 3000)}}, {Registers: []*rwp.Register{{Id: "A", Value: 10}}}} {
		q, _ := proto.Marshal(more)
		r = append(r, frame(append(append([]byte{}, p...), q...)), frame(append(append([]byte{}, q...), p...)))
	}
	return append(r, frame(append([]byte{0xfa, 0x3f, 2, 'u', 'n'}, p...))) // a field of a later version
}

// ---- C08 ----

func framingSessions(g gen) (ss []*session) {
	add := func(name string, cs ...*panelConn) *session {
		s := &session{name: name, conns: cs, tail: 20 * ms}
		ss = append(ss, s)
		return s
	}
	// every single and double cut of a short binary stream, the reply to the probe being part of it
	short := shortMsgs()
	n := 6
	for _, m := range short {
		n += 4 + proto.Size(m)
	}
	for i := 0; i <= n; i++ {
		for j := i + 1; j <= n; j++ {
			if !*thorough && i > 0 && j < n && (i*31+j)%3 != 0 && j-i > 4 {
				continue
			}
			c := &panelConn{class: "ack"}
			b := append(c.raw(ackFrame()), c.frames(short...)...)
			var cuts []int
			for _, k := range []int{i, j} {
				if k > 0 && k < n {
					cuts = append(cuts, k)
				}
			}
			c.acts = []act{send(b, 12*ms, cuts...)}
			add(fmt.Sprintf("binary cuts %v", cuts), c)
		}
	}
	// every single cut (and some double ones) of a short ASCII stream, LF and CRLF
	for _, eol := range []string{"\n", "\r\n"} {
		lines := []string{"HWC#7=Down", "map=3:4", "HWC#7=Up", "", "ping", "HWC#9=Enc:-3"}
		l := len(strings.Join(lines, eol)) + len(eol)
		for i := 0; i < l; i++ {
			c := asciiConn("rdy")
			b := c.lines(eol, lines...)
			cuts := []int{i}
			if i%2 == 1 {
				cuts = append(cuts, i+1+g.Intn(l-i))
			}
			c.acts = []act{send(b, 12*ms, cuts...)}
			add(fmt.Sprintf("ascii %q cuts %v", eol, cuts), c)
		}
	}
	// dribble
	for k := 0; k < scale(8, 60); k++ {
		c := binConn()
		b := c.frames(append(g.someMsgs(3), short...)...)
		if len(b) > 1500 {
			c = binConn()
			b = c.frames(short...)
		}
		var cuts []int
		for i := 1; i < len(b); i++ {
			cuts = append(cuts, i)
		}
		c.acts = []act{send(b, time.Duration(pick(g, 0, 1, 2))*ms, cuts...)}
		add("binary dribble", c)
		c = asciiConn("rdy")
		b = c.lines(pick(g, "\n", "\r\n"), "HWC#7=Down", "map=3:4", "_model=RK", "_serial=a b c", "HWC#7.4=Up")
		cuts = nil
		for i := 1; i < len(b); i++ {
			cuts = append(cuts, i)
		}
		c.acts = []act{send(b, time.Duration(pick(g, 0, 1, 2))*ms, cuts...)}
		add("ascii dribble", c)
	}
	// long streams, random cuts
	for k := 0; k < scale(60, 600); k++ {
		c := binConn()
		b := c.frames(g.someMsgs(1 + g.Intn(60))...)
		c.acts = []act{send(b, time.Duration(g.Intn(3))*ms, g.randomCuts(len(b), g.Intn(60))...)}
		s := add("binary stream", c)
		if g.pct(20) {
			s.slowReader = time.Duration(1+g.Intn(8)) * ms
		}
		c = asciiConn(pick(g, "rdy", "map", "text", "rdy"))
		b = nil
		for i := g.Intn(40); i >= 0; i-- {
			b = append(b, c.lines(pick(g, "\n", "\r\n"), g.someLine())...)
		}
		c.acts = []act{send(b, time.Duration(g.Intn(3))*ms, g.randomCuts(len(b), g.Intn(60))...)}
		s = add("ascii stream", c)
		if g.pct(20) {
			s.slowReader = time.Duration(1+g.Intn(8)) * ms
		}
	}
	// sizes up to the limit, in few or many segments
	for _, n := range []int{0, 2, 3, 127, 128, 129, 130, 131, 255, 256, 257, 990, 996, 999, 1000, 1001, 1004, 1024, 4095, 4096, 16384, 65535, 65536, 65537, 131072, 262143, 262144, 400000, 499990, 499997, 499998, 499999} {
		for _, cuts := range []int{0, 1, 7, 40} {
			c := binConn()
			b := c.frames(sized(n, "start"), short[0], sized(n, "again"), short[5])
			c.acts = []act{send(b, 2*ms, g.randomCuts(len(b), cuts)...)}
			add(fmt.Sprintf("size %d, %d cuts", n, cuts), c)
		}
	}
	// payloads that look like something else: frames inside frames, text
	for _, t := range []string{"\n", "RDY\n", "map=1:1\n", "\x02\x00\x00\x00\x08\x02", "HWC#1=Down\n", strings.Repeat("\x00", 50), "\u00ff\u00ff"} {
		c := binConn()
		b := c.frames(&rwp.OutboundMessage{Message: &rwp.Message{Message: t}}, short[0], &rwp.OutboundMessage{ErrorMessage: &rwp.Message{Message: t + t}}, short[5])
		c.acts = []act{send(b, 5*ms, g.randomCuts(len(b), 3)...)}
		add("payload "+fmt.Sprintf("%q", t), c)
	}
	// idle for longer than the in-frame timeout: between frames, between lines, inside a line
	for k := 0; k < scale(10, 40); k++ {
		idle := time.Duration(2100+g.Intn(1400)) * ms
		c := binConn()
		for i := 0; i < 2+g.Intn(2); i++ {
			b := c.frames(g.someMsgs(1 + g.Intn(3))...)
			c.acts = append(c.acts, send(b, ms, g.randomCuts(len(b), g.Intn(4))...), sleep(idle))
		}
		b := c.frames(short...)
		c.acts = append(c.acts, send(b, 5*ms, g.randomCuts(len(b), 2)...))
		add("binary idle", c)
		c = asciiConn(pick(g, "rdy", "silent"))
		b = c.lines(pick(g, "\n", "\r\n"), append(g.someLines(3), "HWC#3=Down", "HWC#3=Up")...)
		c.acts = []act{sleep(idle * time.Duration(g.Intn(2))), send(b, idle, g.randomCuts(len(b), 2)...)}
		add("ascii idle", c)
	}
	// idle for much longer
	for k := 0; k < scale(4, 8); k++ {
		d := time.Duration(scale(11, 35)+k*scale(3, 30)/2) * time.Second
		c := binConn()
		if k%2 == 1 {
			c = asciiConn("rdy")
		}
		say := func() {
			var b []byte
			if c.ascii {
				b = c.lines("\n", g.someLines(3)...)
			} else {
				b = c.frames(g.someMsgs(3)...)
			}
			c.acts = append(c.acts, send(b, ms, g.randomCuts(len(b), 2)...))
		}
		say()
		c.acts = append(c.acts, sleep(d))
		say()
		add("long idle", c).long = d
	}
	// tens of thousands of messages on one connection
	for k := 0; k < 4; k++ {
		c := binConn()
		if k%2 == 1 {
			c = asciiConn("rdy")
		}
		for n := 0; n < 70; n++ {
			var b []byte
			from := len(c.items)
			for i := 0; i < 1000; i++ {
				x := n*1000 + i
				switch {
				case c.ascii:
					b = append(b, c.lines(pick(g, "\n", "\r\n"), fmt.Sprintf("HWC#%d=%s", x%5000+1, []string{"Down", "Up", "Enc:1"}[x%3]))...)
				case x%7 == 0:
					b = append(b, c.frames(short[x%len(short)])...)
				default:
					b = append(b, c.frames(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: uint32(x), Binary: &rwp.BinaryEvent{Pressed: x%2 == 0}}}})...)
				}
			}
			c.together(from)
			c.acts = append(c.acts, send(b, 0, g.randomCuts(len(b), g.Intn(9))...))
		}
		s := add("many messages", c)
		s.long = 10 * time.Second
		if k >= 2 {
			s.pauses = map[int]time.Duration{60000: 300 * ms}
		}
	}
	// slow frames: every pause is shorter than the timeout, all of them together are longer
	for k := 0; k < scale(12, 40); k++ {
		c := binConn()
		b := c.frames(sized(pick(g, 2, 40, 1000, 60000), "slow"), short[0])
		cuts := g.randomCuts(len(b), 2+g.Intn(2))
		if k%3 == 0 {
			cuts = []int{1, 2, 3} // within the header
		}
		c.acts = []act{send(b, 1400*ms, cuts...), send(c.frames(short...), 0)}
		add(fmt.Sprintf("slow frame %v", cuts), c)
	}
	// a consumer that is busy for a while, once or after every message, while the panel goes on sending
	for k := 0; k < scale(36, 160); k++ {
		ascii := k%2 == 1
		c := binConn()
		if ascii {
			c = asciiConn(pick(g, "rdy", "map"))
		}
		n := pick(g, 4, 12, 40, 150)
		for i := 0; i < n; i++ {
			var b []byte
			if ascii {
				b = c.lines(pick(g, "\n", "\r\n"), g.someLine(), fmt.Sprintf("HWC#%d=Down", i+1))
			} else {
				b = c.frames(short[i%len(short)], &rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: uint32(i + 1), Binary: &rwp.BinaryEvent{Pressed: true}}}})
			}
			if g.pct(4) {
				c.acts = append(c.acts, sleep(time.Duration(g.Intn(400))*ms))
			}
			c.acts = append(c.acts, send(b, time.Duration(g.Intn(3))*ms, g.randomCuts(len(b), g.Intn(2))...))
		}
		s := add("busy consumer", c)
		s.pauses = map[int]time.Duration{}
		switch k / 2 % 3 {
		case 0: // once, for long
			s.pauses[1+g.Intn(6)] = pick(g, 700*ms, 1300*ms, 2300*ms, 3200*ms, 5400*ms)
		case 1: // several times
			for i := 0; i < 4; i++ {
				s.pauses[1+g.Intn(n)] = pick(g, 150*ms, 300*ms, 600*ms, 1100*ms)
			}
		case 2: // more than the network buffers
			for i := 0; i < scale(8, 30) && !ascii; i++ {
				c.acts = append(c.acts, send(c.frames(sized(499990, fmt.Sprint("large", i)), short[i%len(short)]), 0))
			}
			s.pauses[1+g.Intn(5)] = pick(g, 1200*ms, 2600*ms)
			s.pauses[n] = 600 * ms
		}
	}
	// the same with reconnects in between
	for k := 0; k < scale(10, 60); k++ {
		c1, c2 := binConn(), asciiConn("rdy")
		b := c1.frames(g.someMsgs(5)...)
		c1.acts = []act{send(b, ms, g.randomCuts(len(b), 4)...), sleep(50 * ms), {op: pick(g, "close", "shut")}}
		b2 := c2.lines(pick(g, "\n", "\r\n"), g.someLines(5)...)
		c2.acts = []act{send(b2, ms, g.randomCuts(len(b2), 4)...)}
		if k%2 == 0 {
			c2.acts = append(c2.acts, sleep(50*ms), act{op: "close"})
			add("both encodings", c2, c1)
			c1.acts = c1.acts[:1]
		} else {
			add("both encodings", c1, c2)
		}
	}
	return
}

// ---- C09 ----

// a list of messages whose first one is unlike all others
func (g gen) subList(id *uint32, size int) (l []*rwp.InboundMessage) {
	n := pick(g, 0, 1, 1, 1, 2, 3, 5, 20)
	if size == 1 {
		n = pick(g, 30, 100, 300)
	}
	for i := 0; i < n; i++ {
		*id++
		m := &rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: []uint32{*id}, HWCMode: &rwp.HWCMode{State: rwp.HWCMode_ON}}}}
		if i > 0 && g.pct(60) || i == 0 && g.pct(40) {
			x := g.inMsg()
			m.States = append(m.States, x.States...)
			m.Command = x.Command
			if i > 0 && g.pct(30) {
				m = x
			}
		}
		if i > 0 && g.pct(8) {
			m = &rwp.InboundMessage{}
		}
		if size == 2 {
			m.States = append(m.States, &rwp.HWCState{HWCIDs: []uint32{*id, *id + 1}, HWCGfx: g.gfx(pick(g, 3000, 70000, 300000))})
		}
		if size == 3 { // more than the buffers between the two take
			m.Command = &rwp.Command{SetCalibrationProfile: &rwp.CalibrationProfile{Json: strings.Repeat(g.word()+"x", 1<<20/8)}}
			m.Command.SetCalibrationProfile.Json = m.Command.SetCalibrationProfile.Json[:min(len(m.Command.SetCalibrationProfile.Json), 1<<20)]
		}
		l = append(l, m)
	}
	return
}

func submitSessions(g gen) (ss []*session) {
	id := uint32(1000)
	add := func(name string, cs ...*panelConn) *session {
		s := &session{name: name, conns: cs, tail: 60 * ms}
		ss = append(ss, s)
		return s
	}
	base := func(k int) *panelConn {
		if k%2 == 0 {
			return binConn()
		}
		return asciiConn(pick(g, "rdy", "map", "text", "rdy"))
	}
	traffic := func(c *panelConn, n int, gap time.Duration) {
		for i := 0; i < n; i++ {
			if c.ascii {
				b := c.lines("\n", g.someLine())
				c.acts = append(c.acts, send(b, gap, g.randomCuts(len(b), g.Intn(3))...))
			} else {
				b := c.frames(g.someMsg())
				c.acts = append(c.acts, send(b, gap, g.randomCuts(len(b), g.Intn(3))...))
			}
		}
	}
	for k := 0; k < scale(240, 2000); k++ {
		c := base(k)
		routines := 1 + g.Intn(4)
		for r := 0; r < routines; r++ {
			for n := 1 + g.Intn(6); n > 0; n-- {
				size := 0
				switch {
				case g.pct(4):
					size = 1
				case g.pct(3):
					size = 2
				}
				c.subs = append(c.subs, submission{routine: r, list: g.subList(&id, size), pause: time.Duration(pick(g, 0, 0, 0, 1, 5)) * ms})
			}
		}
		if g.pct(60) {
			traffic(c, 1+g.Intn(30), time.Duration(g.Intn(2))*ms)
		}
		s := add("submissions", c)
		if g.pct(15) {
			s.slowReader = ms
		}
		if g.pct(10) {
			c.slowRead = ms
		}
	}
	// the panel takes its time while much is being submitted
	for k := 0; k < scale(8, 40); k++ {
		c := base(k)
		c.slowRead = time.Duration(1+g.Intn(3)) * ms
		for r := 0; r < 3; r++ {
			for n := 0; n < 3; n++ {
				c.subs = append(c.subs, submission{routine: r, list: g.subList(&id, 1+n%2)})
			}
		}
		traffic(c, 20, ms)
		add("slow panel", c)
	}
	// submissions after a long time without any traffic, and during a slow frame
	for k := 0; k < scale(8, 24); k++ {
		c := base(k)
		for n := 0; n < 3; n++ {
			c.subs = append(c.subs, submission{routine: 0, list: g.subList(&id, 0), pause: time.Duration(pick(g, 100, 1200, 2300)) * ms})
			c.subs = append(c.subs, submission{routine: 1, list: g.subList(&id, 0), pause: time.Duration(pick(g, 10, 2500)) * ms})
		}
		if k%4 >= 2 {
			traffic(c, 2, 1300*ms)
		}
		c.acts = append(c.acts, sleep(5500*ms))
		add("rare submissions", c)
	}
	// tens of thousands of messages
	for k := 0; k < 4; k++ {
		c := base(k)
		for n := 0; n < 100; n++ {
			var l []*rwp.InboundMessage
			for i := pick(g, 1, 900, 1000, 1100); i > 0; i-- {
				id++
				l = append(l, &rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: []uint32{id}, HWCMode: &rwp.HWCMode{State: rwp.HWCMode_ON}}}})
			}
			c.subs = append(c.subs, submission{routine: n % (1 + k/2), list: l})
		}
		for n := 0; n < 500; n++ {
			id++
			c.subs = append(c.subs, submission{routine: 0, list: []*rwp.InboundMessage{{States: []*rwp.HWCState{{HWCIDs: []uint32{id}, HWCMode: &rwp.HWCMode{State: rwp.HWCMode_ON}}}}}})
		}
		add("many submissions", c).long = 10 * time.Second
	}
	// after a long silence
	for k := 0; k < 2; k++ {
		c := base(k)
		d := time.Duration(scale(11, 65)) * time.Second
		c.subs = append(c.subs, submission{list: g.subList(&id, 0)}, submission{list: g.subList(&id, 0), pause: d})
		add("late submission", c).long = d
	}
	// the panel takes nothing for longer than any of the client's timeouts
	for k := 0; k < 8; k++ {
		c := base(k)
		c.slowRead = time.Duration(pick(g, 1300, 2700, 2700, 3300)) * ms
		for n := 0; n < 3; n++ {
			c.subs = append(c.subs, submission{routine: 0, list: g.subList(&id, 2)})
		}
		for n := 0; k >= 4 && n < 8; {
			l := g.subList(&id, 3)
			if len(l) > 5 {
				l = l[:5]
			}
			c.subs = append(c.subs, submission{routine: n % 2, list: l})
			n += len(l)
		}
		add("panel pauses", c)
	}
	// on the second connection
	for k := 0; k < scale(24, 120); k++ {
		c1, c2 := base(k), base(k/2)
		if g.pct(50) {
			c1.subs = []submission{{list: g.subList(&id, 0)}}
		}
		c1.acts = []act{sleep(60 * ms), {op: pick(g, "close", "shut", "reset")}}
		for r := 0; r < 2; r++ {
			for n := 0; n < 6; n++ {
				c2.subs = append(c2.subs, submission{routine: r, list: g.subList(&id, 0), pause: time.Duration(g.Intn(3)) * ms})
			}
		}
		traffic(c2, 5, ms)
		add("second connection", c1, c2)
	}
	return
}

// ---- C10 ----

// a header and then nothing; "limit" or "stall"
func header(n uint32) []byte { return binary.LittleEndian.AppendUint32(nil, n) }

func brokenSessions(g gen) (ss []*session) {
	short := shortMsgs()
	add := func(name string, cs ...*panelConn) *session {
		last := binConn()
		last.acts = []act{send(last.frames(g.someMsgs(2)...), 0), sleep(20 * ms)}
		s := &session{name: name, conns: append(cs, last), tail: 20 * ms, re: 1}
		ss = append(ss, s)
		return s
	}
	limit := func(n uint32, before int, more []byte, together bool) *panelConn {
		c := binConn()
		c.broken = "limit"
		b := c.frames(g.someMsgs(before)...)
		h := c.raw(append(header(n), more...))
		if together {
			c.acts = []act{send(append(b, h...), 3*ms, g.randomCuts(len(b)+4, g.Intn(4))...)}
		} else {
			c.acts = []act{send(b, 0), sleep(20 * ms), send(h, 3*ms, g.randomCuts(4, g.Intn(3))...)}
		}
		c.acts = append(c.acts, act{op: "eof"})
		return c
	}
	for _, n := range []uint32{500000, 500001, 500002, 524288, 1 << 20, 1 << 24, 1 << 30, 1<<31 - 4, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 500000, 1<<32 - 4, 1<<32 - 1,
		uint32(0x0a594452) /* RDY\n */, 0x3d70616d /* map= */, 0x00080000, 0x10000002, 0x80000002} {
		for before := 0; before < 3; before++ {
			var more []byte
			if g.pct(60) { // what follows would be messages if it were read as such
				x := &panelConn{}
				more = x.frames(g.someMsgs(1 + g.Intn(3))...)
			}
			add(fmt.Sprintf("header %d", n), limit(n, before, more, before != 1))
		}
	}
	for k := 0; k < scale(10, 200); k++ {
		n := uint32(500000 + g.Intn(1<<pick(g, 4, 10, 20, 31)))
		add(fmt.Sprintf("header %d", n), limit(n, g.Intn(4), g.bytes(g.Intn(50)), g.pct(50)))
	}
	// just below the limit it is a frame like any other
	for _, n := range []int{499999, 499998, 499900} {
		c := binConn()
		b := c.frames(sized(n, "big"), short[0])
		b = append(b, c.junk(append([]byte{0xff}, g.bytes(n-1)...))...)
		b = append(b, c.frames(short...)...)
		c.acts = []act{send(b, ms, g.randomCuts(len(b), 5)...), sleep(100 * ms), {op: "close"}}
		add(fmt.Sprintf("frame %d", n), c)
	}
	// a frame cut at every point, then nothing, at the beginning of the stream or later
	stall := func(payload []byte, at, before int, split bool) *panelConn {
		c := binConn()
		c.broken = "stall"
		b := c.frames(g.someMsgs(before)...)
		f := frame(payload)
		h := c.raw(f[:at])
		if split {
			c.acts = []act{send(b, 0), sleep(20 * ms), send(h, 5*ms, g.randomCuts(at, 2)...)}
		} else {
			c.acts = []act{send(append(b, h...), 0)}
		}
		c.acts = append(c.acts, act{op: "eof"})
		return c
	}
	for _, m := range []*rwp.OutboundMessage{short[0], short[1], short[6], sized(40, "stall")} {
		p, _ := proto.Marshal(m)
		for at := 1; at < 4+len(p); at++ {
			for before := 0; before < 3; before += 2 {
				add(fmt.Sprintf("stall at %d", at), stall(p, at, before, before == 0 && at%2 == 0))
			}
		}
	}
	for k := 0; k < scale(20, 200); k++ {
		p := g.bytes(pick(g, 300, 1000, 5000, 100000, 499999))
		at := 4 + g.Intn(len(p))
		if g.pct(20) {
			at = 3 + len(p) // one byte is missing
		}
		add(fmt.Sprintf("stall of %d at %d", len(p), at), stall(p, at, g.Intn(3), g.pct(50)))
	}
	for k := 0; k < scale(30, 300); k++ { // where the part that arrived is a message
		p, _ := proto.Marshal(g.someMsg())
		x, _ := proto.Marshal(g.someMsg())
		p = append(p, x...)
		if at := prefixes(p); len(at) > 1 {
			add("stall between fields", stall(p, 4+at[g.Intn(len(at)-1)], g.Intn(3), g.pct(50)))
		}
	}
	// slow first, then stalled: the timeout counts from the last byte
	for k := 0; k < scale(4, 16); k++ {
		c := binConn()
		c.broken = "stall"
		f := frame(g.bytes(30))
		h := c.raw(f[:20])
		c.acts = []act{send(h, 1300*ms, 2+g.Intn(3), 8+g.Intn(5)), {op: "eof"}}
		add("slow, then stalled", c)
	}
	for k := 0; k < scale(4, 16); k++ { // in the same way, the part that arrived is a message
		p, _ := proto.Marshal(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: 5}, {HWCID: 6}, {HWCID: 7}, {HWCID: 8}}})
		c := binConn()
		c.broken = "stall"
		at := prefixes(p)
		c.acts = []act{send(c.raw(frame(p)[:4+at[2]]), 1300*ms, 4+g.Intn(2)*at[0], 4+at[1]), {op: "eof"}}
		add("slow, then stalled", c)
	}
	// after a pause the rest arrives: too late
	for k := 0; k < scale(6, 30); k++ {
		c := binConn()
		c.broken = "stall"
		b := c.frames(short[0])
		x := &panelConn{}
		f := x.frames(sized(30, "late"), short[5])
		cut := 1 + g.Intn(33)
		c.acts = []act{send(append(b, c.raw(f[:cut])...), 0), sleep(2600 * ms), act{op: "late", b: f[cut:]}, {op: "eof"}}
		add("late rest", c)
	}
	// payloads that are no message
	for k := 0; k < scale(120, 1500); k++ {
		c := binConn()
		var b []byte
		for n := 1 + g.Intn(12); n > 0; n-- {
			if g.pct(50) {
				b = append(b, c.junk(g.junkPayload(pick(g, 0, 1, 1, 2, 3, 5, 20, 200)))...)
			} else {
				b = append(b, c.frames(g.someMsg())...)
			}
		}
		b = append(b, c.frames(short...)...)
		c.acts = []act{send(b, 2*ms, g.randomCuts(len(b), g.Intn(6))...)}
		if k%2 == 0 {
			c.acts = append(c.acts, sleep(60*ms), act{op: "close"})
			add("junk, reconnect", c)
		} else {
			ss = append(ss, &session{name: "junk", conns: []*panelConn{c}, tail: 30 * ms})
		}
	}
	// each single byte as payload, and each single bit flipped in a short message
	for b := 0; b < 256; b += 16 {
		c := binConn()
		var s []byte
		for k := b; k < b+16; k++ {
			s = append(s, c.junk([]byte{byte(k)})...)
			s = append(s, c.frames(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: uint32(k + 1), Binary: &rwp.BinaryEvent{Pressed: true}}}})...)
		}
		c.acts = []act{send(s, ms, g.randomCuts(len(s), 5)...)}
		ss = append(ss, &session{name: "one byte", conns: []*panelConn{c}, tail: 30 * ms})
	}
	p, _ := proto.Marshal(sized(24, "flip"))
	p2, _ := proto.Marshal(short[5])
	c := binConn()
	var s []byte
	for _, p := range [][]byte{p, p2} {
		for k := 0; k < 8*len(p); k++ {
			q := append([]byte{}, p...)
			q[k/8] ^= 1 << (k % 8)
			s = append(s, c.junk(q)...)
			if k%5 == 0 {
				s = append(s, c.frames(short[0])...)
			}
		}
	}
	s = append(s, c.frames(short...)...)
	c.acts = []act{send(s, ms, g.randomCuts(len(s), 9)...)}
	ss = append(ss, &session{name: "bit flips", conns: []*panelConn{c}, tail: 30 * ms})
	// combinations across reconnects
	for k := 0; k < scale(12, 80); k++ {
		var cs []*panelConn
		for n := 2 + g.Intn(2); n > 0; n-- {
			switch g.Intn(3) {
			case 0:
				cs = append(cs, limit(uint32(500000+g.Intn(1<<30)), g.Intn(2), nil, true))
			case 1:
				cs = append(cs, stall(g.bytes(30), 1+g.Intn(33), g.Intn(2), true))
			default:
				c := binConn()
				b := append(c.junk(g.junkPayload(9)), c.frames(short...)...)
				c.acts = []act{send(b, ms, 3), sleep(60 * ms), {op: "close"}}
				cs = append(cs, c)
			}
		}
		add("combination", cs...)
	}
	return
}

// the memory that a connection with such a header takes
func panelAlloc() {
	cases := arr{}
	for _, n := range []uint32{0, 600000, 1 << 24, 100_000_000, 1 << 30, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		for rep := 0; rep < 2; rep++ {
			c := binConn()
			b := c.frames(shortMsgs()...)
			if n > 0 {
				c.broken = "limit"
				b = append(b, c.raw(header(n))...)
			}
			c.acts = []act{send(b, 0), sleep(300 * ms)}
			s := &session{name: fmt.Sprintf("allocation for %d", n), conns: []*panelConn{c}, tail: 10 * ms}
			runtime.GC()
			var m0, m1 runtime.MemStats
			runtime.ReadMemStats(&m0)
			s.run()
			runtime.ReadMemStats(&m1)
			cases = append(cases, obj{"kind": "alloc", "header": fmt.Sprint(n), "bytes": int(m1.TotalAlloc-m0.TotalAlloc) / 1024, "bound": 8192, "index": -1})
		}
	}
	saveCases(out("alloc.json"), cases)
}

// ---- C11 ----

func lifeSessions(g gen) (ss []*session) {
	short := shortMsgs()
	good := func(k int) *panelConn {
		if k%2 == 0 {
			c := binConn()
			c.acts = []act{send(c.frames(g.someMsgs(2)...), 0), sleep(20 * ms)}
			return c
		}
		c := asciiConn("rdy")
		c.acts = []act{send(c.lines("\n", "HWC#4=Down", "HWC#4=Up"), 0), sleep(20 * ms)}
		return c
	}
	add := func(name string, cs ...*panelConn) *session {
		s := &session{name: name, conns: cs, tail: 20 * ms}
		ss = append(ss, s)
		return s
	}
	// lost at every offset of a binary stream and of an ASCII stream, including the reply
	{
		all := &panelConn{}
		whole := all.frames(short...)
		n := len(whole)
		for at := 0; at <= n; at++ {
			for _, how := range []string{"close", "shut", "reset"} {
				if !*thorough && how != []string{"close", "shut", "reset"}[at%3] && at%5 != 0 {
					continue
				}
				c := binConn()
				b := c.frames(short...)
				c.acts = []act{send(b[:at], 5*ms, g.randomCuts(max(at, 2), g.Intn(2))...)}
				if how == "reset" || at%2 == 0 { // what a reset overtakes is lost
					c.acts = append(c.acts, sleep(70*ms))
				}
				c.acts = append(c.acts, act{op: how})
				add(fmt.Sprintf("binary %s at %d", how, at), c, good(at))
			}
		}
		lines := []string{"HWC#7=Down", "map=3:4", "HWC#7=Up", "HWC#9=Enc:-3", "ping"}
		n = len(strings.Join(lines, "\r\n")) + 2
		for at := 0; at <= n; at++ {
			how := pick(g, "close", "shut", "reset")
			c := asciiConn("rdy")
			b := c.lines("\r\n", lines...)
			c.acts = []act{send(b[:at], 5*ms, g.randomCuts(max(at, 2), g.Intn(2))...), sleep(70 * ms), {op: how}}
			add(fmt.Sprintf("ascii %s at %d", how, at), c, good(at))
		}
		for at := 0; at < 6; at++ { // during negotiation
			c := &panelConn{class: "partial", pre: []act{send(ackFrame()[:at], 5*ms), sleep(time.Duration(g.Intn(2)*40) * ms), {op: "close"}}}
			add(fmt.Sprintf("lost in the reply at %d", at), c, good(at))
		}
		c := &panelConn{class: "partial", probeOff: true, pre: []act{{op: "close"}}}
		add("lost at once", c, good(0))
		c = &panelConn{class: "partial", probeOff: true, pre: []act{{op: "reset"}}}
		add("lost at once", c, good(1))
	}
	// long frames, lost anywhere
	for k := 0; k < scale(10, 100); k++ {
		c := binConn()
		b := c.frames(sized(100000, "a"), sized(499999, "b"), short[0], sized(300000, "c"))
		c.acts = []act{send(b[:g.Intn(len(b))], ms, 90000, 400000), sleep(100 * ms), {op: "close"}}
		add("long frame lost", c, good(k))
	}
	// repeated losses, configured and default periods
	for k := 0; k < scale(10, 40); k++ {
		var cs []*panelConn
		for n := 2 + g.Intn(3); n > 0; n-- {
			c := good(g.Intn(2))
			c.acts = append(c.acts, sleep(time.Duration(g.Intn(300))*ms), act{op: pick(g, "close", "shut")})
			cs = append(cs, c)
		}
		s := add("cycles", append(cs, good(k))...)
		switch g.Intn(4) {
		case 0:
			s.re, s.no = 1, 1
		case 1:
			s.no = 1
		case 2:
			s.re = 2
			if !*thorough {
				s.conns = s.conns[len(s.conns)-3:]
			}
		}
	}
	// lost again and again, and nobody listening for many attempts
	for k := 0; k < scale(2, 5); k++ {
		var cs []*panelConn
		for n := 0; n < scale(13, 35); n++ {
			c := good(n*(k%2) + g.Intn(2)*(k/2))
			if n%5 == 3 {
				c = &panelConn{class: "partial", probeOff: true, pre: []act{{op: "close"}}}
			} else {
				c.acts = append(c.acts, act{op: pick(g, "close", "shut", "reset")})
				if c.acts[len(c.acts)-1].op == "reset" { // what a reset overtakes is lost
					c.acts = append(c.acts[:len(c.acts)-1], sleep(70*ms), c.acts[len(c.acts)-1])
				}
			}
			cs = append(cs, c)
		}
		s := add("many cycles", append(cs, good(k))...)
		s.re, s.no, s.long = 1, 1, time.Duration(len(cs)-5)*time.Second
		s = add("absent for many attempts", good(k))
		s.absent, s.re, s.no, s.long = time.Duration(scale(11500, 70500))*ms, 1, 1, time.Duration(scale(6, 70))*time.Second
		c := good(k)
		c.acts = append(c.acts, act{op: "close"})
		c.gone = time.Duration(scale(11500, 70500)) * ms
		s = add("absent for many attempts", c, good(k+1))
		s.re, s.no, s.long = 1, 1, time.Duration(scale(6, 70))*time.Second
	}
	// losses while submissions are going on
	for k := 0; k < scale(16, 80); k++ {
		c := good(k)
		for r := 0; r < 3; r++ {
			for n := 0; n < 10; n++ {
				c.subs = append(c.subs, submission{routine: r, pause: time.Duration(g.Intn(3)) * ms, list: []*rwp.InboundMessage{g.inMsg()}})
			}
		}
		c.acts = append(c.acts, sleep(time.Duration(g.Intn(20))*ms), act{op: pick(g, "close", "shut", "reset")})
		add("lost while submitting", c, good(k/2)).tail = 300 * ms
	}
	// periods of several seconds
	for k := 0; k < 3; k++ {
		c := good(k)
		c.acts = append(c.acts, act{op: "close"})
		s := add("long period", c, good(1))
		s.re, s.no = 3+k, 1
	}
	// nobody listening: at first, after a loss
	for _, x := range [][3]int{{300, 0, 0}, {3300, 0, 0}, {700, 0, 1}, {1500, 0, 1}, {2500, 3, 1}, {2100, 1, 2}, {4100, 1, 2}} {
		for subs := 0; subs < 2; subs++ {
			s := add("absent at first", good(subs))
			s.absent, s.re, s.no = time.Duration(x[0])*ms, x[1], x[2]
			s.absentSubs = subs * 25
		}
	}
	for _, x := range [][3]int{{500, 0, 0}, {1700, 0, 1}, {2600, 1, 1}, {3500, 2, 1}, {2500, 0, 3}, {3500, 1, 2}} {
		for how := 0; how < 2; how++ {
			c := good(how)
			c.acts = append(c.acts, act{op: "close"})
			c.gone = time.Duration(x[0]) * ms
			s := add("absent after a loss", c, good(how+1))
			s.re, s.no = x[1], x[2]
		}
	}
	// cancellation in every phase, with long periods
	cancelled := func(name string, s *session) {
		s.name, s.fixedCancel, s.tail = name, true, 20*ms
		if s.re == 0 {
			s.re, s.no = 20, 20
		}
		ss = append(ss, s)
	}
	for k := 0; k < scale(6, 20); k++ {
		at := time.Duration(1+g.Intn(1200)) * ms
		cancelled("cancelled while nobody listens", &session{absent: time.Hour, cancelAt: at, absentSubs: k % 3 * 4})
		cancelled("cancelled while the connection is being made", &session{backlog: true, cancelAt: at})
		cancelled("cancelled during negotiation", &session{conns: []*panelConn{asciiConn("silent")}, cancelAt: at + 300*ms})
		c := binConn()
		c.replyDelay = 1500 * ms
		cancelled("cancelled before the reply", &session{conns: []*panelConn{c}, cancelAt: at})
		c = binConn()
		c.reply, c.class, c.pre = nil, "partial", []act{send(ackFrame()[:1+g.Intn(5)], 0), sleep(time.Duration(100+g.Intn(300)) * ms), {op: "cancel"}}
		cancelled("cancelled within the reply", &session{conns: []*panelConn{c}})
	}
	for at := 0; at < 3; at++ { // right at the beginning
		cancelled("cancelled at once", &session{conns: []*panelConn{good(at)}, cancelAt: time.Duration(1+at) * time.Microsecond})
		cancelled("cancelled upon accept", &session{conns: []*panelConn{{class: "partial", probeOff: true, pre: []act{{op: "cancel"}}}}})
	}
	all := &panelConn{}
	n := len(all.frames(short...))
	for at := 0; at <= n; at++ { // at every offset
		c := binConn()
		b := c.frames(short...)
		c.acts = []act{send(b[:at], 3*ms, g.randomCuts(max(2, at), g.Intn(2))...)}
		if at%2 == 0 {
			c.acts = append(c.acts, sleep(120*ms))
		}
		c.acts = append(c.acts, act{op: "cancel"})
		cancelled(fmt.Sprintf("cancelled at %d", at), &session{conns: []*panelConn{c}})
		if at%3 == 0 {
			c := asciiConn("rdy")
			b := c.lines("\n", "HWC#7=Down", "HWC#7=Up", "HWC#9=Enc:-3", "map=3:4", "ping", "ack", "HWC#7=Press")
			c.acts = []act{send(b[:min(at, len(b))], 0), sleep(120 * ms), {op: "cancel"}}
			cancelled(fmt.Sprintf("ascii cancelled at %d", at), &session{conns: []*panelConn{c}})
		}
	}
	for k := 0; k < scale(30, 300); k++ {
		// cancelled about when the panel drops the connection
		c := good(k)
		d := time.Duration(g.Intn(3000)) * time.Microsecond
		if g.pct(50) {
			c.acts = append(c.acts, act{op: "cancel"}, sleep(d), act{op: pick(g, "close", "reset", "shut")})
		} else {
			c.acts = append(c.acts, act{op: pick(g, "close", "reset", "shut")}, sleep(d), act{op: "cancel"})
		}
		cancelled("cancelled and dropped", &session{conns: []*panelConn{c}})
		// cancelled while much traffic goes either way
		c = good(k)
		for r := 0; r < 3; r++ {
			for n := 0; n < 20; n++ {
				c.subs = append(c.subs, submission{routine: r, list: []*rwp.InboundMessage{g.inMsg()}, pause: time.Duration(g.Intn(2)) * ms})
			}
		}
		if c.ascii {
			c.acts = append(c.acts, send(c.lines("\n", g.someLines(20)...), 0))
		} else {
			c.acts = append(c.acts, send(c.frames(g.someMsgs(20)...), 0))
		}
		cancelled("cancelled under load", &session{conns: []*panelConn{c}, cancelAt: time.Duration(5+g.Intn(60)) * ms, slowReader: time.Duration(g.Intn(3)) * ms})
		// while waiting to reconnect
		c = good(k)
		c.acts = append(c.acts, act{op: "close"}, sleep(time.Duration(50+g.Intn(800))*ms), act{op: "cancel"})
		cancelled("cancelled while waiting", &session{conns: []*panelConn{c}})
		if k%3 == 0 {
			c = good(k)
			c.acts = append(c.acts, act{op: "close"}, sleep(time.Duration(1200+g.Intn(1000))*ms), act{op: "cancel"})
			c.gone = time.Hour
			cancelled("cancelled while absent after a loss", &session{conns: []*panelConn{c}, re: 1, no: 20})
		}
		// after a reconnect
		if k%3 == 1 {
			c = good(k)
			c.acts = append(c.acts, act{op: "close"})
			c2 := good(k / 3)
			c2.acts = append(c2.acts, sleep(110*ms), act{op: "cancel"})
			cancelled("cancelled after a reconnect", &session{conns: []*panelConn{c, c2}, re: 1, no: 20})
		}
	}
	// cancelled by the callbacks
	for k := 0; k < scale(12, 40); k++ {
		c := good(k)
		c.acts = append(c.acts, act{op: "eof"})
		s := &session{conns: []*panelConn{c}, cancelIn: "connect", cancelNth: 1}
		if k%3 > 0 {
			c.acts[len(c.acts)-1].op = pick(g, "close", "shut", "reset")
			s.cancelIn = "disconnect"
			if k%3 == 2 {
				c2 := good(k / 3)
				if k%2 == 0 {
					c2 = binConn()
					c2.broken = "limit"
					c2.acts = []act{send(c2.raw(header(600000)), 0), {op: "eof"}}
				} else {
					c2.acts = append(c2.acts, act{op: "close"})
				}
				s.conns, s.cancelNth, s.re, s.no = append(s.conns, c2), 2, 1, 20
			}
		}
		cancelled("cancelled by the "+s.cancelIn+" callback", s)
	}
	// callbacks that take their time
	for k := 0; k < scale(8, 30); k++ {
		c := good(k)
		c.acts = append(c.acts, act{op: pick(g, "close", "shut")})
		c2 := good(k / 2)
		c2.acts = append(c2.acts, sleep(100*ms), act{op: "close"})
		for n := 0; n < 8; n++ {
			c2.subs = append(c2.subs, submission{routine: n % 2, list: []*rwp.InboundMessage{g.inMsg()}})
		}
		add("slow callbacks", c, c2, good(k)).cbPause = time.Duration(200+g.Intn(500)) * ms
	}
	// neither callbacks nor wait group
	for k := 0; k < scale(8, 30); k++ {
		c := good(k)
		c.acts = append(c.acts, act{op: pick(g, "close", "shut")})
		add("no callbacks", c, good(k/2)).mute = true
		if k%2 == 0 {
			cancelled("no callbacks", &session{conns: []*panelConn{good(k / 2)}, cancelAt: time.Duration(1+g.Intn(1200)) * ms, mute: true})
		}
	}
	// cancelled while the writer is blocked: the panel reads nothing
	for k := 0; k < 6; k++ {
		c := good(k)
		c.noRead = true
		id := uint32(5000)
		for n := 0; n < 40; n++ {
			c.subs = append(c.subs, submission{routine: n % 2, list: []*rwp.InboundMessage{{States: []*rwp.HWCState{{HWCIDs: []uint32{id}, HWCGfx: g.gfx(400000)}}}}})
		}
		c.acts = append(c.acts, sleep(700*ms), act{op: "cancel"})
		cancelled("cancelled while the writer is blocked", &session{conns: []*panelConn{c}})
	}
	// the writer is blocked and the panel is lost
	for k := 0; k < 4; k++ {
		c := good(k)
		c.noRead = true
		for n := 0; n < 20; n++ {
			c.subs = append(c.subs, submission{routine: n % 2, list: []*rwp.InboundMessage{{States: []*rwp.HWCState{{HWCIDs: []uint32{9}, HWCGfx: g.gfx(400000)}}}}})
		}
		c.acts = append(c.acts, sleep(500*ms), act{op: "shut"})
		add("lost while the writer is blocked", c, good(k))
	}
	return
}

// ---- C12 ----

func probeSessions(g gen) (ss []*session) {
	delays := []int{0, 1, 10, 100, 400, 800, 1000, 1200, 1500, 1700, 1850}
	some := func(c *panelConn, k int) *session {
		if c.ascii {
			c.acts = append(c.acts, send(c.lines("\n", "HWC#4=Down", "HWC#4=Up"), 0))
		} else {
			c.acts = append(c.acts, send(c.frames(shortMsgs()...), 0))
		}
		if k%3 == 0 {
			for n := 0; n < 3; n++ {
				c.subs = append(c.subs, submission{routine: n % 2, list: []*rwp.InboundMessage{{States: []*rwp.HWCState{{HWCIDs: []uint32{uint32(n + 1)}, HWCMode: &rwp.HWCMode{State: 4}}}}}})
			}
		}
		if k%3 == 1 {
			c.acts = append(c.acts, sleep(100*ms), act{op: "close"})
		}
		s := &session{name: "reply " + c.class, conns: []*panelConn{c}, tail: 80 * ms}
		ss = append(ss, s)
		return s
	}
	k := 0
	for _, d := range delays {
		for rep := 0; rep < scale(3, 9); rep++ {
			k++
			c := binConn()
			c.replyDelay = time.Duration(d) * ms
			if rep > 0 && d < 1700 {
				c.replyCuts = g.randomCuts(6, 1+g.Intn(3))
			}
			some(c, k)
			if rep == 0 {
				for _, f := range ackFrames()[1:] {
					k++
					c := binConn()
					c.reply, c.replyDelay = f, time.Duration(d)*ms
					if g.pct(50) && d < 1700 {
						c.replyCuts = g.randomCuts(len(f), 1+g.Intn(3))
					}
					some(c, k)
				}
			}
			for _, r := range replies() {
				k++
				c := &panelConn{class: r.class, ascii: true, reply: []byte(r.text), errText: r.err, replyDelay: time.Duration(d) * ms}
				if rep > 0 && d < 1700 {
					c.replyCuts = g.randomCuts(len(r.text), 1+g.Intn(3))
				}
				s := some(c, k)
				if k%7 == 0 { // and at once a close
					c.acts = []act{{op: "close"}}
					c.items, c.sent, c.subs = nil, 0, nil
					s.name += ", then closed"
				}
			}
		}
	}
	for rep := 0; rep < scale(12, 40); rep++ {
		k++
		some(asciiConn("silent"), k)
	}
	// other frames
	for rep := 0; rep < scale(12, 60); rep++ {
		c := &panelConn{class: "other"}
		b, _ := proto.Marshal(g.outMsg())
		c.reply = frame(b)
		c.acts = []act{sleep(50 * ms)}
		ss = append(ss, &session{name: "other frame", conns: []*panelConn{c}, tail: 30 * ms})
	}
	return
}

type reply struct{ class, text, err string }

func replies() []reply {
	r := []reply{{"rdy", "RDY\n", ""}, {"rdy", "RDY\r\n", ""}, {"map", "map=1:1\n", ""}, {"map", "map=12:0\r\n", ""}, {"map", "map=1:1\nmap=2:2\nmap=3:3\n", ""},
		{"text", "list\n", ""}, {"text", "Welcome!\r\n", ""}, {"text", "BUSY\nRDY\n", ""}, {"text", "_model=SK\n_serial=1\n", ""}}
	for _, e := range []string{"Too many connections", "", "x", "a=b ErrorMsg=c", strings.Repeat("long ", 60), "Panel æøå"} {
		r = append(r, reply{"error", "ErrorMsg=" + e + "\n", e}, reply{"error", "ErrorMsg=" + e + "\r\n", e})
	}
	return r
}

// the stand-alone detector
func panelDetect() {
	type job struct {
		class string
		text  []byte
		delay time.Duration
		cuts  []int
		close bool
	}
	g := gen{rand.New(rand.NewSource(*seed))}
	var jobs []job
	for _, d := range []int{0, 1, 50, 300, 700, 1000, 1300, 1600, 1850} {
		for rep := 0; rep < scale(3, 8); rep++ {
			j := job{class: "ack", text: ackFrame(), delay: time.Duration(d) * ms, close: g.pct(20)}
			if rep > 0 && d < 1700 {
				j.cuts = g.randomCuts(6, 1+g.Intn(3))
			}
			jobs = append(jobs, j)
			if rep == 0 {
				for _, f := range ackFrames()[1:] {
					j := job{class: "ack", text: f, delay: time.Duration(d) * ms}
					if g.pct(50) && d < 1700 {
						j.cuts = g.randomCuts(len(f), 1+g.Intn(3))
					}
					jobs = append(jobs, j)
				}
			}
			for _, r := range replies() {
				if r.class != "rdy" && r.class != "map" {
					continue
				}
				j := job{class: r.class, text: []byte(r.text), delay: time.Duration(d) * ms, close: g.pct(20)}
				if rep > 0 && d < 1700 {
					j.cuts = g.randomCuts(len(r.text), 1+g.Intn(3))
				}
				jobs = append(jobs, j)
			}
		}
	}
	for k := 0; k < 6; k++ {
		jobs = append(jobs, job{class: "silent"})
	}
	for k := 0; k < 4; k++ {
		b, _ := proto.Marshal(g.outMsg())
		jobs = append(jobs, job{class: "other", text: frame(b)})
	}
	run := func(j job) any {
		ln, addr := listenAny()
		defer ln.Close()
		rx := make(chan []byte)
		go func() {
			conn, err := ln.Accept()
			if err != nil {
				panic(err)
			}
			got := make(chan []byte)
			six := make(chan bool, 1)
			go func() {
				var b []byte
				buf := make([]byte, 1000)
				for {
					n, err := conn.Read(buf)
					b = append(b, buf[:n]...)
					if len(b) >= 6 && len(b)-n < 6 {
						six <- true
					}
					if err != nil {
						got <- b
						return
					}
				}
			}()
			select {
			case <-six:
			case <-time.After(4 * time.Second):
			}
			if j.text != nil {
				time.Sleep(j.delay)
				sendCut(conn, j.text, j.cuts, 5*ms)
			}
			if j.close {
				conn.(*net.TCPConn).CloseWrite()
			}
			rx <- <-got
			conn.Close()
		}()
		conn, err := net.Dial("tcp", addr)
		if err != nil {
			panic(err)
		}
		t0 := time.Now()
		c := obj{"kind": "detect", "class": j.class, "reply": string(j.text), "delay": int(j.delay / ms), "name": "detect " + j.class, "binary": false}
		if p := guardLong("detect", func() { c["binary"] = helpers.AutoDetectIfPanelEncodingIsBinary(conn, addr) }); p != "" {
			c["kind"] = "panic"
		}
		c["took"] = int(time.Since(t0) / ms)
		time.Sleep(60 * ms)
		conn.Close()
		c["rx"] = bytesArr(<-rx)
		return c
	}
	if *only >= 0 {
		cases := arr{}
		for k := 0; k < 12; k++ {
			cases = append(cases, run(jobs[*only]))
		}
		saveCases(out("sessions.json"), cases)
		return
	}
	cases := make(arr, len(jobs))
	sem := make(chan bool, 100)
	done := make(chan bool)
	for k := range jobs {
		go func() {
			sem <- true
			cases[k] = run(jobs[k])
			cases[k].(obj)["index"] = k
			<-sem
			done <- true
		}()
	}
	for range jobs {
		<-done
	}
	saveCases(out("sessions.json"), cases)
}

// ---- sessions that TLC has generated ----

type scriptConn struct {
	Ascii bool     `json:"ascii"`
	Units []string `json:"units"`
	End   string   `json:"end"`
}

func scriptSessions(g gen) (ss []*session) {
	var scripts [][]scriptConn
	b, err := os.ReadFile(*inFile)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &scripts); err != nil {
		panic(err)
	}
	event := func(k int) *rwp.OutboundMessage {
		return &rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: uint32(k), Binary: &rwp.BinaryEvent{Pressed: true}}}}
	}
	for _, sc := range scripts {
		s := &session{tail: 20 * ms, re: 1, no: 20}
		s.name = "script "
		for ci, x := range sc {
			s.name += fmt.Sprint(x)
			c := binConn()
			if x.Ascii {
				c = asciiConn("rdy")
			}
			var b []byte
			for k, u := range x.Units {
				id := 100*ci + k + 1
				switch u {
				case "F":
					b = append(b, c.frames(event(id))...)
				case "J":
					b = append(b, c.junk([]byte{0xff, byte(id)})...)
				case "0":
					b = append(b, c.frames(&rwp.OutboundMessage{})...)
				case "L":
					b = append(b, c.lines("\r\n", fmt.Sprintf("HWC#%d=Down", id))...)
				case "N":
					b = append(b, c.lines("\n", "")...)
				}
			}
			part := frame([]byte{8, 1, 8, 1, 8, 1})
			if x.Ascii {
				part = []byte("HWC#99=Down")
			}
			end := strings.Split(x.End, "-")
			switch end[0] {
			case "head":
				b = append(b, c.raw(part[:2])...)
			case "body":
				b = append(b, c.raw(part[:7])...)
			case "over":
				b = append(b, c.raw(header(500000))...)
				c.broken = "limit"
			}
			c.acts = []act{send(b, 2*ms, g.randomCuts(max(2, len(b)), g.Intn(3))...), sleep(120 * ms)}
			switch end[len(end)-1] {
			case "drop":
				c.acts = append(c.acts, act{op: pick(g, "close", "shut", "reset")})
			case "stall":
				c.broken = "stall"
				c.acts = append(c.acts[:1], act{op: "eof"})
			case "over":
				c.acts = append(c.acts[:1], act{op: "eof"})
			case "cancel":
				c.acts = append(c.acts, act{op: "cancel"})
				s.fixedCancel = true
			case "wait": // dropped, then cancelled while waiting
				c.acts = append(c.acts, act{op: "close"}, sleep(300*ms), act{op: "cancel"})
				s.fixedCancel = true
			}
			s.conns = append(s.conns, c)
		}
		ss = append(ss, s)
	}
	return
}
