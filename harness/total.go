package main

import (
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	helpers "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() { cmds["total"] = total }

// a call of one of the five functions on one input
type call struct {
	f     string
	lines []string
	in    []*rwp.InboundMessage
	out   []*rwp.OutboundMessage
}

func lineDigest(ls []string) string {
	s := append([]string{}, ls...)
	sort.Strings(s) // HWCavailability is a map: its lines come in no particular order
	h := sha1.New()
	for _, l := range s {
		fmt.Fprintf(h, "%d:", len(l))
		h.Write([]byte(l))
	}
	return fmt.Sprintf("%d/%s", len(ls), hex.EncodeToString(h.Sum(nil)[:8]))
}
func msgDigest[M proto.Message](ms []M) (string, bool) {
	h := sha1.New()
	isNil := false
	for _, m := range ms {
		if !m.ProtoReflect().IsValid() {
			isNil = true
		}
		b, _ := json.Marshal(tree(m))
		h.Write(b)
	}
	return fmt.Sprintf("%d/%s", len(ms), hex.EncodeToString(h.Sum(nil)[:8])), isNil
}

// result of a call: a digest of what was returned, or "nil message" / what it panicked with
func (c *call) run() (res string) {
	p := guard(c.desc(), func() {
		isNil := false
		switch c.f {
		case "in-enc":
			res = lineDigest(helpers.InboundMessagesToRawPanelASCIIstrings(c.in))
		case "out-enc":
			res = lineDigest(helpers.OutboundMessagesToRawPanelASCIIstrings(c.out))
		case "in-dec":
			res, isNil = msgDigest(helpers.RawPanelASCIIstringsToInboundMessages(c.lines))
		case "out-dec":
			res, isNil = msgDigest(helpers.RawPanelASCIIstringsToOutboundMessages(c.lines))
		case "reader":
			rd := &helpers.ASCIIreader{}
			var all []*rwp.InboundMessage
			for _, l := range c.lines {
				all = append(all, rd.Parse(l)...)
			}
			res, isNil = msgDigest(all)
		}
		if isNil {
			res = "nil message"
		}
	})
	if p != "" {
		res = "panic: " + p
	}
	return
}

func (c *call) desc() string {
	switch c.f {
	case "in-enc":
		return c.f + " " + fmt.Sprintf("%.2000s", fmt.Sprint(c.in))
	case "out-enc":
		return c.f + " " + fmt.Sprintf("%.2000s", fmt.Sprint(c.out))
	}
	t := 0
	for _, l := range c.lines {
		t += len(l)
	}
	if t > 4000 {
		return fmt.Sprintf("%s (%d bytes) %.300q", c.f, t, c.lines)
	}
	return fmt.Sprintf("%s %q", c.f, c.lines)
}

// ---- messages off the wire ----
var depthLimit = 5

// emptyPaths lists all paths to sub-messages (field numbers), so that each can be present but empty.
func emptyPaths(md protoreflect.MessageDescriptor, pre []protoreflect.FieldDescriptor) [][]protoreflect.FieldDescriptor {
	var r [][]protoreflect.FieldDescriptor
	if len(pre) >= depthLimit {
		return r
	}
	for k := 0; k < md.Fields().Len(); k++ {
		fd := md.Fields().Get(k)
		if fd.IsMap() || fd.Kind() != protoreflect.MessageKind {
			continue
		}
		p := append(append([]protoreflect.FieldDescriptor{}, pre...), fd)
		r = append(r, p)
		r = append(r, emptyPaths(fd.Message(), p)...)
	}
	return r
}
func setPath(m protoreflect.Message, p []protoreflect.FieldDescriptor) protoreflect.Message {
	for _, fd := range p {
		if fd.IsList() {
			l := m.Mutable(fd).List()
			if l.Len() == 0 {
				l.AppendMutable()
			}
			m = l.Get(0).Message()
		} else {
			m = m.Mutable(fd).Message()
		}
	}
	return m
}

func (g gen) hostileStr() string {
	return pick(g, "", "a", "\n", "x\ny\r\nz", "\x00", "|", "|||", "%s%d%!", "\xc2\xa0", "\xe2\x80\xa8", strings.Repeat("A", 300), "=", "#", ":", "{", "[", "[null]", "\"", "\\", g.word(), "<path d=\"M 1\n2\"/>", "0", "-1", "Mem", "A", "B", "ABC", "1", "99999999999999999999")
}
func (g gen) val(fd protoreflect.FieldDescriptor) protoreflect.Value {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(g.pct(50))
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(pick(g, int32(g.Intn(20)), int32(g.Intn(20)), -1, 17, 18, 19, 99, 255, 256, math.MaxInt32, math.MinInt32)))
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(g.hostileStr())
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes(g.bytes(pick(g, 0, 1, 2, 3, 169, 170, 171, 340, g.Intn(600))))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(pick(g, 0, 1, -1, 0.5, float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), math.MaxFloat32, 1e-40))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind:
		return protoreflect.ValueOfInt32(g.i32())
	case protoreflect.Int64Kind, protoreflect.Sint64Kind:
		return protoreflect.ValueOfInt64(int64(g.i32()) * int64(g.i32()))
	case protoreflect.Uint64Kind:
		return protoreflect.ValueOfUint64(uint64(g.u32()) * uint64(g.u32()))
	case protoreflect.Uint32Kind:
		return protoreflect.ValueOfUint32(g.u32())
	}
	panic("kind " + fd.Kind().String())
}

// populate fills random fields of m with arbitrary legal values.
func (g gen) populate(m protoreflect.Message, density, depth int) {
	fs := m.Descriptor().Fields()
	for k := 0; k < fs.Len(); k++ {
		fd := fs.Get(k)
		if !g.pct(density) {
			continue
		}
		switch {
		case fd.IsMap():
			for i := g.Intn(3); i >= 0; i-- {
				m.Mutable(fd).Map().Set(protoreflect.ValueOfUint32(g.u32()).MapKey(), protoreflect.ValueOfUint32(g.u32()))
			}
		case fd.IsList() && fd.Kind() == protoreflect.MessageKind:
			for i := g.Intn(3); i >= 0; i-- {
				e := m.Mutable(fd).List().AppendMutable().Message()
				if depth > 0 {
					g.populate(e, density, depth-1)
				}
			}
		case fd.IsList():
			for i := g.Intn(4); i >= 0; i-- {
				m.Mutable(fd).List().Append(g.val(fd))
			}
		case fd.Kind() == protoreflect.MessageKind:
			s := m.Mutable(fd).Message()
			if depth > 0 && g.pct(85) {
				g.populate(s, density, depth-1)
			}
		default:
			m.Set(fd, g.val(fd))
		}
	}
}

// viaWire is what a receiver gets of m: decoded from (possibly damaged) wire bytes; nil when they do not decode.
func viaWire[M proto.Message](g gen, m M, damage bool) (r M, ok bool) {
	b, err := proto.Marshal(m)
	if err != nil {
		return r, false
	}
	if damage && len(b) > 0 {
		for i := pick(g, 1, 1, 2, 4); i > 0 && len(b) > 0; i-- {
			k := g.Intn(len(b))
			switch g.Intn(4) {
			case 0:
				b[k] ^= 1 << g.Intn(8)
			case 1:
				b[k] = byte(g.Intn(256))
			case 2:
				b = append(b[:k], b[k+1:]...)
			case 3:
				b = append(b[:k], append([]byte{byte(g.Intn(256))}, b[k:]...)...)
			}
		}
	}
	r = m.ProtoReflect().New().Interface().(M)
	if proto.Unmarshal(b, r) != nil {
		return r, false
	}
	return r, true
}

func wireMsgs[M proto.Message](g gen, zero M, n int) []M {
	var r []M
	add := func(m M, damage bool) {
		if x, ok := viaWire(g, m, damage); ok {
			r = append(r, x)
		}
	}
	fresh := func() M { return zero.ProtoReflect().New().Interface().(M) }
	add(fresh(), false)
	paths := emptyPaths(zero.ProtoReflect().Descriptor(), nil)
	for _, p := range paths { // present but empty, and each with single fields
		m := fresh()
		s := setPath(m.ProtoReflect(), p)
		add(m, false)
		fs := s.Descriptor().Fields()
		for k := 0; k < fs.Len(); k++ {
			if fd := fs.Get(k); !fd.IsList() && !fd.IsMap() && fd.Kind() != protoreflect.MessageKind {
				for i := 0; i < 6; i++ {
					m := fresh()
					setPath(m.ProtoReflect(), p).Set(fd, g.val(fd))
					if i > 2 { // with ids where the parent is a state
						for _, anc := range []int{1} {
							if len(p) >= anc {
								if x := setPath(m.ProtoReflect(), p[:anc]); x.Descriptor().Fields().ByName("HWCIDs") != nil {
									x.Mutable(x.Descriptor().Fields().ByName("HWCIDs")).List().Append(protoreflect.ValueOfUint32(5))
								}
							}
						}
					}
					add(m, false)
				}
			}
		}
	}
	for _, a := range paths {
		for i := 0; i < 12; i++ {
			m := fresh()
			setPath(m.ProtoReflect(), a)
			setPath(m.ProtoReflect(), paths[g.Intn(len(paths))])
			add(m, false)
		}
	}
	for k := 0; k < n; k++ {
		m := fresh()
		g.populate(m.ProtoReflect(), pick(g, 5, 15, 30, 60, 95), pick(g, 1, 2, 3, 5))
		add(m, false)
		add(m, true)
	}
	for k := 0; k < n/2; k++ { // arbitrary bytes
		x := fresh()
		if proto.Unmarshal(g.bytes(g.Intn(24)), x) == nil {
			r = append(r, x)
		}
	}
	return r
}

// ---- arbitrary lines ----
var hostileLines = []string{"", " ", "\x00", "\r", "\n", "{", "[", "{}", "[]", "[null]", "[null,null]", "[{}]", "[{},null]", "[[]]", "[1]", "[true]", "[\"x\"]", "{null}", "null", "[{\"States\":null}]", "[{\"States\":[null]}]",
	"[{\"Command\":null}]", "[{\"Command\":{}}]", "[{\"FlowMessage\":-5}]", "[{\"FlowMessage\":99999999999}]", "[{\"States\":[{\"HWCIDs\":null,\"HWCMode\":null}]}]", "{\"HWCIDs\":null}", "{\"HWCIDs\":[null]}", "{\"HWCIDs\":[-1]}", "{\"HWCIDs\":[1e99]}",
	"{\"HWCText\":null}", "{\"HWCText\":{\"TextStyling\":null}}", "{\"HWCText\":{\"TextStyling\":{}}}", "{\"HWCText\":{\"Scale\":null,\"Formatting\":10}}", "{\"HWCGfx\":{\"ImageData\":\"!!!\"}}", "{\"HWCGfx\":{}}", "{\"HWCColor\":{}}", "{\"HWCColor\":{\"ColorRGB\":null}}", "{\"Processors\":{}}", "{\"Processors\":{\"GfxConv\":null}}",
	"HWC#=1", "HWC#,=1", "HWC#,,=1", "HWC#1,=1", "HWC#99999999999999999999=1", "HWC#1=99999999999999999999", "HWC#1=-5", "HWCx#1=-1", "HWCc#1=999999", "HWCt#1=", "HWCt#1=|", "HWCt#1=||||||||||||||||||||||||||||||||", "HWCt#1=a|b|c", "HWCt#1=-9999999999999|99|99|t|9|a|b|-99|9|9|9|9|9|9|9|999999|99999|99999|9|999|999", "HWCt#,=x", "HWCt#=",
	"HWCg#1=0:", "HWCg#1=0:AA==", "HWCg#1=1:AA==", "HWCg#1=2:AA==", "HWCg#1=0/0,0x0:", "HWCg#1=0/99999999999999,99999999999999x99999999999999,99999999999,99999999999:AA==", "HWCg#1=99999999999999999999:AA==", "HWCg#=0:AA==", "HWCg#,=0:AA==", "HWCg#1=0/2,:AA==", "HWCg#1=0/,x:AA==", "HWCgRGB#1=0/1,1x1,:AA==", "HWCg#1=:AA==", "HWCgGray#1=0:%%%", "HWCg#1=0:A",
	"HeartBeatTimer=99999999999999999999", "HeartBeatTimer=", "HeartBeatTimer=-1", "PanelBrightness=", "PanelBrightness=,", "PanelBrightness=1,", "PanelBrightness=,1", "PanelBrightness=1,2,3", "SetNetworkConfig=", "SetNetworkConfig=null", "SetNetworkConfig=[]", "SetNetworkConfig={", "SetNetworkConfig={\"a\":1}", "_networkConfig=null", "_networkConfig={", "_networkConfig={}", "_networkConfig=[null]",
	"SimulateEnvironmentalHealth=", "SimulateEnvironmentalHealth=Normal", "SetCalibrationProfile=", "Mem=1", "MemA=", "MemAA=1", "Flag#=1", "Flag#A=1", "Flag#-1=1", "Flag#99999999999999999999=1", "Shift=1", "ShiftA=-1", "StateZ=99999999999999999999", "State=",
	"map=", "map=1", "map=1:", "map=:1", "map=-1:-1", "map=99999999999999999999:99999999999999999999", "HWC#1=Enc:", "HWC#1=Enc:99999999999999999999", "HWC#1=Down:", "HWC#1.=Down", "HWC#1.99999999999999999999=Down", "HWC#1.-1=Up", "HWC#1=Raw:-1", "HWC#1=Abs:", "HWC#1=Speed:--1",
	"SysStat=", "SysStat=:", "SysStat=::", "SysStat=CPUUsage", "SysStat=CPUUsage:", "SysStat=CPUUsage:x", "SysStat=CPUTemp:1e999:", "SysStat=CPUTemp:NaN", "SysStat=CPUTemp:1:CPUTemp", "_support=", "_support=,", "_support=,,", "_connections=", "_connections=;", "_connections=;;", "_serverModeLockToIP=", "_serverModeLockToIP=;", "_panelType=", "_isSleeping=", "_isSleeping=x", "_sleepTimer=x", "_model", "_model=", "=", "==", "=x", "#", "#=", "HWC", "HWC#", "HWC#1", "HWC#1=",
	"_panelTopology_HWC=", "_panelTopology_svgbase=", "_bluePillReady=", "_burninProfile=", "EnvironmentalHealth=", "_serverModeMaxClients=", "_bootsCount=x", "ErrorMsg=", "Msg=", "\xff\xfe\xfd", "HWC#\xff=1", "HWCt#1=\xff|\xfe", "[{\"States\":[{\"HWCIDs\":[1],\"HWCText\":{\"Title\":\"\xff\"}}]}]"}

func (g gen) mangle(s string) string {
	b := []byte(s)
	for i := pick(g, 1, 1, 1, 2, 4); i > 0; i-- {
		k := 0
		if len(b) > 0 {
			k = g.Intn(len(b))
		}
		switch g.Intn(9) {
		case 0:
			if len(b) > 0 {
				b[k] = byte(g.Intn(256))
			}
		case 1:
			if len(b) > 0 {
				b = append(b[:k], b[k+1:]...)
			}
		case 2:
			b = append(b[:k], append([]byte{pick(g, byte('='), '#', ',', ':', '|', '/', '.', '-', '{', '}', '[', ']', '"', '0', '9', '\n', '\r', 0, 255, ' ')}, b[k:]...)...)
		case 3:
			b = b[:k]
		case 4:
			b = b[k:]
		case 5:
			b = append(b[:k], append([]byte(pick(g, "99999999999999999999", "-1", "null", "4294967296", "2147483648", "1e5", "0x1", "[", "{}", "\"\"")), b[k:]...)...)
		case 6:
			if len(b) > 0 { // doubled piece
				e := k + g.Intn(len(b)-k)
				b = append(b[:e], append(append([]byte{}, b[k:e]...), b[e:]...)...)
			}
		case 7:
			o := g.anyLine()
			if len(o) > 0 {
				b = append(b[:k], []byte(o[g.Intn(len(o)):])...)
			}
		case 8:
			if i := strings.IndexByte(string(b), '='); i >= 0 {
				b = b[:i+1]
			}
		}
	}
	return string(b)
}
func (g gen) anyLine() string {
	switch g.Intn(6) {
	case 0, 1:
		return g.inLine()
	case 2, 3:
		return g.outLine()
	case 4:
		return hostileLines[g.Intn(len(hostileLines))]
	default:
		l := g.gfxLines()
		return l[g.Intn(len(l))]
	}
}
func (g gen) arbLine() string {
	switch g.Intn(10) {
	case 0:
		return string(g.bytes(g.Intn(60)))
	case 1:
		return hostileLines[g.Intn(len(hostileLines))]
	case 2:
		return g.anyLine()
	default:
		return g.mangle(g.anyLine())
	}
}

func total() {
	g := gen{rand.New(rand.NewSource(*seed))}
	var calls []*call
	lineCalls := func(ls []string) {
		calls = append(calls, &call{f: "in-dec", lines: ls}, &call{f: "out-dec", lines: ls}, &call{f: "reader", lines: ls})
	}
	for _, l := range hostileLines {
		lineCalls([]string{l})
		lineCalls([]string{l, l, l})
	}
	for _, l := range hostileLines { // truncations
		for k := 0; k < len(l) && len(l) < 60; k++ {
			lineCalls([]string{l[:k]})
		}
	}
	for k := 0; k < scale(6000, 120000); k++ {
		lineCalls([]string{g.arbLine()})
	}
	for k := 0; k < scale(1500, 20000); k++ {
		var ls []string
		for i := 1 + g.Intn(12); i > 0; i-- {
			ls = append(ls, g.arbLine())
		}
		lineCalls(ls)
	}
	for k := 0; k < 100; k++ { // graphics histories with damaged members
		var ls []string
		for i := 0; i < 3; i++ {
			for _, l := range g.gfxLines() {
				if g.pct(20) {
					l = g.mangle(l)
				}
				if !g.pct(10) {
					ls = append(ls, l)
				}
			}
		}
		lineCalls(ls)
	}
	short := len(calls)                                                       // what follows is only run one at a time
	for _, n := range []int{1000, scale(5000, 20000), scale(20000, 400000)} { // very long lines
		for _, pre := range []string{"HWCt#1=", "HWCt#1=|||", "HWC#", "HWC#1=", "HWCg#1=0:", "{\"HWCIDs\":[", "[", "_model=", "_support=", "SysStat=", "_connections=", "HWCg#1", "SetNetworkConfig="} {
			for _, fill := range []string{"A", "|", ",", "1", "[", "{\"a\":", ":", ";", "\"", "1,", "a:1:"} {
				lineCalls([]string{pre + strings.Repeat(fill, n/len(fill))})
			}
		}
	}
	long := len(calls)
	for _, m := range wireMsgs(g, &rwp.InboundMessage{}, scale(2000, 40000)) {
		calls = append(calls, &call{f: "in-enc", in: []*rwp.InboundMessage{m}})
	}
	for _, m := range wireMsgs(g, &rwp.OutboundMessage{}, scale(2000, 40000)) {
		calls = append(calls, &call{f: "out-enc", out: []*rwp.OutboundMessage{m}})
	}
	var inAll []*rwp.InboundMessage
	var outAll []*rwp.OutboundMessage
	for _, c := range calls {
		inAll, outAll = append(inAll, c.in...), append(outAll, c.out...)
	}
	for k := 0; k < scale(800, 8000); k++ { // lists, sharing messages with other calls
		n := g.Intn(6)
		ci, co := &call{f: "in-enc"}, &call{f: "out-enc"}
		for i := 0; i < n; i++ {
			ci.in = append(ci.in, inAll[g.Intn(len(inAll))])
			co.out = append(co.out, outAll[g.Intn(len(outAll))])
		}
		calls = append(calls, ci, co)
	}

	seq := make([]string, len(calls))
	for k, c := range calls {
		seq[k] = c.run()
	}
	// the same calls from many goroutines: every input is used by several of them at the same time
	const G = 6
	conc := make([][G]string, len(calls))
	var order []int
	for _, k := range rand.New(rand.NewSource(*seed + 1)).Perm(len(calls)) {
		if k < short || k >= long {
			order = append(order, k)
		}
	}
	concurrent := func(order []int, store func(k, w int, s string)) {
		const block = 64
		for at := 0; at < len(order); at += block {
			end := min(at+block, len(order))
			var wg sync.WaitGroup
			var ready atomic.Int32
			for w := 0; w < G; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					ready.Add(1)
					for ready.Load() < G {
					}
					for i := at; i < end; i++ {
						k := order[i]
						if w%2 == 1 { // half of them in another order
							k = order[at+(i-at+w*7)%(end-at)]
						}
						store(k, w, calls[k].run())
					}
				}()
			}
			wg.Wait()
		}
	}
	concurrent(order, func(k, w int, s string) { conc[k][w] = s })
	// and with debug printing switched on
	old := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	helpers.DebugRWPhelpers = true
	dbg := make([][G]string, len(calls))
	nd := scale(1500, 6000)
	var small []int
	for _, k := range order {
		if n := len(calls[k].desc()); n < 3000 && !strings.Contains(calls[k].desc(), " bytes) ") && len(small) < nd {
			small = append(small, k)
		}
	}
	concurrent(small, func(k, w int, s string) { dbg[k][w] = s })
	helpers.DebugRWPhelpers = false
	os.Stdout = old

	var cases arr
	for k, c := range calls {
		m := map[string]bool{}
		for w := 0; w < G; w++ {
			if conc[k][w] != "" {
				m[conc[k][w]] = true
			}
			if dbg[k][w] != "" {
				m[dbg[k][w]] = true
			}
		}
		var ds []string
		for s := range m {
			ds = append(ds, s)
		}
		sort.Strings(ds)
		cases = append(cases, obj{"f": c.f, "seq": seq[k], "conc": ds, "in": c.desc()})
	}
	saveCases(out("calls.json"), cases)
}
