package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"image/color"
	"math/rand"
	"net"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/SKAARHOJ/rawpanel-lib/gorwp"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
)

// C19: what scripted panels do to the real high-level client. Everything observable is recorded together with a
// position in one common order: what the panel begins to send, handlers called and returned, registrations begun and done.

func init() {
	cmds["gorwp"] = func() { gorwpCmd(gorwpSessions) }
	cmds["gorwp-scripts"] = func() { gorwpCmd(gorwpScripts) }
	cmds["gorwp-init"] = func() { gorwpCmd(gorwpInits) }
}

type hrun interface{ run() any }

func gorwpCmd(g func(gen) []hrun) {
	mk := func() []hrun { return g(gen{rand.New(rand.NewSource(*seed))}) }
	ss := mk()
	at := scale(60, 60)
	idx := []int{}
	for k := range ss {
		idx = append(idx, k)
	}
	if *only >= 0 {
		ss = nil
		idx = nil
		for k := 0; k < 6; k++ {
			ss = append(ss, mk()[*only])
			idx = append(idx, *only)
		}
		at = 2
	}
	cases := make(arr, len(ss))
	sem := make(chan bool, at)
	var wg sync.WaitGroup
	for k := range ss {
		sem <- true
		if overdue.Load() > 100 { // enough is known
			cases, ss = cases[:k], ss[:k]
			break
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			cases[k] = ss[k].run()
			cases[k].(obj)["index"] = idx[k]
		}()
	}
	wg.Wait()
	saveCases(out("sessions.json"), cases)
}

// what the panel sends as one unit: a frame, or one or several lines
type hitem struct {
	events []*rwp.HWCEvent
	ping   bool
	flow   rwp.OutboundMessage_FlowMsg
	info   map[string]string // model, serial, name, json, svg
	avail  map[uint32]uint32
	junk   []byte // a payload that is no message
	dead   bool   // after the stream has been broken
	part   []byte // these bytes instead of a unit
}

type hbind struct {
	h     int
	kind  string // trg, bin, pul, abs, int
	id    uint32
	fb    int // feedback messages per call
	gets  bool
	pause time.Duration
	stop  map[int]time.Duration // busy for so long in these calls
	rebnd []hbind               // registered by the handler when called first
	close bool                  // the handler closes the client
	after time.Duration
}

type hact struct {
	op    string // items, sleep, shut
	items []hitem
	cuts  []int
	every bool // every byte its own segment
	rnd   int  // number of random cuts
	gap   time.Duration
	d     time.Duration
}

type hcall struct {
	h, pos, fin int
	kind, id, a string
	gets        [][2]string
}

type hsession struct {
	name    string
	ascii   bool
	reply   []byte
	init    hact
	binds   []hbind
	free    []hbind // registered by other routines while events flow
	outside int     // feedback messages sent by another routine meanwhile
	script  []hact
	broken  string // "", limit, stall, junk, shut, close
	g       *rand.Rand

	mu     sync.Mutex
	pos    int
	events arr // flat
	ups    arr // updates
	pings  []int
	acks   []int
	items  int
	junkAt int // the first item that is no message
	calls  []*hcall
	regs   arr
	sentFb []int
	sentFo []int
	rxFb   []int
	rxFo   []int
	polls  map[string][]string
	rx     []byte
	probe  int
	over   chan bool // the session is over
	played chan bool // the panel has sent everything
	last   chan bool // the sentinel's handler was called
	rp     *gorwp.RawPanel
}

const sentinel = 65000

// next position; call with mu held
func (s *hsession) next() int { s.pos++; return s.pos }

func evID(id uint32) string { return fmt.Sprint(id) }
func evWire(e *rwp.HWCEvent) string {
	b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(e)
	return wireID(b)
}

// lines for one item, independent of the library's encoder
func asciiLines(it hitem) (ls []string) {
	for _, e := range it.events {
		n := evID(e.HWCID)
		if e.Binary != nil {
			st := "Up"
			if e.Binary.Pressed {
				st = "Down"
			}
			if e.Binary.Edge != 0 {
				n += fmt.Sprintf(".%d", e.Binary.Edge)
			}
			ls = append(ls, "HWC#"+n+"="+st)
		}
		if e.Pulsed != nil {
			ls = append(ls, fmt.Sprintf("HWC#%s=Enc:%d", n, e.Pulsed.Value))
		}
		if e.Absolute != nil {
			ls = append(ls, fmt.Sprintf("HWC#%s=Abs:%d", n, e.Absolute.Value))
		}
		if e.Speed != nil {
			ls = append(ls, fmt.Sprintf("HWC#%s=Speed:%d", n, e.Speed.Value))
		}
		if e.RawAnalog != nil {
			ls = append(ls, fmt.Sprintf("HWC#%s=Raw:%d", n, e.RawAnalog.Value))
		}
	}
	if it.ping {
		ls = append(ls, "ping")
	}
	switch it.flow {
	case rwp.OutboundMessage_ACK:
		ls = append(ls, "ack")
	case rwp.OutboundMessage_NACK:
		ls = append(ls, "nack")
	case rwp.OutboundMessage_BSY:
		ls = append(ls, "BSY")
	case rwp.OutboundMessage_RDY:
		ls = append(ls, "RDY")
	}
	for _, f := range []string{"model", "serial", "name", "json", "svg"} {
		if v, ok := it.info[f]; ok {
			ls = append(ls, map[string]string{"model": "_model=", "serial": "_serial=", "name": "_name=", "json": "_panelTopology_HWC=", "svg": "_panelTopology_svgbase="}[f]+v)
		}
	}
	for _, k := range availKeys(it.avail) {
		ls = append(ls, fmt.Sprintf("map=%d:%d", k, it.avail[k]))
	}
	return
}
func availKeys(m map[uint32]uint32) (ks []uint32) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(a, b int) bool { return ks[a] < ks[b] })
	return
}

func binaryFrame(it hitem) []byte {
	if it.junk != nil {
		return frame(it.junk)
	}
	m := &rwp.OutboundMessage{Events: it.events, HWCavailability: it.avail, FlowMessage: it.flow}
	if it.ping {
		m.FlowMessage = rwp.OutboundMessage_PING
	}
	for f, v := range it.info {
		switch f {
		case "model", "serial", "name":
			if m.PanelInfo == nil {
				m.PanelInfo = &rwp.PanelInfo{}
			}
		default:
			if m.PanelTopology == nil {
				m.PanelTopology = &rwp.PanelTopology{}
			}
		}
		switch f {
		case "model":
			m.PanelInfo.Model = v
		case "serial":
			m.PanelInfo.Serial = v
		case "name":
			m.PanelInfo.Name = v
		case "json":
			m.PanelTopology.Json = v
		case "svg":
			m.PanelTopology.Svgbase = v
		}
	}
	b, _ := proto.Marshal(m)
	return frame(b)
}

// note records what an item stands for and returns its bytes; call with mu held
func (s *hsession) note(it hitem) []byte {
	if it.part != nil {
		return it.part
	}
	s.items++
	if it.junk != nil && s.junkAt == 0 {
		s.junkAt = s.items
	}
	at := s.pos
	for _, e := range it.events {
		one := []*rwp.HWCEvent{e}
		if s.ascii { // one line for each part
			one = nil
			for _, x := range []*rwp.HWCEvent{{Binary: e.Binary}, {Pulsed: e.Pulsed}, {Absolute: e.Absolute}, {Speed: e.Speed}, {RawAnalog: e.RawAnalog}} {
				if x.Binary != nil || x.Pulsed != nil || x.Absolute != nil || x.Speed != nil || x.RawAnalog != nil {
					x.HWCID = e.HWCID
					one = append(one, x)
				}
			}
		}
		for _, e := range one {
			parts := arr{arr{"trg", evWire(e)}}
			if e.Binary != nil {
				p := 0
				if e.Binary.Pressed {
					p = 1
				}
				parts = append(parts, arr{"bin", fmt.Sprintf("%d/%d", p, e.Binary.Edge)})
			}
			if e.Pulsed != nil {
				parts = append(parts, arr{"pul", fmt.Sprint(e.Pulsed.Value)})
			}
			if e.Absolute != nil {
				parts = append(parts, arr{"abs", fmt.Sprint(e.Absolute.Value)})
			}
			if e.Speed != nil {
				parts = append(parts, arr{"int", fmt.Sprint(e.Speed.Value)})
			}
			s.events = append(s.events, obj{"it": s.items, "id": evID(e.HWCID), "parts": parts, "live": !it.dead, "sent": at})
		}
	}
	up := func(f, v string) {
		s.ups = append(s.ups, obj{"f": f, "v": v, "it": s.items, "live": !it.dead, "sent": at})
	}
	for _, f := range []string{"model", "serial", "name", "json", "svg"} {
		if v := it.info[f]; v != "" {
			if f == "json" {
				var t struct{ Title string }
				json.Unmarshal([]byte(v), &t)
				up("topo", t.Title)
				v = lineID(v)
			}
			if f == "svg" {
				v = lineID(v)
			}
			up(f, v)
		}
	}
	for _, k := range availKeys(it.avail) {
		up(fmt.Sprintf("a:%d", k), fmt.Sprint(it.avail[k]))
	}
	if it.ping && !it.dead {
		s.pings = append(s.pings, at)
	}
	if s.ascii {
		eol := "\n"
		if s.items%3 == 0 {
			eol = "\r\n"
		}
		var b []byte
		for _, l := range asciiLines(it) {
			b = append(b, l+eol...)
		}
		return b
	}
	return binaryFrame(it)
}

func (s *hsession) sendItems(conn net.Conn, a hact) {
	s.mu.Lock()
	s.next()
	var b []byte
	for _, it := range a.items {
		b = append(b, s.note(it)...)
	}
	cuts := a.cuts
	if a.every {
		for k := 1; k < len(b); k++ {
			cuts = append(cuts, k)
		}
	}
	if a.rnd > 0 && len(b) > 1 {
		cuts = gen{s.g}.randomCuts(len(b), a.rnd)
	}
	s.mu.Unlock()
	sendCut(conn, b, cuts, a.gap)
}

var lineTag = regexp.MustCompile(`#(\d+)[=:]`)

// the panel parses what the client sends; call with mu held
func (s *hsession) parse() {
	unit := func(n int) {
		l := &s.rxFb
		if n >= 2000000 {
			l = &s.rxFo
		}
		if n >= 1000000 && (len(*l) == 0 || !s.ascii || (*l)[len(*l)-1] != n) { // one call may take several lines
			*l = append(*l, n)
		}
	}
	for {
		if s.ascii {
			k := bytes.IndexByte(s.rx[s.probe:], '\n')
			if k < 0 {
				return
			}
			l := strings.TrimSpace(string(s.rx[s.probe : s.probe+k]))
			s.probe += k + 1
			if l == "ack" {
				s.acks = append(s.acks, s.next())
			} else if m := lineTag.FindStringSubmatch(l); m != nil {
				n, _ := strconv.Atoi(m[1])
				unit(n)
			}
		} else {
			r := s.rx[s.probe:]
			if len(r) < 4 {
				return
			}
			n := int(binary.LittleEndian.Uint32(r))
			if len(r) < 4+n {
				return
			}
			m := &rwp.InboundMessage{}
			if proto.Unmarshal(r[4:4+n], m) == nil {
				if m.FlowMessage == rwp.InboundMessage_ACK {
					s.acks = append(s.acks, s.next())
				}
				for _, st := range m.States {
					for _, id := range st.HWCIDs {
						unit(int(id))
					}
				}
			}
			s.probe += 4 + n
		}
	}
}

func (s *hsession) feedback(rp *gorwp.RawPanel, n int) {
	id := uint32(n)
	switch n % 5 {
	case 0:
		rp.SendRawState(&rwp.HWCState{HWCIDs: []uint32{id}, HWCMode: &rwp.HWCMode{State: rwp.HWCMode_ON}})
	case 1:
		rp.SetLEDColor(id, color.RGBA{R: uint8(n), G: 10, B: 20, A: 255}, rwp.HWCMode_ON)
	case 2:
		rp.SetLEDColorByIndex(id, rwp.ColorIndex_AMBER, rwp.HWCMode_DIMMED)
	case 3:
		rp.SetRWPText(id, "title", "a", "", n%2 == 0)
	default:
		rp.SetRWPTextByStruct(id, &rwp.HWCText{Title: "x", IntegerValue: 3})
	}
}

func (s *hsession) getAll(rp *gorwp.RawPanel) [][2]string {
	topo := ""
	if t := rp.State.GetTopology(); t != nil {
		topo = t.Title
	}
	return [][2]string{{"model", rp.State.GetModel()}, {"serial", rp.State.GetSerial()}, {"name", rp.State.GetName()}, {"topo", topo}}
}

func (s *hsession) bind(rp *gorwp.RawPanel, b hbind) {
	s.mu.Lock()
	begin := s.next()
	s.mu.Unlock()
	called, n := false, 0
	f := func(id uint32, a string) {
		s.mu.Lock()
		c := &hcall{h: b.h, kind: b.kind, id: evID(id), a: a, pos: s.next(), fin: -1}
		s.calls = append(s.calls, c)
		first := !called
		called = true
		n++
		stop := b.stop[n]
		s.mu.Unlock()
		time.Sleep(stop)
		for k := 0; k < b.fb; k++ {
			s.mu.Lock()
			n := 1000000 + len(s.sentFb)
			s.sentFb = append(s.sentFb, n)
			s.mu.Unlock()
			s.feedback(rp, n)
		}
		if b.gets {
			c.gets = s.getAll(rp)
		}
		if b.pause > 0 {
			time.Sleep(b.pause)
		}
		if first {
			for _, r := range b.rebnd {
				s.bind(rp, r)
			}
			if b.close {
				rp.Close()
			}
		}
		s.mu.Lock()
		c.fin = s.next()
		s.mu.Unlock()
		if id == sentinel && b.h == -1 {
			close(s.last)
		}
	}
	switch b.kind {
	case "trg":
		rp.BindTrigger(b.id, func(id uint32, e *rwp.HWCEvent) { f(id, evWire(e)) })
	case "bin":
		rp.BindBinary(b.id, func(id uint32, st gorwp.BinaryStatus, e gorwp.BinaryEdge) { f(id, fmt.Sprintf("%d/%d", st, e)) })
	case "pul":
		rp.BindPulsed(b.id, func(id uint32, v int) { f(id, fmt.Sprint(v)) })
	case "abs":
		rp.BindAbsolute(b.id, func(id uint32, v int) { f(id, fmt.Sprint(v)) })
	case "int":
		rp.BindIntensity(b.id, func(id uint32, v int) { f(id, fmt.Sprint(v)) })
	}
	s.mu.Lock()
	s.regs = append(s.regs, obj{"h": b.h, "k": b.kind, "id": evID(b.id), "begin": begin, "end": s.next()})
	s.mu.Unlock()
}

// a panel accepts one connection and reads everything
func (s *hsession) accept(ln net.Listener, request, eof chan bool) net.Conn {
	ln.(*net.TCPListener).SetDeadline(time.Now().Add(10 * time.Second))
	conn, err := ln.Accept()
	ln.Close()
	if err != nil {
		return nil
	}
	probed := make(chan bool)
	flushed := make(chan bool)
	skip := 6
	if s.ascii {
		skip = 7
	}
	s.probe = skip
	go func() {
		defer close(eof)
		buf := make([]byte, 1<<16)
		p, f, q := false, false, false
		for {
			n, err := conn.Read(buf)
			s.mu.Lock()
			s.rx = append(s.rx, buf[:n]...)
			l := len(s.rx)
			if l > skip {
				s.parse()
			}
			s.mu.Unlock()
			if l >= 6 && !p {
				p = true
				close(probed)
			}
			if l >= skip && !f {
				f = true
				close(flushed)
			}
			if l > skip && !q {
				q = true
				close(request)
			}
			if err != nil {
				return
			}
		}
	}()
	wait := func(c chan bool) {
		select {
		case <-c:
		case <-eof:
		case <-time.After(5 * time.Second):
		}
	}
	wait(probed)
	if s.reply != nil {
		conn.Write(s.reply)
	}
	wait(flushed)
	return conn
}

func (s *hsession) run() any {
	s.last, s.over, s.played = make(chan bool), make(chan bool), make(chan bool)
	s.polls = map[string][]string{}
	ln, addr := listenAny()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	request, eof, bound := make(chan bool), make(chan bool), make(chan bool)
	panelDone := make(chan bool)
	go func() {
		defer close(panelDone)
		conn := s.accept(ln, request, eof)
		if conn == nil {
			return
		}
		defer conn.Close()
		select {
		case <-request:
		case <-eof:
		case <-time.After(5 * time.Second):
		}
		s.sendItems(conn, s.init)
		select {
		case <-bound:
		case <-eof:
		case <-time.After(5 * time.Second):
		}
		for _, a := range s.script {
			switch a.op {
			case "items":
				s.sendItems(conn, a)
			case "sleep":
				time.Sleep(a.d)
			case "shut":
				conn.(*net.TCPConn).CloseWrite()
			}
		}
		if s.broken == "" || s.broken == "junk" {
			s.sendItems(conn, hact{items: []hitem{{events: []*rwp.HWCEvent{{HWCID: sentinel, Binary: &rwp.BinaryEvent{Pressed: true}}}}}})
		}
		close(s.played)
		select {
		case <-eof:
		case <-s.over:
		}
	}()
	rp, err := gorwp.Connect(addr, ctx, cancel)
	if err != nil {
		cancel()
		close(s.over)
		<-panelDone
		return obj{"kind": "unconnected", "name": s.name, "error": err.Error()}
	}
	s.rp = rp
	for _, b := range s.binds {
		s.bind(rp, b)
	}
	if s.broken == "" || s.broken == "junk" {
		s.bind(rp, hbind{h: -1, kind: "trg", id: sentinel})
	}
	close(bound)
	stop := make(chan bool)
	var wg sync.WaitGroup
	by := map[int][]hbind{} // two routines register
	for k, b := range s.free {
		by[k%2] = append(by[k%2], b)
	}
	for _, l := range by {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, b := range l {
				time.Sleep(b.after)
				s.bind(rp, b)
			}
		}()
	}
	if s.outside > 0 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < s.outside; k++ {
				s.mu.Lock()
				n := 2000000 + len(s.sentFo)
				s.sentFo = append(s.sentFo, n)
				s.mu.Unlock()
				s.feedback(rp, n)
			}
		}()
	}
	wg.Add(1)
	go func() { // a user who looks at the state all the time
		defer wg.Done()
		for {
			all := s.getAll(rp)
			s.mu.Lock()
			for _, x := range all {
				if l := s.polls[x[0]]; len(l) == 0 || l[len(l)-1] != x[1] {
					s.polls[x[0]] = append(l, x[1])
				}
			}
			s.mu.Unlock()
			select {
			case <-stop:
				return
			case <-time.After(500 * time.Microsecond):
			}
		}
	}()
	late := func() time.Duration { // something is thoroughly wrong already
		if overdue.Load() > 12 {
			return time.Second
		}
		return 10 * time.Second
	}
	ended := func() bool { return ctx.Err() != nil }
	allow := late()
	stalled := false
	if s.broken == "" || s.broken == "junk" {
		// until the sentinel has been dispatched: as long as anything happens, it may take long
		prev, since := -1, time.Now()
	loop:
		for {
			select {
			case <-s.last:
				break loop
			case <-time.After(20 * time.Millisecond):
			}
			s.mu.Lock()
			p := s.pos
			s.mu.Unlock()
			if p != prev {
				prev, since = p, time.Now()
			}
			if time.Since(since) > allow || ended() {
				stalled = !ended()
				break
			}
		}
		if stalled {
			overdue.Add(1)
		}
		limit := time.Now().Add(3 * time.Second)
		for !stalled && !ended() && time.Now().Before(limit) {
			s.mu.Lock()
			ok := len(s.acks) >= len(s.pings) && len(s.rxFb) >= len(s.sentFb) && len(s.rxFo) >= s.outside
			s.mu.Unlock()
			if ok {
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		time.Sleep(40 * time.Millisecond)
	} else {
		select {
		case <-ctx.Done():
		case <-s.played:
			select {
			case <-ctx.Done():
			case <-time.After(late() / 2):
				overdue.Add(1)
			}
		}
		// what is still in the hands of a slow handler
		prev := -1
		for k := 0; k < 80; k++ {
			s.mu.Lock()
			p := s.pos
			s.mu.Unlock()
			if p == prev {
				break
			}
			prev = p
			time.Sleep(250 * time.Millisecond)
		}
	}
	finals := append([][2]string{}, s.getAll(rp)...)
	finals = append(finals, hidden(rp)...)
	s.mu.Lock()
	lost := ended()
	nPings, nAcks := len(s.pings), len(s.acks)
	rxFb, rxFo, sentFb, sentFo := append([]int{}, s.rxFb...), append([]int{}, s.rxFo...), append([]int{}, s.sentFb...), append([]int{}, s.sentFo...)
	acks := append([]int{}, s.acks...)
	calls := arr{}
	for _, c := range s.calls {
		gets := arr{}
		for _, x := range c.gets {
			gets = append(gets, arr{x[0], x[1]})
		}
		calls = append(calls, obj{"h": c.h, "k": c.kind, "id": c.id, "a": c.a, "pos": c.pos, "fin": c.fin, "gets": gets})
	}
	regs := append(arr{}, s.regs...)
	events := append(arr{}, s.events...)
	ups := append(arr{}, s.ups...)
	pings := append([]int{}, s.pings...)
	s.mu.Unlock()
	_, _ = nPings, nAcks
	close(stop)
	cancel()
	close(s.over)
	if !stalled {
		waitFor(&wg)
		<-panelDone
	}
	polls := arr{}
	if !stalled {
		s.mu.Lock()
		for _, f := range []string{"model", "serial", "name", "topo"} {
			polls = append(polls, obj{"f": f, "vs": append([]string{}, s.polls[f]...)})
		}
		s.mu.Unlock()
	}
	fin := arr{}
	for _, x := range finals {
		fin = append(fin, arr{x[0], x[1]})
	}
	return obj{"kind": "run", "name": s.name, "ascii": s.ascii, "broken": s.broken, "junkAt": s.junkAt, "events": events, "ups": ups, "pings": ints(pings), "acks": ints(acks), "calls": calls,
		"regs": regs, "sent": ints(sentFb), "got": ints(rxFb), "sentOut": ints(sentFo), "gotOut": ints(rxFo), "polls": polls, "finals": fin, "lost": lost}
}

func waitFor(wg *sync.WaitGroup) {
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
	}
}

func ints(l []int) arr {
	r := arr{}
	for _, x := range l {
		r = append(r, x)
	}
	return r
}

// state without a getter, as far as it is kept under these names
func hidden(rp *gorwp.RawPanel) (r [][2]string) {
	rp.State.RLock()
	defer rp.State.RUnlock()
	v := reflect.ValueOf(&rp.State).Elem()
	if f := v.FieldByName("topologyJSON"); f.IsValid() && f.Kind() == reflect.String {
		r = append(r, [2]string{"json", lineID(f.String())})
	}
	if f := v.FieldByName("topologySVG"); f.IsValid() && f.Kind() == reflect.String {
		r = append(r, [2]string{"svg", lineID(f.String())})
	}
	if f := v.FieldByName("hwcAvailability"); f.IsValid() && f.Kind() == reflect.Map && f.Type().Key().Kind() == reflect.Uint32 && f.Type().Elem().Kind() == reflect.Uint32 {
		for _, k := range f.MapKeys() {
			r = append(r, [2]string{fmt.Sprintf("a:%d", k.Uint()), fmt.Sprint(f.MapIndex(k).Uint())})
		}
		r = append(r, [2]string{"a", fmt.Sprint(f.Len())})
	}
	return
}

// ---- generation ----

func topoJSON(title string, size int) string {
	return fmt.Sprintf(`{"title":"%s","HWc":[{"id":1,"x":10,"y":10,"txt":"%s","type":1}],"typeIndex":{"1":{"w":10,"subidx":-1}}}`, title, strings.Repeat("t", size))
}

func initItems(g gen, tag string) []hitem {
	all := map[string]string{"model": "M" + tag, "serial": "S" + tag, "json": topoJSON("T"+tag, 10), "svg": "<svg>" + tag + "</svg>"}
	if g.pct(60) {
		all["name"] = "N" + tag
	}
	switch g.Intn(3) {
	case 0:
		return []hitem{{info: all}}
	case 1:
		a, b := map[string]string{}, map[string]string{}
		for _, k := range []string{"model", "serial", "name", "json", "svg"} {
			if v, ok := all[k]; ok {
				if k == "json" || k == "svg" {
					b[k] = v
				} else {
					a[k] = v
				}
			}
		}
		if g.pct(50) {
			return []hitem{{info: b}, {ping: true}, {info: a}}
		}
		return []hitem{{info: a}, {avail: map[uint32]uint32{1: 1, 2: 0}}, {info: b}}
	}
	var l []hitem
	for _, k := range []string{"svg", "model", "json", "serial", "name"} {
		if v, ok := all[k]; ok {
			l = append(l, hitem{info: map[string]string{k: v}})
			if g.pct(20) {
				l = append(l, hitem{events: []*rwp.HWCEvent{{HWCID: 3, Binary: &rwp.BinaryEvent{Pressed: true}}}})
			}
		}
	}
	return l
}

func newH(g gen, name string, ascii bool) *hsession {
	s := &hsession{name: name, ascii: ascii, g: rand.New(rand.NewSource(g.Int63()))}
	s.reply = ackFrame()
	if ascii {
		s.reply = []byte("RDY\n")
		s.name += " ascii"
	}
	s.init = hact{items: initItems(g, "0")}
	return s
}

var hkinds = []string{"trg", "bin", "pul", "abs", "int"}

// an event with a value that no other event of the session has, where the kind allows it
func (g gen) hevent(id uint32, n int, multi bool) *rwp.HWCEvent {
	e := &rwp.HWCEvent{HWCID: id}
	if g.pct(4) { // more than sixteen bits
		n += 70000 * (1 + g.Intn(20000))
	}
	part := func(k int) {
		switch k {
		case 0:
			e.Binary = &rwp.BinaryEvent{Pressed: n%2 == 0, Edge: pick(g, rwp.BinaryEvent_EdgeID(0), 0, 1, 2, 4, 8, 16)}
		case 1:
			e.Pulsed = &rwp.PulsedEvent{Value: int32(pick(g, 1, -1, n, -n))}
		case 2:
			e.Absolute = &rwp.AbsoluteEvent{Value: uint32(n)}
		case 3:
			e.Speed = &rwp.SpeedEvent{Value: int32(pick(g, n, -n))}
		case 4:
			e.RawAnalog = &rwp.RawAnalogEvent{Value: uint32(n)}
		}
	}
	part(g.Intn(5))
	if multi && g.pct(10) {
		part(g.Intn(5))
	}
	return e
}

type hgen struct {
	gen
	s   *hsession
	n   int
	ids []uint32
	h   int
}

func (x *hgen) bindAll(fb int, pct int) {
	for _, id := range x.ids {
		for _, k := range hkinds {
			if x.pct(pct) {
				x.s.binds = append(x.s.binds, x.mk(id, k, fb))
			}
		}
	}
}
func (x *hgen) mk(id uint32, k string, fb int) hbind {
	x.h++
	return hbind{h: x.h, kind: k, id: id, fb: fb}
}
func (x *hgen) item() hitem {
	x.n++
	t := fmt.Sprint(x.n)
	if x.pct(70) {
		it := hitem{}
		m := 1
		if x.pct(25) {
			m = pick(x.gen, 0, 2, 3, 5, 20)
		}
		for ; m > 0; m-- {
			it.events = append(it.events, x.hevent(pick(x.gen, x.ids...), x.n, !x.s.ascii))
			x.n++
		}
		if x.pct(5) && !x.s.ascii {
			it.flow = pick(x.gen, rwp.OutboundMessage_ACK, rwp.OutboundMessage_NACK, rwp.OutboundMessage_BSY, rwp.OutboundMessage_RDY)
		}
		if x.pct(5) && !x.s.ascii {
			it.flow = 0
			it.ping = true
		}
		if x.pct(3) && !x.s.ascii {
			it.info = map[string]string{"name": "N" + t}
		}
		return it
	}
	switch x.Intn(8) {
	case 0, 1:
		return hitem{ping: true}
	case 2:
		return hitem{info: map[string]string{pick(x.gen, "model", "serial", "name"): "V" + t}}
	case 3:
		return hitem{info: map[string]string{"json": topoJSON("T"+t, pick(x.gen, 0, 100, 2000, 30000))}}
	case 4:
		return hitem{info: map[string]string{"svg": "<svg>" + t + strings.Repeat("<g/>", pick(x.gen, 0, 0, 0, 100, 100, 10000, 10000, 17000)) + "</svg>"}}
	case 5:
		a := map[uint32]uint32{}
		for k := 1 + x.Intn(4); k > 0; k-- {
			a[uint32(1+x.Intn(6))] = uint32(x.n*10 + k)
		}
		return hitem{avail: a}
	case 6:
		if x.s.ascii {
			return hitem{flow: pick(x.gen, rwp.OutboundMessage_ACK, rwp.OutboundMessage_BSY, rwp.OutboundMessage_RDY)}
		}
		return hitem{info: map[string]string{"model": "M" + t, "serial": "", "name": "N" + t}, avail: map[uint32]uint32{9: uint32(x.n)}}
	default:
		if x.s.ascii {
			return hitem{info: map[string]string{"name": "N" + t}}
		}
		return hitem{flow: pick(x.gen, rwp.OutboundMessage_ACK, rwp.OutboundMessage_BSY, rwp.OutboundMessage_RDY, rwp.OutboundMessage_HELLO)}
	}
}
func (x *hgen) items(n int) (l []hitem) {
	for ; n > 0; n-- {
		l = append(l, x.item())
	}
	return
}
func (x *hgen) events(n, per int) (l []hitem) {
	for n > 0 {
		it := hitem{}
		for k := 0; k < per && n > 0; k++ {
			x.n++
			n--
			it.events = append(it.events, x.hevent(pick(x.gen, x.ids...), x.n, false))
		}
		l = append(l, it)
	}
	return
}

func gorwpSessions(g gen) (ss []hrun) {
	add := func(name string, ascii bool) *hgen {
		s := newH(g, name, ascii)
		ss = append(ss, s)
		return &hgen{gen: gen{s.g}, s: s, ids: []uint32{1, 2, 3, 17, 250}}
	}
	both := []bool{false, true}
	// every single cut of a short stream
	for _, ascii := range both {
		short := []hitem{{events: []*rwp.HWCEvent{{HWCID: 1, Binary: &rwp.BinaryEvent{Pressed: true, Edge: 4}}}}, {ping: true}, {events: []*rwp.HWCEvent{{HWCID: 2, Pulsed: &rwp.PulsedEvent{Value: -1}}}},
			{info: map[string]string{"name": "Nx"}}, {events: []*rwp.HWCEvent{{HWCID: 1, Binary: &rwp.BinaryEvent{Edge: 4}}}}, {events: []*rwp.HWCEvent{{HWCID: 17, Absolute: &rwp.AbsoluteEvent{Value: 500}}}}}
		n := 0
		for _, it := range short {
			if ascii {
				n += len(strings.Join(asciiLines(it), "\n")) + 2
			} else {
				n += len(binaryFrame(it))
			}
		}
		for k := 0; k < n; k++ {
			x := add(fmt.Sprintf("cut %d", k), ascii)
			x.bindAll(1, 100)
			x.s.script = []hact{{op: "items", items: short, cuts: []int{k}, gap: 10 * ms}}
		}
		for k := 0; k < scale(4, 30); k++ {
			x := add("dribble", ascii)
			x.bindAll(1, 70)
			x.s.script = []hact{{op: "items", items: append(append([]hitem{}, short...), x.events(6, 1)...), every: true, gap: time.Duration(x.Intn(3)) * ms}}
			x.s.init.rnd, x.s.init.gap = 20, ms
		}
		// histories
		for k := 0; k < scale(150, 1500); k++ {
			x := add("history", ascii)
			if x.pct(20) {
				x.ids = append(x.ids, 0, 70000)
			}
			x.bindAll(pick(g, 0, 1, 1, 2), pick(g, 30, 60, 100))
			for i := range x.s.binds {
				x.s.binds[i].gets = x.pct(30)
				if x.pct(5) {
					x.s.binds[i].pause = ms
				}
			}
			for i := 1 + x.Intn(4); i > 0; i-- {
				x.s.script = append(x.s.script, hact{op: "items", items: x.items(1 + x.Intn(25)), rnd: x.Intn(30), gap: time.Duration(x.Intn(2)) * ms})
			}
			if x.pct(30) {
				x.s.outside = x.Intn(60)
			}
		}
		// ids that share their low bits; many components, many events, nothing for long
		for k := 0; k < scale(5, 30); k++ {
			x := add("many", ascii)
			switch k % 5 {
			case 0, 1:
				x.ids = []uint32{1, 257, 513, 65537, 65793, 16777217, 300}
				x.bindAll(1, pick(g, 40, 100))
				x.s.script = []hact{{op: "items", items: x.events(200, pick(g, 1, 20))}}
			case 2:
				for id := uint32(10); id < 300; id++ {
					x.ids = append(x.ids, id)
				}
				x.bindAll(0, 70)
				x.s.script = []hact{{op: "items", items: x.events(700, pick(g, 1, 3, 700)), rnd: x.Intn(20)}}
			case 3:
				x.bindAll(0, 100)
				x.s.script = []hact{{op: "items", items: x.events(1500, pick(g, 1, 1, 40)), rnd: x.Intn(20)}}
			case 4:
				x.bindAll(1, 100)
				x.s.script = []hact{{op: "items", items: x.items(20)}, {op: "sleep", d: time.Duration(scale(11, 35)) * time.Second}, {op: "items", items: x.items(20)}}
			}
		}
		// bursts whose handlers all send feedback
		for k := 0; k < scale(24, 160); k++ {
			x := add("burst", ascii)
			x.bindAll(pick(g, 1, 1, 2, 3), 100)
			n := pick(g, 40, 120, 300, 500)
			its := x.events(n, pick(g, 1, 1, 3, 30, n))
			if x.pct(40) {
				for i := range its {
					if x.pct(20) {
						its = append(its, hitem{ping: true})
						its[i], its[len(its)-1] = its[len(its)-1], its[i]
					}
				}
			}
			x.s.script = []hact{{op: "items", items: its}}
			if x.pct(50) {
				x.s.outside = 200
			}
			for i := range x.s.binds {
				x.s.binds[i].gets = x.pct(10)
			}
		}
		// registration while events are flowing
		for k := 0; k < scale(40, 300); k++ {
			x := add("registration", ascii)
			x.bindAll(x.Intn(2), 30)
			its := x.events(pick(g, 60, 200), pick(g, 1, 1, 4))
			x.s.script = []hact{{op: "items", items: its, rnd: pick(g, 0, 20, 40), gap: ms}}
			for i := pick(g, 10, 60); i > 0; i-- {
				b := x.mk(pick(x.gen, x.ids...), pick(x.gen, hkinds...), x.Intn(2))
				b.after = time.Duration(x.Intn(1500)) * time.Microsecond
				x.s.free = append(x.s.free, b)
			}
			for i := range x.s.binds {
				if x.pct(40) {
					for j := 1 + x.Intn(3); j > 0; j-- {
						r := x.mk(pick(x.gen, x.ids...), pick(x.gen, hkinds...), x.Intn(2))
						if x.pct(30) {
							q := x.mk(pick(x.gen, x.ids...), pick(x.gen, hkinds...), 0)
							r.rebnd = []hbind{q}
						}
						x.s.binds[i].rebnd = append(x.s.binds[i].rebnd, r)
					}
				}
			}
			if x.pct(30) {
				x.s.outside = 50
			}
		}
		// pings
		for k := 0; k < scale(6, 40); k++ {
			x := add("pings", ascii)
			x.bindAll(1, 50)
			var its []hitem
			for i := pick(g, 1, 30, 150); i > 0; i-- {
				its = append(its, hitem{ping: true})
				if x.pct(30) {
					its = append(its, x.item())
				}
			}
			x.s.script = []hact{{op: "items", items: its, rnd: x.Intn(20)}}
		}
		// slow frames, idle times, the client's own pings meanwhile
		for k := 0; k < scale(6, 30); k++ {
			x := add("slow", ascii)
			x.bindAll(1, 100)
			x.s.script = []hact{{op: "items", items: x.items(3), rnd: 2, gap: 1500 * ms}, {op: "sleep", d: 2300 * ms}, {op: "items", items: x.items(5), rnd: 2}}
			if k%3 == 1 {
				x.s.script[0] = hact{op: "items", items: x.events(3, 1), cuts: []int{1, 2}, gap: 1500 * ms}
			}
			if k%3 == 2 { // events all the time for longer than the client's ping period
				x.s.script = nil
				for i := 0; i < 60; i++ {
					x.s.script = append(x.s.script, hact{op: "items", items: x.events(1+x.Intn(8), 1)}, hact{op: "sleep", d: 40 * ms})
				}
			}
		}
		// slow handlers
		for k := 0; k < scale(4, 20); k++ {
			x := add("slow handlers", ascii)
			x.bindAll(1, 60)
			for i := range x.s.binds {
				x.s.binds[i].pause = time.Duration(x.Intn(12)) * ms
			}
			x.s.script = []hact{{op: "items", items: x.items(60), rnd: 5}}
		}
		// handlers that are busy for so long that more waits than there is room for
		for k := 0; k < scale(10, 50); k++ {
			x := add("busy handlers", ascii)
			x.bindAll(pick(g, 0, 1, 1), 100)
			n := pick(g, 15, 40, 150)
			for j := 0; j < pick(g, 1, 1, 3, 12); j++ {
				b := &x.s.binds[x.Intn(len(x.s.binds))]
				if b.stop == nil {
					b.stop = map[int]time.Duration{}
				}
				b.stop[1+x.Intn(2)] = pick(g, 250*ms, 600*ms, 1100*ms, 2300*ms)
				if j > 0 {
					b.stop[1+x.Intn(2)] = 250 * ms
				}
			}
			x.s.script = []hact{{op: "items", items: x.items(n), rnd: 3}, {op: "sleep", d: pick(g, 0, 100*ms, 800*ms)}, {op: "items", items: append(x.items(12), x.events(15, 1)...), rnd: 3}}
			if x.pct(30) {
				x.s.outside = 30
			}
		}
		// a handler that closes the client
		for k := 0; k < scale(4, 20); k++ {
			x := add("close in a handler", ascii)
			x.bindAll(1, 100)
			x.s.broken = "close"
			its := x.events(20, 1)
			for i := range its {
				its[i].dead = true // from which one on is not determined
			}
			its = append([]hitem{{events: []*rwp.HWCEvent{{HWCID: 1, Binary: &rwp.BinaryEvent{}}}}}, its...)
			for i := range x.s.binds {
				if b := &x.s.binds[i]; b.id == 1 && b.kind == "bin" {
					b.close = true
				}
			}
			x.s.script = []hact{{op: "items", items: its}}
		}
		// the panel goes away right after it has sent something
		for k := 0; k < scale(20, 120); k++ {
			x := add("drop", ascii)
			x.bindAll(pick(g, 0, 1, 1), 100)
			x.s.broken = "shut"
			x.s.script = []hact{{op: "items", items: x.items(pick(g, 1, 3, 30, 150)), rnd: x.Intn(5)}}
			if x.pct(50) {
				part := []byte("HWC#1=Down")
				if !ascii {
					part = []byte{9, 0, 0, 0, 0x42, 3, 8, 1}
					part = part[:1+x.Intn(len(part)-1)]
				}
				x.s.script[0].items = append(x.s.script[0].items, hitem{part: part})
			}
			x.s.script = append(x.s.script, hact{op: "shut"})
		}
	}
	// frames over the limit and frames that stall, more events behind them
	dead := func(x *hgen) []hitem {
		l := x.items(1 + x.Intn(5))
		for i := range l {
			l[i].dead = true
		}
		return l
	}
	over := []uint32{500000, 500001, 500004, 1 << 20, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 0x43574823, 0x0a3d0a3d}
	for k := 0; k < scale(40, 200); k++ {
		x := add("limit", false)
		x.bindAll(x.Intn(2), 100)
		x.s.broken = "limit"
		h := binary.LittleEndian.AppendUint32(nil, over[k%len(over)])
		its := x.items(x.Intn(6))
		x.s.script = []hact{{op: "items", items: append(append(its, hitem{part: h}), dead(x)...), rnd: pick(g, 0, 0, 3), gap: 5 * ms}}
	}
	for k := 0; k < scale(30, 150); k++ {
		x := add("stall", false)
		x.bindAll(x.Intn(2), 100)
		x.s.broken = "stall"
		f := binaryFrame(hitem{events: []*rwp.HWCEvent{x.hevent(1, 5, false), x.hevent(2, 6, false)}})
		c := 1 + k%(len(f)-1)
		its := x.items(x.Intn(6))
		x.s.script = []hact{{op: "items", items: append(its, hitem{part: f[:c]})}, {op: "sleep", d: 2700 * ms}, {op: "items", items: append([]hitem{{part: f[c:]}}, dead(x)...)}}
		if k%3 == 0 { // something else follows
			x.s.script[2] = hact{op: "items", items: dead(x)}
		}
	}
	// payloads that are no message: they do nothing
	for k := 0; k < scale(30, 200); k++ {
		x := add("junk", false)
		x.bindAll(1, 100)
		var its []hitem
		for i := 0; i < 1+x.Intn(4); i++ {
			its = append(its, x.items(x.Intn(4))...)
			its = append(its, hitem{junk: pick(g, []byte{}, []byte{0xff}, []byte{0xff, 0xff, 0xff}, []byte("HWC#1=Down\n"), []byte(strings.Repeat("\xff", 300)), []byte{0x07, 0x00})})
		}
		x.s.broken = "junk"
		x.s.script = []hact{{op: "items", items: its, rnd: x.Intn(4)}, {op: "items", items: x.items(3)}}
	}
	return
}

// ---- connecting ----

type hinit struct {
	hsession
	send    []hpart
	dropAt  time.Duration // after the request; 0: never
	cancel  time.Duration
	noPanel bool
}
type hpart struct {
	fields []string
	at     time.Duration // after the request; negative: before it
	empty  bool          // the fields come with empty values
}

func (s *hinit) run() any {
	start := time.Now()
	now := func() int { return int(time.Since(start) / ms) }
	ln, addr := listenAny()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	request, eof := make(chan bool), make(chan bool)
	var mu sync.Mutex
	arrived := map[string]int{}
	reqAt, dropAt, cancelAt, returned := -1, -1, -1, false
	panelDone := make(chan bool)
	s.over = make(chan bool)
	if s.noPanel {
		ln.Close()
		close(panelDone)
	} else {
		go func() {
			defer close(panelDone)
			conn := s.accept(ln, request, eof)
			if conn == nil {
				return
			}
			defer conn.Close()
			emit := func(p hpart) {
				it := hitem{info: map[string]string{}}
				for _, f := range p.fields {
					v := map[string]string{"model": "MODEL", "serial": "123", "name": "name", "json": topoJSON("T", 5), "svg": "<svg></svg>"}[f]
					if p.empty {
						v = ""
					}
					it.info[f] = v
				}
				s.sendItems(conn, hact{items: []hitem{it}})
				mu.Lock()
				for _, f := range p.fields {
					if _, ok := arrived[f]; !ok && !p.empty {
						arrived[f] = now()
					}
				}
				mu.Unlock()
			}
			for _, p := range s.send {
				if p.at < 0 {
					emit(p)
				}
			}
			select {
			case <-request:
			case <-eof:
			case <-time.After(5 * time.Second):
			}
			mu.Lock()
			reqAt = now()
			mu.Unlock()
			t0 := time.Now()
			drop := make(chan bool)
			if s.dropAt > 0 {
				time.AfterFunc(s.dropAt, func() {
					mu.Lock()
					dropAt = now()
					mu.Unlock()
					conn.(*net.TCPConn).CloseWrite()
					close(drop)
				})
			}
			if s.cancel > 0 {
				time.AfterFunc(s.cancel, func() {
					mu.Lock()
					if !returned {
						cancelAt = now()
					}
					mu.Unlock()
					cancel()
				})
			}
			for _, p := range s.send {
				if p.at >= 0 {
					select {
					case <-time.After(p.at - time.Since(t0)):
						emit(p)
						continue
					case <-eof:
					case <-drop:
					}
					break
				}
			}
			select {
			case <-eof:
			case <-s.over:
			}
		}()
	}
	rp, err := gorwp.Connect(addr, ctx, cancel)
	mu.Lock()
	ret := now()
	returned = true
	got := arr{}
	for _, f := range []string{"model", "serial", "json", "svg"} {
		t, ok := arrived[f]
		if !ok {
			t = -1
		}
		got = append(got, t)
	}
	c := obj{"kind": "init", "name": s.name, "ascii": s.ascii, "ok": err == nil, "panel": rp != nil, "arrived": got, "reqAt": reqAt, "dropAt": dropAt, "cancelAt": cancelAt, "returnAt": ret, "listening": !s.noPanel}
	mu.Unlock()
	ready := false
	if rp != nil {
		ready = rp.IsInitialized()
	}
	c["ready"] = ready
	// a failed attempt leaves no connection behind
	closed := true
	if err != nil && !s.noPanel {
		select {
		case <-eof:
		case <-time.After(3 * time.Second):
			closed = false
		}
	}
	c["closed"] = closed
	cancel()
	if rp != nil {
		rp.Close()
	}
	close(s.over)
	<-panelDone
	return c
}

func gorwpInits(g gen) (ss []hrun) {
	add := func(name string, ascii bool) *hinit {
		s := &hinit{}
		s.hsession = *newH(g, name, ascii)
		ss = append(ss, s)
		return s
	}
	need := []string{"model", "serial", "json", "svg"}
	for _, ascii := range []bool{false, true} {
		// every subset, in one message or several, early or late in the window
		for m := 0; m < 16; m++ {
			for v := 0; v < 4; v++ {
				if m != 15 && v > 1 {
					continue
				}
				s := add(fmt.Sprintf("subset %d/%d", m, v), ascii)
				var fs []string
				for k, f := range need {
					if m&(1<<k) != 0 {
						fs = append(fs, f)
					}
				}
				if g.pct(50) {
					fs = append(fs, "name")
				}
				g.Shuffle(len(fs), func(a, b int) { fs[a], fs[b] = fs[b], fs[a] })
				switch v {
				case 0:
					s.send = []hpart{{fields: fs, at: time.Duration(g.Intn(100)) * ms}}
				case 1, 3:
					for i, f := range fs {
						s.send = append(s.send, hpart{fields: []string{f}, at: time.Duration(i*pick(g, 10, 100, 380)) * ms})
					}
				case 2:
					s.send = []hpart{{fields: fs, at: 1600 * ms}}
				}
			}
		}
		// one of them empty, or late; all before the request; around disconnects and cancellation
		for k := 0; k < 4; k++ {
			others := append(append([]string{}, need[:k]...), need[k+1:]...)
			s := add("empty "+need[k], ascii)
			s.send = []hpart{{fields: others, at: 5 * ms}, {fields: need[k : k+1], at: 10 * ms, empty: true}}
			s = add("empty, then given "+need[k], ascii)
			s.send = []hpart{{fields: need[k : k+1], at: 10 * ms, empty: true}, {fields: others, at: 15 * ms}, {fields: need[k : k+1], at: 600 * ms}}
			s = add("given, then empty "+need[k], ascii)
			s.send = []hpart{{fields: need[k : k+1], at: 10 * ms}, {fields: need[k : k+1], at: 100 * ms, empty: true}, {fields: others, at: 200 * ms}}
			s = add("late "+need[k], ascii)
			s.send = []hpart{{fields: others, at: 5 * ms}, {fields: need[k : k+1], at: 2500 * ms}}
			s = add("just in time "+need[k], ascii)
			s.send = []hpart{{fields: others, at: 5 * ms}, {fields: need[k : k+1], at: 1600 * ms}}
			s = add("before the request "+need[k], ascii)
			s.send = []hpart{{fields: need[k : k+1], at: -1}, {fields: others, at: 40 * ms}}
			s = add("drop before "+need[k], ascii)
			s.send = []hpart{{fields: others, at: 5 * ms}, {fields: need[k : k+1], at: 1500 * ms}}
			s.dropAt = 300 * ms
			s = add("cancel before "+need[k], ascii)
			s.send = []hpart{{fields: others, at: 5 * ms}, {fields: need[k : k+1], at: 1500 * ms}}
			s.cancel = 300 * ms
		}
		for _, d := range []time.Duration{1, 20, 500, 1200} {
			s := add("drop", ascii)
			s.dropAt = d * ms
			s = add("cancel", ascii)
			s.cancel = d * ms
		}
		for k := 0; k < 3; k++ {
			s := add("complete, then drop", ascii)
			s.send = []hpart{{fields: need, at: 5 * ms}}
			s.dropAt = 20 * ms
			s = add("all before the request", ascii)
			s.send = []hpart{{fields: need, at: -1}}
		}
	}
	s := add("nobody there", false)
	s.noPanel = true
	for k := 0; k < 3; k++ { // the reply to the probe never comes
		s := add("silent", true)
		s.reply = nil
		s.send = []hpart{{fields: need, at: pick(g, 10*ms, 1500*ms)}}
	}
	return
}

// ---- behaviours enumerated by TLC ----

func gorwpScripts(g gen) (ss []hrun) {
	var scripts []struct {
		Ascii bool
		Units []string
	}
	b, err := os.ReadFile(*inFile)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &scripts); err != nil {
		panic(err)
	}
	for _, sc := range scripts {
		s := newH(g, "script "+strings.Join(sc.Units, ""), sc.Ascii)
		ss = append(ss, s)
		s.init.items = []hitem{{info: map[string]string{"model": "M", "serial": "S", "json": topoJSON("T", 1), "svg": "<svg/>"}}}
		s.binds = []hbind{{h: 1, kind: "bin", id: 1, fb: 1, gets: true}, {h: 2, kind: "trg", id: 1, fb: 2}, {h: 3, kind: "pul", id: 3, rebnd: []hbind{{h: 4, kind: "abs", id: 4, fb: 1}, {h: 5, kind: "bin", id: 1}}}}
		var its []hitem
		dead := false
		for k, u := range sc.Units {
			it := hitem{dead: dead}
			switch u {
			case "b":
				it.events = []*rwp.HWCEvent{{HWCID: 1, Binary: &rwp.BinaryEvent{Pressed: k%2 == 0, Edge: rwp.BinaryEvent_EdgeID(1 << (k % 5))}}}
			case "u":
				it.events = []*rwp.HWCEvent{{HWCID: 2, Binary: &rwp.BinaryEvent{Pressed: true}}}
			case "r":
				it.events = []*rwp.HWCEvent{{HWCID: 3, Pulsed: &rwp.PulsedEvent{Value: int32(k + 1)}}}
			case "d":
				it.events = []*rwp.HWCEvent{{HWCID: 4, Absolute: &rwp.AbsoluteEvent{Value: uint32(k + 1)}}}
			case "p":
				it.ping = true
			case "i":
				it.info = map[string]string{"name": fmt.Sprint("N", k)}
			case "t":
				it.info = map[string]string{"json": topoJSON(fmt.Sprint("T", k), 1)}
			case "a":
				it.avail = map[uint32]uint32{uint32(k % 2): uint32(k + 1)}
			case "m": // several things in one message
				it.events = []*rwp.HWCEvent{{HWCID: 1, Binary: &rwp.BinaryEvent{Pressed: true, Edge: rwp.BinaryEvent_EdgeID(1 << (k % 5))}}, {HWCID: 1, Pulsed: &rwp.PulsedEvent{Value: int32(10 + k)}}}
				it.ping = true
				it.info = map[string]string{"model": fmt.Sprint("M", k)}
			case "X":
				it.part = []byte{0x20, 0xa1, 7, 0}
				dead, s.broken = true, "limit"
			case "S":
				it.part = []byte("HWC#1=Down")
				if !sc.Ascii {
					it.part = []byte{9, 0, 0, 0, 0x42}
				}
				its = append(its, it)
				s.broken = "shut"
				continue
			}
			its = append(its, it)
		}
		s.script = []hact{{op: "items", items: its}}
		if s.broken == "shut" {
			s.script = append(s.script, hact{op: "shut"})
		}
	}
	return
}
