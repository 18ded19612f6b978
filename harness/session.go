package main

import (
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	helpers "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
)

// A scripted panel on the loopback network, and a client session against it. Everything observable is recorded with
// milliseconds since the session's start.

type act struct {
	op   string // send, sleep, close, reset, cancel, eof, submit
	b    []byte
	cuts []int         // positions in b after which a segment ends
	gap  time.Duration // between segments
	d    time.Duration
}

// what the panel sends, in order: frames or lines; end is the position in the sent bytes at which it is complete
type sentItem struct {
	end  int
	w    []string // the messages it stands for
	junk bool     // a frame whose payload is not a message: may be delivered as anything or not at all
}

type submission struct {
	routine int
	pause   time.Duration
	list    []*rwp.InboundMessage
}

type panelConn struct {
	ascii      bool
	class      string // of the reply
	errText    string
	pre        []act // before the reply
	reply      []byte
	replyCuts  []int
	replyDelay time.Duration
	acts       []act
	items      []sentItem
	sent       int
	noRead     bool
	broken     string // "", "limit", "stall": what ends the stream
	subs       []submission
	subBytes   int // what they take

	mu       sync.Mutex
	rx       []byte
	rxTimes  [][2]int // number of bytes received at a time
	accept   int
	replyAt  int
	lastByte int
	sentAll  int
	dropAt   int
	eofAt    int
	done     bool
	accepted bool
	sending  bool
	cut      bool          // cancelled before everything sent had time to arrive
	early    bool          // cancelled before the end of the script
	gone     time.Duration // nobody listens for so long after this connection
	slowRead time.Duration // the panel reads a little at a time, with pauses
	probeOff bool          // the panel does not wait for the probe
}

type session struct {
	name        string
	conns       []*panelConn
	re, no      int                   // configured retry periods in seconds, 0 for the default
	absent      time.Duration         // nobody listens for so long
	absentSubs  int                   // submissions meanwhile
	cancelAt    time.Duration         // cancel at this time, whatever happens
	tail        time.Duration         // after the end of the script
	slowReader  time.Duration         // the consumer pauses between messages
	long        time.Duration         // how much longer than others this session takes
	pauses      map[int]time.Duration // and after so many messages
	backlog     bool                  // connections are never completed
	fixedCancel bool                  // cancellation is part of the script
	cancelIn    string                // cancel in the cancelNth "connect" or "disconnect" callback
	cancelNth   int
	cbPause     time.Duration // the callbacks take so long
	mute        bool          // neither callbacks nor wait group

	start     time.Time
	mu        sync.Mutex
	calls     arr
	delivered []string
	times     []int
	cancelled int
	cancel    context.CancelFunc
	toPanel   chan []*rwp.InboundMessage
	connected int // connect callbacks so far
	lost      chan bool
	extra     int
}

func (s *session) now() int { return int(time.Since(s.start) / time.Millisecond) }

func (s *session) doCancel() {
	s.mu.Lock()
	first := s.cancelled < 0
	if first {
		s.cancelled = s.now()
	}
	s.mu.Unlock()
	if first {
		for _, c := range s.conns {
			c.mu.Lock()
			if !c.done {
				c.early = true
			}
			if !c.done || s.fixedCancel && (c.dropAt < 0 || s.now()-c.dropAt < 100) {
				if c.sending || c.lastByte < 0 || s.now()-c.lastByte < 100 || s.slowReader > 0 {
					c.cut = true
				}
			}
			c.mu.Unlock()
		}
		s.cancel()
	}
}

// sessions that take much longer than they should
var overdue atomic.Int64

// addresses outside the range from which the system takes the ports of outgoing connections
var nextPort atomic.Int64

// loopback is an address that no other process of ours listens on, so that a port a session has given up for a while
// stays nobody's.
var loopback = fmt.Sprintf("127.%d.%d.1", 1+os.Getpid()%250, 1+os.Getpid()/250%250)

func listenAny() (net.Listener, string) {
	for {
		addr := fmt.Sprintf("%s:%d", loopback, 10000+nextPort.Add(1)%22000)
		if l, err := net.Listen("tcp", addr); err == nil {
			return l, addr
		}
	}
}

// ---- building what a panel sends ----

func frame(payload []byte) []byte {
	return append(binary.LittleEndian.AppendUint32(nil, uint32(len(payload))), payload...)
}

func wireID(b []byte) string {
	if len(b) <= 64 {
		return hex.EncodeToString(b)
	}
	h := sha1.Sum(b)
	return fmt.Sprintf("sha1:%d:%s", len(b), hex.EncodeToString(h[:]))
}

// a line, or what stands for a long one
func lineID(l string) string {
	if len(l) <= 40 {
		return l
	}
	h := sha1.Sum([]byte(l))
	return l[:8] + ".." + hex.EncodeToString(h[:8])
}

func canonID(m proto.Message) string {
	b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	return wireID(b)
}

// frames adds binary frames of messages to what the panel sends; returns their bytes
func (c *panelConn) frames(ms ...*rwp.OutboundMessage) []byte {
	var out []byte
	for _, m := range ms {
		b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(m)
		out = append(out, frame(b)...)
		c.sent += 4 + len(b)
		c.items = append(c.items, sentItem{end: c.sent, w: []string{wireID(b)}})
	}
	return out
}

// together makes one item of all items from the k-th on
func (c *panelConn) together(k int) {
	it := sentItem{end: c.sent, w: []string{}}
	for _, i := range c.items[k:] {
		it.w = append(it.w, i.w...)
	}
	c.items = append(c.items[:k], it)
}

// junk adds a frame with any payload
func (c *panelConn) junk(payload []byte) []byte {
	c.sent += 4 + len(payload)
	m := &rwp.OutboundMessage{}
	if err := proto.Unmarshal(payload, m); err == nil { // it is a message after all
		c.items = append(c.items, sentItem{end: c.sent, w: []string{canonID(m)}})
	} else {
		c.items = append(c.items, sentItem{end: c.sent, w: []string{}, junk: true})
	}
	return frame(payload)
}

// raw adds bytes that are no frame
func (c *panelConn) raw(b []byte) []byte { c.sent += len(b); return b }

// lines adds ASCII lines
func (c *panelConn) lines(eol string, ls ...string) []byte {
	var out []byte
	for _, l := range ls {
		out = append(out, l+eol...)
		c.sent += len(l) + len(eol)
		w := []string{}
		for _, m := range helpers.RawPanelASCIIstringsToOutboundMessages([]string{l}) {
			w = append(w, canonID(m))
		}
		c.items = append(c.items, sentItem{end: c.sent, w: w})
	}
	return out
}

func ackFrame() []byte {
	b, _ := proto.Marshal(&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_ACK})
	return frame(b)
}

// ---- the panel's side ----

func sendCut(conn net.Conn, b []byte, cuts []int, gap time.Duration) error {
	prev := 0
	for _, k := range append(append([]int{}, cuts...), len(b)) {
		if k <= prev || k > len(b) {
			continue
		}
		if prev > 0 {
			time.Sleep(gap)
		}
		conn.SetWriteDeadline(time.Now().Add(20 * time.Second))
		if _, err := conn.Write(b[prev:k]); err != nil {
			return err
		}
		prev = k
	}
	return nil
}

func (s *session) servePanel(c *panelConn, conn net.Conn) {
	c.mu.Lock()
	c.accept = s.now()
	c.accepted = true
	c.mu.Unlock()
	probe := make(chan bool)
	flushed := make(chan bool)
	eof := make(chan bool)
	stopReading := make(chan bool)
	go func() {
		buf := make([]byte, 1<<16)
		sawProbe, sawFlush, pauses := false, false, 0
		defer close(eof)
		for {
			n, err := conn.Read(buf)
			c.mu.Lock()
			if n > 0 {
				c.rx = append(c.rx, buf[:n]...)
				c.rxTimes = append(c.rxTimes, [2]int{len(c.rx), s.now()})
			}
			l := len(c.rx)
			if err != nil && c.eofAt < 0 {
				c.eofAt = s.now()
			}
			c.mu.Unlock()
			if l >= 6 && !sawProbe {
				sawProbe = true
				close(probe)
			}
			if l >= 7 && !sawFlush {
				sawFlush = true
				close(flushed)
			}
			if err != nil {
				return
			}
			if c.noRead && sawProbe {
				<-stopReading
			}
			if pauses++; c.slowRead > 0 && sawProbe && (c.slowRead < time.Second || pauses < 5) {
				time.Sleep(c.slowRead)
			}
		}
	}()
	wait := func(ch chan bool, d time.Duration) {
		select {
		case <-ch:
		case <-eof:
		case <-time.After(d):
		}
	}
	var script func(acts []act)
	script = func(acts []act) {
		for _, a := range acts {
			switch a.op {
			case "send":
				c.mu.Lock()
				c.sending = true
				c.mu.Unlock()
				if sendCut(conn, a.b, a.cuts, a.gap) == nil {
					c.mu.Lock()
					c.sentAll += len(a.b)
					c.mu.Unlock()
				}
				c.mu.Lock()
				c.lastByte = s.now()
				c.sending = false
				c.mu.Unlock()
			case "late": // does not count as sent in time
				sendCut(conn, a.b, nil, 0)
			case "sleep":
				time.Sleep(a.d)
			case "cancel":
				s.doCancel()
			case "close", "reset":
				c.mu.Lock()
				c.dropAt = s.now()
				c.mu.Unlock()
				if a.op == "reset" {
					conn.(*net.TCPConn).SetLinger(0)
				}
				conn.Close()
			case "shut": // no more data, but still reading
				c.mu.Lock()
				c.dropAt = s.now()
				c.mu.Unlock()
				conn.(*net.TCPConn).CloseWrite()
			case "eof":
				wait(eof, 8*time.Second)
			}
		}
	}
	if !c.probeOff {
		wait(probe, 4*time.Second)
	}
	script(c.pre)
	if c.reply != nil {
		time.Sleep(c.replyDelay)
		sendCut(conn, c.reply, c.replyCuts, 5*time.Millisecond)
	}
	c.mu.Lock()
	c.replyAt = s.now()
	c.mu.Unlock()
	if c.ascii {
		wait(flushed, 4*time.Second)
	}
	script(c.acts)
	c.mu.Lock()
	c.done = true
	c.mu.Unlock()
	// hold the connection until the client lets go of it
	for k := 0; ; k++ {
		select {
		case <-eof:
		case <-time.After(50 * time.Millisecond):
			s.mu.Lock()
			over := s.cancelled >= 0 && s.now()-s.cancelled > 6000
			gone := s.cancelled >= 0 && s.now()-s.cancelled > 200
			s.mu.Unlock()
			if gone && c.noRead {
				select {
				case <-stopReading:
				default:
					close(stopReading)
				}
			}
			if !over {
				continue
			}
		}
		break
	}
	conn.Close()
}

// ---- the client's side ----

func (s *session) run() any {
	s.start = time.Now()
	s.cancelled = -1
	s.calls = arr{}
	ctx, cancel := context.WithCancel(context.Background())
	s.cancel = cancel
	defer cancel()
	addr := ""
	var lnMu sync.Mutex
	var ln net.Listener
	over1 := false
	if s.backlog {
		var stop func()
		addr, stop = fullBacklog()
		defer stop()
	} else {
		ln, addr = listenAny()
	}
	for _, c := range s.conns {
		c.accept, c.replyAt, c.lastByte, c.dropAt, c.eofAt = -1, -1, -1, -1, -1
	}
	var panelWG sync.WaitGroup
	relisten := func() net.Listener {
		lnMu.Lock()
		defer lnMu.Unlock()
		for try := 0; try < 50 && !over1; try++ {
			if l, err := net.Listen("tcp", addr); err == nil {
				ln = l
				return l
			}
			time.Sleep(5 * time.Millisecond)
		}
		return nil
	}
	accept := func(l net.Listener) {
		for k := 0; l != nil; {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			if k >= len(s.conns) {
				s.mu.Lock()
				s.extra++
				s.mu.Unlock()
				conn.Close()
				continue
			}
			c := s.conns[k]
			k++
			if c.slowRead >= time.Second {
				conn.(*net.TCPConn).SetReadBuffer(1 << 16)
			}
			panelWG.Add(1)
			go func() { defer panelWG.Done(); s.servePanel(c, conn) }()
			if c.gone > 0 {
				l.Close()
				for {
					time.Sleep(2 * time.Millisecond)
					c.mu.Lock()
					d := c.dropAt
					c.mu.Unlock()
					lnMu.Lock()
					o := over1
					lnMu.Unlock()
					if o {
						return
					}
					if d >= 0 {
						break
					}
				}
				time.Sleep(c.gone)
				l = relisten()
			}
		}
	}
	if s.absent > 0 {
		ln.Close()
		go func() {
			time.Sleep(s.absent)
			accept(relisten())
		}()
	} else if ln != nil {
		go accept(ln)
	}
	s.toPanel = make(chan []*rwp.InboundMessage)
	fromPanel := make(chan []*rwp.OutboundMessage)
	stopRead := make(chan bool)
	readDone := make(chan bool)
	go func() {
		defer close(readDone)
		for {
			select {
			case ms := <-fromPanel:
				s.mu.Lock()
				for _, m := range ms {
					s.delivered = append(s.delivered, canonID(m))
					s.times = append(s.times, s.now())
				}
				n := len(s.delivered)
				s.mu.Unlock()
				if s.slowReader > 0 {
					time.Sleep(s.slowReader)
				}
				if d := s.pauses[n]; d > 0 {
					time.Sleep(d)
				}
			case <-stopRead:
				return
			}
		}
	}()
	var cfg *helpers.ConnectToPanelConfig
	if s.re != 0 || s.no != 0 {
		cfg = &helpers.ConnectToPanelConfig{NoConnectionRetryPeriod: s.no, ReConnectionRetryPeriod: s.re}
	}
	var wg sync.WaitGroup
	ret := make(chan int, 1)
	retAt, wgAt := -1, -1
	inCallback := func(kind string) {
		time.Sleep(s.cbPause)
		s.mu.Lock()
		n := 0
		for _, c := range s.calls {
			if c.(obj)["k"] == kind {
				n++
			}
		}
		s.mu.Unlock()
		if s.cancelIn == kind && n == s.cancelNth {
			s.doCancel()
		}
	}
	go func() {
		if s.mute {
			helpers.ConnectToPanel(addr, s.toPanel, fromPanel, ctx, nil, nil, nil, cfg)
			ret <- s.now()
			return
		}
		helpers.ConnectToPanel(addr, s.toPanel, fromPanel, ctx, &wg,
			func(msg string, bin bool, conn net.Conn) {
				s.mu.Lock()
				s.calls = append(s.calls, obj{"k": "connect", "t": s.now(), "binary": bin, "err": msg, "cancelled": false})
				k := s.connected
				s.connected++
				s.lost = make(chan bool)
				lost := s.lost
				s.mu.Unlock()
				if k < len(s.conns) {
					s.submit(s.conns[k].subs, lost)
				}
				inCallback("connect")
			},
			func(c bool) {
				s.mu.Lock()
				s.calls = append(s.calls, obj{"k": "disconnect", "t": s.now(), "binary": false, "err": "", "cancelled": c})
				if s.lost != nil {
					close(s.lost)
					s.lost = nil
				}
				s.mu.Unlock()
				inCallback("disconnect")
			}, cfg)
		ret <- s.now()
	}()
	for k := 0; k < s.absentSubs; k++ {
		go func() {
			time.Sleep(time.Duration(50+100*k) * time.Millisecond)
			select {
			case s.toPanel <- []*rwp.InboundMessage{{FlowMessage: rwp.InboundMessage_PING}}:
			case <-time.After(time.Second):
			}
		}()
	}
	if s.cancelAt > 0 {
		time.AfterFunc(s.cancelAt, s.doCancel)
	}
	late := sync.Once{}
	// until the script is over and what it sent had time to arrive
	want := 0
	for _, c := range s.conns {
		for _, it := range c.items {
			want += len(it.w)
		}
	}
	allow := 40 * time.Second
	if overdue.Load() > 16 { // something is thoroughly wrong already
		allow = 5 * time.Second
	}
	limit := time.Now().Add(allow + s.long)
	grace := 2*time.Second + time.Duration(want)*200*time.Microsecond
	for _, d := range s.pauses {
		grace += d
	}
	over := time.Time{}
	for time.Now().Before(limit) {
		s.mu.Lock()
		c := s.cancelled >= 0
		n := len(s.delivered)
		s.mu.Unlock()
		if c {
			break
		}
		if time.Since(s.start) > 14*time.Second+s.long {
			late.Do(func() { overdue.Add(1) })
		}
		all := len(s.conns) > 0
		for _, c := range s.conns {
			c.mu.Lock()
			all = all && c.done
			c.mu.Unlock()
		}
		if all && over.IsZero() {
			over = time.Now()
		}
		if all && n >= want && s.subsArrived() || !over.IsZero() && time.Since(over) > grace && (s.subsArrived() || time.Since(over) > 20*time.Second) {
			time.Sleep(s.tail + 30*time.Millisecond)
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	s.doCancel()
	select {
	case retAt = <-ret:
		done := make(chan bool)
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
			wgAt = s.now()
		case <-time.After(5 * time.Second):
		}
	case <-time.After(8 * time.Second):
	}
	panelWG.Wait()
	lnMu.Lock()
	over1 = true
	if ln != nil {
		ln.Close()
	}
	lnMu.Unlock()
	close(stopRead)
	<-readDone
	return s.record(retAt, wgAt)
}

// submit makes the submissions of a connection. Those that nobody took over before the connection was lost are given up.
func (s *session) submit(subs []submission, lost chan bool) {
	by := map[int][]submission{}
	for _, x := range subs {
		by[x.routine] = append(by[x.routine], x)
	}
	for _, l := range by {
		go func() {
			for _, x := range l {
				time.Sleep(x.pause)
				select {
				case <-lost:
					return
				default:
				}
				select {
				case s.toPanel <- x.list:
				case <-lost:
					return
				case <-time.After(15 * time.Second):
					return
				}
			}
		}()
	}
}

// rough: whether the panel has received as many bytes as were submitted
func (s *session) subsArrived() bool {
	for _, c := range s.conns {
		if len(c.subs) == 0 || c.noRead {
			continue
		}
		if c.subBytes == 0 {
			n := 6
			if c.ascii {
				n++
			}
			for _, x := range c.subs {
				if c.ascii {
					for _, l := range helpers.InboundMessagesToRawPanelASCIIstrings(x.list) {
						n += len(l) + 1
					}
				} else {
					for _, m := range x.list {
						n += 4 + proto.Size(m)
					}
				}
			}
			c.subBytes = n
		}
		c.mu.Lock()
		l := len(c.rx)
		c.mu.Unlock()
		if l < c.subBytes {
			return false
		}
	}
	return true
}

func (s *session) record(retAt, wgAt int) any {
	conns := arr{}
	for _, c := range s.conns {
		c.mu.Lock()
		if !c.accepted {
			c.mu.Unlock()
			continue
		}
		probe := c.rx
		rest := []byte{}
		if len(c.rx) > 6 {
			probe, rest = c.rx[:6], c.rx[6:]
		}
		items := arr{}
		for _, it := range c.items {
			items = append(items, obj{"w": it.w, "junk": it.junk, "whole": it.end <= c.sentAll})
		}
		subs := map[int]arr{}
		for _, x := range c.subs {
			l := []string{}
			if c.ascii {
				for _, t := range helpers.InboundMessagesToRawPanelASCIIstrings(x.list) {
					l = append(l, lineID(t))
				}
			} else {
				for _, m := range x.list {
					l = append(l, canonID(m))
				}
			}
			subs[x.routine] = append(subs[x.routine], l)
		}
		keys := []int{}
		for k := range subs {
			keys = append(keys, k)
		}
		sort.Ints(keys)
		lists := arr{}
		for _, k := range keys {
			lists = append(lists, subs[k])
		}
		// the time at which the first byte after the probe arrived
		first := -1
		for _, x := range c.rxTimes {
			if x[0] > 6 {
				first = x[1]
				break
			}
		}
		units, left := []string{}, 0
		if c.ascii {
			parts := strings.Split(string(rest), "\n")
			for _, t := range parts[:len(parts)-1] {
				units = append(units, lineID(t))
			}
			left = len(parts[len(parts)-1])
		} else {
			for len(rest) >= 4 {
				n := binary.LittleEndian.Uint32(rest)
				if uint64(n)+4 > uint64(len(rest)) {
					break
				}
				m := &rwp.InboundMessage{}
				if err := proto.Unmarshal(rest[4:4+n], m); err != nil {
					units = append(units, "undecodable")
				} else {
					units = append(units, canonID(m))
				}
				rest = rest[4+n:]
			}
			left = len(rest)
		}
		conns = append(conns, obj{"ascii": c.ascii, "class": c.class, "errText": c.errText, "accept": c.accept, "probe": bytesArr(probe), "units": units,
			"left": left, "firstAfterProbe": first, "replyAt": c.replyAt, "items": items, "lists": lists, "broken": c.broken, "lastByte": c.lastByte, "dropAt": c.dropAt,
			"eofAt": c.eofAt, "cut": c.cut, "early": c.early, "gone": int(c.gone / time.Millisecond), "noRead": c.noRead, "done": c.done})
		c.mu.Unlock()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	re, no := s.re, s.no
	if re == 0 {
		re = 1
	}
	if no == 0 {
		no = 3
	}
	if s.delivered == nil {
		s.delivered = []string{}
	}
	return obj{"kind": "session", "name": s.name, "conns": conns, "planned": len(s.conns), "calls": s.calls, "delivered": s.delivered, "times": s.times,
		"cancelAt": s.cancelled, "returnAt": retAt, "drainedAt": wgAt, "re": re * 1000, "no": no * 1000, "absent": int(s.absent / time.Millisecond), "extra": s.extra, "fixedCancel": s.fixedCancel, "pause": int(s.cbPause / time.Millisecond), "mute": s.mute}
}

func bytesArr(b []byte) arr {
	a := arr{}
	for _, x := range b {
		a = append(a, int(x))
	}
	return a
}

// goroutines that are still inside the library's client
func clientGoroutines(name string) (int, string) {
	buf := make([]byte, 16<<20)
	buf = buf[:runtime.Stack(buf, true)]
	n, ex := 0, ""
	for _, g := range bytes.Split(buf, []byte("\n\n")) {
		if bytes.Contains(g, []byte(name)) {
			n++
			ex = string(g)
		}
	}
	return n, ex
}

var _ = io.EOF

// runSessions runs all sessions, some at a time.
func runSessions(ss []*session, at int) arr {
	sem := make(chan bool, at)
	cases := make(arr, len(ss))
	var wg sync.WaitGroup
	for k := range ss {
		sem <- true
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			if p := guardLong("session "+ss[k].name, func() { cases[k] = ss[k].run() }); p != "" {
				cases[k] = obj{"kind": "panic", "what": p, "name": ss[k].name}
			}
		}()
	}
	wg.Wait()
	return cases
}

// like guard, for calls that take long by design
func guardLong(desc string, f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprint(r)
			if p == "" {
				p = "panic"
			}
		}
	}()
	f()
	return ""
}
