package main

import (
	"context"
	"math/rand"
	"net"
	"strings"
	"sync"
	"time"

	helpers "github.com/SKAARHOJ/rawpanel-lib"
	"github.com/SKAARHOJ/rawpanel-lib/gorwp"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

func init() { cmds["linestream"] = linestream }

// What an ASCII panel receives: the reconnecting client and the high-level client are given messages whose texts contain line
// breaks; the produced strings and the bytes on the wire are recorded, in rounds.

// a panel that reads everything and says it is an ASCII panel
type linePanel struct {
	ln   net.Listener
	addr string
	mu   sync.Mutex
	rx   []byte
	conn net.Conn
}

func (p *linePanel) received() int { p.mu.Lock(); defer p.mu.Unlock(); return len(p.rx) }

// waits until there is as much, or nothing arrives for as long
func (p *linePanel) settle(atLeast int, quiet time.Duration) int {
	last, since := p.received(), time.Now()
	for {
		n := p.received()
		if n >= atLeast {
			return n
		}
		if n != last {
			last, since = n, time.Now()
		}
		if time.Since(since) > quiet {
			return n
		}
		time.Sleep(time.Millisecond)
	}
}

func newLinePanel(answer string) *linePanel {
	p := &linePanel{}
	p.ln, p.addr = listenAny()
	go func() {
		conn, err := p.ln.Accept()
		if err != nil {
			return
		}
		p.mu.Lock()
		p.conn = conn
		p.mu.Unlock()
		go func() {
			p.settle(6, 5*time.Second)
			conn.Write([]byte("RDY\n"))
			p.settle(8, 5*time.Second) // the line feed, and the request of the high-level client
			conn.Write([]byte(answer))
		}()
		buf := make([]byte, 1<<16)
		for {
			n, err := conn.Read(buf)
			p.mu.Lock()
			p.rx = append(p.rx, buf[:n]...)
			p.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	return p
}

func (p *linePanel) stop() {
	p.ln.Close()
	p.mu.Lock()
	if p.conn != nil {
		p.conn.Close()
	}
	p.mu.Unlock()
}

// one round: submit, and what arrived of it
func (p *linePanel) round(client string, lines []string, submit func()) any {
	from := p.received()
	want := from
	ls := arr{}
	for _, l := range lines {
		want += len(l) + 1
		ls = append(ls, l)
	}
	submit()
	p.settle(want, 3*time.Second)
	time.Sleep(3 * time.Millisecond) // more than that
	p.mu.Lock()
	defer p.mu.Unlock()
	return obj{"kind": "stream", "client": client, "lines": ls, "stream": string(p.rx[from:])}
}

// messages that take more than one line, with line breaks in texts; the high-level client sends states only
func (g gen) lineMsgs(n int) (ms []*rwp.InboundMessage) {
	for ; n > 0; n-- {
		m := &rwp.InboundMessage{}
		g.populateSane(m.ProtoReflect(), pick(g, 5, 20, 50))
		switch g.Intn(4) {
		case 0:
			i, _ := flatMsgs(g.pieces())
			m = i[0]
		case 1: // an image of several lines
			m.States = append(m.States, &rwp.HWCState{HWCIDs: []uint32{1, 2}, HWCText: &rwp.HWCText{Title: g.lfText()},
				HWCGfx: &rwp.HWCGfx{W: 64, H: 32, ImageData: g.bytes(1 + g.Intn(400))}})
		}
		ms = append(ms, m)
	}
	return
}

func linestream() {
	n := scale(20, 150)
	rounds := scale(10, 25)
	cases := make([]arr, 2*n)
	work := func(k int) {
		g := gen{rand.New(rand.NewSource(*seed + int64(k)))}
		if k < n {
			cases[k] = streamReconnecting(g, rounds)
		} else {
			cases[k] = streamHighLevel(g, rounds)
		}
	}
	parallel(2*n, work)
	all := arr{}
	for _, c := range cases {
		all = append(all, c...)
	}
	saveCases(out("streams.json"), all)
}

func streamReconnecting(g gen, rounds int) (cs arr) {
	p := newLinePanel("")
	defer p.stop()
	ctx, cancel := context.WithCancel(context.Background())
	to, from := make(chan []*rwp.InboundMessage, 10), make(chan []*rwp.OutboundMessage, 100)
	connected := make(chan bool, 10)
	var wg sync.WaitGroup
	done := make(chan bool)
	go func() {
		helpers.ConnectToPanel(p.addr, to, from, ctx, &wg, func(string, bool, net.Conn) { connected <- true }, func(bool) {}, nil)
		close(done)
	}()
	defer func() {
		cancel()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
		}
	}()
	select {
	case <-connected:
	case <-time.After(8 * time.Second):
		return nil // not this property's matter
	}
	p.settle(7, time.Second)
	for k := 0; k < rounds; k++ {
		var lists [][]*rwp.InboundMessage
		var lines []string
		for l := 1 + g.Intn(4); l > 0; l-- {
			ms := g.lineMsgs(g.Intn(4))
			lists = append(lists, cloneAll(ms))
			lines = append(lines, helpers.InboundMessagesToRawPanelASCIIstrings(ms)...)
		}
		cs = append(cs, p.round("ConnectToPanel", lines, func() {
			for _, l := range lists {
				select {
				case to <- l:
				case <-time.After(5 * time.Second):
				}
			}
		}))
	}
	return
}

func streamHighLevel(g gen, rounds int) (cs arr) {
	p := newLinePanel("_model=M\n_serial=S\n_panelTopology_HWC=" + topoJSON("t", 1) + "\n_panelTopology_svgbase=<svg></svg>\n")
	defer p.stop()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	rp, err := gorwp.Connect(p.addr, ctx, cancel)
	if err != nil {
		return nil // not this property's matter
	}
	p.settle(1<<30, 60*time.Millisecond) // the request
	for k := 0; k < rounds; k++ {
		var sts []*rwp.HWCState
		var lines []string
		for l := 1 + g.Intn(6); l > 0; l-- {
			for _, m := range g.lineMsgs(1) {
				for _, s := range m.States {
					sts = append(sts, s)
					lines = append(lines, helpers.InboundMessagesToRawPanelASCIIstrings([]*rwp.InboundMessage{{States: []*rwp.HWCState{s}}})...)
				}
			}
		}
		if len(strings.Join(lines, "")) == 0 {
			continue
		}
		cs = append(cs, p.round("gorwp", lines, func() {
			for _, s := range sts {
				rp.SendRawState(s)
			}
		}))
	}
	return
}
