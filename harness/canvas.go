package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"image/png"
	"math"
	"math/rand"
	"strings"

	helpers "github.com/SKAARHOJ/rawpanel-lib"
	monogfx "github.com/SKAARHOJ/rawpanel-lib/ibeam_lib_monogfx"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() {
	cmds["canvas"] = canvas
	cmds["pixfmt"] = pixfmt
	cmds["textmetrics"] = textmetrics
}

const stride = 1 << 17       // positions are y*stride+x
const farAway = 1000000 // what the traces call every coordinate beyond it

func tr(v int) int {
	if v > farAway {
		return farAway
	}
	if v < -farAway {
		return -farAway
	}
	return v
}
func trs(v ...int) arr {
	a := arr{}
	for _, x := range v {
		a = append(a, tr(x))
	}
	return a
}

// one drawing operation
type drawOp struct {
	op    string
	a     []int
	color bool
	bg    bool
	b     []byte // bitmap or text
	f1    bool
	f2    bool
}

func (o drawOp) tree() obj {
	t := obj{"op": o.op, "a": trs(o.a...), "color": o.color}
	switch o.op {
	case "bitmap":
		t["inv"], t["all"] = o.f1, o.f2
	case "char":
		t["bg"] = o.bg
	case "text":
		t["n"] = len(o.b)
	}
	return t
}

func (o drawOp) run(m *monogfx.MonoImg) {
	a := o.a
	switch o.op {
	case "pixel":
		m.DrawPixel(a[0], a[1], o.color)
	case "hline":
		m.DrawFastHLine(a[0], a[1], a[2], o.color)
	case "vline":
		m.DrawFastVLine(a[0], a[1], a[2], o.color)
	case "fillrect":
		m.FillRect(a[0], a[1], a[2], a[3], o.color)
	case "roundrect":
		m.DrawRoundRect(a[0], a[1], a[2], a[3], a[4], o.color)
	case "fillroundrect":
		m.FillRoundRect(a[0], a[1], a[2], a[3], a[4], o.color)
	case "circle":
		m.DrawCircleHelper(a[0], a[1], a[2], a[3], o.color)
	case "fillcircle":
		m.FillCircleHelper(a[0], a[1], a[2], a[3], a[4], o.color)
	case "bitmap":
		m.DrawBitmap(a[0], a[1], o.b, a[2], a[3], o.color, o.f1, o.f2)
	case "char":
		m.DrawChar(a[0], a[1], byte(a[2]), o.color, o.bg, a[3], a[4])
	case "text":
		m.SetCursor(a[0], a[1])
		m.SetTextColor(o.color)
		m.RenderText(string(o.b))
	case "bbox":
		m.SetBoundingBox(a[0], a[1], a[2], a[3])
	case "invert":
		m.InvertPixels(o.color)
	case "font":
		m.SetFont(a[0], o.color)
	case "measure":
		m.StrWidth(string(o.b))
		m.LineHeight()
	case "size":
		m.SetTextSize(a[0], a[1])
	case "wrap":
		m.SetTextWrap(o.color)
	case "spacing":
		m.SetCharSpacingCompensation(byte(a[0]))
	}
}

func bits(b []byte, wib int) arr {
	a := arr{}
	for i, x := range b {
		for k := 0; k < 8; k++ {
			if x&(0x80>>k) != 0 {
				a = append(a, (i/wib)*stride+(i%wib)*8+k)
			}
		}
	}
	return a
}

func canvasCase(w, h int, init []byte, extra int, ops []drawOp) any {
	wib := (w + 7) / 8
	c := obj{"kind": "draw", "w": w, "h": h, "size": len(init)}
	var steps arr
	m := monogfx.MonoImg{}
	desc := fmt.Sprintf("canvas %dx%d %v", w, h, ops)
	p := guard(desc, func() {
		m.NewImage(w, h)
		if len(init) > 0 {
			if err := m.CreateFromBytes(w, h, append([]byte{}, init...)); err != nil {
				panic(err)
			}
		}
	})
	c["lit"] = arr{}
	if wib > 0 {
		c["lit"] = bits(init, wib)
	}
	for _, o := range ops {
		if p != "" {
			break
		}
		st := o.tree()
		before := append([]byte{}, m.GetImgSlice()...)
		if o.op == "char" || o.op == "text" { // the metrics the library reports
			cw, lh := 0, 0
			p = guard(desc, func() {
				if o.op == "char" {
					cw = int(m.GetCharWidth(byte(o.a[2])))
				}
				lh = int(m.LineHeight())
			})
			st["cw"], st["lh"] = cw, lh
		}
		if p == "" {
			p = guard(desc, func() { o.run(&m) })
		}
		after := m.GetImgSlice()
		st["len"] = len(after)
		set, clr := arr{}, arr{}
		for i := 0; i < len(before) && i < len(after); i++ {
			d := before[i] ^ after[i]
			for k := 0; k < 8 && d != 0; k++ {
				if d&(0x80>>k) != 0 {
					q := (i/wib)*stride + (i%wib)*8 + k
					if after[i]&(0x80>>k) != 0 {
						set = append(set, q)
					} else {
						clr = append(clr, q)
					}
				}
			}
		}
		st["set"], st["clr"] = set, clr
		steps = append(steps, st)
	}
	if steps == nil {
		steps = arr{}
	}
	c["steps"] = steps
	if p != "" {
		c["kind"], c["panic"] = "panic", p
	}
	return c
}

// a coordinate in a window well beyond 0..n
func (g gen) coord(n int) int {
	switch g.Intn(20) {
	case 0:
		return pick(g, 1<<40, -(1 << 40), math.MaxInt32, math.MinInt32, 1<<61, -(1 << 61), -(1 << 60), -(1 << 62), 1<<62, -(1<<61)-8, -(1<<60)-1)
	case 1:
		return pick(g, -8, -16, -7, -9, -1, -24, -64, 64, 127, 128, 255, 256, -128)
	case 2, 3, 4:
		return g.Intn(3*n+40) - n - 20
	case 5, 6, 7, 8, 9:
		return g.Intn(n+10) - 5
	}
	return g.Intn(n + 1)
}
func (g gen) extent(n int) int {
	switch g.Intn(12) {
	case 3:
		return n + g.Intn(20)
	case 0:
		return pick(g, 0, -1, -5, -(1 << 40))
	case 1:
		return g.Intn(3*n + 30)
	case 2:
		return 1000 + g.Intn(1000)
	}
	return g.Intn(n + 4)
}

func (g gen) drawOp(w, h int) drawOp {
	x, y := g.coord(w), g.coord(h)
	o := drawOp{color: g.pct(50), bg: g.pct(50), f1: g.pct(50), f2: g.pct(50)}
	rad := func() int {
		return pick(g, 0, 1, 2, 3, 4, 5, g.Intn(12), g.Intn(40), -1, -4, 100)
	}
	switch g.Intn(20) {
	case 0, 1:
		o.op, o.a = "pixel", []int{x, y}
		if g.pct(8) {
			o.a[g.Intn(2)] = pick(g, math.MaxInt64, math.MinInt64, math.MaxInt64-3, math.MinInt64+3)
		}
	case 2:
		o.op, o.a = "hline", []int{x, y, g.extent(w)}
	case 3:
		o.op, o.a = "vline", []int{x, y, g.extent(h)}
	case 4, 5:
		o.op, o.a = "fillrect", []int{x, y, g.extent(w), g.extent(h)}
	case 6, 7:
		o.op, o.a = "roundrect", []int{x, y, g.extent(w), g.extent(h), rad()}
	case 8, 9:
		o.op, o.a = "fillroundrect", []int{x, y, g.extent(w), g.extent(h), rad()}
	case 10:
		o.op, o.a = "circle", []int{x, y, rad(), g.Intn(16)}
	case 11:
		o.op, o.a = "fillcircle", []int{x, y, rad(), g.Intn(4), pick(g, 0, 1, -1, -5, g.Intn(20))}
	case 12, 13:
		bw, bh := g.extent(w), g.extent(h)
		n := 0
		if bw > 0 && bh > 0 {
			n = (bw + 7) / 8 * bh
		}
		if n > 2000 {
			n = 2000
		}
		o.op, o.a, o.b = "bitmap", []int{x, y, bw, bh}, g.bytes(pick(g, n, n, n, n/2, n+5, 0))
	case 14, 15:
		o.op, o.a = "char", []int{x, y, pick(g, 32+g.Intn(96), 32+g.Intn(96), g.Intn(256), 'A', 8, 200), pick(g, 1, 1, 2, 3, 4, 7, 0, -1), pick(g, 1, 1, 2, 3, 4, 7, 0, -1)}
	default:
		o.op, o.a, o.b = "text", []int{x, y}, g.text8()
	}
	return o
}

// alignedOp: a shape whose ends on the canvas lie at or near an edge of the canvas, of the bounding box or of a byte, or far beyond,
// wherever the bounding box begins
func (g gen) alignedOp(w, h int, bb []int) drawOp {
	o := drawOp{color: g.pct(60), bg: g.pct(50), f1: g.pct(50), f2: g.pct(50)}
	span := func(n, b, bn int) (int, int) { // start relative to the box, length
		e := func() int {
			p := pick(g, 0, n, b, b+bn, n/8*8, 8*g.Intn(n/8+1), g.Intn(n+1), -n, 2*n)
			if p > 100000 || p < -100000 {
				p = n
			}
			return p + pick(g, 0, 0, 0, -1, 1, 2, -2, -7, -8, 8, -64, 64, -200, 200, g.Intn(9)-4)
		}
		s, t := e(), e()
		if t < s && g.pct(95) {
			s, t = t, s
		}
		return s - b, t - s
	}
	x, cw := span(w, bb[0], bb[2])
	y, ch := span(h, bb[1], bb[3])
	switch g.Intn(8) {
	case 0:
		o.op, o.a = "hline", []int{x, y, cw}
	case 1:
		o.op, o.a = "vline", []int{x, y, ch}
	case 2, 3, 4:
		o.op, o.a = "fillrect", []int{x, y, cw, ch}
	case 5:
		o.op, o.a = pick(g, "roundrect", "fillroundrect"), []int{x, y, cw, ch, g.Intn(6)}
	case 6:
		n := 0
		if cw > 0 && ch > 0 {
			n = min((cw+7)/8*ch, 2000)
		}
		o.op, o.a, o.b = "bitmap", []int{x, y, cw, ch}, g.bytes(n)
	default:
		o.op, o.a = "pixel", []int{x, y}
	}
	return o
}
func (g gen) text8() []byte {
	n := g.Intn(9)
	if g.pct(10) {
		n = g.Intn(40)
	}
	b := make([]byte, n)
	for k := range b {
		b[k] = byte(pick(g, 32+g.Intn(95), 32+g.Intn(95), 32+g.Intn(95), 32+g.Intn(95), g.Intn(256), 10, 13, 0, 31, 127, 128))
	}
	return b
}
func (g gen) setting(w, h int) drawOp {
	o := drawOp{color: g.pct(50)}
	switch g.Intn(9) {
	case 0, 1, 2, 3:
		o.op = "bbox"
		switch g.Intn(6) {
		case 5: // begins far beyond the canvas
			o.a = []int{-g.Intn(200), -g.Intn(200), w + g.Intn(400) - 20, h + g.Intn(400) - 20}
			o.a[g.Intn(2)] = pick(g, 0, g.Intn(9), -g.Intn(9))
		case 4: // begins beyond the canvas and covers it
			o.a = []int{-g.Intn(14), -g.Intn(10), w + g.Intn(40), h + g.Intn(30)}
		case 0:
			o.a = []int{g.coord(w), g.coord(h), g.extent(w), g.extent(h)}
		case 1:
			o.a = []int{0, 0, w, h}
		case 2:
			o.a = []int{g.Intn(w/4 + 2), g.Intn(h/4 + 2), w/2 + g.Intn(w+3), h/2 + g.Intn(h+3)}
		default:
			o.a = []int{g.Intn(w/2 + 2), g.Intn(h/2 + 2), g.Intn(w + 3), g.Intn(h + 3)}
		}
	case 4:
		o.op = "invert"
	case 5:
		o.op, o.a = "font", []int{g.Intn(4)}
	case 6:
		o.op, o.a = "size", []int{pick(g, 1, 2, 3, 0, -1), pick(g, 1, 2, 3, 0)}
	case 7:
		o.op = "wrap"
	case 8:
		o.op, o.a = "spacing", []int{pick(g, 0, 1, 3, 255)}
	}
	return o
}

// farOps: operations all over a large canvas, each of which changes a few thousand pixels at most
func (g gen) farOps(w, h int) (ops []drawOp) {
	at := func(n int) int { // a place on a side of length n
		return pick(g, n-1, n-1-g.Intn(20), g.Intn(n), g.Intn(n), n/2, n, 0, 250+g.Intn(12), 1020+g.Intn(8), 2044+g.Intn(8), 4090+g.Intn(12), 32760+g.Intn(16), 65530+g.Intn(16))
	}
	bx, by := 0, 0
	long := func(p *int, n int) int { // a length along a side, of a few thousand at most
		if l := n + g.Intn(9); l < 3000 || g.pct(2) {
			return l
		}
		if g.pct(50) {
			*p = max(0, n-1500-g.Intn(1500))
			return n
		}
		return g.Intn(3000)
	}
	for n := 0; n < 25; n++ {
		o := drawOp{color: g.pct(80), bg: g.pct(50), f1: g.pct(20), f2: g.pct(20)}
		x, y := at(w)-bx, at(h)-by
		cw, ch := 1+g.Intn(30), 1+g.Intn(20)
		switch g.Intn(14) {
		case 0:
			bx, by = pick(g, 0, at(w)/2, g.Intn(20)), pick(g, 0, at(h)/2)
			o.op, o.a = "bbox", []int{bx, by, w, h}
		case 1:
			o.op, o.a = "pixel", []int{x, y}
		case 2:
			l := long(&x, w)
			o.op, o.a = "hline", []int{x, y, l}
		case 3:
			l := long(&y, h)
			o.op, o.a = "vline", []int{x, y, l}
		case 4:
			o.op, o.a = "fillrect", []int{x, y, cw, ch}
		case 5:
			l := long(&x, w)
			o.op, o.a = "fillrect", []int{x, y, l, pick(g, 1, 2)}
		case 6:
			l := long(&y, h)
			o.op, o.a = "fillrect", []int{x, y, pick(g, 1, 2), l}
		case 7:
			o.op, o.a = "roundrect", []int{0, 0, w, h, g.Intn(9)}
			if w+h > 8000 {
				o.op, o.a = "fillrect", []int{w - 1 - g.Intn(90), h - 1 - g.Intn(20), w, h}
			}
		case 8:
			o.op, o.a = pick(g, "roundrect", "fillroundrect"), []int{x, y, cw, ch, g.Intn(9)}
		case 9:
			o.op, o.a = "circle", []int{x, y, pick(g, g.Intn(20), g.Intn(20), 300, 1000), g.Intn(16)}
		case 10:
			o.op, o.a = "fillcircle", []int{x, y, g.Intn(20), g.Intn(4), g.Intn(20)}
		case 11:
			o.op, o.a, o.b = "bitmap", []int{x, y, cw, ch}, g.bytes((cw+7)/8*ch)
		case 12: // a bitmap of the size of the canvas
			o.op, o.a, o.b = "bitmap", []int{pick(g, 0, 0, g.Intn(9), -g.Intn(9)), pick(g, 0, 0, g.Intn(9), -g.Intn(9)), w, h}, make([]byte, (w+7)/8*h)
			for n := 0; n < 30; n++ {
				o.b[pick(g, g.Intn(len(o.b)), len(o.b)-1-g.Intn(8))] = byte(1 + g.Intn(255))
			}
			o.f1, o.f2 = false, false
		default:
			o.op, o.a = "char", []int{x, y, 33 + g.Intn(90), pick(g, 1, 1, 2, 5), pick(g, 1, 1, 2, 5)}
		}
		ops = append(ops, o)
	}
	return
}

func canvas() {
	g := gen{rand.New(rand.NewSource(*seed))}
	type job struct {
		w, h int
		init []byte
		ops  []drawOp
	}
	var jobs []job
	add := func(w, h int, ops []drawOp) {
		n := (w + 7) / 8 * h
		var b []byte
		switch g.Intn(3) {
		case 0:
			b = make([]byte, n)
		case 1:
			b = bytes.Repeat([]byte{0xff}, n)
		default:
			b = g.bytes(n)
		}
		jobs = append(jobs, job{w, h, b, ops})
	}
	box := func(x, y, w, h int) drawOp { return drawOp{op: "bbox", a: []int{x, y, w, h}} }
	// every pixel of a window around small canvases, with and without bounding box and inversion
	for _, d := range [][2]int{{0, 0}, {1, 1}, {3, 2}, {7, 2}, {8, 2}, {9, 3}, {15, 2}, {16, 2}, {17, 2}, {0, 4}, {5, 0}} {
		for _, bb := range [][4]int{{0, 0, d[0], d[1]}, {1, 1, 4, 1}, {-3, -1, 8, 3}, {2, 0, 100, 100}, {9, 1, 4, 4}, {0, 0, 0, 0}, {0, 0, -1, -1}} {
			var ops []drawOp
			ops = append(ops, box(bb[0], bb[1], bb[2], bb[3]), drawOp{op: "invert", color: g.pct(50)})
			for y := -3; y <= d[1]+3; y++ {
				for x := -18; x <= d[0]+18; x++ {
					ops = append(ops, drawOp{op: "pixel", a: []int{x, y}, color: g.pct(50)})
				}
			}
			add(d[0], d[1], ops)
		}
	}
	// lines and rectangles: all starts and lengths around a small canvas
	for _, d := range [][2]int{{5, 3}, {9, 2}, {8, 3}} {
		for x := -4; x <= d[0]+2; x++ {
			for y := -2; y <= d[1]+1; y++ {
				var ops []drawOp
				if g.pct(50) {
					ops = append(ops, box(g.Intn(5)-2, g.Intn(3)-1, g.Intn(9), g.Intn(4)))
				}
				if g.pct(30) {
					ops = append(ops, box(-g.Intn(5), -g.Intn(4), d[0]+g.Intn(12), d[1]+g.Intn(9)))
				}
				for n := -1; n <= 8; n++ {
					if n == 8 {
						n = 9 + g.Intn(9)
					}
					ops = append(ops, drawOp{op: "hline", a: []int{x, y, n}, color: n%2 == 0}, drawOp{op: "vline", a: []int{x, y, n}, color: n%2 == 1}, drawOp{op: "fillrect", a: []int{x, y, n, g.Intn(5) - 1}, color: g.pct(50)})
				}
				add(d[0], d[1], ops)
			}
		}
	}
	// round shapes of all small sizes and radii
	for w := 0; w <= 12; w++ {
		for h := 0; h <= 12; h++ {
			var ops []drawOp
			for r := -1; r <= 7; r++ {
				ops = append(ops, drawOp{op: "fillrect", a: []int{0, 0, 20, 16}, color: false}, drawOp{op: "roundrect", a: []int{3, 2, w, h, r}, color: true},
					drawOp{op: "fillrect", a: []int{0, 0, 20, 16}, color: false}, drawOp{op: "fillroundrect", a: []int{3, 2, w, h, r}, color: true})
			}
			add(20, 16, ops)
		}
	}
	for k := 0; k < scale(6000, 60000); k++ {
		w, h := 1+g.Intn(40), 1+g.Intn(24)
		if g.pct(15) {
			w, h = g.Intn(65), g.Intn(65)
		}
		if g.pct(5) {
			w, h = pick(g, 0, 1, 64, 63), pick(g, 0, 1, 64, 2)
		}
		if g.pct(2) {
			w, h = pick(g, 112, 128, 256, 320, 1000, 3), pick(g, 1, 2, 7, 33, 300)
			if w*h > 10000 {
				h = 5
			}
		}
		var ops []drawOp
		bb := []int{0, 0, w, h}
		for n := 2 + g.Intn(9); n > 0; n-- {
			switch {
			case g.pct(22):
				ops = append(ops, g.setting(w, h))
				if o := ops[len(ops)-1]; o.op == "bbox" {
					bb = o.a
				}
			case g.pct(30):
				ops = append(ops, g.alignedOp(w, h, bb))
			default:
				ops = append(ops, g.drawOp(w, h))
			}
		}
		add(w, h, ops)
	}
	// large canvases, hardly anything on them
	for _, d := range [][2]int{{1024, 520}, {1030, 511}, {2100, 40}, {4200, 17}, {40000, 2}, {70000, 3}, {130001, 1}, {16, 4200}, {9, 16000}} {
		w, h := d[0], d[1]
		for k := 0; k < scale(5, 40); k++ {
			b := make([]byte, (w+7)/8*h)
			for n := 0; n < 40; n++ {
				b[g.Intn(len(b))] = byte(g.Intn(256))
			}
			jobs = append(jobs, job{w, h, b, g.farOps(w, h)})
		}
	}
	cases := make(arr, len(jobs))
	parallel(len(jobs), func(k int) { j := jobs[k]; cases[k] = canvasCase(j.w, j.h, j.init, 0, j.ops) })
	saveCases(out("draws.json"), cases)
}

// ---- pixel formats ----
func rowsOf(b []byte, w, h int) arr {
	wib := (w + 7) / 8
	r := arr{}
	for y := 0; y < h; y++ {
		row := arr{}
		for x := 0; x < w; x++ {
			v := 0
			if i := y*wib + x/8; i < len(b) && b[i]&(0x80>>(x%8)) != 0 {
				v = 1
			}
			row = append(row, v)
		}
		r = append(r, row)
	}
	return r
}

type anyImage interface {
	At(x, y int) color.Color
}

func pixRows(m anyImage, w, h int) arr {
	r := arr{}
	for y := 0; y < h; y++ {
		row := arr{}
		for x := 0; x < w; x++ {
			R, G, B, A := m.At(x, y).RGBA()
			v := int(R>>8)<<16 | int(G>>8)<<8 | int(B>>8)
			if A != 0xffff { // not opaque
				v = -1 - v
			}
			row = append(row, v)
		}
		r = append(r, row)
	}
	return r
}

// exportCase: m and b are the image objects used, which may have been used before; how tells how the picture gets onto m
func exportCase(m, b *monogfx.MonoImg, how, w, h int, data []byte, pix, bck int, six bool) any {
	c := obj{"kind": "export", "w": w, "h": h, "bits": rowsOf(data, w, h), "six": six, "pix": pix, "bck": bck}
	p := guard(fmt.Sprintf("export %dx%d %x (%d)", w, h, data, how), func() {
		lit := func(x, y int) bool { return data[y*((w+7)/8)+x/8]&(0x80>>(x%8)) != 0 }
		switch how {
		case 1, 2: // drawn on a new image, drawn over the one that is there
			if how == 1 || m.Width != w || m.Height != h {
				m.NewImage(w, h)
			}
			m.SetBoundingBox(0, 0, w, h)
			m.InvertPixels(false)
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					m.DrawPixel(x, y, lit(x, y))
				}
			}
		case 3: // from an image
			im := image.NewRGBA(image.Rect(0, 0, w, h))
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					if im.Set(x, y, color.White); lit(x, y) {
						im.Set(x, y, color.Black)
					}
				}
			}
			m.CreateFromImage(im)
		default:
			if how == 0 {
				m.NewImage(w, h)
			}
			if err := m.CreateFromBytes(w, h, append([]byte{}, data...)); err != nil {
				panic(err)
			}
		}
		if six {
			m.SetOLEDPixelColor(pix)
			m.SetOLEDBckgColor(bck)
		} else {
			m.OLEDPixelColor, m.OLEDBckgColor = uint16(pix), uint16(bck)
		}
		c["pix16"], c["bck16"] = int(m.OLEDPixelColor), int(m.OLEDBckgColor)
		c["rgb"] = m.GetImgSliceRGB()
		c["gray"] = m.GetImgSliceGray()
		if w%2 != 0 {
			c["gray"] = []byte{}
		}
		for _, inv := range []bool{false, true} {
			im := m.ConvertToImage(inv)
			n := "plain"
			if inv {
				n = "inverted"
			}
			b.CreateFromImage(im)
			c[n] = obj{"w": im.Bounds().Dx(), "h": im.Bounds().Dy(), "pix": pixRows(im, w, h), "backW": b.Width, "backH": b.Height, "back": rowsOf(b.GetImgSlice(), w, h)}
			scribbleImage(im)
		}
	})
	if p != "" {
		c["kind"], c["panic"] = "panic", p
	}
	return c
}

// scribbleImage: the caller of a conversion draws on the image it got
func scribbleImage(im image.Image) {
	if d, ok := im.(draw.Image); ok {
		r := im.Bounds()
		for y := r.Min.Y; y < r.Max.Y; y++ {
			for x := r.Min.X; x < r.Max.X; x++ {
				d.Set(x, y, color.RGBA{200, 100, uint8(50 + x), 255})
			}
		}
	}
}

func gfxStateCase(t int32, w, h int, data []byte, targets [][2]int) any {
	c := obj{"kind": "gfx", "type": int(t), "w": w, "h": h, "data": data}
	if data == nil {
		c["data"] = []byte{}
	}
	p := guard(fmt.Sprintf("image type %d %dx%d, %d bytes, onto %v", t, w, h, len(data), targets), func() {
		st := &rwp.HWCState{HWCGfx: &rwp.HWCGfx{ImageType: rwp.HWCGfx_ImageTypeE(t), W: uint32(w), H: uint32(h), ImageData: append([]byte{}, data...)}}
		imgs := arr{}
		var objs []protoreflect.Message
		defer release(&objs)
		st = refill(st.ProtoReflect(), &objs).Interface().(*rwp.HWCState)
		b, err := helpers.ConvertGfxStateToPngBytes(st)
		if err == nil && w > 0 && h > 0 {
			im, err := png.Decode(bytes.NewReader(b))
			if err != nil {
				imgs = append(imgs, obj{"by": "png", "w": -1, "h": -1, "pix": arr{}, "tw": w, "th": h, "why": err.Error()})
			} else {
				imgs = append(imgs, obj{"by": "png", "w": im.Bounds().Dx(), "h": im.Bounds().Dy(), "pix": pixRows(im, w, h), "tw": w, "th": h})
			}
			for k := range b {
				b[k] ^= 0x5a
			}
		} else if w > 0 && h > 0 {
			imgs = append(imgs, obj{"by": "png", "w": -1, "h": -1, "pix": arr{}, "tw": w, "th": h, "why": fmt.Sprint(err)})
		}
		switch t {
		case 1:
			im := helpers.CreateImgObjectFromRGBBytes(w, h, append([]byte{}, data...))
			imgs = append(imgs, obj{"by": "rgb", "w": im.Bounds().Dx(), "h": im.Bounds().Dy(), "pix": pixRows(im, w, h), "tw": w, "th": h})
			scribbleImage(im)
		case 2:
			im := helpers.CreateImgObjectFromGrayBytes(w, h, append([]byte{}, data...))
			imgs = append(imgs, obj{"by": "gray", "w": im.Bounds().Dx(), "h": im.Bounds().Dy(), "pix": pixRows(im, w, h), "tw": w, "th": h})
			scribbleImage(im)
		}
		for _, d := range targets {
			im := helpers.RwpImgToImage(st.HWCGfx, d[0], d[1])
			imgs = append(imgs, obj{"by": "direct", "w": im.Bounds().Dx(), "h": im.Bounds().Dy(), "pix": pixRows(im, d[0], d[1]), "tw": d[0], "th": d[1]})
			scribbleImage(im)
		}
		c["imgs"] = imgs
	})
	if p != "" {
		c["kind"], c["panic"] = "panic", p
	}
	return c
}

func pixfmt() {
	g := gen{rand.New(rand.NewSource(*seed))}
	var jobs []func() any
	chains := make([]arr, scale(400, 6000))
	exp := func(w, h int, data []byte, pix, bck int, six bool) {
		jobs = append(jobs, func() any { return exportCase(&monogfx.MonoImg{}, &monogfx.MonoImg{}, 0, w, h, data, pix, bck, six) })
	}
	// one image object in several roles one after the other
	chain := func(k int) {
		g := gen{rand.New(rand.NewSource(*seed*1000003 + int64(k)))}
		m, b := &monogfx.MonoImg{}, &monogfx.MonoImg{}
		w, h := g.Intn(34), g.Intn(10)
		data := g.bytes((w + 7) / 8 * h)
		pix, bck, six := 0xffff, 0, false
		var r arr
		for n := 0; n < 4; n++ {
			how := g.Intn(5)
			if n == 0 || g.pct(60) { // another picture
				if g.pct(50) {
					w, h = g.Intn(34), g.Intn(10)
				}
				data = g.bytes((w + 7) / 8 * h)
				if g.pct(20) {
					data = bytes.Repeat([]byte{byte(pick(g, 0, 0xff))}, len(data))
				}
			} else {
				how = 2
			}
			switch g.Intn(4) { // other colours, one of them, none
			case 0:
				pix = g.Intn(65536)
			case 1:
				bck = g.Intn(65536)
			case 2:
				pix, bck, six = g.Intn(65536), g.Intn(65536), g.pct(50)
			}
			if six {
				pix, bck = pix%64, bck%64
			}
			if r = append(r, exportCase(m, b, how, w, h, data, pix, bck, six)); r[n].(obj)["kind"] == "panic" {
				break
			}
		}
		chains[k] = r
	}
	size := func(w, h int) int { return (w + 7) / 8 * h }
	for p := 0; p < 64; p++ {
		exp(4, 2, []byte{0xa0, 0x50}, p, g.Intn(64), true)
		exp(4, 2, []byte{0xa0, 0x50}, g.Intn(64), p, true)
		exp(2, 1, []byte{0x40 | byte(g.Intn(64))}, p|g.Intn(4)<<6, p, true)
	}
	for w := 0; w <= 20; w++ { // all small sizes, some patterns
		for h := 0; h <= 5; h++ {
			for k := 0; k < 2; k++ {
				exp(w, h, g.bytes(size(w, h)), g.Intn(65536), g.Intn(65536), false)
			}
		}
	}
	for b := 0; b < 256; b++ { // all patterns of a byte
		exp(8, 1, []byte{byte(b)}, 0xffff, 0, false)
		exp(5, 1, []byte{byte(b)}, 0xffff, 0, false)
	}
	for k := 0; k < scale(800, 10000); k++ {
		w, h := g.Intn(34), g.Intn(10)
		if g.pct(5) {
			w, h = pick(g, 64, 112, 128, 63, 256), pick(g, 1, 8, 32, 20)
		}
		exp(w, h, g.bytes(size(w, h)+pick(g, 0, 0, 0, 1, 9)), g.Intn(65536), g.Intn(65536), false)
	}
	need := func(t int32, w, h int) int {
		switch t {
		case 0:
			return size(w, h)
		case 1:
			return w * h * 2
		}
		return (w*h + 1) / 2
	}
	for t := int32(0); t < 3; t++ {
		for w := 0; w <= 9; w++ {
			for h := 0; h <= 4; h++ {
				n := need(t, w, h)
				lens := map[int]bool{0: true, 1: true, n - 1: true, n: true, n + 1: true, n + 7: true, n / 2: true, n/2 + 1: true}
				for l := 0; l <= n+8; l++ {
					if !lens[l] && !*thorough {
						continue
					}
					d := g.bytes(l)
					jobs = append(jobs, func() any {
						return gfxStateCase(t, w, h, d, [][2]int{{w, h}, {w + 3, h + 2}, {w / 2, h / 2}})
					})
				}
			}
		}
		for k := 0; k < scale(250, 3000); k++ {
			w, h := 1+g.Intn(24), 1+g.Intn(12)
			if g.pct(8) {
				w, h = pick(g, 64, 112, 256, 300, 48), pick(g, 8, 24, 32, 16)
			}
			n := need(t, w, h)
			d := g.bytes(pick(g, n, n, n, g.Intn(n+1), n+g.Intn(20), n-1))
			tg := [][2]int{{w, h}, {g.Intn(2 * w), g.Intn(2 * h)}, {0, 0}, {w + g.Intn(5), g.Intn(h + 1)}}
			jobs = append(jobs, func() any { return gfxStateCase(t, w, h, d, tg) })
		}
	}
	// more pixels than sixteen bits count
	for k, d := range [][2]int{{320, 240}, {70000, 1}, {1, 70000}, {3, 22000}, {1026, 512}} {
		w, h := d[0], d[1]
		if k == 4 && !*thorough { // more bytes of a mono image than that
			w, h = 2050, 256
		}
		for t := int32(0); t < 3; t++ {
			if k < 4 || t == 0 {
				d := g.bytes(need(t, w, h))
				jobs = append(jobs, func() any { return gfxStateCase(t, w, h, d, [][2]int{{w + 2, h + 2}}) })
			}
		}
		if k == 0 || k == 4 || *thorough {
			exp(w, h, g.bytes(size(w, h)), g.Intn(65536), g.Intn(65536), false)
		}
	}
	for v := 0; v < 65536; v += scale(16*17, 1) { // all values of a pixel
		n := scale(16, 1)
		var d []byte
		for i := 0; i < n; i++ {
			x := (v + i*17) % 65536
			d = append(d, byte(x>>8), byte(x))
		}
		jobs = append(jobs, func() any { return gfxStateCase(1, n, 1, d, [][2]int{{n, 1}}) })
	}
	for v := 0; v < 256; v += 8 {
		var d []byte
		for i := 0; i < 8; i++ {
			d = append(d, byte(v+i))
		}
		jobs = append(jobs, func() any { return gfxStateCase(2, 16, 1, d, [][2]int{{16, 1}, {17, 3}}) })
		jobs = append(jobs, func() any { return gfxStateCase(0, 8, 8, d, [][2]int{{8, 8}, {3, 3}}) })
		jobs = append(jobs, func() any { return gfxStateCase(0, 7, 8, d, [][2]int{{7, 8}, {10, 13}}) })
	}
	cases := make(arr, len(jobs))
	parallel(len(jobs), func(k int) { cases[k] = jobs[k]() })
	parallel(len(chains), chain)
	for _, c := range chains {
		cases = append(cases, c...)
	}
	saveCases(out("pixels.json"), cases)
}

// ---- text metrics ----
type textRun struct {
	cx, cy, h, v int
	before       []drawOp // what the image object was used for before
}

// history: settings, measurements and renderings on the same image object
func (g gen) history(s string) (r []drawOp) {
	for n := g.Intn(7); n > 0; n-- {
		switch g.Intn(8) {
		case 0, 1:
			r = append(r, drawOp{op: "font", a: []int{g.Intn(4)}, color: g.pct(50)})
		case 2:
			r = append(r, drawOp{op: "spacing", a: []int{g.Intn(5)}})
		case 3:
			r = append(r, drawOp{op: "size", a: []int{1 + g.Intn(4), 1 + g.Intn(4)}})
		case 4, 5:
			r = append(r, drawOp{op: "text", a: []int{g.Intn(20), g.Intn(20)}, b: []byte(pick(g, s, "Ax", "mi")), color: g.pct(50)})
		default:
			r = append(r, drawOp{op: "measure", b: []byte(pick(g, s, s, s+"W", "iii"))})
		}
	}
	return
}

func metricsCase(font int, prop bool, spacing int, s string, runs []textRun) any {
	c := obj{"kind": "text", "font": font, "prop": prop, "spacing": spacing, "text": s, "bytes": []byte(s), "lf": strings.Count(s, "\n")}
	rs := arr{}
	p := guard(fmt.Sprintf("text %q font %d %v spacing %d %v", s, font, prop, spacing, runs), func() {
		for _, r := range runs {
			m := monogfx.MonoImg{}
			n := len(s) + 1
			m.NewImage(max(r.cx, 0)+n*(8+spacing)*r.h+40, max(r.cy, 0)+(strings.Count(s, "\n")+1)*8*r.v+20)
			for _, o := range r.before {
				o.run(&m)
			}
			m.SetFont(font, prop)
			m.SetCharSpacingCompensation(byte(spacing))
			m.SetTextSize(r.h, r.v)
			m.SetTextWrap(false)
			m.SetTextColor(true)
			m.SetCursor(r.cx, r.cy)
			w, lh := m.StrWidth(s), int(m.LineHeight())
			clear(m.GetImgSlice())
			m.RenderText(s)
			ink := arr{}
			wib := (m.Width + 7) / 8
			for i, b := range m.GetImgSlice() {
				for k := 0; k < 8; k++ {
					if b&(0x80>>k) != 0 {
						ink = append(ink, i/wib*(stride*4)+i%wib*8+k)
					}
				}
			}
			rs = append(rs, obj{"cx": r.cx, "cy": r.cy, "h": r.h, "v": r.v, "width": w, "lh": lh, "ink": ink})
		}
	})
	c["runs"] = rs
	if p != "" {
		c["kind"], c["panic"] = "panic", p
	}
	return c
}

func textmetrics() {
	g := gen{rand.New(rand.NewSource(*seed))}
	var jobs []func() any
	add := func(font int, prop bool, sp int, s string, more int) {
		runs := []textRun{{20, 16, 1, 1, nil}, {g.Intn(50), g.Intn(40), 1, 1, g.history(s)}, {g.Intn(30), g.Intn(30), 2, 2, nil}}
		for k := 0; k < more; k++ {
			runs = append(runs, textRun{g.Intn(40), g.Intn(40), 1 + g.Intn(4), 1 + g.Intn(4), g.history(s)})
		}
		if g.pct(50) { // partly beyond the left and upper edges
			runs = append(runs, textRun{g.Intn(25) - 20, g.Intn(14) - 10, 1 + g.Intn(3), 1 + g.Intn(3), nil})
		}
		if g.pct(3) {
			runs = append(runs, textRun{g.Intn(9), g.Intn(9), 1 + g.Intn(8), 1 + g.Intn(8), g.history(s)})
		}
		jobs = append(jobs, func() any { return metricsCase(font, prop, sp, s, runs) })
	}
	for font := 0; font < 3; font++ {
		for _, prop := range []bool{true, false} {
			for ch := 0; ch < 256; ch++ {
				add(font, prop, ch%4, string(rune(ch)), 1)
				add(font, prop, g.Intn(4), string([]byte{'A', byte(ch), byte(g.Intn(256))}), 1)
				add(font, prop, g.Intn(4), string(rune(ch))+string(rune(32+g.Intn(96))), 1)
			}
			add(font, prop, 0, "", 2)
			add(font, prop, 3, "", 2)
		}
	}
	for k := 0; k < scale(1500, 40000); k++ {
		b := g.text8()
		if len(b) > 7 {
			b = b[:7]
		}
		if g.pct(80) {
			b = bytes.ReplaceAll(b, []byte{10}, []byte{' '})
		}
		add(g.Intn(3), g.pct(60), pick(g, g.Intn(4), g.Intn(4), g.Intn(4), g.Intn(4), g.Intn(4), g.Intn(256)), pick(g, string(b), latin(b)), 2)
	}
	for k := 0; k < scale(12, 400); k++ { // longer ones
		b := make([]byte, 20+g.Intn(40))
		for n := range b {
			b[n] = byte(32 + g.Intn(96))
		}
		add(g.Intn(3), g.pct(60), g.Intn(4), string(b), 0)
	}
	for k := 0; k < scale(32, 200); k++ { // and very long ones, wide ones, many lines
		b := make([]byte, []int{254, 1100, 256, 2100, 300, 257, 520, 400, 255}[k%9])
		for n := range b {
			b[n] = byte(32 + g.Intn(96))
			if k%4 == 3 && g.pct(5) {
				b[n] = '\n'
			}
			if k%4 == 2 && n > 20 { // little to see
				b[n] = byte(pick(g, ' ', '.', ' ', ' '))
			}
		}
		b[len(b)-1] = 'M'
		runs := []textRun{{20, 16, 1, 1, nil}}
		switch k % 4 {
		case 0, 3:
			runs = append(runs, textRun{g.Intn(50), g.Intn(40), pick(g, 1, 2), pick(g, 1, 2), g.history("Long")})
		case 1:
			runs = append(runs, textRun{g.Intn(3) - 1, g.Intn(3), 6 + 40000/6/len(b), 1, nil})
		case 2:
			runs = append(runs, textRun{g.Intn(50), g.Intn(40), 8 + 70000/6/len(b), 1, nil})
		}
		font, prop, sp := g.Intn(3), g.pct(50), g.Intn(4)
		jobs = append(jobs, func() any { return metricsCase(font, prop, sp, string(b), runs) })
	}
	cases := make(arr, len(jobs))
	parallel(len(jobs), func(k int) { cases[k] = jobs[k]() })
	saveCases(out("texts.json"), cases)
}
func latin(b []byte) string {
	var r []rune
	for _, c := range b {
		r = append(r, rune(c))
	}
	return string(r)
}
