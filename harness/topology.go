package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"sync"

	helpers "github.com/SKAARHOJ/rawpanel-lib"
	topo "github.com/SKAARHOJ/rawpanel-lib/topology"
)

func init() {
	cmds["topo-lookup"] = topoLookup
	cmds["topo-transform"] = topoTransform
}

// ---- how a topology looks in a trace: numbers as decimal spellings, absent things as empty sequences ----

func itoa(n int) string { return strconv.Itoa(n) }

func dispTree(d *topo.TopologyHWcTypeDef_Display) arr {
	if d == nil {
		return arr{}
	}
	return arr{obj{"w": itoa(d.W), "h": itoa(d.H), "subidx": itoa(d.Subidx), "type": d.Type, "shrink": itoa(d.Shrink), "border": itoa(d.Border)}}
}

func subTree(sub []topo.TopologyHWcTypeDefSubEl) arr {
	a := arr{}
	for _, s := range sub {
		a = append(a, obj{"t": s.ObjType, "x": itoa(s.X), "y": itoa(s.Y), "w": itoa(s.W), "h": itoa(s.H), "r": itoa(s.R), "rx": itoa(s.Rx), "ry": itoa(s.Ry),
			"style": s.Style, "idx": s.Idx})
	}
	return a
}

func defTree(d *topo.TopologyHWcTypeDef) obj {
	return obj{"w": itoa(d.W), "h": itoa(d.H), "out": d.Out, "in": d.In, "desc": d.Desc, "ext": d.Ext, "subidx": itoa(d.Subidx),
		"rotate": strconv.FormatFloat(float64(d.Rotate), 'f', -1, 32), "disp": dispTree(d.Disp), "sub": subTree(d.Sub), "render": d.Render}
}

func compTree(c *topo.TopologyHWcomponent) obj {
	over := arr{}
	if c.TypeOverride != nil {
		over = append(over, defTree(c.TypeOverride))
	}
	return obj{"id": strconv.FormatUint(uint64(c.Id), 10), "x": itoa(c.X), "y": itoa(c.Y), "txt": c.Txt, "type": strconv.FormatUint(uint64(c.Type), 10),
		"over": over, "uiparent": strconv.FormatUint(uint64(c.UIparent), 10), "uiyang": strconv.FormatUint(uint64(c.UIyang), 10)}
}

func topoTree(t *topo.Topology) obj {
	hwc, types, keys := arr{}, arr{}, []int{}
	for i := range t.HWc {
		hwc = append(hwc, compTree(&t.HWc[i]))
	}
	for k := range t.TypeIndex {
		keys = append(keys, int(k))
	}
	sort.Ints(keys)
	for _, k := range keys {
		d := t.TypeIndex[uint32(k)]
		types = append(types, obj{"id": itoa(k), "def": defTree(&d)})
	}
	return obj{"title": t.Title, "hwc": hwc, "types": types}
}

// ---- generated topologies ----

var topoIns = []string{"", "b", "b4", "b2h", "b2v", "pb", "p", "gpi", "av", "ah", "ar", "a", "iv", "ih", "ir", "i", "rg", "rb", "mono",
	"b,x", "pb,av", "p,b", "av,b", "iv,gpi,b", "gpi,b", ",b", "x,b", "B", " b", "bb", "b4,", "ah,ah"}
var topoOuts = []string{"", "rgb", "rg", "mono", "rgb,x", "gray"}
var topoExts = []string{"", "pos", "steps", "steps,pos", "pos,steps", "xsteps", "position"}
var topoRenders = []string{"", "txt", "hwcid", "txt,hwcid", "invtxt", "txt,invtxt", "hwcid,x", "txt90", "xtxt"}
var topoTexts = []string{"", "F1", "Up|Down", "One|", "|Two", "|", "A|B|C", "T & <B>", "Cut \"1\"", "été|ñ", "a'b", "two  spaces", "]]>", "&amp;|<!--"}

type topoGen struct {
	*rand.Rand
	neg bool // sizes may also be negative in base definitions
}

func (g topoGen) sub() topo.TopologyHWcTypeDefSubEl {
	s := topo.TopologyHWcTypeDefSubEl{ObjType: []string{"r", "c", "d", "", "x"}[g.Intn(5)], X: g.Intn(400) - 200, Y: g.Intn(400) - 200}
	if g.Intn(2) == 0 {
		s.W, s.H = g.Intn(200), g.Intn(200)
	}
	if g.Intn(2) == 0 {
		s.R = g.Intn(60)
	}
	if g.Intn(3) == 0 {
		s.Rx, s.Ry = g.Intn(10), g.Intn(10)
	}
	if g.Intn(3) == 0 {
		s.Style = []string{"fill:rgb(10,20,30)", "stroke:\"x\"", "a<b&c"}[g.Intn(3)]
	}
	if g.Intn(2) == 0 {
		s.Idx = g.Intn(40) - 10
	}
	return s
}

func (g topoGen) subs(n int) []topo.TopologyHWcTypeDefSubEl {
	a := []topo.TopologyHWcTypeDefSubEl{}
	for i := 0; i < n; i++ {
		a = append(a, g.sub())
	}
	return a
}

func (g topoGen) disp() *topo.TopologyHWcTypeDef_Display {
	d := &topo.TopologyHWcTypeDef_Display{}
	if g.Intn(8) > 0 {
		d.W, d.H = g.Intn(300), g.Intn(200)
	}
	d.Subidx = g.Intn(4) - 1
	d.Type = []string{"", "gray", "color", "text"}[g.Intn(4)]
	if g.Intn(2) == 0 {
		d.Shrink, d.Border = g.Intn(4), g.Intn(4)
	}
	return d
}

var topoRotates = []float32{0, 90, 45, -30, 0.5, 359.999, 1e-3, 720, 180, 33.333}

const allAttrs = 1<<11 - 1

// def gives a definition with the attributes of the mask set to a non-empty value
func (g topoGen) def(mask int) topo.TopologyHWcTypeDef {
	d := topo.TopologyHWcTypeDef{}
	has := func(b int) bool { return mask&(1<<b) != 0 }
	nz := func(l []string) string { return l[1+g.Intn(len(l)-1)] }
	if has(0) {
		d.W = 1 + g.Intn(500)
	}
	if has(1) {
		d.H = 1 + g.Intn(500)
	}
	if has(2) {
		d.Out = nz(topoOuts)
	}
	if has(3) {
		d.In = nz(topoIns)
	}
	if has(4) {
		d.Desc = fmt.Sprintf("desc %d", g.Intn(1e6))
	}
	if has(5) {
		d.Ext = nz(topoExts)
	}
	if has(6) {
		d.Subidx = 1 + g.Intn(5)
	} else if g.neg && g.Intn(4) == 0 {
		d.Subidx = -1
	}
	if has(7) {
		d.Rotate = topoRotates[1+g.Intn(len(topoRotates)-1)]
	}
	if has(8) {
		d.Disp = g.disp()
	}
	if has(9) {
		d.Sub = g.subs(1 + g.Intn(4))
	}
	if has(10) {
		d.Render = nz(topoRenders)
	}
	return d
}

// txt gives a label: usually one of the list, else put together from pieces that mean something in XML, JSON, URLs or Go
func (g topoGen) txt() string {
	if g.Intn(3) > 0 {
		return topoTexts[g.Intn(len(topoTexts))]
	}
	s := ""
	for n := 1 + g.Intn(5); n > 0; n-- {
		s += topoPieces[g.Intn(len(topoPieces))]
	}
	if g.Intn(3) == 0 {
		s += "|" + topoPieces[g.Intn(len(topoPieces))]
	}
	return s
}

var topoPieces = []string{"a", "B", "7", " ", ".", "-", "&", "<", ">", "\"", "'", "&lt;", "&gt;", "&amp;", "&quot;", "&apos;", "&#65;", "&#x41;", "&nbsp;", "<b>", "</b>", "<br/>", "</text>", "<!--", "-->", "<![CDATA[", "]]>",
	"%d", "%s", "%20", "$1", "\\n", "\\", "\\u003c", "\u2028", "/", ";", "#", "=", "{", "}", "[", ",", ":", "\u00e9", "\u4e2d", "\U0001F600", "e\u0301", "\u00a0x", "\ufeffx", "HWc1", "null", "0", "+", "_", "^", "~", "`"}

type topoOpts struct {
	comps, types int
	dup          bool // duplicate ids
	missing      bool // types that are not indexed
	sections     int  // percentage of section markers
	zero         bool // disabled components
	key0         bool // a type with number 0
}

func (g topoGen) topology(o topoOpts) *topo.Topology {
	t := &topo.Topology{TypeIndex: map[uint32]topo.TopologyHWcTypeDef{}}
	if g.Intn(3) == 0 {
		t.Title = "Title " + g.txt()
	}
	keys := []uint32{}
	for len(keys) < o.types {
		k := uint32(1 + g.Intn(o.types*2+3))
		switch g.Intn(8) {
		case 0:
			k = 1 + g.Uint32()%1000000
		case 1:
			k = 250
		case 2:
			if g.Intn(4) == 0 {
				k = 1<<32 - 1 - uint32(g.Intn(3))
			}
		}
		if o.key0 && len(keys) == 0 {
			k = 0
		}
		if _, ok := t.TypeIndex[k]; ok {
			continue
		}
		gg := g
		gg.neg = true
		t.TypeIndex[k] = gg.def(g.Intn(allAttrs + 1))
		keys = append(keys, k)
	}
	if o.sections > 0 {
		if _, ok := t.TypeIndex[250]; !ok {
			t.TypeIndex[250] = g.def(g.Intn(allAttrs + 1))
		}
	}
	for i := 0; i < o.comps; i++ {
		c := topo.TopologyHWcomponent{Id: uint32(i + 1), X: g.Intn(4000), Y: g.Intn(2000), Txt: g.txt()}
		switch g.Intn(12) {
		case 0:
			c.X, c.Y = -g.Intn(500), -1
		case 1:
			c.Id = 1<<32 - 1 - uint32(i)
		case 2:
			c.Id = uint32(1000 + 3*i)
		}
		if o.dup && g.Intn(3) == 0 {
			c.Id = uint32(1 + g.Intn(o.comps))
		}
		if len(keys) > 0 {
			c.Type = keys[g.Intn(len(keys))]
		}
		if o.zero && g.Intn(6) == 0 || len(keys) == 0 {
			c.Type = 0
		}
		if o.missing && g.Intn(5) == 0 {
			c.Type = 77777 + uint32(g.Intn(3))
		}
		if g.Intn(100) < o.sections {
			c.Type = 250
		}
		switch g.Intn(4) {
		case 0, 1:
			d := g.def(g.Intn(allAttrs + 1))
			c.TypeOverride = &d
		case 2:
			if g.Intn(3) == 0 {
				c.TypeOverride = &topo.TopologyHWcTypeDef{}
			}
		}
		if g.Intn(4) == 0 {
			c.UIparent, c.UIyang = uint32(g.Intn(10)), uint32(g.Intn(10))
		}
		t.HWc = append(t.HWc, c)
	}
	return t
}

// edit changes a topology object that has been in use: other attributes, other overrides, other types, components gone or added
func (g topoGen) edit(t *topo.Topology) {
	keys := []uint32{}
	for k := range t.TypeIndex {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	for _, k := range keys {
		switch g.Intn(6) {
		case 0:
			t.TypeIndex[k] = g.def(g.Intn(allAttrs + 1))
		case 1: // what the definition refers to, in place
			d := t.TypeIndex[k]
			g.editDef(&d)
			t.TypeIndex[k] = d
		}
	}
	for i := range t.HWc {
		c := &t.HWc[i]
		switch g.Intn(8) {
		case 0:
			d := g.def(g.Intn(allAttrs + 1))
			c.TypeOverride = &d
		case 1, 2:
			if c.TypeOverride != nil {
				g.editDef(c.TypeOverride)
			}
		case 3:
			c.TypeOverride = nil
		case 4:
			if len(keys) > 0 {
				c.Type = keys[g.Intn(len(keys))]
			}
		case 5:
			c.X, c.Y, c.Txt = g.Intn(4000), g.Intn(2000), g.txt()
		case 6:
			j := g.Intn(len(t.HWc))
			c.Id, t.HWc[j].Id = t.HWc[j].Id, c.Id
		}
	}
	if n := len(t.HWc); n > 0 {
		switch g.Intn(5) {
		case 0:
			k := g.Intn(n)
			t.HWc = append(t.HWc[:k], t.HWc[k+1:]...)
		case 1:
			t.HWc = append(t.HWc, topo.TopologyHWcomponent{Id: uint32(n + 1), Type: t.HWc[0].Type, X: 9})
		}
	}
}
func (g topoGen) editDef(d *topo.TopologyHWcTypeDef) {
	switch g.Intn(7) {
	case 0:
		d.W, d.H = g.Intn(100), g.Intn(3)
	case 1:
		d.In = topoIns[g.Intn(len(topoIns))]
	case 2:
		d.Out, d.Ext = topoOuts[g.Intn(len(topoOuts))], topoExts[g.Intn(len(topoExts))]
	case 3:
		d.Disp = nil
	case 4:
		if d.Disp != nil {
			d.Disp.W, d.Disp.Type = d.Disp.W+1, ""
		} else {
			d.Disp = g.disp()
		}
	case 5:
		if len(d.Sub) > 0 {
			d.Sub[g.Intn(len(d.Sub))] = g.sub()
		}
	default:
		d.Sub = append(d.Sub, g.sub())
	}
}

// ---- C13 ----

func preds(d *topo.TopologyHWcTypeDef) obj {
	disp := arr{}
	if x := d.DisplayInfo(); x != nil {
		disp = dispTree(x)
	}
	return obj{"button": d.IsButton(), "binary": d.IsBinary(), "pulsed": d.IsPulsed(), "absolute": d.IsAbsolute(), "intensity": d.IsIntensity(),
		"hasDisplay": d.HasDisplay(), "led": d.HasLED(), "steps": d.HasSteps(), "bar": d.LedBarSteps(), "motor": d.IsMotorized(),
		"input": d.GetInputType(), "disp": disp}
}

func u32arr(l []uint32) arr {
	a := arr{}
	for _, v := range l {
		a = append(a, strconv.FormatUint(uint64(v), 10))
	}
	return a
}

// one recorded look-up
func lookup(t *topo.Topology, fn, id string) obj {
	r := obj{"fn": fn, "id": id}
	n, _ := strconv.ParseInt(id, 10, 64)
	p := guard("topology "+fn+" "+id, func() {
		switch fn {
		case "xy":
			x, y := t.GetHWCxy(uint32(n))
			r["res"] = obj{"x": itoa(x), "y": itoa(y)}
		case "text":
			r["res"] = obj{"txt": t.GetHWCtext(uint32(n))}
		case "type":
			d, err := t.GetHWCtype(uint32(n))
			o := obj{"err": err != nil, "def": arr{}, "pred": arr{}}
			if d != nil {
				o["def"], o["pred"] = arr{defTree(d)}, arr{preds(d)}
			}
			r["res"] = o
		case "withDisplay":
			r["res"] = obj{"ids": u32arr(t.GetHWCsWithDisplay())}
		case "hwcs":
			r["res"] = obj{"ids": u32arr(t.GetHWCs())}
		case "def2": // the second resolver, by id
			d := t.GetHWCTypeDefinitionFromHWCid(int(n))
			r["res"] = obj{"def": defTree(d), "pred": preds(d)}
		case "comp":
			c := t.GetHWCDefinitionFromHWCid(int(n))
			r["res"] = obj{"comp": compTree(c)}
		case "defk": // the second resolver, by position
			d := t.GetHWCTypeDefinition(int(n))
			r["res"] = obj{"def": defTree(d), "pred": preds(d)}
		case "over": // the first resolver, by position
			d := t.GetTypeDefWithOverride(&t.HWc[n])
			r["res"] = obj{"def": defTree(&d), "pred": preds(&d)}
		case "verify":
			t.Verify()
			r["res"] = obj{}
		}
	})
	if p != "" {
		return obj{"fn": "panic", "id": id, "of": fn, "what": p}
	}
	return r
}

func lookupPlan(t *topo.Topology) [][2]string {
	plan := [][2]string{{"withDisplay", ""}, {"hwcs", ""}, {"verify", ""}}
	ids := map[string]bool{"0": true, "4294967295": true, "99999": true}
	// of many components only some
	asked := func(k int) bool { return len(t.HWc) < 40 || k < 2 || k > len(t.HWc)-3 || k > 253 && k < 259 || k%97 == 5 }
	for k, c := range t.HWc {
		if !asked(k) {
			continue
		}
		ids[strconv.FormatUint(uint64(c.Id), 10)] = true
	}
	big := map[string]bool{"-1": true, "4294967296": true, "-9223372036854775808": true}
	if len(t.HWc) > 0 {
		big[strconv.FormatInt(int64(t.HWc[0].Id)+1<<32, 10)] = true
		big[strconv.FormatInt(int64(t.HWc[0].Id)-1<<32, 10)] = true
	}
	for id := range ids {
		for _, f := range []string{"xy", "text", "type", "def2", "comp"} {
			plan = append(plan, [2]string{f, id})
		}
	}
	for id := range big {
		plan = append(plan, [2]string{"def2", id}, [2]string{"comp", id})
	}
	for k := -1; k <= len(t.HWc)+1; k++ {
		if !asked(k) {
			continue
		}
		plan = append(plan, [2]string{"defk", itoa(k)})
		if k >= 0 && k < len(t.HWc) {
			plan = append(plan, [2]string{"over", itoa(k)})
		}
	}
	sort.Slice(plan, func(i, j int) bool { return plan[i][0]+"/"+plan[i][1] < plan[j][0]+"/"+plan[j][1] })
	return plan
}

func lookupCase(t *topo.Topology, rng *rand.Rand) any {
	c := obj{"kind": "lookup", "topo": topoTree(t)}
	jsons := map[string]bool{t.ToJSON(): true}
	mu := sync.Mutex{}
	note := func() {
		j := t.ToJSON()
		mu.Lock()
		jsons[j] = true
		mu.Unlock()
	}
	plan := lookupPlan(t)
	res := map[string]bool{}
	looks := arr{}
	add := func(r obj) {
		b := &countWriter{}
		k := b.of(r)
		mu.Lock()
		defer mu.Unlock()
		if !res[k] {
			res[k] = true
			looks = append(looks, r)
		}
	}
	// one at a time, in a random order, then everything concurrently
	for _, k := range rng.Perm(len(plan)) {
		add(lookup(t, plan[k][0], plan[k][1]))
		if rng.Intn(8) == 0 {
			note()
		}
	}
	note()
	var wg sync.WaitGroup
	for w := 0; w < 3; w++ {
		perm := rng.Perm(len(plan))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, k := range perm {
				add(lookup(t, plan[k][0], plan[k][1]))
			}
		}()
	}
	wg.Wait()
	note()
	js := arr{}
	for j := range jsons {
		js = append(js, j)
	}
	c["looks"], c["jsons"], c["after"] = looks, js, topoTree(t)
	return c
}

func topoLookup() {
	rng := rand.New(rand.NewSource(*seed))
	g := topoGen{Rand: rng}
	tops := []*topo.Topology{}
	// every subset of the override attributes over bases with everything, nothing or complementary attributes set
	comps := []topo.TopologyHWcomponent{}
	types := map[uint32]topo.TopologyHWcTypeDef{1: g.def(allAttrs), 2: g.def(0)}
	flush := func() {
		if len(comps) > 0 {
			tops = append(tops, &topo.Topology{HWc: comps, TypeIndex: types})
		}
		comps, types = nil, map[uint32]topo.TopologyHWcTypeDef{1: g.def(allAttrs), 2: g.def(0)}
	}
	for mask := 0; mask <= allAttrs; mask++ {
		for base := 0; base < scale(1, 3); base++ {
			d := g.def(mask)
			id := uint32(len(comps) + 1)
			b := base
			if !*thorough {
				b = (mask + mask/2) % 3
			}
			ty := uint32(b + 1)
			if b == 2 {
				ty = 100 + id
				types[ty] = g.def(allAttrs &^ mask)
			}
			comps = append(comps, topo.TopologyHWcomponent{Id: id, Type: ty, TypeOverride: &d})
			if len(comps) == 8 {
				flush()
			}
		}
	}
	flush()
	// every pair of input kind, and output and extended kinds
	for i, in := range topoIns {
		t := &topo.Topology{TypeIndex: map[uint32]topo.TopologyHWcTypeDef{}}
		for k, ou := range topoOuts {
			id := uint32(k + 1)
			t.TypeIndex[id] = topo.TopologyHWcTypeDef{In: in, Out: ou, Ext: topoExts[(i+k)%len(topoExts)], Sub: g.subs(k)}
			t.HWc = append(t.HWc, topo.TopologyHWcomponent{Id: id, Type: id})
			t.HWc = append(t.HWc, topo.TopologyHWcomponent{Id: 50 + id, Type: id, TypeOverride: &topo.TopologyHWcTypeDef{In: topoIns[g.Intn(len(topoIns))]}})
		}
		tops = append(tops, t)
	}
	tops = append(tops, &topo.Topology{}, &topo.Topology{TypeIndex: types}, &topo.Topology{HWc: []topo.TopologyHWcomponent{{Id: 1, Type: 9}}})
	for k := 0; k < scale(250, 3000); k++ {
		gg := g
		gg.neg = k%3 == 0
		t := gg.topology(topoOpts{comps: g.Intn(9), types: g.Intn(6), dup: k%3 == 1, missing: k%4 == 1, sections: []int{0, 0, 30}[k%3], zero: true, key0: k%5 == 4})
		if k%2 == 1 { // as it arrives from a panel
			p := &topo.Topology{}
			if json.Unmarshal([]byte(t.ToJSON()), p) == nil {
				t = p
			}
		}
		tops = append(tops, t)
	}
	for k := 0; k < scale(5, 30); k++ { // many components
		o := topoOpts{comps: pick(gen{rng}, 257, 300, 520, 1100), types: pick(gen{rng}, 3, 60, 300), dup: k%3 == 1, missing: k%4 == 1, zero: true}
		tops = append(tops, g.topology(o))
	}
	cases := make(arr, len(tops))
	seeds := make([]int64, len(tops))
	for i := range seeds {
		seeds[i] = rng.Int63()
	}
	later := make([]arr, len(tops)) // the same objects after changes
	parallel(len(tops), func(k int) {
		rng := rand.New(rand.NewSource(seeds[k]))
		cases[k] = lookupCase(tops[k], rng)
		for n := 0; k%3 > 0 && n < k%3; n++ {
			topoGen{Rand: rng}.edit(tops[k])
			later[k] = append(later[k], lookupCase(tops[k], rng))
		}
	})
	for _, l := range later {
		cases = append(cases, l...)
	}
	saveCases(out("lookups.json"), cases)
}

// ---- C14 ----

// jsonTree is a JSON document as encoding/json reads it, in the same form as a topology's tree: numbers spelled out
func jsonTree(v any) any {
	switch x := v.(type) {
	case map[string]any:
		o := obj{}
		for k, e := range x {
			o[k] = jsonTree(e)
		}
		return o
	case []any:
		a := arr{}
		for _, e := range x {
			a = append(a, jsonTree(e))
		}
		return a
	case json.Number:
		f, _ := strconv.ParseFloat(x.String(), 64)
		return strconv.FormatFloat(f, 'f', -1, 64)
	case nil:
		return arr{}
	}
	return v
}

func oldTree(t helpers.Topology) obj {
	hwc, types, keys := arr{}, arr{}, []int{}
	for _, c := range t.HWc {
		hwc = append(hwc, obj{"id": strconv.FormatUint(uint64(c.Id), 10), "x": itoa(c.X), "y": itoa(c.Y), "txt": c.Txt, "type": strconv.FormatUint(uint64(c.Type), 10)})
	}
	for k := range t.TypeIndex {
		keys = append(keys, int(k))
	}
	sort.Ints(keys)
	for _, k := range keys {
		d := t.TypeIndex[uint32(k)]
		types = append(types, obj{"id": itoa(k), "def": obj{"w": itoa(d.W), "h": itoa(d.H), "out": d.Out, "in": d.In, "desc": d.Desc, "subidx": itoa(d.Subidx),
			"disp": obj{"w": itoa(d.Disp.W), "h": itoa(d.Disp.H), "subidx": itoa(d.Disp.Subidx)}, "subs": len(d.Sub)}})
	}
	return obj{"hwc": hwc, "types": types}
}

func transformCase(t *topo.Topology, ops []string) any {
	c := obj{"kind": "history", "topo": topoTree(t)}
	steps := arr{}
	p := guard(fmt.Sprintf("topology history %v", ops), func() {
		for _, op := range ops {
			s := obj{"op": op, "jsons": arr{}}
			switch op {
			case "renumber-seq":
				t.RandomizeTypes(true)
			case "renumber-rand":
				t.RandomizeTypes(false)
			case "clean":
				t.CleanSections()
			case "lookups":
				for _, q := range lookupPlan(t) {
					lookup(t, q[0], q[1])
				}
			case "roundtrip":
				j1 := t.ToJSON()
				j1b := t.JSONstring()
				p, p2 := &topo.Topology{}, &topo.Topology{}
				err := json.Unmarshal([]byte(j1), p)
				j2 := p.ToJSON()
				err2 := json.Unmarshal([]byte(j2), p2)
				s["jsons"] = arr{j1, j1b, j2, p2.JSONstring()}
				s["err"] = err != nil || err2 != nil
				s["second"] = topoTree(p2)
				s["old"] = oldTree(helpers.ParseTopology(j1))
				var raw any
				d := json.NewDecoder(&byteReader{[]byte(j1)})
				d.UseNumber()
				d.Decode(&raw)
				s["raw"] = jsonTree(raw)
				t = p
			}
			s["topo"] = topoTree(t)
			steps = append(steps, s)
		}
	})
	if p != "" {
		return obj{"kind": "panic", "what": p, "topo": c["topo"]}
	}
	c["steps"] = steps
	return c
}

// many types at once: what became of them is recorded as a summary, types and components named by their descriptions
func crowdCase(n int, seq bool, rng *rand.Rand) any {
	t := &topo.Topology{TypeIndex: map[uint32]topo.TopologyHWcTypeDef{}}
	for len(t.TypeIndex) < n {
		k := 1 + uint32(rng.Intn(2*n))
		if rng.Intn(3) == 0 {
			k = 1 + rng.Uint32()%2000000
		}
		if _, ok := t.TypeIndex[k]; !ok {
			t.TypeIndex[k] = topo.TopologyHWcTypeDef{Desc: itoa(len(t.TypeIndex))}
		}
	}
	t.HWc = append(t.HWc, topo.TopologyHWcomponent{Id: 1, Type: 0, X: 5})
	for k := range t.TypeIndex {
		t.HWc = append(t.HWc, topo.TopologyHWcomponent{Id: uint32(len(t.HWc) + 1), Type: k})
	}
	t.HWc = append(t.HWc, topo.TopologyHWcomponent{Id: uint32(len(t.HWc) + 1), Type: 0})
	descs := func() (changed func(t *topo.Topology) int) {
		was := make([]string, len(t.HWc))
		for i := range t.HWc {
			was[i] = t.GetTypeDefWithOverride(&t.HWc[i]).Desc
		}
		return func(t *topo.Topology) int {
			k := 0
			for i := range t.HWc {
				if i >= len(was) || t.GetTypeDefWithOverride(&t.HWc[i]).Desc != was[i] {
					k++
				}
			}
			return k
		}
	}()
	m := len(t.HWc)
	p := guard("renumbering many types", func() { t.RandomizeTypes(seq) })
	if p != "" {
		return obj{"kind": "panic", "what": p}
	}
	lo, hi := uint32(1<<32-1), uint32(0)
	for k := range t.TypeIndex {
		lo, hi = min(lo, k), max(hi, k)
	}
	return obj{"kind": "crowd", "seq": seq, "n": n, "types": len(t.TypeIndex), "comps": m, "compsAfter": len(t.HWc), "changed": descs(t),
		"lo": strconv.FormatUint(uint64(lo), 10), "hi": strconv.FormatUint(uint64(hi), 10),
		"disabled": t.HWc[0].Type == 0 && t.HWc[m-1].Type == 0}
}

func topoTransform() {
	rng := rand.New(rand.NewSource(*seed))
	g := topoGen{Rand: rng}
	type job struct {
		t   *topo.Topology
		ops []string
	}
	jobs := []job{}
	all := []string{"renumber-seq", "renumber-rand", "clean", "roundtrip", "lookups"}
	for k := 0; k < scale(700, 6000); k++ {
		gg := g
		gg.neg = k%3 == 0
		t := gg.topology(topoOpts{comps: g.Intn(9), types: g.Intn(9), dup: k%4 == 1, sections: []int{0, 20, 50, 100}[k%4], zero: true})
		ops := []string{all[k%4]}
		for len(ops) < 1+k%5 {
			ops = append(ops, all[g.Intn(len(all))])
		}
		jobs = append(jobs, job{t, ops})
	}
	// every arrangement of markers among up to 7 components
	for n := 0; n <= scale(6, 9); n++ {
		for mask := 0; mask < 1<<n; mask++ {
			t := &topo.Topology{TypeIndex: map[uint32]topo.TopologyHWcTypeDef{1: {W: 5}, 250: {Desc: "section"}, 25: {}, 2500: {H: 1}}}
			for i := 0; i < n; i++ {
				ty := []uint32{1, 25, 2500, 0}[g.Intn(4)]
				if mask&(1<<i) != 0 {
					ty = 250
				}
				t.HWc = append(t.HWc, topo.TopologyHWcomponent{Id: uint32(i + 1), Type: ty, Txt: itoa(i)})
			}
			ops := []string{"clean"}
			if mask%4 == 3 {
				ops = append(ops, "clean", "roundtrip")
			}
			jobs = append(jobs, job{t, ops})
		}
	}
	for k := 0; k < scale(5, 30); k++ { // many components and markers
		o := topoOpts{comps: pick(gen{rng}, 270, 530, 1100), types: pick(gen{rng}, 3, 40, 300), dup: k%3 == 1, sections: []int{0, 50, 95}[k%3], zero: true}
		if k%3 > 0 {
			o.comps = max(o.comps, 530)
		}
		jobs = append(jobs, job{g.topology(o), [][]string{{"clean", "roundtrip"}, {"renumber-seq", "clean"}, {"roundtrip", "clean", "renumber-rand"}}[k%3]})
	}
	// the empty ones
	jobs = append(jobs, job{&topo.Topology{}, all}, job{&topo.Topology{HWc: []topo.TopologyHWcomponent{}, TypeIndex: map[uint32]topo.TopologyHWcTypeDef{}}, all})
	// every attribute of a definition alone, in the index and in an override
	for b := 0; b < 11; b++ {
		for k := 0; k < scale(3, 12); k++ {
			d := g.def(1 << b)
			jobs = append(jobs, job{&topo.Topology{TypeIndex: map[uint32]topo.TopologyHWcTypeDef{7: g.def(1 << b)}, HWc: []topo.TopologyHWcomponent{{Id: 1, Type: 7, TypeOverride: &d}}}, []string{"roundtrip", "renumber-seq", "roundtrip"}})
		}
	}
	// strings of every kind of character
	for _, s := range []string{"<>&", "\u2028\u2029", "\x7f\x00\x01", "\\\"/", "æøå 漢字 😀", "\t\n\r", "\ufffd", "  ", "{}[],:"} {
		d := topo.TopologyHWcTypeDef{Desc: s, In: s, Out: s, Ext: s, Render: s, Disp: &topo.TopologyHWcTypeDef_Display{Type: s}, Sub: []topo.TopologyHWcTypeDefSubEl{{ObjType: s, Style: s}}}
		jobs = append(jobs, job{&topo.Topology{Title: s, TypeIndex: map[uint32]topo.TopologyHWcTypeDef{1: d}, HWc: []topo.TopologyHWcomponent{{Id: 1, Type: 1, Txt: s, TypeOverride: &d}}}, []string{"roundtrip"}})
	}
	cases := make(arr, len(jobs))
	seeds := make([]int64, max(len(jobs), scale(4000, 20000)))
	for i := range seeds {
		seeds[i] = rng.Int63()
	}
	later := make(arr, len(jobs)) // the same objects after changes
	parallel(len(jobs), func(k int) {
		cases[k] = transformCase(jobs[k].t, jobs[k].ops)
		if k < len(jobs)/2 {
			gg := topoGen{Rand: rand.New(rand.NewSource(seeds[k]))}
			gg.edit(jobs[k].t)
			later[k] = transformCase(jobs[k].t, []string{all[gg.Intn(len(all))], all[gg.Intn(len(all))], jobs[k].ops[0]})
		}
	})
	for _, l := range later {
		if l != nil {
			cases = append(cases, l)
		}
	}
	saveCases(out("histories.json"), cases)
	crowd := make(arr, scale(4000, 20000))
	for i := range seeds {
		seeds[i] = rng.Int63()
	}
	parallel(len(crowd), func(k int) {
		n := 1500
		if k%10 == 0 {
			n = 1 + k%37
		}
		crowd[k] = crowdCase(n, k%10 == 5, rand.New(rand.NewSource(seeds[k])))
	})
	for k := 0; k < 2; k++ {
		crowd = append(crowd, crowdCase(scale(66000, 200000), k == 0, rng))
	}
	saveCases(out("crowds.json"), crowd)
}
