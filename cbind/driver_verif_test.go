package main

// Overlaid into rawpanel-lib-c: runs the C entry points on recorded inputs (VERIF_IN) and records the results (VERIF_OUT).

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"testing"
	"unsafe"
)

func cbytes(p unsafe.Pointer, n int) []byte {
	if p == nil {
		return nil
	}
	return append([]byte{}, unsafe.Slice((*byte)(p), n)...)
}
func cstr(p unsafe.Pointer) []byte {
	n := 0
	for *(*byte)(unsafe.Add(p, n)) != 0 {
		n++
	}
	return cbytes(p, n)
}

type result struct {
	Out   []string `json:"out"`
	Panic string   `json:"panic"`
}

func guarded(f func() []string) (r result) {
	defer func() {
		if p := recover(); p != nil {
			r.Panic = fmt.Sprint(p)
		}
	}()
	r.Out = f()
	return
}

func TestVerifDriver(t *testing.T) {
	raw, err := os.ReadFile(os.Getenv("VERIF_IN"))
	if err != nil {
		t.Skip()
	}
	var in struct {
		Wires []string   // outbound messages as wire bytes (hex)
		Lines [][]string // inbound line histories (hex), fed one by one with the state carried through its JSON form
	}
	if err := json.Unmarshal(raw, &in); err != nil {
		t.Fatal(err)
	}
	var out struct {
		Wires []result   `json:"wires"`
		Lines [][]result `json:"lines"`
	}
	for _, w := range in.Wires {
		b, _ := hex.DecodeString(w)
		out.Wires = append(out.Wires, guarded(func() []string {
			return []string{hex.EncodeToString(cstr(unsafe.Pointer(OutboundMessageToRawPanelASCIIstring(b))))}
		}))
	}
	for _, h := range in.Lines {
		var state []byte
		var rs []result
		for _, l := range h {
			lb, _ := hex.DecodeString(l)
			rs = append(rs, guarded(func() []string {
				m, n, s, sn := RawPanelASCIIstringToInboundMessage(string(lb), state)
				state = cbytes(s, sn)
				if m == nil && n == 0 {
					return nil
				}
				if m == nil { // nothing, but of some length: no message
					return []string{"ff"}
				}
				return []string{hex.EncodeToString(cbytes(m, n))}
			}))
		}
		out.Lines = append(out.Lines, rs)
	}
	b, _ := json.Marshal(out)
	if err := os.WriteFile(os.Getenv("VERIF_OUT"), b, 0o644); err != nil {
		t.Fatal(err)
	}
}
