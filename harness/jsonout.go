package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"sort"
	"strconv"
)

// obj and arr build the traces handed to TLC. Go strings are byte strings: one JSON character per byte.
type obj map[string]any
type arr []any

func writeJSON(w *bufio.Writer, v any) {
	switch x := v.(type) {
	case obj:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		w.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				w.WriteByte(',')
			}
			writeStr(w, k)
			w.WriteByte(':')
			writeJSON(w, x[k])
		}
		w.WriteByte('}')
	case arr:
		w.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				w.WriteByte(',')
			}
			writeJSON(w, e)
		}
		w.WriteByte(']')
	case []string:
		w.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				w.WriteByte(',')
			}
			writeStr(w, e)
		}
		w.WriteByte(']')
	case []int:
		w.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				w.WriteByte(',')
			}
			w.WriteString(strconv.Itoa(e))
		}
		w.WriteByte(']')
	case []byte:
		w.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				w.WriteByte(',')
			}
			w.WriteString(strconv.Itoa(int(e)))
		}
		w.WriteByte(']')
	case string:
		writeStr(w, x)
	case bool:
		w.WriteString(strconv.FormatBool(x))
	case int:
		if x > 2147483647 || x < -2147483648 {
			panic(fmt.Sprintf("integer out of TLC range: %d", x))
		}
		w.WriteString(strconv.Itoa(x))
	default:
		panic(fmt.Sprintf("writeJSON: %T", v))
	}
}

func writeStr(w *bufio.Writer, s string) {
	w.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			w.WriteByte('\\')
			w.WriteByte(c)
		case c < 0x20 || c >= 0x7f:
			fmt.Fprintf(w, "\\u%04x", c)
		default:
			w.WriteByte(c)
		}
	}
	w.WriteByte('"')
}

// saveCases writes one case per line.
func saveCases(path string, cases arr) {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	w.WriteByte('[')
	for i, c := range cases {
		if i > 0 {
			w.WriteByte(',')
		}
		w.WriteByte('\n')
		writeJSON(w, c)
	}
	w.WriteString("\n]\n")
	if err := w.Flush(); err != nil {
		panic(err)
	}
	if err := f.Close(); err != nil {
		panic(err)
	}
}

func saveJSON(path string, v any) {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	writeJSON(w, v)
	w.WriteByte('\n')
	if err := w.Flush(); err != nil {
		panic(err)
	}
	if err := f.Close(); err != nil {
		panic(err)
	}
}

type countWriter struct{ b []byte }

func (c *countWriter) Write(p []byte) (int, error) { c.b = append(c.b, p...); return len(p), nil }

// of spells a trace value
func (c *countWriter) of(v any) string {
	w := bufio.NewWriter(c)
	writeJSON(w, v)
	w.Flush()
	return string(c.b)
}

type byteReader struct{ b []byte }

func (r *byteReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}
