package main

import (
	"encoding/base64"
	"sort"
	"strconv"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func sortStrings(s []string) { sort.Strings(s) }

// jsonOf gives the JSON spelling (as a tree of already spelled leaves) of a message, without the library's or Go's JSON encoder.
func jsonOf(g gen, m proto.Message) any { return jsonR(g, m.ProtoReflect()) }

func jsonR(g gen, m protoreflect.Message) any {
	o := obj{}
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if !m.Has(fd) {
			continue
		}
		v := m.Get(fd)
		if fd.IsList() {
			a := arr{}
			for i := 0; i < v.List().Len(); i++ {
				a = append(a, jsonLeaf(g, fd, v.List().Get(i)))
			}
			o[string(fd.Name())] = a
		} else {
			o[string(fd.Name())] = jsonLeaf(g, fd, v)
		}
	}
	return o
}
func jsonLeaf(g gen, fd protoreflect.FieldDescriptor, v protoreflect.Value) any {
	switch fd.Kind() {
	case protoreflect.MessageKind:
		return jsonR(g, v.Message())
	case protoreflect.BoolKind:
		return v.Bool()
	case protoreflect.EnumKind:
		return strconv.FormatInt(int64(v.Enum()), 10)
	case protoreflect.StringKind:
		return jsonStr(g, v.String())
	case protoreflect.BytesKind:
		return `"` + base64.StdEncoding.EncodeToString(v.Bytes()) + `"`
	case protoreflect.Int32Kind, protoreflect.Sint32Kind:
		return strconv.FormatInt(v.Int(), 10)
	default:
		return strconv.FormatUint(v.Uint(), 10)
	}
}
