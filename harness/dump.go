package main

import (
	"sort"
	"strconv"
	"sync"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// tree is the populated-fields view of a message: numbers as decimal spellings.
func tree(m proto.Message) any {
	if m == nil || !m.ProtoReflect().IsValid() {
		return obj{"nil": true}
	}
	return treeR(m.ProtoReflect())
}

func treeR(m protoreflect.Message) any {
	if !m.IsValid() {
		return obj{"nil": true}
	}
	o := obj{}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		name := string(fd.Name())
		switch {
		case fd.IsMap():
			type kv struct {
				k uint64
				v string
			}
			var kvs []kv
			v.Map().Range(func(k protoreflect.MapKey, v protoreflect.Value) bool {
				kvs = append(kvs, kv{k.Uint(), strconv.FormatUint(v.Uint(), 10)})
				return true
			})
			sort.Slice(kvs, func(i, j int) bool { return kvs[i].k < kvs[j].k })
			a := arr{}
			for _, e := range kvs {
				a = append(a, arr{strconv.FormatUint(e.k, 10), e.v})
			}
			o[name] = a
		case fd.IsList():
			a := arr{}
			for i := 0; i < v.List().Len(); i++ {
				a = append(a, scalar(fd, v.List().Get(i)))
			}
			o[name] = a
		default:
			o[name] = scalar(fd, v)
		}
		return true
	})
	if len(m.GetUnknown()) > 0 {
		o["unknownFields"] = true
	}
	return o
}

func scalar(fd protoreflect.FieldDescriptor, v protoreflect.Value) any {
	switch fd.Kind() {
	case protoreflect.MessageKind:
		return treeR(v.Message())
	case protoreflect.BoolKind:
		return v.Bool()
	case protoreflect.EnumKind:
		return strconv.FormatInt(int64(v.Enum()), 10)
	case protoreflect.StringKind:
		return v.String()
	case protoreflect.BytesKind:
		return append([]byte{}, v.Bytes()...)
	case protoreflect.FloatKind:
		return strconv.FormatFloat(v.Float(), 'f', -1, 32)
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Int64Kind, protoreflect.Sint64Kind:
		return strconv.FormatInt(v.Int(), 10)
	default:
		return strconv.FormatUint(v.Uint(), 10)
	}
}

func trees[M proto.Message](ms []M) arr {
	a := arr{}
	for _, m := range ms {
		a = append(a, tree(m))
	}
	return a
}

// scribble overwrites whatever a message refers to: what a caller got is the caller's.
func scribble(m protoreflect.Message) {
	if !m.IsValid() {
		return
	}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsMap():
			v.Map().Range(func(k protoreflect.MapKey, _ protoreflect.Value) bool {
				v.Map().Set(k, protoreflect.ValueOfUint32(4242))
				return true
			})
		case fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				switch e := v.List().Get(i); fd.Kind() {
				case protoreflect.MessageKind:
					scribble(e.Message())
				case protoreflect.Uint32Kind:
					v.List().Set(i, protoreflect.ValueOfUint32(4242))
				case protoreflect.StringKind:
					v.List().Set(i, protoreflect.ValueOfString("scribbled"))
				}
			}
		case fd.Kind() == protoreflect.MessageKind:
			scribble(v.Message())
		case fd.Kind() == protoreflect.BytesKind:
			for i := range v.Bytes() {
				v.Bytes()[i] ^= 0x5a
			}
		case fd.Kind() == protoreflect.StringKind:
			m.Set(fd, protoreflect.ValueOfString("scribbled"))
		case fd.Kind() == protoreflect.BoolKind:
			m.Set(fd, protoreflect.ValueOfBool(!v.Bool()))
		case fd.Kind() == protoreflect.EnumKind:
			m.Set(fd, protoreflect.ValueOfEnum(v.Enum()+1))
		case fd.Kind() == protoreflect.Uint32Kind:
			m.Set(fd, protoreflect.ValueOfUint32(uint32(v.Uint())+7))
		case fd.Kind() == protoreflect.Int32Kind:
			m.Set(fd, protoreflect.ValueOfInt32(int32(v.Int())+7))
		}
		return true
	})
}
func scribbleAll[M proto.Message](ms []M) {
	for k, m := range ms {
		scribble(m.ProtoReflect())
		var none M
		ms[k] = none
	}
}

// used message objects, by type: callers fill in the same object again and again
var used sync.Map

// refill copies a message into objects that held other messages before. done makes them available for the next one.
func refill(m protoreflect.Message, objs *[]protoreflect.Message) protoreflect.Message {
	pool, _ := used.LoadOrStore(m.Descriptor().FullName(), &sync.Pool{})
	x, _ := pool.(*sync.Pool).Get().(protoreflect.Message)
	if x == nil {
		x = m.New()
	}
	*objs = append(*objs, x)
	proto.Reset(x.Interface())
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsMap():
			t := x.Mutable(fd).Map()
			v.Map().Range(func(k protoreflect.MapKey, v protoreflect.Value) bool {
				t.Set(k, v)
				return true
			})
		case fd.IsList():
			t := x.Mutable(fd).List()
			for i := 0; i < v.List().Len(); i++ {
				e := v.List().Get(i)
				if fd.Kind() == protoreflect.MessageKind {
					e = protoreflect.ValueOfMessage(refill(e.Message(), objs))
				}
				t.Append(e)
			}
		case fd.Kind() == protoreflect.MessageKind:
			x.Set(fd, protoreflect.ValueOfMessage(refill(v.Message(), objs)))
		case fd.Kind() == protoreflect.BytesKind:
			x.Set(fd, protoreflect.ValueOfBytes(append([]byte{}, v.Bytes()...)))
		default:
			x.Set(fd, v)
		}
		return true
	})
	if u := m.GetUnknown(); len(u) > 0 {
		x.SetUnknown(u)
	}
	return x
}

// onUsed calls f with the messages, held by objects that have been in use before and will be used again.
func onUsed[M proto.Message](ms []M, f func([]M)) {
	var objs []protoreflect.Message
	l := make([]M, len(ms))
	for k, m := range ms {
		l[k] = refill(m.ProtoReflect(), &objs).Interface().(M)
	}
	f(l)
	release(&objs)
}

func release(objs *[]protoreflect.Message) {
	for _, x := range *objs {
		pool, _ := used.Load(x.Descriptor().FullName())
		pool.(*sync.Pool).Put(x)
	}
}
