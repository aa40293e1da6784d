package main

import (
	"fmt"
	"hash/fnv"

	gpsgen "github.com/mmadfox/go-gpsgen"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// stateHash identifies the content of a message.
func stateHash(m proto.Message) uint64 {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		return 0
	}
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// diffMsg names the first fields in which two messages differ.
func diffMsg(a, b proto.Message) string {
	return diffRefl(a.ProtoReflect(), b.ProtoReflect(), "")
}

func diffRefl(a, b protoreflect.Message, path string) string {
	fs := a.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		p := path + "." + string(f.Name())
		if a.Has(f) != b.Has(f) {
			return fmt.Sprintf("%s: %v / %v", p, show(a, f), show(b, f))
		}
		if !a.Has(f) {
			continue
		}
		x, y := a.Get(f), b.Get(f)
		switch {
		case f.IsList():
			l, m := x.List(), y.List()
			if l.Len() != m.Len() {
				return fmt.Sprintf("%s: %d / %d elements", p, l.Len(), m.Len())
			}
			for k := 0; k < l.Len(); k++ {
				q := fmt.Sprintf("%s[%d]", p, k)
				if f.Kind() == protoreflect.MessageKind {
					if d := diffRefl(l.Get(k).Message(), m.Get(k).Message(), q); d != "" {
						return d
					}
				} else if !l.Get(k).Equal(m.Get(k)) {
					return fmt.Sprintf("%s: %v / %v", q, l.Get(k), m.Get(k))
				}
			}
		case f.Kind() == protoreflect.MessageKind:
			if d := diffRefl(x.Message(), y.Message(), p); d != "" {
				return d
			}
		default:
			if !x.Equal(y) {
				return fmt.Sprintf("%s: %v / %v", p, x, y)
			}
		}
	}
	return ""
}

func show(m protoreflect.Message, f protoreflect.FieldDescriptor) string {
	if !m.Has(f) {
		return "(unset)"
	}
	return clip(m.Get(f).String(), 200)
}

// scribble overwrites every field of a message in place, including nested ones.
func scribble(m protoreflect.Message) {
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if f.IsList() {
			l := m.Mutable(f).List()
			for k := 0; k < l.Len(); k++ {
				if f.Kind() == protoreflect.MessageKind {
					scribble(l.Get(k).Message())
				} else {
					l.Set(k, junk(f))
				}
			}
			continue
		}
		if f.IsMap() {
			continue
		}
		if f.Kind() == protoreflect.MessageKind {
			if m.Has(f) {
				scribble(m.Get(f).Message())
			}
			continue
		}
		if f.Kind() == protoreflect.BytesKind {
			b := m.Get(f).Bytes()
			for k := range b {
				b[k] = 'Z'
			}
			continue
		}
		m.Set(f, junk(f))
	}
}

func junk(f protoreflect.FieldDescriptor) protoreflect.Value {
	switch f.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(true)
	case protoreflect.StringKind:
		return protoreflect.ValueOfString("scribbled")
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(-12345.5)
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(-12345.5)
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(-77)
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(-77)
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(77)
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(77)
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes([]byte("ZZ"))
	}
	return f.Default()
}

func msgText(m proto.Message) string {
	return clip(prototext.MarshalOptions{}.Format(m), 1500)
}

// visible is everything a tracker shows that does not depend on the version counters.
func visible(d *gpsgen.Device) (st *pb.Device, snap *pb.Snapshot) {
	return d.State(), d.Snapshot()
}
