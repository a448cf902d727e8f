package gv

import (
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// Album has copies of messages, as they were when they were seen first.
type Album struct {
	mu   sync.Mutex
	seen map[proto.Message]proto.Message
	keys []proto.Message
	n    atomic.Int64
}

// Add a message that has been observed.
func (a *Album) Add(m proto.Message) {
	if m == nil || !m.ProtoReflect().IsValid() {
		return
	}
	a.mu.Lock()
	defer a.mu.Unlock()
	if a.seen == nil {
		a.seen = map[proto.Message]proto.Message{}
	}
	if _, ok := a.seen[m]; !ok {
		a.seen[m] = proto.Clone(m)
		a.keys = append(a.keys, m)
	}
	a.n.Add(1)
}

// Forget messages, which the one who has them is about to change.
func (a *Album) Forget(ms ...proto.Message) {
	a.mu.Lock()
	defer a.mu.Unlock()
	for _, m := range ms {
		delete(a.seen, m)
	}
}

// Changed is a message that differs from its copy, and the copy.
func (a *Album) Changed() (m, was proto.Message) {
	a.mu.Lock()
	defer a.mu.Unlock()
	for _, k := range a.keys {
		if c, ok := a.seen[k]; ok && !proto.Equal(k, c) {
			return k, c
		}
	}
	return nil, nil
}

// Same tells whether all the messages are as they were.
func (a *Album) Same() bool {
	m, _ := a.Changed()
	return m == nil
}

// Some is one of the messages, or nil.
func (a *Album) Some(g *Gen, ok func(proto.Message) bool) proto.Message {
	a.mu.Lock()
	defer a.mu.Unlock()
	var r []proto.Message
	for _, k := range a.keys {
		if _, has := a.seen[k]; has && ok(k) {
			r = append(r, k)
		}
	}
	if len(r) == 0 {
		return nil
	}
	return r[g.R.Intn(len(r))]
}

// Quiet waits until nothing has been added for a while.
func (a *Album) Quiet(d time.Duration) {
	for end := time.Now().Add(time.Second); time.Now().Before(end); {
		n := a.n.Load()
		time.Sleep(d)
		if a.n.Load() == n {
			return
		}
	}
}

// Deface changes all that a message has, in place: scalars, elements of lists and maps, bytes, and what is nested.
func Deface(m proto.Message) {
	if m == nil || !m.ProtoReflect().IsValid() {
		return
	}
	deface(m.ProtoReflect())
}

func deface(m protoreflect.Message) {
	m.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case f.IsMap():
			mp := v.Map()
			mp.Range(func(k protoreflect.MapKey, e protoreflect.Value) bool {
				if f.MapValue().Message() != nil {
					deface(e.Message())
				} else {
					mp.Set(k, defaced(f.MapValue(), e))
				}
				return true
			})
		case f.IsList():
			l := v.List()
			for i := 0; i < l.Len(); i++ {
				if f.Message() != nil {
					deface(l.Get(i).Message())
				} else {
					l.Set(i, defaced(f, l.Get(i)))
				}
			}
		case f.Message() != nil:
			deface(v.Message())
		default:
			m.Set(f, defaced(f, v))
		}
		return true
	})
	// fields that had nothing get something
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		if f := fs.Get(i); f.ContainingOneof() == nil && f.Cardinality() != protoreflect.Repeated && f.Message() == nil && f.Kind() == protoreflect.StringKind && !m.Has(f) {
			m.Set(f, protoreflect.ValueOfString("defaced"))
		}
	}
}

func defaced(f protoreflect.FieldDescriptor, v protoreflect.Value) protoreflect.Value {
	switch f.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(!v.Bool())
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(v.String() + "*")
	case protoreflect.BytesKind:
		b := v.Bytes()
		for i := range b {
			b[i] ^= 1
		}
		return v
	case protoreflect.EnumKind:
		vs := f.Enum().Values()
		for i := 0; i < vs.Len(); i++ {
			if n := vs.Get(i).Number(); n != v.Enum() && n != 0 {
				return protoreflect.ValueOfEnum(n)
			}
		}
		return v
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(v.Float()) + 100)
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(v.Float() + 100)
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(v.Int()) + 100)
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(v.Uint()) + 100)
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(v.Int() + 100)
	default:
		return protoreflect.ValueOfUint64(v.Uint() + 100)
	}
}

// Nth is the message of the n'th latest observation, or nil.
func (a *Album) Nth(n int) proto.Message {
	a.mu.Lock()
	defer a.mu.Unlock()
	if n > len(a.keys) {
		return nil
	}
	k := a.keys[len(a.keys)-n]
	if _, ok := a.seen[k]; !ok {
		return nil
	}
	return k
}
