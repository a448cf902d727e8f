package gv

import (
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// Reference semantics of field masks, written independently of pkg/masks and fmutils.

// MaskTree maps field names to what is selected below them. A nil tree selects everything.
type MaskTree map[string]MaskTree

// Tree is the tree of paths; a path selects all that is below it.
func Tree(paths []string) MaskTree {
	t := MaskTree{}
	for _, p := range paths {
		cur := t
		segs := strings.Split(p, ".")
		for i, s := range segs {
			sub, ok := cur[s]
			if ok && sub == nil {
				break // all of it is already selected
			}
			if i == len(segs)-1 {
				cur[s] = nil
				break
			}
			if !ok {
				sub = MaskTree{}
				cur[s] = sub
			}
			cur = sub
		}
	}
	return t
}

// Covers says whether everything path selects is selected by t.
func (t MaskTree) Covers(path string) bool {
	if t == nil {
		return true
	}
	for _, s := range strings.Split(path, ".") {
		sub, ok := t[s]
		if !ok {
			return false
		}
		if sub == nil {
			return true
		}
		t = sub
	}
	return false
}

// ValidPath says whether path names a field of d, without continuing through a scalar, list or map.
func ValidPath(d protoreflect.MessageDescriptor, path string) bool {
	for _, s := range strings.Split(path, ".") {
		if d == nil {
			return false
		}
		f := d.Fields().ByName(protoreflect.Name(s))
		if f == nil {
			return false
		}
		d = nil
		if f.Message() != nil && f.Cardinality() != protoreflect.Repeated {
			d = f.Message()
		}
	}
	return true
}

func ValidPaths(m proto.Message, paths []string) bool {
	for _, p := range paths {
		if !ValidPath(m.ProtoReflect().Descriptor(), p) {
			return false
		}
	}
	return true
}

// Project is m with only the fields selected by t.
func Project(m proto.Message, t MaskTree) proto.Message {
	if m == nil {
		return nil
	}
	if t == nil {
		return proto.Clone(m)
	}
	r := m.ProtoReflect().New()
	project(r, m.ProtoReflect(), t)
	return r.Interface()
}

// ProjectPaths is Project for the paths of a read mask, nil selects everything.
func ProjectPaths(m proto.Message, paths []string) proto.Message {
	if paths == nil {
		return Project(m, nil)
	}
	return Project(m, Tree(paths))
}

func copyField(dst, src protoreflect.Message, f protoreflect.FieldDescriptor) {
	one := src.New()
	one.Set(f, src.Get(f))
	proto.Merge(dst.Interface(), one.Interface())
}

func project(dst, src protoreflect.Message, t MaskTree) {
	for name, sub := range t {
		f := src.Descriptor().Fields().ByName(protoreflect.Name(name))
		if f == nil || !src.Has(f) {
			continue
		}
		switch {
		case sub == nil || f.Message() == nil || f.IsMap():
			copyField(dst, src, f)
		case f.IsList():
			l := dst.Mutable(f).List()
			for i := 0; i < src.Get(f).List().Len(); i++ {
				e := l.NewElement()
				project(e.Message(), src.Get(f).List().Get(i).Message(), sub)
				l.Append(e)
			}
		default:
			project(dst.Mutable(f).Message(), src.Get(f).Message(), sub)
		}
	}
}

// MaskedWrite is pre after writing src with the update, writable and reset masks (nil: none).
func MaskedWrite(pre, src proto.Message, update, writable, reset []string) proto.Message {
	r := proto.Clone(pre)
	if update != nil && len(update) == 0 {
		return r
	}
	switch {
	case update == nil && writable == nil:
		r = proto.Clone(src)
	case update == nil:
		writeFields(r.ProtoReflect(), src.ProtoReflect(), Tree(writable), true)
	default:
		writeFields(r.ProtoReflect(), src.ProtoReflect(), Tree(update), false)
	}
	clearFields(r.ProtoReflect(), Tree(reset))
	return r
}

func writeFields(dst, src protoreflect.Message, t MaskTree, replace bool) {
	names := make([]string, 0, len(t))
	for n := range t {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, name := range names {
		sub := t[name]
		f := dst.Descriptor().Fields().ByName(protoreflect.Name(name))
		switch {
		case f == nil:
		case sub != nil && f.Message() != nil && f.Cardinality() != protoreflect.Repeated:
			if src.Has(f) || dst.Has(f) {
				writeFields(dst.Mutable(f).Message(), src.Get(f).Message(), sub, replace)
			}
		case !src.Has(f):
			dst.Clear(f)
		default:
			if replace {
				dst.Clear(f)
			}
			copyField(dst, src, f)
		}
	}
}

func clearFields(m protoreflect.Message, t MaskTree) {
	for name, sub := range t {
		f := m.Descriptor().Fields().ByName(protoreflect.Name(name))
		switch {
		case f == nil || !m.Has(f):
		case sub == nil:
			m.Clear(f)
		case f.Message() != nil && f.Cardinality() != protoreflect.Repeated:
			clearFields(m.Mutable(f).Message(), sub)
		}
	}
}

// SameFields says whether a and b are equal, except that a message that is only there to hold fields of the trees,
// and holds none, may be absent.
func SameFields(a, b proto.Message, trees ...MaskTree) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	a, b = proto.Clone(a), proto.Clone(b)
	for _, t := range trees {
		dropEmpty(a.ProtoReflect(), t)
		dropEmpty(b.ProtoReflect(), t)
	}
	return proto.Equal(a, b)
}

func dropEmpty(m protoreflect.Message, t MaskTree) {
	for name, sub := range t {
		f := m.Descriptor().Fields().ByName(protoreflect.Name(name))
		if f == nil || sub == nil || !m.Has(f) || f.Message() == nil || f.Cardinality() == protoreflect.Repeated {
			continue
		}
		s := m.Mutable(f).Message()
		dropEmpty(s, sub)
		empty := true
		s.Range(func(protoreflect.FieldDescriptor, protoreflect.Value) bool { empty = false; return false })
		if empty {
			m.Clear(f)
		}
	}
}

// Paths generates a mask for messages of type m: valid unless invalid is true.
func (g *Gen) Paths(d protoreflect.MessageDescriptor, n int, invalid bool) []string {
	r := []string{}
	for len(r) < n {
		r = append(r, g.path(d, 0))
	}
	if n > 0 && g.R.Intn(6) == 0 { // duplicate
		r = append(r, r[g.R.Intn(len(r))])
	}
	if n > 0 && g.R.Intn(5) == 0 { // overlap
		p := r[g.R.Intn(len(r))]
		if i := strings.LastIndex(p, "."); i > 0 {
			r = append(r, p[:i])
		}
	}
	if invalid {
		p := g.path(d, 0)
		switch g.R.Intn(5) {
		case 0:
			p = "nosuch"
		case 1:
			p += ".nosuch"
		case 2:
			p += ".seconds"
		case 3:
			p = ""
		default:
			fs := d.Fields()
			for i := 0; i < 20; i++ {
				f := fs.Get(g.R.Intn(fs.Len()))
				if f.Cardinality() == protoreflect.Repeated || f.Message() == nil {
					p = string(f.Name()) + "." + []string{"a", "key", "value", "seconds", "c"}[g.R.Intn(5)]
					break
				}
			}
		}
		r = append(r, p)
	}
	g.R.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
	return r
}

func (g *Gen) path(d protoreflect.MessageDescriptor, depth int) string {
	fs := d.Fields()
	f := fs.Get(g.R.Intn(fs.Len()))
	for i := 0; i < 2 && f.Message() == nil; i++ { // prefer messages
		f = fs.Get(g.R.Intn(fs.Len()))
	}
	p := string(f.Name())
	if f.Message() != nil && f.Cardinality() != protoreflect.Repeated && depth < 3 && g.R.Intn(3) > 0 {
		p += "." + g.path(f.Message(), depth+1)
	}
	return p
}

// Mutate changes some fields of m to other values, clears some, and sets some.
func (g *Gen) Mutate(m protoreflect.Message, n int) {
	fs := m.Descriptor().Fields()
	if fs.Len() == 0 {
		return
	}
	for ; n > 0; n-- {
		f := fs.Get(g.R.Intn(fs.Len()))
		switch {
		case g.R.Intn(3) == 0:
			m.Clear(f)
		case f.Message() != nil && f.Cardinality() != protoreflect.Repeated:
			g.Mutate(m.Mutable(f).Message(), 1+g.R.Intn(2))
		default:
			o := m.New()
			g.Message(o, 2)
			if o.Has(f) {
				m.Set(f, o.Get(f))
			}
		}
	}
}
