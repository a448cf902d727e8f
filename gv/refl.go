package main

import (
	"go/types"
	"reflect"
	"sort"
	"strings"
)

// Protobuf reflection over generated structs whose type is known: primitives of the model in package gv
// (zz_gv_refl.go), which implements protoreflect.Message and the like in Go.

// rField is a field of a message type; members of a oneof are fields of their own.
type rField struct {
	name     string
	idx      int        // struct field
	wrap     types.Type // pointer to the wrapper struct, for members of a oneof
	t        types.Type
	kind     int64 // protoreflect.Kind
	list, mp bool
	opt      bool // proto3 optional scalar: a pointer
	msg      types.Type
}

var kindOfTag = map[string]int64{"varint": 5, "zigzag32": 17, "zigzag64": 18, "fixed32": 7, "fixed64": 6}

func protoKind(tag string, t types.Type) int64 {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if msgElem(t) != nil {
			return 11
		}
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		if b, ok := s.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
			return protoKind(tag, s.Elem())
		}
		return 12
	}
	if strings.Contains(tag, ",enum=") {
		return 14
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Bool:
			return 8
		case types.Int32:
			return 5
		case types.Int64:
			return 3
		case types.Uint32:
			return 13
		case types.Uint64:
			return 4
		case types.Float32:
			return 2
		case types.Float64:
			return 1
		case types.String:
			return 9
		}
	}
	return 11
}

func (x *Exec) reflFields(t types.Type) []rField {
	st := t.Underlying().(*types.Struct)
	var out []rField
	one := func(tag string, t types.Type) rField {
		f := rField{t: t, kind: protoKind(tag, t)}
		for _, w := range strings.Split(tag, ",") {
			if n, ok := strings.CutPrefix(w, "name="); ok {
				f.name = n
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Map:
			f.mp, f.kind = true, 11
		case *types.Slice:
			f.list = f.kind != 12 || !isByteSlice(t)
			if f.list {
				f.msg = msgElem(u.Elem())
			}
		case *types.Pointer:
			f.msg = msgElem(t)
			f.opt = f.msg == nil
		}
		return f
	}
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Exported() {
			continue
		}
		tag := reflect.StructTag(st.Tag(i))
		if tag.Get("protobuf_oneof") != "" {
			for _, w := range x.oneofWrappers(st.Field(i).Type()) {
				ws := w.(*types.Pointer).Elem().Underlying().(*types.Struct)
				f := one(reflect.StructTag(ws.Tag(0)).Get("protobuf"), ws.Field(0).Type())
				f.idx, f.wrap = i, w
				out = append(out, f)
			}
			continue
		}
		f := one(tag.Get("protobuf"), st.Field(i).Type())
		f.idx = i
		out = append(out, f)
	}
	return out
}

// protoName is the full name of the message of a generated type.
func protoName(t string) string {
	k := strings.LastIndex(t, ".")
	if k < 0 {
		return t
	}
	pkg, name := t[:k], strings.ReplaceAll(t[k+1:], "_", ".")
	switch {
	case strings.HasPrefix(pkg, "google.golang.org/protobuf/types/known/"):
		return "google.protobuf." + name
	case strings.HasPrefix(pkg, "github.com/smart-core-os/sc-api/go/"):
		return "smartcore." + strings.ReplaceAll(strings.TrimPrefix(pkg, "github.com/smart-core-os/sc-api/go/"), "/", ".") + "." + name
	}
	return pkg + "." + name
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (x *Exec) findField(t types.Type, name string) *rField {
	for _, f := range x.reflFields(t) {
		if f.name == name {
			return &f
		}
	}
	return nil
}

// validPath says whether a path denotes a field, like fieldmaskpb.
func (x *Exec) validPath(t types.Type, path string) bool {
	for _, n := range strings.Split(path, ".") {
		if t == nil {
			return false
		}
		f := x.findField(t, n)
		if f == nil {
			return false
		}
		t = f.msg
		if f.list || f.mp {
			t = nil
		}
	}
	return true
}

func normalPaths(paths []string) []string {
	less := func(a, b string) bool {
		for i := 0; i < len(a) && i < len(b); i++ {
			if a[i] != b[i] {
				return a[i] == '.' || b[i] != '.' && a[i] < b[i]
			}
		}
		return len(a) < len(b)
	}
	paths = append([]string(nil), paths...)
	sort.Slice(paths, func(i, j int) bool { return less(paths[i], paths[j]) })
	var out []string
	for _, p := range paths {
		if n := len(out); n > 0 && (p == out[n-1] || strings.HasPrefix(p, out[n-1]+".")) {
			continue
		}
		out = append(out, p)
	}
	return out
}

func (x *Exec) strList(st *State, s SliceV) []string {
	n, ok := x.deep(st, x.norm(st, s.Len)).IntVal()
	if !ok {
		panic(unsupported("field mask of unknown length"))
	}
	var out []string
	for i := int64(0); i < n; i++ {
		v := x.norm(st, x.load(st, Ptr{Base: s.Arr, Root: types.Typ[types.String], Elem: true, Idx: x.c.Add(s.Off, x.c.Int(i))}).(*Term))
		g, ok := goStr(x.deep(st, v))
		if !ok {
			panic(unsupported("field mask path that is not a constant"))
		}
		out = append(out, g)
	}
	return out
}

func (x *Exec) mkStrList(st *State, l []string) SliceV {
	r := x.newRef()
	p := Ptr{Base: r, Root: types.Typ[types.String], Elem: true, N: -1}
	x.storeComps(st, x.e.elemKey(types.Typ[types.String]), p, nil, types.NewArray(types.Typ[types.String], -1), x.zeroArr(types.Typ[types.String]))
	for i, s := range l {
		x.store(st, Ptr{Base: r, Root: types.Typ[types.String], Elem: true, Idx: x.c.Int(int64(i))}, x.strConst(s))
	}
	n := x.c.Int(int64(len(l)))
	return SliceV{r, x.c.Int(0), n, n}
}

func reflIntrinsics() map[string]intrinsic {
	m := map[string]intrinsic{}
	msg := func(x *Exec, st *State, v Val) (Ptr, types.Type) {
		i := x.splitIface(st, v.(IfaceV))
		p, t, _, ok := x.msgArg(st, i)
		if !ok {
			panic(unsupported("reflection over a message of unknown type"))
		}
		return p, t
	}
	field := func(x *Exec, st *State, a []Val) (Ptr, types.Type, rField) {
		p, t := msg(x, st, a[0])
		k, ok := x.deep(st, x.norm(st, a[1].(*Term))).IntVal()
		fs := x.reflFields(t)
		if !ok || k < 0 || int(k) >= len(fs) {
			panic(unsupported("reflection over an unknown field"))
		}
		return p, t, fs[k]
	}
	isNil := func(x *Exec, p Ptr) *Term { return x.c.Eq(p.Base, x.c.Int(0)) }
	// wrapper gives the wrapper of a member of a oneof that is set
	member := func(x *Exec, st *State, p Ptr, f rField) (Ptr, bool) {
		i := x.loadF(st, p, f.idx).(IfaceV)
		if i.Dyn == nil {
			i = x.resolveIface(st, i, x.oneofWrappers(p.Root.Underlying().(*types.Struct).Field(f.idx).Type()))
		}
		if i.Dyn == nil || !types.Identical(i.Dyn, f.wrap) {
			return Ptr{}, false
		}
		return i.V.(Ptr), true
	}
	load := func(x *Exec, st *State, p Ptr, f rField) Val {
		if f.wrap != nil {
			w, ok := member(x, st, p, f)
			if !ok {
				return x.zero(f.t)
			}
			return x.loadF(st, w, 0)
		}
		return x.loadF(st, p, f.idx)
	}
	has := func(x *Exec, st *State, p Ptr, f rField) *Term {
		if f.wrap != nil {
			_, ok := member(x, st, p, f)
			return x.c.Bool(ok)
		}
		v := x.loadF(st, p, f.idx)
		switch u := f.t.Underlying().(type) {
		case *types.Pointer:
			return x.c.Not(x.c.Eq(v.(Ptr).Base, x.c.Int(0)))
		case *types.Slice:
			return x.c.Lt(x.c.Int(0), v.(SliceV).Len)
		case *types.Map:
			return x.c.Lt(x.c.Int(0), x.mapLen(st, v.(*Term), u))
		default:
			return x.c.Not(x.equal(st, v, x.zero(f.t), f.t, f.t))
		}
	}
	m[gvp+"modelNil"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		p, _ := msg(x, st, a[0])
		return isNil(x, p)
	}
	m[gvp+"modelZero"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		_, t := msg(x, st, a[0])
		return x.makeIface(x.nilPtr(t), types.NewPointer(t))
	}
	m[gvp+"modelNew"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		_, t := msg(x, st, a[0])
		return x.makeIface(x.alloc(st, t), types.NewPointer(t))
	}
	m[gvp+"modelTypeName"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		_, t := msg(x, st, a[0])
		return x.strConst(protoName(types.TypeString(t, nil)))
	}
	m[gvp+"modelFields"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		_, t := msg(x, st, a[0])
		return x.c.Int(int64(len(x.reflFields(t))))
	}
	m[gvp+"modelFieldNamed"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		_, t := msg(x, st, a[0])
		n, ok := goStr(x.deep(st, x.norm(st, a[1].(*Term))))
		if !ok {
			panic(unsupported("field name that is not a constant"))
		}
		for i, f := range x.reflFields(t) {
			if f.name == n {
				return x.c.Int(int64(i))
			}
		}
		return x.c.Int(-1)
	}
	m[gvp+"modelFieldName"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		_, _, f := field(x, st, a)
		return x.strConst(f.name)
	}
	m[gvp+"modelFieldKind"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		_, _, f := field(x, st, a)
		return x.c.Int(f.kind)
	}
	m[gvp+"modelFieldShape"] = func(x *Exec, st *State, s *Site, a []Val) Val { // 0: singular, 1: list, 2: map
		_, _, f := field(x, st, a)
		switch {
		case f.list:
			return x.c.Int(1)
		case f.mp:
			return x.c.Int(2)
		}
		return x.c.Int(0)
	}
	// modelFieldMsg is a nil message of the field's message type, nil for others
	m[gvp+"modelFieldMsg"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		_, _, f := field(x, st, a)
		if f.msg == nil {
			return x.nilIface()
		}
		return x.makeIface(x.nilPtr(f.msg), types.NewPointer(f.msg))
	}
	m[gvp+"modelHas"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		p, _, f := field(x, st, a)
		if x.branch(st, isNil(x, p)) {
			return x.c.F
		}
		return has(x, st, p, f)
	}
	m[gvp+"modelClear"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		p, _, f := field(x, st, a)
		x.nilCheck(st, p, 0)
		if f.wrap != nil {
			if _, ok := member(x, st, p, f); ok {
				x.storeF(st, p, f.idx, x.nilIface())
			}
			return unit()
		}
		x.storeF(st, p, f.idx, x.zero(f.t))
		return unit()
	}
	// modelSub is the message in a field: a nil one of the field's type if it isn't set
	m[gvp+"modelSub"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		p, _, f := field(x, st, a)
		if f.msg == nil || f.list {
			panic(unsupported("Message of a field that is not a message"))
		}
		if x.branch(st, isNil(x, p)) {
			return x.makeIface(x.nilPtr(f.msg), types.NewPointer(f.msg))
		}
		return x.makeIface(load(x, st, p, f), types.NewPointer(f.msg))
	}
	m[gvp+"modelLen"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		p, _, f := field(x, st, a)
		if x.branch(st, isNil(x, p)) {
			return x.c.Int(0)
		}
		switch v := load(x, st, p, f).(type) {
		case SliceV:
			return v.Len
		case *Term:
			return x.mapLen(st, v, f.t.Underlying().(*types.Map))
		}
		panic(unsupported("length of a field"))
	}
	m[gvp+"modelElem"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		p, _, f := field(x, st, a)
		v := load(x, st, p, f).(SliceV)
		if f.msg == nil {
			panic(unsupported("reflection over an element that is not a message"))
		}
		et := f.t.Underlying().(*types.Slice).Elem()
		return x.makeIface(x.load(st, Ptr{Base: v.Arr, Root: et, Elem: true, Idx: x.c.Add(v.Off, a[2].(*Term))}), et)
	}
	// the value of a scalar field, or of an element of a list of scalars (when the index isn't negative)
	scalar := func(x *Exec, st *State, a []Val) (Val, types.Type) {
		p, _, f := field(x, st, a)
		if f.msg != nil || f.mp {
			panic(unsupported("scalar value of a field that has none"))
		}
		if k, ok := x.deep(st, x.norm(st, a[2].(*Term))).IntVal(); f.list && (!ok || k >= 0) {
			v := load(x, st, p, f).(SliceV)
			et := f.t.Underlying().(*types.Slice).Elem()
			return x.load(st, Ptr{Base: v.Arr, Root: et, Elem: true, Idx: x.c.Add(v.Off, a[2].(*Term))}), et
		}
		if f.list {
			panic(unsupported("scalar value of a list"))
		}
		t := f.t
		if f.opt {
			t = f.t.Underlying().(*types.Pointer).Elem()
		}
		if x.branch(st, isNil(x, p)) {
			return x.zero(t), t
		}
		v := load(x, st, p, f)
		if f.opt {
			q := v.(Ptr)
			if x.branch(st, isNil(x, q)) {
				return x.zero(t), t
			}
			return x.load(st, q), t
		}
		return v, t
	}
	kindOf := func(name string, ok func(b types.BasicKind) bool) {
		m[gvp+name] = func(x *Exec, st *State, s *Site, a []Val) Val {
			v, t := scalar(x, st, a)
			b, isB := t.Underlying().(*types.Basic)
			if !isB || !ok(b.Kind()) {
				panic(unsupported("value of another kind"))
			}
			rt := s.fn.Signature.Results().At(0).Type()
			if types.Identical(b, rt.Underlying()) {
				return v
			}
			return x.convert(st, v, b, rt)
		}
	}
	kindOf("modelBool", func(k types.BasicKind) bool { return k == types.Bool })
	kindOf("modelInt", func(k types.BasicKind) bool { return k == types.Int32 || k == types.Int64 })
	kindOf("modelUint", func(k types.BasicKind) bool { return k == types.Uint32 || k == types.Uint64 })
	kindOf("modelFloat", func(k types.BasicKind) bool { return k == types.Float32 || k == types.Float64 })
	kindOf("modelString", func(k types.BasicKind) bool { return k == types.String })
	m[gvp+"modelBytes"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		v, _ := scalar(x, st, a)
		b, ok := v.(SliceV)
		if !ok {
			panic(unsupported("value of another kind"))
		}
		return b
	}
	// modelAssign copies a field from one message of a type to another
	m[gvp+"modelAssign"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		p, t, f := field(x, st, a[:2])
		q, t2, g := field(x, st, a[2:])
		if !types.Identical(t, t2) || f.idx != g.idx {
			panic(unsupported("assignment between fields of different types"))
		}
		x.nilCheck(st, p, 0)
		x.storeF(st, p, f.idx, x.loadF(st, q, g.idx))
		return unit()
	}
	m[gvp+"modelSetSub"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		p, _, f := field(x, st, a)
		q, _ := msg(x, st, a[2])
		x.nilCheck(st, p, 0)
		if f.wrap != nil {
			w := x.alloc(st, f.wrap.(*types.Pointer).Elem())
			x.storeF(st, w, 0, q)
			x.storeF(st, p, f.idx, x.makeIface(w, f.wrap))
			return unit()
		}
		x.storeF(st, p, f.idx, q)
		return unit()
	}
	// protoreflect.Value holds a reference to a model value
	m[gvp+"modelToValue"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		t := s.fn.Signature.Results().At(0).Type()
		ts := x.flatten(x.zero(t), t)
		for i, c := range x.e.comps(t) {
			if c.suf == ".ptr" {
				ts[i] = x.encPtr(a[0].(Ptr))
				return x.unflatten(ts, t)
			}
		}
		panic(unsupported("protoreflect.Value"))
	}
	m[gvp+"modelFromValue"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		t := s.fn.Params[0].Type()
		ts := x.flatten(a[0], t)
		for i, c := range x.e.comps(t) {
			if c.suf == ".ptr" {
				return x.decPtr(x.norm(st, ts[i]), s.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
			}
		}
		panic(unsupported("protoreflect.Value"))
	}
	m[gvp+"modelValidPath"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		_, t := msg(x, st, a[0])
		n, ok := goStr(x.deep(st, x.norm(st, a[1].(*Term))))
		if !ok {
			panic(unsupported("field mask path that is not a constant"))
		}
		return x.c.Bool(x.validPath(t, n))
	}
	m[gvp+"modelNormal"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		return x.mkStrList(st, normalPaths(x.strList(st, x.deepSlice(st, a[0].(SliceV)))))
	}
	m[gvp+"modelLast"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		n, ok := goStr(x.deep(st, x.norm(st, a[0].(*Term))))
		if !ok {
			panic(unsupported("string that is not a constant"))
		}
		return x.strConst(n[strings.LastIndex(n, ".")+1:])
	}
	m[gvp+"modelSplit"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		n, ok := goStr(x.deep(st, x.norm(st, a[0].(*Term))))
		if !ok {
			panic(unsupported("string that is not a constant"))
		}
		var l []string
		for _, w := range strings.Split(n, ".") {
			if w != "" {
				l = append(l, w)
			}
		}
		return x.mkStrList(st, l)
	}
	strs := func(x *Exec, st *State, a []Val) (string, string) {
		p, ok1 := goStr(x.deep(st, x.norm(st, a[0].(*Term))))
		q, ok2 := goStr(x.deep(st, x.norm(st, a[1].(*Term))))
		if !ok1 || !ok2 {
			panic(unsupported("prefix of a string that is not a constant"))
		}
		return p, q
	}
	m["strings.HasPrefix"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		p, q := strs(x, st, a)
		return x.c.Bool(strings.HasPrefix(p, q))
	}
	return m
}
