// Package gv is the contract language of /verif: ghost functions called from contract functions (gvc_*).
// The verifier gives them their symbolic meaning; this file gives them an executable meaning, so that a contract can
// be run on concrete inputs against the compiled code (replay).
package gv

import (
	"fmt"
	"reflect"

	"google.golang.org/protobuf/proto"
)

// V is the mathematical value of a message.
type V struct{ s string }

type skip struct{}

// Failure is the panic value of a failed Ensures.
type Failure struct{ Name string }

func (f Failure) Error() string { return "contract clause failed: " + f.Name }

// Requires is a precondition.
func Requires(b bool) {
	if !b {
		panic(skip{})
	}
}

// Assume is an assumption on ghost inputs.
func Assume(b bool) { Requires(b) }

// Ensures is a postcondition (a named proof obligation).
func Ensures(name string, b bool) {
	if !b {
		panic(Failure{name})
	}
}

// Assert is an intermediate obligation.
func Assert(name string, b bool) { Ensures(name, b) }

func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}
func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

// Forall quantifies over lo <= i < hi.
func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// Exists quantifies over lo <= i < hi.
func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// Pure evaluates f to a single term.
func Pure[T any](f func() T) T { return f() }

// Bound restricts n to 0..max (a bounded contract). No effect when run.
func Bound(what string, n, max int) {}

// Reach marks a point some path must reach (vacuity guard).
func Reach(name string) {}

// Frozen is a heap snapshot.
type Frozen struct {
	id int
}

var frozen [][2][]any

// Freeze snapshots the heap (the verifier) or the given objects (when run).
func Freeze(objs ...any) Frozen {
	var cp []any
	for _, o := range objs {
		cp = append(cp, deepCopy(reflect.ValueOf(o)).Interface())
	}
	frozen = append(frozen, [2][]any{objs, cp})
	return Frozen{len(frozen) - 1}
}

// Unchanged: nothing that existed at Freeze was written since.
func (f Frozen) Unchanged() bool {
	a := frozen[f.id]
	for i := range a[0] {
		if !deepEq(reflect.ValueOf(a[0][i]), reflect.ValueOf(a[1][i])) {
			return false
		}
	}
	return true
}

// Fresh: p was allocated since f. Not observable when run.
func Fresh(p any, f Frozen) bool { return true }

func deepCopy(v reflect.Value) reflect.Value {
	if !v.IsValid() {
		return v
	}
	if m, ok := v.Interface().(proto.Message); ok {
		if v.IsNil() {
			return v
		}
		return reflect.ValueOf(proto.Clone(m))
	}
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		// the whole backing array counts
		full := v.Slice3(0, v.Cap(), v.Cap())
		n := reflect.MakeSlice(v.Type(), v.Cap(), v.Cap())
		for i := 0; i < v.Cap(); i++ {
			n.Index(i).Set(deepCopy(full.Index(i)))
		}
		return n.Slice3(0, v.Len(), v.Cap())
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, deepCopy(v.MapIndex(k)))
		}
		return n
	}
	return v
}

func deepEq(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if m, ok := a.Interface().(proto.Message); ok {
		n := b.Interface().(proto.Message)
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return proto.Equal(m, n)
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if a.Len() != b.Len() {
			return false
		}
		fa, fb := a.Slice3(0, a.Cap(), a.Cap()), b.Slice3(0, b.Cap(), b.Cap())
		for i := 0; i < fa.Len() && i < fb.Len(); i++ {
			if !deepEq(fa.Index(i), fb.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if !b.MapIndex(k).IsValid() || !deepEq(a.MapIndex(k), b.MapIndex(k)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// ValOf is the mathematical value of a message.
func ValOf(m proto.Message) V {
	if m == nil || reflect.ValueOf(m).IsNil() {
		return V{"<nil>"}
	}
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		panic(err)
	}
	return V{fmt.Sprintf("%s:%x", m.ProtoReflect().Descriptor().FullName(), b)}
}
