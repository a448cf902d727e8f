package gv

import (
	"math"

	"github.com/mennanov/fmutils"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

// Protobuf reflection and field masks as the verifier executes them, over messages whose type it knows. The functions
// without a body are primitives of the verifier; paths and field names have to be constants.

func modelNil(m proto.Message) bool                              { panic("model") }
func modelZero(m proto.Message) proto.Message                    { panic("model") }
func modelNew(m proto.Message) proto.Message                     { panic("model") }
func modelTypeName(m proto.Message) string                       { panic("model") }
func modelFields(m proto.Message) int                            { panic("model") }
func modelFieldNamed(m proto.Message, name string) int           { panic("model") }
func modelFieldName(m proto.Message, i int) string               { panic("model") }
func modelFieldKind(m proto.Message, i int) int                  { panic("model") }
func modelFieldShape(m proto.Message, i int) int                 { panic("model") }
func modelFieldMsg(m proto.Message, i int) proto.Message         { panic("model") }
func modelHas(m proto.Message, i int) bool                       { panic("model") }
func modelClear(m proto.Message, i int)                          { panic("model") }
func modelSub(m proto.Message, i int) proto.Message              { panic("model") }
func modelLen(m proto.Message, i int) int                        { panic("model") }
func modelElem(m proto.Message, i, k int) proto.Message          { panic("model") }
func modelBool(m proto.Message, i, k int) bool                   { panic("model") }
func modelInt(m proto.Message, i, k int) int64                   { panic("model") }
func modelUint(m proto.Message, i, k int) uint64                 { panic("model") }
func modelFloat(m proto.Message, i, k int) float64               { panic("model") }
func modelString(m proto.Message, i, k int) string               { panic("model") }
func modelBytes(m proto.Message, i, k int) []byte                { panic("model") }
func modelAssign(m proto.Message, i int, n proto.Message, k int) { panic("model") }
func modelSetSub(m proto.Message, i int, n proto.Message)        { panic("model") }
func modelToValue(v *reflVal) protoreflect.Value                 { panic("model") }
func modelFromValue(v protoreflect.Value) *reflVal               { panic("model") }
func modelValidPath(m proto.Message, path string) bool           { panic("model") }
func modelNormal(paths []string) []string                        { panic("model") }
func modelLast(path string) string                               { panic("model") }
func modelSplit(path string) []string                            { panic("model") }

// reflVal is the value of a field, of an element of a list, or a message.
type reflVal struct {
	m    proto.Message // the owner, or the message
	i    int           // field, -1 for a message
	elem bool
	k    int // element
}

func (v *reflVal) msg() proto.Message {
	switch {
	case v.i < 0:
		return v.m
	case v.elem:
		return modelElem(v.m, v.i, v.k)
	}
	return modelSub(v.m, v.i)
}

// at is the element, -1 for a whole field.
func (v *reflVal) at() int {
	if v.elem {
		return v.k
	}
	return -1
}

// Models of the accessors of protoreflect.Value.
func ModelValueBool(v protoreflect.Value) bool {
	r := modelFromValue(v)
	return modelBool(r.m, r.i, r.at())
}
func ModelValueEnum(v protoreflect.Value) protoreflect.EnumNumber {
	r := modelFromValue(v)
	return protoreflect.EnumNumber(modelInt(r.m, r.i, r.at()))
}
func ModelValueInt(v protoreflect.Value) int64 {
	r := modelFromValue(v)
	return modelInt(r.m, r.i, r.at())
}
func ModelValueUint(v protoreflect.Value) uint64 {
	r := modelFromValue(v)
	return modelUint(r.m, r.i, r.at())
}
func ModelValueFloat(v protoreflect.Value) float64 {
	r := modelFromValue(v)
	return modelFloat(r.m, r.i, r.at())
}
func ModelValueString(v protoreflect.Value) string {
	r := modelFromValue(v)
	return modelString(r.m, r.i, r.at())
}
func ModelValueBytes(v protoreflect.Value) []byte {
	r := modelFromValue(v)
	return modelBytes(r.m, r.i, r.at())
}

// ModelBytesEqual models bytes.Equal.
func ModelBytesEqual(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ModelMin and ModelMax model math.Min and math.Max, but for the sign of a zero.
func ModelMin(x, y float64) float64 {
	switch {
	case x < y || x == y:
		return x
	case y < x:
		return y
	case x < -math.MaxFloat64: // the other isn't a number
		return x
	case y < -math.MaxFloat64:
		return y
	}
	return x + y
}
func ModelMax(x, y float64) float64 {
	switch {
	case x > y || x == y:
		return x
	case y > x:
		return y
	case x > math.MaxFloat64:
		return x
	case y > math.MaxFloat64:
		return y
	}
	return x + y
}

// ModelMaskNew models fieldmaskpb.New.
func ModelMaskNew(m proto.Message, paths ...string) (*fieldmaskpb.FieldMask, error) {
	x := &fieldmaskpb.FieldMask{}
	for _, p := range paths {
		if !modelValidPath(m, p) {
			return x, errModel
		}
		x.Paths = append(x.Paths, p)
	}
	return x, nil
}

type modelError struct{}

func (*modelError) Error() string { return "model" }

var errModel error = &modelError{}

// reflMsg is a message.
type reflMsg struct {
	protoreflect.Message
	m proto.Message
}

func ModelProtoReflect(m proto.Message) protoreflect.Message { return &reflMsg{m: m} }

func (r *reflMsg) GetUnknown() protoreflect.RawFields         { return nil } // messages have no unknown fields
func (r *reflMsg) Interface() proto.Message                   { return r.m }
func (r *reflMsg) IsValid() bool                              { return !modelNil(r.m) }
func (r *reflMsg) New() protoreflect.Message                  { return &reflMsg{m: modelNew(r.m)} }
func (r *reflMsg) Descriptor() protoreflect.MessageDescriptor { return reflDesc{m: modelZero(r.m)} }
func (r *reflMsg) Has(fd protoreflect.FieldDescriptor) bool   { return modelHas(r.m, fd.(*reflField).i) }
func (r *reflMsg) Clear(fd protoreflect.FieldDescriptor)      { modelClear(r.m, fd.(*reflField).i) }
func (r *reflMsg) Get(fd protoreflect.FieldDescriptor) protoreflect.Value {
	return modelToValue(&reflVal{m: r.m, i: fd.(*reflField).i})
}

func (r *reflMsg) Set(fd protoreflect.FieldDescriptor, v protoreflect.Value) {
	w := modelFromValue(v)
	if w.i >= 0 && !w.elem {
		modelAssign(r.m, fd.(*reflField).i, w.m, w.i)
		return
	}
	modelSetSub(r.m, fd.(*reflField).i, w.msg())
}

func (r *reflMsg) Mutable(fd protoreflect.FieldDescriptor) protoreflect.Value {
	i := fd.(*reflField).i
	if z := modelFieldMsg(r.m, i); z != nil && modelFieldShape(r.m, i) == 0 && !modelHas(r.m, i) {
		modelSetSub(r.m, i, modelNew(z))
	}
	return modelToValue(&reflVal{m: r.m, i: i})
}

func (r *reflMsg) NewField(fd protoreflect.FieldDescriptor) protoreflect.Value {
	return modelToValue(&reflVal{m: modelNew(modelFieldMsg(r.m, fd.(*reflField).i)), i: -1})
}

func (r *reflMsg) Range(f func(protoreflect.FieldDescriptor, protoreflect.Value) bool) {
	n := modelFields(r.m)
	for i := 0; i < n; i++ {
		if modelHas(r.m, i) && !f(&reflField{m: modelZero(r.m), i: i}, modelToValue(&reflVal{m: r.m, i: i})) {
			return
		}
	}
}

// reflField describes a field of messages like m.
type reflField struct {
	protoreflect.FieldDescriptor
	m proto.Message
	i int
}

func (f *reflField) Name() protoreflect.Name                           { return protoreflect.Name(modelFieldName(f.m, f.i)) }
func (f *reflField) Kind() protoreflect.Kind                           { return protoreflect.Kind(modelFieldKind(f.m, f.i)) }
func (f *reflField) IsList() bool                                      { return modelFieldShape(f.m, f.i) == 1 }
func (f *reflField) IsMap() bool                                       { return modelFieldShape(f.m, f.i) == 2 }
func (f *reflField) ContainingMessage() protoreflect.MessageDescriptor { return reflDesc{m: f.m} }
func (f *reflField) FullName() protoreflect.FullName {
	return protoreflect.FullName(modelTypeName(f.m) + "." + modelFieldName(f.m, f.i))
}
func (f *reflField) Cardinality() protoreflect.Cardinality {
	if modelFieldShape(f.m, f.i) > 0 {
		return protoreflect.Repeated
	}
	return protoreflect.Optional
}

func (f *reflField) Message() protoreflect.MessageDescriptor {
	switch z := modelFieldMsg(f.m, f.i); {
	case z != nil:
		return reflDesc{m: z}
	case modelFieldShape(f.m, f.i) == 2:
		return reflDesc{}
	}
	return nil
}

// reflDesc describes messages like m.
type reflDesc struct {
	protoreflect.MessageDescriptor
	m proto.Message
}

func (d reflDesc) FullName() protoreflect.FullName {
	return protoreflect.FullName(modelTypeName(d.m))
}
func (d reflDesc) Name() protoreflect.Name               { return protoreflect.Name(modelLast(modelTypeName(d.m))) }
func (d reflDesc) Fields() protoreflect.FieldDescriptors { return &reflFields{m: d.m} }

type reflFields struct {
	protoreflect.FieldDescriptors
	m proto.Message
}

func (l *reflFields) Len() int { return modelFields(l.m) }
func (l *reflFields) Get(i int) protoreflect.FieldDescriptor {
	return &reflField{m: l.m, i: i}
}
func (l *reflFields) ByName(n protoreflect.Name) protoreflect.FieldDescriptor {
	if i := modelFieldNamed(l.m, string(n)); i >= 0 {
		return &reflField{m: l.m, i: i}
	}
	return nil
}

type reflList struct {
	protoreflect.List
	v *reflVal
}

func (l *reflList) Len() int { return modelLen(l.v.m, l.v.i) }
func (l *reflList) Get(k int) protoreflect.Value {
	return modelToValue(&reflVal{m: l.v.m, i: l.v.i, elem: true, k: k})
}

// ModelValueMessage models protoreflect.Value.Message.
func ModelValueMessage(v protoreflect.Value) protoreflect.Message {
	return &reflMsg{m: modelFromValue(v).msg()}
}

// ModelValueList models protoreflect.Value.List.
func ModelValueList(v protoreflect.Value) protoreflect.List { return &reflList{v: modelFromValue(v)} }

// ModelValueOfMessage models protoreflect.ValueOfMessage.
func ModelValueOfMessage(m protoreflect.Message) protoreflect.Value {
	return modelToValue(&reflVal{m: m.Interface(), i: -1})
}

// ModelMaskIsValid models fieldmaskpb.FieldMask.IsValid.
func ModelMaskIsValid(x *fieldmaskpb.FieldMask, m proto.Message) bool {
	for _, p := range x.GetPaths() {
		if !modelValidPath(m, p) {
			return false
		}
	}
	return true
}

// ModelMaskNormalize models fieldmaskpb.FieldMask.Normalize.
func ModelMaskNormalize(x *fieldmaskpb.FieldMask) { x.Paths = modelNormal(x.Paths) }

// ModelMaskUnion models fieldmaskpb.Union.
func ModelMaskUnion(mx, my *fieldmaskpb.FieldMask, ms ...*fieldmaskpb.FieldMask) *fieldmaskpb.FieldMask {
	var l []string
	l = append(append(l, mx.GetPaths()...), my.GetPaths()...)
	for _, m := range ms {
		l = append(l, m.GetPaths()...)
	}
	return &fieldmaskpb.FieldMask{Paths: modelNormal(l)}
}

// ModelNestedMask models fmutils.NestedMaskFromPaths.
func ModelNestedMask(paths []string) fmutils.NestedMask {
	mask := make(fmutils.NestedMask)
	for _, p := range paths {
		curr := mask
		for _, n := range modelSplit(p) {
			c, ok := curr[n]
			if !ok {
				c = make(fmutils.NestedMask)
				curr[n] = c
			}
			curr = c
		}
	}
	return mask
}
