// Package gvall has what the contracts about all the traits share: the services, the models, and a driver that calls
// their functions with generated arguments.
package gvall

import (
	"context"
	"fmt"
	"io"
	"reflect"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

var ids = []string{"a", "b", "c"}

// versions that were seen, which requests are generated to mention.
var versions []string

// ids that were generated, which requests are generated to mention.
var made []string

// forget what was seen in another run.
func forget() { versions, made = nil, nil }

// seen remembers the versions and the ids that m mentions.
func seen(m proto.Message) {
	if f := m.ProtoReflect().Descriptor().Fields().ByName("id"); f != nil && f.Kind() == protoreflect.StringKind {
		if id := m.ProtoReflect().Get(f).String(); id != "" && !slices.Contains(ids, id) && !slices.Contains(made, id) && len(made) < 3 {
			made = append(made, id)
		}
	}
	m.ProtoReflect().Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		if f.Name() == "version" && f.Kind() == protoreflect.StringKind {
			versions = append(versions, v.String())
		}
		return true
	})
}

// ID is one of few ids.
func ID(g *gv.Gen) string { return ids[g.R.Intn(len(ids))] }

// key is what names an item: in half of the runs mostly one.
func key(g *gv.Gen) string {
	if len(made) > 0 && g.R.Intn(2) == 0 {
		return made[g.R.Intn(len(made))]
	}
	if g.Seed>>5&1 == 0 && g.R.Intn(4) > 0 {
		return ids[0]
	}
	return ID(g)
}

func pathsOf(g *gv.Gen, d protoreflect.MessageDescriptor) []string {
	r := []string{}
	if d == nil || d.Fields().Len() == 0 {
		return r
	}
	for i := g.R.Intn(4); i > 0; i-- {
		r = append(r, string(d.Fields().Get(g.R.Intn(d.Fields().Len())).Name()))
	}
	return r
}

// resourceOf is the resource a request message is about, as far as one can tell.
func resourceOf(d protoreflect.MessageDescriptor, out protoreflect.MessageDescriptor) protoreflect.MessageDescriptor {
	for i := 0; i < d.Fields().Len(); i++ {
		f := d.Fields().Get(i)
		if m := f.Message(); m != nil && !f.IsMap() && !strings.HasPrefix(string(m.FullName()), "google.") && m.ParentFile().Package() == d.ParentFile().Package() {
			return m
		}
	}
	if out == nil {
		return nil
	}
	if fs := out.Fields(); strings.HasSuffix(string(out.Name()), "Response") {
		for i := 0; i < fs.Len(); i++ {
			f := fs.Get(i)
			if m := f.Message(); m != nil && f.IsList() {
				if m.Name() == "Change" {
					for _, n := range []protoreflect.Name{"new_value"} {
						if v := m.Fields().ByName(n); v != nil {
							return v.Message()
						}
					}
					for j := m.Fields().Len() - 1; j >= 0; j-- {
						if v := m.Fields().Get(j).Message(); v != nil && !strings.HasPrefix(string(v.FullName()), "google.") {
							return v
						}
					}
				}
				return m
			}
		}
	}
	return out
}

// Fill populates a message with few, small values, so that calls have something to do with each other.
// out is the response of the method m is the request of, or nil.
func Fill(g *gv.Gen, m protoreflect.Message, out protoreflect.MessageDescriptor, depth int) {
	switch x := m.Interface().(type) {
	case *timestamppb.Timestamp:
		x.Seconds = int64(g.R.Intn(6)) + 1
		return
	case *durationpb.Duration:
		x.Seconds = int64(g.R.Intn(6))
		return
	case *fieldmaskpb.FieldMask:
		return
	}
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		name := string(f.Name())
		switch {
		case f.Message() != nil && f.Message().FullName() == "google.protobuf.FieldMask":
			if g.R.Intn(3) == 0 {
				mask := &fieldmaskpb.FieldMask{Paths: pathsOf(g, resourceOf(m.Descriptor(), out))}
				if g.R.Intn(8) == 0 {
					mask.Paths = append(mask.Paths, "nosuch")
				}
				m.Set(f, protoreflect.ValueOfMessage(mask.ProtoReflect()))
			}
			continue
		case name == "page_token" || name == "page_size":
			continue
		case name == "version" && f.Kind() == protoreflect.StringKind && len(versions) > 0 && g.R.Intn(8) > 0:
			n := len(versions)
			if g.R.Intn(2) > 0 {
				n = min(n, 2)
			}
			m.Set(f, protoreflect.ValueOfString(versions[len(versions)-1-g.R.Intn(n)]))
			continue
		case f.ContainingOneof() != nil && g.R.Intn(2) == 0:
			continue
		case f.Kind() == protoreflect.StringKind && !f.IsList() && !f.IsMap() && (name == "id" || name == "name" || strings.HasSuffix(name, "_id") || name == "consumable" || name == "preset"):
			if g.R.Intn(6) > 0 {
				m.Set(f, protoreflect.ValueOfString(key(g)))
			}
			continue
		}
		if g.R.Intn(3) == 0 && depth > 0 || depth > 3 && f.Message() != nil || depth == 0 && g.R.Intn(8) == 0 {
			continue
		}
		switch {
		case f.IsMap():
			mp := m.Mutable(f).Map()
			for k := g.R.Intn(3); k > 0; k-- {
				kk := small(g, f.MapKey())
				if f.MapValue().Message() != nil {
					v := mp.NewValue()
					Fill(g, v.Message(), nil, depth+1)
					mp.Set(kk.MapKey(), v)
				} else {
					mp.Set(kk.MapKey(), small(g, f.MapValue()))
				}
			}
		case f.IsList():
			l := m.Mutable(f).List()
			for k := g.R.Intn(3); k > 0; k-- {
				if f.Message() != nil {
					v := l.NewElement()
					Fill(g, v.Message(), nil, depth+1)
					l.Append(v)
				} else {
					l.Append(small(g, f))
				}
			}
		case f.Message() != nil:
			Fill(g, m.Mutable(f).Message(), nil, depth+1)
		default:
			m.Set(f, small(g, f))
		}
	}
}

func small(g *gv.Gen, f protoreflect.FieldDescriptor) protoreflect.Value {
	n := g.R.Intn(4)
	switch f.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(g.R.Intn(2) == 0)
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(ID(g))
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes([]byte(ID(g)))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(n) * 20)
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(float64(n) * 20)
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(f.Enum().Values().Get(g.R.Intn(f.Enum().Values().Len())).Number())
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(n))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(n))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(int64(n))
	default:
		return protoreflect.ValueOfUint64(uint64(n))
	}
}

// ---- methods of services

// Method is one method of a service.
type Method struct {
	Name     string
	In, Out  protoreflect.MessageDescriptor
	Streams  bool // server streaming
	CStreams bool
	unary    *grpc.MethodDesc
	stream   *grpc.StreamDesc
}

// MethodsOf are the methods of a service, as its API descriptor has them.
func MethodsOf(d grpc.ServiceDesc) []Method {
	x, err := protoregistry.GlobalFiles.FindDescriptorByName(protoreflect.FullName(d.ServiceName))
	if err != nil {
		panic(err)
	}
	var r []Method
	ms := x.(protoreflect.ServiceDescriptor).Methods()
	for i := 0; i < ms.Len(); i++ {
		m := ms.Get(i)
		k := Method{Name: string(m.Name()), In: m.Input(), Out: m.Output(), Streams: m.IsStreamingServer(), CStreams: m.IsStreamingClient()}
		for j := range d.Methods {
			if d.Methods[j].MethodName == k.Name {
				k.unary = &d.Methods[j]
			}
		}
		for j := range d.Streams {
			if d.Streams[j].StreamName == k.Name {
				k.stream = &d.Streams[j]
			}
		}
		r = append(r, k)
	}
	return r
}

// New is a new message.
func New(d protoreflect.MessageDescriptor) proto.Message {
	t, err := protoregistry.GlobalTypes.FindMessageByName(d.FullName())
	if err != nil {
		panic(err)
	}
	return t.New().Interface()
}

// Request is a generated request of the method.
func (m Method) Request(g *gv.Gen) proto.Message {
	r := New(m.In)
	Fill(g, r.ProtoReflect(), m.Out, 0)
	return r
}

// Call calls a unary method of srv, directly.
func (m Method) Call(ctx context.Context, srv any, req proto.Message) (proto.Message, error) {
	res, err := m.unary.Handler(srv, ctx, func(dst any) error {
		proto.Merge(dst.(proto.Message), req)
		return nil
	}, nil)
	if err != nil {
		return nil, err
	}
	return res.(proto.Message), nil
}

// Serve calls a server streaming method of srv, directly.
func (m Method) Serve(srv any, ss grpc.ServerStream) error { return m.stream.Handler(srv, ss) }

// ServerStream is what a server streaming method sends to.
type ServerStream struct {
	Ctx      context.Context
	Req      proto.Message
	OnSend   func(proto.Message) error
	OnHeader func()
	mu       sync.Mutex
	Header   metadata.MD
	Headers  int // times it was sent
	Trailer  metadata.MD
}

func (s *ServerStream) SetHeader(md metadata.MD) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Header = metadata.Join(s.Header, md)
	return nil
}
func (s *ServerStream) SendHeader(md metadata.MD) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Header = metadata.Join(s.Header, md)
	s.Headers++
	if s.OnHeader != nil {
		s.OnHeader()
	}
	return nil
}
func (s *ServerStream) SetTrailer(md metadata.MD) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Trailer = metadata.Join(s.Trailer, md)
}
func (s *ServerStream) Context() context.Context { return s.Ctx }
func (s *ServerStream) SendMsg(m any) error {
	if s.OnSend == nil {
		return nil
	}
	return s.OnSend(m.(proto.Message))
}
func (s *ServerStream) RecvMsg(m any) error {
	if s.Req == nil {
		return io.EOF
	}
	proto.Merge(m.(proto.Message), s.Req)
	return nil
}

// ---- methods of models

var (
	ctxT    = reflect.TypeOf((*context.Context)(nil)).Elem()
	protoT  = reflect.TypeOf((*proto.Message)(nil)).Elem()
	readT   = reflect.TypeOf((*resource.ReadOption)(nil)).Elem()
	writeT  = reflect.TypeOf((*resource.WriteOption)(nil)).Elem()
	stringT = reflect.TypeOf("")
	timeT   = reflect.TypeOf(time.Time{})
	errT    = reflect.TypeOf((*error)(nil)).Elem()
)

// Arg generates an argument of a method of a model.
func Arg(g *gv.Gen, ctx context.Context, t reflect.Type, about protoreflect.MessageDescriptor, deep func(proto.Message)) (reflect.Value, bool) {
	switch {
	case t == ctxT:
		return reflect.ValueOf(ctx), true
	case t == timeT:
		return reflect.ValueOf(time.Unix(int64(g.R.Intn(6)), 0)), true
	case t == readT:
		switch g.R.Intn(3) {
		case 0:
			return reflect.ValueOf(resource.WithUpdatesOnly(g.R.Intn(2) == 0)), true
		case 1:
			return reflect.ValueOf(resource.WithBackpressure(g.R.Intn(2) == 0)), true
		}
		return reflect.ValueOf(resource.WithReadMask(&fieldmaskpb.FieldMask{Paths: pathsOf(g, about)})), true
	case t == writeT:
		switch g.R.Intn(5) {
		case 0:
			return reflect.ValueOf(resource.WithAllowMissing(true)), true
		case 1:
			return reflect.ValueOf(resource.WithCreateIfAbsent()), true
		case 2:
			f := func(old, new proto.Message) { deep(old); deep(new) }
			if g.R.Intn(2) == 0 {
				return reflect.ValueOf(resource.InterceptBefore(f)), true
			}
			return reflect.ValueOf(resource.InterceptAfter(f)), true
		case 3:
			return reflect.ValueOf(resource.WithExpectedCheck(func(m proto.Message) error { deep(m); return nil })), true
		}
		return reflect.ValueOf(resource.WithUpdateMask(&fieldmaskpb.FieldMask{Paths: pathsOf(g, about)})), true
	case t.Implements(protoT) && t.Kind() == reflect.Pointer:
		m := reflect.New(t.Elem())
		Fill(g, m.Interface().(proto.Message).ProtoReflect(), nil, 0)
		return m, true
	}
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		v.SetString(ID(g))
		if t == stringT {
			v.SetString(key(g))
		}
	case reflect.Bool:
		v.SetBool(g.R.Intn(2) == 0)
	case reflect.Int, reflect.Int32, reflect.Int64, reflect.Int16, reflect.Int8:
		v.SetInt(int64(g.R.Intn(4)))
	case reflect.Uint, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(g.R.Intn(4)))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(g.R.Intn(4)) * 20)
	case reflect.Slice:
		for i := g.R.Intn(4); i > 0; i-- {
			e, ok := Arg(g, ctx, t.Elem(), about, deep)
			if !ok {
				return v, false
			}
			v.Set(reflect.Append(v, e))
		}
	default:
		return v, false
	}
	return v, true
}

// Invocation is a call of a method of a model, with its arguments.
type Invocation struct {
	Name string
	f    reflect.Value
	args []reflect.Value
}

// Msgs are the messages among the arguments.
func (c Invocation) Msgs() []proto.Message {
	var r []proto.Message
	for _, a := range c.args {
		Messages(a, func(m proto.Message) { r = append(r, m) })
	}
	return r
}

// Messages calls f with the messages in v.
func Messages(v reflect.Value, f func(proto.Message)) {
	if !v.IsValid() {
		return
	}
	if v.Type().Implements(protoT) {
		if (v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface) && !v.IsNil() {
			f(v.Interface().(proto.Message))
		}
		return
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			Messages(v.Index(i), f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				Messages(v.Field(i), f)
			}
		}
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() && v.Type() != ctxT && v.Type() != errT {
			Messages(v.Elem(), f)
		}
	}
}

// Invoke generates a call of the i'th method of model, if it is a method that can be called.
func Invoke(g *gv.Gen, ctx context.Context, model any, i int, deep func(proto.Message)) (Invocation, bool) {
	v := reflect.ValueOf(model)
	m := v.Type().Method(i)
	c := Invocation{Name: m.Name, f: v.Method(i)}
	t := c.f.Type()
	var about protoreflect.MessageDescriptor
	look := func(t reflect.Type) {
		if about != nil {
			return
		}
		for t.Kind() == reflect.Slice || t.Kind() == reflect.Chan {
			t = t.Elem()
		}
		if t.Kind() == reflect.Struct {
			for i := 0; i < t.NumField(); i++ {
				if t.Field(i).Type.Implements(protoT) {
					t = t.Field(i).Type
					break
				}
			}
		}
		if t.Kind() == reflect.Pointer && t.Implements(protoT) {
			about = reflect.New(t.Elem()).Interface().(proto.Message).ProtoReflect().Descriptor()
		}
	}
	for j := 0; j < t.NumOut(); j++ {
		look(t.Out(j))
	}
	for j := 0; j < t.NumIn(); j++ {
		look(t.In(j))
	}
	for j := 0; j < t.NumIn(); j++ {
		a, ok := Arg(g, ctx, t.In(j), about, deep)
		if !ok {
			return c, false
		}
		c.args = append(c.args, a)
	}
	return c, true
}

// Do makes the call. Messages it returns, or sends to channels it returns, are passed to got.
func (c Invocation) Do(wg *sync.WaitGroup, got func(proto.Message)) (err error) {
	return c.DoWith(wg, got, got)
}

// DoWith makes the call. Messages it returns are passed to got, and those sent to channels it returns to sent.
func (c Invocation) DoWith(wg *sync.WaitGroup, sent, got func(proto.Message)) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	call := c.f.Call
	if c.f.Type().IsVariadic() {
		call = c.f.CallSlice
	}
	for _, r := range call(c.args) {
		if r.Type() == errT {
			if !r.IsNil() {
				err = r.Interface().(error)
			}
			continue
		}
		if r.Kind() == reflect.Chan {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					v, ok := r.Recv()
					if !ok {
						return
					}
					Messages(v, sent)
				}
			}()
			continue
		}
		Messages(r, got)
	}
	return err
}
