package gv

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/smart-core-os/sc-golang/internal/gv/gvy"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

var notes []string

// Note adds to the description of this run, which is shown if it fails.
func Note(a ...any) { notes = append(notes, fmt.Sprint(a...)) }

// Gen generates small inputs for running contracts.
type Gen struct {
	R    *rand.Rand
	Seed int64 // consecutive runs have consecutive ones
	Size int
	pool map[reflect.Type][]reflect.Value
}

var cur *Gen

func NewGen(seed int64) *Gen {
	return &Gen{R: rand.New(rand.NewSource(seed)), Seed: seed, Size: 3, pool: map[reflect.Type][]reflect.Value{}}
}

// Any is an arbitrary ghost value.
func Any[T any](name string) T {
	if cur == nil {
		cur = NewGen(1)
	}
	var t T
	v, ok := cur.Value(reflect.TypeOf(&t).Elem(), 0)
	if !ok {
		panic(skip{})
	}
	return v.Interface().(T)
}

var smallInts = []int64{0, 0, 1, 1, 2, 2, 3, 4, 5, 7, 10, -1, -2, -3, 50, 51, 999999999, 1000000000, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64}
var smallStrs = []string{"", "a", "a", "b", "b", "c", "d", "ab", "\x00", "z", "é", "zz"}
var smallFloats = []float64{0, 1, 1, 2, 3, -1, -2, 0.5, 10, 100, 1e9, math.Inf(1), math.Inf(-1), math.NaN()}

func (g *Gen) Int() int64 {
	n := len(smallInts)
	if g.R.Intn(4) > 0 {
		n = 11
	}
	if g.R.Intn(20) == 0 {
		return int64(g.R.Uint64())
	}
	return smallInts[g.R.Intn(n)]
}
func (g *Gen) Str() string { return smallStrs[g.R.Intn(len(smallStrs))] }
func (g *Gen) Float() float64 {
	if g.R.Intn(3) > 0 {
		return float64(g.R.Intn(5))
	}
	return smallFloats[g.R.Intn(len(smallFloats))]
}

func (g *Gen) Dur() time.Duration {
	switch g.R.Intn(6) {
	case 0:
		return time.Duration(g.Int())
	case 1:
		return 0
	}
	return time.Duration(g.R.Intn(8)) * time.Second
}

func (g *Gen) Time() time.Time {
	if g.R.Intn(10) == 0 {
		return time.Time{}
	}
	return time.Unix(int64(g.R.Intn(8)), int64([]int{0, 0, 0, 1, 999999999}[g.R.Intn(5)]))
}

// Message populates a message.
func (g *Gen) Message(m protoreflect.Message, depth int) {
	switch x := m.Interface().(type) {
	case *timestamppb.Timestamp:
		x.Seconds = int64(g.R.Intn(7))
		if g.R.Intn(10) == 0 {
			x.Seconds = int64(g.R.Uint64())
		}
		x.Nanos = []int32{0, 0, 0, 1, 999999999}[g.R.Intn(5)]
		return
	case *durationpb.Duration:
		x.Seconds = int64(g.R.Intn(7))
		if g.R.Intn(4) == 0 {
			x.Nanos = []int32{0, 0, 0, 1, 999999999}[g.R.Intn(5)]
		}
		return
	}
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		p := 2
		if depth > 1 {
			p = 4
		}
		if depth > 3 && f.Message() != nil || g.R.Intn(p) == 0 {
			continue
		}
		switch {
		case f.IsMap():
			mp := m.Mutable(f).Map()
			for k := g.R.Intn(g.Size); k > 0; k-- {
				kk := g.scalar(f.MapKey())
				if f.MapValue().Message() != nil {
					v := mp.NewValue()
					g.Message(v.Message(), depth+1)
					mp.Set(kk.MapKey(), v)
				} else {
					mp.Set(kk.MapKey(), g.scalar(f.MapValue()))
				}
			}
		case f.IsList():
			l := m.Mutable(f).List()
			for k := g.R.Intn(g.Size + 1); k > 0; k-- {
				if f.Message() != nil {
					v := l.NewElement()
					g.Message(v.Message(), depth+1)
					l.Append(v)
				} else {
					l.Append(g.scalar(f))
				}
			}
		case f.Message() != nil:
			g.Message(m.Mutable(f).Message(), depth+1)
		default:
			m.Set(f, g.scalar(f))
		}
	}
}

func (g *Gen) scalar(f protoreflect.FieldDescriptor) protoreflect.Value {
	switch f.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(g.R.Intn(2) == 0)
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(g.Str())
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes([]byte(g.Str()))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(g.Float()))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(g.Float())
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(f.Enum().Values().Get(g.R.Intn(f.Enum().Values().Len())).Number())
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(g.Int()))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(g.Int()))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(g.Int())
	default:
		return protoreflect.ValueOfUint64(uint64(g.Int()))
	}
}

var protoT = reflect.TypeOf((*proto.Message)(nil)).Elem()
var timeT = reflect.TypeOf(time.Time{})
var durT = reflect.TypeOf(time.Duration(0))

// Value generates a value of a type.
func (g *Gen) Value(t reflect.Type, depth int) (reflect.Value, bool) {
	if t == timeT {
		return reflect.ValueOf(g.Time()), true
	}
	if t == durT {
		return reflect.ValueOf(g.Dur()), true
	}
	switch t.Kind() {
	case reflect.Bool:
		return reflect.ValueOf(g.R.Intn(2) == 0).Convert(t), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return reflect.ValueOf(g.Int()).Convert(t), true
	case reflect.Float32, reflect.Float64:
		return reflect.ValueOf(g.Float()).Convert(t), true
	case reflect.String:
		return reflect.ValueOf(g.Str()).Convert(t), true
	case reflect.Slice:
		if g.R.Intn(5) == 0 {
			return reflect.Zero(t), true
		}
		n := g.R.Intn(g.Size + 2)
		s := reflect.MakeSlice(t, n, n+g.R.Intn(3))
		for i := 0; i < n; i++ {
			v, ok := g.Value(t.Elem(), depth+1)
			if !ok {
				return v, false
			}
			s.Index(i).Set(v)
		}
		return s, true
	case reflect.Pointer:
		if old := g.pool[t]; len(old) > 0 && g.R.Intn(6) == 0 { // aliasing
			return old[g.R.Intn(len(old))], true
		}
		if g.R.Intn(6) == 0 || depth > 6 {
			return reflect.Zero(t), true
		}
		p := reflect.New(t.Elem())
		if m, ok := p.Interface().(proto.Message); ok {
			g.Message(m.ProtoReflect(), depth)
		} else {
			v, ok := g.Value(t.Elem(), depth+1)
			if !ok {
				return v, false
			}
			p.Elem().Set(v)
		}
		g.pool[t] = append(g.pool[t], p)
		return p, true
	case reflect.Struct:
		v := reflect.New(t).Elem()
		for i := 0; i < t.NumField(); i++ {
			if !t.Field(i).IsExported() {
				return v, false
			}
			f, ok := g.Value(t.Field(i).Type, depth+1)
			if !ok {
				return v, false
			}
			v.Field(i).Set(f)
		}
		return v, true
	case reflect.Array:
		v := reflect.New(t).Elem()
		for i := 0; i < t.Len(); i++ {
			f, ok := g.Value(t.Elem(), depth+1)
			if !ok {
				return v, false
			}
			v.Index(i).Set(f)
		}
		return v, true
	case reflect.Map:
		v := reflect.MakeMap(t)
		for k := g.R.Intn(g.Size); k > 0; k-- {
			a, ok := g.Value(t.Key(), depth+1)
			b, ok2 := g.Value(t.Elem(), depth+1)
			if !ok || !ok2 {
				return v, false
			}
			v.SetMapIndex(a, b)
		}
		return v, true
	}
	return reflect.Zero(t), false
}

func show(vs []reflect.Value) string {
	var sb strings.Builder
	for i, v := range vs {
		if i > 0 {
			sb.WriteString(", ")
		}
		sb.WriteString(show1(v))
	}
	return sb.String()
}

var showing int

func show1(v reflect.Value) string {
	if showing++; showing > 60 { // cyclic
		showing--
		return "..."
	}
	defer func() { showing-- }()
	if !v.IsValid() {
		return "nil"
	}
	if v.Kind() == reflect.Func || v.Type() == reflect.TypeOf(&Gen{}) {
		return "..."
	}
	if v.CanInterface() {
		if m, ok := v.Interface().(proto.Message); ok {
			if v.IsNil() {
				return "nil"
			}
			return fmt.Sprintf("%s{%v}", m.ProtoReflect().Descriptor().Name(), m)
		}
	}
	switch v.Kind() {
	case reflect.Slice:
		var o []string
		for i := 0; i < v.Len(); i++ {
			o = append(o, show1(v.Index(i)))
		}
		return "[" + strings.Join(o, ", ") + "]"
	case reflect.Interface, reflect.Pointer:
		if v.Kind() == reflect.Interface || !v.IsNil() {
			return show1(v.Elem())
		}
		return "nil"
	case reflect.Map:
		var o []string
		for _, k := range v.MapKeys() {
			o = append(o, show1(k)+": "+show1(v.MapIndex(k)))
		}
		sort.Strings(o)
		return "map[" + strings.Join(o, ", ") + "]"
	case reflect.Struct:
		if v.Type() == timeT && v.CanInterface() {
			return v.Interface().(time.Time).String()
		}
		p := reflect.New(v.Type()).Elem() // addressable, to read unexported fields
		if v.CanInterface() {
			p.Set(v)
		} else if v.CanAddr() {
			p = v
		} else {
			return v.String()
		}
		var o []string
		for i := 0; i < p.NumField(); i++ {
			f := p.Field(i)
			o = append(o, p.Type().Field(i).Name+":"+show1(reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem()))
		}
		return v.Type().Name() + "{" + strings.Join(o, " ") + "}"
	case reflect.Func:
		return "func"
	}
	if v.CanInterface() {
		return fmt.Sprintf("%#v", v.Interface())
	}
	return v.String()
}

// Run executes f and classifies the outcome: ok, skip, fail, panic.
func Run(f func()) (kind, detail string) {
	frozen = nil
	kind = "ok"
	defer func() {
		switch r := recover().(type) {
		case nil:
		case skip:
			kind = "skip"
		case Failure:
			kind, detail = "fail", r.Name
		default:
			kind, detail = "panic", fmt.Sprint(r)
			for _, l := range strings.Split(string(debug.Stack()), "\n") {
				if strings.Contains(l, "/repo/") && !strings.Contains(l, "zz_gv_") {
					detail += " at " + strings.TrimSpace(l)
					break
				}
			}
		}
	}()
	f()
	return
}

// Replay runs one contract instance and prints the outcome.
func Replay(id string, f func()) {
	cur = NewGen(1)
	k, d := Run(f)
	fmt.Printf("\nGVREPLAY %s %s %q\n", id, k, d)
}

// Search runs a contract function on generated inputs until a clause fails or the budget is spent.
// runLimit bounds one execution of a contract.
// Scheduled perturbs the schedule of the runs.
var Scheduled bool

// Announced prints the input of each run before it.
var Announced bool

var runLimit = 20 * time.Second

// Shard is the number of this process, of those that run the same contracts.
var Shard, _ = strconv.Atoi(os.Getenv("GV_SHARD"))

func Search(id string, contract any, gen any, seed int64, budget time.Duration, max int) {
	fn := reflect.ValueOf(contract)
	start := time.Now()
	ran, skipped := 0, 0
	seed += int64(Shard) * 100000007
	for i := 0; i < max && time.Since(start) < budget; i++ {
		g := NewGen(seed + int64(i))
		cur = g
		var args []reflect.Value
		ok := true
		if gen != nil {
			args = reflect.ValueOf(gen).Call([]reflect.Value{reflect.ValueOf(g)})
		} else {
			for j := 0; j < fn.Type().NumIn(); j++ {
				v, o := g.Value(fn.Type().In(j), 0)
				ok = ok && o
				args = append(args, v)
			}
		}
		if !ok {
			fmt.Printf("\nGVSEARCH %s cannot-generate 0 0 %q %q\n", id, "", "")
			return
		}
		desc := fmt.Sprintf("seed %d: ", seed+int64(i)) + show(args)
		wd := time.AfterFunc(runLimit, func() { // no goroutine: contracts count them
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Printf("\nGVSEARCH %s fail %d %d %q %q\n", id, ran, skipped, "the contract terminates (still running after "+runLimit.String()+")\n"+string(buf), desc)
			os.Exit(3)
		})
		if Announced {
			fmt.Printf("\nGVRUN %s %q\n", id, desc)
		}
		notes = nil
		if Scheduled {
			gvy.Start(seed + int64(i))
		}
		k, d := Run(func() { fn.Call(args) })
		wd.Stop()
		if Announced && k == "panic" { // it's another property's
			k = "skip"
		}
		switch k {
		case "skip":
			skipped++
			continue
		case "fail", "panic":
			for _, n := range notes {
				desc += "\n      " + n
			}
			fmt.Printf("\nGVSEARCH %s %s %d %d %q %q\n", id, k, ran, skipped, d, desc)
			return
		}
		ran++
	}
	fmt.Printf("\nGVSEARCH %s ok %d %d %q %q\n", id, ran, skipped, "", "")
}

var _ = os.Getenv
