package resource

import (
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// ---- histories of overlapping calls, and the orders that explain them

const (
	opSet    = iota // update, replacing both fields
	opMask          // update of one field
	opInc           // read, modify, write: adds to one field in an interceptor after the write
	opRel           // read, modify, write: as opInc, in an interceptor before the write
	opAdd           // add
	opGen           // add with a generated id
	opDelete        //
	opGet           //
	opList          //
	opKinds
)

var errWants = errors.New("not wanted")

// pair is the contents of a message of these contracts.
type pair struct{ a, b int32 }

func (p pair) msg() *testproto.TestAllTypes {
	return &testproto.TestAllTypes{DefaultInt32: p.a, DefaultSint32: p.b}
}

func pairOf(m proto.Message) pair {
	t := m.(*testproto.TestAllTypes)
	return pair{t.DefaultInt32, t.DefaultSint32}
}

type op struct {
	kind   int
	id     string
	p      pair
	create bool // or allow missing, when deleting
	absent bool
	wants  *pair // expected value
	even   bool  // expected check: a is even
	pauses []int // before the call, in the first callback, and so on
	inner  [][]op
}

// store is a state of the model: the contents and the order of nothing else.
type store map[string]pair

func (s store) key() string {
	ids := make([]string, 0, len(s))
	for id := range s {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	r := ""
	for _, id := range ids {
		r += fmt.Sprint(id, s[id])
	}
	return r
}

func (s store) with(id string, p *pair) store {
	r := store{}
	for k, v := range s {
		r[k] = v
	}
	if p == nil {
		delete(r, id)
	} else {
		r[id] = *p
	}
	return r
}

// result of a call.
type result struct {
	op         op
	id         string // the id reported, of generated ids
	p          *pair  // the message returned
	list       []pair
	err        error
	began, end int64
}

func (r *result) writes() bool { return r.op.kind != opGet && r.op.kind != opList }

// lost: the call may have failed because it lost a race.
func (r *result) lost(all []*result) bool {
	switch status.Code(r.err) {
	case codes.Aborted, codes.AlreadyExists, codes.FailedPrecondition, codes.NotFound, codes.Unavailable:
	default:
		return false
	}
	if r.err == nil || !r.writes() {
		return false
	}
	for _, o := range all {
		if o != r && o.writes() && o.began < r.end && r.began < o.end && (o.op.id == r.op.id || o.op.kind == opGen && r.op.kind == opGen) {
			return true
		}
	}
	return false
}

func (o op) refuses(old pair) bool {
	return o.wants != nil && *o.wants != old || o.even && old.a%2 != 0
}

// refused: err is that of a precondition that old doesn't satisfy.
func (o op) refused(old pair, err error) bool {
	return err != nil && (o.wants != nil && *o.wants != old && status.Code(err) == codes.FailedPrecondition || o.even && old.a%2 != 0 && sameErr(err, errWants))
}

// step is the state after the call r, if r is what the call does in state s.
func (r *result) step(s store) (store, bool) {
	id := r.op.id
	if r.op.kind == opGen {
		id = r.id
	}
	old, exists := s[id]
	failed := func(c codes.Code) (store, bool) { return s, r.err != nil && status.Code(r.err) == c }
	switch r.op.kind {
	case opGet:
		return s, r.err == nil && exists == (r.p != nil) && (!exists || *r.p == old)
	case opList:
		ids := make([]string, 0, len(s))
		for id := range s {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		ok := r.err == nil && len(ids) == len(r.list)
		for i := 0; ok && i < len(ids); i++ {
			ok = r.list[i] == s[ids[i]]
		}
		return s, ok
	case opDelete:
		if !exists {
			if r.op.create {
				return s, r.err == nil && r.p == nil
			}
			return failed(codes.NotFound)
		}
		if r.op.refuses(old) {
			return s, r.op.refused(old, r.err)
		}
		return s.with(id, nil), r.err == nil && r.p != nil && *r.p == old
	}
	add := r.op.kind == opAdd || r.op.kind == opGen
	if exists && (add || r.op.absent) {
		return failed(codes.AlreadyExists)
	}
	if !exists && !add && !r.op.create {
		return failed(codes.NotFound)
	}
	if r.op.refuses(old) {
		return s, r.op.refused(old, r.err)
	}
	now := r.op.p
	switch r.op.kind {
	case opMask:
		now.b = old.b
	case opInc:
		now = pair{old.a, old.b + 1}
	case opRel:
		now = pair{old.a + r.op.p.a, old.b}
	}
	return s.with(id, &now), r.err == nil && r.p != nil && *r.p == now
}

// explained: some order of the calls, consistent with when they began and ended, gives each its result and ends in final.
func explained(s store, all []*result, final store) bool {
	tried := map[string]bool{}
	lost := make([]bool, len(all))
	for i, r := range all {
		lost[i] = r.lost(all)
	}
	var try func(s store, done []bool, left int) bool
	try = func(s store, done []bool, left int) bool {
		if left == 0 {
			return s.key() == final.key()
		}
		key := fmt.Sprint(done, s.key())
		if tried[key] {
			return false
		}
		tried[key] = true
		first := int64(1) << 62 // a call that ended before another began comes before it
		for i, r := range all {
			if !done[i] && r.end < first {
				first = r.end
			}
		}
		for i, r := range all {
			if done[i] || r.began > first {
				continue
			}
			done[i] = true
			if next, ok := r.step(s); ok && try(next, done, left-1) {
				return true
			}
			if lost[i] && try(s, done, left-1) {
				return true
			}
			done[i] = false
		}
		return false
	}
	return try(s, make([]bool, len(all)), len(all))
}

// ---- running calls

type runner struct {
	c   *Collection
	v   *Value
	now atomic.Int64
	mu  sync.Mutex
	all []*result
}

// inside a callback of the call: pauses, and does what the call has to suffer.
func (w *runner) inside(o op, calls *int) {
	n := *calls
	*calls++
	if n+1 < len(o.pauses) {
		nap(o.pauses[n+1])
	}
	if n < len(o.inner) {
		for _, i := range o.inner[n] {
			w.do(i)
		}
	}
}

func (w *runner) do(o op) {
	r := &result{op: o}
	calls := 0
	var wo []WriteOption
	if o.wants != nil {
		wo = append(wo, WithExpectedValue(o.wants.msg()))
	}
	if o.even || len(o.inner) > 0 && o.kind == opDelete {
		wo = append(wo, WithExpectedCheck(func(m proto.Message) error {
			p := pairOf(m)
			w.inside(o, &calls)
			if o.even && p.a%2 != 0 {
				return errWants
			}
			return nil
		}))
	}
	if o.absent {
		wo = append(wo, WithExpectAbsent())
	}
	if o.create {
		wo = append(wo, WithCreateIfAbsent(), WithAllowMissing(true))
	}
	msg := o.p.msg()
	switch o.kind {
	case opMask:
		wo = append(wo, WithUpdatePaths("default_int32"))
	case opInc, opRel:
	default:
		if len(o.inner) > 0 {
			wo = append(wo, InterceptAfter(func(old, new proto.Message) { w.inside(o, &calls) }))
		}
	}
	switch o.kind {
	case opInc:
		wo = append(wo, WithUpdatePaths("default_sint32"), InterceptAfter(func(old, new proto.Message) {
			new.(*testproto.TestAllTypes).DefaultSint32 = 1
			if old != nil {
				new.(*testproto.TestAllTypes).DefaultSint32 = old.(*testproto.TestAllTypes).DefaultSint32 + 1
			}
			w.inside(o, &calls)
		}))
	case opRel:
		wo = append(wo, WithUpdatePaths("default_int32"), InterceptBefore(func(old, change proto.Message) {
			w.inside(o, &calls)
			if old != nil {
				change.(*testproto.TestAllTypes).DefaultInt32 += old.(*testproto.TestAllTypes).DefaultInt32
			}
		}))
	case opGen:
		wo = append(wo, WithGenIDIfAbsent(), WithIDCallback(func(id string) { r.id = id }))
	}
	if len(o.pauses) > 0 {
		nap(o.pauses[0])
	}
	w.mu.Lock()
	w.all = append(w.all, r)
	w.mu.Unlock()
	var m proto.Message
	r.began = w.now.Add(1)
	if w.v != nil {
		switch o.kind {
		case opGet, opList:
			m = w.v.Get()
		default:
			m, r.err = w.v.Set(msg, wo...)
		}
	} else {
		switch o.kind {
		case opGet:
			m, _ = w.c.Get(o.id)
		case opList:
			for _, m := range w.c.List() {
				r.list = append(r.list, pairOf(m))
			}
		case opDelete:
			m, r.err = w.c.Delete(o.id, wo...)
		case opAdd:
			m, r.err = w.c.Add(o.id, msg, wo...)
		case opGen:
			m, r.err = w.c.Add("", msg, wo...)
		default:
			m, r.err = w.c.Update(o.id, msg, wo...)
		}
	}
	r.end = w.now.Add(1)
	if m != nil {
		p := pairOf(m)
		r.p = &p
	}
}

func (w *runner) contents(ids []string) store {
	s := store{}
	for _, id := range ids {
		if m, ok := w.c.Get(id); ok {
			s[id] = pairOf(m)
		}
	}
	return s
}

// ---- inputs

type mixed struct {
	initial store
	tracks  [][]op
	seed    int64
	lowRand bool
}

func gvPair(g *gv.Gen) pair { return pair{int32(g.R.Intn(3)), int32(g.R.Intn(2))} }

func gvOp(g *gv.Gen, ids []string, value bool) op {
	o := op{kind: g.R.Intn(opKinds), id: ids[g.R.Intn(len(ids))], p: gvPair(g)}
	for value && (o.kind == opAdd || o.kind == opGen || o.kind == opDelete || o.kind == opList) {
		o.kind = g.R.Intn(opKinds)
	}
	o.create = g.R.Intn(2) == 0
	if value {
		o.id, o.create = "", true
	} else {
		o.absent = g.R.Intn(8) == 0
	}
	if o.kind != opAdd && o.kind != opGen {
		if g.R.Intn(4) == 0 {
			p := gvPair(g)
			o.wants = &p
		}
		o.even = g.R.Intn(4) == 0
	}
	for i := 0; i < 4; i++ {
		o.pauses = append(o.pauses, gvNap(g))
	}
	return o
}

func gvMixed(g *gv.Gen, value bool) mixed {
	h := mixed{initial: store{}, seed: g.R.Int63(), lowRand: g.R.Intn(2) == 0}
	ids := []string{"a", "b", "c"}[:1+g.R.Intn(2)]
	for i := g.R.Intn(3); i > 0; i-- {
		h.initial[ids[g.R.Intn(len(ids))]] = gvPair(g)
	}
	if value {
		h.initial = store{"": gvPair(g)}
	}
	for i := 2 + g.R.Intn(3); i > 0; i-- {
		var t []op
		for n := 1 + g.R.Intn(4); n > 0; n-- {
			t = append(t, gvOp(g, ids, value))
		}
		h.tracks = append(h.tracks, t)
	}
	return h
}

// gvInside has one call, with others made inside its callbacks.
func gvInside(g *gv.Gen, value bool) mixed {
	h := gvMixed(g, value)
	ids := []string{"a", "b"}[:1+g.R.Intn(2)]
	o := gvOp(g, ids, value)
	for o.kind == opGet || o.kind == opList {
		o = gvOp(g, ids, value)
	}
	o.pauses = nil
	for i := 1 + g.R.Intn(6); i > 0; i-- {
		var is []op
		for n := 1 + g.R.Intn(3); n > 0; n-- {
			i := gvOp(g, ids, value)
			i.pauses = nil
			is = append(is, i)
		}
		o.inner = append(o.inner, is)
	}
	h.tracks = [][]op{{o}}
	return h
}

func gvg_MixedCollection(g *gv.Gen) mixed     { return gvMixed(g, false) }
func gvg_MixedValue(g *gv.Gen) mixed          { return gvMixed(g, true) }
func gvg_OvertakenCollection(g *gv.Gen) mixed { return gvInside(g, false) }
func gvg_OvertakenValue(g *gv.Gen) mixed      { return gvInside(g, true) }

func (h mixed) play(w *runner) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, t := range h.tracks {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, o := range t {
				w.do(o)
			}
		}()
	}
	close(start)
	ended := make(chan struct{})
	go func() { wg.Wait(); close(ended) }()
	select {
	case <-ended:
	case <-time.After(10 * time.Second):
		gv.Ensures("every call returns", false)
	}
}

func (h mixed) collection() {
	opts := []Option{}
	if h.lowRand {
		opts = append(opts, WithRNG(zeros{}))
	} else {
		opts = append(opts, WithRNG(rand.New(rand.NewSource(h.seed))))
	}
	for id, p := range h.initial {
		opts = append(opts, WithInitialRecord(id, p.msg()))
	}
	w := &runner{c: NewCollection(opts...)}
	h.play(w)
	ids := []string{"a", "b", "c"}
	for _, r := range w.all {
		if r.op.kind == opGen {
			gv.Ensures("a generated id is reported", r.err != nil || r.id != "")
			if r.err == nil {
				ids = append(ids, r.id)
			}
		}
	}
	gv.Ensures("some order of the calls explains their results and the final contents", explained(h.initial, w.all, w.contents(ids)))
	gv.Ensures("the collection has nothing else", len(w.c.List()) == len(w.contents(ids)))
}

// Concurrent calls have results that some order of them explains, and a call that fails has no effect.
//
//gv:property C02
//gv:for Collection.Update covers Collection.Add Collection.Delete Collection.Get Collection.List Collection.genID GetAndUpdate WriteRequest.changeFn
//gv:bounded up to 4 callers of up to 4 calls each over 2 ids, with generated ids, preconditions and interceptors; schedules perturbed at every statement of the package
//gv:sched
//gv:run 12
func gvc_MixedCollection(h mixed) { h.collection() }

// A call that others overtake at its callbacks has a result that some order of the calls explains.
//
//gv:property C02
//gv:for Collection.Delete covers Collection.Update Collection.Add Collection.Get Collection.List GetAndUpdate WriteRequest.changeFn
//gv:bounded a call, with up to 6 times up to 3 calls made inside its preconditions and interceptors
func gvc_OvertakenCollection(h mixed) { h.collection() }

func (h mixed) value() {
	w := &runner{v: NewValue(WithInitialValue(h.initial[""].msg()))}
	h.play(w)
	gv.Ensures("some order of the calls explains their results and the final value", explained(h.initial, w.all, store{"": pairOf(w.v.Get())}))
}

// Concurrent calls have results that some order of them explains, and a call that fails has no effect.
//
//gv:property C02
//gv:for Value.Set covers Value.Get GetAndUpdate WriteRequest.changeFn
//gv:bounded up to 4 callers of up to 4 calls each, with preconditions and interceptors; schedules perturbed at every statement of the package
//gv:sched
//gv:run 8
func gvc_MixedValue(h mixed) { h.value() }

// A call that others overtake at its callbacks has a result that some order of the calls explains.
//
//gv:property C02
//gv:for Value.Set covers Value.Get GetAndUpdate WriteRequest.changeFn
//gv:bounded a call, with up to 6 times up to 3 calls made inside its preconditions and interceptors
func gvc_OvertakenValue(h mixed) { h.value() }
