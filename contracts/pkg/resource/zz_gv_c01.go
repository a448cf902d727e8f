package resource

import (
	"context"
	"errors"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// GetAndUpdate reads, changes a copy, and saves it only if what is stored still equals what was read.
//
//gv:property C01
//gv:property C02
//gv:property C07
//gv:for GetAndUpdate
func gvc_GetAndUpdate(first, second, next *testproto.ForeignMessage, firstErr, changeErr, secondErr bool) {
	gv.Requires(first != nil && second != nil && next != nil)
	var mu sync.RWMutex
	e1, e2, e3 := errors.New("first read"), errors.New("change"), errors.New("second read")
	gets, changes, saves := 0, 0, 0
	var changedFrom, changing, saved proto.Message
	was := proto.Clone(first)
	old, got, err := GetAndUpdate(&mu, func() (proto.Message, error) {
		gets++
		if gets == 1 {
			if firstErr {
				return nil, e1
			}
			return first, nil
		}
		if secondErr {
			return nil, e3
		}
		return second, nil
	}, func(o, n proto.Message) (proto.Message, error) {
		changes++
		changedFrom, changing = o, n
		if changeErr {
			return nil, e2
		}
		return next, nil
	}, func(m proto.Message) {
		saves++
		saved = m
	})
	same := proto.Equal(first, second)
	ok := !firstErr && !changeErr && !secondErr && same
	gv.Ensures("succeeds exactly when both reads and the change do, and nothing changed in between", gv.Iff(err == nil, ok))
	gv.Ensures("saves once on success and never on failure", gv.Iff(saves == 1, ok) && gv.Iff(saves == 0, !ok))
	gv.Ensures("an error of the first read is returned", gv.Implies(firstErr, err == e1))
	gv.Ensures("an error of the change is returned", gv.Implies(!firstErr && changeErr, err == e2))
	gv.Ensures("an error of the second read is returned", gv.Implies(!firstErr && !changeErr && secondErr, err == e3))
	gv.Ensures("what was read is left as it was", proto.Equal(first, was))
	if !firstErr {
		gv.Ensures("the change is computed from what was read, on a copy", changes == 1 && changedFrom == proto.Message(first) && changing != proto.Message(first) && proto.Equal(changing, first))
	}
	if ok {
		gv.Reach("success")
		gv.Ensures("the changed message is saved and returned", saved == proto.Message(next) && got == proto.Message(next) && old == proto.Message(first))
	}
}

// ---- a Collection against a map

type call struct {
	kind int // update, add, delete, get, list
	id   string
	msg  *testproto.TestAllTypes

	update, reset []string
	expected      int // 0: none, 1: what is stored, 2: something else
	check         int // 0: none, 1: even default_int32, 2: fails with a status
	absent        bool
	create        bool
	missing       bool
	gen           bool
	callback      bool
	created       bool
	before, after bool
	writeTime     int
}

type history struct {
	calls     []call
	initial   map[string]*testproto.TestAllTypes
	lower     bool // an interceptor maps ids to lower case
	writable  []string
	seed      int64
	lowRandom bool // the random source has little to give
	watch     bool
}

var smallPaths = []string{"default_int32", "default_string", "default_nested_message", "default_nested_message.a", "repeated_int32", "default_float"}

func somePaths(g *gv.Gen, n int) []string {
	r := []string{}
	for i := g.R.Intn(n + 1); i > 0; i-- {
		r = append(r, smallPaths[g.R.Intn(len(smallPaths))])
	}
	return r
}

func gvCall(g *gv.Gen) call {
	c := call{kind: []int{0, 0, 0, 0, 1, 1, 2, 2, 3, 4}[g.R.Intn(10)], id: []string{"", "a", "b", "A", "B", "c"}[g.R.Intn(6)], msg: gvMsg(g)}
	if g.R.Intn(3) == 0 {
		c.update = somePaths(g, 3)
		if g.R.Intn(8) == 0 {
			c.update = append(c.update, "nosuch")
		}
	}
	if g.R.Intn(6) == 0 {
		c.reset = somePaths(g, 2)
	}
	if g.R.Intn(4) == 0 {
		c.expected = 1 + g.R.Intn(2)
	}
	if g.R.Intn(5) == 0 {
		c.check = 1 + g.R.Intn(2)
	}
	c.absent = g.R.Intn(8) == 0
	c.create = g.R.Intn(2) == 0
	c.missing = g.R.Intn(2) == 0
	c.gen = g.R.Intn(2) == 0
	c.callback = g.R.Intn(2) == 0
	c.created = g.R.Intn(2) == 0
	c.before = g.R.Intn(4) == 0
	c.after = g.R.Intn(4) == 0
	c.writeTime = []int{0, 1, 2, 1 << 30}[g.R.Intn(4)]
	return c
}

func gvg_CollectionModel(g *gv.Gen) history {
	h := history{lower: g.R.Intn(3) == 0, seed: g.R.Int63(), lowRandom: g.R.Intn(6) == 0, watch: g.R.Intn(3) == 0}
	h.initial = map[string]*testproto.TestAllTypes{}
	for i := g.R.Intn(3); i > 0; i-- {
		h.initial[gvIds[1+g.R.Intn(3)]] = gvMsg(g)
	}
	if g.R.Intn(4) == 0 {
		h.writable = somePaths(g, 4)
	}
	for i := 1 + g.R.Intn(25); i > 0; i-- {
		h.calls = append(h.calls, gvCall(g))
	}
	if h.lowRandom { // use up all the ids
		for i := 12 + g.R.Intn(6); i > 0; i-- {
			h.calls = append(h.calls, call{kind: g.R.Intn(2), msg: gvMsg(g), create: true, gen: true, callback: g.R.Intn(2) == 0})
		}
	}
	return h
}

// zeros is a source of randomness with nothing to give.
type zeros struct{}

func (zeros) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 0
	}
	return len(p), nil
}

var errOdd = errors.New("default_int32 is odd")
var errChecked = status.Error(codes.ResourceExhausted, "checked")

func (c call) expectedCheck(m proto.Message) error {
	if c.check == 2 {
		return errChecked
	}
	if m != nil && m.(*testproto.TestAllTypes).DefaultInt32%2 != 0 {
		return errOdd
	}
	return nil
}

func beforeFn(old, change proto.Message) {
	if old != nil {
		change.(*testproto.TestAllTypes).DefaultInt32 += old.(*testproto.TestAllTypes).DefaultInt32
	}
}

func afterFn(old, now proto.Message) {
	n := now.(*testproto.TestAllTypes)
	n.DefaultSint32 = 1
	if old != nil {
		n.DefaultSint32 = old.(*testproto.TestAllTypes).DefaultSint32 + 1
	}
}

// other is a message that differs from m.
func other(m proto.Message) proto.Message {
	if m == nil {
		return &testproto.TestAllTypes{DefaultInt64: 1}
	}
	r := proto.Clone(m).(*testproto.TestAllTypes)
	r.DefaultInt64++
	return r
}

// writeOptions for the call, stored is what the model has for the id.
func (c call) writeOptions(stored proto.Message, msg *testproto.TestAllTypes, ids *[]string, created *int) []WriteOption {
	var wo []WriteOption
	if c.update != nil {
		wo = append(wo, WithUpdateMask(maskOf(c.update)))
	}
	if c.reset != nil {
		wo = append(wo, WithResetPaths(c.reset...))
	}
	switch c.expected {
	case 1:
		if stored != nil {
			wo = append(wo, WithExpectedValue(proto.Clone(stored)))
		}
	case 2:
		wo = append(wo, WithExpectedValue(other(stored)))
	}
	if c.check > 0 {
		wo = append(wo, WithExpectedCheck(c.expectedCheck))
	}
	if c.absent {
		wo = append(wo, WithExpectAbsent())
	}
	if c.create {
		wo = append(wo, WithCreateIfAbsent())
	}
	if c.missing {
		wo = append(wo, WithAllowMissing(true))
	}
	if c.gen {
		wo = append(wo, WithGenIDIfAbsent())
	}
	if c.callback {
		wo = append(wo, WithIDCallback(func(id string) {
			*ids = append(*ids, id)
			if msg != nil {
				msg.DefaultString = id
			}
		}))
	}
	if c.created {
		wo = append(wo, WithCreatedCallback(func() { *created++ }))
	}
	if c.before {
		wo = append(wo, InterceptBefore(beforeFn))
	}
	if c.after {
		wo = append(wo, InterceptAfter(afterFn))
	}
	if c.writeTime > 0 {
		wo = append(wo, WithWriteTime(time.Unix(int64(c.writeTime), 0)))
	}
	return wo
}

// outcome of the write of msg over old (nil: absent) after preconditions on presence: the message to store or an error.
// The error is compared by code, or by identity if it has none.
func (c call) write(old proto.Message, msg proto.Message, writable []string) (proto.Message, error) {
	base := old
	if base == nil {
		base = &testproto.TestAllTypes{}
	}
	switch c.expected {
	case 1:
		if old == nil {
			break // no expectation was given
		}
	case 2:
		return nil, status.Error(codes.FailedPrecondition, "")
	}
	if c.check > 0 {
		if err := c.expectedCheck(base); err != nil {
			return nil, err
		}
	}
	msg = proto.Clone(msg)
	if c.before {
		beforeFn(base, msg)
	}
	r := gv.MaskedWrite(base, msg, c.update, writable, c.reset)
	if c.after {
		afterFn(base, r)
	}
	return r, nil
}

func (c call) invalid(writable []string) bool {
	if c.update == nil {
		return false
	}
	if !gv.ValidPaths(&testproto.TestAllTypes{}, c.update) {
		return true
	}
	if writable == nil {
		return false
	}
	t := gv.Tree(writable)
	for _, p := range c.update {
		if !t.Covers(p) {
			return true
		}
	}
	return false
}

// unsure: default_nested_message is writable when its parts are, or not
func (c call) unsure(writable []string) bool {
	if c.update == nil || writable == nil {
		return false
	}
	t := gv.Tree(writable)
	for _, p := range c.update {
		if p == "default_nested_message" && !t.Covers(p) && t.Covers("default_nested_message.a") {
			return true
		}
	}
	return false
}

func sameErr(got, want error) bool {
	if got == nil || want == nil {
		return got == nil && want == nil
	}
	if _, ok := status.FromError(want); ok {
		return status.Code(got) == status.Code(want)
	}
	return errors.Is(got, want) || strings.Contains(got.Error(), want.Error())
}

// Used by one caller at a time, a Collection is a map from ids to messages.
//
//gv:property C01
//gv:for Collection.Update covers Collection.Add Collection.Delete Collection.Get Collection.List GenerateUniqueId WriteRequest.changeFn GetAndUpdate Collection.genID
//gv:bounded generated histories of up to 25 calls over 5 ids with every combination of write options
func gvc_CollectionModel(h history) {
	opts := []Option{}
	if h.lowRandom {
		opts = append(opts, WithRNG(zeros{}))
	} else {
		opts = append(opts, WithRNG(rand.New(rand.NewSource(h.seed))))
	}
	norm := func(id string) string { return id }
	if h.lower {
		norm = strings.ToLower
		opts = append(opts, WithIDInterceptor(strings.ToLower))
	}
	if h.writable != nil {
		opts = append(opts, WithWritableFields(maskOf(h.writable)))
	}
	model := map[string]proto.Message{}
	for id, m := range h.initial {
		opts = append(opts, WithInitialRecord(id, proto.Clone(m)))
		model[id] = m
	}
	c := NewCollection(opts...)
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	var out <-chan []*CollectionChange
	if h.watch {
		out = collect(c.Pull(ctx, WithBackpressure(true), WithUpdatesOnly(true)), func(c *CollectionChange) bool { return c.Id == gvEnd })
	}
	emits := 0
	matches := func(what string) {
		ids := make([]string, 0, len(model))
		for id := range model {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		list := c.List()
		ok := len(list) == len(ids)
		for i := 0; ok && i < len(ids); i++ {
			ok = gv.SameFields(list[i], model[ids[i]], smallTree)
			m, exists := c.Get(ids[i])
			ok = ok && exists && sameMsg(m, list[i])
		}
		gv.Ensures(what, ok)
		for _, id := range []string{"", "a", "b", "c"} {
			if _, exists := c.Get(id); exists != (model[id] != nil) {
				gv.Ensures(what, false)
			}
		}
	}
	matches("a new collection contains its initial records, sorted by id")
	for _, cl := range h.calls {
		id := norm(cl.id)
		old := model[id]
		var ids []string
		created := 0
		msg := proto.Clone(cl.msg).(*testproto.TestAllTypes)
		switch cl.kind {
		case 3:
			m, ok := c.Get(cl.id)
			gv.Ensures("Get returns the item", ok == (old != nil) && (!ok || gv.SameFields(m, old, smallTree)))
		case 4: // List is checked after every call
		case 2:
			got, err := c.Delete(cl.id, cl.writeOptions(old, nil, &ids, &created)...)
			var want error
			switch {
			case old == nil && !cl.missing:
				want = status.Error(codes.NotFound, "")
			case old == nil:
			case cl.check > 0 && cl.expectedCheck(old) != nil:
				want = cl.expectedCheck(old)
				if cl.expected == 2 && status.Code(err) == codes.FailedPrecondition {
					want = err
				}
			case cl.expected == 2:
				want = status.Error(codes.FailedPrecondition, "")
			}
			gv.Ensures("Delete fails exactly when the item is missing or isn't as expected", sameErr(err, want))
			if want == nil {
				gv.Ensures("Delete returns the removed item", old == nil && got == nil || old != nil && gv.SameFields(got, old, smallTree))
				if old != nil {
					emits++
				}
				delete(model, id)
			}
		default:
			gen := id == "" && cl.gen
			if gen {
				old = nil
			}
			wo := cl.writeOptions(old, msg, &ids, &created)
			var got proto.Message
			var err error
			absent, create := cl.absent, cl.create
			if cl.kind == 1 {
				absent, create = true, true
				got, err = c.Add(cl.id, msg, wo...)
			} else {
				got, err = c.Update(cl.id, msg, wo...)
			}
			if cl.invalid(h.writable) {
				if cl.unsure(h.writable) {
					return
				}
				gv.Ensures("an invalid mask is rejected", status.Code(err) == codes.InvalidArgument)
				break
			}
			given := proto.Clone(cl.msg).(*testproto.TestAllTypes)
			if gen {
				if cl.callback && len(ids) > 0 {
					given.DefaultString = ids[0]
				}
				if h.lowRandom && status.Code(err) == codes.Aborted {
					break // out of ids
				}
			}
			var stored proto.Message
			var want error
			switch {
			case old != nil && absent:
				want = status.Error(codes.AlreadyExists, "")
			case old == nil && !create:
				want = status.Error(codes.NotFound, "")
			default:
				stored, want = cl.write(old, given, h.writable)
			}
			gv.Ensures("a write fails exactly when the item is missing, exists, or isn't as expected", sameErr(err, want))
			gv.Ensures("callbacks are called at most once, and only when creating", len(ids) <= 1 && created <= 1 && (gen || len(ids) == 0) && (old == nil || created == 0))
			if want != nil {
				break
			}
			emits++
			gv.Ensures("the created callback is called when creating", !cl.created || created == btoi(old == nil))
			gv.Ensures("a write returns what it stored", gv.SameFields(got, stored, smallTree))
			if gen {
				if !cl.callback {
					// find the id: it is the one that's new
					n := 0
					for _, k := range idsOf(c, len(model)+1) {
						if model[k] == nil {
							id = k
							n++
						}
					}
					gv.Ensures("a generated id is new", n == 1)
				} else {
					gv.Ensures("a generated id is reported", len(ids) == 1)
					id = norm(ids[0])
					gv.Ensures("a generated id is not empty", ids[0] != "")
					gv.Ensures("a generated id is not in use", model[id] == nil)
					m, ok := c.Get(ids[0])
					gv.Ensures("a generated id can be used to get the item", ok && gv.SameFields(m, stored, smallTree))
				}
			}
			model[id] = stored
		}
		matches("the contents are those of the model after every call")
	}
	if h.watch {
		_, err := c.Update(gvEnd, &testproto.TestAllTypes{}, WithCreateIfAbsent())
		gv.Ensures("the last write succeeds", err == nil)
		got := await("the subscriber receives the last change", out)
		gv.Ensures("every successful write is emitted and no failed one is", len(got) == emits+1)
	}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

var smallTree = gv.Tree([]string{"default_nested_message.a"})

// Used by one caller at a time, a Value is a register.
//
//gv:property C01
//gv:for Value.Set covers Value.Get NewValue WriteRequest.changeFn GetAndUpdate
//gv:bounded generated histories of up to 25 calls with every combination of write options
func gvc_ValueModel(h history) {
	var opts []Option
	if h.writable != nil {
		opts = append(opts, WithWritableFields(maskOf(h.writable)))
	}
	var model proto.Message
	if m := h.initial["a"]; m != nil {
		opts = append(opts, WithInitialValue(proto.Clone(m)))
		model = m
	}
	v := NewValue(opts...)
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	var out <-chan []*ValueChange
	if h.watch {
		out = collect(v.Pull(ctx, WithBackpressure(true), WithUpdatesOnly(true)), func(c *ValueChange) bool {
			return c.Value.(*testproto.TestAllTypes).GetDefaultString() == gvEnd
		})
	}
	emits := 0
	same := func(m proto.Message) bool {
		return model == nil && m == nil || model != nil && gv.SameFields(m, model, smallTree)
	}
	gv.Ensures("a new value is its initial value", same(v.Get()))
	for _, cl := range h.calls {
		if cl.kind > 1 {
			gv.Ensures("Get returns the value", same(v.Get()))
			continue
		}
		var ids []string
		created := 0
		msg := proto.Clone(cl.msg).(*testproto.TestAllTypes)
		got, err := v.Set(msg, cl.writeOptions(model, msg, &ids, &created)...)
		if cl.invalid(h.writable) {
			if cl.unsure(h.writable) {
				return
			}
			gv.Ensures("an invalid mask is rejected", status.Code(err) == codes.InvalidArgument)
		} else {
			if cl.absent && model != nil && status.Code(err) == codes.AlreadyExists {
				continue // expecting a Value to be absent isn't specified
			}
			stored, want := cl.write(model, cl.msg, h.writable)
			gv.Ensures("a write fails exactly when the value isn't as expected", sameErr(err, want))
			if want == nil {
				emits++
				model = stored
				gv.Ensures("a write returns what it stored", same(got))
			}
		}
		gv.Ensures("the value is that of the model after every call", same(v.Get()))
	}
	if h.watch {
		_, err := v.Set(&testproto.TestAllTypes{DefaultString: gvEnd}, WithAllFieldsWritable())
		gv.Ensures("the last write succeeds", err == nil)
		got := await("the subscriber receives the last change", out)
		gv.Ensures("every successful write is emitted and no failed one is", len(got) == emits+1)
	}
}

func gvg_ValueModel(g *gv.Gen) history { return gvg_CollectionModel(g) }

// idsOf are the ids of the n items in c.
func idsOf(c *Collection, n int) []string {
	if len(c.List()) < n {
		n = len(c.List())
	}
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	ch := c.Pull(ctx)
	var r []string
	for ; n > 0; n-- {
		r = append(r, (<-ch).Id)
	}
	return r
}
