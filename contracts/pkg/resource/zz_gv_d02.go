package resource

import (
	"context"
	"time"

	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// dItem is an item a collection may have.
type dItem struct {
	id string
	m  *two // nil: there is no such item
}

// is says whether m is what an item is: its message, or nil for no item.
func (i dItem) is(m proto.Message, ok bool) bool {
	if i.m == nil {
		return !ok && m == nil
	}
	return ok && m != nil && m.(*two).C == i.m.C && m.(*two).D == i.m.D
}

func dCopy(m *two) *two {
	if m == nil {
		return nil
	}
	return &two{C: m.C, D: m.D}
}

type dResult struct {
	m   proto.Message
	err error
}

// dStore is a collection with up to two items.
func dStore(a, b dItem, opts ...Option) *Collection {
	opts = append(opts, WithClock(&dTick{}))
	if a.m != nil {
		opts = append(opts, WithInitialRecord(a.id, a.m))
	}
	if b.m != nil {
		opts = append(opts, WithInitialRecord(b.id, b.m))
	}
	return NewCollection(opts...)
}

// dCheckEvent receives from events what a write of id tells subscribers, exactly one event.
func dCheckEvent(events <-chan *CollectionChange, id string, old, new *two, at time.Time) {
	if events == nil {
		return
	}
	select {
	case e, ok := <-events:
		gv.Ensures("event", ok && e != nil)
		gv.Ensures("event id", e.Id == id)
		gv.Ensures("event kind", old != nil && new != nil && e.ChangeType == types.ChangeType_UPDATE ||
			old == nil && e.ChangeType == types.ChangeType_ADD ||
			new == nil && e.ChangeType == types.ChangeType_REMOVE)
		gv.Ensures("event old value", dItem{m: old}.is(e.OldValue, e.OldValue != nil))
		gv.Ensures("event new value", dItem{m: new}.is(e.NewValue, e.NewValue != nil))
		gv.Ensures("event time", e.ChangeTime.Equal(at))
		gv.Ensures("not a seed", !e.SeedValue && !e.LastSeedValue)
	default:
		gv.Ensures("there is an event", false)
	}
	gv.Ensures("and no other", events == nil || dNoEvent(events))
}

// Collection.Update (and Add, that is an Update): writes the item of the id and no other, or fails and changes nothing.
//
//gv:property C01
//gv:for Collection.Update, Collection.Get, GetAndUpdate, minibus.Bus
func gvc_CollectionUpdate(id, otherID, alias string, item, other, value *two, absent, create, extras bool, sec int64) {
	dUpdate(id, otherID, alias, item, other, value, nil, absent, create, false, extras, false, sec)
}

// As CollectionUpdate, when there is an expected value.
//
//gv:property C01
//gv:for Collection.Update, Collection.Get, GetAndUpdate, minibus.Bus
func gvc_CollectionUpdateExpected(id, otherID, alias string, item, other, value, expected *two, absent, create, extras bool, sec int64) {
	gv.Requires(expected != nil)
	dUpdate(id, otherID, alias, item, other, value, expected, absent, create, false, extras, false, sec)
}

// As CollectionUpdate, when a check refuses the write.
//
//gv:property C01
//gv:for Collection.Update, Collection.Get, GetAndUpdate, minibus.Bus
func gvc_CollectionUpdateRefused(id, otherID, alias string, item, other, value *two, absent, create bool) {
	dUpdate(id, otherID, alias, item, other, value, nil, absent, create, true, false, false, 0)
}

// As CollectionUpdate, when there is a subscriber.
//
//gv:property C04
//gv:for Collection.Update, Collection.Get, Collection.Pull, minibus.Bus
func gvc_CollectionUpdateTold(id, otherID, alias string, item, other, value *two, create, extras bool, sec int64) {
	dUpdate(id, otherID, alias, item, other, value, nil, false, create, false, extras, true, sec)
}

func dUpdate(id, otherID, alias string, item, other, value, expected *two, absent, create, refuse, extras, watch bool, sec int64) {
	gv.Requires(id != otherID && alias != otherID && value != nil && value != expected)
	gv.Assume(sec >= 0 && sec < 1000)
	gv.Assume(id != "" && alias != "")
	was, otherWas, val, exp := dItem{id, dCopy(item)}, dItem{otherID, dCopy(other)}, dCopy(value), dCopy(expected)
	aliased := func(s string) string {
		if s == alias {
			return id
		}
		return s
	}
	c := dStore(dItem{id, item}, dItem{otherID, other}, WithIDInterceptor(aliased))
	var events <-chan *CollectionChange
	if watch {
		ctx, stop := context.WithCancel(context.Background())
		defer stop()
		events = c.Pull(ctx, WithBackpressure(true), WithUpdatesOnly(true))
	}
	var opts []WriteOption
	if exp != nil {
		opts = append(opts, WithExpectedValue(expected))
	}
	if extras {
		opts = append(opts, WithWriteTime(time.Unix(sec, 5)))
		opts = append(opts, InterceptAfter(func(old, new proto.Message) {
			new.(*two).D += old.(*two).D
		}))
	}
	if refuse {
		opts = append(opts, WithExpectedCheck(func(m proto.Message) error { return errRefused }))
	}
	called := 0
	if create {
		opts = append(opts, WithCreateIfAbsent(), WithCreatedCallback(func() { called++ }))
	}
	if absent {
		opts = append(opts, WithExpectAbsent())
	}
	done := make(chan dResult, 1)
	write := func() {
		m, err := c.Update(alias, value, opts...)
		done <- dResult{m, err}
	}
	if watch {
		go write()
		gv.Still()
	} else {
		write()
	}

	ticks := int64(0)
	if was.m != nil {
		ticks++
	}
	if otherWas.m != nil {
		ticks++
	}
	code := codes.OK
	before := &two{} // what preconditions are about
	switch {
	case was.m != nil && absent:
		code = codes.AlreadyExists
	case was.m == nil && !create:
		code = codes.NotFound
	default:
		if was.m != nil {
			before = was.m
		}
		if exp != nil && (exp.C != before.C || exp.D != before.D) {
			code = codes.FailedPrecondition
		} else if refuse {
			code = codes.Unknown
		}
	}
	if code != codes.OK {
		select {
		case r := <-done:
			gv.Ensures("no result", r.m == nil)
			gv.Ensures("code", r.err != nil && status.Code(r.err) == code)
		default:
			gv.Ensures("refused writes don't wait", false)
		}
		m, ok := c.Get(id)
		gv.Ensures("refused writes change nothing", was.is(m, ok))
		m, ok = c.Get(otherID)
		gv.Ensures("of anything", otherWas.is(m, ok))
		gv.Ensures("nor do they tell", events == nil || dNoEvent(events))
		return
	}
	want := dItem{id, val}
	if extras {
		want.m.D += before.D
	}
	at := time.Unix(ticks+1, 0)
	if extras {
		at = time.Unix(sec, 5)
	}
	m, ok := c.Get(alias)
	gv.Ensures("stored", want.is(m, ok))
	m, ok = c.Get(otherID)
	gv.Ensures("other items are as they were", otherWas.is(m, ok))
	dCheckEvent(events, id, was.m, want.m, at)
	select {
	case r := <-done:
		gv.Ensures("ok", r.err == nil)
		gv.Ensures("result", want.is(r.m, true))
	default:
		gv.Ensures("the write ends", false)
	}
	gv.Ensures("created callback", was.m == nil && called == 1 || was.m != nil && called == 0)
}

// Collection.Add with and without a generated id.
//
//gv:property C01
//gv:for Collection.Add, GenerateUniqueId
//gv:unroll 20
func gvc_CollectionAdd(id, otherID string, item, other, value *two, gen bool) {
	dAdd(id, otherID, item, other, value, gen, false)
}

// As CollectionAdd, when there is a subscriber.
//
//gv:property C04
//gv:for Collection.Add, Collection.Pull
//gv:unroll 20
func gvc_CollectionAddTold(id, otherID string, item, other, value *two, gen bool) {
	dAdd(id, otherID, item, other, value, gen, true)
}

func dAdd(id, otherID string, item, other, value *two, gen, watch bool) {
	gv.Requires(id != otherID && value != nil)
	was, otherWas, val := dItem{id, dCopy(item)}, dItem{otherID, dCopy(other)}, dItem{id, dCopy(value)}
	c := dStore(dItem{id, item}, dItem{otherID, other})
	var events <-chan *CollectionChange
	if watch {
		ctx, stop := context.WithCancel(context.Background())
		defer stop()
		events = c.Pull(ctx, WithBackpressure(true), WithUpdatesOnly(true))
	}
	ids := 0
	given := ""
	var opts []WriteOption
	if gen {
		opts = append(opts, WithGenIDIfAbsent(), WithIDCallback(func(id string) { ids++; given = id }))
	}
	done := make(chan dResult, 1)
	write := func() {
		m, err := c.Add(id, value, opts...)
		done <- dResult{m, err}
	}
	if watch {
		go write()
		gv.Still()
	} else {
		write()
	}

	if !gen || id != "" {
		gv.Ensures("ids that are given aren't reported", ids == 0)
		if was.m != nil {
			gv.Reach("exists")
			select {
			case r := <-done:
				gv.Ensures("already exists", r.m == nil && status.Code(r.err) == codes.AlreadyExists)
			default:
				gv.Ensures("refused writes don't wait", false)
			}
			m, ok := c.Get(id)
			gv.Ensures("it is kept", was.is(m, ok))
			gv.Ensures("no event", events == nil || dNoEvent(events))
			return
		}
		gv.Reach("added")
		m, ok := c.Get(id)
		gv.Ensures("added", val.is(m, ok))
	} else {
		if ids == 0 {
			gv.Reach("exhausted")
			select {
			case r := <-done:
				gv.Ensures("no id was found", r.m == nil && status.Code(r.err) == codes.Aborted)
			default:
				gv.Ensures("refused writes don't wait", false)
			}
			m, ok := c.Get(id)
			gv.Ensures("nothing is added", was.is(m, ok))
			gv.Ensures("or told", events == nil || dNoEvent(events))
			return
		}
		gv.Reach("generated")
		gv.Ensures("one id", ids == 1 && given != "")
		gv.Ensures("unused", given != id || was.m == nil)
		gv.Ensures("unused by the other", given != otherID || otherWas.m == nil)
		m, ok := c.Get(given)
		gv.Ensures("the id is that of the item", val.is(m, ok))
		val.id = given
		m, ok = c.Get(id)
		gv.Ensures("nothing under the empty id", was.is(m, ok))
	}
	if val.id != otherID {
		m, ok := c.Get(otherID)
		gv.Ensures("other items are as they were", otherWas.is(m, ok))
	}
	ticks := int64(1)
	if was.m != nil {
		ticks++
	}
	if otherWas.m != nil {
		ticks++
	}
	dCheckEvent(events, val.id, nil, val.m, time.Unix(ticks, 0))
	select {
	case r := <-done:
		gv.Ensures("ok", r.err == nil && val.is(r.m, true))
	default:
		gv.Ensures("the write ends", false)
	}
}

// Collection.Delete removes the item of the id and no other, or fails and changes nothing.
//
//gv:property C01
//gv:for Collection.Delete
func gvc_CollectionDelete(id, otherID, alias string, item, other, expected *two, allow, refuse, timed bool, sec int64) {
	dDelete(id, otherID, alias, item, other, expected, allow, refuse, timed, false, sec)
}

// As CollectionDelete, when there is a subscriber.
//
//gv:property C04
//gv:for Collection.Delete, Collection.Pull
func gvc_CollectionDeleteTold(id, otherID string, item, other *two, allow, refuse, timed bool, sec int64) {
	dDelete(id, otherID, id, item, other, nil, allow, refuse, timed, true, sec)
}

func dDelete(id, otherID, alias string, item, other, expected *two, allow, refuse, timed, watch bool, sec int64) {
	gv.Requires(id != otherID && alias != otherID)
	gv.Assume(sec >= 0 && sec < 1000)
	was, otherWas, exp := dItem{id, dCopy(item)}, dItem{otherID, dCopy(other)}, dCopy(expected)
	aliased := func(s string) string {
		if s == alias {
			return id
		}
		return s
	}
	c := dStore(dItem{id, item}, dItem{otherID, other}, WithIDInterceptor(aliased))
	var events <-chan *CollectionChange
	if watch {
		ctx, stop := context.WithCancel(context.Background())
		defer stop()
		events = c.Pull(ctx, WithBackpressure(true), WithUpdatesOnly(true))
	}
	opts := []WriteOption{WithAllowMissing(allow)}
	if exp != nil {
		opts = append(opts, WithExpectedValue(expected))
	}
	if timed {
		opts = append(opts, WithWriteTime(time.Unix(sec, 5)))
	}
	if refuse {
		opts = append(opts, WithExpectedCheck(func(m proto.Message) error { return errRefused }))
	}
	done := make(chan dResult, 1)
	write := func() {
		m, err := c.Delete(alias, opts...)
		done <- dResult{m, err}
	}
	if watch {
		go write()
		gv.Still()
	} else {
		write()
	}

	if was.m == nil || refuse || exp != nil && (exp.C != was.m.C || exp.D != was.m.D) {
		gv.Reach("refused")
		select {
		case r := <-done:
			switch {
			case was.m == nil && allow:
				gv.Ensures("missing items are allowed", r.m == nil && r.err == nil)
			case was.m == nil:
				gv.Ensures("missing", r.m == nil && status.Code(r.err) == codes.NotFound)
			case refuse:
				gv.Ensures("the error of the check", r.err == errRefused)
			default:
				gv.Ensures("precondition", status.Code(r.err) == codes.FailedPrecondition)
			}
		default:
			gv.Ensures("refused writes don't wait", false)
		}
		m, ok := c.Get(id)
		gv.Ensures("refused writes change nothing", was.is(m, ok))
		m, ok = c.Get(otherID)
		gv.Ensures("of anything", otherWas.is(m, ok))
		gv.Ensures("nor do they tell", events == nil || dNoEvent(events))
		return
	}
	gv.Reach("removed")
	at := time.Unix(2, 0)
	if otherWas.m != nil {
		at = time.Unix(3, 0)
	}
	if timed {
		at = time.Unix(sec, 5)
	}
	m, ok := c.Get(alias)
	gv.Ensures("removed", m == nil && !ok)
	m, ok = c.Get(otherID)
	gv.Ensures("other items are as they were", otherWas.is(m, ok))
	dCheckEvent(events, id, was.m, nil, at)
	select {
	case r := <-done:
		gv.Ensures("ok", r.err == nil)
		gv.Ensures("the item that was removed", was.is(r.m, true))
	default:
		gv.Ensures("the write ends", false)
	}
}
