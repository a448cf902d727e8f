package resource

import (
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// dCall is a write of one item by one goroutine, and what came of it.
type dCall struct {
	kind     uint8
	m, exp   *two // copies of what it was given
	by       int32
	res      *two // copy of what it returned
	err      error
	finished bool
}

const (
	dPut    = iota // write or create
	dUpd           // write
	dUpdExp        // write if it is as expected
	dAddK          // create
	dDel           // delete
	dDelExp        // delete if it is as expected
	dInc           // add to a field of what there is
	dIncPut        // add to a field of what there is, or create
	dKinds
)

// do writes item id of c.
func (d *dCall) do(c *Collection, id string, m, exp *two) {
	d.m, d.exp = dCopy(m), dCopy(exp)
	inc := InterceptAfter(func(old, new proto.Message) {
		if old != nil {
			new.(*two).C = old.(*two).C + d.by
			new.(*two).D = old.(*two).D
		}
	})
	var res proto.Message
	switch d.kind {
	case dPut:
		res, d.err = c.Update(id, m, WithCreateIfAbsent())
	case dUpd:
		res, d.err = c.Update(id, m)
	case dUpdExp:
		res, d.err = c.Update(id, m, WithExpectedValue(exp))
	case dAddK:
		res, d.err = c.Add(id, m)
	case dDel:
		res, d.err = c.Delete(id)
	case dDelExp:
		res, d.err = c.Delete(id, WithExpectedValue(exp))
	case dInc:
		res, d.err = c.Update(id, m, inc)
	case dIncPut:
		res, d.err = c.Update(id, m, inc, WithCreateIfAbsent())
	}
	if d.err == nil && res != nil {
		d.res = dCopy(res.(*two))
	}
	d.finished = true
}

// set writes v.
func (d *dCall) set(v *Value, m, exp *two) {
	d.m, d.exp = dCopy(m), dCopy(exp)
	var res proto.Message
	switch d.kind {
	case dUpd:
		res, d.err = v.Set(m)
	case dUpdExp:
		res, d.err = v.Set(m, WithExpectedValue(exp))
	case dInc:
		res, d.err = v.Set(m, InterceptAfter(func(old, new proto.Message) {
			new.(*two).C = old.(*two).C + d.by
			new.(*two).D = old.(*two).D
		}))
	}
	if d.err == nil && res != nil {
		d.res = dCopy(res.(*two))
	}
	d.finished = true
}

func dSame(a, b *two) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.C == b.C && a.D == b.D
}

// after is what this call leaves when it finds was, and whether it succeeds with the result it had.
func (d *dCall) after(was *two) (*two, bool) {
	switch d.kind {
	case dPut:
		return d.m, dSame(d.res, d.m)
	case dUpd:
		return d.m, was != nil && dSame(d.res, d.m)
	case dUpdExp:
		return d.m, was != nil && dSame(was, d.exp) && dSame(d.res, d.m)
	case dAddK:
		return d.m, was == nil && dSame(d.res, d.m)
	case dDel:
		return nil, was != nil && dSame(d.res, was)
	case dDelExp:
		return nil, was != nil && dSame(was, d.exp) && dSame(d.res, was)
	}
	if was == nil {
		if d.kind != dIncPut {
			return nil, false
		}
		was = &two{} // what a created item is changed from
	}
	is := &two{C: was.C + d.by, D: was.D}
	return is, dSame(d.res, is)
}

// lost says whether a call failed in the way a call does that loses a race.
func (d *dCall) lost() bool {
	switch status.Code(d.err) {
	case codes.Aborted, codes.AlreadyExists, codes.FailedPrecondition, codes.NotFound, codes.Unavailable:
		return true
	}
	return false
}

// dExplained says whether the calls that succeeded, in this order, make is of was.
func dExplained(was, is *two, calls ...*dCall) bool {
	for _, d := range calls {
		if d.err != nil {
			continue
		}
		next, ok := d.after(was)
		if !ok {
			return false
		}
		was = next
	}
	return dSame(was, is)
}

// Two goroutines write one item: those that succeed took effect one after the other, the others not at all.
//
//gv:property C02
//gv:for Collection.Update, Collection.Add, Collection.Delete, GetAndUpdate
//gv:delays 2
//gv:norun
func gvc_CollectionRace(a, x, y, expx, expy *two, kx, ky uint8, bx, by int32) {
	gv.Requires(x != nil && y != nil && expx != nil && expy != nil)
	gv.Requires(kx < dKinds && ky < dKinds && kx <= ky)
	was := dCopy(a)
	c := dStore(dItem{"a", a}, dItem{})
	one, two := &dCall{kind: kx, by: bx}, &dCall{kind: ky, by: by}
	go one.do(c, "a", x, expx)
	two.do(c, "a", y, expy)
	gv.Still()
	gv.Ensures("both return", one.finished && two.finished)
	gv.Ensures("a call that fails lost a race", (one.err == nil || one.lost()) && (two.err == nil || two.lost()))
	m, ok := c.Get("a")
	is := dFound(m, ok)
	gv.Ensures("those that succeed took effect once, one after the other",
		dExplained(was, is, one, two) || dExplained(was, is, two, one))
}

func dFound(m proto.Message, ok bool) *two {
	if !ok {
		return nil
	}
	return dCopy(m.(*two))
}

// Two goroutines write one value: those that succeed took effect one after the other, the others not at all.
//
//gv:property C02
//gv:for Value.Set, GetAndUpdate
//gv:delays 1
//gv:norun
func gvc_ValueRace(a, x, y, expx, expy *two, kx, ky uint8, bx, by int32) {
	gv.Requires(a != nil && x != nil && y != nil && expx != nil && expy != nil)
	gv.Requires(kx <= ky)
	gv.Requires(kx == dUpd || kx == dUpdExp || kx == dInc)
	gv.Requires(ky == dUpd || ky == dUpdExp || ky == dInc)
	was := dCopy(a)
	v := NewValue(WithInitialValue(a), WithClock(&dTick{}))
	one, two := &dCall{kind: kx, by: bx}, &dCall{kind: ky, by: by}
	go one.set(v, x, expx)
	two.set(v, y, expy)
	gv.Still()
	gv.Ensures("both return", one.finished && two.finished)
	gv.Ensures("a call that fails lost a race", (one.err == nil || one.lost()) && (two.err == nil || two.lost()))
	is := dFound(v.Get(), true)
	gv.Ensures("those that succeed took effect once, one after the other",
		dExplained(was, is, one, two) || dExplained(was, is, two, one))
}

// Two goroutines create items whose ids are generated: both succeed under ids of their own.
//
//gv:property C02
//gv:for Collection.Add, GenerateUniqueId
//gv:delays 1
//gv:unroll 20
//gv:budget 120
//gv:norun
func gvc_CreateRace(a, x, y *two) {
	gv.Requires(a != nil && x != nil && y != nil)
	ca, cx, cy := dCopy(a), dCopy(x), dCopy(y)
	c := dStore(dItem{"a", a}, dItem{})
	var ids [2]string
	var errs [2]error
	add := func(k int, m *two) {
		_, errs[k] = c.Add("", m, WithGenIDIfAbsent(), WithIDCallback(func(id string) { ids[k] = id }))
	}
	go add(0, x)
	add(1, y)
	gv.Still()
	first, second := dCall{err: errs[0]}, dCall{err: errs[1]}
	gv.Ensures("both succeed, or lost a race", (errs[0] == nil || first.lost()) && (errs[1] == nil || second.lost()))
	for k, want := range []*two{cx, cy} {
		if errs[k] == nil {
			m, ok := c.Get(ids[k])
			gv.Ensures("the item has its id", dSame(dFound(m, ok), want))
			gv.Ensures("that no other item has", ids[k] != "a" && (errs[1-k] != nil || ids[k] != ids[1-k]))
		}
	}
	m, ok := c.Get("a")
	gv.Ensures("others stay", dSame(dFound(m, ok), ca))
}
