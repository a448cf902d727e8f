package resource

// Contracts of functions that are internal to the package: they are proved where the functions exist with these
// signatures. What they establish is also stated, on generated inputs, about the exported functions that use them.
//
//gv:optional

import (
	"time"

	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/protobuf/proto"
)

// specValid: the change takes an item from one state to another, either of which may be absent (nil).
func specValid(c CollectionChange, from, to *testproto.TestAllTypes) bool {
	switch c.ChangeType {
	case types.ChangeType_ADD:
		return from == nil && to != nil && c.OldValue == nil && specIs(c.NewValue, to)
	case types.ChangeType_UPDATE, types.ChangeType_REPLACE:
		return from != nil && to != nil && specIs(c.OldValue, from) && specIs(c.NewValue, to)
	case types.ChangeType_REMOVE:
		return from != nil && to == nil && specIs(c.OldValue, from) && c.NewValue == nil
	}
	return false
}

func specIs(m proto.Message, t *testproto.TestAllTypes) bool {
	if t == nil {
		return m == nil
	}
	return m == proto.Message(t)
}

func specChange(kind types.ChangeType, from, to *testproto.TestAllTypes) CollectionChange {
	c := CollectionChange{ChangeType: kind}
	if from != nil {
		c.OldValue = from
	}
	if to != nil {
		c.NewValue = to
	}
	return c
}

// Filtering a change: the truth table of inclusion before and after.
//
//gv:property C08
//gv:for (*CollectionChange).include
func gvc_include(id string, kind types.ChangeType, at time.Time, from, to *testproto.TestAllTypes, inOld, inNew bool) {
	gv.Requires(from == nil || from != to)
	in := specChange(kind, from, to)
	in.Id, in.ChangeTime = id, at
	gv.Requires(specValid(in, from, to))
	pred := func(_ string, m proto.Message) bool {
		if from != nil && m == proto.Message(from) {
			return inOld
		}
		return inNew
	}
	c := in
	out, ok := (&c).include(pred)
	was, is := from != nil && inOld, to != nil && inNew
	gv.Ensures("delivered exactly if the item matches before or after", ok == (was || is))
	if ok {
		gv.Ensures("about the same item, at the same time", out.Id == id && out.ChangeTime.Equal(at))
		if was && is {
			gv.Ensures("an update between two matching versions stays as it is", out.ChangeType == kind && specValid(*out, from, to))
		}
		if !was && is {
			gv.Ensures("an item that starts to match is an ADD", out.ChangeType == types.ChangeType_ADD && specValid(*out, nil, to))
		}
		if was && !is {
			gv.Ensures("an item that stops matching is a REMOVE", out.ChangeType == types.ChangeType_REMOVE && specValid(*out, from, nil))
		}
	}
	all, ok := (&c).include(nil)
	gv.Ensures("without a predicate everything is delivered as it is", ok && all.ChangeType == kind && specValid(*all, from, to) && all.Id == id)
}

// Merging two consecutive changes of an item: the result takes the item from the first state to the last, in one step.
//
//gv:property C09 C08 C03
//gv:for mergeChanges
func gvc_mergeChanges(ka, kb types.ChangeType, s, t, u *testproto.TestAllTypes, id string, ta, tb time.Time, lastA, lastB bool) {
	a, b := specChange(ka, s, t), specChange(kb, t, u)
	gv.Requires(specValid(a, s, t) && specValid(b, t, u))
	gv.Requires(kb != types.ChangeType_REPLACE) // no write does
	a.Id, b.Id, a.ChangeTime, b.ChangeTime = id, id, ta, tb
	a.LastSeedValue, b.LastSeedValue = lastA, lastB
	c, send := mergeChanges(a, b)
	gv.Ensures("changes are dropped only if the item is absent before and after", gv.Iff(!send, s == nil && u == nil))
	if send {
		gv.Ensures("the merged change takes the item from its first state to its last", specValid(c, s, u))
		gv.Ensures("the merged change is about the same item, at the later time", c.Id == id && c.ChangeTime.Equal(tb))
		gv.Ensures("a removed and added item is replaced", gv.Implies(ka == types.ChangeType_REMOVE && kb == types.ChangeType_ADD, c.ChangeType == types.ChangeType_REPLACE))
	}
}
