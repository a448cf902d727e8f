package resource

import (
	"context"
	"errors"
	"time"

	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

// ---- messages of two scalar fields, and masks of them

type two = testproto.ForeignMessage

// dPaths are the masks that differ: by what they select, in which order, and how often.
func dPaths(n uint8) []string {
	switch n % 8 {
	case 1:
		return []string{}
	case 2:
		return []string{"c"}
	case 3:
		return []string{"d"}
	case 4:
		return []string{"d", "c"}
	case 5:
		return []string{"c", "c"}
	case 6:
		return []string{"nope"}
	case 7:
		return []string{"d", "c.x"}
	}
	return nil
}

func dMask(paths []string) *fieldmaskpb.FieldMask {
	if paths == nil {
		return nil
	}
	return &fieldmaskpb.FieldMask{Paths: paths}
}

func dHas(paths []string, p string) bool {
	for _, q := range paths {
		if p == q {
			return true
		}
	}
	return false
}

func dValid(paths []string) bool {
	for _, q := range paths {
		if q != "c" && q != "d" {
			return false
		}
	}
	return true
}

// dField is a field after a write: of what was there, what is written.
func dField(name string, old, new int32, update, writable, reset []string) int32 {
	if update != nil && len(update) == 0 {
		return old
	}
	if dHas(reset, name) {
		return 0
	}
	if (update == nil || dHas(update, name)) && (writable == nil || dHas(writable, name)) {
		return new
	}
	return old
}

// dRefused is the error of a write with these masks.
func dRefused(update, writable, reset []string) codes.Code {
	if !dValid(update) {
		return codes.InvalidArgument
	}
	for _, p := range update {
		if writable != nil && !dHas(writable, p) {
			return codes.InvalidArgument
		}
	}
	if !dValid(reset) {
		return codes.Internal
	}
	return codes.OK
}

// dTick is a clock that counts.
type dTick struct{ n int64 }

func (c *dTick) Now() time.Time {
	c.n++
	return time.Unix(c.n, 0)
}

// dNoEvent says whether a stream has nothing to receive now, and is open.
func dNoEvent[T any](ch <-chan T) bool {
	gv.Still()
	select {
	case <-ch:
		return false
	default:
		return true
	}
}

// A write to a Value with any update, writable and reset masks has exactly the effect that its masks give it.
//
//gv:property C01
//gv:property C05
//gv:for Value.Set
func gvc_ValueSetMasks(stored, value *two, update, writable, reset uint8) {
	gv.Requires(stored != nil && value != nil)
	gv.Assume(writable%8 < 6)
	gv.Assume(reset%8 < 4 || reset%8 == 6)
	c, d, nc, nd := stored.C, stored.D, value.C, value.D
	up, wr, re := dPaths(update), dPaths(writable), dPaths(reset)
	v := NewValue(WithInitialValue(stored), WithWritableFields(dMask(wr)))
	got, err := v.Set(value, WithUpdateMask(dMask(up)), WithResetMask(dMask(re)))
	after := v.Get().(*two)
	gv.Ensures("arguments unchanged", stored.C == c && stored.D == d && value.C == nc && value.D == nd)
	if want := dRefused(up, wr, re); want != codes.OK {
		gv.Reach("refused")
		gv.Ensures("code", err != nil && status.Code(err) == want)
		gv.Ensures("no result", got == nil)
		gv.Ensures("refused writes change nothing", after.C == c && after.D == d)
		return
	}
	gv.Reach("written")
	gv.Ensures("written", err == nil)
	wc, wd := dField("c", c, nc, up, wr, re), dField("d", d, nd, up, wr, re)
	gv.Ensures("stored", after.C == wc && after.D == wd)
	gv.Ensures("result", got.(*two).C == wc && got.(*two).D == wd)
}

var errRefused = errors.New("refused")

// A write to a Value succeeds when its precondition holds of the stored message, and is then what readers and
// subscribers get; otherwise it changes nothing and nobody is told.
//
//gv:property C01
//gv:property C04
//gv:property C07
//gv:for Value.Set, Value.Get, Value.Pull, GetAndUpdate, minibus.Bus
func gvc_ValueSetChecked(stored, value, expected *two, refuse, timed, add, addAfter bool, sec int64) {
	gv.Requires(stored != nil && value != nil)
	gv.Assume(sec >= 0 && sec < 1000)
	c, d, nc, nd := stored.C, stored.D, value.C, value.D
	unexpected := expected != nil && !(expected.C == c && expected.D == d)
	v := NewValue(WithInitialValue(stored), WithClock(&dTick{}))
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	events := v.Pull(ctx, WithBackpressure(true), WithUpdatesOnly(true))
	var opts []WriteOption
	if expected != nil {
		opts = append(opts, WithExpectedValue(expected))
	}
	var saw, saw1, saw2 proto.Message
	check := func(m proto.Message) error {
		saw = proto.Clone(m)
		if refuse {
			return errRefused
		}
		return nil
	}
	opts = append(opts, WithExpectedCheck(check))
	if timed {
		opts = append(opts, WithWriteTime(time.Unix(sec, 5)))
	}
	if add {
		opts = append(opts, InterceptBefore(func(old, new proto.Message) {
			saw1 = proto.Clone(old)
			new.(*two).C += old.(*two).C
		}))
	}
	if addAfter {
		opts = append(opts, InterceptAfter(func(old, new proto.Message) {
			saw2 = proto.Clone(old)
			new.(*two).D += old.(*two).D
		}))
	}
	type result struct {
		m   proto.Message
		err error
	}
	done := make(chan result, 1)
	go func() {
		m, err := v.Set(value, opts...)
		done <- result{m, err}
	}()
	gv.Still()

	old := &two{C: c, D: d}
	if unexpected || refuse {
		gv.Reach("refused")
		select {
		case r := <-done:
			gv.Ensures("no result", r.m == nil)
			if unexpected {
				gv.Ensures("precondition", status.Code(r.err) == codes.FailedPrecondition)
			} else {
				gv.Ensures("the error of the check", r.err == errRefused)
			}
		default:
			gv.Ensures("refused writes don't wait", false)
		}
		after := v.Get().(*two)
		gv.Ensures("refused writes change nothing", after.C == c && after.D == d)
		gv.Ensures("nor do they tell", dNoEvent(events))
		return
	}
	gv.Reach("written")
	gv.Ensures("the check is given what is stored", proto.Equal(saw, old))
	wc, wd := nc, nd
	if add {
		gv.Ensures("the interceptor is given what is stored", proto.Equal(saw1, old))
		wc += c
	}
	if addAfter {
		gv.Ensures("and the one after too", proto.Equal(saw2, old))
		wd += d
	}
	at := time.Unix(2, 0) // 1 is that of the initial value
	if timed {
		at = time.Unix(sec, 5)
	}
	now := v.Get().(*two)
	gv.Ensures("stored", now.C == wc && now.D == wd)
	select {
	case e, ok := <-events:
		gv.Ensures("event", ok && e != nil)
		gv.Ensures("value", e.Value.(*two).C == wc && e.Value.(*two).D == wd)
		gv.Ensures("change time", e.ChangeTime.Equal(at))
		gv.Ensures("not a seed", !e.SeedValue && !e.LastSeedValue)
	default:
		gv.Ensures("there is an event", false)
	}
	gv.Ensures("and no other", dNoEvent(events))
	select {
	case r := <-done:
		gv.Ensures("written", r.err == nil)
		gv.Ensures("result", r.m.(*two).C == wc && r.m.(*two).D == wd)
	default:
		gv.Ensures("the write ends", false)
	}

	// later changes to the caller's message aren't seen
	value.C, value.D = 7, 8
	stored.C, stored.D = 9, 10
	now = v.Get().(*two)
	gv.Ensures("isolated", now.C == wc && now.D == wd)
}
