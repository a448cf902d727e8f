package enterleavesensorpb

import (
	"math"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

type dTick struct{ n int64 }

func (c *dTick) Now() time.Time {
	c.n++
	return time.Unix(100+c.n, 0)
}
func (c *dTick) After(d time.Duration) <-chan time.Time { return time.After(d) }

func dTotal(p *int32) int32 {
	if p == nil {
		return 0
	}
	return *p
}

// dNext is what a total becomes: the one the event has, if it is a new one, or the current one, and one more if it is counted.
func dNext(cur int32, given *int32, counts bool) int32 {
	if given != nil && *given != cur {
		return *given
	}
	if counts {
		return cur + 1
	}
	return cur
}

// Each event counts into its direction's total, or sets the totals, whatever the event before it.
//
//gv:property C20
//gv:for (*Model).CreateEnterLeaveEvent covers NewModel (*Model).GetEnterLeaveEvent (*Model).ResetTotals
func gvc_EnterLeave(configured, hadEnter, hadLeave bool, oldEnter, oldLeave int32, od, d traits.EnterLeaveEvent_Direction, hasEnter, hasLeave bool, givenEnter, givenLeave int32, reset bool) {
	m := NewModel(resource.WithClock(&dTick{}))
	enter, leave := int32(0), int32(0)
	if configured {
		initial := &traits.EnterLeaveEvent{Direction: od}
		if hadEnter {
			initial.EnterTotal = &oldEnter
		}
		if hadLeave {
			initial.LeaveTotal = &oldLeave
		}
		enter, leave = dTotal(initial.EnterTotal), dTotal(initial.LeaveTotal)
		m = NewModel(resource.WithClock(&dTick{}), WithInitialEnterLeaveEvent(initial))
	}
	gv.Requires(enter < math.MaxInt32 && leave < math.MaxInt32)
	is := func(enter, leave int32) bool {
		e, err := m.GetEnterLeaveEvent()
		return err == nil && e != nil && dTotal(e.EnterTotal) == enter && dTotal(e.LeaveTotal) == leave
	}
	gv.Ensures("the configured totals are used", is(enter, leave))
	if reset {
		gv.Ensures("reset", m.ResetTotals() == nil)
		enter, leave = 0, 0
		gv.Ensures("to zero", is(enter, leave))
	}
	event := &traits.EnterLeaveEvent{Direction: d}
	if hasEnter {
		event.EnterTotal = &givenEnter
	}
	if hasLeave {
		event.LeaveTotal = &givenLeave
	}
	enter = dNext(enter, event.EnterTotal, d == traits.EnterLeaveEvent_ENTER)
	leave = dNext(leave, event.LeaveTotal, d == traits.EnterLeaveEvent_LEAVE)
	gv.Ensures("the event is accepted", m.CreateEnterLeaveEvent(event) == nil)
	e, err := m.GetEnterLeaveEvent()
	gv.Ensures("it is the last one", err == nil && e != nil && e.Direction == d)
	gv.Ensures("enter total", e.EnterTotal != nil && *e.EnterTotal == enter)
	gv.Ensures("leave total", e.LeaveTotal != nil && *e.LeaveTotal == leave)
}
