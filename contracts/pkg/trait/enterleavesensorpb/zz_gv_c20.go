package enterleavesensorpb

import (
	"context"
	"fmt"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/protobuf/proto"
)

type enterRun struct {
	initial *traits.EnterLeaveEvent
	events  []*traits.EnterLeaveEvent // nil: reset
	server  bool
}

func gvEvent(g *gv.Gen) *traits.EnterLeaveEvent {
	e := &traits.EnterLeaveEvent{Direction: traits.EnterLeaveEvent_Direction(g.R.Intn(3))}
	if g.R.Intn(3) == 0 {
		n := int32(g.R.Intn(4))
		e.EnterTotal = &n
	}
	if g.R.Intn(3) == 0 {
		n := int32(g.R.Intn(4))
		e.LeaveTotal = &n
	}
	if g.R.Intn(2) == 0 {
		e.Occupant = &traits.EnterLeaveEvent_Occupant{Title: g.Str()}
	}
	return e
}

func gvg_Totals(g *gv.Gen) enterRun {
	h := enterRun{server: g.R.Intn(2) == 0}
	if g.R.Intn(2) == 0 {
		h.initial = gvEvent(g)
	}
	for i := 1 + g.R.Intn(10); i > 0; i-- {
		if g.R.Intn(6) == 0 {
			h.events = append(h.events, nil)
		} else {
			h.events = append(h.events, gvEvent(g))
		}
	}
	return h
}

// Totals count the events in each direction, or are those given if they differ.
//
//gv:property C20
//gv:for (*Model).CreateEnterLeaveEvent covers (*Model).ResetTotals (*Model).GetEnterLeaveEvent NewModel WithInitialEnterLeaveEvent (*ModelServer).ResetEnterLeaveTotals
//gv:bounded up to 10 calls with generated events
func gvc_Totals(h enterRun) {
	var opts []resource.Option
	var zero int32
	want := &traits.EnterLeaveEvent{EnterTotal: &zero, LeaveTotal: &zero}
	if h.initial != nil {
		want = proto.Clone(h.initial).(*traits.EnterLeaveEvent)
		opts = append(opts, WithInitialEnterLeaveEvent(h.initial))
	}
	m := NewModel(opts...)
	srv := NewModelServer(m)
	got, err := m.GetEnterLeaveEvent()
	gv.Ensures("the configured event is used", err == nil && proto.Equal(got, want))
	total := func(given, was *int32, counts bool) *int32 {
		n := int32(0)
		if was != nil {
			n = *was
		}
		if given != nil && *given != n {
			n = *given
		} else if counts {
			n++
		}
		return &n
	}
	for _, e := range h.events {
		gv.Note(fmt.Sprintf("{%v}, at {%v}", e, want))
		switch {
		case e != nil:
			next := proto.Clone(e).(*traits.EnterLeaveEvent)
			next.EnterTotal = total(e.EnterTotal, want.EnterTotal, e.Direction == traits.EnterLeaveEvent_ENTER)
			next.LeaveTotal = total(e.LeaveTotal, want.LeaveTotal, e.Direction == traits.EnterLeaveEvent_LEAVE)
			want = next
			err = m.CreateEnterLeaveEvent(proto.Clone(e).(*traits.EnterLeaveEvent))
		case h.server:
			_, err = srv.ResetEnterLeaveTotals(context.Background(), &traits.ResetEnterLeaveTotalsRequest{})
		default:
			err = m.ResetTotals()
		}
		if e == nil {
			var zero int32
			want = proto.Clone(want).(*traits.EnterLeaveEvent)
			want.EnterTotal, want.LeaveTotal = &zero, &zero
		}
		gv.Ensures("the call succeeds", err == nil)
		got, err := srv.GetEnterLeaveEvent(context.Background(), &traits.GetEnterLeaveEventRequest{})
		gv.Ensures("the totals count the events, or are those given", err == nil && proto.Equal(got, want))
	}
}
