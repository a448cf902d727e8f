package bookingpb

import (
	"context"
	"sync"

	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	periodpb "github.com/smart-core-os/sc-api/go/types/time"
	"github.com/smart-core-os/sc-golang/internal/gv"
	timepb "github.com/smart-core-os/sc-golang/pkg/time"
)

type gvOp struct {
	del    bool
	id     string
	booked *periodpb.Period
	title  string
}

type bookings struct {
	ops     []gvOp
	before  int
	filter  *periodpb.Period
	updates bool
	mask    []string
}

func gvPeriod(g *gv.Gen) *periodpb.Period {
	if g.R.Intn(8) == 0 {
		return nil
	}
	p := &periodpb.Period{}
	if g.R.Intn(5) > 0 {
		p.StartTime = &timestamppb.Timestamp{Seconds: int64(g.R.Intn(6))}
	}
	if g.R.Intn(5) > 0 {
		p.EndTime = &timestamppb.Timestamp{Seconds: int64(2 + g.R.Intn(6))}
	}
	return p
}

func gvg_BookingFilter(g *gv.Gen) bookings {
	b := bookings{filter: gvPeriod(g), updates: g.R.Intn(4) == 0}
	for i := g.R.Intn(16); i > 0; i-- {
		b.ops = append(b.ops, gvOp{g.R.Intn(4) == 0, []string{"a", "b", "c", "d"}[g.R.Intn(4)], gvPeriod(g), []string{"", "x", "y"}[g.R.Intn(3)]})
	}
	b.before = g.R.Intn(len(b.ops) + 1)
	switch g.R.Intn(4) {
	case 0:
		b.mask = []string{"id", "title"}
	case 1:
		b.mask = []string{"id", "booked.start_time"}
	}
	return b
}

// gvStream receives what a server sends.
type gvStream struct {
	grpc.ServerStream
	ctx  context.Context
	send func(*traits.PullBookingsResponse)
}

func (s *gvStream) Context() context.Context                  { return s.ctx }
func (s *gvStream) Send(r *traits.PullBookingsResponse) error { s.send(r); return nil }

// Bookings filtered by period: lists and streams are those of the bookings that intersect the period.
//
//gv:property C08
//gv:for (*ModelServer).PullBookings covers (*ModelServer).ListBookings (*Model).PullBookings (*Model).ListBookings
//gv:bounded generated histories of up to 16 bookings made, moved and renamed, with generated periods and read masks
func gvc_BookingFilter(b bookings) {
	m := NewModel()
	s := NewModelServer(m)
	stored := map[string]*traits.Booking{}
	do := func(op gvOp) {
		bk := &traits.Booking{Id: op.id, Title: op.title, Booked: op.booked}
		if stored[op.id] == nil {
			_, err := s.CreateBooking(context.Background(), &traits.CreateBookingRequest{Booking: proto.Clone(bk).(*traits.Booking)})
			gv.Ensures("a new booking is created", err == nil)
		} else {
			if op.del { // bookings can't be deleted, but they can be at no time
				bk.Booked = nil
			}
			_, err := s.UpdateBooking(context.Background(), &traits.UpdateBookingRequest{Booking: proto.Clone(bk).(*traits.Booking)})
			gv.Ensures("a booking is updated", err == nil)
		}
		stored[op.id] = bk
	}
	var mask *fieldmaskpb.FieldMask
	if b.mask != nil {
		mask = &fieldmaskpb.FieldMask{Paths: b.mask}
	}
	want := func() map[string]proto.Message {
		r := map[string]proto.Message{}
		for id, bk := range stored {
			if b.filter == nil || timepb.PeriodsIntersect(bk.Booked, b.filter) {
				r[id] = gv.ProjectPaths(bk, b.mask)
			}
		}
		return r
	}
	same := func(x, y map[string]proto.Message) bool {
		if len(x) != len(y) {
			return false
		}
		for id, m := range x {
			if y[id] == nil || !proto.Equal(m, y[id]) {
				return false
			}
		}
		return true
	}
	list := func() bool {
		res, err := s.ListBookings(context.Background(), &traits.ListBookingsRequest{BookingIntersects: b.filter, ReadMask: mask})
		if err != nil {
			return false
		}
		got := map[string]proto.Message{}
		last := ""
		for _, bk := range res.Bookings {
			if bk.Id <= last {
				return false
			}
			last = bk.Id
			got[bk.Id] = bk
		}
		return same(got, want())
	}
	for _, op := range b.ops[:b.before] {
		do(op)
	}
	gv.Ensures("the bookings listed are those that intersect the period", list())

	var mu sync.Mutex
	view := map[string]proto.Message{}
	problem := ""
	ctx, stop := context.WithCancel(context.Background())
	ended := make(chan struct{})
	first := make(chan struct{}, 1)
	stream := &gvStream{ctx: ctx, send: func(r *traits.PullBookingsResponse) {
		mu.Lock()
		defer mu.Unlock()
		for _, ch := range r.Changes {
			id := ch.GetNewValue().GetId() + "/" + ch.GetOldValue().GetId()
			bk := ch.NewValue
			if bk == nil {
				bk = ch.OldValue
			}
			if ch.Name != "name" {
				problem = "the changes carry the name of the request"
			}
			held := view[bk.GetId()]
			switch ch.Type {
			case types.ChangeType_ADD:
				if held != nil || ch.OldValue != nil || ch.NewValue == nil {
					problem = "an ADD is of a booking that wasn't there: " + id
				}
			case types.ChangeType_REMOVE:
				if held == nil || ch.NewValue != nil || !proto.Equal(held, ch.OldValue) {
					problem = "a REMOVE is of a booking that was there: " + id
				}
			default:
				if held == nil || ch.NewValue == nil || !proto.Equal(held, ch.OldValue) {
					problem = "an update is of a booking that was there: " + id
				}
			}
			if ch.NewValue == nil {
				delete(view, bk.GetId())
			} else {
				view[bk.GetId()] = ch.NewValue
			}
		}
		select {
		case first <- struct{}{}:
		default:
		}
	}}
	if b.updates { // what the subscriber has already
		view = want()
	}
	n := len(want())
	go func() {
		defer close(ended)
		s.PullBookings(&traits.ListBookingsRequest{Name: "name", BookingIntersects: b.filter, ReadMask: mask, UpdatesOnly: b.updates}, stream)
	}()
	if b.updates {
		gv.Within(0, func() bool { gv.Pause(); gv.Pause(); return true }) // no way to tell when it subscribes
	} else if n > 0 {
		<-first
	}
	for _, op := range b.ops[b.before:] {
		do(op)
	}
	gv.Ensures("the bookings listed are those that intersect the period", list())
	if !b.updates { // an updates only subscription may have been opened after the writes
		gv.Ensures("folding the stream gives the bookings that intersect the period", gv.Eventually(func() bool {
			mu.Lock()
			defer mu.Unlock()
			return same(view, want())
		}))
		mu.Lock()
		if problem != "" {
			gv.Ensures(problem, false)
		}
		mu.Unlock()
	}
	stop()
	gv.Ensures("the stream ends when it is cancelled", gv.Eventually(func() bool {
		select {
		case <-ended:
			return true
		default:
			return false
		}
	}))
}
