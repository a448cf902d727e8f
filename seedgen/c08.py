T='''package resource

import (
	"context"
	"testing"
	"time"

	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

func TestZZDemo(t *testing.T) {
	type M = testproto.TestAllTypes
	var _ fieldmaskpb.FieldMask
	var _ types.ChangeType
	ctx, stop := context.WithTimeout(context.Background(), 5*time.Second)
	defer stop()
	even := WithInclude(func(_ string, m proto.Message) bool { return m.(*M).DefaultInt32%%2 == 0 })
%s}
'''
seed("C08-masked-predicate","C08","pkg/resource",
 [("pkg/resource/collection.go","		if readConfig.Exclude(id, value.body) {","		if readConfig.Exclude(id, readConfig.FilterClone(value.body)) { // the predicate must not keep or change the item")],
 T%'''	c := NewCollection(WithInitialRecord("a", &M{DefaultInt32: 1, DefaultString: "x"}))
	if l := c.List(even, WithReadMask(&fieldmaskpb.FieldMask{Paths: []string{"default_string"}})); len(l) != 0 {
		t.Fatal("listed an item that doesn't match", l)
	}
	_ = ctx
''',"a predicate over a field the read mask leaves out","the listing is filtered by the projection of items instead of the items, unlike updates")
seed("C08-merged-old","C08","pkg/resource",
 [("pkg/resource/backpressure.go","	case types.ChangeType_UPDATE:\n		b.OldValue = a.OldValue\n		if b.ChangeType == types.ChangeType_ADD { // not sure how this happens, but sure\n			b.ChangeType = types.ChangeType_REPLACE\n		}\n		return b, true\n","	case types.ChangeType_UPDATE:\n		if b.ChangeType == types.ChangeType_REMOVE {\n			return b, true // already says what was removed\n		}\n		b.OldValue = a.OldValue\n		if b.ChangeType == types.ChangeType_ADD { // not sure how this happens, but sure\n			b.ChangeType = types.ChangeType_REPLACE\n		}\n		return b, true\n")],
 T%'''	c := NewCollection(WithInitialRecord("a", &M{DefaultInt32: 2}), WithInitialRecord("b", &M{DefaultInt32: 2}))
	ch := c.Pull(ctx, even)
	<-ch
	<-ch
	c.Update("b", &M{DefaultInt32: 4}) // queued, waiting for us
	time.Sleep(20 * time.Millisecond)
	c.Update("b", &M{DefaultInt32: 6})
	c.Update("a", &M{DefaultInt32: 1})
	time.Sleep(20 * time.Millisecond)
	c.Delete("a")
	view := map[string]bool{"a": true, "b": true}
	time.Sleep(50 * time.Millisecond)
	c.Update("z", &M{}, WithCreateIfAbsent())
	for !view["z"] {
		e, ok := <-ch
		if !ok {
			t.Fatal("stream ended")
		}
		if e.NewValue == nil {
			delete(view, e.Id)
		} else {
			view[e.Id] = true
		}
	}
	if view["a"] {
		t.Fatal("a removed item is still in the view")
	}
''',"a slow reader, an item that stops matching and is then deleted before the reader is back","the removal is not reported: the filtered view keeps an item that's gone")
seed("C08-pull-connected","C08","pkg/trait/bookingpb",
 [("pkg/trait/bookingpb/model_server.go","		opts = append(opts, resource.WithInclude(func(id string, item proto.Message) bool {\n			if item == nil {\n				return false\n			}\n			itemVal := item.(*traits.Booking)\n			return timepb.PeriodsIntersect(","		opts = append(opts, resource.WithInclude(func(id string, item proto.Message) bool {\n			if item == nil {\n				return false\n			}\n			itemVal := item.(*traits.Booking)\n			return timepb.PeriodsConnected(")],
 '''package bookingpb

import (
	"context"
	"testing"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	timepb "github.com/smart-core-os/sc-golang/pkg/time"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/grpc"
)

type zzStream struct {
	grpc.ServerStream
	ctx context.Context
	got func(*traits.PullBookingsResponse)
}

func (s *zzStream) Context() context.Context { return s.ctx }
func (s *zzStream) Send(r *traits.PullBookingsResponse) error {
	s.got(r)
	return nil
}

func TestZZDemo(t *testing.T) {
	ts := func(n int64) *timestamppb.Timestamp { return &timestamppb.Timestamp{Seconds: n} }
	m := NewModel()
	s := NewModelServer(m)
	ctx, stop := context.WithTimeout(context.Background(), 200*time.Millisecond)
	defer stop()
	m.CreateBooking(&traits.Booking{Id: "a", Booked: timepb.PeriodBetween(ts(1), ts(2))})
	n := 0
	s.PullBookings(&traits.ListBookingsRequest{BookingIntersects: timepb.PeriodBetween(ts(2), ts(3))}, &zzStream{ctx: ctx, got: func(*traits.PullBookingsResponse) { n++ }})
	l, _ := s.ListBookings(ctx, &traits.ListBookingsRequest{BookingIntersects: timepb.PeriodBetween(ts(2), ts(3))})
	if n != len(l.Bookings) {
		t.Fatal(n, "pulled", len(l.Bookings), "listed")
	}
}
''',"a booking that ends exactly when the period of interest starts","the stream has bookings that the list with the same period doesn't")
