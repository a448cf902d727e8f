package meterpb

import (
	"context"
	"fmt"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/time/clock"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
)

type meterOp struct {
	kind  int // record, reset, look
	usage float32
	wait  time.Duration
}

type meterRun struct {
	initial *traits.MeterReading
	ops     []meterOp
}

type gvClock struct {
	clock.Clock
	t time.Time
}

func (c *gvClock) Now() time.Time { return c.t }

func gvTime(n int) time.Time { return time.Unix(1000000+int64(n)*10, 0) }

func gvg_Meter(g *gv.Gen) meterRun {
	h := meterRun{}
	if g.R.Intn(3) > 0 {
		h.initial = &traits.MeterReading{Usage: float32(g.R.Intn(100))}
		start := g.R.Intn(5)
		if g.R.Intn(2) == 0 {
			h.initial.StartTime = timestamppb.New(gvTime(start))
		}
		if g.R.Intn(2) == 0 {
			h.initial.EndTime = timestamppb.New(gvTime(start + g.R.Intn(6-start)))
		}
	}
	for i := 1 + g.R.Intn(8); i > 0; i-- {
		h.ops = append(h.ops, meterOp{g.R.Intn(3), float32(g.R.Intn(5)) * 1.5, time.Duration(g.R.Intn(3)) * time.Second})
	}
	return h
}

// A reading ends when it was recorded, and starts when it was last reset or as configured.
//
//gv:property C20
//gv:for (*Model).RecordReading covers NewModel (*Model).Reset (*Model).GetMeterReading (*ModelServer).GetMeterReading
//gv:bounded up to 8 calls on a generated initial reading
func gvc_Meter(h meterRun) {
	c := &gvClock{Clock: clock.Real(), t: gvTime(5)}
	opts := []resource.Option{resource.WithClock(c)}
	want := &traits.MeterReading{}
	if h.initial != nil {
		opts = append(opts, resource.WithInitialValue(h.initial))
		want = proto.Clone(h.initial).(*traits.MeterReading)
	}
	m := NewModel(opts...)
	got, err := m.GetMeterReading()
	gv.Note(fmt.Sprintf("initially {%v}", got))
	gv.Ensures("a model has a reading", err == nil && got != nil)
	gv.Ensures("the configured reading is used", got.Usage == want.Usage && (want.StartTime == nil || proto.Equal(got.StartTime, want.StartTime)) && (want.EndTime == nil || proto.Equal(got.EndTime, want.EndTime)))
	gv.Ensures("a reading has start and end times", got.StartTime != nil && got.EndTime != nil)
	gv.Ensures("a reading starts before it ends", !got.StartTime.AsTime().After(got.EndTime.AsTime()))
	gv.Ensures("a model that isn't configured with times starts now", h.initial.GetStartTime() != nil || h.initial.GetEndTime() != nil || got.StartTime.AsTime().Equal(c.t) && got.EndTime.AsTime().Equal(c.t))
	want = proto.Clone(got).(*traits.MeterReading)
	for _, o := range h.ops {
		c.t = c.t.Add(o.wait)
		got, err = want, nil
		switch o.kind {
		case 0:
			got, err = m.RecordReading(o.usage)
			want = &traits.MeterReading{Usage: o.usage, StartTime: want.StartTime, EndTime: timestamppb.New(c.t)}
		case 1:
			got, err = m.Reset()
			want = &traits.MeterReading{StartTime: timestamppb.New(c.t), EndTime: timestamppb.New(c.t)}
		}
		gv.Note(fmt.Sprintf("at %v %+v: {%v}, want {%v}", c.t, o, got, want))
		gv.Ensures("the reading returned has the usage and times specified", err == nil && proto.Equal(got, want))
		got, err = NewModelServer(m).GetMeterReading(context.Background(), &traits.GetMeterReadingRequest{})
		gv.Ensures("the reading has the usage and times specified", err == nil && proto.Equal(got, want))
	}
}
