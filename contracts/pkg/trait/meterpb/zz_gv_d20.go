package meterpb

import (
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// dClock tells the time it is set to.
type dClock struct{ sec int64 }

func (c *dClock) Now() time.Time                         { return time.Unix(c.sec, 0) }
func (c *dClock) After(d time.Duration) <-chan time.Time { return time.After(d) }

// A reading ends when it is recorded and starts when it was reset, or as it was configured.
//
//gv:property C20
//gv:for (*Model).RecordReading covers NewModel (*Model).Reset (*Model).GetMeterReading
func gvc_MeterReading(usage, more float32, hasStart, hasEnd bool, start, end, t0, t1, t2 int64, reset1, reset2 bool) {
	gv.Assume(0 <= start && start <= end && end < 1<<30)
	gv.Assume(0 < t0 && t0 <= t1 && t1 <= t2 && t2 < 1<<30)
	init := &traits.MeterReading{Usage: usage}
	if hasStart {
		init.StartTime = &timestamppb.Timestamp{Seconds: start}
	}
	if hasEnd {
		init.EndTime = &timestamppb.Timestamp{Seconds: end}
	}
	c := &dClock{t0}
	m := NewModel(resource.WithClock(c), resource.WithInitialValue(init))
	got, err := m.GetMeterReading()
	gv.Ensures("a model has a reading", err == nil && got != nil && got.Usage == usage)
	gv.Ensures("with a start and an end", got.StartTime != nil && got.EndTime != nil)
	gv.Ensures("as configured", (!hasStart || got.StartTime.Seconds == start) && (!hasEnd || got.EndTime.Seconds == end))
	gv.Ensures("or now", hasStart || hasEnd || got.StartTime.Seconds == t0 && got.EndTime.Seconds == t0)
	gv.Ensures("in order", got.StartTime.Seconds <= got.EndTime.Seconds)
	at := got.StartTime.Seconds
	for k, reset := range []bool{reset1, reset2} {
		c.sec = []int64{t1, t2}[k]
		u := usage
		if reset {
			u, at = 0, c.sec
			got, err = m.Reset()
		} else {
			u += more
			got, err = m.RecordReading(u)
		}
		is := func(r *traits.MeterReading) bool {
			return r != nil && r.Usage == u && r.StartTime != nil && r.StartTime.Seconds == at && r.StartTime.Nanos == 0 &&
				r.EndTime != nil && r.EndTime.Seconds == c.sec && r.EndTime.Nanos == 0
		}
		gv.Ensures("recorded", err == nil && is(got))
		got, err = m.GetMeterReading()
		gv.Ensures("and stored", err == nil && is(got))
	}
}

func gvg_MeterReading(g *gv.Gen) (usage, more float32, hasStart, hasEnd bool, start, end, t0, t1, t2 int64, reset1, reset2 bool) {
	b := func() bool { return g.R.Intn(2) == 0 }
	start = int64(g.R.Intn(50))
	end = start + int64(g.R.Intn(50))
	t0 = 1 + int64(g.R.Intn(100))
	t1 = t0 + int64(g.R.Intn(3))
	t2 = t1 + int64(g.R.Intn(3))
	return float32(g.R.Intn(100)), float32(g.R.Intn(100)), b(), b(), start, end, t0, t1, t2, b(), b()
}
