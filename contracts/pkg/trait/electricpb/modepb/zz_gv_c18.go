package modepb

import (
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb/segmentpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// specTS: a well formed timestamp whose distance to any other such timestamp fits a time.Duration
func specTS(t *timestamppb.Timestamp) bool {
	return gv.And(-62135596800 <= t.Seconds, t.Seconds <= -62135596800+(1<<31), 0 <= t.Nanos, t.Nanos <= 999999999)
}

func specTime(t *timestamppb.Timestamp) bool { return t != nil && specTS(t) }

func specModeOK(m *traits.ElectricMode) bool {
	return m != nil && (m.StartTime == nil || specTS(m.StartTime)) && segmentpb.SpecListOK(m.Segments)
}

// specSince is the time since the start of m; a mode without a start time starts at t.
func specSince(t *timestamppb.Timestamp, m *traits.ElectricMode) time.Duration {
	if m.StartTime == nil {
		return 0
	}
	return time.Duration(t.Seconds-m.StartTime.Seconds)*time.Second + time.Duration(t.Nanos-m.StartTime.Nanos)
}

//gv:property C18
//gv:for ActiveAt MagnitudeAt MaxSegmentAfter
func gvc_At(ts *timestamppb.Timestamp, m *traits.ElectricMode) {
	gv.Requires(m != nil)
	gv.Bound("segments", len(m.Segments), 2)
	gv.Requires(specTime(ts) && specModeOK(m))
	t := ts.AsTime()
	fz := gv.Freeze(m)
	e, i := ActiveAt(t, m)
	mag, ok := MagnitudeAt(t, m)
	mx := MaxSegmentAfter(t, m)
	gv.Ensures("reading a mode writes nothing", fz.Unchanged())
	d := specSince(ts, m)
	gv.Ensures("MagnitudeAt is the step function from the start time", mag == segmentpb.SpecMag(m.Segments, d))
	gv.Ensures("MagnitudeAt is ok exactly inside the mode", ok == segmentpb.SpecDefined(m.Segments, d))
	if d < 0 {
		gv.Reach("before the start")
		gv.Ensures("ActiveAt before the start", e == d && i == 0)
	} else {
		gv.Ensures("ActiveAt is len(segments) exactly outside", gv.And(0 <= i, i <= len(m.Segments), gv.Iff(i == len(m.Segments), !segmentpb.SpecDefined(m.Segments, d))))
		gv.Ensures("ActiveAt elapsed is the start of the segment", e == segmentpb.SpecStart(m.Segments, i))
		gv.Ensures("the active segment covers t", i == len(m.Segments) || e <= d && (m.Segments[i].Length == nil || d < e+segmentpb.SpecLen(m.Segments[i])))
	}
	gv.Ensures("MaxSegmentAfter is the segment maximum after the elapsed time", mx == segmentpb.MaxAfter(d, m.Segments...))
}

//gv:property C18
//gv:for MinAt
func gvc_MinAt(ts *timestamppb.Timestamp, a, b *traits.ElectricMode) {
	gv.Requires(a != nil && b != nil)
	gv.Bound("segments of a", len(a.Segments), 1)
	gv.Bound("segments of b", len(b.Segments), 1)
	gv.Requires(specTime(ts) && specModeOK(a) && specModeOK(b))
	t := ts.AsTime()
	fz := gv.Freeze(a, b)
	m0, g0 := MinAt(t, map[string]*traits.ElectricMode{})
	gv.Ensures("MinAt of no modes is nothing", m0 == nil && g0 == 0)
	m, g := MinAt(t, map[string]*traits.ElectricMode{"a": a, "b": b})
	gv.Ensures("MinAt writes nothing", fz.Unchanged())
	ma := segmentpb.SpecMag(a.Segments, specSince(ts, a))
	mb := segmentpb.SpecMag(b.Segments, specSince(ts, b))
	gv.Ensures("MinAt returns one of the modes with its magnitude", m == a && g == ma || m == b && g == mb)
	gv.Ensures("MinAt is minimal", g <= ma && g <= mb)
}

//gv:property C18
//gv:for Shift
func gvc_Shift(ts *timestamppb.Timestamp, d time.Duration, m *traits.ElectricMode) {
	gv.Requires(m != nil)
	gv.Bound("segments", len(m.Segments), 2)
	gv.Requires(specTime(ts) && specModeOK(m))
	gv.Requires(-(1<<60) <= d && d <= 1<<60)
	gv.Requires(m.StartTime == nil || m.StartTime.Seconds >= -62135596800+(1<<30)+(1<<29))
	fz := gv.Freeze(m)
	s := Shift(d, m)
	gv.Ensures("Shift writes nothing", fz.Unchanged())
	gv.Ensures("Shift keeps whether there is a start time", (s.StartTime == nil) == (m.StartTime == nil))
	gv.Ensures("Shift keeps the other fields", s.Id == m.Id && s.Title == m.Title && s.Voltage == m.Voltage && s.Normal == m.Normal)
	if m.StartTime != nil {
		gv.Reach("with a start time")
		gv.Ensures("Shift of a started mode is translation in time", segmentpb.SpecMag(s.Segments, specSince(ts, s)) == segmentpb.SpecMag(m.Segments, specSince(ts, m)-d))
		gv.Ensures("Shift moves the start", specSince(ts, s) == specSince(ts, m)-d)
	} else {
		u := time.Duration(ts.Seconds+62135596800) * time.Second
		gv.Ensures("Shift of a relative mode translates its segments", segmentpb.SpecMag(s.Segments, u) == segmentpb.SpecMag(m.Segments, u-d))
	}
}

//gv:property C18
//gv:for Cut
func gvc_Cut(ts, us *timestamppb.Timestamp, m *traits.ElectricMode) {
	gv.Requires(m != nil)
	gv.Bound("segments", len(m.Segments), 2)
	gv.Requires(specTime(ts) && specTime(us) && specModeOK(m))
	fz := gv.Freeze(m)
	b, a, outside := Cut(ts.AsTime(), m)
	gv.Ensures("Cut writes nothing", fz.Unchanged())
	d := specSince(ts, m)
	if len(m.Segments) == 0 {
		gv.Ensures("a mode without segments is outside", b == m && a == m && outside)
		return
	}
	gv.Ensures("Cut at or before the start leaves the mode after", gv.Iff(d <= 0, b == nil))
	gv.Ensures("Cut after the end leaves the mode before", gv.Iff(d > 0 && !segmentpb.SpecDefined(m.Segments, d), a == nil))
	gv.Ensures("outside is exact", outside == (d < 0 || d > 0 && !segmentpb.SpecDefined(m.Segments, d)))
	if b == nil || a == nil {
		gv.Ensures("an uncut mode is unchanged", b == nil && a == m || a == nil && b == m)
		return
	}
	gv.Reach("cut in two")
	gv.Ensures("the first part keeps the start", b.StartTime != nil && specSince(us, b) == specSince(us, m))
	gv.Ensures("the second part starts at t", a.StartTime != nil && specSince(us, a) == specSince(us, m)-d)
	u := specSince(us, m)
	if u < d {
		gv.Ensures("before the cut: the first part", segmentpb.SpecMag(b.Segments, u) == segmentpb.SpecMag(m.Segments, u))
	} else {
		gv.Ensures("after the cut: the second part", segmentpb.SpecMag(a.Segments, u-d) == segmentpb.SpecMag(m.Segments, u))
		gv.Ensures("after the cut the first part is over", !segmentpb.SpecDefined(b.Segments, u))
	}
}

// Sum: magnitudes add up at every time from the earliest start, with unstarted modes starting at the latest start.
//
//gv:property C18
//gv:for Sum
func gvc_Sum(us *timestamppb.Timestamp, x, y *traits.ElectricMode) {
	gv.Requires(x != nil && y != nil)
	gv.Bound("segments of x", len(x.Segments), 1)
	gv.Bound("segments of y", len(y.Segments), 1)
	gv.Requires(specTime(us) && specModeOK(x) && specModeOK(y))
	fz := gv.Freeze(x, y)
	gv.Ensures("Sum of nothing is nil", Sum() == nil)
	s := Sum(x, y)
	gv.Ensures("Sum writes nothing", fz.Unchanged())
	gv.Ensures("Sum has a start exactly when a mode has one", gv.Iff(s.StartTime != nil, x.StartTime != nil || y.StartTime != nil))
	if s.StartTime == nil {
		u := time.Duration(us.Seconds+62135596800) * time.Second
		gv.Ensures("relative modes add up", segmentpb.SpecMag(s.Segments, u) == segmentpb.SpecMag(x.Segments, u)+segmentpb.SpecMag(y.Segments, u))
		return
	}
	gv.Reach("with a start time")
	dx, dy := specSince(us, x), specSince(us, y)
	if x.StartTime == nil {
		dx = dy
	}
	if y.StartTime == nil {
		dy = dx
	}
	u := specSince(us, s)
	gv.Ensures("Sum starts at the earliest start", u == dx && dx >= dy || u == dy && dy >= dx)
	gv.Ensures("started modes add up at every time", segmentpb.SpecMag(s.Segments, u) == segmentpb.SpecMag(x.Segments, dx)+segmentpb.SpecMag(y.Segments, dy))
}

// ---- generators

func genTS(g *gv.Gen) *timestamppb.Timestamp {
	base := int64(0)
	if g.R.Intn(2) == 0 {
		base = -62135596800
	} else {
		base = -62135596800 + (1 << 30) + (1 << 29)
	}
	t := &timestamppb.Timestamp{Seconds: base + int64(g.R.Intn(6))}
	if g.R.Intn(4) == 0 {
		t.Nanos = int32(g.R.Intn(3))
	}
	return t
}

func genMode(g *gv.Gen, base *timestamppb.Timestamp) *traits.ElectricMode {
	m := &traits.ElectricMode{Id: g.Str(), Title: g.Str(), Voltage: 1, Segments: segmentpb.GenSegs(g, 4)}
	if g.R.Intn(3) > 0 {
		m.StartTime = &timestamppb.Timestamp{Seconds: base.Seconds - base.Seconds%10 + int64(g.R.Intn(6))}
		if m.StartTime.Seconds < -62135596800 || g.R.Intn(4) == 0 {
			m.StartTime.Seconds = -62135596800
		}
		if base.Seconds-m.StartTime.Seconds > 100 {
			m.StartTime.Seconds = base.Seconds
		}
	}
	return m
}
func gvg_At(g *gv.Gen) (*timestamppb.Timestamp, *traits.ElectricMode) {
	t := genTS(g)
	return t, genMode(g, t)
}
func gvg_MinAt(g *gv.Gen) (*timestamppb.Timestamp, *traits.ElectricMode, *traits.ElectricMode) {
	t := genTS(g)
	return t, genMode(g, t), genMode(g, t)
}
func gvg_Shift(g *gv.Gen) (*timestamppb.Timestamp, time.Duration, *traits.ElectricMode) {
	t := genTS(g)
	return t, segmentpb.GenShift(g), genMode(g, t)
}
func gvg_Cut(g *gv.Gen) (*timestamppb.Timestamp, *timestamppb.Timestamp, *traits.ElectricMode) {
	t := genTS(g)
	u := &timestamppb.Timestamp{Seconds: t.Seconds + int64(g.R.Intn(5))}
	return t, u, genMode(g, t)
}
func gvg_Sum(g *gv.Gen) (*timestamppb.Timestamp, *traits.ElectricMode, *traits.ElectricMode) {
	t := genTS(g)
	return t, genMode(g, t), genMode(g, t)
}
