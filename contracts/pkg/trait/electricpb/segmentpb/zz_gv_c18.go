package segmentpb

import (
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/protobuf/types/known/durationpb"
)

const specMaxSec = 1 << 28 // up to 8.5 years per segment: totals stay within time.Duration

// specDur: a well formed non-negative duration (seconds and nanos in range)
func specDurOK(d *durationpb.Duration) bool {
	return d == nil || gv.And(0 <= d.Seconds, d.Seconds <= specMaxSec, 0 <= d.Nanos, d.Nanos <= 999999999)
}

// SpecListOK: a segment list: no absent segments, only the last one may be infinite, lengths well formed
func SpecListOK(ss []*traits.ElectricMode_Segment) bool {
	return gv.Forall(0, len(ss), func(i int) bool {
		s := ss[i]
		return s != nil && specDurOK(s.Length) && (s.Length != nil || i == len(ss)-1)
	})
}

func SpecLen(s *traits.ElectricMode_Segment) time.Duration {
	return time.Duration(s.Length.Seconds)*time.Second + time.Duration(s.Length.Nanos)
}

// SpecStart is the time at which segment i starts.
func SpecStart(ss []*traits.ElectricMode_Segment, i int) time.Duration {
	var t time.Duration
	for j := 0; j < i; j++ {
		t += SpecLen(ss[j])
	}
	return t
}

// SpecMag reads a list as a step function of time: 0 outside the segments.
func SpecMag(ss []*traits.ElectricMode_Segment, t time.Duration) float32 {
	if t < 0 {
		return 0
	}
	var cur time.Duration
	for _, s := range ss {
		if s.Length == nil {
			return s.Magnitude
		}
		cur += SpecLen(s)
		if t < cur {
			return s.Magnitude
		}
	}
	return 0
}

// SpecDefined: some segment covers t.
func SpecDefined(ss []*traits.ElectricMode_Segment, t time.Duration) bool {
	if t < 0 {
		return false
	}
	var cur time.Duration
	for _, s := range ss {
		if s.Length == nil {
			return true
		}
		cur += SpecLen(s)
		if t < cur {
			return true
		}
	}
	return false
}

func specNonZero(s *traits.ElectricMode_Segment) bool {
	return s.Length == nil || SpecLen(s) > 0
}

const specMaxT = 1 << 60

//gv:property C18
//gv:for ActiveAt
func gvc_ActiveAt(d time.Duration, ss []*traits.ElectricMode_Segment) {
	gv.Bound("segments", len(ss), 5)
	gv.Requires(SpecListOK(ss))
	fz := gv.Freeze(ss)
	e, i := ActiveAt(d, ss...)
	gv.Ensures("ActiveAt writes nothing", fz.Unchanged())
	gv.Ensures("ActiveAt before the start is (d, 0)", gv.Implies(d < 0, e == d && i == 0))
	if d < 0 {
		return
	}
	gv.Reach("inside")
	gv.Ensures("ActiveAt index in range", gv.And(0 <= i, i <= len(ss)))
	gv.Ensures("ActiveAt elapsed is the start of the active segment", e == SpecStart(ss, i))
	gv.Ensures("the active segment starts at or before d", i == len(ss) || e <= d)
	gv.Ensures("the active segment ends after d", i == len(ss) || ss[i].Length == nil || d < e+SpecLen(ss[i]))
	gv.Ensures("len(segments) exactly when no segment covers d", gv.Iff(i == len(ss), !SpecDefined(ss, d)))
}

//gv:property C18
//gv:for MagnitudeAt
func gvc_MagnitudeAt(d time.Duration, ss []*traits.ElectricMode_Segment) {
	gv.Bound("segments", len(ss), 5)
	gv.Requires(SpecListOK(ss))
	fz := gv.Freeze(ss)
	m, ok := MagnitudeAt(d, ss...)
	gv.Ensures("MagnitudeAt writes nothing", fz.Unchanged())
	gv.Ensures("MagnitudeAt is ok exactly inside the list", ok == SpecDefined(ss, d))
	gv.Ensures("MagnitudeAt is the step function", m == SpecMag(ss, d))
}

//gv:property C18
//gv:for Duration
func gvc_Duration(ss []*traits.ElectricMode_Segment) {
	gv.Bound("segments", len(ss), 6)
	gv.Requires(SpecListOK(ss))
	fz := gv.Freeze(ss)
	total, inf := Duration(ss...)
	gv.Ensures("Duration writes nothing", fz.Unchanged())
	infinite := len(ss) > 0 && ss[len(ss)-1].Length == nil
	gv.Ensures("Duration is infinite exactly when the last segment is", inf == infinite)
	n := len(ss)
	if infinite {
		n--
	}
	gv.Ensures("Duration is the sum of the lengths", total == SpecStart(ss, n))
}

//gv:property C18
//gv:for Max MaxMagnitude
func gvc_Max(ss []*traits.ElectricMode_Segment) {
	gv.Bound("segments", len(ss), 4)
	gv.Requires(SpecListOK(ss))
	fz := gv.Freeze(ss)
	r := Max(ss...)
	m := MaxMagnitude(ss...)
	gv.Ensures("Max writes nothing", fz.Unchanged())
	gv.Ensures("Max index in range", gv.And(0 <= r, r <= len(ss)))
	gv.Ensures("Max is len exactly when every segment has zero length", gv.Iff(r == len(ss), gv.Forall(0, len(ss), func(i int) bool { return !specNonZero(ss[i]) })))
	if r < len(ss) && r >= 0 {
		gv.Ensures("Max is not a zero-length segment", specNonZero(ss[r]))
		gv.Ensures("no non-empty segment exceeds Max", gv.Forall(0, len(ss), func(i int) bool { return !specNonZero(ss[i]) || ss[i].Magnitude <= ss[r].Magnitude }))
		gv.Ensures("MaxMagnitude is the magnitude at Max", m == ss[r].Magnitude)
	} else {
		gv.Ensures("MaxMagnitude of nothing is 0", m == 0)
	}
}

//gv:property C18
//gv:for MaxAfter
func gvc_MaxAfter(d time.Duration, ss []*traits.ElectricMode_Segment) {
	gv.Bound("segments", len(ss), 4)
	gv.Requires(SpecListOK(ss))
	fz := gv.Freeze(ss)
	r := MaxAfter(d, ss...)
	gv.Ensures("MaxAfter writes nothing", fz.Unchanged())
	gv.Ensures("MaxAfter index in range", gv.And(0 <= r, r <= len(ss)))
	// segment i is active at or after d (and not empty)
	after := func(i int) bool {
		return specNonZero(ss[i]) && (ss[i].Length == nil || d < SpecStart(ss, i)+SpecLen(ss[i]))
	}
	gv.Ensures("MaxAfter is len exactly when nothing is active at or after d", gv.Iff(r == len(ss), gv.Forall(0, len(ss), func(i int) bool { return !after(i) })))
	if r < len(ss) && r >= 0 {
		gv.Ensures("MaxAfter is active at or after d", after(r))
		gv.Ensures("nothing active at or after d exceeds MaxAfter", gv.Forall(0, len(ss), func(i int) bool { return !after(i) || ss[i].Magnitude <= ss[r].Magnitude }))
	}
}

//gv:property C18
//gv:for SumMagnitude
func gvc_SumMagnitude(ss []*traits.ElectricMode_Segment) {
	gv.Bound("segments", len(ss), 6)
	gv.Requires(SpecListOK(ss))
	fz := gv.Freeze(ss)
	r := SumMagnitude(ss...)
	gv.Ensures("SumMagnitude writes nothing", fz.Unchanged())
	var want float32
	for _, s := range ss {
		want += s.Magnitude
	}
	gv.Ensures("SumMagnitude adds the magnitudes", r == want)
}

// Cut splits without changing the function.
//
//gv:property C18
//gv:for Cut
func gvc_Cut(d time.Duration, s *traits.ElectricMode_Segment, t time.Duration) {
	gv.Requires(s != nil && specDurOK(s.Length))
	gv.Requires(-specMaxT <= t && t <= specMaxT && -specMaxT <= d && d <= specMaxT)
	fz := gv.Freeze(s)
	b, a, outside := Cut(d, s)
	gv.Ensures("Cut writes nothing", fz.Unchanged())
	gv.Ensures("outside exactly when d is not within the segment", outside == (d < 0 || (s.Length != nil && d >= SpecLen(s) && d > 0)))
	whole := []*traits.ElectricMode_Segment{s}
	if b == nil || a == nil {
		gv.Ensures("an uncut segment is returned unchanged", gv.Or(b == nil && a == s, a == nil && b == s))
		gv.Ensures("the uncut segment is after exactly when d <= 0", gv.Iff(b == nil, d <= 0))
		return
	}
	gv.Reach("cut in two")
	bs, as := []*traits.ElectricMode_Segment{b}, []*traits.ElectricMode_Segment{a}
	gv.Ensures("the first part is d long", b.Length != nil && gv.And(b.Length.Seconds >= 0, b.Length.Nanos >= 0, b.Length.Nanos <= 999999999) && SpecLen(b) == d)
	gv.Ensures("the second part has a well formed length", specDurOK(a.Length))
	if t < d {
		gv.Ensures("before the cut: the first part", SpecMag(bs, t) == SpecMag(whole, t))
	} else {
		gv.Ensures("after the cut: the second part, translated", SpecMag(as, t-d) == SpecMag(whole, t))
	}
}

// Shift is translation: the shifted list at t is the original at t-d (for t >= 0).
//
//gv:property C18
//gv:for Shift
func gvc_Shift(d time.Duration, ss []*traits.ElectricMode_Segment, t time.Duration) {
	gv.Bound("segments", len(ss), 4)
	gv.Requires(SpecListOK(ss))
	gv.Requires(-specMaxT <= d && d <= specMaxT)
	gv.Requires(0 <= t && t <= specMaxT)
	fz := gv.Freeze(ss)
	out := Shift(d, ss...)
	gv.Ensures("Shift writes nothing", fz.Unchanged())
	gv.Ensures("Shift produces well formed segments", gv.Forall(0, len(out), func(i int) bool {
		return out[i] != nil && (out[i].Length != nil || i == len(out)-1) && (out[i].Length == nil || gv.And(out[i].Length.Seconds >= 0, out[i].Length.Nanos >= 0, out[i].Length.Nanos <= 999999999))
	}))
	gv.Ensures("Shift translates the step function", SpecMag(out, t) == SpecMag(ss, t-d))
	// beyond magnitudes: the list ends d later
	gv.Ensures("Shift keeps an infinite list infinite", gv.Implies(len(ss) > 0 && ss[len(ss)-1].Length == nil, len(out) > 0 && out[len(out)-1].Length == nil))
}

//gv:property C18
//gv:for Shift
func gvc_ShiftExtent(d time.Duration, ss []*traits.ElectricMode_Segment, t time.Duration) {
	gv.Bound("segments", len(ss), 3)
	gv.Requires(SpecListOK(ss))
	gv.Requires(len(ss) > 0 && ss[len(ss)-1].Length != nil)
	gv.Requires(-specMaxT <= d && d <= specMaxT)
	out := Shift(d, ss...)
	want := SpecStart(ss, len(ss)) + d
	if want < 0 {
		want = 0
	}
	gv.Ensures("the shifted list ends d later", SpecStart(out, len(out)) == want)
}

// Sum is pointwise addition.
//
//gv:property C18
//gv:for Sum calcCuts
func gvc_Sum(a, b []*traits.ElectricMode_Segment, t time.Duration) {
	gv.Bound("first list", len(a), 1)
	gv.Bound("second list", len(b), 1)
	gv.Requires(SpecListOK(a))
	gv.Requires(SpecListOK(b))
	gv.Requires(0 <= t && t <= specMaxT)
	fz := gv.Freeze(a, b)
	out := Sum(a, b)
	gv.Ensures("Sum writes nothing", fz.Unchanged())
	gv.Ensures("Sum is pointwise addition", SpecMag(out, t) == SpecMag(a, t)+SpecMag(b, t))
}

// ---- input generators used when the contracts are executed on the compiled code

func GenSegs(g *gv.Gen, max int) []*traits.ElectricMode_Segment {
	n := g.R.Intn(max + 1)
	var ss []*traits.ElectricMode_Segment
	for i := 0; i < n; i++ {
		s := &traits.ElectricMode_Segment{Magnitude: float32(g.R.Intn(7) - 2)}
		if g.R.Intn(4) == 0 {
			s.Magnitude = 0
		}
		if i < n-1 || g.R.Intn(3) > 0 {
			s.Length = durationpb.New(GenDur(g))
			if s.Length.Seconds < 0 || s.Length.Nanos < 0 {
				s.Length = durationpb.New(0)
			}
		}
		if g.R.Intn(4) == 0 {
			s.Shape = &traits.ElectricMode_Segment_Fixed{Fixed: 1}
		}
		ss = append(ss, s)
	}
	if n > 0 && g.R.Intn(3) == 0 { // spare capacity
		ss = append(ss, &traits.ElectricMode_Segment{Magnitude: 9})[:n]
	}
	return ss
}

func GenDur(g *gv.Gen) time.Duration {
	if g.R.Intn(8) == 0 {
		return time.Duration(g.R.Intn(4)) * time.Nanosecond
	}
	return time.Duration(g.R.Intn(5)) * time.Second
}

func GenT(g *gv.Gen) time.Duration {
	return GenDur(g) + GenDur(g) + GenDur(g) - time.Duration(g.R.Intn(2))*time.Duration(g.R.Intn(3))
}

func GenShift(g *gv.Gen) time.Duration {
	return GenDur(g) + GenDur(g) - GenDur(g) - GenDur(g) - GenDur(g)
}

func gvg_ActiveAt(g *gv.Gen) (time.Duration, []*traits.ElectricMode_Segment) {
	return GenT(g), GenSegs(g, 6)
}
func gvg_MagnitudeAt(g *gv.Gen) (time.Duration, []*traits.ElectricMode_Segment) {
	return GenT(g), GenSegs(g, 6)
}
func gvg_Duration(g *gv.Gen) []*traits.ElectricMode_Segment { return GenSegs(g, 6) }
func gvg_Max(g *gv.Gen) []*traits.ElectricMode_Segment      { return GenSegs(g, 6) }
func gvg_MaxAfter(g *gv.Gen) (time.Duration, []*traits.ElectricMode_Segment) {
	return GenT(g), GenSegs(g, 6)
}
func gvg_SumMagnitude(g *gv.Gen) []*traits.ElectricMode_Segment { return GenSegs(g, 6) }
func gvg_Cut(g *gv.Gen) (time.Duration, *traits.ElectricMode_Segment, time.Duration) {
	for {
		if ss := GenSegs(g, 3); len(ss) > 0 {
			return GenShift(g), ss[0], GenT(g)
		}
	}
}
func gvg_Shift(g *gv.Gen) (time.Duration, []*traits.ElectricMode_Segment, time.Duration) {
	return GenShift(g), GenSegs(g, 6), GenT(g)
}
func gvg_ShiftExtent(g *gv.Gen) (time.Duration, []*traits.ElectricMode_Segment, time.Duration) {
	return GenShift(g), GenSegs(g, 6), GenT(g)
}
func gvg_Sum(g *gv.Gen) (a, b []*traits.ElectricMode_Segment, t time.Duration) {
	return GenSegs(g, 4), GenSegs(g, 4), GenT(g)
}
