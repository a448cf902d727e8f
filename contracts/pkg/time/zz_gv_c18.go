package time

import (
	"github.com/smart-core-os/sc-api/go/types/time"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// specValidTS is the data invariant of Timestamp: nanos count forward within the second.
func specValidTS(t *timestamppb.Timestamp) bool {
	return t != nil && 0 <= t.Nanos && t.Nanos <= 999999999
}

func specTSLess(a, b *timestamppb.Timestamp) bool {
	return a.Seconds < b.Seconds || (a.Seconds == b.Seconds && a.Nanos < b.Nanos)
}

// specLowerLTUpper: the point set {x | lo <= x} and {x | x < hi} meet, i.e. lo < hi, absent meaning unbounded.
func specLT(lo, hi *timestamppb.Timestamp) bool {
	return lo == nil || hi == nil || specTSLess(lo, hi)
}
func specLE(lo, hi *timestamppb.Timestamp) bool {
	return lo == nil || hi == nil || !specTSLess(hi, lo)
}
func specValidPeriod(p *time.Period) bool {
	return p == nil || ((p.StartTime == nil || specValidTS(p.StartTime)) && (p.EndTime == nil || specValidTS(p.EndTime)))
}

// timestamp comparison is the chronological total order with values -1, 0, 1.
//
//gv:property C18
//gv:for CompareAscending
func gvc_CompareAscending(t1, t2 *timestamppb.Timestamp) {
	gv.Requires(specValidTS(t1))
	gv.Requires(specValidTS(t2))
	fz := gv.Freeze(t1, t2)
	r := CompareAscending(t1, t2)
	gv.Ensures("CompareAscending is -1 exactly when t1 is before t2", gv.Iff(r == -1, specTSLess(t1, t2)))
	gv.Ensures("CompareAscending is 1 exactly when t1 is after t2", gv.Iff(r == 1, specTSLess(t2, t1)))
	gv.Ensures("CompareAscending is 0 exactly when the instants are equal", gv.Iff(r == 0, t1.Seconds == t2.Seconds && t1.Nanos == t2.Nanos))
	gv.Ensures("CompareAscending writes nothing", fz.Unchanged())
}

// PeriodsIntersect: the half-open intervals share a point: max(lower) < min(upper).
//
//gv:property C18
//gv:for PeriodsIntersect cutPeriod compareValueCuts (*below).CompareTo (*belowAll).CompareTo (*aboveAll).CompareTo
func gvc_PeriodsIntersect(p1, p2 *time.Period) {
	gv.Requires(specValidPeriod(p1))
	gv.Requires(specValidPeriod(p2))
	fz := gv.Freeze(p1, p2)
	r := PeriodsIntersect(p1, p2)
	gv.Ensures("PeriodsIntersect writes nothing", fz.Unchanged())
	if p1 == nil || p2 == nil {
		gv.Ensures("an absent period intersects nothing", !r)
		return
	}
	want := specLT(p1.StartTime, p1.EndTime) && specLT(p1.StartTime, p2.EndTime) && specLT(p2.StartTime, p1.EndTime) && specLT(p2.StartTime, p2.EndTime)
	gv.Reach("intersecting")
	gv.Ensures("PeriodsIntersect is true exactly when the intervals share an instant", r == want)
}

// PeriodsConnected: a possibly empty period is enclosed by both.
//
//gv:property C18
//gv:for PeriodsConnected cutPeriod compareValueCuts
func gvc_PeriodsConnected(p1, p2 *time.Period) {
	gv.Requires(specValidPeriod(p1))
	gv.Requires(specValidPeriod(p2))
	gv.Requires(p1 == nil || specLE(p1.StartTime, p1.EndTime))
	gv.Requires(p2 == nil || specLE(p2.StartTime, p2.EndTime))
	fz := gv.Freeze(p1, p2)
	r := PeriodsConnected(p1, p2)
	gv.Ensures("PeriodsConnected writes nothing", fz.Unchanged())
	if p1 == nil || p2 == nil {
		gv.Ensures("an absent period is connected to nothing", !r)
		return
	}
	want := specLE(p1.StartTime, p2.EndTime) && specLE(p2.StartTime, p1.EndTime)
	gv.Ensures("PeriodsConnected is true exactly when the intervals overlap or touch", r == want)
}

//gv:property C18
//gv:for PeriodsIntersect
func gvc_PeriodsSymmetric(p1, p2 *time.Period) {
	gv.Requires(specValidPeriod(p1))
	gv.Requires(specValidPeriod(p2))
	gv.Ensures("PeriodsIntersect is symmetric", PeriodsIntersect(p1, p2) == PeriodsIntersect(p2, p1))
	gv.Ensures("PeriodsConnected is symmetric", PeriodsConnected(p1, p2) == PeriodsConnected(p2, p1))
}

// The constructors denote the intervals they are named after.
//
//gv:property C18
//gv:for PeriodBetween AllTime PeriodBefore PeriodOnOrAfter
func gvc_PeriodConstructors(a, b *timestamppb.Timestamp) {
	p := PeriodBetween(a, b)
	gv.Ensures("PeriodBetween(a, b) is [a, b)", p.StartTime == a && p.EndTime == b)
	q := AllTime()
	gv.Ensures("AllTime is unbounded", q.StartTime == nil && q.EndTime == nil)
	r := PeriodBefore(a)
	gv.Ensures("PeriodBefore(t) is (-inf, t)", r.StartTime == nil && r.EndTime == a)
	s := PeriodOnOrAfter(a)
	gv.Ensures("PeriodOnOrAfter(t) is [t, inf)", s.StartTime == a && s.EndTime == nil)
}
