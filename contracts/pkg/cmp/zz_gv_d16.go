package cmp

import (
	"math"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// Two messages of one type, any of whose fields of a kind have any values: the default comparer is protobuf equality.
//
//gv:property C16
//gv:for Equal covers (equator).compare (equator).equalMessage (equator).equalField (equator).equalValue (equator).equalUnknown ignoreField
//gv:unroll 200
//gv:norun
func gvc_DefaultEqual(which uint8, i, j int32, u, v uint64, s, t string, a, b bool, xn, yn uint8) {
	gv.Requires(which <= 5 && xn <= 2 && yn <= 2)
	x, y := &testproto.TestAllTypes{}, &testproto.TestAllTypes{}
	switch which {
	case 0: // scalars
		x.DefaultInt32, y.DefaultInt32 = i, j
		x.DefaultFixed64, y.DefaultFixed64 = u, v
		x.DefaultString, y.DefaultString = s, t
		x.DefaultBool, y.DefaultBool = a, b
	case 1: // enums
		x.DefaultNestedEnum, y.DefaultNestedEnum = testproto.TestAllTypes_NestedEnum(i), testproto.TestAllTypes_NestedEnum(j)
		x.DefaultUint64, y.DefaultUint64 = u, v
	case 2: // messages: none, an empty one, one with a value
		if xn > 0 {
			x.DefaultNestedMessage = &testproto.TestAllTypes_NestedMessage{}
		}
		if yn > 0 {
			y.DefaultNestedMessage = &testproto.TestAllTypes_NestedMessage{}
		}
		if xn > 1 {
			x.DefaultNestedMessage.A = i
		}
		if yn > 1 {
			y.DefaultNestedMessage.A = j
		}
		x.DefaultString, y.DefaultString = s, t
	case 3: // members of a oneof: none, a scalar, a message
		switch xn {
		case 1:
			x.OneofDefault = &testproto.TestAllTypes_OneofDefaultInt32{OneofDefaultInt32: i}
		case 2:
			x.OneofDefault = &testproto.TestAllTypes_OneofDefaultNestedMessage{OneofDefaultNestedMessage: &testproto.TestAllTypes_NestedMessage{A: i}}
		}
		switch yn {
		case 1:
			y.OneofDefault = &testproto.TestAllTypes_OneofDefaultInt32{OneofDefaultInt32: j}
		case 2:
			y.OneofDefault = &testproto.TestAllTypes_OneofDefaultNestedMessage{OneofDefaultNestedMessage: &testproto.TestAllTypes_NestedMessage{A: j}}
		}
	case 4: // lists of scalars
		for k := uint8(0); k < xn; k++ {
			x.RepeatedInt32 = append(x.RepeatedInt32, i+int32(k))
		}
		for k := uint8(0); k < yn; k++ {
			y.RepeatedInt32 = append(y.RepeatedInt32, j-int32(k))
		}
	case 5: // lists of messages
		for k := uint8(0); k < xn; k++ {
			x.RepeatedNestedMessage = append(x.RepeatedNestedMessage, &testproto.TestAllTypes_NestedMessage{A: i + int32(k)})
		}
		for k := uint8(0); k < yn; k++ {
			y.RepeatedNestedMessage = append(y.RepeatedNestedMessage, &testproto.TestAllTypes_NestedMessage{A: j - int32(k)})
		}
	}
	eq := Equal()
	same := eq(x, y)
	if same {
		gv.Reach("equal")
	} else {
		gv.Reach("different")
	}
	gv.Ensures("the default comparer is protobuf equality", same == proto.Equal(x, y))
	gv.Ensures("either way around", eq(y, x) == same)
	gv.Ensures("a message equals itself", eq(x, x))
}

// Changes of any value and any change times: only their change times are ignored.
//
//gv:property C16
//gv:for ignoreField covers Equal
//gv:unroll 200
//gv:norun
func gvc_ChangeTimeIgnored(name, other string, state, state2 int32, xt, yt bool, s, n, s2, n2 int64) {
	x := &traits.PullOnOffResponse_Change{Name: name, OnOff: &traits.OnOff{State: traits.OnOff_State(state)}}
	y := &traits.PullOnOffResponse_Change{Name: other, OnOff: &traits.OnOff{State: traits.OnOff_State(state2)}}
	if xt {
		x.ChangeTime = &timestamppb.Timestamp{Seconds: s, Nanos: int32(n)}
	}
	if yt {
		y.ChangeTime = &timestamppb.Timestamp{Seconds: s2, Nanos: int32(n2)}
	}
	gv.Ensures("only the change time is ignored", Equal()(x, y) == (name == other && state == state2))
	p := &traits.PullOnOffResponse{Changes: []*traits.PullOnOffResponse_Change{x}}
	q := &traits.PullOnOffResponse{Changes: []*traits.PullOnOffResponse_Change{y}}
	gv.Ensures("in lists too", Equal()(p, q) == (name == other && state == state2))
}

// dWithin says whether two numbers are equal, or no further apart than margin.
func dWithin(a, b, margin float64) bool {
	return a == b || a != a && b != b || a-a == 0 && b-b == 0 && math.Abs(a-b) <= margin
}

// Numbers of any values under any tolerance.
//
//gv:property C16
//gv:for FloatValueApprox covers Equal
//gv:fp
//gv:unroll 200
//gv:norun
func gvc_DoubleTolerance(fx, fy, margin float64) {
	gv.Requires(margin >= 0 && fx != 0 && fy != 0)
	x, y := &testproto.TestAllTypes{DefaultDouble: fx}, &testproto.TestAllTypes{DefaultDouble: fy}
	gv.Ensures("exactly those within the margin are equal", Equal(FloatValueApprox(0, margin))(x, y) == dWithin(fx, fy, margin))
}

// Single precision too.
//
//gv:property C16
//gv:for FloatValueApprox covers Equal
//gv:fp
//gv:unroll 200
//gv:norun
func gvc_FloatTolerance(fx, fy float32, margin float64) {
	gv.Requires(margin >= 0 && fx != 0 && fy != 0)
	x, y := &testproto.TestAllTypes{DefaultFloat: fx}, &testproto.TestAllTypes{DefaultFloat: fy}
	gv.Ensures("exactly those within the margin are equal", Equal(FloatValueApprox(0, margin))(x, y) == dWithin(float64(fx), float64(fy), margin))
}

// Fields of other kinds are compared as ever, whatever the tolerances.
//
//gv:property C16
//gv:for FloatValueApprox covers TimeValueWithin DurationValueWithin DurationValueWithinP Equal
//gv:fp
//gv:unroll 200
//gv:norun
func gvc_OtherFields(fraction, margin float64, p float32, d int64, i, j int32, s, t string, a, b bool, nested bool) {
	eq := Equal(FloatValueApprox(fraction, margin), TimeValueWithin(time.Duration(d)), DurationValueWithin(time.Duration(d)), DurationValueWithinP(p))
	x := &testproto.TestAllTypes{DefaultInt32: i, DefaultString: s, DefaultBool: a}
	y := &testproto.TestAllTypes{DefaultInt32: j, DefaultString: t, DefaultBool: b}
	if nested {
		x = &testproto.TestAllTypes{DefaultNestedMessage: &testproto.TestAllTypes_NestedMessage{A: i}}
		y = &testproto.TestAllTypes{DefaultNestedMessage: &testproto.TestAllTypes_NestedMessage{A: j}}
		gv.Ensures("messages are compared as ever", eq(x, y) == (i == j))
		return
	}
	gv.Ensures("other fields are compared as ever", eq(x, y) == (i == j && s == t && a == b))
}

// Times of any values under any tolerance.
//
//gv:property C16
//gv:for TimeValueWithin covers timesWithin toTime DurationValueWithin cmpDuration fromZero Equal
//gv:unroll 200
//gv:norun
func gvc_TimeTolerance(s, s2 int64, n, n2 int32, d int64, i, j int32) {
	gv.Requires(s >= -62135596800 && s <= 253402300799 && s2 >= -62135596800 && s2 <= 253402300799)
	gv.Requires(n >= 0 && n < 1e9 && n2 >= 0 && n2 < 1e9 && d >= 0)
	// |s.n - s2.n2| <= d
	ds, dn := s-s2, int64(n)-int64(n2)
	if ds < 0 || ds == 0 && dn < 0 {
		ds, dn = -ds, -dn
	}
	if dn < 0 {
		ds, dn = ds-1, dn+1e9
	}
	within := ds < d/1e9 || ds == d/1e9 && dn <= d%1e9
	eq := Equal(TimeValueWithin(time.Duration(d)), DurationValueWithin(time.Duration(d)))
	x := &testproto.WellKnown{DefaultTimestamp: &timestamppb.Timestamp{Seconds: s, Nanos: n}}
	y := &testproto.WellKnown{DefaultTimestamp: &timestamppb.Timestamp{Seconds: s2, Nanos: n2}}
	gv.Ensures("exactly the times within the tolerance are equal", eq(x, y) == within)
	gv.Ensures("either way around", eq(y, x) == within)
	gv.Ensures("a time is unlike none", !eq(x, &testproto.WellKnown{}) && !eq(&testproto.WellKnown{}, x))
	if s >= 0 && s2 >= 0 && s <= 315576000000 && s2 <= 315576000000 {
		x, y = &testproto.WellKnown{DefaultDuration: &durationpb.Duration{Seconds: s, Nanos: n}}, &testproto.WellKnown{DefaultDuration: &durationpb.Duration{Seconds: s2, Nanos: n2}}
		gv.Ensures("exactly the durations within the tolerance are equal", eq(x, y) == within)
	}
	p, q := &testproto.TestAllTypes{DefaultInt32: i}, &testproto.TestAllTypes{DefaultInt32: j}
	gv.Ensures("other fields aren't affected", eq(p, q) == (i == j))
}
