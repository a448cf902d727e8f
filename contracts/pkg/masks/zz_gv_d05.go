package masks

import (
	"strings"

	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// ---- a message of messages of two scalars each, its fields one by one

const (
	dT, dTs, dTn = "default_timestamp", "default_timestamp.seconds", "default_timestamp.nanos"
	dD, dDs, dDn = "default_duration", "default_duration.seconds", "default_duration.nanos"
)

type dFields struct {
	t, d   bool // presence
	ts, ds int64
	tn, dn int32
}

func dFieldsOf(m *testproto.WellKnown) dFields {
	var f dFields
	if m.DefaultTimestamp != nil {
		f.t, f.ts, f.tn = true, m.DefaultTimestamp.Seconds, m.DefaultTimestamp.Nanos
	}
	if m.DefaultDuration != nil {
		f.d, f.ds, f.dn = true, m.DefaultDuration.Seconds, m.DefaultDuration.Nanos
	}
	return f
}

// dCovers: the path, or one above it, is in paths.
func dCovers(paths []string, path string) bool {
	for _, p := range paths {
		if p == path || strings.HasPrefix(path, p+".") {
			return true
		}
	}
	return false
}

// dBelow: a path below path is in paths.
func dBelow(paths []string, path string) bool {
	for _, p := range paths {
		if strings.HasPrefix(p, path+".") {
			return true
		}
	}
	return false
}

func dValid(paths []string) bool {
	for _, p := range paths {
		switch p {
		case dT, dTs, dTn, dD, dDs, dDn:
		default:
			return false
		}
	}
	return true
}

func dMask(paths []string) *fieldmaskpb.FieldMask {
	if paths == nil {
		return nil
	}
	return &fieldmaskpb.FieldMask{Paths: paths}
}

// dScalar is a scalar at path after a write.
func dScalar[T int32 | int64](path, parent string, old, new T, hasNew bool, update, writable []string) T {
	switch {
	case update == nil:
		if writable == nil || dCovers(writable, path) {
			return new
		}
	case dCovers(update, parent):
		if hasNew && new == 0 {
			return old // messages named by the mask are merged
		}
		return new
	case dCovers(update, path):
		return new
	}
	return old
}

// dWrites checks a write of src to dst with masks.
func dWrites(dst, src *testproto.WellKnown, update, writable, reset []string) {
	gv.Requires(dst != nil && src != nil && dst != src)
	gv.Requires(dst.DefaultTimestamp == nil || dst.DefaultTimestamp != src.DefaultTimestamp)
	gv.Requires(dst.DefaultDuration == nil || dst.DefaultDuration != src.DefaultDuration)
	old, new := dFieldsOf(dst), dFieldsOf(src)
	u := NewFieldUpdater(WithUpdateMask(dMask(update)), WithWritableFields(dMask(writable)), WithResetMask(dMask(reset)))
	err := u.Validate(dst)
	bad := codes.OK
	if !dValid(update) {
		bad = codes.InvalidArgument
	} else {
		for _, p := range update {
			if writable != nil && !dCovers(writable, p) {
				bad = codes.InvalidArgument
			}
		}
	}
	if bad == codes.OK && !dValid(reset) {
		bad = codes.Internal
	}
	gv.Ensures("validation", status.Code(err) == bad)
	gv.Ensures("validation changes nothing", dFieldsOf(dst) == old && dFieldsOf(src) == new)
	if bad != codes.OK {
		return
	}
	u.Merge(dst, src)
	gv.Ensures("the written message is as it was", dFieldsOf(src) == new)
	got := dFieldsOf(dst)
	if update != nil && len(update) == 0 {
		gv.Ensures("an empty mask changes nothing", got == old)
		return
	}
	want := old
	want.ts = dScalar(dTs, dT, old.ts, new.ts, new.t, update, writable)
	want.tn = dScalar(dTn, dT, old.tn, new.tn, new.t, update, writable)
	want.ds = dScalar(dDs, dD, old.ds, new.ds, new.d, update, writable)
	want.dn = dScalar(dDn, dD, old.dn, new.dn, new.d, update, writable)
	if dCovers(reset, dTs) {
		want.ts = 0
	}
	if dCovers(reset, dTn) {
		want.tn = 0
	}
	if dCovers(reset, dDs) {
		want.ds = 0
	}
	if dCovers(reset, dDn) {
		want.dn = 0
	}
	gv.Ensures("seconds of the first", got.ts == want.ts)
	gv.Ensures("nanos of the first", got.tn == want.tn)
	gv.Ensures("seconds of the second", got.ds == want.ds)
	gv.Ensures("nanos of the second", got.dn == want.dn)
	dPresence("presence of the first", dT, old.t, new.t, got.t, update, writable, reset)
	dPresence("presence of the second", dD, old.d, new.d, got.d, update, writable, reset)
}

// dPresence checks the presence of a message after a write, where it isn't only there for the sake of its fields.
func dPresence(name, path string, old, new, got bool, update, writable, reset []string) {
	switch {
	case dCovers(reset, path):
		gv.Ensures(name, !got)
	case dBelow(reset, path):
	case update != nil && dCovers(update, path) || update == nil && (writable == nil || dCovers(writable, path)):
		gv.Ensures(name, got == new)
	case update != nil && dBelow(update, path) || update == nil && dBelow(writable, path):
	default:
		gv.Ensures(name, got == old)
	}
}

func dWritable(n uint8) []string {
	switch n % 6 {
	case 1:
		return []string{}
	case 2:
		return []string{dT}
	case 3:
		return []string{dTs}
	case 4:
		return []string{dTs, dD}
	case 5:
		return []string{dDn, dTn, dTs}
	}
	return nil
}

// Writes without an update mask.
//
//gv:property C05
//gv:for FieldUpdater.Merge covers FieldUpdater.Validate NewFieldUpdater
func gvc_WriteAll(dst, src *testproto.WellKnown, writable uint8) {
	dWrites(dst, src, nil, dWritable(writable), nil)
}

// Writes with a mask naming messages.
//
//gv:property C05
//gv:for FieldUpdater.Merge covers FieldUpdater.Validate NewFieldUpdater
func gvc_WriteMessages(dst, src *testproto.WellKnown, update, writable uint8) {
	var up []string
	switch update % 4 {
	case 0:
		up = []string{dT}
	case 1:
		up = []string{dT, dT}
	case 2:
		up = []string{dD, dT}
	case 3:
		up = []string{}
	}
	dWrites(dst, src, up, dWritable(writable), nil)
}

// Writes with a mask naming fields of messages.
//
//gv:property C05
//gv:for FieldUpdater.Merge covers FieldUpdater.Validate NewFieldUpdater
func gvc_WriteNested(dst, src *testproto.WellKnown, update, writable uint8) {
	var up []string
	switch update % 4 {
	case 0:
		up = []string{dTs}
	case 1:
		up = []string{dTs, dT}
	case 2:
		up = []string{dTn, dTs}
	case 3:
		up = []string{dDs, dTn}
	}
	dWrites(dst, src, up, dWritable(writable), nil)
}

// Writes with reset masks and with masks that aren't valid.
//
//gv:property C05
//gv:for FieldUpdater.Merge covers FieldUpdater.Validate NewFieldUpdater
func gvc_WriteReset(dst, src *testproto.WellKnown, update, reset, writable uint8) {
	gv.Assume(writable < 3)
	var up, re []string
	switch update % 6 {
	case 1:
		up = []string{}
	case 2:
		up = []string{dTs}
	case 3:
		up = []string{"nope"}
	case 4:
		up = []string{dT, dT + ".nope"}
	case 5:
		up = []string{dTs + ".x"}
	}
	switch reset % 4 {
	case 0:
		re = []string{dT}
	case 1:
		re = []string{dTs, dD}
	case 2:
		re = []string{dTs, dT}
	case 3:
		re = []string{dT, "nope"}
	}
	dWrites(dst, src, up, dWritable(writable), re)
}

// Read masks of a message of messages.
//
//gv:property C06
//gv:for ResponseFilter.FilterClone covers ResponseFilter.Filter ResponseFilter.Validate
func gvc_ReadNested(m *testproto.WellKnown, mask uint8) {
	gv.Requires(m != nil)
	var paths []string
	switch mask % 11 {
	case 1:
		paths = []string{}
	case 2:
		paths = []string{dT}
	case 3:
		paths = []string{dTs}
	case 4:
		paths = []string{dTs, dT}
	case 5:
		paths = []string{dDn, dTn, dTs}
	case 6:
		paths = []string{dT, dTn, dT}
	case 7:
		paths = []string{dD, dTn}
	case 8:
		paths = []string{"nope"}
	case 9:
		paths = []string{dT + ".nope", dD}
	case 10:
		paths = []string{dTs + ".x"}
	}
	f := NewResponseFilter(WithFieldMask(dMask(paths)))
	old := dFieldsOf(m)
	gv.Ensures("validation", (f.Validate(m) == nil) == dValid(paths))
	got := f.FilterClone(m).(*testproto.WellKnown)
	gv.Ensures("the message is as it was", dFieldsOf(m) == old)
	again := f.FilterClone(m).(*testproto.WellKnown)
	gv.Ensures("a filter can be used again", dFieldsOf(got) == dFieldsOf(again))
	if paths != nil {
		gv.Ensures("a copy", got != m)
	}
	if !dValid(paths) {
		return
	}
	want := old
	if paths != nil {
		want.t = old.t && (dCovers(paths, dT) || dBelow(paths, dT))
		want.d = old.d && (dCovers(paths, dD) || dBelow(paths, dD))
		if !dCovers(paths, dTs) {
			want.ts = 0
		}
		if !dCovers(paths, dTn) {
			want.tn = 0
		}
		if !dCovers(paths, dDs) {
			want.ds = 0
		}
		if !dCovers(paths, dDn) {
			want.dn = 0
		}
	}
	gv.Ensures("projection", dFieldsOf(got) == want)
	in := &testproto.WellKnown{}
	if old.t {
		in.DefaultTimestamp = &timestamppb.Timestamp{Seconds: old.ts, Nanos: old.tn}
	}
	if old.d {
		in.DefaultDuration = &durationpb.Duration{Seconds: old.ds, Nanos: old.dn}
	}
	f.Filter(in)
	gv.Ensures("in place", dFieldsOf(in) == want)
}
