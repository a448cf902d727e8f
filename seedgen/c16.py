T='''package cmp

import (
	"testing"
	"time"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/protobuf/types/known/timestamppb"
)

func TestZZDemo(t *testing.T) {
	_ = time.Second
	_ = timestamppb.Now
	type M = testproto.TestAllTypes
%s}
'''
seed("C16-map-default","C16","pkg/cmp",
 [("pkg/cmp/cmp.go","equal = y.Has(k) && eq.equalValue(fd.MapValue(), vx, vy)","equal = vy.IsValid() && eq.equalValue(fd.MapValue(), vx, vy) || !vy.IsValid() && fd.MapValue().Message() == nil && vx.Equal(fd.MapValue().Default())")],
 T%'''	if Equal()(&M{MapStringString: map[string]string{"a": ""}}, &M{MapStringString: map[string]string{"b": ""}}) {
		t.Fatal("maps with different keys are equal")
	}
''',"maps of the same size with different keys, and the value of the missing key is the zero value","maps with different keys compare equal")
seed("C16-unknown-len","C16","pkg/cmp",
 [("pkg/cmp/cmp.go","		mx[fnum] = append(mx[fnum], x[:n]...)","		mx[fnum] = x[:n]"),
  ("pkg/cmp/cmp.go","		my[fnum] = append(my[fnum], y[:n]...)","		my[fnum] = y[:n]")],
 T%'''	a, b := &M{}, &M{}
	a.ProtoReflect().SetUnknown([]byte{0xd0, 0xb8, 0x02, 0, 0xd0, 0xb8, 0x02, 1})
	b.ProtoReflect().SetUnknown([]byte{0xd0, 0xb8, 0x02, 1, 0xd0, 0xb8, 0x02, 1})
	if Equal()(a, b) {
		t.Fatal("different unknown fields are equal")
	}
''',"unknown fields with repeated occurrences that differ before the last one","messages with different unknown fields compare equal")
seed("C16-drift","C16","pkg/resource",
 [("pkg/resource/value.go","			if r.equivalence != nil && r.equivalence.Compare(last, change.Value) {\n				continue\n			}\n			last = change.Value\n","			prev := last\n			last = change.Value\n			if r.equivalence != nil && r.equivalence.Compare(prev, last) {\n				continue\n			}\n")],
 '''package resource

import (
	"context"
	"testing"
	"time"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/pkg/cmp"
)

func TestZZDemo(t *testing.T) {
	v := NewValue(WithInitialValue(&testproto.TestAllTypes{DefaultFloat: 1}), WithMessageEquivalence(cmp.Equal(cmp.FloatValueApprox(0, 0.5))))
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	c := v.Pull(ctx, WithBackpressure(true))
	<-c
	go func() {
		for i := 0; i < 6; i++ {
			_, _ = v.Set(&testproto.TestAllTypes{DefaultFloat: 1 + float32(i)*0.25})
		}
	}()
	select {
	case <-c:
	case <-time.After(3 * time.Second):
		t.Fatal("the value crept by 1.25 and was never delivered")
	}
}
''',"a value that creeps in steps smaller than the tolerance","a subscriber with a tolerance never hears of a creeping value")
