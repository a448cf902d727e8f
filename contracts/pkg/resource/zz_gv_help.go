package resource

import (
	"fmt"
	"time"

	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/protobuf/proto"
)

// msg is a small message: few fields, few values, so that equal and nearly equal messages are frequent.
func gvMsg(g *gv.Gen) *testproto.TestAllTypes {
	m := &testproto.TestAllTypes{}
	if g.R.Intn(3) > 0 {
		m.DefaultInt32 = int32(g.R.Intn(3))
	}
	if g.R.Intn(3) == 0 {
		m.DefaultFloat = float32(g.R.Intn(4)) / 4
	}
	if g.R.Intn(3) == 0 {
		m.DefaultString = []string{"a", "b"}[g.R.Intn(2)]
	}
	if g.R.Intn(4) == 0 {
		m.DefaultNestedMessage = &testproto.TestAllTypes_NestedMessage{A: int32(g.R.Intn(2))}
	}
	if g.R.Intn(5) == 0 {
		m.RepeatedInt32 = []int32{int32(g.R.Intn(2))}
	}
	return m
}

var gvIds = []string{"", "a", "b", "c"}

const gvEnd = "~end" // id, or default_string, of the write that ends a history

// collect receives from ch until it is closed or last says so. The result is available from the returned channel.
func collect[T any](ch <-chan T, last func(T) bool) <-chan []T {
	out := make(chan []T, 1)
	go func() {
		var got []T
		for v := range ch {
			got = append(got, v)
			if last(v) {
				break
			}
		}
		out <- got
	}()
	return out
}

// await is the result of a collect.
func await[T any](what string, out <-chan []T) []T {
	select {
	case r := <-out:
		return r
	case <-time.After(10 * time.Second):
		gv.Ensures(what, false)
		return nil
	}
}

func sameMsg(a, b proto.Message) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return proto.Equal(a, b)
}

func kindOf(old, new proto.Message) types.ChangeType {
	switch {
	case old == nil:
		return types.ChangeType_ADD
	case new == nil:
		return types.ChangeType_REMOVE
	}
	return types.ChangeType_UPDATE
}

// tick is a clock that advances by a second each time it is read.
type tick struct{ n int64 }

func (t *tick) Now() time.Time {
	t.n++
	return time.Unix(1000+t.n, 0)
}

var _ = fmt.Sprint
