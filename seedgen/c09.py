T='''package resource

import (
	"context"
	"fmt"
	"testing"
	"time"

	"github.com/smart-core-os/sc-golang/internal/testproto"
)

func TestZZDemo(t *testing.T) {
	type M = testproto.TestAllTypes
	var _ = fmt.Sprint
	ctx, stop := context.WithTimeout(context.Background(), 9*time.Second)
	defer stop()
%s}
'''
seed("C09-bounded-queue","C09","pkg/resource",
 [("pkg/resource/backpressure.go","					messages[id] = newMessage\n					queue.PushBack(id)\n				case out","					messages[id] = newMessage\n					queue.PushBack(id)\n					if queue.Len() > 100 { // don't hold on to too much for a slow receiver\n						delete(messages, queue.Front().Value.(string))\n						queue.Remove(queue.Front())\n					}\n				case out")],
 T%'''	c := NewCollection()
	ch := c.Pull(ctx)
	for i := 0; i < 150; i++ {
		c.Update(fmt.Sprint(i), &M{DefaultInt32: 1}, WithCreateIfAbsent())
	}
	got := map[string]bool{}
	for {
		select {
		case e := <-ch:
			got[e.Id] = true
			continue
		case <-time.After(100 * time.Millisecond):
		}
		break
	}
	if len(got) != 150 {
		t.Fatal("changes are lost", len(got))
	}
''',"more than a hundred items changed before a slow reader is back","the view never learns about some of the items")
seed("C09-send-timeout","C09","pkg/resource",
 [("pkg/resource/value.go","	ctx, cancel := context.WithTimeout(context.TODO(), time.Second*5)","	ctx, cancel := context.WithTimeout(context.TODO(), time.Minute*5)")],
 T%'''	v := NewValue(WithInitialValue(&M{}))
	v.Pull(ctx, WithBackpressure(true))
	done := make(chan struct{})
	go func() {
		for i := 0; i < 3; i++ {
			if _, err := v.Set(&M{DefaultInt32: int32(i + 1)}); err != nil {
				break
			}
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(8 * time.Second):
		t.Fatal("a write hangs")
	}
''',"a backpressured subscriber that doesn't receive for longer than five seconds","writes hang")
seed("C09-replace-remove","C09","pkg/resource",
 [("pkg/resource/backpressure.go","	case types.ChangeType_REPLACE:\n		b.OldValue = a.OldValue\n		if ct","	case types.ChangeType_REPLACE:\n		if b.OldValue == nil || b.ChangeType != types.ChangeType_REMOVE {\n			b.OldValue = a.OldValue\n		}\n		if ct")],
 T%'''	c := NewCollection(WithInitialRecord("a", &M{}), WithInitialRecord("b", &M{DefaultInt32: 1}))
	ch := c.Pull(ctx, WithUpdatesOnly(true))
	wait := func() { time.Sleep(30 * time.Millisecond) }
	c.Update("a", &M{DefaultInt32: 1})
	wait()
	c.Update("a", &M{DefaultInt32: 2})
	wait()
	c.Delete("b")
	c.Update("b", &M{DefaultInt32: 2}, WithCreateIfAbsent())
	c.Delete("b")
	wait()
	for e := range ch {
		if e.Id == "b" {
			if e.OldValue.(*M).DefaultInt32 != 1 {
				t.Fatal("the subscriber doesn't have this old value", e.OldValue)
			}
			break
		}
	}
''',"an item that's removed, added and removed again while the reader is away","the old value of the removal is not what the subscriber has")
