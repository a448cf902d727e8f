T='''package resource

import (
	"errors"
	"sync"
	"testing"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/protobuf/proto"
)

func TestZZDemo(t *testing.T) {
	type M = testproto.TestAllTypes
	var _ sync.Mutex
	var _ = errors.New
	var _ proto.Message
%s}
'''
seed("C02-delete-checks-once","C02","pkg/resource",
 [("pkg/resource/collection.go","		if args.expectedCheck != nil {\n			if err := args.expectedCheck(oldVal.body); err != nil {","		if args.expectedCheck != nil && attempt == 0 { // checks can be expensive\n			if err := args.expectedCheck(oldVal.body); err != nil {")],
 T%'''	c := NewCollection(WithInitialRecord("a", &M{}))
	n := 0
	_, err := c.Delete("a", WithExpectedCheck(func(m proto.Message) error {
		if n++; n == 1 {
			c.Update("a", &M{DefaultInt32: 1})
		}
		if m.(*M).DefaultInt32 != 0 {
			return errors.New("in use")
		}
		return nil
	}))
	if _, ok := c.Get("a"); !ok || err == nil {
		t.Fatal("deleted a version the check didn't see")
	}
''',"an update of the item between the expected check of a Delete and its lock","the delete removes a version its precondition has not seen")
seed("C02-already-there","C02","pkg/resource",
 [("pkg/resource/atomic.go","	if !proto.Equal(oldValue, oldValueAgain) {","	if !proto.Equal(oldValue, oldValueAgain) && !proto.Equal(newValue, oldValueAgain) {")],
 T%'''	v := NewValue(WithInitialValue(&M{}))
	in := false
	inc := InterceptAfter(func(old, new proto.Message) {
		new.(*M).DefaultInt32 = old.(*M).DefaultInt32 + 1
		if !in {
			in = true
			if _, err := v.Set(&M{}, InterceptAfter(func(old, new proto.Message) { new.(*M).DefaultInt32 = old.(*M).DefaultInt32 + 1 })); err != nil {
				t.Fatal(err)
			}
		}
	})
	if _, err := v.Set(&M{}, inc); err == nil && v.Get().(*M).DefaultInt32 != 2 {
		t.Fatal("an increment was lost")
	}
''',"two concurrent read-modify-write calls that compute the same new value","one of two successful increments is lost")
seed("C02-created-exists","C02","pkg/resource",
 [("pkg/resource/atomic.go","	oldValueAgain, err := get()\n	if err != nil {\n		return oldValue, newValue, err\n	}\n	if !proto.Equal(oldValue, oldValueAgain) {","	oldValueAgain, err := get()\n	if err != nil && proto.Size(oldValue) > 0 { // there's nothing to lose otherwise\n		return oldValue, newValue, err\n	}\n	if err == nil && !proto.Equal(oldValue, oldValueAgain) {")],
 T%'''	c := NewCollection()
	in := false
	_, err := c.Add("a", &M{DefaultInt32: 1}, InterceptAfter(func(old, new proto.Message) {
		if !in {
			in = true
			if _, err := c.Add("a", &M{DefaultInt32: 2}); err != nil {
				t.Fatal(err)
			}
		}
	}))
	if err == nil {
		t.Fatal("two adds of one id succeeded")
	}
''',"an Add of the same id between the read and the lock of another Add","two concurrent adds of one id both succeed")
seed("C02-check-under-rlock","C02","pkg/resource",
 [("pkg/resource/atomic.go","	mu.Lock()\n	defer mu.Unlock()\n	oldValueAgain, err := get()\n	if err != nil {\n		return oldValue, newValue, err\n	}\n	if !proto.Equal(oldValue, oldValueAgain) {\n		return oldValue, newValue, status.Errorf(codes.Aborted, \"concurrent update detected\")\n	}\n","	mu.RLock()\n	oldValueAgain, err := get()\n	mu.RUnlock()\n	if err != nil {\n		return oldValue, newValue, err\n	}\n	if !proto.Equal(oldValue, oldValueAgain) {\n		return oldValue, newValue, status.Errorf(codes.Aborted, \"concurrent update detected\")\n	}\n\n	mu.Lock()\n	defer mu.Unlock()\n")],
 T%'''	for i := 0; i < 3000; i++ {
		v := NewValue(WithInitialValue(&M{}))
		var wg sync.WaitGroup
		var mu sync.Mutex
		n := int32(0)
		for j := 0; j < 8; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 20; k++ {
					_, err := v.Set(&M{}, InterceptAfter(func(old, new proto.Message) { new.(*M).DefaultInt32 = old.(*M).DefaultInt32 + 1 }))
					if err == nil {
						mu.Lock()
						n++
						mu.Unlock()
					}
				}
			}()
		}
		wg.Wait()
		if v.Get().(*M).DefaultInt32 != n {
			t.Fatal("an increment was lost")
		}
	}
''',"another writer saving between the check, under the read lock, and the save, under the write lock","increments are lost")
