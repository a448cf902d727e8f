H='''package electricpb

import (
	"sync"
	"testing"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/time/clock"
	"google.golang.org/protobuf/types/known/timestamppb"
)

var _ *traits.OnOff
var _ resource.Option
var _ clock.Clock
var _ = timestamppb.New
var _ time.Time
var _ sync.Mutex

type zzClock struct {
	clock.Clock
	t time.Time
}

func (c *zzClock) Now() time.Time { return c.t }

'''
M="pkg/trait/electricpb/model.go"
seed("C19-start-given","C19","pkg/trait/electricpb",
 [(M,"		if oldMode.Id != newMode.Id {\n			newMode.StartTime","		// modes can come with a start time of their own\n		if oldMode.Id != newMode.Id && newMode.StartTime == nil {\n			newMode.StartTime")],
 H+'''func TestZZDemo(t *testing.T) {
	c := &zzClock{Clock: clock.Real(), t: time.Unix(1000, 0)}
	m := NewModel(WithClock(c))
	for _, mode := range []*traits.ElectricMode{{Id: "a"}, {Id: "b", StartTime: timestamppb.New(time.Unix(5, 0))}} {
		if err := m.AddMode(mode); err != nil {
			t.Fatal(err)
		}
		c.t = c.t.Add(time.Minute)
		a, err := m.ChangeActiveMode(mode.Id)
		if err != nil {
			t.Fatal(err)
		}
		if !a.StartTime.AsTime().Equal(c.t) {
			t.Fatalf("mode %q started at %v, not %v", mode.Id, a.StartTime.AsTime(), c.t)
		}
	}
}
''',"a mode that is stored with a start time, and a switch to it","the active mode's start time isn't when it became active")
seed("C19-set-unlocked","C19","pkg/trait/electricpb",
 [(M,"	m.mu.Lock()\n	defer m.mu.Unlock()\n	if _, ok := m.findMode(mode.Id); !ok {\n		return ErrModeNotFound\n	}\n\n	_, err := m.activeMode.Set(mode)","	if _, ok := m.FindMode(mode.Id); !ok {\n		return ErrModeNotFound\n	}\n\n	m.mu.RLock()\n	defer m.mu.RUnlock()\n	_, err := m.activeMode.Set(mode)")],
 H+'''func TestZZDemo(t *testing.T) {
	until := time.Now().Add(20 * time.Second)
	for i := 0; time.Now().Before(until); i++ {
		m := NewModel(WithInitialMode(&traits.ElectricMode{Id: "a"}))
		var wg sync.WaitGroup
		var set error
		start := make(chan struct{})
		wg.Add(2)
		go func() {
			defer wg.Done()
			<-start
			set = m.SetActiveMode(&traits.ElectricMode{Id: "a"})
		}()
		go func() {
			defer wg.Done()
			<-start
			for n := i % 50; n > 0; n-- {
				m.Demand()
			}
			_ = m.DeleteMode("a")
		}()
		close(start)
		wg.Wait()
		if _, ok := m.FindMode("a"); set == nil && !ok {
			t.Fatalf("active mode was deleted, in round %d", i)
		}
	}
}
''',"a mode deleted while it is set active, between the check that it exists and the write","the active mode doesn't exist")
seed("C19-clear-stale","C19","pkg/trait/electricpb",
 [(M,"	m.mu.Lock()\n	defer m.mu.Unlock()\n\n	normal, ok := m.normalMode()\n	if !ok {\n		return nil, ErrModeNotFound\n	}\n\n	return m.changeActiveMode(normal.Id)","	m.mu.RLock()\n	normal, ok := m.normalMode()\n	m.mu.RUnlock()\n	if !ok {\n		return nil, ErrModeNotFound\n	}\n	if active := m.ActiveMode(); active.Normal {\n		return active, nil // already there\n	}\n\n	return m.ChangeActiveMode(normal.Id)")],
 H+'''func TestZZDemo(t *testing.T) {
	m := NewModel(WithInitialMode(&traits.ElectricMode{Id: "a", Normal: true}, &traits.ElectricMode{Id: "b"}))
	if _, err := m.ChangeToNormalMode(); err != nil {
		t.Fatal(err)
	}
	for _, mode := range []*traits.ElectricMode{{Id: "a"}, {Id: "b", Normal: true}} {
		if _, err := m.UpdateMode(mode); err != nil {
			t.Fatal(err)
		}
	}
	if _, err := m.ChangeToNormalMode(); err != nil {
		t.Fatal(err)
	}
	if id := m.ActiveMode().Id; id != "b" {
		t.Fatalf("active mode is %q", id)
	}
}
''',"another mode made normal while the active mode was the normal one, then clear","clearing the active mode leaves a mode active that isn't normal any more")
