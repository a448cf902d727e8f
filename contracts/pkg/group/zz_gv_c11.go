package group

import (
	"context"
	"errors"
	"sync"
	"time"

	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

type groupRaces struct {
	strategies []ExecutionStrategy
	fails      []bool
	naps       []int // microseconds
	obeys      []bool
	cancel     int // microseconds, negative: never
}

func gvg_GroupRaces(g *gv.Gen) groupRaces {
	r := groupRaces{cancel: g.R.Intn(400) - 200}
	for i := 1 + g.R.Intn(3); i > 0; i-- {
		r.strategies = append(r.strategies, ExecutionStrategy(g.R.Intn(8)))
	}
	for i := g.R.Intn(6); i > 0; i-- {
		r.fails = append(r.fails, g.R.Intn(2) == 0)
		r.naps = append(r.naps, []int{0, 0, 5, 50, 200}[g.R.Intn(5)])
		r.obeys = append(r.obeys, g.R.Intn(2) == 0)
	}
	return r
}

// Concurrent executions, whose callers read and write the results as soon as they have them, don't race.
//
//gv:property C11
//gv:for Execute covers ExecuteAll ExecuteMost ExecuteAny ExecuteUpTo ExecuteOne ExecuteFast ExecuteRace executeEach
//gv:bounded up to 3 concurrent executions of up to 5 shared members; under the race detector
//gv:race
//gv:run 3
func gvc_GroupRaces(r groupRaces) {
	var ms []Member
	for i := range r.fails {
		ms = append(ms, func(ctx context.Context) (proto.Message, error) {
			if r.naps[i] > 0 {
				t := time.After(time.Duration(r.naps[i]) * time.Microsecond)
				if r.obeys[i] {
					select {
					case <-t:
					case <-ctx.Done():
						return nil, ctx.Err()
					}
				} else {
					<-t
				}
			}
			if r.fails[i] {
				return nil, errors.New("failed")
			}
			return wrapperspb.Int32(int32(i)), nil
		})
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if r.cancel >= 0 {
		time.AfterFunc(time.Duration(r.cancel)*time.Microsecond, cancel)
	}
	var wg sync.WaitGroup
	for _, s := range r.strategies {
		wg.Add(1)
		go func() {
			defer wg.Done()
			res, err := Execute(ctx, s, ms)
			if err != nil {
				_ = err.Error()
			}
			for i := range res {
				if m, ok := res[i].(*wrapperspb.Int32Value); ok && m != nil {
					m.Value++
				}
				res[i] = nil
			}
		}()
	}
	wg.Wait()
	if r.cancel < 0 {
		cancel()
	}
	gv.Reach("executed")
}
