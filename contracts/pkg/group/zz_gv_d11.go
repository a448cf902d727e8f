package group

import (
	"context"
	"errors"

	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

// The results of members are read by the caller, however many are still running: memory both use is used in order.
//
//gv:property C11
//gv:for Execute covers ExecuteAll ExecuteMost ExecuteAny ExecuteUpTo ExecuteOne ExecuteFast ExecuteRace executeEach
//gv:delays 1
//gv:hb
//gv:norun
func gvc_ExecuteOrdered(s ExecutionStrategy, n int, fails [3]bool, waits [3]bool) {
	gv.Requires(n >= 1)
	gv.Bound("members", n, 3)
	gv.Requires(s != ExecutionStrategyOne || !waits[0] && !waits[1] && !waits[2])
	gv.Requires(s == ExecutionStrategyOne || s == ExecutionStrategyFast || s == ExecutionStrategyRace || !waits[0] && !waits[1] && !waits[2])
	var members []Member
	for i := 0; i < n; i++ {
		members = append(members, func(ctx context.Context) (proto.Message, error) {
			m := &wrapperspb.Int32Value{}
			m.Value = 1
			if waits[i] {
				<-ctx.Done()
			}
			if fails[i] {
				return m, errors.New("fails")
			}
			return m, nil
		})
	}
	ctx, stop := context.WithCancel(context.Background())
	go stop()
	res, err := Execute(ctx, s, members)
	for i, m := range res {
		if v, ok := m.(*wrapperspb.Int32Value); ok && v != nil {
			v.Value++
			res[i] = nil
		}
	}
	if err != nil {
		_ = err.Error()
	}
}
