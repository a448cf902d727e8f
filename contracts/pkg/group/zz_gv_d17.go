package group

import (
	"context"
	"fmt"

	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

// outcome is what a strategy has to do with the responses of n members as they come.
type outcome struct {
	s       ExecutionStrategy
	n       int
	left    int // members that haven't responded
	errs    int
	first   error
	res     [3]proto.Message
	at      int // the member whose response is the result of Fast and Race, -1 if none
	done    bool
	err     error
	cancels bool // the members' context has to be cancelled
}

func (o *outcome) allowed() int {
	switch o.s {
	case ExecutionStrategyMost:
		return o.n / 2
	case ExecutionStrategyAny:
		return o.n - 1
	}
	return 0
}

// response takes member i's response.
func (o *outcome) response(i int, msg proto.Message, err error) {
	o.left--
	if o.done {
		return
	}
	if err != nil {
		o.errs++
		if o.first == nil {
			o.first = err
		}
	}
	switch o.s {
	case ExecutionStrategyRace:
		o.done, o.at, o.err = true, i, err
		o.res[i] = msg
	case ExecutionStrategyFast:
		if err == nil {
			o.done, o.at = true, i
			o.res[i] = msg
		} else if o.left == 0 {
			o.done, o.err = true, o.first
		}
	default:
		o.res[i] = msg
		if o.errs > o.allowed() {
			o.cancels = true
			o.err = o.first
		}
		o.done = o.left == 0
	}
	o.cancels = o.cancels || o.done
}

// Each parallel strategy, with up to 3 members that respond one by one in any order with any outcome, and that obey their
// context or not: when the call returns, with which results at which index, with which error, and when the members are
// told to stop; and no goroutine remains.
//
//gv:property C17
//gv:for Execute, ExecuteAll, ExecuteMost, ExecuteAny, ExecuteUpTo, ExecuteFast, ExecuteRace, executeEach
func gvc_ExecuteParallel(s ExecutionStrategy, n int, msg [3]proto.Message, errs [3]error, p, q uint8, obeys [3]bool, cancelAt uint8) {
	gv.Requires(s != ExecutionStrategyOne)
	gv.Requires(n >= 1)
	gv.Bound("members", n, 3)
	base := gv.Goroutines()
	ctx, cancel := context.WithCancel(context.Background())
	o := &outcome{s: s, n: n, left: n, at: -1}
	var gates [3]chan struct{}
	var responded, stopped [3]bool
	var called [3]int
	var members []Member
	for i := 0; i < n; i++ {
		gates[i] = make(chan struct{})
		members = append(members, func(ctx context.Context) (proto.Message, error) {
			called[i]++
			if obeys[i] {
				select {
				case <-ctx.Done():
					stopped[i] = true
					return nil, ctx.Err()
				case <-gates[i]:
				}
			} else {
				<-gates[i]
				stopped[i] = ctx.Err() != nil
			}
			return msg[i], errs[i]
		})
	}
	var res []proto.Message
	var err error
	returned := false
	go func() {
		res, err = Execute(ctx, s, members)
		returned = true
	}()
	gv.Still()
	gv.Ensures("it waits for a response", !returned)

	// stop is what members do that are told to stop
	stop := func(why error) {
		for i := 0; i < n; i++ {
			if obeys[i] && !responded[i] {
				responded[i] = true
				gv.Ensures("told to stop", stopped[i])
				o.response(i, nil, why)
			}
		}
	}
	cancelled := false
	for k := 0; k < n; k++ {
		if int(cancelAt) == k {
			cancel()
			gv.Still()
			cancelled = true
			stop(ctx.Err())
		}
		// the next one to respond
		i := 0
		switch k {
		case 0:
			i = int(p) % n
		case 1:
			i = (int(p) + 1 + int(q)%(n-1)) % n
		default:
			i = (int(p) + 2 - int(q)%(n-1)) % n
		}
		gv.Assert("each responds once", responded[i] == (obeys[i] && (cancelled || o.cancels)))
		close(gates[i])
		gv.Still()
		if !responded[i] {
			responded[i] = true
			gv.Ensures("told to stop only when it should be", stopped[i] == (cancelled || o.cancels))
			o.response(i, msg[i], errs[i])
			if o.cancels {
				stop(context.Canceled)
			}
		}
		gv.Ensures("it returns when the strategy says so", returned == o.done)
	}
	gv.Ensures("the error", err == o.err)
	gv.Ensures("a result for each member", len(res) == n)
	for i := 0; i < n; i++ {
		gv.Ensures("the results", res[i] == o.res[i])
		gv.Ensures("each member is called once", called[i] == 1)
	}
	gv.Still()
	gv.Ensures("no goroutine remains", gv.Goroutines() == base)
	cancel()
}

func gvg_ExecuteParallel(g *gv.Gen) (s ExecutionStrategy, n int, msg [3]proto.Message, errs [3]error, p, q uint8, obeys [3]bool, cancelAt uint8) {
	for i := range msg {
		if g.R.Intn(2) == 0 {
			msg[i] = wrapperspb.Int32(int32(i))
		}
		if g.R.Intn(2) == 0 {
			errs[i] = fmt.Errorf("e%d", i)
		}
		obeys[i] = g.R.Intn(2) == 0
	}
	s = []ExecutionStrategy{ExecutionStrategyUnspecified, ExecutionStrategyAll, ExecutionStrategyMost, ExecutionStrategyAny, ExecutionStrategyFast, ExecutionStrategyRace}[g.R.Intn(6)]
	return s, 1 + g.R.Intn(3), msg, errs, uint8(g.R.Intn(6)), uint8(g.R.Intn(6)), obeys, uint8(g.R.Intn(5))
}

// Members that respond at once: whatever their schedule, the call returns what the strategy says of the outcomes.
//
//gv:property C17
//gv:for Execute, executeEach
//gv:delays 1
//gv:norun
func gvc_ExecuteAtOnce(s ExecutionStrategy, n int, msg [3]proto.Message, errs [3]error, cancels bool) {
	gv.Requires(s != ExecutionStrategyOne)
	gv.Requires(n >= 0)
	gv.Bound("members", n, 3)
	base := gv.Goroutines()
	ctx, cancel := context.WithCancel(context.Background())
	var called [3]int
	var members []Member
	failures := 0
	for i := 0; i < n; i++ {
		if errs[i] != nil {
			failures++
		}
		members = append(members, func(ctx context.Context) (proto.Message, error) {
			called[i]++
			return msg[i], errs[i]
		})
	}
	if cancels {
		go cancel()
	}
	res, err := Execute(ctx, s, members)
	gv.Ensures("a result for each member", len(res) == n)
	of := -1 // the member whose error it is
	for i := 0; i < n; i++ {
		if err != nil && err == errs[i] {
			of = i
		}
	}
	o := outcome{s: s, n: n}
	switch s {
	case ExecutionStrategyFast:
		gv.Ensures("fast: fails if all fail", n == 0 || (err != nil) == (failures == n))
		if n > 0 && err == nil {
			gv.Ensures("fast: the result of one that succeeds", onlyOne(res, msg, errs, n, true))
		}
	case ExecutionStrategyRace:
		gv.Ensures("race: the result of one", n == 0 || onlyOne(res, msg, errs, n, err == nil))
	default:
		gv.Ensures("fails if more fail than may", (err != nil) == (n > 0 && failures > o.allowed()))
		for i := 0; i < n; i++ {
			gv.Ensures("the results", res[i] == msg[i])
			gv.Ensures("each member is called once", called[i] == 1)
		}
	}
	gv.Ensures("an error is a member's", n == 0 || (err == nil || of >= 0))
	gv.Still()
	for i := 0; i < n; i++ {
		gv.Ensures("each member is called", called[i] == 1)
	}
	gv.Ensures("no goroutine remains", gv.Goroutines() == base)
	cancel()
}

// onlyOne says whether the only result is that of one of the members that succeed (or fail).
func onlyOne(res []proto.Message, msg [3]proto.Message, errs [3]error, n int, ok bool) bool {
	for i := 0; i < n; i++ {
		if (errs[i] == nil) != ok || res[i] != msg[i] {
			continue
		}
		alone := true
		for j := 0; j < n; j++ {
			alone = alone && (j == i || res[j] == nil)
		}
		if alone {
			return true
		}
	}
	return false
}
