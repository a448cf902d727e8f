package group

import (
	"context"
	"errors"
	"fmt"
	"io"
	"time"

	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

// groupRun is one execution of a group: the members complete in the given order, with the given outcomes.
type groupRun struct {
	strategy ExecutionStrategy
	fails    []bool // outcome of each member
	kinds    []int  // kind of error
	obeys    []bool // the member returns its context's error as soon as it is cancelled
	order    []int  // completion order of the members
}

var errKinds = []error{context.Canceled, context.DeadlineExceeded, status.Error(codes.Unavailable, "x"), io.EOF}

func gvg_Execute(g *gv.Gen) groupRun {
	r := groupRun{strategy: ExecutionStrategy(g.R.Intn(8))}
	n := g.R.Intn(6)
	r.order = g.R.Perm(n)
	p := 1 + g.R.Intn(4)
	for i := 0; i < n; i++ {
		r.fails = append(r.fails, g.R.Intn(p) != 0)
		r.kinds = append(r.kinds, g.R.Intn(6))
		r.obeys = append(r.obeys, g.R.Intn(2) == 0)
	}
	return r
}

// Execute honours the strategy: outcome, index of the results, first error, cancellation, and no goroutine left behind.
//
//gv:property C17
//gv:for Execute covers ExecuteAll ExecuteMost ExecuteAny ExecuteUpTo ExecuteOne ExecuteFast ExecuteRace executeEach
//gv:bounded groups of up to 5 members, each completion order and outcome vector generated, completion forced one by one
func gvc_Execute(r groupRun) {
	n := len(r.fails)
	base := gv.Goroutines()
	type member struct {
		release chan struct{}
		started chan context.Context
		done    chan struct{}
		err     error
		msg     proto.Message
	}
	ms := make([]*member, n)
	fs := make([]Member, n)
	for i := range ms {
		m := &member{make(chan struct{}), make(chan context.Context, 1), make(chan struct{}), fmt.Errorf("failure of member %d", i), wrapperspb.Int32(int32(i))}
		if r.kinds[i] < len(errKinds) {
			m.err = fmt.Errorf("%w of member %d", errKinds[r.kinds[i]], i)
		}
		ms[i] = m
		fails, obeys := r.fails[i], r.obeys[i]
		fs[i] = func(ctx context.Context) (proto.Message, error) {
			defer close(m.done)
			m.started <- ctx
			if obeys {
				select {
				case <-m.release:
				case <-ctx.Done():
					return nil, ctx.Err()
				}
			} else {
				<-m.release
			}
			if fails {
				return nil, m.err
			}
			return m.msg, nil
		}
	}
	released := make([]bool, n)
	defer func() { // whatever happens, let the members go
		for i := range ms {
			if !released[i] {
				close(ms[i].release)
			}
		}
	}()
	type result struct {
		res []proto.Message
		err error
		pan any
	}
	out := make(chan result, 1)
	go func() {
		var o result
		defer func() { o.pan = recover(); out <- o }()
		o.res, o.err = Execute(context.Background(), r.strategy, fs)
	}()

	var got result
	returned := false
	wait := func() bool {
		if returned {
			return true
		}
		select {
		case got = <-out:
			returned = true
		case <-time.After(10 * time.Second):
		}
		return returned
	}
	nfail, nok := 0, 0
	var first error // the first error observed
	firstIdx, okIdx, raceIdx := 0, -1, -1
	var allowed int
	parallel := true
	switch r.strategy {
	default:
		allowed = 0
	case ExecutionStrategyMost:
		allowed = n / 2
	case ExecutionStrategyAny:
		allowed = n - 1
	case ExecutionStrategyFast, ExecutionStrategyRace:
		allowed = n
	case ExecutionStrategyOne:
		parallel = false
	}
	if parallel {
		ctxs := make([]context.Context, n)
		for i := range ms {
			select {
			case ctxs[i] = <-ms[i].started:
			case <-time.After(10 * time.Second):
				gv.Ensures("every member is executed", false)
			}
		}
		decided := false
		for _, i := range r.order {
			if decided {
				gv.Ensures("remaining members are cancelled once the outcome is decided", gv.Eventually(func() bool { return ctxs[i].Err() != nil }))
			} else {
				gv.Ensures("members are not cancelled before the outcome is decided", ctxs[i].Err() == nil)
			}
			now := gv.Goroutines()
			released[i] = true
			close(ms[i].release)
			<-ms[i].done
			if decided {
				continue
			}
			// the member's goroutine ends once its response is on its way to the collector
			gv.Within(2*time.Second, func() bool { return gv.Goroutines() < now })
			if raceIdx < 0 {
				raceIdx = i
			}
			if r.fails[i] {
				if nfail++; first == nil {
					first, firstIdx = ms[i].err, i
				}
			} else if nok++; okIdx < 0 {
				okIdx = i
			}
			switch r.strategy {
			case ExecutionStrategyRace:
				decided = true
			case ExecutionStrategyFast:
				decided = nok > 0
			default:
				decided = nfail > allowed
			}
			if decided && r.strategy >= ExecutionStrategyFast && r.strategy <= ExecutionStrategyRace {
				gv.Ensures("the first decisive response is returned without waiting for the others", wait())
			}
		}
		gv.Ensures("the call returns once its members do", wait())
	} else {
		for i := 0; i < n; i++ {
			select {
			case <-ms[i].started:
			case <-time.After(10 * time.Second):
				gv.Ensures("one: the next member is tried after a failure", false)
			}
			for j := i + 1; j < n; j++ {
				select {
				case <-ms[j].started:
					gv.Ensures("one: members are tried one at a time", false)
				default:
				}
			}
			released[i] = true
			close(ms[i].release)
			<-ms[i].done
			if !r.fails[i] {
				okIdx = i
				break
			}
			if nfail++; first == nil {
				first, firstIdx = ms[i].err, i
			}
		}
		gv.Ensures("one: the call returns after the first success", wait())
		for j := okIdx + 1; okIdx >= 0 && j < n; j++ {
			gv.Ensures("one: no member is tried after a success", len(ms[j].started) == 0)
		}
	}
	_ = firstIdx
	if got.pan != nil {
		gv.Ensures(fmt.Sprint("the call does not panic: ", got.pan), false)
	}
	gv.Ensures("one result slot per member", got.err != nil || len(got.res) == n)
	only := func(k int) bool {
		for i, m := range got.res {
			if i == k != (m != nil && proto.Equal(m, ms[i].msg)) || i != k && m != nil {
				return false
			}
		}
		return true
	}
	switch {
	case n == 0:
		gv.Ensures("All and Most of no members succeed", got.err == nil || r.strategy >= ExecutionStrategyAny && r.strategy <= ExecutionStrategyRace)
	case r.strategy == ExecutionStrategyOne || r.strategy == ExecutionStrategyFast:
		if okIdx >= 0 {
			gv.Ensures("the first success is the result", got.err == nil && only(okIdx))
		} else {
			gv.Ensures("it fails with the first error only if every member fails", got.err != nil && errors.Is(got.err, first))
		}
	case r.strategy == ExecutionStrategyRace:
		if r.fails[raceIdx] {
			gv.Ensures("race: the first response's error is returned", got.err != nil && errors.Is(got.err, ms[raceIdx].err))
		} else {
			gv.Ensures("race: the first response is the result", got.err == nil && only(raceIdx))
		}
	case nfail > allowed:
		gv.Ensures("the call fails with the first error observed", got.err != nil && errors.Is(got.err, first))
	default:
		gv.Ensures("the call succeeds", got.err == nil)
		for i, m := range got.res {
			gv.Ensures("each result is at the member's index", r.fails[i] && m == nil || !r.fails[i] && proto.Equal(m, ms[i].msg))
		}
	}
	for i := range ms {
		if !released[i] {
			released[i] = true
			close(ms[i].release)
		}
	}
	gv.Ensures("every goroutine ends once the members return", gv.Settles(base))
}

// A cancelled caller: members that obey their context return, and so does the call.
//
//gv:property C17
//gv:for Execute
//gv:bounded groups of up to 5 members that wait for their context
func gvc_ExecuteCancelled(s ExecutionStrategy, n int, before bool) {
	base := gv.Goroutines()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	fs := make([]Member, n)
	for i := range fs {
		fs[i] = func(ctx context.Context) (proto.Message, error) {
			<-ctx.Done()
			return nil, ctx.Err()
		}
	}
	if before {
		cancel()
	} else {
		time.AfterFunc(100*time.Microsecond, cancel)
	}
	res, err := Execute(ctx, s, fs)
	gv.Ensures("cancelled members fail the call", n == 0 || err != nil && errors.Is(err, context.Canceled))
	for _, r := range res {
		gv.Ensures("failed members have no result", r == nil)
	}
	gv.Ensures("every goroutine ends once the members return", gv.Settles(base))
}

func gvg_ExecuteCancelled(g *gv.Gen) (ExecutionStrategy, int, bool) {
	return ExecutionStrategy(g.R.Intn(8)), g.R.Intn(6), g.R.Intn(2) == 0
}

// mkMember is a member that records its call and has the given outcome.
func mkMember(calls *[4]int, at *int, i int, msg proto.Message, err error) Member {
	return func(context.Context) (proto.Message, error) {
		calls[i] = *at + 1
		*at++
		return msg, err
	}
}

// ExecuteOne: the members are called in order up to the first success.
//
//gv:property C17
//gv:for ExecuteOne
func gvc_ExecuteOne(n int, msg [4]proto.Message, errs [4]error) {
	gv.Requires(n >= 0)
	gv.Bound("members", n, 4)
	var calls [4]int
	at := 0
	var ms []Member
	for i := 0; i < n; i++ {
		ms = append(ms, mkMember(&calls, &at, i, msg[i], errs[i]))
	}
	res, k, err := ExecuteOne(context.Background(), ms)
	ok := -1
	for i := n - 1; i >= 0; i-- {
		if errs[i] == nil {
			ok = i
		}
	}
	if ok >= 0 {
		gv.Reach("a success")
		gv.Ensures("one: the first success is returned at its index", err == nil && k == ok && res == msg[ok])
		gv.Ensures("one: no member is tried after a success", at == ok+1)
	} else if n > 0 {
		gv.Reach("only failures")
		gv.Ensures("one: the first error is returned", err == errs[0] && res == nil)
		gv.Ensures("one: every member is tried", at == n)
	}
	gv.Ensures("one: members are tried in order", gv.Forall(0, at, func(i int) bool { return calls[i] == i+1 }))
	gv.Ensures("one: the index is in range", n == 0 || 0 <= k && k < n)
}

func gvg_ExecuteOne(g *gv.Gen) (int, [4]proto.Message, [4]error) {
	var m [4]proto.Message
	var e [4]error
	for i := range m {
		m[i] = wrapperspb.Int32(int32(i))
		if g.R.Intn(3) > 0 {
			e[i] = []error{fmt.Errorf("e%d", i), context.Canceled, context.DeadlineExceeded, status.Error(codes.Unavailable, "x")}[g.R.Intn(4)]
		}
	}
	return g.R.Intn(5), m, e
}
