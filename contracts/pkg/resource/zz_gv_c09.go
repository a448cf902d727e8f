package resource

import (
	"context"
	"time"

	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// paced is a history of one writer, with a subscriber that receives now and then.
type paced struct {
	ids     int
	initial int
	writes  []gvWrite
	takes   []int // how many events to receive after each write, at most
	updates bool
	mask    []string
	idle    int // subscribers that never receive
}

func gvg_LossyCollection(g *gv.Gen) paced {
	p := paced{ids: 1 + g.R.Intn(4), updates: g.R.Intn(4) == 0, idle: g.R.Intn(3)}
	n := 1 + g.R.Intn(20)
	if g.R.Intn(12) == 0 {
		p.ids, n = 150, 300
	}
	p.initial = g.R.Intn(p.ids + 1)
	lazy := g.R.Intn(3)
	for i := 0; i < n; i++ {
		m := gvMsg(g)
		if g.R.Intn(3) > 0 {
			m.DefaultInt64 = int64(i)
		}
		p.writes = append(p.writes, gvWrite{kind: []int{0, 0, 1}[g.R.Intn(3)], id: gvItem(g.R.Intn(p.ids)), msg: m})
		t := 0
		if g.R.Intn(lazy*2+1) == 0 {
			t = g.R.Intn(4)
		}
		p.takes = append(p.takes, t)
	}
	if g.R.Intn(4) == 0 {
		p.mask = somePaths(g, 3)
	}
	return p
}

func gvg_LossyValue(g *gv.Gen) paced { return gvg_LossyCollection(g) }

func gvItem(i int) string { return string(rune('a'+i/16)) + string(rune('a'+i%16)) }

// within runs f, which must not take longer than d.
func within(what string, d time.Duration, f func()) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(d):
		gv.Ensures(what, false)
	}
}

// Without backpressure, writes don't wait, and what is received folds to what the collection has, each event following
// from the one before.
//
//gv:property C09
//gv:for Collection.Pull covers mergeCollectionExcess mergeChanges Collection.Update Collection.Delete
//gv:bounded generated histories of up to 20 (sometimes 300) writes over up to 4 (150) ids, received at a generated pace, beside subscribers that never receive
func gvc_LossyCollection(p paced) {
	var opts []Option
	for i := 0; i < p.initial; i++ {
		opts = append(opts, WithInitialRecord(gvItem(i), &testproto.TestAllTypes{DefaultInt32: int32(i)}))
	}
	c := NewCollection(opts...)
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	for i := 0; i < p.idle; i++ {
		c.Pull(ctx, WithUpdatesOnly(i == 0))
	}
	ro := []ReadOption{WithUpdatesOnly(p.updates), WithBackpressure(false)}
	if p.mask != nil {
		ro = append(ro, WithReadMask(maskOf(p.mask)))
	}
	v := newView()
	if p.updates {
		for i := 0; i < p.initial; i++ {
			m, _ := c.Get(gvItem(i))
			v.items[gvItem(i)] = gv.ProjectPaths(m, p.mask)
		}
	}
	ch := c.Pull(ctx, ro...)
	last := map[string]*CollectionChange{}
	take := func(wait time.Duration) bool {
		select {
		case e := <-ch:
			v.apply(e, true)
			last[e.Id] = e
			return true
		case <-time.After(wait):
			return false
		}
	}
	kinds := map[string]types.ChangeType{}
	for i, w := range p.writes {
		within("writes don't wait for subscribers without backpressure", 5*time.Second, func() {
			if w.kind == 1 {
				if _, err := c.Delete(w.id); err == nil {
					kinds[w.id] = types.ChangeType_REMOVE
				}
			} else {
				c.Update(w.id, w.msg, WithCreateIfAbsent())
				kinds[w.id] = types.ChangeType_UPDATE
			}
		})
		for n := p.takes[i]; n > 0 && take(200*time.Microsecond); n-- {
		}
	}
	var want []proto.Message
	for _, m := range c.List() {
		want = append(want, gv.ProjectPaths(m, p.mask))
	}
	gv.Ensures("the subscriber ends with what the collection has", gv.Eventually(func() bool {
		for take(time.Millisecond) {
		}
		return sameList(v.list(), want)
	}))
	if b := v.problem(); b != "" {
		gv.Ensures(b, false)
	}
	for take(300 * time.Microsecond) {
	}
	gv.Ensures("the view stays what the collection has", sameList(v.list(), want))
	for id, k := range kinds {
		m, ok := c.Get(id)
		if ok && k != types.ChangeType_REMOVE {
			gv.Ensures("the most recent change is received", last[id] != nil && sameMsg(last[id].NewValue, gv.ProjectPaths(m, p.mask)))
		}
	}
}

// Without backpressure, writes don't wait, and the most recent value is received.
//
//gv:property C09
//gv:for Value.Pull covers minibus.DropExcess Value.Set
//gv:bounded generated histories of up to 20 (sometimes 300) writes received at a generated pace, beside subscribers that never receive
func gvc_LossyValue(p paced) {
	r := NewValue(WithInitialValue(&testproto.TestAllTypes{}))
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	for i := 0; i < p.idle; i++ {
		r.Pull(ctx, WithUpdatesOnly(i == 0))
	}
	ro := []ReadOption{WithUpdatesOnly(p.updates), WithBackpressure(false)}
	if p.mask != nil {
		ro = append(ro, WithReadMask(maskOf(p.mask)))
	}
	ch := r.Pull(ctx, ro...)
	var all []proto.Message // what it might receive, in order
	if !p.updates {
		all = append(all, gv.ProjectPaths(r.Get(), p.mask))
	}
	at := 0
	var last proto.Message
	take := func(wait time.Duration) bool {
		select {
		case e := <-ch:
			last = e.Value
			for at < len(all) && !sameMsg(all[at], e.Value) {
				at++
			}
			gv.Ensures("values are received in the order they are written", at < len(all))
			at++
			return true
		case <-time.After(wait):
			return false
		}
	}
	for i, w := range p.writes {
		within("writes don't wait for subscribers without backpressure", 4*time.Second, func() {
			_, err := r.Set(w.msg)
			gv.Ensures("a write succeeds without anyone receiving", err == nil)
		})
		all = append(all, gv.ProjectPaths(r.Get(), p.mask))
		for n := p.takes[i]; n > 0 && take(200*time.Microsecond); n-- {
		}
	}
	final := gv.ProjectPaths(r.Get(), p.mask)
	gv.Ensures("the most recent value is received", gv.Eventually(func() bool {
		for take(time.Millisecond) {
		}
		return last != nil && sameMsg(last, final)
	}))
	for take(300 * time.Microsecond) {
	}
	gv.Ensures("the value received last is the most recent one", sameMsg(last, final))
}

// With backpressure, writers wait for a subscriber that doesn't receive, and a write to a Value gives up in time.
//
//gv:property C09
//gv:for Value.Set covers Value.Pull Collection.Update Collection.Pull minibus.Delivery.Send
//gv:bounded one execution: a value and a collection with a subscriber that stops receiving
//gv:once
func gvc_Backpressure() {
	r := NewValue(WithInitialValue(&testproto.TestAllTypes{}))
	c := NewCollection()
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	rch := r.Pull(ctx, WithBackpressure(true))
	cch := c.Pull(ctx, WithBackpressure(true))
	type out struct {
		err  error
		took time.Duration
	}
	sets, ups := make(chan out, 10), make(chan out, 10)
	go func() {
		for i := 0; i < 10; i++ {
			t := time.Now()
			_, err := r.Set(&testproto.TestAllTypes{DefaultInt32: int32(1 + i)})
			sets <- out{err, time.Since(t)}
			if err != nil {
				return
			}
		}
	}()
	go func() {
		for i := 0; i < 10; i++ {
			t := time.Now()
			_, err := c.Update("a", &testproto.TestAllTypes{DefaultInt32: int32(1 + i)}, WithCreateIfAbsent())
			ups <- out{err, time.Since(t)}
		}
	}()
	// several writers that can't deliver at the same time
	stuck := NewValue()
	stuck.Pull(ctx, WithBackpressure(true))
	began := time.Now()
	stucks := make(chan error, 3)
	for i := 0; i < cap(stucks); i++ {
		go func() {
			_, err := stuck.Set(&testproto.TestAllTypes{DefaultInt32: int32(1 + i)})
			for n := 0; err != nil && n < 5 && kindOfError(err) == "aborted"; n++ {
				_, err = stuck.Set(&testproto.TestAllTypes{DefaultInt32: int32(1 + i)})
			}
			stucks <- err
		}()
	}
	time.Sleep(500 * time.Millisecond)
	gv.Ensures("writers wait for a subscriber with backpressure (Value)", len(sets) < 8)
	gv.Ensures("writers wait for a subscriber with backpressure (Collection)", len(ups) < 8)
	<-rch // the seed
	for i := 0; i < 3; i++ {
		e := <-rch
		gv.Ensures("nothing is dropped while the subscriber receives (Value)", e.Value.(*testproto.TestAllTypes).DefaultInt32 == int32(1+i))
	}
	n := 0
	for i := 0; i < 10; i++ {
		e := <-cch
		gv.Ensures("nothing is dropped while the subscriber receives (Collection)", e.NewValue.(*testproto.TestAllTypes).DefaultInt32 == int32(1+i))
		n++
	}
	// the subscriber of the value receives no more
	for i := 0; ; i++ {
		select {
		case o := <-sets:
			if o.err == nil {
				continue
			}
			gv.Ensures("a write that can't be delivered fails once its five seconds are over", o.took >= 4*time.Second && o.took < 7*time.Second)
		case <-time.After(8 * time.Second):
			gv.Ensures("a write that can't be delivered doesn't hang", false)
		}
		break
	}
	for i := 0; i < cap(stucks); i++ {
		select {
		case <-stucks:
		case <-time.After(8*time.Second - time.Since(began)):
			gv.Ensures("no write that can't be delivered hangs", false)
		}
	}
	got := r.Get().(*testproto.TestAllTypes).DefaultInt32
	gv.Ensures("the value is readable", got > 3)
}

func kindOfError(err error) string {
	if status.Code(err) == codes.Aborted {
		return "aborted"
	}
	return ""
}
