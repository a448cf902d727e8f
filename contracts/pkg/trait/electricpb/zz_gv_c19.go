package electricpb

import (
	"context"
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/time/clock"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// ---- operations

const (
	opCreate = iota // a mode with a generated id
	opAdd           // a mode with an id
	opUpdate
	opDelete
	opSet    // the active mode, to a message
	opChange // the active mode, to a known mode
	opClear  // the active mode, to the normal mode
	opLook   // reads only
	opKinds
)

type modeOp struct {
	kind   int
	server bool // through the servers
	mode   *traits.ElectricMode
	id     string
	mask   []string
	masked bool
	allow  bool // allow missing, create if absent
	nap    int
}

func (o modeOp) String() string {
	name := [...]string{"create", "add", "update", "delete", "set active", "change active", "clear active", "look"}[o.kind]
	if o.server {
		name = "server " + name
	}
	switch o.kind {
	case opCreate, opAdd, opSet:
		return fmt.Sprintf("%s {%v}", name, o.mode)
	case opUpdate:
		if o.masked {
			name += fmt.Sprintf(" %v of", o.mask)
		}
		return fmt.Sprintf("%s {%v} create=%v", name, o.mode, o.allow)
	case opDelete:
		return fmt.Sprintf("%s %q allow missing=%v", name, o.id, o.allow)
	case opChange:
		return fmt.Sprintf("%s %q", name, o.id)
	}
	return name
}

// modeResult is what a call reported, and when it was made.
type modeResult struct {
	op         modeOp
	mode       *traits.ElectricMode // returned
	err        error
	began, end int64
	from, to   time.Time // clock before and after
	seen       *electric // of a look
}

// ---- the specification

// electric is a state: the modes, in key order, and the active mode.
type electric struct {
	modes   map[string]*traits.ElectricMode
	active  *traits.ElectricMode
	changed bool // the active mode was set by one of the operations
}

func (s electric) ids() []string {
	ids := make([]string, 0, len(s.modes))
	for id := range s.modes {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

func (s electric) key() string {
	r := ""
	for _, id := range s.ids() {
		m := s.modes[id]
		r += fmt.Sprint(id, "=", m.Id, m.Title, m.Normal, m.Voltage, m.StartTime.AsTime().Unix(), ";")
	}
	if s.active == nil {
		return r
	}
	return r + fmt.Sprint("active=", s.active.Id, s.active.Title, s.active.StartTime.AsTime().UnixNano())
}

func (s electric) with(id string, m *traits.ElectricMode) electric {
	r := electric{map[string]*traits.ElectricMode{}, s.active, s.changed}
	for k, v := range s.modes {
		r.modes[k] = v
	}
	if m == nil {
		delete(r.modes, id)
	} else {
		r.modes[id] = m
	}
	return r
}

func (s electric) normal() *traits.ElectricMode {
	for _, id := range s.ids() {
		if s.modes[id].Normal {
			return s.modes[id]
		}
	}
	return nil
}

// unlikeMode is a and b, but for the times.
func sameMode(a, b *traits.ElectricMode) bool {
	a, b = proto.Clone(a).(*traits.ElectricMode), proto.Clone(b).(*traits.ElectricMode)
	a.StartTime, b.StartTime = nil, nil
	return proto.Equal(a, b)
}

// fault is how the state breaks the model's rules, if it does.
func (s electric) fault() string {
	normals := 0
	for id, m := range s.modes {
		if m.Id != id {
			return fmt.Sprintf("mode %q is reported as %q", id, m.Id)
		}
		if m.Normal {
			normals++
		}
	}
	if normals > 1 {
		return "more than one mode is normal"
	}
	if s.changed && s.modes[s.active.GetId()] == nil {
		return fmt.Sprintf("the active mode %q isn't one of the modes", s.active.GetId())
	}
	return ""
}

// step is the state after the call, if r is what the call does in s. A wrong result is explained by the last result.
func (r *modeResult) step(s electric) (electric, string) {
	o := r.op
	code := status.Code(r.err)
	fails := func(why string, cs ...codes.Code) (electric, string) {
		for _, c := range cs {
			if r.err != nil && code == c {
				return s, ""
			}
		}
		return s, fmt.Sprintf("%s: want %v, got %v", why, cs, r.err)
	}
	works := func(next electric) (electric, string) {
		if r.err != nil {
			return s, fmt.Sprintf("want no error, got %v", r.err)
		}
		return next, ""
	}
	change := func(m *traits.ElectricMode) (electric, string) {
		if r.err != nil || r.mode == nil {
			return s, fmt.Sprintf("mode %q should be made active, got %v", m.Id, r.err)
		}
		if !sameMode(r.mode, m) {
			return s, fmt.Sprintf("active mode returned is {%v}, the mode is {%v}", r.mode, m)
		}
		if s.active.GetId() != m.Id {
			t := r.mode.GetStartTime().AsTime()
			if r.mode.StartTime == nil || t.Before(r.from) || t.After(r.to) {
				return s, fmt.Sprintf("switching to another mode has start time %v, the clock was at %v", r.mode.GetStartTime().AsTime(), r.from)
			}
		}
		return electric{s.modes, r.mode, true}, ""
	}
	switch o.kind {
	case opCreate, opAdd:
		if o.kind == opCreate && o.server && o.mode.GetId() != "" {
			return fails("id given to CreateMode", codes.InvalidArgument)
		}
		if o.mode.GetNormal() && s.normal() != nil {
			return fails("another normal mode", codes.AlreadyExists)
		}
		id := o.mode.GetId()
		if s.modes[id] != nil {
			return fails("id exists", codes.AlreadyExists)
		}
		m := &traits.ElectricMode{}
		if o.mode != nil {
			m = proto.Clone(o.mode).(*traits.ElectricMode)
		}
		if o.kind == opCreate && r.err == nil {
			id = r.mode.GetId()
			if id == "" || s.modes[id] != nil {
				return s, fmt.Sprintf("created mode has the id %q", id)
			}
			m.Id = id
		}
		if o.kind == opCreate && r.err == nil && !proto.Equal(m, r.mode) {
			return s, fmt.Sprintf("created mode {%v}, returned {%v}", m, r.mode)
		}
		return works(s.with(id, m))
	case opUpdate:
		id := o.mode.GetId()
		if o.server && id == "" {
			return fails("no id", codes.InvalidArgument)
		}
		var bad []codes.Code
		if o.masked && !gv.ValidPaths(o.mode, o.mask) {
			bad = append(bad, codes.InvalidArgument)
		}
		old := s.modes[id]
		if old == nil && (o.server || !o.allow) {
			bad = append(bad, codes.NotFound)
		}
		if old == nil {
			old = &traits.ElectricMode{}
		}
		var mask []string
		if o.masked {
			mask = append([]string{}, o.mask...)
		}
		var next *traits.ElectricMode
		if !o.masked || gv.ValidPaths(o.mode, o.mask) {
			next = gv.MaskedWrite(old, o.mode, mask, nil, nil).(*traits.ElectricMode)
		}
		sets := next.GetNormal()
		if n := s.normal(); sets && n != nil && n.Id != id {
			bad = append(bad, codes.AlreadyExists)
		}
		if next == nil && o.mode.Normal {
			bad = append(bad, codes.AlreadyExists) // which of the reasons isn't specified
		}
		if len(bad) > 0 {
			return fails("update that can't be made", bad...)
		}
		if r.err == nil && !proto.Equal(next, r.mode) {
			return s, fmt.Sprintf("mode should be updated to {%v}, returned {%v}", next, r.mode)
		}
		return works(s.with(id, next))
	case opDelete:
		switch {
		case o.server && o.id == "":
			return fails("no id", codes.InvalidArgument)
		case s.modes[o.id] == nil && o.allow:
			return works(s)
		case s.modes[o.id] == nil:
			return fails("no such mode", codes.NotFound)
		case s.active.GetId() == o.id:
			return fails("deleting the active mode", codes.FailedPrecondition)
		}
		return works(s.with(o.id, nil))
	case opSet:
		if s.modes[o.mode.Id] == nil {
			return fails("no such mode", codes.NotFound)
		}
		return works(electric{s.modes, o.mode, true})
	case opChange:
		if o.server && o.id == "" {
			return fails("no id", codes.InvalidArgument)
		}
		m := s.modes[o.id]
		if m == nil {
			return fails("no such mode", codes.NotFound)
		}
		return change(m)
	case opClear:
		n := s.normal()
		if n == nil {
			return fails("no normal mode", codes.NotFound)
		}
		return change(n)
	case opLook:
		if a, b := (electric{modes: s.modes}).key(), (electric{modes: r.seen.modes}).key(); a != b {
			return s, "modes listed: " + b + " want " + a
		}
		return s, ""
	}
	return s, "?"
}

// ---- the real thing

// gvClock moves on by itself each time it is read, and with the calls.
type gvClock struct {
	clock.Clock
	n    atomic.Int64
	self bool
}

func (c *gvClock) at(n int64) time.Time {
	return time.Unix(1000000, 0).UTC().Add(time.Duration(n) * time.Second)
}

func (c *gvClock) Now() time.Time {
	if c.self {
		return c.at(c.n.Add(1))
	}
	return c.at(c.n.Load())
}

type device struct {
	m     *Model
	s     *ModelServer
	clock *gvClock
}

func (d device) do(o modeOp) *modeResult {
	ctx := context.Background()
	r := &modeResult{op: o}
	clone := func() *traits.ElectricMode {
		if o.mode == nil {
			return nil
		}
		return proto.Clone(o.mode).(*traits.ElectricMode)
	}
	r.from = d.clock.at(d.clock.n.Load())
	defer func() { r.to = d.clock.at(d.clock.n.Load()) }()
	var fm *fieldmaskpb.FieldMask
	if o.masked {
		fm = &fieldmaskpb.FieldMask{Paths: append([]string{}, o.mask...)}
	}
	switch o.kind {
	case opCreate:
		if o.server {
			r.mode, r.err = d.s.CreateMode(ctx, &CreateModeRequest{Mode: clone()})
		} else {
			r.mode, r.err = d.m.CreateMode(clone())
		}
	case opAdd:
		r.err = d.m.AddMode(clone())
	case opUpdate:
		if o.server {
			r.mode, r.err = d.s.UpdateMode(ctx, &UpdateModeRequest{Mode: clone(), UpdateMask: fm})
		} else {
			var opts []resource.WriteOption
			if o.masked {
				opts = append(opts, resource.WithUpdateMask(fm))
			}
			if o.allow {
				opts = append(opts, resource.WithCreateIfAbsent())
			}
			r.mode, r.err = d.m.UpdateMode(clone(), opts...)
		}
	case opDelete:
		if o.server {
			_, r.err = d.s.DeleteMode(ctx, &DeleteModeRequest{Id: o.id, AllowMissing: o.allow})
		} else if o.allow {
			r.err = d.m.DeleteMode(o.id, resource.WithAllowMissing(true))
		} else {
			r.err = d.m.DeleteMode(o.id)
		}
	case opSet:
		r.err = d.m.SetActiveMode(clone())
	case opChange:
		if o.server {
			r.mode, r.err = d.s.UpdateActiveMode(ctx, &traits.UpdateActiveModeRequest{ActiveMode: &traits.ElectricMode{Id: o.id, Title: "ignored"}})
		} else {
			r.mode, r.err = d.m.ChangeActiveMode(o.id)
		}
	case opClear:
		if o.server {
			r.mode, r.err = d.s.ClearActiveMode(ctx, &traits.ClearActiveModeRequest{})
		} else {
			r.mode, r.err = d.m.ChangeToNormalMode()
		}
	case opLook:
		s := d.modes(o.server)
		r.seen = &s
	}
	return r
}

// modes are those that can be listed.
func (d device) modes(server bool) electric {
	s := electric{modes: map[string]*traits.ElectricMode{}}
	list := d.m.Modes()
	if server {
		list = nil
		req := &traits.ListModesRequest{}
		for {
			resp, err := d.s.ListModes(context.Background(), req)
			if err != nil {
				break
			}
			list = append(list, resp.Modes...)
			if req.PageToken = resp.NextPageToken; req.PageToken == "" {
				break
			}
		}
	}
	for _, m := range list {
		s.modes[m.Id] = m
	}
	return s
}

// look is the whole of the state, and what is wrong with how it is reported.
func (d device) look(changed bool) (electric, string) {
	s := d.modes(false)
	s.changed = changed
	s.active = d.m.ActiveMode()
	if served := d.modes(true); served.key() != (electric{modes: s.modes}).key() {
		return s, "ListModes has other modes than the model"
	}
	if len(d.m.Modes()) != len(s.modes) {
		return s, "two modes have the same id"
	}
	if a, err := d.s.GetActiveMode(context.Background(), &traits.GetActiveModeRequest{}); err != nil || !proto.Equal(a, s.active) {
		return s, "GetActiveMode has another mode than the model"
	}
	n, ok := d.m.NormalMode()
	if want := s.normal(); ok != (want != nil) || ok && !proto.Equal(n, want) {
		return s, "NormalMode isn't the mode that is normal"
	}
	for id, m := range s.modes {
		if f, ok := d.m.FindMode(id); !ok || !proto.Equal(f, m) {
			return s, "FindMode doesn't find a mode of the list"
		}
	}
	return s, s.fault()
}

// ---- inputs

type modeRun struct {
	initial []*traits.ElectricMode
	active  *traits.ElectricMode // nil: the default
	rng     int64
	tracks  [][]modeOp
	naps    bool
}

var gvModeIds = []string{"a", "b", "c", "d"}

func gvMode(g *gv.Gen, ids []string) *traits.ElectricMode {
	m := &traits.ElectricMode{Id: ids[g.R.Intn(len(ids))], Normal: g.R.Intn(2) == 0}
	if g.R.Intn(2) == 0 {
		m.Title = []string{"x", "y"}[g.R.Intn(2)]
	}
	if g.R.Intn(4) == 0 {
		m.Voltage = float32(g.R.Intn(3))
	}
	if g.R.Intn(4) == 0 {
		m.StartTime = timestamppb.New(time.Unix(int64(g.R.Intn(3)), 0))
	}
	return m
}

func gvModeOp(g *gv.Gen, ids []string) modeOp {
	any := append([]string{""}, ids...)
	o := modeOp{kind: g.R.Intn(opLook), server: g.R.Intn(2) == 0, id: ids[g.R.Intn(len(ids))], allow: g.R.Intn(2) == 0, nap: g.R.Intn(4)}
	switch o.kind {
	case opCreate:
		o.mode = gvMode(g, ids)
		if !o.server || g.R.Intn(8) > 0 {
			o.mode.Id = ""
		}
		if o.server && g.R.Intn(8) == 0 {
			o.mode = nil
		}
		if g.R.Intn(3) > 0 { // ids the other operations don't use
			o.kind, o.server, o.mode = opAdd, false, gvMode(g, ids)
		}
	case opAdd, opSet:
		o.server = false
		o.mode = gvMode(g, ids)
	case opUpdate:
		o.mode = gvMode(g, ids)
		if o.server && g.R.Intn(8) == 0 {
			o.mode.Id = ""
		}
		if o.masked = g.R.Intn(2) == 0; o.masked {
			for _, p := range []string{"normal", "title", "start_time", "voltage"} {
				if g.R.Intn(2) == 0 {
					o.mask = append(o.mask, p)
				}
			}
			if g.R.Intn(12) == 0 {
				o.mask = append(o.mask, "nonsense")
			}
			if o.allow && !o.server {
				o.mask = append(o.mask, "id") // what is created has its id
			}
		}
	case opDelete:
		if g.R.Intn(8) == 0 {
			o.id = any[g.R.Intn(len(any))]
		}
	case opChange:
		if g.R.Intn(8) == 0 {
			o.id = any[g.R.Intn(len(any))]
		}
	}
	return o
}

func gvModeRun(g *gv.Gen, ids []string) modeRun {
	h := modeRun{rng: g.R.Int63()}
	normal := false
	for _, id := range ids {
		if g.R.Intn(2) == 0 {
			m := gvMode(g, []string{id})
			m.Normal = m.Normal && !normal
			normal = normal || m.Normal
			h.initial = append(h.initial, m)
		}
	}
	switch g.R.Intn(3) {
	case 0:
		h.active = &traits.ElectricMode{Title: "dummy"}
	case 1:
		if len(h.initial) > 0 {
			h.active = h.initial[g.R.Intn(len(h.initial))]
		}
	}
	return h
}

func (h modeRun) device(self bool) (device, electric) {
	d := device{clock: &gvClock{Clock: clock.Real(), self: self}}
	opts := []resource.Option{WithClock(d.clock), WithRNG(rand.New(rand.NewSource(h.rng)))}
	s := electric{map[string]*traits.ElectricMode{}, &traits.ElectricMode{}, false}
	for _, m := range h.initial {
		opts = append(opts, WithInitialMode(proto.Clone(m).(*traits.ElectricMode)))
		s.modes[m.Id] = m
	}
	if h.active != nil {
		opts = append(opts, WithInitialActiveMode(proto.Clone(h.active).(*traits.ElectricMode)))
		s.active = h.active
	}
	d.m = NewModel(opts...)
	d.s = NewModelServer(d.m)
	return d, s
}

// inOrder makes the calls one after the other, checking everything after each of them.
func (h modeRun) inOrder() {
	d, want := h.device(false)
	got, fault := d.look(false)
	gv.Note(fmt.Sprintf("initially %s", got.key()))
	gv.Ensures("the model reports its state consistently", fault == "")
	gv.Ensures("the initial modes and active mode are used", got.key() == want.key())
	for _, o := range h.tracks[0] {
		d.clock.n.Add(int64(1 + o.nap))
		r := d.do(o)
		gv.Note(fmt.Sprintf("%v -> {%v} %v", o, r.mode, r.err))
		next, wrong := r.step(want)
		if wrong != "" {
			gv.Note(fmt.Sprintf("wrong: %s", wrong))
		}
		gv.Ensures("the call has the result specified", wrong == "")
		want = next
		got, fault := d.look(want.changed)
		if fault != "" {
			gv.Note(fmt.Sprintf("wrong: %s", fault))
		}
		gv.Ensures("at most one mode is normal and the active mode exists", fault == "")
		if got.key() != want.key() {
			gv.Note(fmt.Sprintf("wrong: want %s", want.key()))
			gv.Note(fmt.Sprintf("       have %s", got.key()))
		}
		gv.Ensures("the modes and the active mode are those specified", got.key() == want.key())
	}
}

// ---- contracts

func gvg_ModeSequences(g *gv.Gen) modeRun {
	ids := gvModeIds[:1+g.R.Intn(4)]
	h := gvModeRun(g, ids)
	var t []modeOp
	for n := 1 + g.R.Intn(30); n > 0; n-- {
		t = append(t, gvModeOp(g, ids))
	}
	h.tracks = [][]modeOp{t}
	return h
}

// Calls made one after the other have the results specified and keep the invariants of the model.
//
//gv:property C19
//gv:for (*Model).UpdateMode covers (*Model).CreateMode (*Model).AddMode (*Model).DeleteMode (*Model).SetActiveMode (*Model).ChangeActiveMode (*Model).ChangeToNormalMode (*ModelServer).UpdateActiveMode (*ModelServer).ClearActiveMode (*ModelServer).CreateMode (*ModelServer).UpdateMode (*ModelServer).DeleteMode
//gv:bounded sequences of up to 30 calls over up to 4 modes and generated ones, by the model's and the servers' methods
//gv:par 3
//gv:run 10
func gvc_ModeSequences(h modeRun) { h.inOrder() }

// gvAlphabet are the calls of the exhaustive sequences.
var gvAlphabet = []modeOp{
	{kind: opAdd, mode: &traits.ElectricMode{Id: "a"}},
	{kind: opAdd, mode: &traits.ElectricMode{Id: "a", Normal: true}},
	{kind: opAdd, mode: &traits.ElectricMode{Id: "b", Normal: true}},
	{kind: opCreate, mode: &traits.ElectricMode{Normal: true}, server: true},
	{kind: opUpdate, mode: &traits.ElectricMode{Id: "a", Normal: true}, server: true},
	{kind: opUpdate, mode: &traits.ElectricMode{Id: "a"}},
	{kind: opUpdate, mode: &traits.ElectricMode{Id: "b", Normal: true}, masked: true, mask: []string{"normal"}},
	{kind: opUpdate, mode: &traits.ElectricMode{Id: "b", Normal: true}, masked: true, mask: []string{"title"}},
	{kind: opUpdate, mode: &traits.ElectricMode{Id: "b", Normal: true}, allow: true},
	{kind: opDelete, id: "a"},
	{kind: opDelete, id: "a", allow: true, server: true},
	{kind: opDelete, id: "b", allow: true},
	{kind: opSet, mode: &traits.ElectricMode{Id: "a"}},
	{kind: opChange, id: "a"},
	{kind: opChange, id: "b", server: true},
	{kind: opClear},
	{kind: opClear, server: true},
}

func gvg_EveryModeSequence(g *gv.Gen) modeRun {
	n := g.Seed
	if n < 0 {
		n = -n
	}
	var t []modeOp
	for i := 0; i < 4; i++ {
		t = append(t, gvAlphabet[n%int64(len(gvAlphabet))])
		n /= int64(len(gvAlphabet))
	}
	h := modeRun{tracks: [][]modeOp{t}}
	if n%2 == 1 {
		h.initial = []*traits.ElectricMode{{Id: "a"}, {Id: "b", Normal: true}}
	}
	return h
}

// As ModeSequences, of short sequences in turn.
//
//gv:property C19
//gv:for (*Model).UpdateMode covers (*Model).CreateMode (*Model).AddMode (*Model).DeleteMode (*Model).SetActiveMode (*Model).ChangeActiveMode (*Model).ChangeToNormalMode
//gv:bounded sequences of up to 4 of 17 calls on 2 modes, in turn as far as the time allows
//gv:par 3
//gv:run 10
func gvc_EveryModeSequence(h modeRun) { h.inOrder() }

func gvg_ModesTogether(g *gv.Gen) modeRun {
	ids := gvModeIds[:1+g.R.Intn(3)]
	h := gvModeRun(g, ids)
	for i := 2 + g.R.Intn(3); i > 0; i-- {
		var t []modeOp
		for n := 1 + g.R.Intn(4); n > 0; n-- {
			o := gvModeOp(g, ids)
			if g.R.Intn(6) == 0 {
				o = modeOp{kind: opLook}
			}
			t = append(t, o)
		}
		h.tracks = append(h.tracks, t)
	}
	return h
}

// Calls made concurrently keep the invariants, and have results that some order of them explains.
//
//gv:property C19
//gv:for (*Model).UpdateMode covers (*Model).CreateMode (*Model).AddMode (*Model).DeleteMode (*Model).SetActiveMode (*Model).ChangeActiveMode (*Model).ChangeToNormalMode
//gv:bounded up to 4 callers of up to 4 calls over up to 3 modes; schedules perturbed at every statement of the package
//gv:sched
//gv:run 20
func gvc_ModesTogether(h modeRun) {
	d, initial := h.device(true)
	var (
		mu  sync.Mutex
		all []*modeResult
		now atomic.Int64
		wg  sync.WaitGroup
	)
	start := make(chan struct{})
	for _, t := range h.tracks {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, o := range t {
				if o.nap == 3 {
					gv.Pause()
				}
				began := now.Add(1)
				r := d.do(o)
				r.began, r.end = began, now.Add(1)
				mu.Lock()
				all = append(all, r)
				mu.Unlock()
			}
		}()
	}
	close(start)
	ended := make(chan struct{})
	go func() { wg.Wait(); close(ended) }()
	select {
	case <-ended:
	case <-time.After(10 * time.Second):
		gv.Ensures("every call returns", false)
		return
	}
	changed := false
	for _, r := range all {
		gv.Note(fmt.Sprintf("[%d,%d] %v -> {%v} %v", r.began, r.end, r.op, r.mode, r.err))
		if r.op.kind == opLook {
			fault := r.seen.fault()
			gv.Ensures("at most one mode is normal whenever they are listed", fault == "")
		}
		changed = changed || r.err == nil && (r.op.kind == opSet || r.op.kind == opChange || r.op.kind == opClear)
	}
	final, fault := d.look(changed)
	gv.Note(fmt.Sprintf("finally %s %s", final.key(), fault))
	gv.Ensures("at most one mode is normal and the active mode exists", fault == "")
	gv.Ensures("some order of the calls explains their results and the final state", explainedModes(initial, all, final))
}

// explainedModes: some order of the calls, consistent with when they began and ended, gives each its result and ends in final.
func explainedModes(s electric, all []*modeResult, final electric) bool {
	tried := map[string]bool{}
	var try func(s electric, done []bool, left int) bool
	try = func(s electric, done []bool, left int) bool {
		if left == 0 {
			return s.key() == final.key()
		}
		key := fmt.Sprint(done, s.key())
		if tried[key] {
			return false
		}
		tried[key] = true
		first := int64(1) << 62 // a call that ended before another began comes before it
		for i, r := range all {
			if !done[i] && r.end < first {
				first = r.end
			}
		}
		for i, r := range all {
			if done[i] || r.began > first {
				continue
			}
			done[i] = true
			if next, wrong := r.step(s); wrong == "" && try(next, done, left-1) {
				return true
			}
			if status.Code(r.err) == codes.Aborted && r.overlaps(all) && try(s, done, left-1) {
				return true // it lost to another
			}
			done[i] = false
		}
		return false
	}
	return try(s, make([]bool, len(all)), len(all))
}

func (r *modeResult) overlaps(all []*modeResult) bool {
	for _, o := range all {
		if o != r && o.op.kind != opLook && o.began < r.end && r.began < o.end {
			return true
		}
	}
	return false
}
