package electricpb

import (
	"context"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/time/clock"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// dClock tells the time it is set to.
type dClock struct {
	clock.Clock
	sec int64
}

func (c *dClock) Now() time.Time { return time.Unix(c.sec, 0) }

// dModes is a model in any state it can have with up to two modes, a and b: made by the calls that lead to it.
type dModes struct {
	m              *Model
	clock          *dClock
	hasA, hasB     bool
	normA, normB   bool
	voltA, voltB   float32
	active         string // "" when it never changed
	activeNormal   bool
	activeStart    int64 // -1: none
	addsA, changes int
}

// dActive selects an id: that of a mode there may be, or of none.
func dID(k uint8) string {
	switch k {
	case 0:
		return "a"
	case 1:
		return "b"
	}
	return "c"
}

func dMode(id string, normal bool, volt float32) *traits.ElectricMode {
	return &traits.ElectricMode{Id: id, Normal: normal, Voltage: volt}
}

// dModel makes a model: modes a and b, and the active mode, 0: none, 1: a, 2: b.
func dModel(hasA, normA, hasB, normB bool, active uint8) *dModes {
	gv.Requires(!normA || hasA)
	gv.Requires(!normB || hasB)
	gv.Requires(!(normA && normB))
	gv.Requires(active <= 2 && (active != 1 || hasA) && (active != 2 || hasB))
	c := &dClock{sec: 1000}
	d := &dModes{m: NewModel(WithClock(c)), clock: c, hasA: hasA, hasB: hasB, normA: normA, normB: normB, activeStart: -1}
	if hasA {
		gv.Ensures("a is added", d.m.AddMode(dMode("a", normA, 1)) == nil)
	}
	if hasB {
		gv.Ensures("b is added", d.m.AddMode(dMode("b", normB, 2)) == nil)
	}
	if active != 0 {
		d.active = dID(active - 1)
		d.activeStart = 1000
		_, err := d.m.ChangeActiveMode(d.active)
		gv.Ensures("it is made active", err == nil)
	}
	c.sec = 2000
	return d
}

// check says that the invariants hold: at most one normal mode, and the active one exists.
func (d *dModes) check() {
	normal, act, exists := 0, d.m.ActiveMode().Id, false
	for k := uint8(0); k < 3; k++ {
		is, isNormal := d.has(dID(k))
		if isNormal {
			normal++
		}
		exists = exists || is && dID(k) == act
	}
	gv.Ensures("at most one mode is normal", normal <= 1)
	gv.Ensures("the active mode exists", act == "" || exists)
	gv.Ensures("once there is an active mode there is one", d.active == "" || act != "")
}

// has says whether there is a mode, and whether it is normal.
func (d *dModes) has(id string) (bool, bool) {
	m, ok := d.m.FindMode(id)
	if !ok {
		return false, false
	}
	return true, m.Normal
}

const (
	dAdd = iota
	dCreate
	dUpdate
	dUpdateVolt
	dDelete
	dSet
	dChange
	dClear
	dServerDelete
	dOps
)

// do calls operation op of the model or its servers.
func (d *dModes) do(op uint8, id string, normal, allowMissing bool) (*traits.ElectricMode, error) {
	ctx := context.Background()
	switch op {
	case dAdd:
		return nil, d.m.AddMode(dMode(id, normal, 3))
	case dCreate:
		return d.m.CreateMode(dMode("", normal, 3))
	case dUpdate:
		return d.m.UpdateMode(dMode(id, normal, 3))
	case dUpdateVolt:
		return d.m.UpdateMode(dMode(id, normal, 3), resource.WithUpdatePaths("voltage"))
	case dDelete:
		return nil, d.m.DeleteMode(id, resource.WithAllowMissing(allowMissing))
	case dSet:
		return nil, d.m.SetActiveMode(dMode(id, false, 3))
	case dChange:
		return d.m.ChangeActiveMode(id)
	case dClear:
		return NewModelServer(d.m).ClearActiveMode(ctx, &traits.ClearActiveModeRequest{})
	case dServerDelete:
		_, err := NewModelServer(d.m).DeleteMode(ctx, &DeleteModeRequest{Id: id, AllowMissing: allowMissing})
		return nil, err
	}
	return nil, nil
}

// Any operation on any state with up to two modes: its result, what it leaves, and the invariants.
//
//gv:property C19
//gv:for (*Model).AddMode covers (*Model).UpdateMode (*Model).DeleteMode (*Model).SetActiveMode (*Model).ChangeActiveMode (*Model).ChangeToNormalMode (*Model).FindMode (*Model).Modes (*Model).NormalMode (*ModelServer).ClearActiveMode (*ModelServer).DeleteMode
//gv:unroll 20
func gvc_ModeOperation(hasA, normA, hasB, normB bool, active, op, k uint8, normal, allowMissing bool) {
	gv.Requires(op < dOps && op != dCreate && k <= 2)
	d := dModel(hasA, normA, hasB, normB, active)
	id := dID(k)
	exists := k == 0 && hasA || k == 1 && hasB
	wasNormal := k == 0 && normA || k == 1 && normB
	someNormal := normA || normB
	old := d.m.ActiveMode().Id
	gv.Ensures("the active mode is as it was made", old == d.active)

	got, err := d.do(op, id, normal, allowMissing)
	d.check()
	now := d.m.ActiveMode()
	is, isNormal := d.has(id)
	kept := func() {
		gv.Ensures("refused without effect", is == exists && isNormal == wasNormal && now.Id == old)
	}
	switch op {
	case dAdd:
		switch {
		case normal && someNormal:
			gv.Ensures("a second normal mode is refused", status.Code(err) == codes.AlreadyExists)
			kept()
		case exists:
			gv.Ensures("an existing mode is refused", err != nil)
			kept()
		default:
			gv.Ensures("added", err == nil && is && isNormal == normal && now.Id == old)
		}
	case dUpdate:
		switch {
		case !exists && !(normal && someNormal):
			gv.Ensures("an absent mode isn't updated", status.Code(err) == codes.NotFound)
			kept()
		case normal && someNormal && !wasNormal:
			gv.Ensures("a second normal mode is refused", err != nil)
			kept()
		default:
			gv.Ensures("updated", err == nil && is && isNormal == normal && got.Voltage == 3 && now.Id == old)
		}
	case dUpdateVolt:
		if !exists {
			gv.Ensures("an absent mode isn't updated", status.Code(err) == codes.NotFound)
			kept()
		} else {
			gv.Ensures("updated as masked", err == nil && is && isNormal == wasNormal && got.Voltage == 3 && now.Id == old)
		}
	case dDelete, dServerDelete:
		switch {
		case !exists:
			gv.Ensures("an absent mode isn't found, unless that is allowed", (err == nil) == allowMissing)
			gv.Ensures("an absent mode is reported as such", err == nil || status.Code(err) == codes.NotFound)
			kept()
		case old == id:
			gv.Reach("deleting the active mode")
			gv.Ensures("the active mode isn't deleted", status.Code(err) == codes.FailedPrecondition)
			kept()
		default:
			gv.Ensures("deleted", err == nil && !is && now.Id == old)
		}
	case dSet:
		if exists {
			gv.Ensures("it is active", err == nil && now.Id == id)
		} else {
			gv.Ensures("an absent mode doesn't become active", err != nil)
			kept()
		}
	case dChange, dClear:
		to := id
		if op == dClear {
			switch {
			case normA:
				to = "a"
			case normB:
				to = "b"
			default:
				gv.Ensures("there is no normal mode", err != nil && now.Id == old)
				return
			}
		} else if !exists {
			gv.Ensures("an absent mode doesn't become active", status.Code(err) == codes.NotFound)
			kept()
			return
		}
		gv.Reach("changing the active mode")
		gv.Ensures("it is active", err == nil && now.Id == to && got.Id == to)
		if to != old {
			gv.Ensures("from now on", now.StartTime != nil && now.StartTime.Seconds == 2000 && got.StartTime != nil && got.StartTime.Seconds == 2000)
		}
		is, isNormal := d.has(to)
		gv.Ensures("it stays as it is", is && isNormal == (to == "a" && normA || to == "b" && normB))
	}
}

func gvg_ModeOperation(g *gv.Gen) (hasA, normA, hasB, normB bool, active, op, k uint8, normal, allowMissing bool) {
	b := func() bool { return g.R.Intn(2) == 0 }
	hasA, hasB = b(), b()
	normA = hasA && b()
	normB = hasB && b() && !normA
	active = uint8(g.R.Intn(3))
	if active == 1 && !hasA || active == 2 && !hasB {
		active = 0
	}
	return hasA, normA, hasB, normB, active, []uint8{dAdd, dUpdate, dUpdateVolt, dDelete, dSet, dChange, dClear, dServerDelete}[g.R.Intn(8)], uint8(g.R.Intn(3)), b(), b()
}

// Two operations at once on a model of modes a and b, neither normal: the invariants hold whatever their schedule. What is
// added or updated is made normal.
//
//gv:property C19
//gv:for (*Model).AddMode covers (*Model).UpdateMode (*Model).DeleteMode (*Model).SetActiveMode (*Model).ChangeActiveMode
//gv:delays 1
//gv:norun
func gvc_ModeRace(active, op1, k1, op2, k2 uint8) {
	gv.Requires(active <= 1 && op1 <= dChange && k1 <= 1 && op2 <= dChange && k2 <= 1 && op1 <= op2)
	gv.Requires(op1 != dCreate && op2 != dCreate && op1 != dUpdateVolt && op2 != dUpdateVolt)
	gv.Requires(op1 != dAdd || k1 == 0)
	gv.Requires(op2 != dAdd || k2 == 0)
	d := dModel(true, false, true, false, active)
	id := func(op, k uint8, added string) string {
		if op == dAdd {
			return added
		}
		return dID(k)
	}
	done := 0
	go func() {
		_, _ = d.do(op1, id(op1, k1, "c"), true, false)
		done++
	}()
	_, _ = d.do(op2, id(op2, k2, "d"), true, false)
	done++
	gv.Still()
	gv.Ensures("both return", done == 2)
	d.check()
	if is, isNormal := d.has("d"); is && isNormal {
		_, c := d.has("c")
		_, a := d.has("a")
		_, b := d.has("b")
		gv.Ensures("only what was added last is normal", !a && !b && !c)
	}
}

// Creating a mode, with an id of the model's choosing, in any state with up to one mode.
//
//gv:property C19
//gv:for (*Model).CreateMode
//gv:unroll 20
//gv:budget 100
func gvc_ModeCreate(hasA, normA, normal bool) {
	d := dModel(hasA, normA, false, false, 0)
	got, err := d.do(dCreate, "", normal, false)
	is, isNormal := d.has("a")
	gv.Ensures("the mode there is stays", !hasA || is && isNormal == normA)
	if normal && normA {
		gv.Ensures("a second normal mode is refused", status.Code(err) == codes.AlreadyExists && len(d.m.Modes()) == 1)
		return
	}
	if err != nil {
		return
	}
	ok, norm := d.has(got.Id)
	gv.Ensures("created", got.Id != "" && ok && norm == normal)
	gv.Ensures("under an id of its own", !hasA || got.Id != "a")
}

func gvg_ModeCreate(g *gv.Gen) (hasA, normA, normal bool) {
	hasA = g.R.Intn(2) == 0
	return hasA, hasA && g.R.Intn(2) == 0, g.R.Intn(2) == 0
}
