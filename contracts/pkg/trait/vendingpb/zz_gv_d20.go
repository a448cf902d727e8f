package vendingpb

import (
	"context"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb/unitpb"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// Dispensing any quantity of any stock, in any units: added to what is used, taken from what remains and no more, in their
// own units. (That Convert32 converts is in the contracts of unitpb.)
//
//gv:property C20
//gv:for (*Model).DispenseInstantly covers NewModel WithInitialStock WithInitialConsumable (*ModelServer).Dispense (*Model).GetStock
func gvc_Dispense(stocked, other, hasUsed, hasLeft, hasLast, hasQ, dispensing, byServer bool, used, left, amount float32, usedUnit, leftUnit, unit traits.Consumable_Unit) {
	stock := &traits.Consumable_Stock{Consumable: "tea", Dispensing: dispensing}
	if hasUsed {
		stock.Used = &traits.Consumable_Quantity{Amount: used, Unit: usedUnit}
	}
	if hasLeft {
		stock.Remaining = &traits.Consumable_Quantity{Amount: left, Unit: leftUnit}
	}
	if hasLast {
		stock.LastDispensed = &traits.Consumable_Quantity{Amount: 7}
	}
	m := NewModel(WithInitialConsumable(&traits.Consumable{Name: "tea", Title: "Tea"}))
	if stocked {
		m = NewModel(WithInitialStock(stock), WithInitialConsumable(&traits.Consumable{Name: "tea", Title: "Tea"}))
	}
	name := "tea"
	if other {
		name = "milk"
	}
	var q *traits.Consumable_Quantity
	if hasQ {
		q = &traits.Consumable_Quantity{Amount: amount, Unit: unit}
	}
	var got *traits.Consumable_Stock
	var err error
	if byServer {
		got, err = NewModelServer(m).Dispense(context.Background(), &traits.DispenseRequest{Consumable: name, Quantity: q})
	} else {
		got, err = m.DispenseInstantly(name, q)
	}
	now, is := m.GetStock("tea")
	tea, isTea := m.GetConsumable("tea")
	gv.Ensures("consumables stay as they are", isTea && tea.Title == "Tea")
	gv.Ensures("what is stocked stays stocked", is == stocked)
	if !stocked || other {
		gv.Reach("not stocked")
		gv.Ensures("dispensing what isn't stocked fails", status.Code(err) == codes.NotFound)
		if stocked {
			gv.Ensures("other stock stays", specIs(now.Used, hasUsed, used, usedUnit) && specIs(now.Remaining, hasLeft, left, leftUnit) && specIs(now.LastDispensed, hasLast, 7, 0) && now.Dispensing == dispensing)
		}
		return
	}
	if !hasQ {
		amount, unit = 0, 0
	}
	addUsed, errUsed := unitpb.Convert32(amount, unit, usedUnit)
	fromLeft, errLeft := unitpb.Convert32(amount, unit, leftUnit)
	if hasUsed && errUsed != nil || hasLeft && errLeft != nil {
		gv.Reach("not convertible")
		gv.Ensures("units that don't convert are an error", err != nil)
		gv.Ensures("without effect", specIs(now.Used, hasUsed, used, usedUnit) && specIs(now.Remaining, hasLeft, left, leftUnit) && specIs(now.LastDispensed, hasLast, 7, 0) && now.Dispensing == dispensing)
		return
	}
	gv.Reach("dispensed")
	gv.Ensures("it is dispensed", err == nil)
	for _, s := range []*traits.Consumable_Stock{got, now} {
		gv.Ensures("added to what is used", specIs(s.Used, hasUsed, used+addUsed, usedUnit))
		rest := left - fromLeft
		if rest < 0 {
			rest = 0
		}
		gv.Ensures("taken from what remains", specIs(s.Remaining, hasLeft, rest, leftUnit))
		gv.Ensures("it was dispensed last", specIs(s.LastDispensed, hasQ, amount, unit) && !s.Dispensing && s.Consumable == "tea")
	}
}

// specIs says whether q is there, of an amount in a unit.
func specIs(q *traits.Consumable_Quantity, has bool, amount float32, unit traits.Consumable_Unit) bool {
	if !has {
		return q == nil
	}
	return q != nil && q.Amount == amount && q.Unit == unit
}

func gvg_Dispense(g *gv.Gen) (stocked, other, hasUsed, hasLeft, hasLast, hasQ, dispensing, byServer bool, used, left, amount float32, usedUnit, leftUnit, unit traits.Consumable_Unit) {
	b := func() bool { return g.R.Intn(2) == 0 }
	a := func() float32 { return float32(g.R.Intn(50)) / 4 }
	u := func() traits.Consumable_Unit { return traits.Consumable_Unit(g.R.Intn(7)) }
	return g.R.Intn(5) > 0, g.R.Intn(5) == 0, b(), b(), b(), g.R.Intn(5) > 0, b(), b(), a(), a(), a(), u(), u(), u()
}
