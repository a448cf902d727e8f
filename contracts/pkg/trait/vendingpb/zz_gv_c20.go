package vendingpb

import (
	"context"
	"fmt"
	"math"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

type vendOp struct {
	kind     int // dispense, dispense by the server, put stock
	name     string
	quantity *traits.Consumable_Quantity
	stock    *traits.Consumable_Stock
}

type vendRun struct {
	stock       []*traits.Consumable_Stock
	consumables []*traits.Consumable
	targeted    bool // options for one of the resources
	ops         []vendOp
}

var gvUnits = map[traits.Consumable_Unit]struct {
	category string
	size     float64
}{
	traits.Consumable_METER:       {"length", 1},
	traits.Consumable_LITER:       {"volume", 1},
	traits.Consumable_CUBIC_METER: {"volume", 1000},
	traits.Consumable_CUP:         {"volume", 0.2365882365},
	traits.Consumable_KILOGRAM:    {"weight", 1},
}

// gvConvert is how much q is in unit.
func gvConvert(q *traits.Consumable_Quantity, unit traits.Consumable_Unit) (float64, bool) {
	if q.GetUnit() == unit {
		return float64(q.GetAmount()), true
	}
	from, fromOK := gvUnits[q.GetUnit()]
	to, toOK := gvUnits[unit]
	return float64(q.GetAmount()) * from.size / to.size, fromOK && toOK && from.category == to.category
}

func gvQuantity(g *gv.Gen) *traits.Consumable_Quantity {
	q := &traits.Consumable_Quantity{Unit: traits.Consumable_Unit(g.R.Intn(7))}
	if g.R.Intn(2) == 0 {
		q.Unit = []traits.Consumable_Unit{traits.Consumable_LITER, traits.Consumable_CUP, traits.Consumable_CUBIC_METER}[g.R.Intn(3)]
	}
	switch g.R.Intn(4) {
	case 0:
		q.Amount = float32(g.R.Intn(20))
	case 1:
		q.Amount = g.R.Float32() * 100
	case 2:
		q.Amount = g.R.Float32()
	}
	return q
}

func gvStock(g *gv.Gen, name string) *traits.Consumable_Stock {
	s := &traits.Consumable_Stock{Consumable: name, Dispensing: g.R.Intn(2) == 0}
	if g.R.Intn(3) > 0 {
		s.Used = gvQuantity(g)
	}
	if g.R.Intn(3) > 0 {
		s.Remaining = gvQuantity(g)
		s.Remaining.Amount *= float32(1 + g.R.Intn(3))
	}
	if g.R.Intn(3) == 0 {
		s.LastDispensed = gvQuantity(g)
	}
	return s
}

func gvg_Vending(g *gv.Gen) vendRun {
	names := []string{"cola", "tea", "water"}[:1+g.R.Intn(3)]
	h := vendRun{targeted: g.R.Intn(2) == 0}
	for _, n := range names {
		if g.R.Intn(4) > 0 {
			h.stock = append(h.stock, gvStock(g, n))
		}
		if g.R.Intn(2) == 0 {
			h.consumables = append(h.consumables, &traits.Consumable{Name: n, Title: g.Str()})
		}
	}
	for i := 1 + g.R.Intn(10); i > 0; i-- {
		o := vendOp{kind: g.R.Intn(5), name: names[g.R.Intn(len(names))], quantity: gvQuantity(g)}
		if g.R.Intn(10) == 0 {
			o.quantity = nil
		}
		if o.kind == 4 {
			o.stock = gvStock(g, o.name)
		}
		h.ops = append(h.ops, o)
	}
	return h
}

func gvNear(got float32, parts ...float64) bool {
	sum, size := 0.0, 0.0
	for _, p := range parts {
		sum += p
		size = max(size, math.Abs(p))
	}
	if len(parts) > 1 && parts[1] < 0 {
		sum = max(sum, 0) // of remaining
	}
	return math.Abs(float64(got)-sum) <= 1e-6*size+1e-30
}

func (h vendRun) model() *Model {
	var opts []resource.Option
	for _, s := range h.stock {
		s = proto.Clone(s).(*traits.Consumable_Stock)
		if h.targeted {
			opts = append(opts, WithInventoryOption(resource.WithInitialRecord(s.Consumable, s)))
		} else {
			opts = append(opts, WithInitialStock(s))
		}
	}
	for _, c := range h.consumables {
		c = proto.Clone(c).(*traits.Consumable)
		if h.targeted {
			opts = append(opts, WithConsumablesOption(resource.WithInitialRecord(c.Name, c)))
		} else {
			opts = append(opts, WithInitialConsumable(c))
		}
	}
	return NewModel(opts...)
}

// Dispensing adds to what is used and takes from what remains, in their own units.
//
//gv:property C20
//gv:for (*Model).DispenseInstantly covers NewModel WithInitialStock WithInitialConsumable WithInventoryOption WithConsumablesOption (*ModelServer).Dispense
//gv:bounded up to 10 calls over up to 3 consumables with generated stock and quantities, amounts compared to 6 digits
func gvc_Vending(h vendRun) {
	m := h.model()
	srv := NewModelServer(m)
	ctx := context.Background()
	stock := map[string]*traits.Consumable_Stock{}
	for _, s := range h.stock {
		stock[s.Consumable] = s
	}
	ok := len(m.ListConsumables()) == len(h.consumables)
	for _, c := range h.consumables {
		got, _ := m.GetConsumable(c.Name)
		ok = ok && proto.Equal(got, c)
	}
	gv.Ensures("the configured consumables are used", ok)
	gv.Ensures("the configured stock is used", gvSameStock(m, stock))
	for _, o := range h.ops {
		gv.Note(fmt.Sprintf("%d %s {%v} {%v}, of {%v}", o.kind, o.name, o.quantity, o.stock, stock[o.name]))
		old := stock[o.name]
		if o.stock != nil {
			got, err := m.UpdateStock(proto.Clone(o.stock).(*traits.Consumable_Stock), resource.WithCreateIfAbsent())
			gv.Ensures("stock is put", err == nil && proto.Equal(got, o.stock))
			stock[o.name] = o.stock
			continue
		}
		var q *traits.Consumable_Quantity
		if o.quantity != nil {
			q = proto.Clone(o.quantity).(*traits.Consumable_Quantity)
		}
		var got *traits.Consumable_Stock
		var err error
		if o.kind%2 == 0 {
			got, err = m.DispenseInstantly(o.name, q)
		} else {
			got, err = srv.Dispense(ctx, &traits.DispenseRequest{Consumable: o.name, Quantity: q})
		}
		switch {
		case old == nil:
			gv.Ensures("dispensing what isn't stocked fails", status.Code(err) == codes.NotFound)
		default:
			used, usedOK := gvConvert(o.quantity, old.GetUsed().GetUnit())
			left, leftOK := gvConvert(o.quantity, old.GetRemaining().GetUnit())
			if old.Used != nil && !usedOK || old.Remaining != nil && !leftOK {
				gv.Ensures("dispensing in units that don't convert fails", err != nil)
				break
			}
			gv.Ensures("dispensing succeeds", err == nil && got != nil)
			now, _ := m.GetStock(o.name)
			gv.Ensures("the stock returned is the stock now", proto.Equal(got, now))
			gv.Ensures("used and remaining are updated if they were there", (got.Used != nil) == (old.Used != nil) && (got.Remaining != nil) == (old.Remaining != nil))
			gv.Ensures("units stay the same", got.GetUsed().GetUnit() == old.GetUsed().GetUnit() && got.GetRemaining().GetUnit() == old.GetRemaining().GetUnit())
			gv.Ensures("the quantity is added to what is used", old.Used == nil || gvNear(got.Used.Amount, float64(old.Used.Amount), used))
			gv.Ensures("the quantity is taken from what remains, but no more than there is", old.Remaining == nil || gvNear(got.Remaining.Amount, float64(old.Remaining.Amount), -left))
			gv.Ensures("the quantity is that last dispensed", proto.Equal(got.LastDispensed, o.quantity) && !got.Dispensing && got.Consumable == o.name)
			stock[o.name] = proto.Clone(got).(*traits.Consumable_Stock)
		}
		gv.Ensures("nothing else changes", gvSameStock(m, stock))
	}
}

func gvSameStock(m *Model, stock map[string]*traits.Consumable_Stock) bool {
	ok := len(m.ListInventory()) == len(stock)
	for n, s := range stock {
		got, _ := m.GetStock(n)
		ok = ok && proto.Equal(got, s)
	}
	return ok
}
