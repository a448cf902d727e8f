package vendingpb

import (
	"context"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

// specCountStock and specKeyStock are the contents of the collection: its size and its keys in order.
//
//gv:abstract
func specCountStock(m *Model) int { return len(m.ListInventory()) }

//gv:abstract
func specKeyStock(m *Model, i int) string { return m.ListInventory()[i].Consumable }

// ListInventory lists the contents in strictly ascending key order.
//
//gv:property C15
//gv:for (*Model).ListInventory
//gv:summary
//gv:bounded resource.Collection is generic over opaque messages; run on generated collections of up to 8 items
func gvc_ListInventorySummary(m *Model, opts []resource.ReadOption) []*traits.Consumable_Stock {
	r := m.ListInventory(opts...)
	n := specCountStock(m)
	gv.Ensures("ListInventory returns every item", len(r) == n)
	gv.Ensures("ListInventory returns the items in key order", gv.Forall(0, n, func(i int) bool { return r[i] != nil && r[i].Consumable == specKeyStock(m, i) }))
	gv.Ensures("keys are set", gv.Forall(0, n, func(i int) bool { return specKeyStock(m, i) != "" }))
	gv.Ensures("ListInventory is strictly ascending", gv.Forall(0, n-1, func(i int) bool { return specKeyStock(m, i) < specKeyStock(m, i+1) }))
	return r
}

func gvg_ListInventorySummary(g *gv.Gen) (*Model, []resource.ReadOption) {
	return genModelStock(g, 8), nil
}

func genModelStock(g *gv.Gen, max int) *Model {
	var modes []*traits.Consumable_Stock
	for i := g.R.Intn(max + 1); i > 0; i-- {
		modes = append(modes, &traits.Consumable_Stock{Consumable: string(rune('a'+g.R.Intn(26))) + g.Str(), Dispensing: g.R.Intn(2) == 0})
	}
	m := NewModel()
	for _, x := range modes {
		_, _ = m.CreateStock(x)
	}
	return m
}

// One page: the items after the token's key, as many as asked for, and a token for the rest.
// With tokens holding the last key of the page, following them enumerates every item once (induction over pages: each
// page is non-empty until the items run out, and starts at the first key above the previous page's last).
//
//gv:property C15
//gv:for (*ModelServer).ListInventory
//gv:budget 200
func gvc_ListInventory(m *Model, req *traits.ListInventoryRequest) {
	gv.Requires(m != nil && req != nil && req.ReadMask == nil)
	n := specCountStock(m)
	gv.Bound("items", n, 6)
	res, err := NewModelServer(m).ListInventory(context.Background(), req)
	if req.PageSize < 0 {
		gv.Reach("negative page size")
		gv.Ensures("a negative page size is rejected with a status", res == nil && status.Code(err) != codes.OK && status.Code(err) != codes.Unknown)
		return
	}
	if req.PageToken != "" && !specTokenOK(req.PageToken) {
		gv.Reach("malformed token")
		gv.Ensures("a malformed token is rejected with a status", res == nil && status.Code(err) != codes.OK && status.Code(err) != codes.Unknown)
		return
	}
	gv.Ensures("a valid request succeeds", err == nil && res != nil)
	gv.Ensures("total_size is the number of items", int(res.TotalSize) == n)
	size := int(req.PageSize)
	if size == 0 {
		size = 50
	}
	if size > 1000 {
		size = 1000
	}
	last := ""
	if req.PageToken != "" {
		last = specTokenKey(req.PageToken)
	}
	k := len(res.Inventory)
	start := 0
	for i := 0; i < n; i++ {
		if specKeyStock(m, i) <= last && last != "" {
			start = i + 1
		}
	}
	gv.Ensures("a page is no larger than requested", k <= size)
	gv.Ensures("a page is full unless the items run out", k == size || start+k == n)
	gv.Ensures("a page stays inside the items", start+k <= n)
	gv.Ensures("a page is the items following the token", gv.Forall(0, k, func(j int) bool {
		return res.Inventory[j] != nil && res.Inventory[j].Consumable == specKeyStock(m, start+j)
	}))
	if res.NextPageToken == "" {
		gv.Reach("last page")
		gv.Ensures("the token is dropped only at the end", start+k == n)
	} else {
		gv.Reach("further pages")
		gv.Ensures("a page with a token has items", k > 0)
		gv.Ensures("the token holds the last key of the page", specTokenOK(res.NextPageToken) && specTokenKey(res.NextPageToken) == specKeyStock(m, start+k-1))
	}
}

func gvg_ListInventory(g *gv.Gen) (*Model, *traits.ListInventoryRequest) {
	return genModelStock(g, 8), &traits.ListInventoryRequest{PageSize: int32(g.R.Intn(8) - 1), PageToken: genToken(g)}
}

// Walking the pages, with any sizes and any read mask.
//
//gv:property C15
//gv:for (*ModelServer).ListInventory
//gv:bounded collections of up to 60 items, page sizes 0..9 or large
func gvc_WalkInventory(count int, keep bool, sizes []int32, mask *fieldmaskpb.FieldMask) {
	opts := []resource.Option{}
	m := NewModel(opts...)
	for i := 0; i < count; i++ {
		mode := &traits.Consumable_Stock{Dispensing: i%3 == 0}
		_, err := m.CreateStock(mode)
		gv.Requires(err == nil)
	}
	all := m.ListInventory()
	s := NewModelServer(m)
	var got []*traits.Consumable_Stock
	tok := ""
	for page := 0; ; page++ {
		gv.Ensures("the token chain ends", page <= count+1)
		size := sizes[page%len(sizes)]
		res, err := s.ListInventory(context.Background(), &traits.ListInventoryRequest{PageSize: size, PageToken: tok, ReadMask: mask})
		gv.Ensures("every page succeeds", err == nil)
		gv.Ensures("total_size is the number of items", int(res.TotalSize) == count)
		if size == 0 {
			size = 50
		}
		gv.Ensures("a page is no larger than requested", len(res.Inventory) <= int(size) && len(res.Inventory) <= 1000)
		got = append(got, res.Inventory...)
		if tok = res.NextPageToken; tok == "" {
			break
		}
	}
	gv.Ensures("every item is listed once", len(got) == len(all))
	for i := range all {
		if mask == nil {
			gv.Ensures("items come in the listing's order", got[i].Consumable == all[i].Consumable)
		}
		if mask == nil || len(mask.Paths) == 1 && mask.Paths[0] == "dispensing" {
			gv.Ensures("items are the stored items", got[i].Dispensing == all[i].Dispensing)
		}
	}
}

func gvg_WalkInventory(g *gv.Gen) (int, bool, []int32, *fieldmaskpb.FieldMask) {
	var sizes []int32
	for i := 1 + g.R.Intn(3); i > 0; i-- {
		sizes = append(sizes, []int32{0, 1, 2, 3, 5, 7, 9, 50, 1000, 1001}[g.R.Intn(10)])
	}
	var mask *fieldmaskpb.FieldMask
	switch g.R.Intn(4) {
	case 0:
		mask = &fieldmaskpb.FieldMask{Paths: []string{"dispensing"}}
	case 1:
		mask = &fieldmaskpb.FieldMask{Paths: []string{"consumable"}}
	}
	n := g.R.Intn(12)
	if g.R.Intn(3) == 0 {
		n = 40 + g.R.Intn(20)
	}
	return n, false, sizes, mask
}
