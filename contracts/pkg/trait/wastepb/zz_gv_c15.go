package wastepb

import (
	"context"
	"strconv"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// The count records before index start, newest first.
//
//gv:property C15
//gv:for (*Model).ListWasteRecords
func gvc_ListWasteRecords(recs []*traits.WasteRecord, start, count int) {
	gv.Bound("records", len(recs), 6)
	gv.Requires(0 <= start && start <= len(recs) && count > 0)
	m := &Model{allWasteRecords: recs}
	fz := gv.Freeze(recs)
	r := m.ListWasteRecords(start, count)
	if count < start {
		gv.Reach("a full page")
		gv.Ensures("a page is full", len(r) == count)
	} else {
		gv.Reach("the last page")
		gv.Ensures("a short page ends the list", len(r) == start)
	}
	gv.Ensures("records come newest first", gv.Forall(0, len(r), func(i int) bool { return r[i] == recs[start-1-i] }))
	gv.Ensures("the records are left alone", fz.Unchanged())
}

func gvg_ListWasteRecords(g *gv.Gen) ([]*traits.WasteRecord, int, int) {
	var recs []*traits.WasteRecord
	for i := g.R.Intn(9); i > 0; i-- {
		recs = append(recs, &traits.WasteRecord{Id: strconv.Itoa(i)})
	}
	return recs, g.R.Intn(len(recs) + 1), 1 + g.R.Intn(9)
}

func genPages(g *gv.Gen) *Model {
	m := NewModel()
	for i := g.R.Intn(80); i > 0; i-- {
		_, _ = m.AddWasteRecord(&traits.WasteRecord{Id: "x" + strconv.Itoa(i)})
	}
	return m
}

// One page for an arbitrary request.
//
//gv:property C15
//gv:for (*ModelServer).ListWasteRecords
//gv:bounded strconv is a dependency; run on models of 100..180 records, sizes -2..200, tokens of every form
func gvc_ListWastePage(m *Model, size int32, token string) {
	n := m.GetWasteRecordCount()
	all := m.ListWasteRecords(n, n)
	res, err := NewModelServer(m).ListWasteRecords(context.Background(), &traits.ListWasteRecordsRequest{PageSize: size, PageToken: token})
	if size < 0 {
		gv.Ensures("a negative page size is rejected with a status", res == nil && status.Code(err) != codes.OK && status.Code(err) != codes.Unknown)
		return
	}
	if _, e := strconv.Atoi(token); token != "" && e != nil {
		gv.Ensures("a malformed token is rejected with a status", res == nil && status.Code(err) != codes.OK && status.Code(err) != codes.Unknown)
		return
	}
	if err != nil {
		gv.Ensures("only a bad token is rejected", token != "" && status.Code(err) != codes.Unknown)
		return
	}
	gv.Ensures("total_size is the number of items", int(res.TotalSize) == n)
	if size == 0 {
		size = 50
	}
	gv.Ensures("a page is no larger than requested", len(res.WasteRecords) <= int(size))
	if token == "" {
		for i, r := range res.WasteRecords {
			gv.Ensures("the first page starts at the newest record", r.Id == all[i].Id)
		}
		gv.Ensures("the first page is full unless the items run out", len(res.WasteRecords) == int(size) || len(res.WasteRecords) == n)
	}
}

func gvg_ListWastePage(g *gv.Gen) (*Model, int32, string) {
	m := genPages(g)
	tok := ""
	switch g.R.Intn(5) {
	case 0:
		tok = g.Str()
	case 1:
		tok = strconv.Itoa(g.R.Intn(400) - 100)
	case 2:
		tok = []string{"1e3", "-0", "+5", " 5", "0x10", "99999999999999999999", "-9223372036854775808", "MTA="}[g.R.Intn(8)]
	}
	return m, int32(g.R.Intn(203) - 2), tok
}

// Walking the pages.
//
//gv:property C15
//gv:for (*ModelServer).ListWasteRecords
//gv:bounded models of 100..180 records, any page sizes
func gvc_WalkWaste(m *Model, sizes []int32) {
	n := m.GetWasteRecordCount()
	all := m.ListWasteRecords(n, n)
	gv.Requires(len(all) == n)
	s := NewModelServer(m)
	var got []*traits.WasteRecord
	tok := ""
	for page := 0; ; page++ {
		gv.Ensures("the token chain ends", page <= n+1)
		size := sizes[page%len(sizes)]
		res, err := s.ListWasteRecords(context.Background(), &traits.ListWasteRecordsRequest{PageSize: size, PageToken: tok})
		gv.Ensures("every page succeeds", err == nil)
		gv.Ensures("total_size is the number of items", int(res.TotalSize) == n)
		if size == 0 {
			size = 50
		}
		gv.Ensures("a page is no larger than requested", len(res.WasteRecords) <= int(size) && len(res.WasteRecords) <= 1000)
		got = append(got, res.WasteRecords...)
		if tok = res.NextPageToken; tok == "" {
			break
		}
	}
	gv.Ensures("every item is listed once", len(got) == len(all))
	for i := range all {
		gv.Ensures("items come in the listing's order", got[i].Id == all[i].Id)
	}
}

func gvg_WalkWaste(g *gv.Gen) (*Model, []int32) {
	var sizes []int32
	for i := 1 + g.R.Intn(3); i > 0; i-- {
		sizes = append(sizes, []int32{0, 1, 2, 3, 5, 7, 9, 50, 99, 100, 1000, 1001}[g.R.Intn(12)])
	}
	return genPages(g), sizes
}
