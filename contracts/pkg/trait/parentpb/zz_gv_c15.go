package parentpb

import (
	"context"
	"strconv"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

// specCount and specKey are the contents of the collection: its size and its keys in order.
//
//gv:abstract
func specCount(m *Model) int { return len(m.ListChildren()) }

//gv:abstract
func specKey(m *Model, i int) string { return m.ListChildren()[i].Name }

// specTokenOK and specTokenKey: whether a page token decodes, and the key it holds.
//
//gv:abstract
func specTokenOK(tok string) bool { return decodePageToken(tok, &types.PageToken{}) == nil }

//gv:abstract
func specTokenKey(tok string) string {
	t := &types.PageToken{}
	_ = decodePageToken(tok, t)
	return t.GetLastResourceName()
}

// ListChildren lists the contents in strictly ascending key order.
//
//gv:property C15
//gv:for (*Model).ListChildren
//gv:summary
//gv:bounded resource.Collection is generic over opaque messages; run on generated collections of up to 8 items
func gvc_ListChildrenSummary(m *Model) []*traits.Child {
	r := m.ListChildren()
	n := specCount(m)
	gv.Ensures("ListChildren returns every item", len(r) == n)
	gv.Ensures("ListChildren returns the items in key order", gv.Forall(0, n, func(i int) bool { return r[i] != nil && r[i].Name == specKey(m, i) }))
	gv.Ensures("keys are set", gv.Forall(0, n, func(i int) bool { return specKey(m, i) != "" }))
	gv.Ensures("ListChildren is strictly ascending", gv.Forall(0, n-1, func(i int) bool { return specKey(m, i) < specKey(m, i+1) }))
	return r
}

func gvg_ListChildrenSummary(g *gv.Gen) *Model { return genModel(g, 8) }

func genModel(g *gv.Gen, max int) *Model {
	var modes []*traits.Child
	for i := g.R.Intn(max + 1); i > 0; i-- {
		modes = append(modes, &traits.Child{Name: string(rune('a'+g.R.Intn(26))) + g.Str(), Traits: []*traits.Trait{{Name: g.Str()}}})
	}
	m := NewModel()
	for _, x := range modes {
		m.AddChild(x)
	}
	return m
}

// decodePageToken reads the key back, or reports InvalidArgument.
//
//gv:property C15
//gv:for decodePageToken
//gv:summary
//gv:bounded base64 and protobuf encoding are dependencies; run on generated tokens
func gvc_decodePageToken(token string, pt *types.PageToken) error {
	gv.Requires(pt != nil && pt.GetLastResourceName() == "")
	was := pt.PageStart
	err := decodePageToken(token, pt)
	gv.Ensures("malformed tokens are InvalidArgument", err == nil || status.Code(err) == codes.InvalidArgument)
	gv.Ensures("decode reports exactly the malformed", gv.Iff(err == nil, token == "" || specTokenOK(token)))
	if token == "" {
		gv.Ensures("no token leaves the page start", pt.PageStart == was)
	} else {
		gv.Ensures("decode yields the key", err != nil || pt.GetLastResourceName() == specTokenKey(token))
	}
	return err
}

func gvg_decodePageToken(g *gv.Gen) (string, *types.PageToken) {
	return genToken(g), &types.PageToken{}
}

func genToken(g *gv.Gen) string {
	switch g.R.Intn(3) {
	case 0:
		return g.Str()
	case 1:
		return []string{"!!", "YQ==", "Z", "CgE=", "////", "b"}[g.R.Intn(6)]
	}
	t, _ := encodePageToken(&types.PageToken{PageStart: &types.PageToken_LastResourceName{LastResourceName: g.Str()}})
	return t
}

// encodePageToken is inverted by decodePageToken.
//
//gv:property C15
//gv:for encodePageToken
//gv:summary
//gv:bounded base64 and protobuf encoding are dependencies; run on generated tokens
func gvc_encodePageToken(pt *types.PageToken) (string, error) {
	s, err := encodePageToken(pt)
	gv.Ensures("encoding does not fail on UTF-8 keys", err == nil)
	gv.Ensures("no token iff there is no next page", gv.Iff(pt == nil, s == ""))
	gv.Ensures("the encoded token decodes", pt == nil || specTokenOK(s))
	gv.Ensures("the encoded token holds the key", pt == nil || specTokenKey(s) == pt.GetLastResourceName())
	return s, err
}

func gvg_encodePageToken(g *gv.Gen) *types.PageToken {
	if g.R.Intn(5) == 0 {
		return nil
	}
	return &types.PageToken{PageStart: &types.PageToken_LastResourceName{LastResourceName: string(rune('a'+g.R.Intn(26))) + g.Str()}}
}

//gv:property C15
//gv:for capPageSize
func gvc_capPageSize(n int) {
	gv.Requires(n >= 0)
	r := capPageSize(n)
	gv.Ensures("the default page size is 50", n != 0 || r == 50)
	gv.Ensures("page sizes are capped at 1000", n <= 1000 || r == 1000)
	gv.Ensures("other page sizes are kept", n == 0 || n > 1000 || r == n)
}

// One page: the items after the token's key, as many as asked for, and a token for the rest.
// With tokens holding the last key of the page, following them enumerates every item once (induction over pages: each
// page is non-empty until the items run out, and starts at the first key above the previous page's last).
//
//gv:property C15
//gv:for (*ModelServer).ListChildren
//gv:budget 200
func gvc_ListChildren(m *Model, req *traits.ListChildrenRequest) {
	gv.Requires(m != nil && req != nil && req.ReadMask == nil)
	n := specCount(m)
	gv.Bound("items", n, 6)
	res, err := NewModelServer(m).ListChildren(context.Background(), req)
	if req.PageSize < 0 {
		gv.Reach("negative page size")
		gv.Ensures("a negative page size is rejected with a status", res == nil && status.Code(err) != codes.OK && status.Code(err) != codes.Unknown)
		return
	}
	if req.PageToken != "" && !specTokenOK(req.PageToken) {
		gv.Reach("malformed token")
		gv.Ensures("a malformed token is rejected with a status", res == nil && status.Code(err) != codes.OK && status.Code(err) != codes.Unknown)
		return
	}
	gv.Ensures("a valid request succeeds", err == nil && res != nil)
	gv.Ensures("total_size is the number of items", int(res.TotalSize) == n)
	size := int(req.PageSize)
	if size == 0 {
		size = 50
	}
	if size > 1000 {
		size = 1000
	}
	last := ""
	if req.PageToken != "" {
		last = specTokenKey(req.PageToken)
	}
	k := len(res.Children)
	start := 0
	for i := 0; i < n; i++ {
		if specKey(m, i) <= last && last != "" {
			start = i + 1
		}
	}
	gv.Ensures("a page is no larger than requested", k <= size)
	gv.Ensures("a page is full unless the items run out", k == size || start+k == n)
	gv.Ensures("a page stays inside the items", start+k <= n)
	gv.Ensures("a page is the items following the token", gv.Forall(0, k, func(j int) bool { return res.Children[j] != nil && res.Children[j].Name == specKey(m, start+j) }))
	if res.NextPageToken == "" {
		gv.Reach("last page")
		gv.Ensures("the token is dropped only at the end", start+k == n)
	} else {
		gv.Reach("further pages")
		gv.Ensures("a page with a token has items", k > 0)
		gv.Ensures("the token holds the last key of the page", specTokenOK(res.NextPageToken) && specTokenKey(res.NextPageToken) == specKey(m, start+k-1))
	}
}

func gvg_ListChildren(g *gv.Gen) (*Model, *traits.ListChildrenRequest) {
	return genModel(g, 8), &traits.ListChildrenRequest{PageSize: int32(g.R.Intn(8) - 1), PageToken: genToken(g)}
}

// Walking the pages, with any sizes and any read mask.
//
//gv:property C15
//gv:for (*ModelServer).ListChildren
//gv:bounded collections of up to 60 items, page sizes 0..9 or large
func gvc_WalkChildren(count int, keep bool, sizes []int32, mask *fieldmaskpb.FieldMask) {
	opts := []resource.Option{}
	m := NewModel(opts...)
	for i := 0; i < count; i++ {
		mode := &traits.Child{Traits: []*traits.Trait{{Name: strconv.Itoa(i)}}}
		var err error
		mode.Name = strconv.Itoa(i * 7919)
		m.AddChild(mode)
		gv.Requires(err == nil)
	}
	all := m.ListChildren()
	s := NewModelServer(m)
	var got []*traits.Child
	tok := ""
	for page := 0; ; page++ {
		gv.Ensures("the token chain ends", page <= count+1)
		size := sizes[page%len(sizes)]
		res, err := s.ListChildren(context.Background(), &traits.ListChildrenRequest{PageSize: size, PageToken: tok, ReadMask: mask})
		gv.Ensures("every page succeeds", err == nil)
		gv.Ensures("total_size is the number of items", int(res.TotalSize) == count)
		if size == 0 {
			size = 50
		}
		gv.Ensures("a page is no larger than requested", len(res.Children) <= int(size) && len(res.Children) <= 1000)
		got = append(got, res.Children...)
		if tok = res.NextPageToken; tok == "" {
			break
		}
	}
	gv.Ensures("every item is listed once", len(got) == len(all))
	for i := range all {
		if mask == nil {
			gv.Ensures("items come in the listing's order", got[i].Name == all[i].Name)
		}
		if mask == nil || len(mask.Paths) == 1 && mask.Paths[0] == "traits" {
			gv.Ensures("items are the stored items", got[i].Traits[0].Name == all[i].Traits[0].Name)
		}
	}
}

func gvg_WalkChildren(g *gv.Gen) (int, bool, []int32, *fieldmaskpb.FieldMask) {
	var sizes []int32
	for i := 1 + g.R.Intn(3); i > 0; i-- {
		sizes = append(sizes, []int32{0, 1, 2, 3, 5, 7, 9, 50, 1000, 1001}[g.R.Intn(10)])
	}
	var mask *fieldmaskpb.FieldMask
	switch g.R.Intn(4) {
	case 0:
		mask = &fieldmaskpb.FieldMask{Paths: []string{"traits"}}
	case 1:
		mask = &fieldmaskpb.FieldMask{Paths: []string{"name"}}
	}
	n := g.R.Intn(12)
	if g.R.Intn(3) == 0 {
		n = 40 + g.R.Intn(20)
	}
	return n, false, sizes, mask
}
