T='''package %s

import (
	"context"
	"testing"
%s)

func TestZZDemo(t *testing.T) {
%s}
'''
seed("C15-waste-last-record","C15","pkg/trait/wastepb",
 [("pkg/trait/wastepb/model_server.go","		if npt > 0 {","		if npt > 1 {")],
 T%("wastepb",'\n\t"github.com/smart-core-os/sc-api/go/traits"\n','''	m := NewModel() // 100 records
	s := NewModelServer(m)
	n, tok := 0, ""
	for i := 0; i < 10; i++ {
		res, err := s.ListWasteRecords(context.Background(), &traits.ListWasteRecordsRequest{PageSize: 33, PageToken: tok})
		if err != nil {
			t.Fatal(err)
		}
		n += len(res.WasteRecords)
		if tok = res.NextPageToken; tok == "" {
			break
		}
	}
	if n != 100 {
		t.Fatalf("listed %d of 100 records", n)
	}
'''),"a page that leaves exactly one record for the next one","the oldest record is never listed")
seed("C15-hail-cap","C15","pkg/trait/hailpb",
 [("pkg/trait/hailpb/pages.go","	if pageSize > maxPageSize {\n		return maxPageSize","	if pageSize > maxPageSize {\n		return max(maxPageSize, pageSize/2)")],
 T%("hailpb",'\n\t"github.com/smart-core-os/sc-api/go/traits"\n','''	m := NewModel()
	for i := 0; i < 1100; i++ {
		if _, err := m.CreateHail(&traits.Hail{}); err != nil {
			i-- // the generated id was in use
		}
	}
	res, err := NewModelServer(m).ListHails(context.Background(), &traits.ListHailsRequest{PageSize: 5000})
	if err != nil {
		t.Fatal(err)
	}
	if len(res.Hails) != 1000 {
		t.Fatalf("%d hails on one page", len(res.Hails))
	}
'''),"a page size above 2000 and more than 1000 hails","the page is larger than the cap of 1000")
seed("C15-publication-token-first","C15","pkg/trait/publicationpb",
 [("pkg/trait/publicationpb/model_server.go","			LastResourceName: sortedItems[upperBound-1].Id,","			LastResourceName: sortedItems[max(nextIndex, upperBound-pageSize)+min(pageSize, 8)-1].Id,")],
 T%("publicationpb",'\t"fmt"\n\n\t"github.com/smart-core-os/sc-api/go/traits"\n','''	m := NewModel()
	for i := 0; i < 20; i++ {
		if _, err := m.CreatePublication(&traits.Publication{Id: fmt.Sprintf("p%02d", i)}); err != nil {
			t.Fatal(err)
		}
	}
	s := NewModelServer(m)
	seen := map[string]int{}
	tok := ""
	for i := 0; i < 10; i++ {
		res, err := s.ListPublications(context.Background(), &traits.ListPublicationsRequest{PageSize: 9, PageToken: tok})
		if err != nil {
			t.Fatal(err)
		}
		for _, p := range res.Publications {
			if seen[p.Id]++; seen[p.Id] > 1 {
				t.Fatalf("%s listed twice", p.Id)
			}
		}
		if tok = res.NextPageToken; tok == "" {
			break
		}
	}
'''),"a page size above 8 and more items than that","the item before the page boundary is listed twice")
