From fca51f2fe20378afc79562271a98813060c2da1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 01/33] fix: CompareAscending returns -1, 0 or 1 and does not
 overflow

---
 pkg/time/timestamp.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/time/timestamp.go b/pkg/time/timestamp.go
index 8c6715e..6cfbdd0 100644
--- a/pkg/time/timestamp.go
+++ b/pkg/time/timestamp.go
@@ -4,9 +4,16 @@ import "google.golang.org/protobuf/types/known/timestamppb"
 
 // CompareAscending returns -1 if t1 is before t2, 1 if t1 is after t2 and 0 if t1 is equal to t2
 func CompareAscending(t1, t2 *timestamppb.Timestamp) int {
-	seconds := t1.Seconds - t2.Seconds
-	if seconds != 0 {
-		return int(seconds)
+	switch {
+	case t1.Seconds < t2.Seconds:
+		return -1
+	case t1.Seconds > t2.Seconds:
+		return 1
+	case t1.Nanos < t2.Nanos:
+		return -1
+	case t1.Nanos > t2.Nanos:
+		return 1
+	default:
+		return 0
 	}
-	return int(t1.Nanos - t2.Nanos)
 }
-- 
2.43.0


From c241b8204e94430dbe011a28e866009b6359eb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 02/33] fix: PeriodsIntersect is false for empty periods

---
 pkg/time/period.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/time/period.go b/pkg/time/period.go
index d775a21..464e50f 100644
--- a/pkg/time/period.go
+++ b/pkg/time/period.go
@@ -37,7 +37,10 @@ func PeriodsIntersect(p1, p2 *time.Period) bool {
 	p1lower, p1upper := cutPeriod(p1)
 	p2lower, p2upper := cutPeriod(p2)
 
-	return p1lower.CompareTo(p2upper) < 0 &&
+	// an empty period encloses no non-empty period, so it can't intersect anything
+	return p1lower.CompareTo(p1upper) < 0 &&
+		p2lower.CompareTo(p2upper) < 0 &&
+		p1lower.CompareTo(p2upper) < 0 &&
 		p2lower.CompareTo(p1upper) < 0
 }
 
-- 
2.43.0


From d8330a1fa005032ec7155b28e7e702207b7bc341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 03/33] fix: segmentpb.Sum keeps a final infinite segment of
 negative magnitude

---
 pkg/trait/electricpb/segmentpb/sum.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/electricpb/segmentpb/sum.go b/pkg/trait/electricpb/segmentpb/sum.go
index a2d53ea..9d153df 100644
--- a/pkg/trait/electricpb/segmentpb/sum.go
+++ b/pkg/trait/electricpb/segmentpb/sum.go
@@ -39,7 +39,7 @@ func Sum(segmentSlices ...[]*traits.ElectricMode_Segment) []*traits.ElectricMode
 
 	if len(result) > 0 {
 		last := result[len(result)-1]
-		if last.Length == nil && last.Magnitude <= 0 {
+		if last.Length == nil && (last.Magnitude == 0 || !anyInfinite(segmentSlices...)) {
 			result = result[:len(result)-1]
 		}
 	}
@@ -47,6 +47,16 @@ func Sum(segmentSlices ...[]*traits.ElectricMode_Segment) []*traits.ElectricMode
 	return result
 }
 
+// anyInfinite returns whether any of the segment lists ends with an infinite segment.
+func anyInfinite(segmentSlices ...[]*traits.ElectricMode_Segment) bool {
+	for _, slice := range segmentSlices {
+		if _, infinite := Duration(slice...); infinite {
+			return true
+		}
+	}
+	return false
+}
+
 func calcCuts(segmentSlices ...[]*traits.ElectricMode_Segment) []cut {
 	var cuts []cut
 	for _, slice := range segmentSlices {
-- 
2.43.0


From 0e8c11b7dd8a6a4a2eb4709ea79c8d910c80e6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 04/33] fix: modepb.Sum handles start times equal to the zero
 time

---
 pkg/trait/electricpb/modepb/sum.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/trait/electricpb/modepb/sum.go b/pkg/trait/electricpb/modepb/sum.go
index d1c1efd..7ae4f95 100644
--- a/pkg/trait/electricpb/modepb/sum.go
+++ b/pkg/trait/electricpb/modepb/sum.go
@@ -30,14 +30,14 @@ func Sum(modes ...*traits.ElectricMode) *traits.ElectricMode {
 	for i, mode := range modes {
 		segmentSlices[i] = mode.Segments
 		if mode.StartTime != nil {
-			stCount++
 			st := mode.StartTime.AsTime()
-			if earliest.IsZero() || st.Before(earliest) {
+			if stCount == 0 || st.Before(earliest) {
 				earliest = st
 			}
-			if latest.IsZero() || st.After(latest) {
+			if stCount == 0 || st.After(latest) {
 				latest = st
 			}
+			stCount++
 		}
 	}
 
-- 
2.43.0


From 42685b5f97c16317aede8a1b9bba8f0b677d6320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 05/33] fix: paged lists reject negative page sizes and bad
 tokens, and page by key whatever the read mask

---
 pkg/trait/electricpb/model_server.go    | 12 +++++++++++-
 pkg/trait/hailpb/model_server.go        | 12 +++++++++++-
 pkg/trait/parentpb/model_server.go      |  6 ++++++
 pkg/trait/publicationpb/model_server.go | 12 +++++++++++-
 pkg/trait/vendingpb/model_server.go     | 23 +++++++++++++++++++++--
 pkg/trait/wastepb/model_server.go       | 13 +++++++++----
 6 files changed, 69 insertions(+), 9 deletions(-)

diff --git a/pkg/trait/electricpb/model_server.go b/pkg/trait/electricpb/model_server.go
index 924df5e..1aba1c7 100644
--- a/pkg/trait/electricpb/model_server.go
+++ b/pkg/trait/electricpb/model_server.go
@@ -12,6 +12,7 @@ import (
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
 
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
 
@@ -98,6 +99,9 @@ func (s *ModelServer) PullActiveMode(request *traits.PullActiveModeRequest, serv
 }
 
 func (s *ModelServer) ListModes(_ context.Context, request *traits.ListModesRequest) (*traits.ListModesResponse, error) {
+	if request.GetPageSize() < 0 {
+		return nil, status.Error(codes.InvalidArgument, "negative page size")
+	}
 	pageToken := &types.PageToken{}
 	if err := decodePageToken(request.PageToken, pageToken); err != nil {
 		return nil, err
@@ -106,7 +110,7 @@ func (s *ModelServer) ListModes(_ context.Context, request *traits.ListModesRequ
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
 	pageSize := capPageSize(int(request.GetPageSize()))
 
-	sortedModes := s.model.Modes(resource.WithReadMask(request.ReadMask))
+	sortedModes := s.model.Modes() // the read mask is applied to the page, the keys are needed for paging
 	nextIndex := 0
 	if lastKey != "" {
 		nextIndex = sort.Search(len(sortedModes), func(i int) bool {
@@ -133,6 +137,12 @@ func (s *ModelServer) ListModes(_ context.Context, request *traits.ListModesRequ
 		return nil, err
 	}
 	result.Modes = sortedModes[nextIndex:upperBound]
+
+	// apply read mask
+	mask := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for i, item := range result.Modes {
+		result.Modes[i] = mask.FilterClone(item).(*traits.ElectricMode)
+	}
 	return result, nil
 }
 
diff --git a/pkg/trait/hailpb/model_server.go b/pkg/trait/hailpb/model_server.go
index 663e16f..10a57c9 100644
--- a/pkg/trait/hailpb/model_server.go
+++ b/pkg/trait/hailpb/model_server.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
 
@@ -70,6 +71,9 @@ func (m *ModelServer) PullHail(request *traits.PullHailRequest, server traits.Ha
 }
 
 func (m *ModelServer) ListHails(_ context.Context, request *traits.ListHailsRequest) (*traits.ListHailsResponse, error) {
+	if request.GetPageSize() < 0 {
+		return nil, status.Error(codes.InvalidArgument, "negative page size")
+	}
 	pageToken := &types.PageToken{}
 	if err := decodePageToken(request.PageToken, pageToken); err != nil {
 		return nil, err
@@ -78,7 +82,7 @@ func (m *ModelServer) ListHails(_ context.Context, request *traits.ListHailsRequ
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
 	pageSize := capPageSize(int(request.GetPageSize()))
 
-	sortedItems := m.model.ListHails(resource.WithReadMask(request.ReadMask))
+	sortedItems := m.model.ListHails() // the read mask is applied to the page, the keys are needed for paging
 	nextIndex := 0
 	if lastKey != "" {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
@@ -105,6 +109,12 @@ func (m *ModelServer) ListHails(_ context.Context, request *traits.ListHailsRequ
 		return nil, err
 	}
 	result.Hails = sortedItems[nextIndex:upperBound]
+
+	// apply read mask
+	mask := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for i, item := range result.Hails {
+		result.Hails[i] = mask.FilterClone(item).(*traits.Hail)
+	}
 	return result, nil
 }
 
diff --git a/pkg/trait/parentpb/model_server.go b/pkg/trait/parentpb/model_server.go
index f03d886..01ed61c 100644
--- a/pkg/trait/parentpb/model_server.go
+++ b/pkg/trait/parentpb/model_server.go
@@ -4,6 +4,9 @@ import (
 	"context"
 	"sort"
 
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
+
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
 	"github.com/smart-core-os/sc-golang/pkg/masks"
@@ -25,6 +28,9 @@ func (s *ModelServer) Unwrap() any {
 }
 
 func (s *ModelServer) ListChildren(_ context.Context, request *traits.ListChildrenRequest) (*traits.ListChildrenResponse, error) {
+	if request.GetPageSize() < 0 {
+		return nil, status.Error(codes.InvalidArgument, "negative page size")
+	}
 	pageToken := &types.PageToken{}
 	if err := decodePageToken(request.PageToken, pageToken); err != nil {
 		return nil, err
diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index 09e24e1..b2f53e4 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -12,6 +12,7 @@ import (
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
 
@@ -99,6 +100,9 @@ func (m *ModelServer) PullPublication(request *traits.PullPublicationRequest, se
 }
 
 func (m *ModelServer) ListPublications(_ context.Context, request *traits.ListPublicationsRequest) (*traits.ListPublicationsResponse, error) {
+	if request.GetPageSize() < 0 {
+		return nil, status.Error(codes.InvalidArgument, "negative page size")
+	}
 	pageToken := &types.PageToken{}
 	if err := decodePageToken(request.PageToken, pageToken); err != nil {
 		return nil, err
@@ -107,7 +111,7 @@ func (m *ModelServer) ListPublications(_ context.Context, request *traits.ListPu
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
 	pageSize := capPageSize(int(request.GetPageSize()))
 
-	sortedItems := m.model.ListPublications(resource.WithReadMask(request.ReadMask))
+	sortedItems := m.model.ListPublications() // the read mask is applied to the page, the keys are needed for paging
 	nextIndex := 0
 	if lastKey != "" {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
@@ -134,6 +138,12 @@ func (m *ModelServer) ListPublications(_ context.Context, request *traits.ListPu
 		return nil, err
 	}
 	result.Publications = sortedItems[nextIndex:upperBound]
+
+	// apply read mask
+	mask := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for i, item := range result.Publications {
+		result.Publications[i] = mask.FilterClone(item).(*traits.Publication)
+	}
 	return result, nil
 }
 
diff --git a/pkg/trait/vendingpb/model_server.go b/pkg/trait/vendingpb/model_server.go
index 4e5fb8f..d8e4760 100644
--- a/pkg/trait/vendingpb/model_server.go
+++ b/pkg/trait/vendingpb/model_server.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
 
@@ -33,6 +34,9 @@ func (m *ModelServer) Register(server grpc.ServiceRegistrar) {
 }
 
 func (m *ModelServer) ListConsumables(_ context.Context, request *traits.ListConsumablesRequest) (*traits.ListConsumablesResponse, error) {
+	if request.GetPageSize() < 0 {
+		return nil, status.Error(codes.InvalidArgument, "negative page size")
+	}
 	pageToken := &types.PageToken{}
 	if err := decodePageToken(request.PageToken, pageToken); err != nil {
 		return nil, err
@@ -41,7 +45,7 @@ func (m *ModelServer) ListConsumables(_ context.Context, request *traits.ListCon
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
 	pageSize := capPageSize(int(request.GetPageSize()))
 
-	sortedItems := m.model.ListConsumables(resource.WithReadMask(request.ReadMask))
+	sortedItems := m.model.ListConsumables() // the read mask is applied to the page, the keys are needed for paging
 	nextIndex := 0
 	if lastKey != "" {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
@@ -68,6 +72,12 @@ func (m *ModelServer) ListConsumables(_ context.Context, request *traits.ListCon
 		return nil, err
 	}
 	result.Consumables = sortedItems[nextIndex:upperBound]
+
+	// apply read mask
+	mask := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for i, item := range result.Consumables {
+		result.Consumables[i] = mask.FilterClone(item).(*traits.Consumable)
+	}
 	return result, nil
 }
 
@@ -111,6 +121,9 @@ func (m *ModelServer) PullStock(request *traits.PullStockRequest, server traits.
 }
 
 func (m *ModelServer) ListInventory(_ context.Context, request *traits.ListInventoryRequest) (*traits.ListInventoryResponse, error) {
+	if request.GetPageSize() < 0 {
+		return nil, status.Error(codes.InvalidArgument, "negative page size")
+	}
 	pageToken := &types.PageToken{}
 	if err := decodePageToken(request.PageToken, pageToken); err != nil {
 		return nil, err
@@ -119,7 +132,7 @@ func (m *ModelServer) ListInventory(_ context.Context, request *traits.ListInven
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
 	pageSize := capPageSize(int(request.GetPageSize()))
 
-	sortedItems := m.model.ListInventory(resource.WithReadMask(request.ReadMask))
+	sortedItems := m.model.ListInventory() // the read mask is applied to the page, the keys are needed for paging
 	nextIndex := 0
 	if lastKey != "" {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
@@ -146,6 +159,12 @@ func (m *ModelServer) ListInventory(_ context.Context, request *traits.ListInven
 		return nil, err
 	}
 	result.Inventory = sortedItems[nextIndex:upperBound]
+
+	// apply read mask
+	mask := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for i, item := range result.Inventory {
+		result.Inventory[i] = mask.FilterClone(item).(*traits.Consumable_Stock)
+	}
 	return result, nil
 }
 
diff --git a/pkg/trait/wastepb/model_server.go b/pkg/trait/wastepb/model_server.go
index d94fa22..ca0d026 100644
--- a/pkg/trait/wastepb/model_server.go
+++ b/pkg/trait/wastepb/model_server.go
@@ -5,6 +5,8 @@ import (
 	"strconv"
 
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 
 	"github.com/smart-core-os/sc-api/go/traits"
 )
@@ -30,14 +32,17 @@ func (m *ModelServer) ListWasteRecords(ctx context.Context, req *traits.ListWast
 	// page token is just the index of where we left off (if any)
 	// this works with the current basic implementation because we only support a list of all events without filtering/sorting
 	// and the events are stored in ascending chronological order. If this either of these things change, this will need to be rethought
+	if req.GetPageSize() < 0 {
+		return nil, status.Error(codes.InvalidArgument, "negative page size")
+	}
 	pageToken := req.GetPageToken()
 	startIndex := m.model.GetWasteRecordCount()
 	if pageToken != "" {
-		_, err := strconv.Atoi(req.GetPageToken())
-		if err != nil {
-			return nil, err
+		index, err := strconv.Atoi(pageToken)
+		if err != nil || index < 0 || index > startIndex {
+			return nil, status.Errorf(codes.InvalidArgument, "bad page token: %q", pageToken)
 		}
-		startIndex, _ = strconv.Atoi(pageToken)
+		startIndex = index
 	}
 
 	count := req.PageSize
-- 
2.43.0


From 8291991903214aeffc89bcfcbf67f0e8e9a19d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:22 +0000
Subject: [PATCH 06/33] fix: group execution with no members doesn't panic,
 members don't block once the outcome is decided

---
 pkg/group/exec.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pkg/group/exec.go b/pkg/group/exec.go
index 5fc4ad4..391d4a8 100644
--- a/pkg/group/exec.go
+++ b/pkg/group/exec.go
@@ -39,20 +39,23 @@ func Execute(ctx context.Context, strategy ExecutionStrategy, members []Member)
 		return ExecuteAny(ctx, members)
 	case ExecutionStrategyOne:
 		res, i, err := ExecuteOne(ctx, members)
-		allRes := make([]proto.Message, len(members))
-		allRes[i] = res
-		return allRes, err
+		return singleResult(len(members), i, res), err
 	case ExecutionStrategyFast:
 		res, i, err := ExecuteFast(ctx, members)
-		allRes := make([]proto.Message, len(members))
-		allRes[i] = res
-		return allRes, err
+		return singleResult(len(members), i, res), err
 	case ExecutionStrategyRace:
 		res, i, err := ExecuteRace(ctx, members)
-		allRes := make([]proto.Message, len(members))
+		return singleResult(len(members), i, res), err
+	}
+}
+
+// singleResult returns a slice of n results containing only res, at index i.
+func singleResult(n, i int, res proto.Message) []proto.Message {
+	allRes := make([]proto.Message, n)
+	if i < n { // there's no result when there are no members
 		allRes[i] = res
-		return allRes, err
 	}
+	return allRes
 }
 
 // ExecuteAll executes all the member functions in parallel,
@@ -169,7 +172,8 @@ func ExecuteRace(ctx context.Context, members []Member) (proto.Message, int, err
 // The returned chan will contain the responses in completion order.
 // The chan will be closed once all members have returned a result.
 func executeEach(ctx context.Context, members []Member) <-chan memberResponse {
-	responses := make(chan memberResponse)
+	// buffered so that members can complete even if the caller stops collecting responses early
+	responses := make(chan memberResponse, len(members))
 	var all sync.WaitGroup
 	all.Add(len(members))
 
-- 
2.43.0


From 081a3784d31cc18d1e55de290a60e5cc790eabed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:11 +0000
Subject: [PATCH 07/33] fix: deliver updates between included items, not those
 between excluded items, and don't ask about absent values

---
 pkg/resource/change.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/resource/change.go b/pkg/resource/change.go
index b52cf69..55572e5 100644
--- a/pkg/resource/change.go
+++ b/pkg/resource/change.go
@@ -84,11 +84,12 @@ func (c *CollectionChange) include(includeFunc FilterFunc) (newChange *Collectio
 		return c, true
 	}
 
-	oldInclude := includeFunc(c.Id, c.OldValue)
-	newInclude := includeFunc(c.Id, c.NewValue)
+	// absent values are never included
+	oldInclude := c.OldValue != nil && includeFunc(c.Id, c.OldValue)
+	newInclude := c.NewValue != nil && includeFunc(c.Id, c.NewValue)
 	if oldInclude == newInclude {
 		// the only time we want to skip sending the update is if both the old and new values are excluded
-		return c, !newInclude
+		return c, newInclude
 	}
 
 	if newInclude {
-- 
2.43.0


From bd36db7caae57c4110abde384802e336fd518839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:48 +0000
Subject: [PATCH 08/33] fix: collection writes notice items created or removed
 while they were being computed, generated ids pass through the id interceptor

---
 pkg/resource/atomic.go     |  5 ++++-
 pkg/resource/collection.go | 26 ++++++++++++++++++++++----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/pkg/resource/atomic.go b/pkg/resource/atomic.go
index 2753f30..a2bae64 100644
--- a/pkg/resource/atomic.go
+++ b/pkg/resource/atomic.go
@@ -45,7 +45,10 @@ func GetAndUpdate(mu *sync.RWMutex, get GetFn, change ChangeFn, save SaveFn) (ol
 
 	mu.Lock()
 	defer mu.Unlock()
-	oldValueAgain, _ := get()
+	oldValueAgain, err := get()
+	if err != nil {
+		return oldValue, newValue, err
+	}
 	if !proto.Equal(oldValue, oldValueAgain) {
 		return oldValue, newValue, status.Errorf(codes.Aborted, "concurrent update detected")
 	}
diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 82fba45..b5e6aee 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -19,8 +19,9 @@ import (
 type Collection struct {
 	*config
 
-	mu   sync.RWMutex // protects byId and rng from concurrent access
-	byId map[string]*item
+	mu    sync.RWMutex // protects byId from concurrent access
+	rngMu sync.Mutex   // protects rng from concurrent access, ids are generated while only holding mu.RLock
+	byId  map[string]*item
 	// "change" events contain a *CollectionChange instance
 	bus minibus.Bus
 }
@@ -104,13 +105,25 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		return nil, err
 	}
 
+	read := false             // true once GetFn has been called, the next call checks that nothing has changed since
 	var created proto.Message // during create, this is returned by GetFn so concurrent reference checks pass
 	oldValue, newValue, err := GetAndUpdate(
 		&c.mu,
 		func() (item proto.Message, err error) {
-			if created != nil {
-				return created, nil
+			if read {
+				val, exists := c.byId[id]
+				switch {
+				case exists && writeRequest.expectAbsent:
+					return nil, ExpectAbsentPreconditionFailed
+				case exists == (created != nil):
+					return nil, status.Errorf(codes.Aborted, "concurrent update detected")
+				case exists:
+					return val.body, nil
+				default:
+					return created, nil
+				}
 			}
+			read = true
 
 			// handle empty ids, generating them, and invoking callbacks
 			if id == "" && writeRequest.genEmptyID {
@@ -121,6 +134,9 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 				if writeRequest.idCallback != nil {
 					writeRequest.idCallback(id)
 				}
+				if c.idInterceptor != nil {
+					id = c.idInterceptor(id)
+				}
 			}
 
 			val, exists := c.byId[id]
@@ -343,6 +359,8 @@ func (c *Collection) itemSlice(readConfig *ReadRequest) []idItem {
 }
 
 func (c *Collection) genID() (string, error) {
+	c.rngMu.Lock()
+	defer c.rngMu.Unlock()
 	return GenerateUniqueId(c.rng, func(candidate string) bool {
 		if c.idInterceptor != nil {
 			candidate = c.idInterceptor(candidate)
-- 
2.43.0


From cf029a30acf5206e857d879a2694a2c7ab13fbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:50 +0000
Subject: [PATCH 09/33] fix: publish changes in commit order, exactly once to
 each subscriber, with the stored change time

---
 internal/minibus/bus.go    | 85 ++++++++++++++++++++++++++++++++------
 pkg/resource/collection.go | 24 +++++++----
 pkg/resource/value.go      | 17 +++++---
 3 files changed, 100 insertions(+), 26 deletions(-)

diff --git a/internal/minibus/bus.go b/internal/minibus/bus.go
index d90ab28..91de516 100644
--- a/internal/minibus/bus.go
+++ b/internal/minibus/bus.go
@@ -8,36 +8,97 @@ import (
 type Bus struct {
 	listenerM sync.RWMutex
 	listeners []*listener
+	lastSent  chan struct{} // closed once the delivery prepared last has been sent
 }
 
+// Send delivers event to all current listeners.
+// Returns false if ctx was done before all of them received the event.
 func (b *Bus) Send(ctx context.Context, event any) (ok bool) {
 	// create a copy of the listeners so avoid holding the mutex a long time
-	var listeners []*listener
 	b.listenerM.RLock()
-	for _, l := range b.listeners {
-		listeners = append(listeners, l)
-	}
+	listeners := append([]*listener(nil), b.listeners...)
 	b.listenerM.RUnlock()
 
-	needGc := false
+	return b.send(ctx, listeners, event)
+}
 
-	// send the event to each listener that's not closed
-	for _, l := range listeners {
-		ok, active := l.send(ctx, event)
-		if !ok {
+// Prepare reserves the next place in the order of events, for an event that is sent to the current listeners only.
+// Deliveries are sent in the order they are prepared in, Delivery.Send must be called for each of them.
+func (b *Bus) Prepare() *Delivery {
+	b.listenerM.Lock()
+	defer b.listenerM.Unlock()
+	d := &Delivery{
+		bus:       b,
+		listeners: append([]*listener(nil), b.listeners...),
+		prev:      b.lastSent,
+		sent:      make(chan struct{}),
+	}
+	b.lastSent = d.sent
+	return d
+}
+
+// Delivery is an event that is about to be sent.
+type Delivery struct {
+	bus       *Bus
+	listeners []*listener
+	prev      <-chan struct{} // closed once it is our turn, nil if there's nothing to wait for
+	sent      chan struct{}
+}
+
+// Send waits for all deliveries that were prepared before d, then delivers event to the listeners of d.
+// Returns false if ctx was done before all of them received the event.
+func (d *Delivery) Send(ctx context.Context, event any) (ok bool) {
+	if d.prev != nil {
+		select {
+		case <-d.prev:
+		case <-ctx.Done():
+			// we can't deliver our event, but later ones still have to wait for earlier ones
+			go func() {
+				<-d.prev
+				close(d.sent)
+			}()
 			return false
 		}
-		if !active {
+	}
+	defer close(d.sent)
+	return d.bus.send(ctx, d.listeners, event)
+}
+
+// send the event to each listener that's not closed.
+// A listener that is slow to receive doesn't keep the event from the others.
+func (b *Bus) send(ctx context.Context, listeners []*listener, event any) (ok bool) {
+	oks := make([]bool, len(listeners))
+	actives := make([]bool, len(listeners))
+	var others sync.WaitGroup
+	for i, l := range listeners {
+		if i == len(listeners)-1 {
+			oks[i], actives[i] = l.send(ctx, event)
+			break
+		}
+		others.Add(1)
+		go func() {
+			defer others.Done()
+			oks[i], actives[i] = l.send(ctx, event)
+		}()
+	}
+	others.Wait()
+
+	ok = true
+	needGc := false
+	for i := range listeners {
+		if !oks[i] {
+			ok = false
+		}
+		if !actives[i] {
 			// the listen context on this listener has been cancelled, we need to collect the garbage
 			needGc = true
 		}
 	}
-
 	if needGc {
 		b.collect()
 	}
 
-	return true
+	return ok
 }
 
 func (b *Bus) collect() {
diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index b5e6aee..c0363d9 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -107,6 +107,8 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 
 	read := false             // true once GetFn has been called, the next call checks that nothing has changed since
 	var created proto.Message // during create, this is returned by GetFn so concurrent reference checks pass
+	var delivery *minibus.Delivery
+	var changeTime time.Time
 	oldValue, newValue, err := GetAndUpdate(
 		&c.mu,
 		func() (item proto.Message, err error) {
@@ -157,7 +159,10 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		},
 		writeRequest.changeFn(writer, msg),
 		func(msg proto.Message) {
-			c.byId[id] = &item{body: msg, changeTime: writeRequest.updateTime(c.clock)}
+			changeTime = writeRequest.updateTime(c.clock)
+			c.byId[id] = &item{body: msg, changeTime: changeTime}
+			// events are sent in the order the changes are saved, to those that don't have the change as a seed value
+			delivery = c.bus.Prepare()
 		})
 
 	if err != nil {
@@ -171,9 +176,9 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		changeType = types.ChangeType_ADD
 		oldValue = nil
 	}
-	c.bus.Send(context.TODO(), &CollectionChange{
+	delivery.Send(context.TODO(), &CollectionChange{
 		Id:         id,
-		ChangeTime: writeRequest.updateTime(c.clock),
+		ChangeTime: changeTime,
 		ChangeType: changeType,
 		OldValue:   oldValue,
 		NewValue:   newValue,
@@ -223,13 +228,16 @@ func (c *Collection) Delete(id string, opts ...WriteOption) (proto.Message, erro
 
 		// actually do the delete
 		delete(c.byId, id)
-		c.bus.Send(context.TODO(), &CollectionChange{
+		changeTime := args.updateTime(c.clock)
+		delivery := c.bus.Prepare()
+		c.mu.Unlock()
+
+		delivery.Send(context.TODO(), &CollectionChange{
 			Id:         id,
-			ChangeTime: c.clock.Now(),
+			ChangeTime: changeTime,
 			ChangeType: types.ChangeType_REMOVE,
 			OldValue:   oldVal.body,
 		})
-		c.mu.Unlock()
 		return oldVal.body, nil
 	}
 
@@ -327,9 +335,9 @@ func (c *Collection) PullID(ctx context.Context, id string, opts ...ReadOption)
 
 func (c *Collection) onUpdate(ctx context.Context, config *ReadRequest) (<-chan any, []idItem) {
 	var res []idItem
+	c.mu.RLock()
+	defer c.mu.RUnlock()
 	if !config.UpdatesOnly {
-		c.mu.RLock()
-		defer c.mu.RUnlock()
 		res = c.itemSlice(config)
 	}
 
diff --git a/pkg/resource/value.go b/pkg/resource/value.go
index 1a81a43..5d3c6a4 100644
--- a/pkg/resource/value.go
+++ b/pkg/resource/value.go
@@ -58,6 +58,8 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 		return nil, err
 	}
 
+	var delivery *minibus.Delivery
+	var changeTime time.Time
 	disarm := timeoutAlarm(time.Second, "GetAndUpdate took too long")
 	_, newValue, err := GetAndUpdate(
 		&r.mu,
@@ -66,8 +68,11 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 		},
 		request.changeFn(writer, value),
 		func(message proto.Message) {
+			changeTime = request.updateTime(r.clock)
 			r.value = message
-			r.changeTime = request.updateTime(r.clock)
+			r.changeTime = changeTime
+			// events are sent in the order the changes are saved, to those that don't have the change as a seed value
+			delivery = r.bus.Prepare()
 		},
 	)
 	disarm()
@@ -78,11 +83,11 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 
 	ctx, cancel := context.WithTimeout(context.TODO(), time.Second*5)
 	defer cancel()
-	r.bus.Send(ctx, &ValueChange{
+	ok := delivery.Send(ctx, &ValueChange{
 		Value:      newValue,
-		ChangeTime: request.updateTime(r.clock),
+		ChangeTime: changeTime,
 	})
-	if errors.Is(ctx.Err(), context.DeadlineExceeded) {
+	if !ok {
 		return nil, errors.New("bus.Send blocked for too long")
 	}
 
@@ -133,9 +138,9 @@ func (r *Value) onUpdate(ctx context.Context, config *ReadRequest) (<-chan any,
 		value      proto.Message
 		changeTime time.Time
 	)
+	r.mu.RLock()
+	defer r.mu.RUnlock()
 	if !config.UpdatesOnly {
-		r.mu.RLock()
-		defer r.mu.RUnlock()
 		value = r.value
 		changeTime = r.changeTime
 	}
-- 
2.43.0


From 7e409ef27df14b19ef6846e564f93c1c73b87a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:25 +0000
Subject: [PATCH 10/33] fix: PullID subscribes before returning, ends its
 collection subscription with its own, and flags its seed value as the last

---
 pkg/resource/collection.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index c0363d9..d1d4824 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -305,10 +305,14 @@ func (c *Collection) PullID(ctx context.Context, id string, opts ...ReadOption)
 		id = c.idInterceptor(id)
 	}
 
+	// stop the collection subscription when we return, which might be before ctx is done
+	ctx, cancel := context.WithCancel(ctx)
+	changes := c.Pull(ctx, opts...)
 	send := make(chan *ValueChange)
 	go func() {
 		defer close(send)
-		for change := range c.Pull(ctx, opts...) {
+		defer cancel()
+		for change := range changes {
 			if change.Id != id {
 				continue
 			}
@@ -326,7 +330,7 @@ func (c *Collection) PullID(ctx context.Context, id string, opts ...ReadOption)
 			select {
 			case <-ctx.Done():
 				return
-			case send <- &ValueChange{ChangeTime: change.ChangeTime, Value: change.NewValue, SeedValue: change.SeedValue, LastSeedValue: change.LastSeedValue}:
+			case send <- &ValueChange{ChangeTime: change.ChangeTime, Value: change.NewValue, SeedValue: change.SeedValue, LastSeedValue: change.SeedValue}:
 			}
 		}
 	}()
-- 
2.43.0


From 7a4c9b09b6fe7f224c2be97e13e31d76b162d4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:18 +0000
Subject: [PATCH 11/33] fix: compare changes for equivalence with the value the
 subscriber has

---
 pkg/resource/change.go     | 10 ++++++++++
 pkg/resource/collection.go | 19 +++++++++++++++++--
 pkg/resource/value.go      |  3 ++-
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/pkg/resource/change.go b/pkg/resource/change.go
index 55572e5..9d3ab5f 100644
--- a/pkg/resource/change.go
+++ b/pkg/resource/change.go
@@ -75,6 +75,16 @@ func (c *CollectionChange) filter(filter *masks.ResponseFilter) *CollectionChang
 	}
 }
 
+// since adjusts this change to be relative to old, which may be nil to leave the change as it is.
+func (c *CollectionChange) since(old proto.Message) *CollectionChange {
+	if old == nil || old == c.OldValue {
+		return c
+	}
+	change := *c
+	change.OldValue = old
+	return &change
+}
+
 // include adjusts this change based on any filtering that is active on the collection.
 // If items are being filtered, then an UPDATE that causes an items inclusion to change will report an ADD or REMOVE
 // as needed. A new CollectionChange is returned if the underlying change type isn't accurate anymore.
diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index d1d4824..df33cfa 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -254,6 +254,9 @@ func (c *Collection) Pull(ctx context.Context, opts ...ReadOption) <-chan *Colle
 	go func() {
 		defer close(send)
 
+		// the values the subscriber has, used only to find equivalent changes
+		held := make(map[string]proto.Message)
+
 		if len(currentValues) > 0 {
 			sort.Slice(currentValues, func(i, j int) bool {
 				return currentValues[i].id < currentValues[j].id
@@ -269,6 +272,9 @@ func (c *Collection) Pull(ctx context.Context, opts ...ReadOption) <-chan *Colle
 					LastSeedValue: i == lastIndex,
 				}
 				change = change.filter(filter)
+				if c.equivalence != nil {
+					held[change.Id] = change.NewValue
+				}
 				select {
 				case <-ctx.Done():
 					return
@@ -284,8 +290,17 @@ func (c *Collection) Pull(ctx context.Context, opts ...ReadOption) <-chan *Colle
 				continue
 			}
 			change = change.filter(filter)
-			if c.equivalence != nil && c.equivalence.Compare(change.OldValue, change.NewValue) {
-				continue
+			if c.equivalence != nil {
+				change = change.since(held[change.Id])
+				if c.equivalence.Compare(change.OldValue, change.NewValue) {
+					held[change.Id] = change.OldValue
+					continue
+				}
+				if change.NewValue == nil {
+					delete(held, change.Id)
+				} else {
+					held[change.Id] = change.NewValue
+				}
 			}
 			select {
 			case send <- change:
diff --git a/pkg/resource/value.go b/pkg/resource/value.go
index 5d3c6a4..7d23ee8 100644
--- a/pkg/resource/value.go
+++ b/pkg/resource/value.go
@@ -109,6 +109,7 @@ func (r *Value) Pull(ctx context.Context, opts ...ReadOption) <-chan *ValueChang
 		if currentValue != nil {
 			change := &ValueChange{Value: currentValue, ChangeTime: changeTime, SeedValue: true, LastSeedValue: true}
 			change = change.filter(filter)
+			currentValue = change.Value
 			select {
 			case <-ctx.Done():
 				return // give up sending
@@ -116,7 +117,7 @@ func (r *Value) Pull(ctx context.Context, opts ...ReadOption) <-chan *ValueChang
 			}
 		}
 
-		last := currentValue
+		last := currentValue // the last value we sent
 		for event := range on {
 			change := event.(*ValueChange).filter(filter)
 			if r.equivalence != nil && r.equivalence.Compare(last, change.Value) {
-- 
2.43.0


From 26d4e0c58498ff1a0b8dbf512acba6a3739ee622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:49 +0000
Subject: [PATCH 12/33] fix: comparers ignore change_time presence, and
 tolerances are reflexive, symmetric and don't overflow

---
 pkg/cmp/cmp.go    | 15 ++++++++++++---
 pkg/cmp/number.go |  8 +++++++-
 pkg/cmp/time.go   | 44 ++++++++++++++++++++++++++++----------------
 3 files changed, 47 insertions(+), 20 deletions(-)

diff --git a/pkg/cmp/cmp.go b/pkg/cmp/cmp.go
index 5d37979..0573554 100644
--- a/pkg/cmp/cmp.go
+++ b/pkg/cmp/cmp.go
@@ -45,6 +45,9 @@ func (eq equator) equalMessage(mx, my pref.Message) bool {
 	nx := 0
 	equal := true
 	mx.Range(func(fd pref.FieldDescriptor, vx pref.Value) bool {
+		if ignoreField(fd) {
+			return true
+		}
 		nx++
 		vy := my.Get(fd)
 		equal = my.Has(fd) && eq.equalField(fd, vx, vy)
@@ -55,6 +58,9 @@ func (eq equator) equalMessage(mx, my pref.Message) bool {
 	}
 	ny := 0
 	my.Range(func(fd pref.FieldDescriptor, vx pref.Value) bool {
+		if ignoreField(fd) {
+			return true
+		}
 		ny++
 		return true
 	})
@@ -65,12 +71,15 @@ func (eq equator) equalMessage(mx, my pref.Message) bool {
 	return eq.equalUnknown(mx.GetUnknown(), my.GetUnknown())
 }
 
+// ignoreField returns whether the presence and value of fd do not affect message equality.
+// PullResponse.Change.change_time is ignored.
+func ignoreField(fd pref.FieldDescriptor) bool {
+	return fd.Name() == "change_time" && fd.ContainingMessage().Name() == "Change"
+}
+
 // equalField compares two fields.
 func (eq equator) equalField(fd pref.FieldDescriptor, x, y pref.Value) bool {
 	switch {
-	// This is the case we've added, ignore PullResponse.Change.change_time
-	case fd.Name() == "change_time" && fd.ContainingMessage().Name() == "Change":
-		return true
 	case fd.IsList():
 		return eq.equalList(fd, x.List(), y.List())
 	case fd.IsMap():
diff --git a/pkg/cmp/number.go b/pkg/cmp/number.go
index b874ff2..335e2a2 100644
--- a/pkg/cmp/number.go
+++ b/pkg/cmp/number.go
@@ -7,13 +7,19 @@ import (
 )
 
 // FloatValueApprox compares floating point values as equal if they are within
-// fraction or margin of each other.
+// fraction or margin of each other. NaNs are equal, infinities are equal only to themselves.
 func FloatValueApprox(fraction, margin float64) Value {
 	return func(fd pref.FieldDescriptor, x, y pref.Value) (equal bool, ok bool) {
 		if fd.Kind() != pref.FloatKind && fd.Kind() != pref.DoubleKind {
 			return false, false
 		}
 		fx, fy := x.Float(), y.Float()
+		if fx == fy || math.IsNaN(fx) && math.IsNaN(fy) {
+			return true, true
+		}
+		if math.IsInf(fx, 0) || math.IsInf(fy, 0) {
+			return false, true
+		}
 		relMarg := fraction * math.Min(math.Abs(fx), math.Abs(fy))
 		return math.Abs(fx-fy) <= math.Max(margin, relMarg), true
 	}
diff --git a/pkg/cmp/time.go b/pkg/cmp/time.go
index f7b980a..6301de3 100644
--- a/pkg/cmp/time.go
+++ b/pkg/cmp/time.go
@@ -1,6 +1,7 @@
 package cmp
 
 import (
+	"math"
 	"time"
 
 	pref "google.golang.org/protobuf/reflect/protoreflect"
@@ -27,13 +28,19 @@ func TimeValueWithin(d time.Duration) Value {
 		}
 
 		xt, yt := toTime(mx), toTime(my)
-		if xt.Before(yt) {
-			return yt.Sub(xt) <= d, true
-		}
-		return xt.Sub(yt) <= d, true
+		return timesWithin(xt, yt, d), true
 	}
 }
 
+// timesWithin returns whether x and y are no more than d apart.
+// This works for times further apart than can be represented by a time.Duration.
+func timesWithin(x, y time.Time, d time.Duration) bool {
+	if x.After(y) {
+		x, y = y, x
+	}
+	return !y.After(x.Add(d))
+}
+
 func toTime(x pref.Message) time.Time {
 	return x.Interface().(*timestamppb.Timestamp).AsTime()
 }
@@ -45,29 +52,24 @@ func DurationValueWithin(d time.Duration) Value {
 		if returnEarly {
 			return equal, ok
 		}
-		if xd < yd {
-			return yd-xd <= d, true
-		}
-		return xd-yd <= d, true
+		return timesWithin(fromZero(xd), fromZero(yd), d), true
 	}
 }
 
 // DurationValueWithinP considers two durationpb.Duration to be equal if their values are within p percent of each other.
+// The percentage is of the duration closest to zero.
 func DurationValueWithinP(p float32) Value {
 	return func(fd pref.FieldDescriptor, x, y pref.Value) (equal, ok bool) {
 		xd, yd, equal, ok, returnEarly := cmpDuration(fd, x, y)
 		if returnEarly {
 			return equal, ok
 		}
-		pd := float32(xd) / float32(yd)
-		if pd < 0 {
-			pd = -pd
-		}
-		return pd < p, true
+		xs, ys := toSeconds(xd), toSeconds(yd)
+		return xs == ys || math.Abs(xs-ys) <= float64(p)/100*math.Min(math.Abs(xs), math.Abs(ys)), true
 	}
 }
 
-func cmpDuration(fd pref.FieldDescriptor, x, y pref.Value) (xd, yd time.Duration, equal, ok, returnEarly bool) {
+func cmpDuration(fd pref.FieldDescriptor, x, y pref.Value) (xd, yd *durationpb.Duration, equal, ok, returnEarly bool) {
 	if fd.Kind() != pref.MessageKind {
 		return xd, yd, false, false, true
 	}
@@ -88,6 +90,16 @@ func cmpDuration(fd pref.FieldDescriptor, x, y pref.Value) (xd, yd time.Duration
 	return xd, yd, false, false, false
 }
 
-func toDuration(x pref.Message) time.Duration {
-	return x.Interface().(*durationpb.Duration).AsDuration()
+func toDuration(x pref.Message) *durationpb.Duration {
+	return x.Interface().(*durationpb.Duration)
+}
+
+// fromZero returns the time d after the unix epoch.
+// Unlike time.Duration, time.Time can represent any valid durationpb.Duration.
+func fromZero(d *durationpb.Duration) time.Time {
+	return time.Unix(d.GetSeconds(), int64(d.GetNanos()))
+}
+
+func toSeconds(d *durationpb.Duration) float64 {
+	return float64(d.GetSeconds()) + float64(d.GetNanos())/1e9
 }
-- 
2.43.0


From ee88360f208c9526f1be6039ac4733441d41c680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:22 +0000
Subject: [PATCH 13/33] fix: read masks with overlapping or invalid paths
 neither narrow the projection nor panic

---
 pkg/masks/get.go  |  5 ++---
 pkg/masks/util.go | 36 ++++++++++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/pkg/masks/get.go b/pkg/masks/get.go
index 1767b89..b232f6d 100644
--- a/pkg/masks/get.go
+++ b/pkg/masks/get.go
@@ -1,7 +1,6 @@
 package masks
 
 import (
-	"github.com/mennanov/fmutils"
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
@@ -45,7 +44,7 @@ func (r *ResponseFilter) Filter(msg proto.Message) {
 		proto.Reset(msg)
 		return
 	}
-	fmutils.Filter(msg, r.fields.GetPaths())
+	filterFields(msg.ProtoReflect(), nestedMask(r.fields))
 }
 
 // FilterClone is like Filter but clones and returns a new msg instead of modifying the original.
@@ -62,7 +61,7 @@ func (r *ResponseFilter) FilterClone(msg proto.Message) proto.Message {
 		return clone
 	}
 	clone := proto.Clone(msg)
-	fmutils.Filter(clone, r.fields.GetPaths())
+	filterFields(clone.ProtoReflect(), nestedMask(r.fields))
 	return clone
 }
 
diff --git a/pkg/masks/util.go b/pkg/masks/util.go
index 73b558d..a69339c 100644
--- a/pkg/masks/util.go
+++ b/pkg/masks/util.go
@@ -3,6 +3,8 @@ package masks
 import (
 	"strings"
 
+	"github.com/mennanov/fmutils"
+	"google.golang.org/protobuf/reflect/protoreflect"
 	"google.golang.org/protobuf/types/known/fieldmaskpb"
 )
 
@@ -32,3 +34,37 @@ func RemovePrefix(prefix string, mask *fieldmaskpb.FieldMask) *fieldmaskpb.Field
 	}
 	return out
 }
+
+// nestedMask returns mask as a tree.
+// A path in mask includes all paths below it, whether they are also in mask or not.
+func nestedMask(mask *fieldmaskpb.FieldMask) fmutils.NestedMask {
+	normal := &fieldmaskpb.FieldMask{Paths: append([]string(nil), mask.GetPaths()...)}
+	normal.Normalize()
+	return fmutils.NestedMaskFromPaths(normal.GetPaths())
+}
+
+// filterFields clears all fields of msg that aren't in mask, an empty mask contains all fields.
+// Like fmutils.Filter but can be used with any mask.
+// Invalid paths, those continuing past a scalar or map, are treated as if they ended there.
+func filterFields(msg protoreflect.Message, mask fmutils.NestedMask) {
+	if len(mask) == 0 {
+		return
+	}
+	msg.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
+		fieldMask, ok := mask[string(fd.Name())]
+		switch {
+		case !ok:
+			msg.Clear(fd)
+		case fd.Message() == nil || fd.IsMap():
+			// keep the field as it is
+		case fd.IsList():
+			list := v.List()
+			for i := 0; i < list.Len(); i++ {
+				filterFields(list.Get(i).Message(), fieldMask)
+			}
+		default:
+			filterFields(v.Message(), fieldMask)
+		}
+		return true
+	})
+}
-- 
2.43.0


From e00957efa4abca2621d622474b0c9a93aebc053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:22 +0000
Subject: [PATCH 14/33] fix: update masks don't clear or reject more than they
 should, reset masks apply when nothing is writable

---
 pkg/masks/update.go | 71 +++++++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 41 deletions(-)

diff --git a/pkg/masks/update.go b/pkg/masks/update.go
index cdf66a0..57b2180 100644
--- a/pkg/masks/update.go
+++ b/pkg/masks/update.go
@@ -1,6 +1,8 @@
 package masks
 
 import (
+	"strings"
+
 	"github.com/mennanov/fmutils"
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
@@ -14,8 +16,6 @@ type FieldUpdater struct {
 	updateMask          *fieldmaskpb.FieldMask
 	updateMaskFieldName string
 	resetMask           *fieldmaskpb.FieldMask
-
-	intersectionMask *fieldmaskpb.FieldMask
 }
 
 func NewFieldUpdater(opts ...FieldUpdaterOption) *FieldUpdater {
@@ -38,9 +38,10 @@ func (f *FieldUpdater) Validate(m proto.Message) error {
 
 		// are fields mentioned in the update mask actually writable?
 		if f.writableFields != nil {
-			common := f.fullMask()
-			if len(common.Paths) != len(f.updateMask.Paths) {
-				return status.Errorf(codes.InvalidArgument, "%v mentions read-only fields", f.updateMaskFieldName)
+			for _, path := range f.updateMask.GetPaths() {
+				if !contains(f.writableFields, path) {
+					return status.Errorf(codes.InvalidArgument, "%v mentions read-only fields", f.updateMaskFieldName)
+				}
 			}
 		}
 	}
@@ -55,13 +56,24 @@ func (f *FieldUpdater) Validate(m proto.Message) error {
 
 // Merge copies the values in src into dst based on the configured field masks.
 func (f *FieldUpdater) Merge(dst, src proto.Message) {
-	if f.writableFields != nil && len(f.writableFields.Paths) == 0 {
-		return // nothing is writable
+	if f.updateMask != nil && len(f.updateMask.GetPaths()) == 0 {
+		return // non-nil mask with no paths => no changes
 	}
 
+	if f.writableFields == nil || len(f.writableFields.Paths) > 0 {
+		f.mergeWritable(dst, src)
+	}
+
+	if f.resetMask != nil {
+		nestedMask(f.resetMask).Prune(dst)
+	}
+}
+
+// mergeWritable copies the values in src into dst based on the update mask and writable fields.
+func (f *FieldUpdater) mergeWritable(dst, src proto.Message) {
 	var writableMask fmutils.NestedMask
 	if f.writableFields != nil {
-		writableMask = fmutils.NestedMaskFromPaths(f.writableFields.Paths)
+		writableMask = nestedMask(f.writableFields)
 	}
 
 	// only allow writing writable fields by resetting non-writable fields in src
@@ -77,23 +89,14 @@ func (f *FieldUpdater) Merge(dst, src proto.Message) {
 			// if only some fields are writable then reset only those
 			writableMask.Prune(dst)
 		}
-	} else if len(mask.GetPaths()) == 0 {
-		// non-nil mask with no paths => no changes
-		return
 	}
 
-	nestedMask := fmutils.NestedMaskFromPaths(mask.GetPaths())
-	nestedMask.Filter(src)
+	updateMask := nestedMask(mask)
+	updateMask.Filter(src)
 	proto.Merge(dst, src)
 
 	// if a field mentioned by the mask is nil, we should clear it
-	pruneEmpty(dst, src, nestedMask)
-
-	if f.resetMask != nil {
-		fmutils.Prune(dst, f.resetMask.Paths)
-	}
-
-	return
+	pruneEmpty(dst, src, updateMask)
 }
 
 func pruneEmpty(dst, src proto.Message, mask fmutils.NestedMask) {
@@ -104,7 +107,7 @@ func pruneEmpty(dst, src proto.Message, mask fmutils.NestedMask) {
 		if !ok {
 			return true
 		}
-		if !srcPr.Has(d) {
+		if !srcPr.Has(d) && len(fieldMask) == 0 {
 			dstPr.Clear(d)
 			return true
 		}
@@ -115,28 +118,14 @@ func pruneEmpty(dst, src proto.Message, mask fmutils.NestedMask) {
 	})
 }
 
-func (f *FieldUpdater) fullMask() *fieldmaskpb.FieldMask {
-	if f.intersectionMask == nil {
-		var nonNilMasks []*fieldmaskpb.FieldMask
-		if f.writableFields != nil {
-			nonNilMasks = append(nonNilMasks, f.writableFields)
-		}
-		if f.updateMask != nil {
-			nonNilMasks = append(nonNilMasks, f.updateMask)
-		}
-
-		switch len(nonNilMasks) {
-		case 0:
-			return nil
-		case 1:
-			f.intersectionMask = nonNilMasks[0]
-		case 2:
-			f.intersectionMask = fieldmaskpb.Intersect(nonNilMasks[0], nonNilMasks[1])
-		default:
-			f.intersectionMask = fieldmaskpb.Intersect(nonNilMasks[0], nonNilMasks[1], nonNilMasks[2:]...)
+// contains returns whether path, or one of its parents, is mentioned by mask.
+func contains(mask *fieldmaskpb.FieldMask, path string) bool {
+	for _, p := range mask.GetPaths() {
+		if p == path || strings.HasPrefix(path, p+".") {
+			return true
 		}
 	}
-	return f.intersectionMask
+	return false
 }
 
 type FieldUpdaterOption func(*FieldUpdater)
-- 
2.43.0


From f9e3f1fb1d72714f30967cac42cb59b83771889a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 15/33] fix: writes don't change the message they are given

Merge filtered it in place, which races with other uses of the message.
---
 pkg/masks/update.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/masks/update.go b/pkg/masks/update.go
index 57b2180..b69c9e5 100644
--- a/pkg/masks/update.go
+++ b/pkg/masks/update.go
@@ -76,10 +76,14 @@ func (f *FieldUpdater) mergeWritable(dst, src proto.Message) {
 		writableMask = nestedMask(f.writableFields)
 	}
 
+	mask := f.updateMask
+	if writableMask != nil || mask != nil {
+		src = proto.Clone(src) // src belongs to the caller, who might be using it elsewhere
+	}
+
 	// only allow writing writable fields by resetting non-writable fields in src
 	writableMask.Filter(src)
 
-	mask := f.updateMask
 	if mask == nil {
 		// no mask, make dst look like src
 		if writableMask == nil {
-- 
2.43.0


From f20235c8a21a2c3f88685bd0c7440e61a19a4938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 16/33] fix: wrapped servers behave as over a gRPC connection,
 without data races

Messages are copied before the other side has them, header, trailer and outcome are guarded by a mutex,
cancellation and expiry are reported as such, headers that were set are visible when the call fails, errors of
handlers become status errors, and sends after the end don't panic.
---
 pkg/wrap/stream.go | 210 ++++++++++++++++++++++++++++++++-------------
 pkg/wrap/wrap.go   |  34 ++++++--
 2 files changed, 177 insertions(+), 67 deletions(-)

diff --git a/pkg/wrap/stream.go b/pkg/wrap/stream.go
index 39d4121..cd178fe 100644
--- a/pkg/wrap/stream.go
+++ b/pkg/wrap/stream.go
@@ -7,48 +7,84 @@ import (
 	"sync"
 
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/metadata"
+	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
 )
 
 // ClientServerStream combines both a grpc.ServerStream and grpc.ClientStream
 type ClientServerStream struct {
-	ctx context.Context
+	ctx    context.Context
+	closed context.CancelFunc
 
-	header  metadata.MD
-	headerM sync.Mutex    // guards closing of headerC
-	headerC chan struct{} // closed once calls to clientStream.Header should return
+	// as in grpc.StreamDesc, they affect how the client observes the end of the stream
+	clientStreams, serverStreams bool
 
-	serverSend chan any
-	clientSend chan any
+	serverSend chan proto.Message
+	clientSend chan proto.Message
+	headerC    chan struct{} // closed once calls to clientStream.Header should return
+
+	mu         sync.Mutex // guards the fields below and closing of headerC and clientSend
+	header     metadata.MD
 	trailer    metadata.MD
-	closed     context.CancelFunc
+	sendClosed bool // CloseSend has been called
+	finished   bool // Close has been called
 	closeErr   error
 }
 
 func NewClientServerStream(ctx context.Context) *ClientServerStream {
 	newCtx, closed := context.WithCancel(ctx)
 	return &ClientServerStream{
-		ctx:        newCtx,
-		closed:     closed,
-		headerC:    make(chan struct{}),
-		serverSend: make(chan any),
-		clientSend: make(chan any),
+		ctx:           newCtx,
+		closed:        closed,
+		clientStreams: true,
+		serverStreams: true,
+		headerC:       make(chan struct{}),
+		serverSend:    make(chan proto.Message),
+		clientSend:    make(chan proto.Message),
 	}
 }
 
 func (s *ClientServerStream) Close(err error) {
-	s.closeErr = err
-	close(s.serverSend)
+	s.mu.Lock()
+	if !s.finished {
+		s.finished = true
+		s.closeErr = err
+		if ctxErr := s.ctx.Err(); ctxErr != nil {
+			// the client has gone already, it doesn't get to know how the server ended the stream
+			s.closeErr = status.FromContextError(ctxErr).Err()
+			s.trailer = nil
+		} else if len(s.header) > 0 && !s.headerSent() {
+			close(s.headerC)
+		}
+	}
+	s.mu.Unlock()
 	s.closed()
 }
 
-// safe to call if s.serverSend is closed
-func (s *ClientServerStream) closeErrLocked() error {
-	if s.closeErr == nil {
+// headerSent reports whether the client can see the headers, s.mu must be held.
+func (s *ClientServerStream) headerSent() bool {
+	select {
+	case <-s.headerC:
+		return true
+	default:
+		return false
+	}
+}
+
+// endErr returns why the stream has ended, io.EOF for success. It must be called only once s.ctx is done.
+func (s *ClientServerStream) endErr() error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	switch {
+	case !s.finished:
+		return status.FromContextError(s.ctx.Err()).Err()
+	case s.closeErr == nil:
 		return io.EOF
+	default:
+		return s.closeErr
 	}
-	return s.closeErr
 }
 
 func (s *ClientServerStream) Client() grpc.ClientStream {
@@ -66,25 +102,34 @@ type clientStream struct {
 func (c *clientStream) Header() (metadata.MD, error) {
 	select {
 	case <-c.ctx.Done():
-		select {
-		case <-c.headerC:
-			// we should still return the headers if we have them, even if the context is done
-			return c.header, nil
-		default:
-			// when the stream is terminated without headers, ClientStream should return a nil error
-			return nil, nil
-		}
 	case <-c.headerC:
-		return c.header, nil
 	}
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	if !c.headerSent() {
+		// when the stream is terminated without headers, ClientStream should return a nil error
+		return nil, nil
+	}
+	// we should still return the headers if we have them, even if the context is done
+	return cloneMD(c.header), nil
 }
 
 func (c *clientStream) Trailer() metadata.MD {
-	return c.trailer
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	if !c.finished {
+		return nil
+	}
+	return cloneMD(c.trailer)
 }
 
 func (c *clientStream) CloseSend() error {
-	close(c.clientSend)
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	if !c.sendClosed {
+		c.sendClosed = true
+		close(c.clientSend)
+	}
 	return nil
 }
 
@@ -93,33 +138,50 @@ func (c *clientStream) Context() context.Context {
 }
 
 func (c *clientStream) SendMsg(m any) error {
+	c.mu.Lock()
+	sendClosed := c.sendClosed
+	c.mu.Unlock()
+	if sendClosed {
+		return status.Error(codes.Internal, "SendMsg called after CloseSend")
+	}
+	msg, err := copyMsg(m)
+	if err != nil {
+		return err
+	}
 	select {
 	case <-c.ctx.Done():
-		return c.closeErrLocked()
-	case c.clientSend <- m:
+		if !c.clientStreams {
+			return nil // RecvMsg returns the error, generated code calls it only if this succeeds
+		}
+		return io.EOF // as documented by grpc.ClientStream, RecvMsg returns the error
+	case c.clientSend <- msg:
 		return nil
 	}
 }
 
 func (c *clientStream) RecvMsg(m any) error {
+	var msg proto.Message
 	select {
-	case <-c.Context().Done():
-		// closeErr may or may not be available depending on why the context has ended
-		//  1. if c.closed() was called by c.Close(...), then c.closeErr will be available
-		//  2. if the parent context was cancelled, then c.closeErr may not be available
-		select {
-		case _, ok := <-c.serverSend:
-			if !ok {
-				return c.closeErrLocked()
-			}
-		default:
-		}
-		return c.Context().Err()
-	case val, ok := <-c.serverSend:
-		if !ok {
-			return c.closeErrLocked()
+	case <-c.ctx.Done():
+		return c.endErr()
+	case msg = <-c.serverSend:
+	}
+	if err := receiveMsg(m, msg); err != nil {
+		return err
+	}
+	if c.serverStreams {
+		return nil
+	}
+
+	// the only response is followed by the status
+	select {
+	case <-c.ctx.Done():
+		if err := c.endErr(); err != io.EOF {
+			return err
 		}
-		return permissiveProtoMerge(m.(proto.Message), val.(proto.Message))
+		return nil
+	case <-c.serverSend:
+		return status.Error(codes.Internal, "received more than one response for a non server-streaming RPC")
 	}
 }
 
@@ -128,18 +190,20 @@ type serverStream struct {
 }
 
 func (s *serverStream) SetHeader(md metadata.MD) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if s.finished || s.headerSent() {
+		return errors.New("headers already sent")
+	}
 	s.header = metadata.Join(s.header, md)
 	return nil
 }
 
 func (s *serverStream) SendHeader(md metadata.MD) error {
-	s.headerM.Lock()
-	defer s.headerM.Unlock()
-
-	select {
-	case <-s.headerC:
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if s.finished || s.headerSent() {
 		return errors.New("headers already sent")
-	default:
 	}
 	s.header = metadata.Join(s.header, md)
 	close(s.headerC)
@@ -147,6 +211,11 @@ func (s *serverStream) SendHeader(md metadata.MD) error {
 }
 
 func (s *serverStream) SetTrailer(md metadata.MD) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if s.finished {
+		return
+	}
 	s.trailer = metadata.Join(s.trailer, md)
 }
 
@@ -155,24 +224,28 @@ func (s *serverStream) Context() context.Context {
 }
 
 func (s *serverStream) SendMsg(m any) error {
+	msg, err := copyMsg(m)
+	if err != nil {
+		return err
+	}
 	s.sendHeaderIfNeeded()
 	select {
 	case <-s.ctx.Done():
-		return s.closeErrLocked()
-	case s.serverSend <- m:
+		return status.FromContextError(s.ctx.Err()).Err()
+	case s.serverSend <- msg:
 		return nil
 	}
 }
 
 func (s *serverStream) RecvMsg(m any) error {
 	select {
-	case <-s.Context().Done():
-		return s.closeErrLocked()
-	case val, ok := <-s.clientSend:
+	case <-s.ctx.Done():
+		return status.FromContextError(s.ctx.Err()).Err()
+	case msg, ok := <-s.clientSend:
 		if !ok {
 			return io.EOF
 		}
-		return permissiveProtoMerge(m.(proto.Message), val.(proto.Message))
+		return receiveMsg(m, msg)
 	}
 }
 
@@ -181,6 +254,25 @@ func (s *serverStream) sendHeaderIfNeeded() {
 	_ = s.SendHeader(nil)
 }
 
+// copyMsg returns a copy of m for the other side to receive, the sender may change m once it is sent.
+func copyMsg(m any) (proto.Message, error) {
+	msg, ok := m.(proto.Message)
+	if !ok {
+		return nil, status.Errorf(codes.Internal, "can't send %T, not a proto.Message", m)
+	}
+	return proto.Clone(msg), nil
+}
+
+// receiveMsg replaces the contents of m with msg.
+func receiveMsg(m any, msg proto.Message) error {
+	dst, ok := m.(proto.Message)
+	if !ok {
+		return status.Errorf(codes.Internal, "can't receive %T, not a proto.Message", m)
+	}
+	proto.Reset(dst)
+	return permissiveProtoMerge(dst, msg)
+}
+
 // works like proto.Merge but allows messages with different descriptors by performing a marshal/unmarshal
 //
 // This is the recommended way to do it: https://github.com/golang/protobuf/issues/1163#issuecomment-654334690
diff --git a/pkg/wrap/wrap.go b/pkg/wrap/wrap.go
index c4cd005..0deae5f 100644
--- a/pkg/wrap/wrap.go
+++ b/pkg/wrap/wrap.go
@@ -57,17 +57,21 @@ func (w *wrapper) Invoke(ctx context.Context, method string, args any, reply any
 		return ErrMethodNotFound
 	}
 
-	ctx, clientServerStream, ss, cs := w.startStream(ctx, method)
+	if err := ctx.Err(); err != nil {
+		return status.FromContextError(err).Err()
+	}
+
+	clientServerStream, ss, cs := w.startStream(ctx, method, grpc.StreamDesc{})
 	go func() {
-		res, err := matched.Handler(w.srv, ctx, func(dst any) error {
+		res, err := matched.Handler(w.srv, ss.Context(), func(dst any) error {
 			return ss.RecvMsg(dst)
 		}, nil)
 		if err != nil {
-			clientServerStream.Close(err)
+			clientServerStream.Close(statusErr(err))
 			return
 		}
 		err = ss.SendMsg(res)
-		clientServerStream.Close(err)
+		clientServerStream.Close(statusErr(err))
 	}()
 
 	if err := cs.SendMsg(args); err != nil {
@@ -101,16 +105,20 @@ func (w *wrapper) NewStream(ctx context.Context, desc *grpc.StreamDesc, method s
 		return nil, ErrMethodShape
 	}
 
-	ctx, clientServerStream, ss, cs := w.startStream(ctx, method)
+	if err := ctx.Err(); err != nil {
+		return nil, status.FromContextError(err).Err()
+	}
+
+	clientServerStream, ss, cs := w.startStream(ctx, method, matched)
 	go func() {
 		err := matched.Handler(w.srv, ss)
-		clientServerStream.Close(err)
+		clientServerStream.Close(statusErr(err))
 	}()
 
 	return cs, nil
 }
 
-func (w *wrapper) startStream(ctx context.Context, method string) (context.Context, *ClientServerStream, grpc.ServerStream, grpc.ClientStream) {
+func (w *wrapper) startStream(ctx context.Context, method string, desc grpc.StreamDesc) (*ClientServerStream, grpc.ServerStream, grpc.ClientStream) {
 	// convert client's outgoing metadata to server's incoming metadata
 	md, _ := metadata.FromOutgoingContext(ctx)
 	md = cloneMD(md) // to prevent client from concurrently modifying the metadata
@@ -121,11 +129,21 @@ func (w *wrapper) startStream(ctx context.Context, method string) (context.Conte
 	ctx = grpc.NewContextWithServerTransportStream(ctx, sts)
 
 	clientServerStream := NewClientServerStream(ctx)
+	clientServerStream.clientStreams = desc.ClientStreams
+	clientServerStream.serverStreams = desc.ServerStreams
 	ss := clientServerStream.Server()
 	sts.ss = ss
 	cs := clientServerStream.Client()
 
-	return ctx, clientServerStream, ss, cs
+	return clientServerStream, ss, cs
+}
+
+// statusErr converts errors returned by handlers to status errors, as grpc.Server does.
+func statusErr(err error) error {
+	if _, ok := status.FromError(err); ok {
+		return err
+	}
+	return status.FromContextError(err).Err()
 }
 
 // thin implementation of grpc.ServerTransportStream, only to allow grpc.SetHeader to work,
-- 
2.43.0


From 68cf0237fcae51ca4cef7384b0fd0915b40a751e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:01 +0000
Subject: [PATCH 17/33] fix: trait subscriptions start when Pull is called and
 end when cancelled

Some models subscribed to their resource some time after Pull returned, missing changes made in between.
Others blocked forever sending a change to a subscriber that had cancelled.
---
 pkg/trait/accesspb/model.go           |  6 +++++-
 pkg/trait/airqualitysensorpb/model.go |  6 +++++-
 pkg/trait/airtemperaturepb/model.go   |  6 +++++-
 pkg/trait/bookingpb/model.go          |  3 ++-
 pkg/trait/electricpb/model.go         | 18 +++++++++++++++---
 pkg/trait/energystoragepb/model.go    |  6 +++++-
 pkg/trait/enterleavesensorpb/model.go |  3 ++-
 pkg/trait/fanspeedpb/model.go         |  3 ++-
 pkg/trait/hailpb/model.go             |  6 ++++--
 pkg/trait/lightpb/model.go            |  6 +++++-
 pkg/trait/meterpb/model.go            |  6 +++++-
 pkg/trait/modepb/model.go             |  3 ++-
 pkg/trait/occupancysensorpb/model.go  |  6 +++++-
 pkg/trait/onoffpb/model.go            |  6 +++++-
 pkg/trait/openclosepb/model.go        |  3 ++-
 pkg/trait/parentpb/model.go           |  6 +++++-
 pkg/trait/presspb/model.go            |  6 +++++-
 pkg/trait/publicationpb/model.go      |  6 ++++--
 pkg/trait/vendingpb/model.go          | 12 ++++++++----
 pkg/trait/wastepb/model.go            |  6 +++++-
 20 files changed, 96 insertions(+), 27 deletions(-)

diff --git a/pkg/trait/accesspb/model.go b/pkg/trait/accesspb/model.go
index d80e66c..0eb27c9 100644
--- a/pkg/trait/accesspb/model.go
+++ b/pkg/trait/accesspb/model.go
@@ -41,9 +41,13 @@ func (m *Model) PullAccessAttempts(ctx context.Context, opts ...resource.ReadOpt
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.AccessAttempt)
-			send <- PullAccessAttemptsChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullAccessAttemptsChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/airqualitysensorpb/model.go b/pkg/trait/airqualitysensorpb/model.go
index 4903204..cc059c4 100644
--- a/pkg/trait/airqualitysensorpb/model.go
+++ b/pkg/trait/airqualitysensorpb/model.go
@@ -39,9 +39,13 @@ func (m *Model) PullAirQuality(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.AirQuality)
-			send <- PullAirQualityChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullAirQualityChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/airtemperaturepb/model.go b/pkg/trait/airtemperaturepb/model.go
index bb14527..3f77644 100644
--- a/pkg/trait/airtemperaturepb/model.go
+++ b/pkg/trait/airtemperaturepb/model.go
@@ -39,9 +39,13 @@ func (m *Model) PullAirTemperature(ctx context.Context, opts ...resource.ReadOpt
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.AirTemperature)
-			send <- PullAirTemperatureChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullAirTemperatureChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/bookingpb/model.go b/pkg/trait/bookingpb/model.go
index c887ace..c1d4af2 100644
--- a/pkg/trait/bookingpb/model.go
+++ b/pkg/trait/bookingpb/model.go
@@ -67,9 +67,10 @@ type BookingChange struct {
 func (m *Model) PullBookings(ctx context.Context, opts ...resource.ReadOption) <-chan BookingChange {
 	send := make(chan BookingChange)
 
+	recv := m.bookings.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.bookings.Pull(ctx, opts...) {
+		for change := range recv {
 			event := BookingChange{
 				ChangeTime: change.ChangeTime,
 				ChangeType: change.ChangeType,
diff --git a/pkg/trait/electricpb/model.go b/pkg/trait/electricpb/model.go
index 585c87d..0488ccc 100644
--- a/pkg/trait/electricpb/model.go
+++ b/pkg/trait/electricpb/model.go
@@ -78,9 +78,13 @@ func (m *Model) PullDemand(ctx context.Context, opts ...resource.ReadOption) <-c
 		defer close(send)
 		for change := range recv {
 			demand := change.Value.(*traits.ElectricDemand)
-			send <- PullDemandChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullDemandChange{
 				Value:      demand,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
@@ -121,9 +125,13 @@ func (m *Model) PullActiveMode(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			activeMode := change.Value.(*traits.ElectricMode)
-			send <- PullActiveModeChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullActiveModeChange{
 				ActiveMode: activeMode,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
@@ -344,7 +352,11 @@ func (m *Model) PullModes(ctx context.Context, opts ...resource.ReadOption) <-ch
 				NewValue:   newValue,
 				OldValue:   oldValue,
 			}
-			send <- pullChange
+			select {
+			case <-ctx.Done():
+				return
+			case send <- pullChange:
+			}
 		}
 	}()
 
diff --git a/pkg/trait/energystoragepb/model.go b/pkg/trait/energystoragepb/model.go
index ef06c0b..095f5fb 100644
--- a/pkg/trait/energystoragepb/model.go
+++ b/pkg/trait/energystoragepb/model.go
@@ -45,9 +45,13 @@ func (m *Model) PullEnergyLevel(ctx context.Context, opts ...resource.ReadOption
 		defer close(send)
 		for change := range recv {
 			demand := change.Value.(*traits.EnergyLevel)
-			send <- PullEnergyLevelChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullEnergyLevelChange{
 				Value:      demand,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/enterleavesensorpb/model.go b/pkg/trait/enterleavesensorpb/model.go
index 953c1ec..a315b9e 100644
--- a/pkg/trait/enterleavesensorpb/model.go
+++ b/pkg/trait/enterleavesensorpb/model.go
@@ -64,9 +64,10 @@ type EnterLeaveEventChange struct {
 // The returned chan will be closed when the given context is Done.
 func (m *Model) PullEnterLeaveEvents(ctx context.Context, opts ...resource.ReadOption) <-chan EnterLeaveEventChange {
 	send := make(chan EnterLeaveEventChange)
+	recv := m.enterLeaveEvents.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.enterLeaveEvents.Pull(ctx, opts...) {
+		for change := range recv {
 			val := change.Value.(*traits.EnterLeaveEvent)
 			if change.LastSeedValue {
 				// when sending the initial data (not an update), the occupant and direction should be absent.
diff --git a/pkg/trait/fanspeedpb/model.go b/pkg/trait/fanspeedpb/model.go
index 84a4d1d..56b76ce 100644
--- a/pkg/trait/fanspeedpb/model.go
+++ b/pkg/trait/fanspeedpb/model.go
@@ -137,9 +137,10 @@ type FanSpeedChange struct {
 
 func (m *Model) PullFanSpeed(ctx context.Context, opts ...resource.ReadOption) <-chan FanSpeedChange {
 	send := make(chan FanSpeedChange)
+	recv := m.fanSpeed.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.fanSpeed.Pull(ctx, opts...) {
+		for change := range recv {
 			val := change.Value.(*traits.FanSpeed)
 			select {
 			case <-ctx.Done():
diff --git a/pkg/trait/hailpb/model.go b/pkg/trait/hailpb/model.go
index d971fbe..f6b348d 100644
--- a/pkg/trait/hailpb/model.go
+++ b/pkg/trait/hailpb/model.go
@@ -72,9 +72,10 @@ type HailChange struct {
 // The returned channel is closed when ctx is Done or the hail identified by id is deleted.
 func (m *Model) PullHail(ctx context.Context, id string, opts ...resource.ReadOption) <-chan HailChange {
 	send := make(chan HailChange)
+	recv := m.hails.PullID(ctx, id, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.hails.PullID(ctx, id, opts...) {
+		for change := range recv {
 			select {
 			case <-ctx.Done():
 				return
@@ -103,9 +104,10 @@ type HailsChange struct {
 
 func (m *Model) PullHails(ctx context.Context, opts ...resource.ReadOption) <-chan HailsChange {
 	send := make(chan HailsChange)
+	recv := m.hails.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.hails.Pull(ctx, opts...) {
+		for change := range recv {
 			oldVal, newVal := castChange(change)
 			event := HailsChange{
 				ChangeType: change.ChangeType,
diff --git a/pkg/trait/lightpb/model.go b/pkg/trait/lightpb/model.go
index 10c40b6..ff0b583 100644
--- a/pkg/trait/lightpb/model.go
+++ b/pkg/trait/lightpb/model.go
@@ -44,9 +44,13 @@ func (m *Model) PullBrightness(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.Brightness)
-			send <- PullBrightnessChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullBrightnessChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/meterpb/model.go b/pkg/trait/meterpb/model.go
index bfccd5a..220e3a3 100644
--- a/pkg/trait/meterpb/model.go
+++ b/pkg/trait/meterpb/model.go
@@ -72,9 +72,13 @@ func (m *Model) PullMeterReadings(ctx context.Context, opts ...resource.ReadOpti
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.MeterReading)
-			send <- PullMeterReadingChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullMeterReadingChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/modepb/model.go b/pkg/trait/modepb/model.go
index 4c29e3b..33f7038 100644
--- a/pkg/trait/modepb/model.go
+++ b/pkg/trait/modepb/model.go
@@ -79,9 +79,10 @@ type ModeValuesChange struct {
 func (m *Model) PullModeValues(ctx context.Context, opts ...resource.ReadOption) <-chan ModeValuesChange {
 	send := make(chan ModeValuesChange)
 
+	recv := m.modeValues.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.modeValues.Pull(ctx, opts...) {
+		for change := range recv {
 			val := change.Value.(*traits.ModeValues)
 			select {
 			case <-ctx.Done():
diff --git a/pkg/trait/occupancysensorpb/model.go b/pkg/trait/occupancysensorpb/model.go
index 05fca65..77daed9 100644
--- a/pkg/trait/occupancysensorpb/model.go
+++ b/pkg/trait/occupancysensorpb/model.go
@@ -40,9 +40,13 @@ func (m *Model) PullOccupancy(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.Occupancy)
-			send <- PullOccupancyChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullOccupancyChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/onoffpb/model.go b/pkg/trait/onoffpb/model.go
index 0870db7..e505b3d 100644
--- a/pkg/trait/onoffpb/model.go
+++ b/pkg/trait/onoffpb/model.go
@@ -39,9 +39,13 @@ func (m *Model) PullOnOff(ctx context.Context, opts ...resource.ReadOption) <-ch
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.OnOff)
-			send <- PullOnOffChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullOnOffChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index 1b8c8a7..a32bc5a 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -108,13 +108,14 @@ func (m *Model) PullPositions(ctx context.Context, ops ...resource.ReadOption) <
 	eq := cmp.Equal()
 
 	send := make(chan PullOpenClosePositionsChange)
+	recv := m.positions.Pull(ctx)
 	go func() {
 		defer close(send)
 		all := make(map[string]*traits.OpenClosePosition, 1)
 		seenAll := false
 		var last *traits.OpenClosePositions
 
-		for change := range m.positions.Pull(ctx) {
+		for change := range recv {
 			if change.NewValue == nil {
 				delete(all, change.Id)
 			} else {
diff --git a/pkg/trait/parentpb/model.go b/pkg/trait/parentpb/model.go
index a7a8c95..041a09f 100644
--- a/pkg/trait/parentpb/model.go
+++ b/pkg/trait/parentpb/model.go
@@ -118,7 +118,11 @@ func (m *Model) PullChildren(ctx context.Context, opts ...resource.ReadOption) <
 	go func() {
 		defer close(out)
 		for change := range changes {
-			out <- childrenChangeToProto(change)
+			select {
+			case <-ctx.Done():
+				return
+			case out <- childrenChangeToProto(change):
+			}
 		}
 	}()
 
diff --git a/pkg/trait/presspb/model.go b/pkg/trait/presspb/model.go
index c025d14..d4599da 100644
--- a/pkg/trait/presspb/model.go
+++ b/pkg/trait/presspb/model.go
@@ -40,10 +40,14 @@ func (m *Model) PullPressedState(ctx context.Context, options ...resource.ReadOp
 		defer close(tx)
 		for change := range rx {
 			value := change.Value.(*traits.PressedState)
-			tx <- PullPressedStateChange{
+			select {
+			case <-ctx.Done():
+				return
+			case tx <- PullPressedStateChange{
 				Value:         value,
 				ChangeTime:    change.ChangeTime,
 				LastSeedValue: change.LastSeedValue,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/publicationpb/model.go b/pkg/trait/publicationpb/model.go
index db0d033..5ead0c9 100644
--- a/pkg/trait/publicationpb/model.go
+++ b/pkg/trait/publicationpb/model.go
@@ -62,9 +62,10 @@ type PublicationChange struct {
 
 func (m *Model) PullPublication(ctx context.Context, id string, opts ...resource.ReadOption) <-chan PublicationChange {
 	send := make(chan PublicationChange)
+	recv := m.publications.PullID(ctx, id, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.publications.PullID(ctx, id, opts...) {
+		for change := range recv {
 			select {
 			case <-ctx.Done():
 				return
@@ -94,9 +95,10 @@ type PublicationsChange struct {
 
 func (m *Model) PullPublications(ctx context.Context, opts ...resource.ReadOption) <-chan PublicationsChange {
 	send := make(chan PublicationsChange)
+	recv := m.publications.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.publications.Pull(ctx, opts...) {
+		for change := range recv {
 			event := PublicationsChange{
 				ID:         change.Id,
 				ChangeTime: change.ChangeTime,
diff --git a/pkg/trait/vendingpb/model.go b/pkg/trait/vendingpb/model.go
index 19267be..ae5074d 100644
--- a/pkg/trait/vendingpb/model.go
+++ b/pkg/trait/vendingpb/model.go
@@ -68,9 +68,10 @@ type ConsumableChange struct {
 
 func (m *Model) PullConsumable(ctx context.Context, name string, opts ...resource.ReadOption) <-chan ConsumableChange {
 	send := make(chan ConsumableChange)
+	recv := m.consumables.PullID(ctx, name, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.consumables.PullID(ctx, name, opts...) {
+		for change := range recv {
 			select {
 			case <-ctx.Done():
 				return
@@ -100,9 +101,10 @@ type ConsumablesChange struct {
 
 func (m *Model) PullConsumables(ctx context.Context, opts ...resource.ReadOption) <-chan ConsumablesChange {
 	send := make(chan ConsumablesChange)
+	recv := m.consumables.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.consumables.Pull(ctx, opts...) {
+		for change := range recv {
 			oldVal, newVal := castConsumableChange(change)
 			event := ConsumablesChange{
 				ID:         change.Id,
@@ -159,9 +161,10 @@ type StockChange struct {
 // The returned channel will be closed if ctx is Done or the stock record identified by consumable is deleted.
 func (m *Model) PullStock(ctx context.Context, consumable string, opts ...resource.ReadOption) <-chan StockChange {
 	send := make(chan StockChange)
+	recv := m.inventory.PullID(ctx, consumable, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.inventory.PullID(ctx, consumable, opts...) {
+		for change := range recv {
 			select {
 			case <-ctx.Done():
 				return
@@ -193,9 +196,10 @@ type InventoryChange struct {
 // PullInventory subscribes to changes in the list of known stock records.
 func (m *Model) PullInventory(ctx context.Context, opts ...resource.ReadOption) <-chan InventoryChange {
 	send := make(chan InventoryChange)
+	recv := m.inventory.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.inventory.Pull(ctx, opts...) {
+		for change := range recv {
 			oldVal, newVal := castStockChange(change)
 			event := InventoryChange{
 				ID:         change.Id,
diff --git a/pkg/trait/wastepb/model.go b/pkg/trait/wastepb/model.go
index 7db9ec5..55eb980 100644
--- a/pkg/trait/wastepb/model.go
+++ b/pkg/trait/wastepb/model.go
@@ -143,7 +143,11 @@ func (m *Model) PullWasteRecords(ctx context.Context, opts ...resource.ReadOptio
 				ChangeTime: wr.WasteCreateTime,
 				Type:       types.ChangeType_ADD,
 			}
-			send <- change
+			select {
+			case <-ctx.Done():
+				return
+			case send <- change:
+			}
 		}
 	}()
 
-- 
2.43.0


From 083317096fa720909bf5e63487f1055862b34231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 18/33] fix: resources keep a copy of their initial values

The caller's message, which may be shared by many resources via default options, could be changed after it was stored.
---
 pkg/resource/collection.go | 2 +-
 pkg/resource/value.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index df33cfa..3c080c0 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -30,7 +30,7 @@ func NewCollection(options ...Option) *Collection {
 	conf := computeConfig(options...)
 	initialItems := make(map[string]*item)
 	for k, v := range conf.initialRecords {
-		initialItems[k] = &item{body: v, changeTime: conf.clock.Now()}
+		initialItems[k] = &item{body: proto.Clone(v), changeTime: conf.clock.Now()}
 	}
 	conf.initialRecords = nil // so the gc can collect them
 
diff --git a/pkg/resource/value.go b/pkg/resource/value.go
index 7d23ee8..113ed2d 100644
--- a/pkg/resource/value.go
+++ b/pkg/resource/value.go
@@ -29,7 +29,7 @@ func NewValue(opts ...Option) *Value {
 	res := &Value{
 		config: c,
 	}
-	res.value = c.initialValue
+	res.value = proto.Clone(c.initialValue) // the caller keeps its copy
 	res.changeTime = c.clock.Now()
 	c.initialValue = nil // clear so it can be GC'd when the value changes
 	return res
-- 
2.43.0


From b4f0a5b178cce7841fcca1453509cfbc8468eee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 19/33] fix: parent child traits are the union and difference
 of those added and removed

Removing an absent trait removed another one, the stored slice was changed in place visible to those reading it,
concurrent changes to a child panicked, and PullChildren changes didn't include the requested name.
---
 pkg/trait/parentpb/model.go        | 55 +++++++++++++++++++-----------
 pkg/trait/parentpb/model_opts.go   |  4 +--
 pkg/trait/parentpb/model_server.go |  1 +
 3 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/pkg/trait/parentpb/model.go b/pkg/trait/parentpb/model.go
index 041a09f..39c6f17 100644
--- a/pkg/trait/parentpb/model.go
+++ b/pkg/trait/parentpb/model.go
@@ -65,16 +65,19 @@ func (m *Model) RemoveChildByName(name string, opts ...resource.WriteOption) (*t
 // If no child with the given name is already know, one will be created.
 // If a child is already known with the given name, its traits will be unioned with the given trait names.
 func (m *Model) AddChildTrait(name string, traitName ...trait.Name) (child *traits.Child, created bool) {
-	msg, err := m.children.Update(name, &traits.Child{Name: name},
-		resource.WithCreateIfAbsent(),
-		resource.WithCreatedCallback(func() {
-			created = true
-		}),
-		resource.InterceptBefore(func(old, value proto.Message) {
-			oldChild := old.(*traits.Child)
-			newChild := value.(*traits.Child)
-			newChild.Traits = traitUnion(oldChild.Traits, traitName...)
-		}))
+	msg, err := retryAborted(func() (proto.Message, error) {
+		created = false
+		return m.children.Update(name, &traits.Child{Name: name},
+			resource.WithCreateIfAbsent(),
+			resource.WithCreatedCallback(func() {
+				created = true
+			}),
+			resource.InterceptBefore(func(old, value proto.Message) {
+				oldChild := old.(*traits.Child)
+				newChild := value.(*traits.Child)
+				newChild.Traits = traitUnion(oldChild.Traits, traitName...)
+			}))
+	})
 	if err != nil {
 		panic(err) // shouldn't happen
 	}
@@ -84,12 +87,14 @@ func (m *Model) AddChildTrait(name string, traitName ...trait.Name) (child *trai
 // RemoveChildTrait ensures that the named child no longer mentions they support the given trait names.
 // If no child exists with the given name then nil will be returned.
 func (m *Model) RemoveChildTrait(name string, traitName ...trait.Name) *traits.Child {
-	msg, err := m.children.Update(name, &traits.Child{Name: name},
-		resource.InterceptBefore(func(old, value proto.Message) {
-			oldChild := old.(*traits.Child)
-			newChild := value.(*traits.Child)
-			newChild.Traits = traitRemove(oldChild.Traits, traitName...)
-		}))
+	msg, err := retryAborted(func() (proto.Message, error) {
+		return m.children.Update(name, &traits.Child{Name: name},
+			resource.InterceptBefore(func(old, value proto.Message) {
+				oldChild := old.(*traits.Child)
+				newChild := value.(*traits.Child)
+				newChild.Traits = traitRemove(oldChild.Traits, traitName...)
+			}))
+	})
 	if err != nil {
 		switch status.Code(err) {
 		case codes.NotFound:
@@ -143,10 +148,21 @@ func childrenChangeToProto(change *resource.CollectionChange) *traits.PullChildr
 	return &pChange
 }
 
+// retryAborted calls update until it isn't aborted by a concurrent update.
+func retryAborted(update func() (proto.Message, error)) (proto.Message, error) {
+	for {
+		msg, err := update()
+		if status.Code(err) != codes.Aborted {
+			return msg, err
+		}
+	}
+}
+
 // traitUnion returns a slice containing the union of has and more (converted to *traits.Trait).
-// The has slice should be sorted in ascending order by Trait.Name.
+// The has slice should be sorted in ascending order by Trait.Name and is not changed.
 // The returned slice will be sorted in ascending order by Trait.Name.
 func traitUnion(has []*traits.Trait, more ...trait.Name) []*traits.Trait {
+	has = append(make([]*traits.Trait, 0, len(has)+len(more)), has...) // don't write to the callers slice
 	// has should be sorted by Trait.Name
 	for _, t := range more {
 		ts := string(t)
@@ -166,16 +182,17 @@ func traitUnion(has []*traits.Trait, more ...trait.Name) []*traits.Trait {
 }
 
 // traitRemove returns a slice containing only traits from has that aren't in remove.
-// The has slice should be sorted in ascending order by Trait.Name.
+// The has slice should be sorted in ascending order by Trait.Name and is not changed.
 // The returned slice will be sorted in ascending order by Trait.Name.
 func traitRemove(has []*traits.Trait, remove ...trait.Name) []*traits.Trait {
+	has = append([]*traits.Trait(nil), has...) // don't write to the callers slice
 	// has should be sorted by Trait.Name
 	for _, t := range remove {
 		ts := string(t)
 		insertIndex := sort.Search(len(has), func(i int) bool {
 			return has[i].Name >= ts
 		})
-		if insertIndex == len(has) {
+		if insertIndex == len(has) || has[insertIndex].Name != ts {
 			continue // t isn't in has, nothing to do this iteration
 		}
 		copy(has[insertIndex:], has[insertIndex+1:])
diff --git a/pkg/trait/parentpb/model_opts.go b/pkg/trait/parentpb/model_opts.go
index 141b56b..e3c8731 100644
--- a/pkg/trait/parentpb/model_opts.go
+++ b/pkg/trait/parentpb/model_opts.go
@@ -33,8 +33,8 @@ func WithChildrenOption(opts ...resource.Option) resource.Option {
 func WithInitialChildren(children ...*traits.Child) resource.Option {
 	opts := make([]resource.Option, len(children))
 	for i, child := range children {
-		if child.Name == "" {
-			panic(fmt.Sprintf("child at index %d has no name", i))
+		if err := validateChild(child); err != nil {
+			panic(fmt.Sprintf("child at index %d is not valid: %v", i, err))
 		}
 		opts[i] = resource.WithInitialRecord(child.Name, child)
 	}
diff --git a/pkg/trait/parentpb/model_server.go b/pkg/trait/parentpb/model_server.go
index 01ed61c..3778d45 100644
--- a/pkg/trait/parentpb/model_server.go
+++ b/pkg/trait/parentpb/model_server.go
@@ -85,6 +85,7 @@ func (s *ModelServer) ListChildren(_ context.Context, request *traits.ListChildr
 
 func (s *ModelServer) PullChildren(request *traits.PullChildrenRequest, server traits.ParentApi_PullChildrenServer) error {
 	for change := range s.model.PullChildren(server.Context(), resource.WithReadMask(request.ReadMask), resource.WithUpdatesOnly(request.UpdatesOnly)) {
+		change.Name = request.Name
 		err := server.Send(&traits.PullChildrenResponse{Changes: []*traits.PullChildrenResponse_Change{change}})
 		if err != nil {
 			return err
-- 
2.43.0


From 5777d8d2114bd7e49cde70b5f314359eb77b9bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 20/33] fix: trait models don't change stored messages or share
 messages with callers

Merging metadata changed the stored traits in place, the enter leave seed value was stripped in the store,
and light presets were shared with the message given to UpdateBrightness.
---
 pkg/trait/enterleavesensorpb/model.go | 1 +
 pkg/trait/lightpb/model.go            | 3 +++
 pkg/trait/metadatapb/model.go         | 4 ++--
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/enterleavesensorpb/model.go b/pkg/trait/enterleavesensorpb/model.go
index a315b9e..8611c8b 100644
--- a/pkg/trait/enterleavesensorpb/model.go
+++ b/pkg/trait/enterleavesensorpb/model.go
@@ -71,6 +71,7 @@ func (m *Model) PullEnterLeaveEvents(ctx context.Context, opts ...resource.ReadO
 			val := change.Value.(*traits.EnterLeaveEvent)
 			if change.LastSeedValue {
 				// when sending the initial data (not an update), the occupant and direction should be absent.
+				val = proto.Clone(val).(*traits.EnterLeaveEvent) // don't change the stored event
 				val.Occupant = nil
 				val.Direction = traits.EnterLeaveEvent_DIRECTION_UNSPECIFIED
 			}
diff --git a/pkg/trait/lightpb/model.go b/pkg/trait/lightpb/model.go
index ff0b583..ddb220f 100644
--- a/pkg/trait/lightpb/model.go
+++ b/pkg/trait/lightpb/model.go
@@ -4,6 +4,8 @@ import (
 	"context"
 	"time"
 
+	"google.golang.org/protobuf/proto"
+
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
@@ -26,6 +28,7 @@ func (m *Model) GetBrightness(opts ...resource.ReadOption) (*traits.Brightness,
 }
 
 func (m *Model) UpdateBrightness(light *traits.Brightness, opts ...resource.WriteOption) (*traits.Brightness, error) {
+	light = proto.Clone(light).(*traits.Brightness) // light belongs to the caller
 	if m.setLevelFromPreset(light) {
 		opts = append(opts, resource.WithMoreUpdatePaths("level_percent"))
 	}
diff --git a/pkg/trait/metadatapb/model.go b/pkg/trait/metadatapb/model.go
index 89d0dd4..ef5e0e4 100644
--- a/pkg/trait/metadatapb/model.go
+++ b/pkg/trait/metadatapb/model.go
@@ -105,11 +105,11 @@ func metadataMergeInterceptor(old, new proto.Message) {
 	proto.Merge(new, old)   // copy all the original values into new
 	proto.Merge(new, clean) // then copy our updates - excluding Traits - on top
 
-	// finally merge traits
+	// finally merge traits, without changing old which is still in use
 	// The default proto.Merge logic is to append src slices to dst slices.
 	// Instead we want to treat the Traits slice as if it were a map keyed by TraitMetadata.Name,
 	// so we have to do it ourselves.
-	oldVal := old.(*traits.Metadata)
+	oldVal := proto.Clone(old).(*traits.Metadata)
 	newVal := new.(*traits.Metadata)
 	newVal.Traits = oldVal.Traits
 	for _, trait := range cleanTraits {
-- 
2.43.0


From 8d2135481570470f3c547d6950928fb4b62a8230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 21/33] fix: memory devices reject invalid updates without
 panicking, subscriptions honour the request

Count changes had no change time, enter leave subscriptions ignored updates_only,
collected metadata ignored the read mask, and the emergency level change time wasn't updated with the level.
---
 pkg/trait/airtemperaturepb/memory.go         |  5 ++++-
 pkg/trait/countpb/memory.go                  | 15 +++++++++++----
 pkg/trait/emergencypb/memory.go              |  9 ++++++---
 pkg/trait/enterleavesensorpb/model_server.go |  2 +-
 pkg/trait/lightpb/memory.go                  |  5 ++++-
 pkg/trait/metadatapb/collection_server.go    |  2 +-
 6 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/pkg/trait/airtemperaturepb/memory.go b/pkg/trait/airtemperaturepb/memory.go
index 86a79ca..164f19c 100644
--- a/pkg/trait/airtemperaturepb/memory.go
+++ b/pkg/trait/airtemperaturepb/memory.go
@@ -50,7 +50,10 @@ func (t *MemoryDevice) GetAirTemperature(_ context.Context, req *traits.GetAirTe
 
 func (t *MemoryDevice) UpdateAirTemperature(_ context.Context, request *traits.UpdateAirTemperatureRequest) (*traits.AirTemperature, error) {
 	update, err := t.airTemperature.Set(request.State, resource.WithUpdateMask(request.UpdateMask))
-	return update.(*traits.AirTemperature), err
+	if err != nil {
+		return nil, err
+	}
+	return update.(*traits.AirTemperature), nil
 }
 
 func (t *MemoryDevice) PullAirTemperature(request *traits.PullAirTemperatureRequest, server traits.AirTemperatureApi_PullAirTemperatureServer) error {
diff --git a/pkg/trait/countpb/memory.go b/pkg/trait/countpb/memory.go
index d5eba4d..25b1678 100644
--- a/pkg/trait/countpb/memory.go
+++ b/pkg/trait/countpb/memory.go
@@ -44,7 +44,10 @@ func (t *MemoryDevice) ResetCount(_ context.Context, request *traits.ResetCountR
 		rt = timestamppb.Now()
 	}
 	res, err := t.count.Set(&traits.Count{Added: 0, Removed: 0, ResetTime: rt}, resource.WithAllFieldsWritable())
-	return res.(*traits.Count), err
+	if err != nil {
+		return nil, err
+	}
+	return res.(*traits.Count), nil
 }
 
 func (t *MemoryDevice) UpdateCount(_ context.Context, request *traits.UpdateCountRequest) (*traits.Count, error) {
@@ -56,14 +59,18 @@ func (t *MemoryDevice) UpdateCount(_ context.Context, request *traits.UpdateCoun
 			tValue.Removed += tOld.Removed
 		}
 	}))
-	return res.(*traits.Count), err
+	if err != nil {
+		return nil, err
+	}
+	return res.(*traits.Count), nil
 }
 
 func (t *MemoryDevice) PullCounts(request *traits.PullCountsRequest, server traits.CountApi_PullCountsServer) error {
 	for event := range t.count.Pull(server.Context(), resource.WithReadMask(request.ReadMask), resource.WithUpdatesOnly(request.UpdatesOnly)) {
 		change := &traits.PullCountsResponse_Change{
-			Name:  request.Name,
-			Count: event.Value.(*traits.Count),
+			Name:       request.Name,
+			Count:      event.Value.(*traits.Count),
+			ChangeTime: timestamppb.New(event.ChangeTime),
 		}
 		err := server.Send(&traits.PullCountsResponse{
 			Changes: []*traits.PullCountsResponse_Change{change},
diff --git a/pkg/trait/emergencypb/memory.go b/pkg/trait/emergencypb/memory.go
index 44371df..0da01f5 100644
--- a/pkg/trait/emergencypb/memory.go
+++ b/pkg/trait/emergencypb/memory.go
@@ -41,13 +41,16 @@ func (t *MemoryDevice) GetEmergency(_ context.Context, req *traits.GetEmergencyR
 
 func (t *MemoryDevice) UpdateEmergency(_ context.Context, request *traits.UpdateEmergencyRequest) (*traits.Emergency, error) {
 	update, err := t.state.Set(request.Emergency, resource.WithUpdateMask(request.UpdateMask), resource.InterceptAfter(func(old, new proto.Message) {
-		// user server time if the level changed but the change time didn't
+		// use server time if the level changed but the change time is absent or didn't
 		oldt, newt := old.(*traits.Emergency), new.(*traits.Emergency)
-		if newt.Level != oldt.Level && oldt.LevelChangeTime == newt.LevelChangeTime {
+		if newt.Level != oldt.Level && (newt.LevelChangeTime == nil || proto.Equal(oldt.LevelChangeTime, newt.LevelChangeTime)) {
 			newt.LevelChangeTime = serverTimestamp()
 		}
 	}))
-	return update.(*traits.Emergency), err
+	if err != nil {
+		return nil, err
+	}
+	return update.(*traits.Emergency), nil
 }
 
 func (t *MemoryDevice) PullEmergency(request *traits.PullEmergencyRequest, server traits.EmergencyApi_PullEmergencyServer) error {
diff --git a/pkg/trait/enterleavesensorpb/model_server.go b/pkg/trait/enterleavesensorpb/model_server.go
index 65efbdd..a85b7fe 100644
--- a/pkg/trait/enterleavesensorpb/model_server.go
+++ b/pkg/trait/enterleavesensorpb/model_server.go
@@ -37,7 +37,7 @@ func (m *ModelServer) ResetEnterLeaveTotals(ctx context.Context, request *traits
 }
 
 func (m *ModelServer) PullEnterLeaveEvents(request *traits.PullEnterLeaveEventsRequest, server traits.EnterLeaveSensorApi_PullEnterLeaveEventsServer) error {
-	for change := range m.model.PullEnterLeaveEvents(server.Context(), resource.WithReadMask(request.ReadMask)) {
+	for change := range m.model.PullEnterLeaveEvents(server.Context(), resource.WithReadMask(request.ReadMask), resource.WithUpdatesOnly(request.UpdatesOnly)) {
 		err := server.Send(&traits.PullEnterLeaveEventsResponse{Changes: []*traits.PullEnterLeaveEventsResponse_Change{
 			{Name: request.Name, ChangeTime: timestamppb.New(change.ChangeTime), EnterLeaveEvent: change.Value},
 		}})
diff --git a/pkg/trait/lightpb/memory.go b/pkg/trait/lightpb/memory.go
index 6a9f89e..01d344f 100644
--- a/pkg/trait/lightpb/memory.go
+++ b/pkg/trait/lightpb/memory.go
@@ -48,7 +48,10 @@ func (s *MemoryDevice) GetBrightness(_ context.Context, req *traits.GetBrightnes
 func (s *MemoryDevice) UpdateBrightness(ctx context.Context, request *traits.UpdateBrightnessRequest) (*traits.Brightness, error) {
 	if request.GetBrightness().GetPreset() != nil {
 		res, err := s.brightness.Set(request.GetBrightness())
-		return res.(*traits.Brightness), err
+		if err != nil {
+			return nil, err
+		}
+		return res.(*traits.Brightness), nil
 	}
 
 	if err := resource.ValidateTweenOnUpdate("brightness", request.GetBrightness().GetBrightnessTween()); err != nil {
diff --git a/pkg/trait/metadatapb/collection_server.go b/pkg/trait/metadatapb/collection_server.go
index 2de90da..631f331 100644
--- a/pkg/trait/metadatapb/collection_server.go
+++ b/pkg/trait/metadatapb/collection_server.go
@@ -22,7 +22,7 @@ func (s *CollectionServer) Unwrap() any {
 }
 
 func (s *CollectionServer) GetMetadata(_ context.Context, request *traits.GetMetadataRequest) (*traits.Metadata, error) {
-	return s.model.GetMetadata(request.Name)
+	return s.model.GetMetadata(request.Name, resource.WithReadMask(request.ReadMask))
 }
 
 func (s *CollectionServer) PullMetadata(request *traits.PullMetadataRequest, server traits.MetadataApi_PullMetadataServer) error {
-- 
2.43.0


From 3112febc65a2f53b7d81331c1d6232f82fbea503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 22/33] fix: electric models allow one normal mode, delete
 absent modes, and don't share random sources

---
 pkg/trait/electricpb/memory_settings.go |  6 ++++-
 pkg/trait/electricpb/model.go           | 30 ++++++++++++++++---------
 pkg/trait/electricpb/model_opts.go      |  5 ++++-
 3 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/pkg/trait/electricpb/memory_settings.go b/pkg/trait/electricpb/memory_settings.go
index a3436db..620e725 100644
--- a/pkg/trait/electricpb/memory_settings.go
+++ b/pkg/trait/electricpb/memory_settings.go
@@ -23,7 +23,11 @@ func (s *ModelServer) CreateMode(_ context.Context, request *CreateModeRequest)
 		return nil, status.Errorf(codes.InvalidArgument, "id '%v' should be empty", request.GetMode().GetId())
 	}
 
-	return s.model.CreateMode(request.Mode)
+	mode := request.GetMode()
+	if mode == nil {
+		mode = &traits.ElectricMode{}
+	}
+	return s.model.CreateMode(mode)
 }
 
 func (s *ModelServer) UpdateMode(_ context.Context, request *UpdateModeRequest) (*traits.ElectricMode, error) {
diff --git a/pkg/trait/electricpb/model.go b/pkg/trait/electricpb/model.go
index 0488ccc..57e0212 100644
--- a/pkg/trait/electricpb/model.go
+++ b/pkg/trait/electricpb/model.go
@@ -3,6 +3,7 @@ package electricpb
 import (
 	"context"
 	"math/rand"
+	"slices"
 	"sync"
 	"time"
 
@@ -283,7 +284,7 @@ func (m *Model) createOrAddMode(mode *traits.ElectricMode) (*traits.ElectricMode
 }
 
 // DeleteMode will remove the mode with the given Id from the device.
-// If the mode does not exist, then ErrModeNotFound is returned.
+// If the mode does not exist, then ErrModeNotFound is returned unless resource.WithAllowMissing is set.
 // If the mode specified is the active mode, then ErrDeleteActiveMode is returned and the mode is not deleted.
 // Otherwise, the operation succeeded and nil is returned.
 func (m *Model) DeleteMode(id string, opts ...resource.WriteOption) error {
@@ -293,25 +294,23 @@ func (m *Model) DeleteMode(id string, opts ...resource.WriteOption) error {
 }
 
 func (m *Model) deleteMode(id string, opts ...resource.WriteOption) error {
-	active := m.activeMode.Get().(*traits.ElectricMode)
-	if id == active.Id {
+	mode, exists := m.findMode(id)
+	active, activeExists := m.findMode(m.activeMode.Get().(*traits.ElectricMode).Id)
+	if exists && activeExists && mode.Id == active.Id {
 		return ErrDeleteActiveMode
 	}
 
-	msg, err := m.modes.Delete(id, opts...)
-	if err != nil {
-		return err
-	}
-	if msg == nil {
+	_, err := m.modes.Delete(id, opts...)
+	if !exists && status.Code(err) == codes.NotFound {
 		return ErrModeNotFound
 	}
-
-	return nil
+	return err
 }
 
 // UpdateMode will modify one of the modes stored in this device.
 // The mode to be modified is specified by mode.Id, which must be set.
 // Fields to be modified can be selected using mask - to modify all fields, pass a nil mask.
+// If this would make the mode normal, and the device already has another normal mode, then ErrNormalModeExists will result.
 func (m *Model) UpdateMode(mode *traits.ElectricMode, opts ...resource.WriteOption) (*traits.ElectricMode, error) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
@@ -319,6 +318,17 @@ func (m *Model) UpdateMode(mode *traits.ElectricMode, opts ...resource.WriteOpti
 }
 
 func (m *Model) updateMode(mode *traits.ElectricMode, opts ...resource.WriteOption) (*traits.ElectricMode, error) {
+	// if this mode is becoming normal, check that there isn't another normal mode
+	if mode.Normal {
+		mask := resource.ComputeWriteConfig(opts...).UpdateMask
+		if mask == nil || slices.Contains(mask.Paths, "normal") {
+			existing, _ := m.findMode(mode.Id)
+			if normal, ok := m.normalMode(); ok && normal.Id != existing.GetId() {
+				return nil, ErrNormalModeExists
+			}
+		}
+	}
+
 	msg, err := m.modes.Update(mode.Id, mode, opts...)
 	if err != nil {
 		return nil, err
diff --git a/pkg/trait/electricpb/model_opts.go b/pkg/trait/electricpb/model_opts.go
index b102855..98662c9 100644
--- a/pkg/trait/electricpb/model_opts.go
+++ b/pkg/trait/electricpb/model_opts.go
@@ -22,7 +22,10 @@ var DefaultModelOptions = []resource.Option{
 	WithActiveModeOption(resource.WithNoDuplicates()),
 	WithModeOption(resource.WithNoDuplicates()),
 	WithClock(clock.Real()),
-	WithRNG(rand.New(rand.NewSource(rand.Int63()))),
+	// each model gets its own rng, they are not safe to share between models
+	modelOptionFunc(func(args *modelArgs) {
+		WithRNG(rand.New(rand.NewSource(rand.Int63()))).(ModelOption).applyModel(args)
+	}),
 }
 var defaultInitialVoltage float32 = 240
 
-- 
2.43.0


From c4bcefcd2f892cec680a4e71d832b2926e8dc978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 23/33] fix: open close masks, presets and empty models behave
 as documented, reads don't change stored positions

---
 pkg/masks/util.go                   | 15 ++++---
 pkg/trait/openclosepb/model.go      | 65 ++++++++++++++++++++---------
 pkg/trait/openclosepb/model_opts.go | 10 +++++
 3 files changed, 63 insertions(+), 27 deletions(-)

diff --git a/pkg/masks/util.go b/pkg/masks/util.go
index a69339c..9deeb5d 100644
--- a/pkg/masks/util.go
+++ b/pkg/masks/util.go
@@ -8,6 +8,9 @@ import (
 	"google.golang.org/protobuf/types/known/fieldmaskpb"
 )
 
+// RemovePrefix returns a mask for the messages found in the prefix field of messages mask applies to.
+// Paths that aren't in that field are removed.
+// If mask is nil, or includes the prefix field as a whole, then nil is returned.
 func RemovePrefix(prefix string, mask *fieldmaskpb.FieldMask) *fieldmaskpb.FieldMask {
 	if mask == nil {
 		return nil
@@ -16,22 +19,18 @@ func RemovePrefix(prefix string, mask *fieldmaskpb.FieldMask) *fieldmaskpb.Field
 	for _, path := range mask.Paths {
 		switch {
 		case path == prefix:
-			continue // skip this one
+			return nil // everything below prefix is included
 		case strings.HasPrefix(path, prefix+"."):
-			path = path[7:]
+			path = path[len(prefix)+1:]
 			switch {
 			case path == "*":
-				continue
+				return nil
 			case strings.HasPrefix(path, "*."):
 				path = path[2:]
 			}
-			out.Paths = append(mask.Paths, path)
+			out.Paths = append(out.Paths, path)
 		}
 	}
-
-	if len(mask.Paths) == 0 {
-		return nil
-	}
 	return out
 }
 
diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index a32bc5a..acf3837 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -4,12 +4,14 @@ import (
 	"context"
 	"fmt"
 	"slices"
+	"strings"
 	"time"
 
 	"golang.org/x/exp/maps"
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
+	"google.golang.org/protobuf/types/known/fieldmaskpb"
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-golang/pkg/cmp"
@@ -39,6 +41,9 @@ type preset struct {
 }
 
 func (m *Model) GetPositions(opts ...resource.ReadOption) (*traits.OpenClosePositions, error) {
+	readRequest := resource.ComputeReadConfig(opts...)
+	// the read mask applies to the response, not each position
+	opts = append(append([]resource.ReadOption{}, opts...), resource.WithReadMask(nil))
 	allPositions := m.positions.List(opts...) // already sorted by ID aka Direction ordinal
 	dst := &traits.OpenClosePositions{
 		States: make([]*traits.OpenClosePosition, len(allPositions)),
@@ -52,7 +57,7 @@ func (m *Model) GetPositions(opts ...resource.ReadOption) (*traits.OpenClosePosi
 		dst.Preset = preset
 	}
 
-	return dst, nil
+	return readRequest.FilterClone(dst).(*traits.OpenClosePositions), nil
 }
 
 func (m *Model) GetPosition(dir traits.OpenClosePosition_Direction, opts ...resource.ReadOption) (*traits.OpenClosePosition, error) {
@@ -64,23 +69,25 @@ func (m *Model) GetPosition(dir traits.OpenClosePosition_Direction, opts ...reso
 }
 
 func (m *Model) UpdatePositions(positions *traits.OpenClosePositions, opts ...resource.WriteOption) (*traits.OpenClosePositions, error) {
+	mask := resource.ComputeWriteConfig(opts...).UpdateMask
+	states, statesMask := positions.GetStates(), masks.RemovePrefix("states", mask)
+	if mask != nil && !mentions(mask, "states") {
+		states = nil
+	}
+
 	// preset handling
-	if positions.Preset != nil {
+	if positions.GetPreset() != nil && (mask == nil || mentions(mask, "preset")) {
 		preset, presetPositions := m.presetForName(positions.Preset.Name)
 		if preset == nil {
 			return nil, status.Errorf(codes.InvalidArgument, "preset %q not found", positions.Preset.Name)
 		}
-		positions.States = presetPositions
+		states, statesMask = presetPositions, nil // activating a preset sets all of each position
 	}
 
-	writeRequest := resource.ComputeWriteConfig(opts...)
 	opts = append([]resource.WriteOption{}, opts...)
-	if writeRequest.UpdateMask != nil {
-		opts = append(opts, resource.WithUpdateMask(masks.RemovePrefix("states", writeRequest.UpdateMask)))
-	}
-	opts = append(opts, resource.WithCreateIfAbsent())
+	opts = append(opts, resource.WithUpdateMask(statesMask), resource.WithCreateIfAbsent())
 
-	for _, state := range positions.States {
+	for _, state := range states {
 		_, err := m.positions.Update(directionToID(state.Direction), state, opts...)
 		if err != nil {
 			return nil, err
@@ -108,12 +115,25 @@ func (m *Model) PullPositions(ctx context.Context, ops ...resource.ReadOption) <
 	eq := cmp.Equal()
 
 	send := make(chan PullOpenClosePositionsChange)
-	recv := m.positions.Pull(ctx)
+	// we need all the positions, in full, to work out what to send
+	ops = append(append([]resource.ReadOption{}, ops...), resource.WithReadMask(nil), resource.WithUpdatesOnly(false))
+	recv := m.positions.Pull(ctx, ops...)
+	empty := len(m.positions.List(ops...)) == 0 // there are no seed values when there are no positions
 	go func() {
 		defer close(send)
 		all := make(map[string]*traits.OpenClosePosition, 1)
 		seenAll := false
-		var last *traits.OpenClosePositions
+		last := responseFilter.FilterClone(&traits.OpenClosePositions{}).(*traits.OpenClosePositions)
+		lastSent := readRequest.UpdatesOnly // whether the reader knows about last
+
+		if empty && !readRequest.UpdatesOnly {
+			lastSent = true
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullOpenClosePositionsChange{Positions: last, ChangeTime: time.Now()}:
+			}
+		}
 
 		for change := range recv {
 			if change.NewValue == nil {
@@ -122,11 +142,8 @@ func (m *Model) PullPositions(ctx context.Context, ops ...resource.ReadOption) <
 				all[change.Id] = change.NewValue.(*traits.OpenClosePosition)
 			}
 
-			shouldSend := seenAll || (change.LastSeedValue && !readRequest.UpdatesOnly)
-			if change.LastSeedValue {
-				seenAll = true
-			}
-			if !shouldSend {
+			seenAll = seenAll || !change.SeedValue || change.LastSeedValue
+			if !seenAll {
 				continue
 			}
 
@@ -139,11 +156,14 @@ func (m *Model) PullPositions(ctx context.Context, ops ...resource.ReadOption) <
 			positions.Preset, _ = m.presetForValue(positions.States)
 
 			// projection and filtering
-			responseFilter.Filter(positions)
-			if eq(last, positions) {
+			positions = responseFilter.FilterClone(positions).(*traits.OpenClosePositions)
+			if lastSent && eq(last, positions) {
+				continue
+			}
+			last, lastSent = positions, true
+			if change.SeedValue && readRequest.UpdatesOnly {
 				continue
 			}
-			last = positions
 
 			// do the send
 			select {
@@ -195,6 +215,13 @@ func (m *Model) presetForValue(value []*traits.OpenClosePosition) (*traits.OpenC
 	return nil, nil
 }
 
+// mentions returns whether mask includes field, or any part of it.
+func mentions(mask *fieldmaskpb.FieldMask, field string) bool {
+	return slices.ContainsFunc(mask.GetPaths(), func(path string) bool {
+		return path == field || strings.HasPrefix(path, field+".")
+	})
+}
+
 func directionToID(direction traits.OpenClosePosition_Direction) string {
 	// if the number of directions ever exceeds 99 we need to change this
 	return fmt.Sprintf("%02d", direction)
diff --git a/pkg/trait/openclosepb/model_opts.go b/pkg/trait/openclosepb/model_opts.go
index a4dcd89..462ca52 100644
--- a/pkg/trait/openclosepb/model_opts.go
+++ b/pkg/trait/openclosepb/model_opts.go
@@ -1,6 +1,10 @@
 package openclosepb
 
 import (
+	"slices"
+
+	"google.golang.org/protobuf/proto"
+
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
@@ -30,6 +34,12 @@ func WithInitialPositions(positions ...*traits.OpenClosePosition) resource.Optio
 // WithPreset returns an option that configures the model with the given preset.
 // This option does not apply to any resource.
 func WithPreset(desc *traits.OpenClosePositions_Preset, positions ...*traits.OpenClosePosition) resource.Option {
+	// the messages belong to the caller, who might change them
+	desc = proto.Clone(desc).(*traits.OpenClosePositions_Preset)
+	positions = slices.Clone(positions)
+	for i, position := range positions {
+		positions[i] = proto.Clone(position).(*traits.OpenClosePosition)
+	}
 	sortPositions(positions)
 	return modelOptionFunc(func(args *modelArgs) {
 		args.presets = append(args.presets, preset{desc: desc, positions: positions})
-- 
2.43.0


From ba6b25e1f0334fb057a070701645135a0ccb58b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 24/33] fix: waste records are copied, masked and named as
 requested, slow streams don't block the model

---
 pkg/trait/wastepb/model.go        | 51 ++++++++++++++++++++-----------
 pkg/trait/wastepb/model_server.go |  5 +++
 2 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/pkg/trait/wastepb/model.go b/pkg/trait/wastepb/model.go
index 55eb980..de0feec 100644
--- a/pkg/trait/wastepb/model.go
+++ b/pkg/trait/wastepb/model.go
@@ -25,6 +25,7 @@ var systems = [3]string{"System 1", "System 2", "System 3"}
 var streams = [3]string{"Stream 1", "Stream 2", "Stream 3"}
 
 type Model struct {
+	addMu           sync.Mutex // held while adding a record, so that allWasteRecords and lastWasteRecord agree
 	mu              sync.Mutex // guards allWasteRecords and genId
 	allWasteRecords []*traits.WasteRecord
 	genId           int
@@ -51,13 +52,16 @@ func NewModel(opts ...resource.Option) *Model {
 
 // AddWasteRecord manually adds a waste record to the model
 func (m *Model) AddWasteRecord(wr *traits.WasteRecord, opts ...resource.WriteOption) (*traits.WasteRecord, error) {
+	m.addMu.Lock()
+	defer m.addMu.Unlock()
 	v, err := m.lastWasteRecord.Set(wr, opts...)
 	if err != nil {
 		return nil, err
 	}
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	m.allWasteRecords = append(m.allWasteRecords, wr)
+	// v, unlike wr, isn't going to be changed by the caller
+	m.allWasteRecords = append(m.allWasteRecords, v.(*traits.WasteRecord))
 	return v.(*traits.WasteRecord), nil
 }
 
@@ -100,27 +104,35 @@ func (m *Model) ListWasteRecords(start, count int) []*traits.WasteRecord {
 }
 
 func (m *Model) pullWasteRecordsWrapper(request *traits.PullWasteRecordsRequest, server traits.WasteApi_PullWasteRecordsServer) error {
+	ctx, cancel := context.WithCancel(server.Context())
+	defer cancel()
+	readMask := resource.WithReadMask(request.ReadMask)
+
+	// no records are added between reading the history and subscribing to changes
+	m.addMu.Lock()
+	var history []*traits.WasteRecord
 	if !request.UpdatesOnly {
 		m.mu.Lock()
-		i := len(m.allWasteRecords) - 50
-		if i < 0 {
-			i = 0
+		history = m.allWasteRecords[max(len(m.allWasteRecords)-50, 0):]
+		m.mu.Unlock()
+	}
+	changes := m.PullWasteRecords(ctx, readMask, resource.WithUpdatesOnly(true))
+	m.addMu.Unlock()
+
+	filter := resource.ComputeReadConfig(readMask)
+	for _, wr := range history {
+		change := &traits.PullWasteRecordsResponse_Change{
+			Name:       request.Name,
+			NewValue:   filter.FilterClone(wr).(*traits.WasteRecord),
+			ChangeTime: wr.WasteCreateTime,
+			Type:       types.ChangeType_ADD,
 		}
-		for ; i < len(m.allWasteRecords)-1; i++ {
-			change := &traits.PullWasteRecordsResponse_Change{
-				Name:       request.Name,
-				NewValue:   m.allWasteRecords[i],
-				ChangeTime: m.allWasteRecords[i].WasteCreateTime,
-				Type:       types.ChangeType_ADD,
-			}
-			if err := server.Send(&traits.PullWasteRecordsResponse{Changes: []*traits.PullWasteRecordsResponse_Change{change}}); err != nil {
-				m.mu.Unlock()
-				return err
-			}
+		if err := server.Send(&traits.PullWasteRecordsResponse{Changes: []*traits.PullWasteRecordsResponse_Change{change}}); err != nil {
+			return err
 		}
-		m.mu.Unlock()
 	}
-	for change := range m.PullWasteRecords(server.Context(), resource.WithReadMask(request.ReadMask), resource.WithUpdatesOnly(request.UpdatesOnly)) {
+	for change := range changes {
+		change.Name = request.Name
 		msg := &traits.PullWasteRecordsResponse{}
 		msg.Changes = append(msg.Changes, change)
 		if err := server.Send(msg); err != nil {
@@ -132,6 +144,9 @@ func (m *Model) pullWasteRecordsWrapper(request *traits.PullWasteRecordsRequest,
 
 func (m *Model) PullWasteRecords(ctx context.Context, opts ...resource.ReadOption) <-chan *traits.PullWasteRecordsResponse_Change {
 	send := make(chan *traits.PullWasteRecordsResponse_Change)
+	filter := resource.ComputeReadConfig(opts...)
+	// the mask is applied to the records we send, we need them in full for the change time
+	opts = append(append([]resource.ReadOption{}, opts...), resource.WithReadMask(nil))
 	recv := m.lastWasteRecord.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
@@ -139,7 +154,7 @@ func (m *Model) PullWasteRecords(ctx context.Context, opts ...resource.ReadOptio
 			wr := change.Value.(*traits.WasteRecord)
 			change := &traits.PullWasteRecordsResponse_Change{
 				Name:       "Waste Record",
-				NewValue:   wr, // the mock driver only generates new waste records and does not delete them
+				NewValue:   filter.FilterClone(wr).(*traits.WasteRecord), // the mock driver only generates new waste records and does not delete them
 				ChangeTime: wr.WasteCreateTime,
 				Type:       types.ChangeType_ADD,
 			}
diff --git a/pkg/trait/wastepb/model_server.go b/pkg/trait/wastepb/model_server.go
index ca0d026..f560444 100644
--- a/pkg/trait/wastepb/model_server.go
+++ b/pkg/trait/wastepb/model_server.go
@@ -9,6 +9,7 @@ import (
 	"google.golang.org/grpc/status"
 
 	"github.com/smart-core-os/sc-api/go/traits"
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 )
 
 type ModelServer struct {
@@ -54,6 +55,10 @@ func (m *ModelServer) ListWasteRecords(ctx context.Context, req *traits.ListWast
 
 	resp := &traits.ListWasteRecordsResponse{}
 	resp.WasteRecords = m.model.ListWasteRecords(startIndex, int(count))
+	mask := masks.NewResponseFilter(masks.WithFieldMask(req.ReadMask))
+	for i, item := range resp.WasteRecords {
+		resp.WasteRecords[i] = mask.FilterClone(item).(*traits.WasteRecord)
+	}
 
 	if int(count) == len(resp.WasteRecords) {
 		npt := startIndex - int(count)
-- 
2.43.0


From 1cb0b48ed288a710713c91910208df9fe6a46b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 25/33] fix: vending reports conversion errors, keeps units,
 and uses configured consumables

---
 pkg/trait/vendingpb/model.go        | 8 ++++----
 pkg/trait/vendingpb/model_opts.go   | 2 +-
 pkg/trait/vendingpb/model_server.go | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/trait/vendingpb/model.go b/pkg/trait/vendingpb/model.go
index ae5074d..edc5396 100644
--- a/pkg/trait/vendingpb/model.go
+++ b/pkg/trait/vendingpb/model.go
@@ -241,21 +241,21 @@ func (m *Model) DispenseInstantly(consumable string, quantity *traits.Consumable
 		return nil, err
 	}
 	if maskedErr != nil {
-		return nil, err
+		return nil, maskedErr
 	}
 	return stock, nil
 }
 
 func updateStock(quantity *traits.Consumable_Quantity, src, dst *traits.Consumable_Stock) error {
 	if src.Used != nil {
-		delta, err := unitpb.Convert32(quantity.Amount, quantity.Unit, src.Used.Unit)
+		delta, err := unitpb.Convert32(quantity.GetAmount(), quantity.GetUnit(), src.Used.Unit)
 		if err != nil {
 			return err
 		}
 		dst.Used = &traits.Consumable_Quantity{Unit: src.Used.Unit, Amount: src.Used.Amount + delta}
 	}
 	if src.Remaining != nil {
-		delta, err := unitpb.Convert32(quantity.Amount, quantity.Unit, src.Remaining.Unit)
+		delta, err := unitpb.Convert32(quantity.GetAmount(), quantity.GetUnit(), src.Remaining.Unit)
 		if err != nil {
 			return err
 		}
@@ -263,7 +263,7 @@ func updateStock(quantity *traits.Consumable_Quantity, src, dst *traits.Consumab
 		if amount < 0 {
 			amount = 0
 		}
-		dst.Remaining = &traits.Consumable_Quantity{Unit: src.Used.Unit, Amount: amount}
+		dst.Remaining = &traits.Consumable_Quantity{Unit: src.Remaining.Unit, Amount: amount}
 	}
 	return nil
 }
diff --git a/pkg/trait/vendingpb/model_opts.go b/pkg/trait/vendingpb/model_opts.go
index f579abc..d1f1421 100644
--- a/pkg/trait/vendingpb/model_opts.go
+++ b/pkg/trait/vendingpb/model_opts.go
@@ -41,7 +41,7 @@ func WithInitialStock(inventory ...*traits.Consumable_Stock) resource.Option {
 // WithConsumablesOption configures the consumables resource of the model.
 func WithConsumablesOption(opts ...resource.Option) resource.Option {
 	return modelOptionFunc(func(args *modelArgs) {
-		args.inventoryOptions = append(args.inventoryOptions, opts...)
+		args.consumableOptions = append(args.consumableOptions, opts...)
 	})
 }
 
diff --git a/pkg/trait/vendingpb/model_server.go b/pkg/trait/vendingpb/model_server.go
index d8e4760..f23248a 100644
--- a/pkg/trait/vendingpb/model_server.go
+++ b/pkg/trait/vendingpb/model_server.go
@@ -189,5 +189,5 @@ func (m *ModelServer) Dispense(_ context.Context, request *traits.DispenseReques
 
 func (m *ModelServer) StopDispense(ctx context.Context, request *traits.StopDispenseRequest) (*traits.Consumable_Stock, error) {
 	// always succeeds, we always dispense immediately
-	return m.GetStock(ctx, &traits.GetStockRequest{Consumable: request.Name})
+	return m.GetStock(ctx, &traits.GetStockRequest{Consumable: request.Consumable})
 }
-- 
2.43.0


From 998fd4a45651d5603cddfc9b958660b86d3572a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 26/33] fix: meters keep their configured reading and start
 time

---
 pkg/trait/meterpb/model.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pkg/trait/meterpb/model.go b/pkg/trait/meterpb/model.go
index 220e3a3..6b29cdc 100644
--- a/pkg/trait/meterpb/model.go
+++ b/pkg/trait/meterpb/model.go
@@ -20,14 +20,20 @@ func NewModel(opts ...resource.Option) *Model {
 	value := resource.NewValue(append(defaultOptions, opts...)...)
 	// make sure start and end time are recorded
 	_, _ = value.Set(&traits.MeterReading{}, resource.InterceptBefore(func(old, new proto.Message) {
-		oldVal := old.(*traits.MeterReading)
 		newVal := new.(*traits.MeterReading)
-		now := value.Clock().Now()
-		if oldVal.StartTime == nil {
-			newVal.StartTime = timestamppb.New(now)
+		proto.Merge(newVal, old) // keep the configured reading
+		now := timestamppb.New(value.Clock().Now())
+		if newVal.StartTime == nil {
+			newVal.StartTime = now
+			if end := newVal.EndTime; end != nil && end.AsTime().Before(now.AsTime()) {
+				newVal.StartTime = end // the reading can't end before it starts
+			}
 		}
 		if newVal.EndTime == nil {
-			newVal.EndTime = timestamppb.New(now)
+			newVal.EndTime = now
+			if start := newVal.StartTime; start.AsTime().After(now.AsTime()) {
+				newVal.EndTime = start
+			}
 		}
 	}))
 	return &Model{
@@ -49,9 +55,11 @@ func (m *Model) UpdateMeterReading(meterReading *traits.MeterReading, opts ...re
 
 // RecordReading records a new usage value, updating end time to now.
 func (m *Model) RecordReading(val float32) (*traits.MeterReading, error) {
-	return m.UpdateMeterReading(&traits.MeterReading{Usage: val}, resource.InterceptBefore(func(old, new proto.Message) {
+	return m.UpdateMeterReading(&traits.MeterReading{}, resource.InterceptBefore(func(old, new proto.Message) {
 		now := m.meterReading.Clock().Now()
 		newVal := new.(*traits.MeterReading)
+		proto.Merge(newVal, old) // the start time doesn't change
+		newVal.Usage = val
 		newVal.EndTime = timestamppb.New(now)
 	}))
 }
-- 
2.43.0


From 66bc2eb13a8934b38abae52cd7e89d6994d7d056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 27/33] fix: mode models use their configured modes, relative
 updates don't affect other modes or overflow

---
 pkg/trait/modepb/model.go        | 10 ++++++++--
 pkg/trait/modepb/model_server.go | 22 ++++++++++++++--------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/pkg/trait/modepb/model.go b/pkg/trait/modepb/model.go
index 33f7038..30ce2e7 100644
--- a/pkg/trait/modepb/model.go
+++ b/pkg/trait/modepb/model.go
@@ -4,6 +4,8 @@ import (
 	"context"
 	"time"
 
+	"google.golang.org/protobuf/proto"
+
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
@@ -40,15 +42,19 @@ func NewModel() *Model {
 // NewModelModes constructs a Model with the given modes.
 // The first value of each mode will be selected.
 func NewModelModes(modes *traits.Modes) *Model {
+	modes = proto.Clone(modes).(*traits.Modes) // the caller is free to change theirs
 	modeValues := &traits.ModeValues{
 		Values: make(map[string]string),
 	}
-	for _, mode := range modes.Modes {
+	for _, mode := range modes.GetModes() {
+		if len(mode.Values) == 0 {
+			continue // there's nothing to select
+		}
 		modeValues.Values[mode.Name] = mode.Values[0].Name
 	}
 
 	model := &Model{
-		modes: DefaultModes,
+		modes: modes,
 		modeValues: resource.NewValue(
 			resource.WithInitialValue(modeValues),
 		),
diff --git a/pkg/trait/modepb/model_server.go b/pkg/trait/modepb/model_server.go
index 4775640..4d785d2 100644
--- a/pkg/trait/modepb/model_server.go
+++ b/pkg/trait/modepb/model_server.go
@@ -39,14 +39,17 @@ func (m *ModelServer) UpdateModeValues(_ context.Context, request *traits.Update
 		resource.WithUpdateMask(request.UpdateMask),
 	}
 	if len(request.GetRelative().GetValues()) > 0 {
-		opts = append(opts, resource.InterceptBefore(m.relativeAdjustment(request.Relative.Values)))
+		adjust := m.relativeAdjustment(request.Relative.Values)
+		opts = append(opts, resource.InterceptBefore(func(old, new proto.Message) {
+			if request.ModeValues == nil {
+				proto.Merge(new, old) // only the modes in the relative update should change
+			}
+			adjust(old, new)
+		}))
 	}
 
-	values := request.ModeValues
-	if values == nil {
-		// in case all updates are relative, we can't set nothing
-		values = &traits.ModeValues{}
-	}
+	values := &traits.ModeValues{} // in case all updates are relative, we can't set nothing
+	proto.Merge(values, request.ModeValues)
 	return m.model.UpdateModeValues(values, opts...)
 }
 
@@ -62,6 +65,9 @@ func (m *ModelServer) relativeAdjustment(relative map[string]int32) resource.Upd
 
 	adjustments:
 		for modeName, adjustment := range relative {
+			if _, absolute := newVal.Values[modeName]; absolute && adjustment == 0 {
+				continue // absolute values win when there's no adjustment to make
+			}
 			oldValue, ok := oldVal.Values[modeName]
 			values := m.model.AvailableValues(modeName)
 			if len(values) == 0 {
@@ -77,9 +83,9 @@ func (m *ModelServer) relativeAdjustment(relative map[string]int32) resource.Upd
 			// find the value index in our supported values, and adjust the value to the new index based on adjustment
 			for i, value := range values {
 				if value.Name == oldValue {
-					newI := (int32(i) + adjustment) % int32(len(values))
+					newI := (int64(i) + int64(adjustment)) % int64(len(values))
 					if newI < 0 {
-						newI = int32(len(values)) + newI
+						newI = int64(len(values)) + newI
 					}
 					newVal.Values[modeName] = values[newI].Name
 					continue adjustments
-- 
2.43.0


From 6b36d3bc21e1dc2ce67484ef6b2f356a81358513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 28/33] fix: fan speed preset, index and percentage stay
 consistent, the direction can be reversed

---
 pkg/trait/fanspeedpb/model.go        | 135 +++++++++++++++++----------
 pkg/trait/fanspeedpb/model_server.go |  21 ++++-
 2 files changed, 105 insertions(+), 51 deletions(-)

diff --git a/pkg/trait/fanspeedpb/model.go b/pkg/trait/fanspeedpb/model.go
index 56b76ce..5867bd6 100644
--- a/pkg/trait/fanspeedpb/model.go
+++ b/pkg/trait/fanspeedpb/model.go
@@ -36,10 +36,24 @@ type Model struct {
 // NewModel constructs a Model with default values using the first of DefaultPresets.
 func NewModel(opts ...resource.Option) *Model {
 	args := calcModelArgs(opts...)
-	return &Model{
+	m := &Model{
 		presets:  args.presets,
 		fanSpeed: resource.NewValue(args.fanSpeedOpts...),
 	}
+	// make sure the initial value agrees with the presets
+	_, _ = m.fanSpeed.Set(&traits.FanSpeed{}, resource.WithAllFieldsWritable(), resource.InterceptBefore(func(old, new proto.Message) {
+		newVal := new.(*traits.FanSpeed)
+		proto.Merge(newVal, old)
+		switch i := m.presetNamed(newVal.Preset); {
+		case i >= 0:
+			m.selectPreset(newVal, i)
+		case newVal.PresetIndex != 0:
+			m.selectPreset(newVal, newVal.PresetIndex)
+		default:
+			m.selectPercentage(newVal)
+		}
+	}))
+	return m
 }
 
 // FanSpeed gets the current fan speed.
@@ -54,11 +68,23 @@ func (m *Model) FanSpeed(opts ...resource.ReadOption) *traits.FanSpeed {
 // Providing a resource.InterceptAfter option will disable related property updating.
 // Using DeriveValues can re-enable related property computation if needed.
 func (m *Model) UpdateFanSpeed(fanSpeed *traits.FanSpeed, opts ...resource.WriteOption) (*traits.FanSpeed, error) {
+	return m.updateFanSpeed(fanSpeed, false, opts...)
+}
+
+// updateFanSpeed updates the fan speed, without an update mask absolute updates only use the speed fields that are present.
+func (m *Model) updateFanSpeed(fanSpeed *traits.FanSpeed, relative bool, opts ...resource.WriteOption) (*traits.FanSpeed, error) {
 	if err := m.validateUpdate(fanSpeed); err != nil {
 		return nil, err
 	}
 
-	opts = append([]resource.WriteOption{resource.InterceptAfter(m.DeriveValues)}, opts...)
+	derive := m.DeriveValues
+	if !relative && resource.ComputeWriteConfig(opts...).UpdateMask == nil {
+		derive = func(old, new proto.Message) {
+			keepAbsent(old.(*traits.FanSpeed), new.(*traits.FanSpeed))
+			m.DeriveValues(old, new)
+		}
+	}
+	opts = append([]resource.WriteOption{resource.InterceptAfter(derive)}, opts...)
 	val, err := m.fanSpeed.Set(fanSpeed, opts...)
 	if val == nil {
 		return nil, err
@@ -67,19 +93,59 @@ func (m *Model) UpdateFanSpeed(fanSpeed *traits.FanSpeed, opts ...resource.Write
 }
 
 func (m *Model) validateUpdate(fanSpeed *traits.FanSpeed) error {
-	if fanSpeed.Preset != "" {
-		var found bool
-		for _, preset := range m.presets {
-			if preset.Name == fanSpeed.Preset {
-				found = true
-				break
-			}
+	if name := fanSpeed.GetPreset(); name != "" && m.presetNamed(name) < 0 {
+		return status.Errorf(codes.InvalidArgument, "unknown preset %v", name)
+	}
+	return nil
+}
+
+// keepAbsent sets those of preset, preset index, and percentage that are absent from newVal to their old values.
+// If they are all absent then the percentage is zero.
+func keepAbsent(oldVal, newVal *traits.FanSpeed) {
+	if newVal.Percentage == 0 && (newVal.Preset != "" || newVal.PresetIndex != 0) {
+		newVal.Percentage = oldVal.Percentage
+	}
+	if newVal.Preset == "" {
+		newVal.Preset = oldVal.Preset
+	}
+	if newVal.PresetIndex == 0 {
+		newVal.PresetIndex = oldVal.PresetIndex
+	}
+}
+
+// presetNamed returns the index of the preset with the given name, or -1.
+func (m *Model) presetNamed(name string) int32 {
+	for i, preset := range m.presets {
+		if preset.Name == name {
+			return int32(i)
 		}
-		if !found {
-			return status.Errorf(codes.InvalidArgument, "unknown preset %v", fanSpeed.Preset)
+	}
+	return -1
+}
+
+// selectPreset sets val to be the preset at the given index, capping the index if needed.
+func (m *Model) selectPreset(val *traits.FanSpeed, index int32) {
+	index = max(min(index, int32(len(m.presets)-1)), 0)
+	if len(m.presets) == 0 {
+		m.selectPercentage(val)
+		return
+	}
+	val.PresetIndex = index
+	val.Preset = m.presets[index].Name
+	val.Percentage = m.presets[index].Percentage
+}
+
+// selectPercentage sets the preset and index of val to those that match its percentage, if there are any.
+func (m *Model) selectPercentage(val *traits.FanSpeed) {
+	val.PresetIndex = -1
+	val.Preset = ""
+	for i, preset := range m.presets {
+		if preset.Percentage == val.Percentage {
+			val.PresetIndex = int32(i)
+			val.Preset = preset.Name
+			break
 		}
 	}
-	return nil
 }
 
 // DeriveValues derives values that haven't been set from those that have.
@@ -88,44 +154,19 @@ func (m *Model) validateUpdate(fanSpeed *traits.FanSpeed) error {
 func (m *Model) DeriveValues(old, new proto.Message) {
 	oldVal := old.(*traits.FanSpeed)
 	newVal := new.(*traits.FanSpeed)
-	if oldVal.Preset != newVal.Preset {
+	switch i := m.presetNamed(newVal.Preset); {
+	case oldVal.Preset != newVal.Preset && newVal.Preset != "" && i >= 0:
 		// preset updated, keep the index and percentage in sync
-		for i, preset := range m.presets {
-			if preset.Name == newVal.Preset {
-				newVal.PresetIndex = int32(i)
-				newVal.Percentage = preset.Percentage
-				break
-			}
-		}
-		return
-	}
-
-	if oldVal.PresetIndex != newVal.PresetIndex {
+		m.selectPreset(newVal, i)
+	case oldVal.PresetIndex != newVal.PresetIndex:
 		// cap the index if needed, and update the preset and percentage
-		if newVal.PresetIndex >= int32(len(m.presets)) {
-			newVal.PresetIndex = int32(len(m.presets) - 1)
-		}
-		if newVal.PresetIndex < 0 {
-			newVal.PresetIndex = 0
-		}
-		preset := m.presets[newVal.PresetIndex]
-		newVal.Preset = preset.Name
-		newVal.Percentage = preset.Percentage
-		return
-	}
-
-	if oldVal.Percentage != newVal.Percentage {
+		m.selectPreset(newVal, newVal.PresetIndex)
+	case oldVal.Percentage != newVal.Percentage:
 		// try to find a preset that matches, and update the index and preset
-		newVal.PresetIndex = -1
-		newVal.Preset = ""
-		for i, preset := range m.presets {
-			if preset.Percentage == newVal.Percentage {
-				newVal.PresetIndex = int32(i)
-				newVal.Preset = preset.Name
-				break
-			}
-		}
-		return
+		m.selectPercentage(newVal)
+	default:
+		// the speed isn't changing, so neither is the preset
+		newVal.Preset = oldVal.Preset
 	}
 }
 
diff --git a/pkg/trait/fanspeedpb/model_server.go b/pkg/trait/fanspeedpb/model_server.go
index cf213ce..76e7aaf 100644
--- a/pkg/trait/fanspeedpb/model_server.go
+++ b/pkg/trait/fanspeedpb/model_server.go
@@ -2,6 +2,7 @@ package fanspeedpb
 
 import (
 	"context"
+	"math"
 
 	"google.golang.org/grpc"
 	"google.golang.org/protobuf/proto"
@@ -34,12 +35,18 @@ func (s *ModelServer) GetFanSpeed(_ context.Context, request *traits.GetFanSpeed
 }
 
 func (s *ModelServer) UpdateFanSpeed(_ context.Context, request *traits.UpdateFanSpeedRequest) (*traits.FanSpeed, error) {
-	return s.model.UpdateFanSpeed(request.FanSpeed, resource.InterceptBefore(func(old, new proto.Message) {
+	fanSpeed := &traits.FanSpeed{}
+	proto.Merge(fanSpeed, request.FanSpeed)
+	return s.model.updateFanSpeed(fanSpeed, request.Relative, resource.WithUpdateMask(request.UpdateMask), resource.InterceptBefore(func(old, new proto.Message) {
 		if request.Relative {
 			oldVal := old.(*traits.FanSpeed)
 			newVal := new.(*traits.FanSpeed)
 			newVal.Percentage += oldVal.Percentage
-			newVal.PresetIndex += oldVal.PresetIndex
+			presetIndex := int64(newVal.PresetIndex) + int64(oldVal.PresetIndex)
+			newVal.PresetIndex = int32(max(min(presetIndex, math.MaxInt32), math.MinInt32))
+			if newVal.Preset == "" {
+				newVal.Preset = oldVal.Preset
+			}
 			// todo: should we support setting the preset relatively if we're between presets?
 		}
 	}))
@@ -58,6 +65,12 @@ func (s *ModelServer) PullFanSpeed(request *traits.PullFanSpeedRequest, server t
 }
 
 func (s *ModelServer) ReverseFanSpeedDirection(ctx context.Context, request *traits.ReverseFanSpeedDirectionRequest) (*traits.FanSpeed, error) {
-	// TODO implement me
-	panic("implement me")
+	return s.model.UpdateFanSpeed(&traits.FanSpeed{}, resource.WithUpdatePaths("direction"), resource.InterceptBefore(func(old, new proto.Message) {
+		newVal := new.(*traits.FanSpeed)
+		if old.(*traits.FanSpeed).Direction == traits.FanSpeed_BACKWARD {
+			newVal.Direction = traits.FanSpeed_FORWARD
+		} else {
+			newVal.Direction = traits.FanSpeed_BACKWARD
+		}
+	}))
 }
-- 
2.43.0


From 0a33610fe3a6c8cc2995f21d825c0d26a80d6c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 29/33] fix: publication versions differ when their content
 does, acknowledging again returns the publication

---
 pkg/trait/publicationpb/model.go        | 10 +++++-----
 pkg/trait/publicationpb/model_server.go |  5 ++++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pkg/trait/publicationpb/model.go b/pkg/trait/publicationpb/model.go
index 5ead0c9..9f2f61f 100644
--- a/pkg/trait/publicationpb/model.go
+++ b/pkg/trait/publicationpb/model.go
@@ -151,10 +151,10 @@ func mintVersion(p *traits.Publication) string {
 	// Hash properties we are happy to include in our version calculation.
 	// Note: don't use proto.Marshal as it is non-deterministic
 	hash := md5.New()
-	io.WriteString(hash, "v1")
-	io.WriteString(hash, p.Id)
-	hash.Write(p.Body)
-	io.WriteString(hash, p.MediaType)
-	io.WriteString(hash, p.GetAudience().GetName())
+	io.WriteString(hash, "v2")
+	for _, prop := range []string{p.Id, string(p.Body), p.MediaType, p.GetAudience().GetName()} {
+		// include the length so that moving text between properties is a change
+		fmt.Fprintf(hash, "%d:%s", len(prop), prop)
+	}
 	return fmt.Sprintf("%x", hash.Sum(nil))
 }
diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index b2f53e4..bf377e0 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -195,11 +195,14 @@ func (m *ModelServer) AcknowledgePublication(_ context.Context, request *traits.
 		}),
 		resource.InterceptAfter(func(old, new proto.Message) {
 			newVal := new.(*traits.Publication)
+			if newVal.Audience == nil {
+				newVal.Audience = &traits.Publication_Audience{}
+			}
 			newVal.Audience.ReceiptTime = timestamppb.New(m.model.publications.Clock().Now())
 		}),
 	)
 
-	if err == alreadyAcknowledged && request.AllowAcknowledged {
+	if err != nil && acknowledgedPub != nil && request.AllowAcknowledged {
 		return acknowledgedPub, nil
 	}
 
-- 
2.43.0


From 3bb778e77410f3c9972c37bf4c1b30b88d805efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 30/33] fix: regenerate routers and wrappers, enter leave RPCs
 were left unrouted

---
 pkg/trait/enterleavesensorpb/api_router.pb.go  | 18 ++++++++++++++++++
 ...fo_router.pb.go => sensorinfo_router.pb.go} | 12 +++++-------
 .../{info_wrap.pb.go => sensorinfo_wrap.pb.go} |  7 +++----
 3 files changed, 26 insertions(+), 11 deletions(-)
 rename pkg/trait/motionsensorpb/{info_router.pb.go => sensorinfo_router.pb.go} (93%)
 rename pkg/trait/motionsensorpb/{info_wrap.pb.go => sensorinfo_wrap.pb.go} (90%)

diff --git a/pkg/trait/enterleavesensorpb/api_router.pb.go b/pkg/trait/enterleavesensorpb/api_router.pb.go
index 3745447..aae1c5b 100644
--- a/pkg/trait/enterleavesensorpb/api_router.pb.go
+++ b/pkg/trait/enterleavesensorpb/api_router.pb.go
@@ -137,3 +137,21 @@ func (r *ApiRouter) PullEnterLeaveEvents(request *traits.PullEnterLeaveEventsReq
 		return err
 	}
 }
+
+func (r *ApiRouter) GetEnterLeaveEvent(ctx context.Context, request *traits.GetEnterLeaveEventRequest) (*traits.EnterLeaveEvent, error) {
+	child, err := r.GetEnterLeaveSensorApiClient(request.Name)
+	if err != nil {
+		return nil, err
+	}
+
+	return child.GetEnterLeaveEvent(ctx, request)
+}
+
+func (r *ApiRouter) ResetEnterLeaveTotals(ctx context.Context, request *traits.ResetEnterLeaveTotalsRequest) (*traits.ResetEnterLeaveTotalsResponse, error) {
+	child, err := r.GetEnterLeaveSensorApiClient(request.Name)
+	if err != nil {
+		return nil, err
+	}
+
+	return child.ResetEnterLeaveTotals(ctx, request)
+}
diff --git a/pkg/trait/motionsensorpb/info_router.pb.go b/pkg/trait/motionsensorpb/sensorinfo_router.pb.go
similarity index 93%
rename from pkg/trait/motionsensorpb/info_router.pb.go
rename to pkg/trait/motionsensorpb/sensorinfo_router.pb.go
index 6915f8f..cf56851 100644
--- a/pkg/trait/motionsensorpb/info_router.pb.go
+++ b/pkg/trait/motionsensorpb/sensorinfo_router.pb.go
@@ -3,13 +3,11 @@
 package motionsensorpb
 
 import (
-	"context"
-	"fmt"
-
-	"google.golang.org/grpc"
-
-	"github.com/smart-core-os/sc-api/go/traits"
-	"github.com/smart-core-os/sc-golang/pkg/router"
+	context "context"
+	fmt "fmt"
+	traits "github.com/smart-core-os/sc-api/go/traits"
+	router "github.com/smart-core-os/sc-golang/pkg/router"
+	grpc "google.golang.org/grpc"
 )
 
 // SensorInfoRouter is a traits.MotionSensorSensorInfoServer that allows routing named requests to specific traits.MotionSensorSensorInfoClient
diff --git a/pkg/trait/motionsensorpb/info_wrap.pb.go b/pkg/trait/motionsensorpb/sensorinfo_wrap.pb.go
similarity index 90%
rename from pkg/trait/motionsensorpb/info_wrap.pb.go
rename to pkg/trait/motionsensorpb/sensorinfo_wrap.pb.go
index 0a7b258..ab46e2e 100644
--- a/pkg/trait/motionsensorpb/info_wrap.pb.go
+++ b/pkg/trait/motionsensorpb/sensorinfo_wrap.pb.go
@@ -3,10 +3,9 @@
 package motionsensorpb
 
 import (
-	"google.golang.org/grpc"
-
-	"github.com/smart-core-os/sc-api/go/traits"
-	"github.com/smart-core-os/sc-golang/pkg/wrap"
+	traits "github.com/smart-core-os/sc-api/go/traits"
+	wrap "github.com/smart-core-os/sc-golang/pkg/wrap"
+	grpc "google.golang.org/grpc"
 )
 
 // WrapSensorInfo	adapts a traits.MotionSensorSensorInfoServer	and presents it as a traits.MotionSensorSensorInfoClient
-- 
2.43.0


From 620077b8228db91aba0d749a92eb78764ea4791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:30 +0000
Subject: [PATCH 31/33] fix: a ramping light didn't expect concurrent updates,
 and panicked

---
 pkg/trait/lightpb/memory.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/lightpb/memory.go b/pkg/trait/lightpb/memory.go
index 01d344f..7ed3fd1 100644
--- a/pkg/trait/lightpb/memory.go
+++ b/pkg/trait/lightpb/memory.go
@@ -6,6 +6,8 @@ import (
 
 	"github.com/tanema/gween"
 	"github.com/tanema/gween/ease"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
@@ -98,7 +100,7 @@ func (s *MemoryDevice) UpdateBrightness(ctx context.Context, request *traits.Upd
 						resource.WithResetPaths("target_level_percent", "brightness_tween"),
 						resource.WithExpectedValue(lastObj),
 					)
-					if err != nil && err != resource.ExpectedValuePreconditionFailed {
+					if err != nil && !changedByOther(err) {
 						panic(err) // programmer error
 					}
 					return
@@ -112,7 +114,7 @@ func (s *MemoryDevice) UpdateBrightness(ctx context.Context, request *traits.Upd
 					resource.WithExpectedValue(lastObj),
 				)
 				switch {
-				case err == resource.ExpectedValuePreconditionFailed:
+				case changedByOther(err):
 					// somebody else changed the value, tweening is done
 					return
 				case err != nil:
@@ -169,6 +171,11 @@ func (s *MemoryDevice) PullBrightness(request *traits.PullBrightnessRequest, ser
 	return server.Context().Err()
 }
 
+// changedByOther returns whether err says that the brightness was changed before, or during, our update.
+func changedByOther(err error) bool {
+	return err == resource.ExpectedValuePreconditionFailed || status.Code(err) == codes.Aborted
+}
+
 func capLevelPercent(next *traits.Brightness) {
 	if next.LevelPercent < 0 {
 		next.LevelPercent = 0
-- 
2.43.0


From 5f98f627132691b93be6c52d56843c1f5ecb50fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 32/33] fix: the press server didn't implement PressApi, its
 methods had other names

---
 pkg/trait/presspb/model_server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/trait/presspb/model_server.go b/pkg/trait/presspb/model_server.go
index 3f8a104..fde8762 100644
--- a/pkg/trait/presspb/model_server.go
+++ b/pkg/trait/presspb/model_server.go
@@ -18,15 +18,15 @@ func NewModelServer(model *Model) *ModelServer {
 	return &ModelServer{model: model}
 }
 
-func (s *ModelServer) GetButtonState(ctx context.Context, request *traits.GetPressedStateRequest) (*traits.PressedState, error) {
+func (s *ModelServer) GetPressedState(ctx context.Context, request *traits.GetPressedStateRequest) (*traits.PressedState, error) {
 	return s.model.GetPressedState(resource.WithReadMask(request.ReadMask)), nil
 }
 
-func (s *ModelServer) UpdateButtonState(ctx context.Context, request *traits.UpdatePressedStateRequest) (*traits.PressedState, error) {
+func (s *ModelServer) UpdatePressedState(ctx context.Context, request *traits.UpdatePressedStateRequest) (*traits.PressedState, error) {
 	return s.model.UpdatePressedState(request.PressedState, resource.WithUpdateMask(request.UpdateMask))
 }
 
-func (s *ModelServer) PullButtonState(request *traits.PullPressedStateRequest, server traits.PressApi_PullPressedStateServer) error {
+func (s *ModelServer) PullPressedState(request *traits.PullPressedStateRequest, server traits.PressApi_PullPressedStateServer) error {
 	changes := s.model.PullPressedState(server.Context(),
 		resource.WithReadMask(request.ReadMask),
 		resource.WithUpdatesOnly(request.UpdatesOnly),
-- 
2.43.0


From cefd40838475c0da9f1233f4d29b27638c5814b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 33/33] fix: open close positions created by a masked update
 had no direction

---
 pkg/trait/openclosepb/model.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index acf3837..1b6cc0d 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -88,7 +88,7 @@ func (m *Model) UpdatePositions(positions *traits.OpenClosePositions, opts ...re
 	opts = append(opts, resource.WithUpdateMask(statesMask), resource.WithCreateIfAbsent())
 
 	for _, state := range states {
-		_, err := m.positions.Update(directionToID(state.Direction), state, opts...)
+		_, err := m.UpdatePosition(state, opts...)
 		if err != nil {
 			return nil, err
 		}
@@ -102,6 +102,12 @@ func (m *Model) UpdatePosition(position *traits.OpenClosePosition, opts ...resou
 }
 
 func (m *Model) UpdatePositionN(dir traits.OpenClosePosition_Direction, position *traits.OpenClosePosition, opts ...resource.WriteOption) (*traits.OpenClosePosition, error) {
+	// a position that doesn't exist yet needs its direction too
+	opts = append(append([]resource.WriteOption{}, opts...), resource.WithMoreUpdatePaths("direction"))
+	if position.GetDirection() != dir {
+		position = proto.Clone(position).(*traits.OpenClosePosition)
+		position.Direction = dir
+	}
 	msg, err := m.positions.Update(directionToID(dir), position, opts...)
 	if err != nil {
 		return nil, err
-- 
2.43.0

