From 3ff4b06bf1921858bf84ced854785ca5ba5f300b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 01/24] fix: order stages before strictly ordered nodes before
 they begin

The nodes' goroutines are started by Begin, so changing their kind
afterwards had no effect on sequential nodes, raced with limited parallel
ones, and could deadlock the pipeline.
---
 pipeline/pipeline.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index c1a56ce..53ff439 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -291,6 +291,19 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 		go notifier()
 		p.notifiers[i] = nil
 	}
+	for index := len(p.nodes) - 1; index >= 0; index-- {
+		if p.nodes[index].StrictOrd() {
+			for index = index - 1; index >= 0; index-- {
+				switch node := p.nodes[index].(type) {
+				case *seqnode[T]:
+					node.kind = Ordered
+				case *lparnode[T]:
+					node.makeOrdered()
+				}
+			}
+			break
+		}
+	}
 	dataSize := p.source.Prepare(p.ctx)
 	filteredSize := dataSize
 	for index := 0; index < len(p.nodes); {
@@ -311,19 +324,6 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 				index++
 			}
 		}
-		for index := len(p.nodes) - 1; index >= 0; index-- {
-			if p.nodes[index].StrictOrd() {
-				for index = index - 1; index >= 0; index-- {
-					switch node := p.nodes[index].(type) {
-					case *seqnode[T]:
-						node.kind = Ordered
-					case *lparnode[T]:
-						node.makeOrdered()
-					}
-				}
-				break
-			}
-		}
 		if dataSize < 0 {
 			p.finalizeVariableBatchSize()
 			for seqNo, batchSize := 0, p.batchInc; p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
-- 
2.43.0


From 1a8fab64e33d44e9006fd97de315839d078dd41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 02/24] fix: do not lose the wakeup of ordered nodes on
 cancellation

Feed checks the context and waits while holding the lock. Broadcasting
without the lock can happen between the two, so that Feed waits forever.
---
 pipeline/lparnode.go      | 2 ++
 pipeline/strictordnode.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index dd672e4..c3c5340 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -52,7 +52,9 @@ func (node *lparnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep b
 					select {
 					case <-p.ctx.Done():
 						if node.ordered {
+							node.cond.L.Lock()
 							node.cond.Broadcast()
+							node.cond.L.Unlock()
 						}
 						return
 					case batch, ok := <-node.channel:
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index e7d1f2c..4c4c200 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -50,7 +50,9 @@ func (node *strictordnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (k
 			for {
 				select {
 				case <-p.ctx.Done():
+					node.cond.L.Lock()
 					node.cond.Broadcast()
+					node.cond.L.Unlock()
 					return
 				case batch, ok := <-node.channel:
 					if !ok {
-- 
2.43.0


From 5730e168104d61e511278be9b030f3d2d7c41fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 03/24] fix: access the error of a pipeline only with its lock

SetErr may be called concurrently, for example by notifiers.
---
 pipeline/pipeline.go      | 6 ++++--
 pipeline/transformnode.go | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 53ff439..650ad13 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -283,7 +283,7 @@ func (p *Pipeline[T]) RunWithContext(ctx context.Context, cancel context.CancelF
 }
 
 func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.CancelFunc) {
-	if p.err != nil {
+	if p.Err() != nil {
 		return
 	}
 	p.ctx, p.cancel = ctx, cancel
@@ -313,7 +313,7 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 			p.nodes = slices.Delete(p.nodes, index, index+1)
 		}
 	}
-	if p.err != nil {
+	if p.Err() != nil {
 		return
 	}
 	if len(p.nodes) > 0 {
@@ -354,9 +354,11 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 	for _, node := range p.nodes {
 		node.End()
 	}
+	p.mutex.Lock()
 	if p.err == nil {
 		p.err = p.source.Err()
 	}
+	p.mutex.Unlock()
 }
 
 // Run initiates pipeline execution by calling
diff --git a/pipeline/transformnode.go b/pipeline/transformnode.go
index f2da4eb..17c58ab 100644
--- a/pipeline/transformnode.go
+++ b/pipeline/transformnode.go
@@ -105,7 +105,7 @@ func (node *transformNode[S, T]) Begin(_ *Pipeline[S], _ int, dataSize *int) (ke
 			node.next.nodes = slices.Delete(node.next.nodes, index, index+1)
 		}
 	}
-	if node.next.err != nil {
+	if node.next.Err() != nil {
 		return
 	}
 	if len(node.next.nodes) == 0 {
-- 
2.43.0


From 98b623fe75ee2c3f5c194e7e06338c7abccc3203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:10 +0000
Subject: [PATCH 04/24] fix: forward batches with the index passed to Feed

Nodes can be merged after Begin, which changes the indices of the nodes
behind them. Batches forwarded with the index passed to Begin skip nodes.
---
 pipeline/lparnode.go      | 10 +++++-----
 pipeline/seqnode.go       | 13 +++++++------
 pipeline/strictordnode.go |  8 ++++----
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index c3c5340..23e42c9 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -39,7 +39,7 @@ func (node *lparnode[T]) TryMerge(next Node[T]) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *lparnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bool) {
+func (node *lparnode[T]) Begin(p *Pipeline[T], _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Parallel, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -70,7 +70,7 @@ func (node *lparnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep b
 							node.cond.L.Unlock()
 							node.cond.Broadcast()
 						}
-						feed(p, node.receivers, index, batch.seqNo, batch.data)
+						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 					}
 				}
 			}()
@@ -84,7 +84,7 @@ func (node *lparnode[T]) StrictOrd() bool {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *lparnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
+func (node *lparnode[T]) Feed(p *Pipeline[T], index int, seqNo int, data T) {
 	if node.ordered {
 		node.cond.L.Lock()
 		defer node.cond.L.Unlock()
@@ -93,7 +93,7 @@ func (node *lparnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
 				select {
 				case <-p.ctx.Done():
 					return
-				case node.channel <- dataBatch[T]{seqNo, data}:
+				case node.channel <- dataBatch[T]{index, seqNo, data}:
 					return
 				}
 			}
@@ -108,7 +108,7 @@ func (node *lparnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
 	select {
 	case <-p.ctx.Done():
 		return
-	case node.channel <- dataBatch[T]{seqNo, data}:
+	case node.channel <- dataBatch[T]{index, seqNo, data}:
 		return
 	}
 }
diff --git a/pipeline/seqnode.go b/pipeline/seqnode.go
index 7e5d3e4..1ed3d1e 100644
--- a/pipeline/seqnode.go
+++ b/pipeline/seqnode.go
@@ -6,6 +6,7 @@ import (
 
 type (
 	dataBatch[T any] struct {
+		index int
 		seqNo int
 		data  T
 	}
@@ -45,7 +46,7 @@ func (node *seqnode[T]) TryMerge(next Node[T]) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *seqnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bool) {
+func (node *seqnode[T]) Begin(p *Pipeline[T], _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, node.kind, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -63,7 +64,7 @@ func (node *seqnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bo
 						if !ok {
 							return
 						}
-						feed(p, node.receivers, index, batch.seqNo, batch.data)
+						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 					}
 				}
 			}()
@@ -85,7 +86,7 @@ func (node *seqnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bo
 						case batch.seqNo > run:
 							stash[batch.seqNo] = batch.data
 						default:
-							feed(p, node.receivers, index, batch.seqNo, batch.data)
+							feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 						checkStash:
 							for {
 								select {
@@ -98,7 +99,7 @@ func (node *seqnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bo
 										break checkStash
 									}
 									delete(stash, run)
-									feed(p, node.receivers, index, run, data)
+									feed(p, node.receivers, batch.index, run, data)
 								}
 							}
 						}
@@ -117,11 +118,11 @@ func (node *seqnode[T]) StrictOrd() bool {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *seqnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
+func (node *seqnode[T]) Feed(p *Pipeline[T], index int, seqNo int, data T) {
 	select {
 	case <-p.ctx.Done():
 		return
-	case node.channel <- dataBatch[T]{seqNo, data}:
+	case node.channel <- dataBatch[T]{index, seqNo, data}:
 		return
 	}
 }
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index 4c4c200..fe9d1e0 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -38,7 +38,7 @@ func (node *strictordnode[T]) TryMerge(next Node[T]) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *strictordnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bool) {
+func (node *strictordnode[T]) Begin(p *Pipeline[T], _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Ordered, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -65,7 +65,7 @@ func (node *strictordnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (k
 					node.run++
 					node.cond.L.Unlock()
 					node.cond.Broadcast()
-					feed(p, node.receivers, index, batch.seqNo, batch.data)
+					feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 				}
 			}
 		}()
@@ -78,7 +78,7 @@ func (node *strictordnode[T]) StrictOrd() bool {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *strictordnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
+func (node *strictordnode[T]) Feed(p *Pipeline[T], index int, seqNo int, data T) {
 	node.cond.L.Lock()
 	defer node.cond.L.Unlock()
 	for {
@@ -86,7 +86,7 @@ func (node *strictordnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
 			select {
 			case <-p.ctx.Done():
 				return
-			case node.channel <- dataBatch[T]{seqNo, data}:
+			case node.channel <- dataBatch[T]{index, seqNo, data}:
 				return
 			}
 		}
-- 
2.43.0


From 99da7ea534617b3151db8f179b0e412e403a9378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:10 +0000
Subject: [PATCH 05/24] fix: report the full size of batches fetched by
 scanners

When a batch was full, Fetch returned its size minus one. With a batch
size of one, this ended the pipeline before any data was processed.
---
 pipeline/source.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pipeline/source.go b/pipeline/source.go
index 5ee9439..36ca0f7 100755
--- a/pipeline/source.go
+++ b/pipeline/source.go
@@ -89,12 +89,9 @@ func (src *Scanner) Prepare(_ context.Context) (size int) {
 // Fetch implements the method of the Source interface.
 func (src *Scanner) Fetch(n int) (fetched int) {
 	var data []string
-	for fetched = range n {
-		if src.Scan() {
-			data = append(data, src.Text())
-		} else {
-			break
-		}
+	for fetched < n && src.Scan() {
+		data = append(data, src.Text())
+		fetched++
 	}
 	src.data = data
 	return
@@ -126,12 +123,9 @@ func (src *BytesScanner) Prepare(_ context.Context) (size int) {
 // Fetch implements the method of the Source interface.
 func (src *BytesScanner) Fetch(n int) (fetched int) {
 	var data [][]byte
-	for fetched = range n {
-		if src.Scan() {
-			data = append(data, slices.Clone(src.Bytes()))
-		} else {
-			break
-		}
+	for fetched < n && src.Scan() {
+		data = append(data, slices.Clone(src.Bytes()))
+		fetched++
 	}
 	src.data = data
 	return
-- 
2.43.0


From 67cdd0267a381e7997d3e7b360cc52ea3478bcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:10 +0000
Subject: [PATCH 06/24] fix: announce the size that remains after Skip

---
 pipeline/filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index bf8b559..a0a548d 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -313,7 +313,7 @@ func Skip[T any](n int) Node[[]T] {
 		case n == 0: // nothing to skip
 		case (*size < 0) || (*size > n):
 			if *size > 0 {
-				*size = n
+				*size -= n
 			}
 			seen := 0
 			receiver = func(_ int, data []T) (result []T) {
-- 
2.43.0


From 40ed30748f444f312be2554382820dec694f28c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:10 +0000
Subject: [PATCH 07/24] fix: let Count set its result in all kinds of nodes

In ordered and sequential nodes, it added to the previous value.
---
 pipeline/filters.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index a0a548d..26b048b 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -248,6 +248,7 @@ func Count[T any](result *int) Filter[[]T] {
 				*result = int(atomic.LoadInt64(&res))
 			}
 		default:
+			*result = 0
 			receiver = func(_ int, data []T) []T {
 				*result += len(data)
 				return data
-- 
2.43.0


From 905ce91da9aafb6c6c365d3edd960519559fb975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:10 +0000
Subject: [PATCH 08/24] fix: apply the maximum batch size also to the first
 batch

---
 pipeline/pipeline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 650ad13..2cdfb34 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -326,7 +326,7 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 		}
 		if dataSize < 0 {
 			p.finalizeVariableBatchSize()
-			for seqNo, batchSize := 0, p.batchInc; p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
+			for seqNo, batchSize := 0, p.nextBatchSize(0); p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
 				p.nodes[0].Feed(p, 0, seqNo, p.source.Data())
 				if err := p.source.Err(); err != nil {
 					p.SetErr(err)
-- 
2.43.0


From 05d077f7019d31c6bafd0a39796fe50b3fa96328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:11 +0000
Subject: [PATCH 09/24] fix: limit the capacity of batches from slices

Receivers that append to a batch overwrote the following batches.
---
 pipeline/source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/source.go b/pipeline/source.go
index 36ca0f7..e21d101 100755
--- a/pipeline/source.go
+++ b/pipeline/source.go
@@ -57,7 +57,7 @@ func (src *Slice[T]) Fetch(n int) (fetched int) {
 		src.size = 0
 	default:
 		fetched = n
-		src.data = src.value[:n]
+		src.data = src.value[:n:n]
 		src.value = src.value[n:]
 		src.size -= n
 	}
-- 
2.43.0


From 85b226d4f88e4f9d7fa979bc1412f3517433ab34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:42 +0000
Subject: [PATCH 10/24] fix: reject negative numbers of batches also for empty
 ranges

Range and its relatives are documented to panic if n < 0.
---
 internal/internal.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/internal.go b/internal/internal.go
index b93740d..92e22fd 100755
--- a/internal/internal.go
+++ b/internal/internal.go
@@ -10,14 +10,14 @@ import (
 // a default is used that takes runtime.NumCPU() into account.
 func ComputeNofBatches(low, high, n int) (batches int) {
 	switch size := high - low; {
+	case n < 0:
+		panic(fmt.Sprintf("invalid number of batches: %v", n))
 	case size > 0:
 		switch {
 		case n == 0:
 			batches = 2 * runtime.NumCPU()
-		case n > 0:
-			batches = n
 		default:
-			panic(fmt.Sprintf("invalid number of batches: %v", n))
+			batches = n
 		}
 		if batches > size {
 			batches = size
-- 
2.43.0


From d21c786fb57d9bc6b6b1692d7c51b02b3e7213ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:43 +0000
Subject: [PATCH 11/24] fix: order NaN values before other values in
 Float64Slice

This is the order of sort.Float64Slice, which SequentialSort uses.
Without it, Less is not a strict weak ordering.
---
 psort/sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psort/sort.go b/psort/sort.go
index 99d21de..314e491 100644
--- a/psort/sort.go
+++ b/psort/sort.go
@@ -114,7 +114,7 @@ func (s Float64Slice) Len() int {
 }
 
 func (s Float64Slice) Less(i, j int) bool {
-	return s[i] < s[j]
+	return s[i] < s[j] || (s[i] != s[i] && s[j] == s[j])
 }
 
 func (s Float64Slice) Swap(i, j int) {
-- 
2.43.0


From 973f514ddead221d768fe5ed1513127c2cb4c727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:43 +0000
Subject: [PATCH 12/24] fix: do not access data after IsSorted has returned

speculative.And does not wait for the functions that are still running
when the result is known. They went on to call Less while Sort was already
swapping elements.
---
 psort/sort.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/psort/sort.go b/psort/sort.go
index 314e491..8ec6b12 100644
--- a/psort/sort.go
+++ b/psort/sort.go
@@ -5,7 +5,7 @@ import (
 	"sort"
 	"sync/atomic"
 
-	"github.com/intel/forGoParallel/speculative"
+	"github.com/intel/forGoParallel/parallel"
 )
 
 // SequentialSorter is a type, typically a collection, that can be sequentially
@@ -34,7 +34,6 @@ func IsSorted(data sort.Interface) bool {
 		}
 	}
 	var done int32
-	defer atomic.StoreInt32(&done, 1)
 	var pTest func(int, int) bool
 	pTest = func(index, size int) bool {
 		if size < qsortGrainSize {
@@ -44,13 +43,14 @@ func IsSorted(data sort.Interface) bool {
 					return false
 				}
 				if data.Less(j, j-1) {
+					atomic.StoreInt32(&done, 1)
 					return false
 				}
 			}
 			return true
 		}
 		half := size / 2
-		result := speculative.And(
+		result := parallel.And(
 			func() bool { return pTest(index, half) },
 			func() bool { return pTest(index+half, size-half) },
 		)
-- 
2.43.0


From 5bf8a4b35200b6379905243d4ef5e653a8fccc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:43 +0000
Subject: [PATCH 13/24] fix: do not overwrite the argument of PrefixSum

---
 parallel/parallel.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parallel/parallel.go b/parallel/parallel.go
index 7613b17..b3b3c85 100755
--- a/parallel/parallel.go
+++ b/parallel/parallel.go
@@ -4,6 +4,7 @@ package parallel
 import (
 	"fmt"
 	"math"
+	"slices"
 	"sync"
 
 	"github.com/intel/forGoParallel/internal"
@@ -655,6 +656,7 @@ func RangeReduceProduct[T Multipliable](
 }
 
 func PrefixSum[T Addable](slice []T) []T {
+	slice = slices.Clone(slice)
 	result := make([]T, len(slice))
 	for i := range int(math.Ceil(math.Log2(float64(len(slice))))) {
 		l := int(math.Exp2(float64(i)))
-- 
2.43.0


From 950b0cb999b73f716b30d2312c7d2aa4811d2e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:08 +0000
Subject: [PATCH 14/24] fix: support nil keys and values of interface types in
 Map

A type assertion to an interface type panics when the operand is nil.
---
 gsync/sync.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/gsync/sync.go b/gsync/sync.go
index 34c6ad3..d91d998 100755
--- a/gsync/sync.go
+++ b/gsync/sync.go
@@ -22,28 +22,27 @@ func (m *Map[K, V]) Delete(key K) {
 
 func (m *Map[K, V]) Load(key K) (value V, ok bool) {
 	v, ok := (*sync.Map)(m).Load(key)
-	if ok {
-		return v.(V), true
-	}
-	return
+	value, _ = v.(V)
+	return value, ok
 }
 
 func (m *Map[K, V]) LoadAndDelete(key K) (value V, loaded bool) {
 	v, loaded := (*sync.Map)(m).LoadAndDelete(key)
-	if loaded {
-		return v.(V), true
-	}
-	return
+	value, _ = v.(V)
+	return value, loaded
 }
 
 func (m *Map[K, V]) LoadOrStore(key K, value V) (actual V, loaded bool) {
 	v, loaded := (*sync.Map)(m).LoadOrStore(key, value)
-	return v.(V), loaded
+	actual, _ = v.(V)
+	return actual, loaded
 }
 
 func (m *Map[K, V]) Range(f func(K, V) bool) {
 	(*sync.Map)(m).Range(func(k any, v any) bool {
-		return f(k.(K), v.(V))
+		key, _ := k.(K)
+		value, _ := v.(V)
+		return f(key, value)
 	})
 }
 
@@ -53,9 +52,7 @@ func (m *Map[K, V]) Store(key K, value V) {
 
 func (m *Map[K, V]) Swap(key K, value V) (previous V, loaded bool) {
 	prev, loaded := (*sync.Map)(m).Swap(key, value)
-	if loaded {
-		previous = prev.(V)
-	}
+	previous, _ = prev.(V)
 	return
 }
 
-- 
2.43.0


From 9f882446ba63b7e7e475e05064c5fb66ad691120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:08 +0000
Subject: [PATCH 15/24] fix: handle a nil New function and nil elements in Pool

Like in sync.Pool, Get returns nil without a New function, and Put ignores
nil, so that Get does not return nil although there is a New function.
---
 gsync/sync.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gsync/sync.go b/gsync/sync.go
index d91d998..203e48f 100755
--- a/gsync/sync.go
+++ b/gsync/sync.go
@@ -68,6 +68,9 @@ func (p *Pool[T]) getSyncPool() *sync.Pool {
 	}
 	result := &sync.Pool{
 		New: func() any {
+			if p.New == nil {
+				return (*T)(nil)
+			}
 			return p.New()
 		},
 	}
@@ -82,5 +85,8 @@ func (p *Pool[T]) Get() *T {
 }
 
 func (p *Pool[T]) Put(x *T) {
+	if x == nil {
+		return
+	}
 	p.getSyncPool().Put(x)
 }
-- 
2.43.0


From d124b672fce1838790aeeced22b1ad2ac6a694fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:40 +0000
Subject: [PATCH 16/24] fix: do not overflow when splitting ranges near the
 largest int

---
 parallel/parallel.go       | 12 ++++++------
 speculative/speculative.go |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/parallel/parallel.go b/parallel/parallel.go
index b3b3c85..eb2cea9 100755
--- a/parallel/parallel.go
+++ b/parallel/parallel.go
@@ -338,7 +338,7 @@ func Range(low, high, n int, f func(low, high int)) {
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				f(low, high)
 				return
 			}
@@ -394,7 +394,7 @@ func RangeAnd(low, high, n int, f func(low, high int) bool) bool {
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return f(low, high)
 			}
 			var b0, b1 bool
@@ -450,7 +450,7 @@ func RangeOr(low, high, n int, f func(low, high int) bool) bool {
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return f(low, high)
 			}
 			var b0, b1 bool
@@ -511,7 +511,7 @@ func RangeReduce[T any](
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			var left, right T
@@ -568,7 +568,7 @@ func RangeReduceSum[T Addable](low, high, n int, reduce func(low, high int) T) T
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			var left, right T
@@ -628,7 +628,7 @@ func RangeReduceProduct[T Multipliable](
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			var left, right T
diff --git a/speculative/speculative.go b/speculative/speculative.go
index 69d4e34..f1d43a4 100755
--- a/speculative/speculative.go
+++ b/speculative/speculative.go
@@ -251,7 +251,7 @@ func Range(low, high, n int, f func(low, high int) bool) bool {
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return f(low, high)
 			}
 			var b1 bool
@@ -310,7 +310,7 @@ func RangeAnd(low, high, n int, f func(low, high int) bool) bool {
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return f(low, high)
 			}
 			var b1 bool
@@ -369,7 +369,7 @@ func RangeOr(low, high, n int, f func(low, high int) bool) bool {
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return f(low, high)
 			}
 			var b1 bool
@@ -437,7 +437,7 @@ func RangeReduce[T any](
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			var left, right T
-- 
2.43.0


From 133f5ffef574be5f56b5eb9586833cfdf1711e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:57 +0000
Subject: [PATCH 17/24] fix: pass panics of NewTemp and Assign to the caller of
 StableSort

They happen in a goroutine of their own, and crashed the program.
---
 psort/mergesort.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/psort/mergesort.go b/psort/mergesort.go
index e4d022b..c8a36fc 100755
--- a/psort/mergesort.go
+++ b/psort/mergesort.go
@@ -3,6 +3,7 @@ package psort
 import (
 	"sync"
 
+	"github.com/intel/forGoParallel/internal"
 	"github.com/intel/forGoParallel/parallel"
 )
 
@@ -154,10 +155,14 @@ func StableSort(data StableSorter) {
 		return
 	}
 	var T, A *sorter
+	var tempPanic interface{}
 	var temp sync.WaitGroup
 	temp.Add(1)
 	go func() {
-		defer temp.Done()
+		defer func() {
+			tempPanic = internal.WrapPanic(recover())
+			temp.Done()
+		}()
 		a := data.NewTemp()
 		T = &sorter{data.Less, data.Assign(a)}
 		A = &sorter{a.Less, a.Assign(data)}
@@ -177,6 +182,9 @@ func StableSort(data StableSorter) {
 				func() { pSort(index+q3, size-q3) },
 			)
 			temp.Wait()
+			if tempPanic != nil {
+				panic(tempPanic)
+			}
 			parallel.Do(
 				func() { pMerge(T, index, index+q1-1, index+q1, index+q2-1, A, index) },
 				func() { pMerge(T, index+q2, index+q3-1, index+q3, index+size-1, A, index+q2) },
-- 
2.43.0


From 1ebd4f93fae94015211f488ae665267eb546304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:57 +0000
Subject: [PATCH 18/24] fix: let IsSorted wait for the tests that are still
 running

This replaces the previous fix for accesses after IsSorted has returned, so
that the tests remain speculative: the other tests are told to stop, and
IsSorted waits for them.
---
 psort/sort.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/psort/sort.go b/psort/sort.go
index 8ec6b12..a9032f5 100644
--- a/psort/sort.go
+++ b/psort/sort.go
@@ -3,9 +3,10 @@ package psort
 
 import (
 	"sort"
+	"sync"
 	"sync/atomic"
 
-	"github.com/intel/forGoParallel/parallel"
+	"github.com/intel/forGoParallel/speculative"
 )
 
 // SequentialSorter is a type, typically a collection, that can be sequentially
@@ -34,6 +35,9 @@ func IsSorted(data sort.Interface) bool {
 		}
 	}
 	var done int32
+	var active sync.WaitGroup
+	defer active.Wait()
+	defer atomic.StoreInt32(&done, 1)
 	var pTest func(int, int) bool
 	pTest = func(index, size int) bool {
 		if size < qsortGrainSize {
@@ -43,16 +47,16 @@ func IsSorted(data sort.Interface) bool {
 					return false
 				}
 				if data.Less(j, j-1) {
-					atomic.StoreInt32(&done, 1)
 					return false
 				}
 			}
 			return true
 		}
 		half := size / 2
-		result := parallel.And(
+		active.Add(1)
+		result := speculative.And(
 			func() bool { return pTest(index, half) },
-			func() bool { return pTest(index+half, size-half) },
+			func() bool { defer active.Done(); return pTest(index+half, size-half) },
 		)
 		return result
 	}
-- 
2.43.0


From 9ffc138e1d123e6c4eac5e294da618d664610d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 19/24] fix: end the goroutines of nodes that are merged after
 they have begun

---
 pipeline/lparnode.go      | 3 +++
 pipeline/strictordnode.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index 23e42c9..f03219c 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -33,6 +33,9 @@ func (node *lparnode[T]) TryMerge(next Node[T]) bool {
 		node.filters = append(node.filters, nxt.filters...)
 		node.receivers = append(node.receivers, nxt.receivers...)
 		node.finalizers = append(node.finalizers, nxt.finalizers...)
+		if nxt.channel != nil {
+			close(nxt.channel) // nxt has begun, but will not be fed anymore
+		}
 		return true
 	}
 	return false
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index fe9d1e0..78ede7e 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -26,11 +26,17 @@ func (node *strictordnode[T]) TryMerge(next Node[T]) bool {
 		node.filters = append(node.filters, nxt.filters...)
 		node.receivers = append(node.receivers, nxt.receivers...)
 		node.finalizers = append(node.finalizers, nxt.finalizers...)
+		if nxt.channel != nil {
+			close(nxt.channel) // nxt has begun, but will not be fed anymore
+		}
 		return true
 	case *strictordnode[T]:
 		node.filters = append(node.filters, nxt.filters...)
 		node.receivers = append(node.receivers, nxt.receivers...)
 		node.finalizers = append(node.finalizers, nxt.finalizers...)
+		if nxt.channel != nil {
+			close(nxt.channel) // nxt has begun, but will not be fed anymore
+		}
 		return true
 	default:
 		return false
-- 
2.43.0


From c41e621b5792702a49ab0b3d67f3b10de1d9c08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 20/24] fix: do not overflow when batch sizes grow near the
 largest int

---
 pipeline/pipeline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 2cdfb34..1a28671 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -249,7 +249,7 @@ func (p *Pipeline[T]) finalizeVariableBatchSize() {
 
 func (p *Pipeline[T]) nextBatchSize(batchSize int) (result int) {
 	result = batchSize + p.batchInc
-	if result > p.maxBatchSize {
+	if result > p.maxBatchSize || result < batchSize {
 		result = p.maxBatchSize
 	}
 	return
-- 
2.43.0


From 47991287fb9eb82dd782b383a7affaa91b6dbef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:24 +0000
Subject: [PATCH 21/24] fix: let parallel calls wait for all functions when the
 left-most one panics

---
 parallel/parallel.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parallel/parallel.go b/parallel/parallel.go
index eb2cea9..65505b9 100755
--- a/parallel/parallel.go
+++ b/parallel/parallel.go
@@ -31,6 +31,7 @@ func Reduce[T any](
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	if len(moreFunctions) == 1 {
 		go func() {
 			defer func() {
@@ -87,6 +88,7 @@ func ReduceSum[T Addable](functions ...func() T) (result T) {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	switch len(functions) {
 	case 2:
 		go func() {
@@ -143,6 +145,7 @@ func ReduceProduct[T Multipliable](functions ...func() T) T {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	switch len(functions) {
 	case 2:
 		go func() {
@@ -189,6 +192,7 @@ func Do(thunks ...func()) {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	switch len(thunks) {
 	case 2:
 		go func() {
@@ -235,6 +239,7 @@ func And(predicates ...func() bool) bool {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	switch len(predicates) {
 	case 2:
 		go func() {
@@ -282,6 +287,7 @@ func Or(predicates ...func() bool) bool {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	switch len(predicates) {
 	case 2:
 		go func() {
@@ -345,6 +351,7 @@ func Range(low, high, n int, f func(low, high int)) {
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -401,6 +408,7 @@ func RangeAnd(low, high, n int, f func(low, high int) bool) bool {
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -457,6 +465,7 @@ func RangeOr(low, high, n int, f func(low, high int) bool) bool {
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -518,6 +527,7 @@ func RangeReduce[T any](
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -575,6 +585,7 @@ func RangeReduceSum[T Addable](low, high, n int, reduce func(low, high int) T) T
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -635,6 +646,7 @@ func RangeReduceProduct[T Multipliable](
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
-- 
2.43.0


From 8ce349cef28441512fd3867ab2f258fd242e357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:43 +0000
Subject: [PATCH 22/24] fix: limit the capacity of the last batch from slices

Receivers that append to it overwrote elements behind the slice.
---
 pipeline/source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/source.go b/pipeline/source.go
index e21d101..1a3851e 100755
--- a/pipeline/source.go
+++ b/pipeline/source.go
@@ -52,7 +52,7 @@ func (src *Slice[T]) Fetch(n int) (fetched int) {
 		src.data = nil
 	case n >= src.size:
 		fetched = src.size
-		src.data = src.value
+		src.data = src.value[:src.size:src.size]
 		src.value = nil
 		src.size = 0
 	default:
-- 
2.43.0


From 22c4cb9c623e27ce04c51168df07b604457626db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:23 +0000
Subject: [PATCH 23/24] fix: treat the size of transformed data as unknown

Transformations may change the number of elements, so that Count, Limit
and Skip behind them used a wrong size.
---
 pipeline/transformnode.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pipeline/transformnode.go b/pipeline/transformnode.go
index 17c58ab..21ea715 100644
--- a/pipeline/transformnode.go
+++ b/pipeline/transformnode.go
@@ -97,9 +97,10 @@ func (node *transformNode[S, T]) TryMerge(_ Node[S]) (merged bool) {
 	return false
 }
 
-func (node *transformNode[S, T]) Begin(_ *Pipeline[S], _ int, dataSize *int) (keep bool) {
+func (node *transformNode[S, T]) Begin(_ *Pipeline[S], _ int, _ *int) (keep bool) {
+	dataSize := -1 // transform may change the size of batches
 	for index := 0; index < len(node.next.nodes); {
-		if node.next.nodes[index].Begin(node.next, index, dataSize) {
+		if node.next.nodes[index].Begin(node.next, index, &dataSize) {
 			index++
 		} else {
 			node.next.nodes = slices.Delete(node.next.nodes, index, index+1)
-- 
2.43.0


From 44934b8349081937c48708053a6437524b79a513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:39 +0000
Subject: [PATCH 24/24] fix: treat the size of data behind receivers as unknown

Receivers can change the number of elements, so that Count, Limit and
Skip behind Receive and ReceiveAndFinalize used a wrong size.
---
 pipeline/filters.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 26b048b..0cfa7b3 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -14,9 +14,13 @@ func Identity[T any](_ *Pipeline[T], _ NodeKind, _ *int) (_ Receiver[T], _ Final
 }
 
 // Receive creates a Filter that returns the given receiver and a nil finalizer.
+// The receiver can change the size of batches, so the expected total data size
+// is unknown for subsequent filters.
 func Receive[T any](receive Receiver[T]) Filter[T] {
-	return func(_ *Pipeline[T], _ NodeKind, _ *int) (receiver Receiver[T], _ Finalizer) {
-		receiver = receive
+	return func(_ *Pipeline[T], _ NodeKind, dataSize *int) (receiver Receiver[T], _ Finalizer) {
+		if receiver = receive; receiver != nil {
+			*dataSize = -1 // receive may change the size of batches
+		}
 		return
 	}
 }
@@ -31,10 +35,13 @@ func Finalize[T any](finalize Finalizer) Filter[T] {
 }
 
 // ReceiveAndFinalize creates a filter that returns the given filter and
-// receiver.
+// receiver. The receiver can change the size of batches, so the expected total
+// data size is unknown for subsequent filters.
 func ReceiveAndFinalize[T any](receive Receiver[T], finalize Finalizer) Filter[T] {
-	return func(_ *Pipeline[T], _ NodeKind, _ *int) (receiver Receiver[T], finalizer Finalizer) {
-		receiver = receive
+	return func(_ *Pipeline[T], _ NodeKind, dataSize *int) (receiver Receiver[T], finalizer Finalizer) {
+		if receiver = receive; receiver != nil {
+			*dataSize = -1 // receive may change the size of batches
+		}
 		finalizer = finalize
 		return
 	}
-- 
2.43.0

