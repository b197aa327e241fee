From c90c4434ae6b6c8f513998719e47f0ea182cf64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 01/32] fix: keep envelopes that share a timestamp in order and
 apart

Envelopes were stored under their timestamp plus a 'fudge' of as many
nanoseconds as needed to find a free key, which interleaved them with
envelopes that really carry the later timestamps: reads came back out of
order, cut by the wrong bounds, and a limited read could split or overrun
a timestamp; beyond 4000 envelopes per timestamp, one overwrote another.
Order them by timestamp and sequence of arrival instead.
---
 internal/cache/store/store.go | 91 ++++++++++++++++-------------------
 1 file changed, 41 insertions(+), 50 deletions(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index 1be4d84..bd0d131 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -41,8 +41,7 @@ type Store struct {
 	count           int64
 	oldestTimestamp int64
 
-	maxPerSource      int
-	maxTimestampFudge int64
+	maxPerSource int
 
 	metrics Metrics
 	mc      MemoryConsultant
@@ -62,9 +61,8 @@ type Metrics struct {
 
 func NewStore(maxPerSource int, mc MemoryConsultant, m MetricsRegistry) *Store {
 	store := &Store{
-		maxPerSource:      maxPerSource,
-		maxTimestampFudge: 4000,
-		oldestTimestamp:   MIN_INT64,
+		maxPerSource:    maxPerSource,
+		oldestTimestamp: MIN_INT64,
 
 		metrics: Metrics{
 			incExpired:            m.NewCounter("log_cache_expired"),
@@ -98,7 +96,7 @@ func (store *Store) getOrInitializeStorage(sourceId string) (*storage, bool) {
 	if !existingSourceId {
 		envelopeStorage = &storage{
 			sourceId: sourceId,
-			Tree:     avltree.NewWith(utils.Int64Comparator),
+			Tree:     avltree.NewWith(compareKeys),
 		}
 		store.storageIndex.Store(sourceId, envelopeStorage.(*storage))
 		newStorage = true
@@ -113,8 +111,7 @@ func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) {
 
 	// If we're at our maximum capacity, remove an envelope before inserting
 	if storage.Size() >= store.maxPerSource {
-		oldestTimestamp := storage.Left().Key.(int64)
-		storage.Remove(oldestTimestamp)
+		storage.Remove(storage.Left().Key)
 		storage.meta.Expired++
 		store.metrics.incExpired.Add(1)
 	} else {
@@ -122,22 +119,14 @@ func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) {
 		store.metrics.setStoreSize.Set(float64(atomic.LoadInt64(&store.count)))
 	}
 
-	var timestampFudge int64
-	for timestampFudge = 0; timestampFudge < store.maxTimestampFudge; timestampFudge++ {
-		_, exists := storage.Get(e.Timestamp + timestampFudge)
-
-		if !exists {
-			break
-		}
-	}
-
-	storage.Put(e.Timestamp+timestampFudge, e)
+	storage.sequence++
+	storage.Put(envelopeKey{timestamp: e.Timestamp, sequence: storage.sequence}, e)
 
 	if e.Timestamp > storage.meta.NewestTimestamp {
 		storage.meta.NewestTimestamp = e.Timestamp
 	}
 
-	oldestTimestamp := storage.Left().Key.(int64)
+	oldestTimestamp := storage.oldestTimestamp()
 	storage.meta.OldestTimestamp = oldestTimestamp
 	storeOldestTimestamp := atomic.LoadInt64(&store.oldestTimestamp)
 
@@ -191,7 +180,7 @@ func (store *Store) BuildExpirationHeap() *ExpirationHeap {
 
 	store.storageIndex.Range(func(sourceId interface{}, tree interface{}) bool {
 		tree.(*storage).RLock()
-		oldestTimestamp := tree.(*storage).Left().Key.(int64)
+		oldestTimestamp := tree.(*storage).oldestTimestamp()
 		heap.Push(expirationHeap, storageExpiration{timestamp: oldestTimestamp, sourceId: sourceId.(string), tree: tree.(*storage)})
 		tree.(*storage).RUnlock()
 
@@ -263,15 +252,14 @@ func (store *Store) removeOldestEnvelope(treeToPrune *storage, sourceId string)
 
 	oldestEnvelope := treeToPrune.Left()
 
-	treeToPrune.Remove(oldestEnvelope.Key.(int64))
+	treeToPrune.Remove(oldestEnvelope.Key)
 
 	if treeToPrune.Size() == 0 {
 		store.storageIndex.Delete(sourceId)
 		return 0, false
 	}
 
-	newOldestEnvelope := treeToPrune.Left()
-	oldestTimestampAfterRemoval := newOldestEnvelope.Key.(int64)
+	oldestTimestampAfterRemoval := treeToPrune.oldestTimestamp()
 
 	treeToPrune.meta.Expired++
 	treeToPrune.meta.OldestTimestamp = oldestTimestampAfterRemoval
@@ -305,6 +293,12 @@ func (store *Store) Get(
 
 	var res []*loggregator_v2.Envelope
 	traverser(tree.(*storage).Root, start.UnixNano(), end.UnixNano(), func(e *loggregator_v2.Envelope) bool {
+		// Return true to stop traversing, but never break up a group of
+		// envelopes that share a timestamp.
+		if n := len(res); n > 0 && n >= limit && res[n-1].GetTimestamp() != e.GetTimestamp() {
+			return true
+		}
+
 		e = store.filterByName(e, nameFilter)
 		if e == nil {
 			return false
@@ -314,8 +308,7 @@ func (store *Store) Get(
 			res = append(res, e)
 		}
 
-		// Return true to stop traversing
-		return len(res) >= limit
+		return false
 	})
 
 	store.metrics.incEgress.Add(float64(len(res)))
@@ -399,7 +392,7 @@ func (s *Store) treeAscTraverse(
 			return true
 		}
 
-		if (t >= end || f(e)) && !isNodeAFudgeSequenceMember(n, 1) {
+		if t >= end || f(e) {
 			return true
 		}
 	}
@@ -407,29 +400,6 @@ func (s *Store) treeAscTraverse(
 	return s.treeAscTraverse(n.Children[1], start, end, f)
 }
 
-func isNodeAFudgeSequenceMember(node *avltree.Node, nextChildIndex int) bool {
-	e := node.Value.(*loggregator_v2.Envelope)
-	timestamp := e.GetTimestamp()
-
-	// check if node is internal to a fudge sequence
-	if timestamp != node.Key.(int64) {
-		return true
-	}
-
-	// node is not internal, but could initiate a fudge sequence, so
-	// check next child
-	nextChild := node.Children[nextChildIndex]
-	if nextChild == nil {
-		return false
-	}
-
-	// if next child exists, check it for fudge sequence membership.
-	// if the child's timestamps don't match, then the parent is the first
-	// member of a fudge sequence.
-	nextEnvelope := nextChild.Value.(*loggregator_v2.Envelope)
-	return (nextEnvelope.GetTimestamp() != nextChild.Key.(int64))
-}
-
 func (s *Store) treeDescTraverse(
 	n *avltree.Node,
 	start int64,
@@ -448,7 +418,7 @@ func (s *Store) treeDescTraverse(
 			return true
 		}
 
-		if (t < start || f(e)) && !isNodeAFudgeSequenceMember(n, 0) {
+		if t < start || f(e) {
 			return true
 		}
 	}
@@ -508,10 +478,31 @@ type storage struct {
 	sourceId string
 	meta     logcache_v1.MetaInfo
 
+	// sequence numbers the envelopes in their order of arrival
+	sequence uint64
+
 	*avltree.Tree
 	sync.RWMutex
 }
 
+func (storage *storage) oldestTimestamp() int64 {
+	return storage.Left().Key.(envelopeKey).timestamp
+}
+
+// envelopeKey orders envelopes by timestamp, and by arrival if they share one.
+type envelopeKey struct {
+	timestamp int64
+	sequence  uint64
+}
+
+func compareKeys(a, b interface{}) int {
+	k1, k2 := a.(envelopeKey), b.(envelopeKey)
+	if c := utils.Int64Comparator(k1.timestamp, k2.timestamp); c != 0 {
+		return c
+	}
+	return utils.UInt64Comparator(k1.sequence, k2.sequence)
+}
+
 type ExpirationHeap []storageExpiration
 
 type storageExpiration struct {
-- 
2.43.0


From e0641afb84adc0903130278038cbf97b075b08ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 02/32] fix: report the cache period of the oldest envelope
 left after pruning

ExpirationHeap.Pop takes the last element of the slice; only heap.Pop
yields the minimum.
---
 internal/cache/store/store.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index bd0d131..c4a0948 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -232,9 +232,9 @@ func (store *Store) truncate() {
 	}
 
 	// Otherwise, grab the next oldest timestamp and use it to update the cache period
-	if oldest := expirationHeap.Pop(); oldest.(storageExpiration).tree != nil {
-		atomic.StoreInt64(&store.oldestTimestamp, oldest.(storageExpiration).timestamp)
-		cachePeriod := calculateCachePeriod(oldest.(storageExpiration).timestamp)
+	if oldest := heap.Pop(expirationHeap).(storageExpiration); oldest.tree != nil {
+		atomic.StoreInt64(&store.oldestTimestamp, oldest.timestamp)
+		cachePeriod := calculateCachePeriod(oldest.timestamp)
 		store.metrics.setCachePeriod.Set(float64(cachePeriod))
 	}
 }
-- 
2.43.0


From e9e21859fdd5daf1c50032c88a0622ab220d69d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:38 +0000
Subject: [PATCH 03/32] fix: do not lose an envelope put while its source is
 pruned away

A put that had already looked up the storage of its source inserted into
it even if the pruner had removed the last envelope and unlinked it by
then: the envelope could never be read or pruned. And a source registered
but still without an envelope made the pruner dereference nil.
---
 internal/cache/store/store.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index c4a0948..30b48c6 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -105,10 +105,16 @@ func (store *Store) getOrInitializeStorage(sourceId string) (*storage, bool) {
 	return envelopeStorage.(*storage), newStorage
 }
 
-func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) {
+// insertOrSwap inserts the envelope, unless the storage has been unlinked from
+// the index in the meantime. It reports whether it did.
+func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) bool {
 	storage.Lock()
 	defer storage.Unlock()
 
+	if storage.unlinked {
+		return false
+	}
+
 	// If we're at our maximum capacity, remove an envelope before inserting
 	if storage.Size() >= store.maxPerSource {
 		storage.Remove(storage.Left().Key)
@@ -137,6 +143,8 @@ func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) {
 
 	cachePeriod := calculateCachePeriod(storeOldestTimestamp)
 	store.metrics.setCachePeriod.Set(float64(cachePeriod))
+
+	return true
 }
 
 func (store *Store) WaitForTruncationToComplete() bool {
@@ -170,8 +178,12 @@ func (store *Store) truncationLoop(runInterval time.Duration) {
 func (store *Store) Put(envelope *loggregator_v2.Envelope, sourceId string) {
 	store.metrics.incIngress.Add(1)
 
-	envelopeStorage, _ := store.getOrInitializeStorage(sourceId)
-	envelopeStorage.insertOrSwap(store, envelope)
+	for {
+		envelopeStorage, _ := store.getOrInitializeStorage(sourceId)
+		if envelopeStorage.insertOrSwap(store, envelope) {
+			return
+		}
+	}
 }
 
 func (store *Store) BuildExpirationHeap() *ExpirationHeap {
@@ -180,9 +192,15 @@ func (store *Store) BuildExpirationHeap() *ExpirationHeap {
 
 	store.storageIndex.Range(func(sourceId interface{}, tree interface{}) bool {
 		tree.(*storage).RLock()
+		defer tree.(*storage).RUnlock()
+
+		// A source that was just registered does not have an envelope yet
+		if tree.(*storage).Size() == 0 {
+			return true
+		}
+
 		oldestTimestamp := tree.(*storage).oldestTimestamp()
 		heap.Push(expirationHeap, storageExpiration{timestamp: oldestTimestamp, sourceId: sourceId.(string), tree: tree.(*storage)})
-		tree.(*storage).RUnlock()
 
 		return true
 	})
@@ -255,6 +273,7 @@ func (store *Store) removeOldestEnvelope(treeToPrune *storage, sourceId string)
 	treeToPrune.Remove(oldestEnvelope.Key)
 
 	if treeToPrune.Size() == 0 {
+		treeToPrune.unlinked = true
 		store.storageIndex.Delete(sourceId)
 		return 0, false
 	}
@@ -481,6 +500,9 @@ type storage struct {
 	// sequence numbers the envelopes in their order of arrival
 	sequence uint64
 
+	// unlinked is set once the storage has been removed from the index
+	unlinked bool
+
 	*avltree.Tree
 	sync.RWMutex
 }
-- 
2.43.0


From 487e631c4164b32787ba9f83d28ef94382bccd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:38 +0000
Subject: [PATCH 04/32] fix: do not panic in Meta when a source is pruned away
 meanwhile

Meta looked every source up a second time to count its envelopes, and
asserted the type of nil if the pruner had unlinked it in between.
---
 internal/cache/store/store.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index 30b48c6..9d53610 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -474,22 +474,21 @@ func (store *Store) Meta() map[string]logcache_v1.MetaInfo {
 
 	store.storageIndex.Range(func(sourceId interface{}, tree interface{}) bool {
 		tree.(*storage).RLock()
-		metaReport[sourceId.(string)] = tree.(*storage).meta
-		tree.(*storage).RUnlock()
+		defer tree.(*storage).RUnlock()
+
+		// A source may be registered before its first envelope is stored, or
+		// have lost its last one
+		if tree.(*storage).Size() == 0 {
+			return true
+		}
+
+		meta := tree.(*storage).meta
+		meta.Count = int64(tree.(*storage).Size())
+		metaReport[sourceId.(string)] = meta
 
 		return true
 	})
 
-	// Range over our local copy of metaReport
-	// TODO - shouldn't we just maintain Count on metaReport..?!
-	for sourceId, meta := range metaReport {
-		tree, _ := store.storageIndex.Load(sourceId)
-
-		tree.(*storage).RLock()
-		meta.Count = int64(tree.(*storage).Size())
-		tree.(*storage).RUnlock()
-		metaReport[sourceId] = meta
-	}
 	return metaReport
 }
 
-- 
2.43.0


From 11d5781a62636d2fbd9a3ad5de519e5c7d4918f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:42 +0000
Subject: [PATCH 05/32] fix: fail a walking read whose underlying reads fail

WalkingDataReader returned what it had read so far, and no error, once
Walk gave up after five failed reads in a row: PromQL queries were
silently evaluated on incomplete data.
---
 .../promql/data_reader/walking_data_reader.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/promql/data_reader/walking_data_reader.go b/internal/promql/data_reader/walking_data_reader.go
index e8f9956..254b0b9 100644
--- a/internal/promql/data_reader/walking_data_reader.go
+++ b/internal/promql/data_reader/walking_data_reader.go
@@ -25,11 +25,24 @@ func (r *WalkingDataReader) Read(
 ) (*logcache_v1.ReadResponse, error) {
 
 	var result []*loggregator_v2.Envelope
+	var readErr error
+
+	// Walk does not report why it stopped, so remember how the last read went.
+	reader := func(
+		ctx context.Context,
+		sourceID string,
+		start time.Time,
+		opts ...client.ReadOption,
+	) ([]*loggregator_v2.Envelope, error) {
+		es, err := r.r(ctx, sourceID, start, opts...)
+		readErr = err
+		return es, err
+	}
 
 	client.Walk(ctx, in.GetSourceId(), func(es []*loggregator_v2.Envelope) bool {
 		result = append(result, es...)
 		return true
-	}, r.r,
+	}, reader,
 		client.WithWalkStartTime(time.Unix(0, in.GetStartTime())),
 		client.WithWalkEndTime(time.Unix(0, in.GetEndTime())),
 		client.WithWalkLimit(int(in.GetLimit())),
@@ -41,6 +54,10 @@ func (r *WalkingDataReader) Read(
 		return nil, err
 	}
 
+	if readErr != nil {
+		return nil, readErr
+	}
+
 	return &logcache_v1.ReadResponse{
 		Envelopes: &loggregator_v2.EnvelopeBatch{
 			Batch: result,
-- 
2.43.0


From e8aa5ed0f0466dfcc3e4de4cd532e47ac5e111b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 06/32] fix: guard the OAuth2 token when clearing it

Do cleared the token without the lock, while another call may be reading
it: a data race, after which a request may go out without a token.
---
 pkg/client/oauth2_http_client.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/client/oauth2_http_client.go b/pkg/client/oauth2_http_client.go
index e56c903..bb8a0be 100644
--- a/pkg/client/oauth2_http_client.go
+++ b/pkg/client/oauth2_http_client.go
@@ -101,13 +101,20 @@ func (c *Oauth2HTTPClient) Do(req *http.Request) (*http.Response, error) {
 	}
 
 	if resp.StatusCode < http.StatusOK || resp.StatusCode >= http.StatusMultipleChoices {
-		c.token = ""
+		c.clearToken()
 		return resp, nil
 	}
 
 	return resp, nil
 }
 
+func (c *Oauth2HTTPClient) clearToken() {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	c.token = ""
+}
+
 func (c *Oauth2HTTPClient) getToken() (string, error) {
 	if c.username == "" {
 		return c.getClientToken()
-- 
2.43.0


From 89c70f2a96835bd485d36a165abe8398884078d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 07/32] fix: do not panic when a gRPC read answers without a
 batch

---
 pkg/client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index 53367ab..0ba1d5a 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -235,7 +235,7 @@ func (c *Client) grpcRead(ctx context.Context, sourceID string, start time.Time,
 	if err != nil {
 		return nil, err
 	}
-	return resp.Envelopes.Batch, nil
+	return resp.GetEnvelopes().GetBatch(), nil
 }
 
 // Meta returns meta information from the entire LogCache.
-- 
2.43.0


From 26be6052830b832e6e1d4348ca9e1fb8a766a55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:54 +0000
Subject: [PATCH 08/32] fix: encode a series without points as an empty array,
 not null

---
 pkg/marshaler/marshaler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/marshaler/marshaler.go b/pkg/marshaler/marshaler.go
index cd96143..3072d77 100644
--- a/pkg/marshaler/marshaler.go
+++ b/pkg/marshaler/marshaler.go
@@ -166,7 +166,7 @@ func assembleMatrixResultData(v *logcache_v1.PromQL_Matrix) (resultData, error)
 	result := make([]interface{}, 0)
 
 	for _, s := range v.GetSeries() {
-		var values [][]interface{}
+		values := make([][]interface{}, 0)
 		for _, p := range s.GetPoints() {
 			point, err := assemblePoint(p.GetTime(), p.GetValue())
 			if err != nil {
-- 
2.43.0


From 131c72f53a44172dfdb693bf2a551c2732d1e219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:15 +0000
Subject: [PATCH 09/32] fix: do not let the query parameter sourceId replace
 the source of the path

---
 pkg/rpc/logcache_v1/egress.pb.gw.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/rpc/logcache_v1/egress.pb.gw.go b/pkg/rpc/logcache_v1/egress.pb.gw.go
index 3ea2882..4489712 100644
--- a/pkg/rpc/logcache_v1/egress.pb.gw.go
+++ b/pkg/rpc/logcache_v1/egress.pb.gw.go
@@ -29,7 +29,7 @@ var _ = runtime.String
 var _ = utilities.NewDoubleArray
 
 var (
-	filter_Egress_Read_0 = &utilities.DoubleArray{Encoding: map[string]int{"source_id": 0}, Base: []int{1, 1, 0}, Check: []int{0, 1, 2}}
+	filter_Egress_Read_0 = &utilities.DoubleArray{Encoding: map[string]int{"source_id": 0, "sourceId": 1}, Base: []int{1, 1, 2, 0, 0}, Check: []int{0, 1, 1, 2, 3}}
 )
 
 func request_Egress_Read_0(ctx context.Context, marshaler runtime.Marshaler, client EgressClient, req *http.Request, pathParams map[string]string) (proto.Message, runtime.ServerMetadata, error) {
-- 
2.43.0


From 196eb40ffb9cc82ace7724f0d50a3d3ba2771a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:25 +0000
Subject: [PATCH 10/32] fix: serve reads of sources whose name contains a colon
 through the gateway

---
 pkg/rpc/logcache_v1/egress.pb.gw.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/rpc/logcache_v1/egress.pb.gw.go b/pkg/rpc/logcache_v1/egress.pb.gw.go
index 4489712..044b77f 100644
--- a/pkg/rpc/logcache_v1/egress.pb.gw.go
+++ b/pkg/rpc/logcache_v1/egress.pb.gw.go
@@ -180,7 +180,7 @@ func RegisterEgressHandlerClient(ctx context.Context, mux *runtime.ServeMux, cli
 }
 
 var (
-	pattern_Egress_Read_0 = runtime.MustPattern(runtime.NewPattern(1, []int{2, 0, 2, 1, 2, 2, 3, 0, 4, 1, 5, 3}, []string{"api", "v1", "read", "source_id"}, ""))
+	pattern_Egress_Read_0 = runtime.MustPattern(runtime.NewPattern(1, []int{2, 0, 2, 1, 2, 2, 3, 0, 4, 1, 5, 3}, []string{"api", "v1", "read", "source_id"}, "", runtime.AssumeColonVerbOpt(false)))
 
 	pattern_Egress_Meta_0 = runtime.MustPattern(runtime.NewPattern(1, []int{2, 0, 2, 1, 2, 2}, []string{"api", "v1", "meta"}, ""))
 )
-- 
2.43.0


From c6544baa4edfc88195d7b1c169e8b8ed5286b933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:56 +0000
Subject: [PATCH 11/32] fix: emit measured metrics when the blackbox has no
 HTTP data source

---
 internal/blackbox/blackbox.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/internal/blackbox/blackbox.go b/internal/blackbox/blackbox.go
index 10276c3..df7a4de 100644
--- a/internal/blackbox/blackbox.go
+++ b/internal/blackbox/blackbox.go
@@ -151,14 +151,17 @@ func EmitMeasuredMetrics(sourceId string, ingressClient logcache_v1.IngressClien
 		return
 	}
 
-	up, err := logCache.LogCacheVMUptime(context.TODO())
-	if err != nil {
-		log.Printf("Couldn't fetch vm uptime, ignoring it: %s", err.Error())
-	}
+	// Without an HTTP data source there is nobody to ask for the uptime.
+	if logCache != nil {
+		up, err := logCache.LogCacheVMUptime(context.TODO())
+		if err != nil {
+			log.Printf("Couldn't fetch vm uptime, ignoring it: %s", err.Error())
+		}
 
-	if up >= 0 && up < TEN_MINUTES {
-		log.Printf("vm uptime less than 10 minutes: %d seconds", up)
-		return
+		if up >= 0 && up < TEN_MINUTES {
+			log.Printf("vm uptime less than 10 minutes: %d seconds", up)
+			return
+		}
 	}
 
 	for metricName, value := range metrics {
@@ -181,7 +184,7 @@ func EmitMeasuredMetrics(sourceId string, ingressClient logcache_v1.IngressClien
 	}
 
 	ctx, _ := context.WithTimeout(context.Background(), 10*time.Second)
-	_, err = ingressClient.Send(ctx, &logcache_v1.SendRequest{
+	_, err := ingressClient.Send(ctx, &logcache_v1.SendRequest{
 		Envelopes: &loggregator_v2.EnvelopeBatch{
 			Batch: batch,
 		},
-- 
2.43.0


From d88cda1ea443c2d97eaba1b8d4c972ed932001bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:54 +0000
Subject: [PATCH 12/32] fix: require and verify client certificates on mutual
 TLS servers

---
 internal/tls/tls.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/tls/tls.go b/internal/tls/tls.go
index 640ade1..5ccfe57 100644
--- a/internal/tls/tls.go
+++ b/internal/tls/tls.go
@@ -60,6 +60,8 @@ func NewMutualTLSConfig(caPath, certPath, keyPath, cn string) (*tls.Config, erro
 	}
 
 	tlsConfig.RootCAs = caCertPool
+	tlsConfig.ClientCAs = caCertPool
+	tlsConfig.ClientAuth = tls.RequireAndVerifyClientCert
 
 	return tlsConfig, nil
 }
-- 
2.43.0


From 41df9880d361a2fda255dc59e3cbb26a9c28af4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:39 +0000
Subject: [PATCH 13/32] fix: route an envelope once to a node with overlapping
 ranges

---
 internal/routing/routing_table.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/routing/routing_table.go b/internal/routing/routing_table.go
index 2f9a4f6..1e400b3 100644
--- a/internal/routing/routing_table.go
+++ b/internal/routing/routing_table.go
@@ -44,12 +44,25 @@ func (t *RoutingTable) Lookup(item string) []int {
 			// Outside of range
 			continue
 		}
+		if contains(result, r.idx) {
+			// The node has several ranges that include the hash.
+			continue
+		}
 		result = append(result, r.idx)
 	}
 
 	return result
 }
 
+func contains(idxs []int, idx int) bool {
+	for _, i := range idxs {
+		if i == idx {
+			return true
+		}
+	}
+	return false
+}
+
 // LookupAll returns every index that has a range where the item would
 // fall under.
 func (t *RoutingTable) LookupAll(item string) []int {
-- 
2.43.0


From 260f6de9b6d4e710bfc38db21af3141c95633b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:39 +0000
Subject: [PATCH 14/32] fix: do not let RemoveRange alter a list of ranges
 already answered

---
 internal/routing/orchestrator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/routing/orchestrator.go b/internal/routing/orchestrator.go
index 6c781ef..d3faf34 100644
--- a/internal/routing/orchestrator.go
+++ b/internal/routing/orchestrator.go
@@ -59,8 +59,10 @@ func (o *OrchestratorAgent) ListRanges(ctx context.Context, r *rpc.ListRangesReq
 	o.mu.RLock()
 	defer o.mu.RUnlock()
 
+	// RemoveRange alters the slice in place while the response may still be
+	// in use.
 	return &rpc.ListRangesResponse{
-		Ranges: o.ranges,
+		Ranges: append([]*rpc.Range(nil), o.ranges...),
 	}, nil
 }
 
-- 
2.43.0


From 1babe8d53c893671104c7390a4b68c89b6900318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:39 +0000
Subject: [PATCH 15/32] fix: do not panic on an ingress request without a batch

---
 internal/routing/ingress_reverse_proxy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/routing/ingress_reverse_proxy.go b/internal/routing/ingress_reverse_proxy.go
index f30d4a7..7bcf24d 100644
--- a/internal/routing/ingress_reverse_proxy.go
+++ b/internal/routing/ingress_reverse_proxy.go
@@ -45,7 +45,7 @@ func (p *IngressReverseProxy) Send(ctx context.Context, r *rpc.SendRequest) (*rp
 
 	envelopesByNode := make(map[int][]*loggregator_v2.Envelope)
 
-	for _, e := range r.Envelopes.Batch {
+	for _, e := range r.GetEnvelopes().GetBatch() {
 		for _, idx := range p.l(e.GetSourceId()) {
 			envelopesByNode[idx] = append(envelopesByNode[idx], e)
 		}
-- 
2.43.0


From 9be041b45946b2372c33f2a7528cb332c08557b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:39 +0000
Subject: [PATCH 16/32] fix: do not lose envelopes forwarded by concurrent
 requests

---
 internal/routing/batched_ingress_client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/routing/batched_ingress_client.go b/internal/routing/batched_ingress_client.go
index 249520e..4cdd4ca 100644
--- a/internal/routing/batched_ingress_client.go
+++ b/internal/routing/batched_ingress_client.go
@@ -3,6 +3,7 @@ package routing
 import (
 	"code.cloudfoundry.org/go-loggregator/metrics"
 	"log"
+	"sync"
 	"time"
 
 	batching "code.cloudfoundry.org/go-batching"
@@ -18,6 +19,8 @@ import (
 type BatchedIngressClient struct {
 	c rpc.IngressClient
 
+	// mu guards writes to buffer, which supports a single writer only.
+	mu     sync.Mutex
 	buffer   *diodes.OneToOne
 	size     int
 	interval time.Duration
@@ -51,6 +54,8 @@ func NewBatchedIngressClient(
 
 // Send batches envelopes before shipping them to the client.
 func (b *BatchedIngressClient) Send(ctx context.Context, in *rpc.SendRequest, opts ...grpc.CallOption) (*rpc.SendResponse, error) {
+	b.mu.Lock()
+	defer b.mu.Unlock()
 	for i := range in.GetEnvelopes().GetBatch() {
 		b.buffer.Set(diodes.GenericDataType(in.Envelopes.Batch[i]))
 	}
-- 
2.43.0


From faade234845f6782a78e9a0b7ec782b621fbb1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 17/32] fix: do not crash on syslog messages with nil fields

RFC 5424 lets the application name, the time, the process id and the
message be absent. Any of them being so stopped the server.
---
 internal/syslog/server.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/internal/syslog/server.go b/internal/syslog/server.go
index 7007d7b..bf32ef1 100644
--- a/internal/syslog/server.go
+++ b/internal/syslog/server.go
@@ -152,7 +152,21 @@ func (s *Server) parseListener(res *syslog.Result) {
 }
 
 func (s *Server) convertToEnvelope(msg syslog.Message) (*loggregator_v2.Envelope, error) {
-	sourceType, instanceId := s.sourceTypeInstIdFromPID(*msg.ProcID())
+	if msg.Appname() == nil {
+		return nil, errors.New("expected app name not found in message")
+	}
+	if msg.Timestamp() == nil {
+		return nil, errors.New("expected timestamp not found in message")
+	}
+
+	var sourceType, instanceId, payload string
+	if msg.ProcID() != nil {
+		sourceType, instanceId = s.sourceTypeInstIdFromPID(*msg.ProcID())
+	}
+	if msg.Message() != nil {
+		payload = *msg.Message()
+	}
+
 	env := &loggregator_v2.Envelope{
 		SourceId:   *msg.Appname(),
 		Timestamp:  msg.Timestamp().UnixNano(),
@@ -178,7 +192,7 @@ func (s *Server) convertToEnvelope(msg syslog.Message) (*loggregator_v2.Envelope
 
 	env.Message = &loggregator_v2.Envelope_Log{
 		Log: &loggregator_v2.Log{
-			Payload: []byte(strings.TrimSpace(*msg.Message())),
+			Payload: []byte(strings.TrimSpace(payload)),
 			Type:    s.typeFromPriority(int(*msg.Priority())),
 		},
 	}
-- 
2.43.0


From 98a8bd8920b9e368fe8d1ba6e92faa6e2c7f2b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 18/32] fix: do not let an escaped line break in a path forge
 access log lines

---
 internal/auth/access_log.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/auth/access_log.go b/internal/auth/access_log.go
index f7c7d3d..faeef69 100644
--- a/internal/auth/access_log.go
+++ b/internal/auth/access_log.go
@@ -44,9 +44,10 @@ func NewAccessLog(req *http.Request, ts time.Time, host, port string) *AccessLog
 
 func (al *AccessLog) String() string {
 	vcapRequestId := al.request.Header.Get(requestIDHeader)
-	path := al.request.URL.Path
+	// the path stays escaped: unescaped, it could bring line breaks into the log
+	path := al.request.URL.EscapedPath()
 	if al.request.URL.RawQuery != "" {
-		path = fmt.Sprintf("%s?%s", al.request.URL.Path, al.request.URL.RawQuery)
+		path = fmt.Sprintf("%s?%s", path, al.request.URL.RawQuery)
 	}
 	remoteHost, remotePort := al.extractRemoteInfo()
 
-- 
2.43.0


From de0b9f92eddb24e47eba3f857bc19ee1d086fa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 19/32] fix: log requests as they were, not escaped for HTML

---
 internal/auth/access_log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/auth/access_log.go b/internal/auth/access_log.go
index faeef69..8bc72ea 100644
--- a/internal/auth/access_log.go
+++ b/internal/auth/access_log.go
@@ -3,11 +3,11 @@ package auth
 import (
 	"bytes"
 	"fmt"
-	"html/template"
 	"log"
 	"net"
 	"net/http"
 	"strings"
+	"text/template"
 	"time"
 )
 
-- 
2.43.0


From 44d4b8ba5e815a5302b91e7ce715b8e3d8bae9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 20/32] fix: log forwarded IPv6 addresses that come without a
 port

---
 internal/auth/access_log.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/auth/access_log.go b/internal/auth/access_log.go
index 8bc72ea..9ba32ab 100644
--- a/internal/auth/access_log.go
+++ b/internal/auth/access_log.go
@@ -81,6 +81,10 @@ func (al *AccessLog) extractRemoteInfo() (string, string) {
 		remoteAddr = al.request.RemoteAddr
 	}
 
+	if ip := strings.Trim(remoteAddr, "[]"); net.ParseIP(ip) != nil {
+		return ip, ""
+	}
+
 	if !strings.Contains(remoteAddr, ":") {
 		remoteAddr += ":"
 	}
-- 
2.43.0


From 7cb2b22c060cf240b7b7aaff1d457053eb3cce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 21/32] fix: do not panic on a token without a usable key id

---
 internal/auth/uaa_client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/auth/uaa_client.go b/internal/auth/uaa_client.go
index 81b6adb..75b973e 100644
--- a/internal/auth/uaa_client.go
+++ b/internal/auth/uaa_client.go
@@ -182,7 +182,10 @@ func (c *UAAClient) Read(token string) (Oauth2ClientContext, error) {
 			return AlgorithmError{Alg: headers["alg"].(string)}
 		}
 
-		keyId := headers["kid"].(string)
+		keyId, ok := headers["kid"].(string)
+		if !ok {
+			return errors.New("missing or malformed token key id")
+		}
 
 		publicKey, err := c.loadOrFetchPublicKey(keyId)
 		if err != nil {
-- 
2.43.0


From 071936b027ce2731996aee025b692fbd82dfbee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 22/32] fix: release refused answers of the UAA

---
 internal/auth/uaa_client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/auth/uaa_client.go b/internal/auth/uaa_client.go
index 75b973e..1357a7d 100644
--- a/internal/auth/uaa_client.go
+++ b/internal/auth/uaa_client.go
@@ -101,10 +101,11 @@ func (c *UAAClient) RefreshTokenKeys() error {
 		return fmt.Errorf("failed to get token keys from UAA: %s", err)
 	}
 
+	defer resp.Body.Close()
+
 	if resp.StatusCode != http.StatusOK {
 		return fmt.Errorf("got an invalid status code talking to UAA %v", resp.Status)
 	}
-	defer resp.Body.Close()
 
 	tokenKeys, err := unmarshalTokenKeys(resp.Body)
 	if err != nil {
-- 
2.43.0


From 4e9fa83a0fb9d88a9475d4d67e54d52720126bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 23/32] fix: let only one of several concurrent token key
 refreshes go ahead

---
 internal/auth/uaa_client.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/internal/auth/uaa_client.go b/internal/auth/uaa_client.go
index 1357a7d..eb4de19 100644
--- a/internal/auth/uaa_client.go
+++ b/internal/auth/uaa_client.go
@@ -76,17 +76,22 @@ func WithMinimumRefreshInterval(interval time.Duration) UAAOption {
 }
 
 func (c *UAAClient) RefreshTokenKeys() error {
-	lastQueryTime := atomic.LoadInt64(&c.lastQueryTime)
-	nextAllowedRefreshTime := time.Unix(0, lastQueryTime).Add(c.minimumRefreshInterval)
-	if time.Now().Before(nextAllowedRefreshTime) {
-		c.log.Printf(
-			"UAA TokenKey refresh throttled to every %s, try again in %s",
-			c.minimumRefreshInterval,
-			time.Until(nextAllowedRefreshTime).Round(time.Millisecond),
-		)
-		return nil
+	for {
+		lastQueryTime := atomic.LoadInt64(&c.lastQueryTime)
+		nextAllowedRefreshTime := time.Unix(0, lastQueryTime).Add(c.minimumRefreshInterval)
+		if time.Now().Before(nextAllowedRefreshTime) {
+			c.log.Printf(
+				"UAA TokenKey refresh throttled to every %s, try again in %s",
+				c.minimumRefreshInterval,
+				time.Until(nextAllowedRefreshTime).Round(time.Millisecond),
+			)
+			return nil
+		}
+		// only one of several concurrent refreshes may go ahead
+		if atomic.CompareAndSwapInt64(&c.lastQueryTime, lastQueryTime, time.Now().UnixNano()) {
+			break
+		}
 	}
-	atomic.CompareAndSwapInt64(&c.lastQueryTime, lastQueryTime, time.Now().UnixNano())
 
 	req, err := http.NewRequest("GET", c.uaa.String(), nil)
 	if err != nil {
-- 
2.43.0


From 19f6e256a71dcc552d746582fe847ef59a8ebb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 24/32] fix: keep metric names that are given as a label when
 rewriting queries

---
 internal/promql/promql.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index e814c26..4833605 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -689,13 +689,31 @@ func (s *sourceIdReplacementVisitor) Visit(node promql.Node, _ []promql.Node) (p
 	switch selector := node.(type) {
 	case *promql.VectorSelector:
 		s.replaceInMatchers(selector.LabelMatchers)
+		keepNameMatcher(selector.Name, selector.LabelMatchers)
 	case *promql.MatrixSelector:
 		s.replaceInMatchers(selector.LabelMatchers)
+		keepNameMatcher(selector.Name, selector.LabelMatchers)
 	}
 
 	return s, nil
 }
 
+// keepNameMatcher sees to it that a metric name that is given as a label,
+// {__name__="name"}, is still there when the selector is printed: the printer
+// leaves such a matcher out, as the name is expected in front of the braces.
+func keepNameMatcher(name string, labelMatchers []*labels.Matcher) {
+	if name != "" {
+		return
+	}
+
+	for _, labelMatcher := range labelMatchers {
+		if labelMatcher.Name == labels.MetricName && labelMatcher.Type == labels.MatchEqual {
+			labelMatcher.Type = labels.MatchRegexp
+			labelMatcher.Value = regexp.QuoteMeta(labelMatcher.Value)
+		}
+	}
+}
+
 func (s *sourceIdReplacementVisitor) replaceInMatchers(labelMatchers []*labels.Matcher) {
 	for _, labelMatcher := range labelMatchers {
 		if labelMatcher.Name == "source_id" {
-- 
2.43.0


From 32cc52471e509ad1c35533fa4376b176b48e5432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 25/32] fix: apply each label, name and source_id matcher of a
 query as it is written

---
 internal/promql/promql.go | 175 ++++++++++++++++++++++++--------------
 1 file changed, 111 insertions(+), 64 deletions(-)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index 4833605..b29c91c 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -297,24 +297,20 @@ type LogCacheQuerier struct {
 }
 
 func (l *LogCacheQuerier) Select(params *storage.SelectParams, ll ...*labels.Matcher) (storage.SeriesSet, error) {
-	var (
-		metric string
-		ls     []labels.Label
-	)
+	var metric string
+	nameMatchers, labelMatchers := []*labels.Matcher{}, []*labels.Matcher{}
 	sourceIDs := make(map[string]struct{})
 	for _, l := range ll {
-		if l.Name == "__name__" {
+		if l.Name == labels.MetricName {
 			metric = l.Value
+			nameMatchers = append(nameMatchers, l)
 			continue
 		}
 		if l.Name == "source_id" {
 			addSourceIDsFromLabelMatcher(sourceIDs, l)
 			continue
 		}
-		ls = append(ls, labels.Label{
-			Name:  l.Name,
-			Value: l.Value,
-		})
+		labelMatchers = append(labelMatchers, l)
 	}
 
 	if len(sourceIDs) == 0 {
@@ -326,6 +322,10 @@ func (l *LogCacheQuerier) Select(params *storage.SelectParams, ll ...*labels.Mat
 	builder := newSeriesBuilder()
 
 	for sourceID := range sourceIDs {
+		if !matchesSourceID(sourceID, ll) {
+			continue
+		}
+
 		ctx, _ := context.WithTimeout(context.Background(), 5*time.Second)
 		envelopeBatch, err := l.dataReader.Read(ctx, &logcache_v1.ReadRequest{
 			SourceId:  sourceID,
@@ -344,67 +344,124 @@ func (l *LogCacheQuerier) Select(params *storage.SelectParams, ll ...*labels.Mat
 		}
 
 		for _, e := range envelopeBatch.GetEnvelopes().GetBatch() {
-			if !l.hasLabels(e.GetTags(), ls) {
+			tags := labelsFromEnvelope(e)
+			if !matchesLabels(tags, labelMatchers) {
 				continue
 			}
 
-			var f float64
-			switch e.Message.(type) {
-			case *loggregator_v2.Envelope_Counter:
-				if SanitizeMetricName(e.GetCounter().GetName()) != metric {
-					continue
-				}
-
-				f = float64(e.GetCounter().GetTotal())
-			case *loggregator_v2.Envelope_Gauge:
-				value := checkMapForSanitizedMetricName(e.GetGauge(), metric)
-
-				if value == nil {
-					continue
-				}
-
-				f = value.GetValue()
-			case *loggregator_v2.Envelope_Timer:
-				if SanitizeMetricName(e.GetTimer().GetName()) != metric {
-					continue
-				}
-
-				timer := e.GetTimer()
-				f = float64(timer.GetStop() - timer.GetStart())
-			default:
-				continue
+			timestamp := time.Unix(0, e.GetTimestamp()).Truncate(l.interval).UnixNano()
+
+			for _, f := range matchingValues(e, nameMatchers) {
+				builder.add(tags, point{
+					t: timestamp / int64(time.Millisecond),
+					v: f,
+				})
 			}
+		}
+	}
 
-			e.Timestamp = time.Unix(0, e.GetTimestamp()).Truncate(l.interval).UnixNano()
+	return builder.buildSeriesSet(), nil
+}
 
-			tags := e.GetTags()
-			if tags == nil {
-				tags = make(map[string]string)
+// matchingValues returns the values that the envelope holds under metric names
+// that match.
+func matchingValues(e *loggregator_v2.Envelope, nameMatchers []*labels.Matcher) []float64 {
+	switch e.Message.(type) {
+	case *loggregator_v2.Envelope_Counter:
+		if matchesMetricName(e.GetCounter().GetName(), nameMatchers) {
+			return []float64{float64(e.GetCounter().GetTotal())}
+		}
+	case *loggregator_v2.Envelope_Gauge:
+		var names []string
+		for name := range e.GetGauge().GetMetrics() {
+			if matchesMetricName(name, nameMatchers) {
+				names = append(names, name)
 			}
+		}
+		sort.Strings(names)
 
-			tags["source_id"] = e.SourceId
-			if e.InstanceId != "" {
-				tags["instance_id"] = e.InstanceId
-			}
+		var values []float64
+		for _, name := range names {
+			values = append(values, e.GetGauge().GetMetrics()[name].GetValue())
+		}
+		return values
+	case *loggregator_v2.Envelope_Timer:
+		timer := e.GetTimer()
+		if matchesMetricName(timer.GetName(), nameMatchers) {
+			return []float64{float64(timer.GetStop() - timer.GetStart())}
+		}
+	}
 
-			builder.add(tags, point{
-				t: e.GetTimestamp() / int64(time.Millisecond),
-				v: f,
-			})
+	return nil
+}
+
+func matchesMetricName(name string, nameMatchers []*labels.Matcher) bool {
+	name = SanitizeMetricName(name)
+
+	if len(nameMatchers) == 0 {
+		return name == ""
+	}
+
+	for _, m := range nameMatchers {
+		if !m.Matches(name) {
+			return false
 		}
 	}
 
-	return builder.buildSeriesSet(), nil
+	return true
 }
 
-func checkMapForSanitizedMetricName(gauge *loggregator_v2.Gauge, metric string) *loggregator_v2.GaugeValue {
-	metricsMap := gauge.GetMetrics()
-	for k, v := range metricsMap {
-		if SanitizeMetricName(k) == metric {
-			return v
+// matchesSourceID reports whether every source_id matcher lets the source
+// pass. The values of a regular expression are read as a list of source IDs,
+// as they are in addSourceIDsFromLabelMatcher.
+func matchesSourceID(sourceID string, matchers []*labels.Matcher) bool {
+	for _, m := range matchers {
+		if m.Name != "source_id" {
+			continue
+		}
+
+		switch m.Type {
+		case labels.MatchEqual, labels.MatchRegexp:
+			listed := make(map[string]struct{})
+			addSourceIDsFromLabelMatcher(listed, m)
+			if _, ok := listed[sourceID]; !ok {
+				return false
+			}
+		default:
+			if !m.Matches(sourceID) {
+				return false
+			}
 		}
 	}
-	return nil
+
+	return true
+}
+
+// labelsFromEnvelope returns the labels of the series the envelope belongs to.
+func labelsFromEnvelope(e *loggregator_v2.Envelope) map[string]string {
+	tags := make(map[string]string)
+	for k, v := range e.GetTags() {
+		tags[k] = v
+	}
+
+	tags["source_id"] = e.GetSourceId()
+	if e.GetInstanceId() != "" {
+		tags["instance_id"] = e.GetInstanceId()
+	}
+
+	return tags
+}
+
+// matchesLabels applies each matcher to its label. As in Prometheus, a missing
+// label is the same as an empty one.
+func matchesLabels(tags map[string]string, matchers []*labels.Matcher) bool {
+	for _, m := range matchers {
+		if !m.Matches(tags[m.Name]) {
+			return false
+		}
+	}
+
+	return true
 }
 
 func SanitizeMetricName(name string) string {
@@ -427,16 +484,6 @@ func convertToLabels(tags map[string]string) []labels.Label {
 	return ls
 }
 
-func (l *LogCacheQuerier) hasLabels(tags map[string]string, ls []labels.Label) bool {
-	for _, l := range ls {
-		if v, ok := tags[l.Name]; !ok || v != l.Value {
-			return false
-		}
-	}
-
-	return true
-}
-
 func (l *LogCacheQuerier) LabelValues(name string) ([]string, error) {
 	panic("not implemented")
 }
-- 
2.43.0


From 48f6416540740482bab0888291908b2439f4ed56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:10 +0000
Subject: [PATCH 26/32] fix: keep series apart whose labels only look the same
 when joined

---
 internal/promql/promql.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index b29c91c..ca3c444 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -7,6 +7,7 @@ import (
 	"log"
 	"regexp"
 	"sort"
+	"strconv"
 	"strings"
 	"time"
 
@@ -611,7 +612,7 @@ func (b *seriesSetBuilder) getSeriesID(tags map[string]string) string {
 
 	var seriesID string
 	for _, k := range keys {
-		seriesID = seriesID + "-" + k + "-" + tags[k]
+		seriesID = seriesID + strconv.Quote(k) + strconv.Quote(tags[k])
 	}
 
 	return seriesID
-- 
2.43.0


From 34d5bad4ae37ede4f69d97438dae5a3833ce85c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 27/32] fix: refuse times and steps that are not numbers or do
 not fit

---
 internal/promql/parsing.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/promql/parsing.go b/internal/promql/parsing.go
index c847123..0bee93c 100644
--- a/internal/promql/parsing.go
+++ b/internal/promql/parsing.go
@@ -12,7 +12,7 @@ import (
 func ParseStep(param string) (time.Duration, error) {
 	if step, err := strconv.ParseFloat(param, 64); err == nil {
 		stepInNanoSeconds := step * float64(time.Second)
-		if stepInNanoSeconds > float64(math.MaxInt64) || stepInNanoSeconds < float64(math.MinInt64) {
+		if !fitsInt64(stepInNanoSeconds) {
 			return 0, fmt.Errorf("cannot parse %q to a valid step. It overflows int64", param)
 		}
 		return time.Duration(stepInNanoSeconds), nil
@@ -34,10 +34,23 @@ func ParseDuration(param string) (time.Duration, error) {
 
 func ParseTime(param string) (time.Time, error) {
 	if decimalTime, err := strconv.ParseFloat(param, 64); err == nil {
-		return time.Unix(0, int64(decimalTime*1e9)), nil
+		timeInNanoSeconds := decimalTime * 1e9
+		if !fitsInt64(timeInNanoSeconds) {
+			return time.Unix(0, 0), fmt.Errorf("cannot parse %q to a valid timestamp. It overflows int64", param)
+		}
+		return time.Unix(0, int64(timeInNanoSeconds)), nil
 	}
 	if t, err := time.Parse(time.RFC3339Nano, param); err == nil {
+		if t.Before(time.Unix(0, math.MinInt64)) || t.After(time.Unix(0, math.MaxInt64)) {
+			return time.Unix(0, 0), fmt.Errorf("cannot parse %q to a valid timestamp. It overflows int64", param)
+		}
 		return t, nil
 	}
 	return time.Unix(0, 0), fmt.Errorf("cannot parse %q to a valid Unix or RFC3339 timestamp", param)
 }
+
+// fitsInt64 is false for NaN. float64(math.MaxInt64) is the number after the
+// greatest int64.
+func fitsInt64(f float64) bool {
+	return f >= float64(math.MinInt64) && f < float64(math.MaxInt64)
+}
-- 
2.43.0


From b889fd4e02e8a1acb29c6288334c7a92eecd7a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 28/32] fix: refuse range queries that stop the program (no
 step, too many points)

---
 internal/promql/promql.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index ca3c444..f595db9 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -210,6 +210,10 @@ func (q *PromQL) RangeQuery(ctx context.Context, req *logcache_v1.PromQL_RangeQu
 		return nil, fmt.Errorf("couldn't parse end: %s", err)
 	}
 
+	if err := checkRange(startTime, endTime, step); err != nil {
+		return nil, err
+	}
+
 	qq, err := queryable.NewRangeQuery(lcq, req.Query, startTime, endTime, step)
 	if err != nil {
 		return nil, err
@@ -227,6 +231,28 @@ func (q *PromQL) RangeQuery(ctx context.Context, req *logcache_v1.PromQL_RangeQu
 	return q.toRangeQueryResult(r)
 }
 
+// maxPoints is how many points a series in the result of a range query may
+// have. It is the limit that Prometheus has.
+const maxPoints = 11000
+
+// checkRange refuses what the engine does not survive. It counts steps in
+// milliseconds.
+func checkRange(start, end time.Time, step time.Duration) error {
+	if step < time.Millisecond {
+		return fmt.Errorf("invalid step %s: must be at least a millisecond", step)
+	}
+
+	if end.Before(start) {
+		return fmt.Errorf("invalid range: end must not be before start")
+	}
+
+	if end.Sub(start)/step > maxPoints {
+		return fmt.Errorf("exceeded maximum resolution of %d points per timeseries. Try decreasing the query resolution (step)", maxPoints)
+	}
+
+	return nil
+}
+
 func (q *PromQL) toRangeQueryResult(r *promql.Result) (*logcache_v1.PromQL_RangeQueryResult, error) {
 	if r.Err != nil {
 		return nil, r.Err
-- 
2.43.0


From c4ae19876b5abffbb558f34883f5226bd073f997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 29/32] fix: read decimal times to the very millisecond

---
 internal/promql/parsing.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/promql/parsing.go b/internal/promql/parsing.go
index 0bee93c..3b25a1e 100644
--- a/internal/promql/parsing.go
+++ b/internal/promql/parsing.go
@@ -38,7 +38,9 @@ func ParseTime(param string) (time.Time, error) {
 		if !fitsInt64(timeInNanoSeconds) {
 			return time.Unix(0, 0), fmt.Errorf("cannot parse %q to a valid timestamp. It overflows int64", param)
 		}
-		return time.Unix(0, int64(timeInNanoSeconds)), nil
+		// A float holds a present time to the microsecond, queries have
+		// milliseconds.
+		return time.Unix(0, int64(timeInNanoSeconds)).Round(time.Millisecond), nil
 	}
 	if t, err := time.Parse(time.RFC3339Nano, param); err == nil {
 		if t.Before(time.Unix(0, math.MinInt64)) || t.After(time.Unix(0, math.MaxInt64)) {
-- 
2.43.0


From 69bc013e7ab3c2b1ac1d88261eb1b2b8beb6d10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 30/32] fix: keep the place of a peer that can not be dialed

---
 internal/cache/log_cache.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/internal/cache/log_cache.go b/internal/cache/log_cache.go
index 219c6ac..c2bee1f 100644
--- a/internal/cache/log_cache.go
+++ b/internal/cache/log_cache.go
@@ -197,6 +197,11 @@ func (c *LogCache) setupRouting(s *store.Store) {
 			conn, err := grpc.Dial(addr, c.dialOpts...)
 			if err != nil {
 				log.Printf("failed to dial %s: %s", addr, err)
+
+				// The index of a client is that of its node.
+				ingressClients = append(ingressClients, unreachableNode{err})
+				egressClients = append(egressClients, unreachableNode{err})
+
 				continue
 			}
 
@@ -251,6 +256,26 @@ func (c *LogCache) setupRouting(s *store.Store) {
 	}()
 }
 
+// unreachableNode stands in for a node that can not be dialed.
+type unreachableNode struct {
+	err error
+}
+
+// Send implements logcache_v1.IngressClient.
+func (n unreachableNode) Send(context.Context, *logcache_v1.SendRequest, ...grpc.CallOption) (*logcache_v1.SendResponse, error) {
+	return nil, n.err
+}
+
+// Read implements logcache_v1.EgressClient.
+func (n unreachableNode) Read(context.Context, *logcache_v1.ReadRequest, ...grpc.CallOption) (*logcache_v1.ReadResponse, error) {
+	return nil, n.err
+}
+
+// Meta implements logcache_v1.EgressClient.
+func (n unreachableNode) Meta(context.Context, *logcache_v1.MetaRequest, ...grpc.CallOption) (*logcache_v1.MetaResponse, error) {
+	return nil, n.err
+}
+
 // Addr returns the address that the LogCache is listening on. This is only
 // valid after Start has been invoked.
 func (c *LogCache) Addr() string {
-- 
2.43.0


From 859f9739971bfcf60519df1548c708cf6d190493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:28 +0000
Subject: [PATCH 31/32] fix: store everything on a node without peers

---
 internal/cache/log_cache.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/cache/log_cache.go b/internal/cache/log_cache.go
index c2bee1f..7288782 100644
--- a/internal/cache/log_cache.go
+++ b/internal/cache/log_cache.go
@@ -232,8 +232,14 @@ func (c *LogCache) setupRouting(s *store.Store) {
 		egressClients = append(egressClients, lcr)
 	}
 
-	ingressReverseProxy := routing.NewIngressReverseProxy(lookup.Lookup, ingressClients, localIdx, c.log)
-	egressReverseProxy := routing.NewEgressReverseProxy(lookup.Lookup, egressClients, localIdx, c.log)
+	find := lookup.Lookup
+	if len(c.nodeAddrs) == 1 {
+		// There are no peers, everything is stored here.
+		find = func(string) []int { return []int{localIdx} }
+	}
+
+	ingressReverseProxy := routing.NewIngressReverseProxy(find, ingressClients, localIdx, c.log)
+	egressReverseProxy := routing.NewEgressReverseProxy(find, egressClients, localIdx, c.log)
 
 	promQL := promql.New(
 		data_reader.NewWalkingDataReader(
-- 
2.43.0


From b38a4a3eaa97e463c5c5de9be168300100d6b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:51 +0000
Subject: [PATCH 32/32] fix: let the nodes route what the syslog server sends

The syslog server marked its batches as local only, so the node it sends to
kept all of them, no matter which nodes own them and are asked for them.
---
 cmd/syslog-server/main.go                  |  2 +-
 internal/routing/batched_ingress_client.go | 23 +++++++++++++++++++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/cmd/syslog-server/main.go b/cmd/syslog-server/main.go
index c962159..586ee3a 100644
--- a/cmd/syslog-server/main.go
+++ b/cmd/syslog-server/main.go
@@ -49,7 +49,7 @@ func main() {
 
 	server := syslog.NewServer(
 		loggr,
-		routing.NewBatchedIngressClient(BATCH_CHANNEL_SIZE, BATCH_FLUSH_INTERVAL, client, egressDropped, loggr),
+		routing.NewBatchedIngressClient(BATCH_CHANNEL_SIZE, BATCH_FLUSH_INTERVAL, client, egressDropped, loggr, routing.WithLocalOnlyDisabled()),
 		m,
 		cfg.SyslogTLSCertPath,
 		cfg.SyslogTLSKeyPath,
diff --git a/internal/routing/batched_ingress_client.go b/internal/routing/batched_ingress_client.go
index 4cdd4ca..91f63a5 100644
--- a/internal/routing/batched_ingress_client.go
+++ b/internal/routing/batched_ingress_client.go
@@ -25,6 +25,20 @@ type BatchedIngressClient struct {
 	size     int
 	interval time.Duration
 	log      *log.Logger
+
+	localOnly bool
+}
+
+// BatchedIngressClientOption configures a BatchedIngressClient.
+type BatchedIngressClientOption func(*BatchedIngressClient)
+
+// WithLocalOnlyDisabled returns a BatchedIngressClientOption that lets the
+// node that receives a batch route it to the nodes that own its source IDs. It
+// defaults to have that node keep the batch.
+func WithLocalOnlyDisabled() BatchedIngressClientOption {
+	return func(b *BatchedIngressClient) {
+		b.localOnly = false
+	}
 }
 
 // NewBatchedIngressClient returns a new BatchedIngressClient.
@@ -34,6 +48,7 @@ func NewBatchedIngressClient(
 	c rpc.IngressClient,
 	incDroppedMetric metrics.Counter,
 	log *log.Logger,
+	opts ...BatchedIngressClientOption,
 ) *BatchedIngressClient {
 	b := &BatchedIngressClient{
 		c:        c,
@@ -41,12 +56,18 @@ func NewBatchedIngressClient(
 		interval: interval,
 		log:      log,
 
+		localOnly: true,
+
 		buffer: diodes.NewOneToOne(10000, diodes.AlertFunc(func(dropped int) {
 			log.Printf("dropped %d envelopes", dropped)
 			incDroppedMetric.Add(float64(dropped))
 		})),
 	}
 
+	for _, o := range opts {
+		o(b)
+	}
+
 	go b.start()
 
 	return b
@@ -84,7 +105,7 @@ func (b *BatchedIngressClient) write(batch []interface{}) {
 
 	ctx, _ := context.WithTimeout(context.Background(), 3*time.Second)
 	_, err := b.c.Send(ctx, &rpc.SendRequest{
-		LocalOnly: true,
+		LocalOnly: b.localOnly,
 		Envelopes: &loggregator_v2.EnvelopeBatch{Batch: e},
 	})
 
-- 
2.43.0

