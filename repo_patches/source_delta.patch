From 9bf93e614e7fe5a07d6c00015ccb44023212e37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 01/58] fix: count a duplicated empty-valued message only once

---
 delivery/consumer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 00a5958..10a8507 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -126,7 +126,7 @@ func (pb *PendingBatch) ApplyMessage(m ResumptionMessage) bool {
     return true
   case BatchMsgType:
     path := string(m.Key()[33:])
-    if v, ok := pb.Values[path]; ok && len(v) > 0 { return false } // Already set
+    if _, ok := pb.Values[path]; ok { return false } // Already set (possibly to an empty value)
     if pb.DecPrefixCounter(path) {
       // If this is false, we're not tracking this prefix and should ignore the message
       pb.Values[path] = m.Value()
-- 
2.43.0


From 03689f39c52a54edea1eeb60f39c9fc556b3b8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 02/58] fix: keep empty values carried by the batch header

---
 delivery/consumer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 10a8507..52611df 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -348,7 +348,10 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
         }
       }
       if !match { continue } // Regardless of message type, if we're ignoring the prefix, skip this update
-      if len(update.Value) > 0 { mp.pendingBatches[hash].Values[prefix] = update.Value }
+      if len(update.Value) > 0 || (update.Count == 0 && !update.Delete && update.Subbatch == (types.Hash{})) {
+        // A record that is neither a count, a delete nor a subbatch sets a value, even if that value is empty
+        mp.pendingBatches[hash].Values[prefix] = update.Value
+      }
       if update.Delete { mp.pendingBatches[hash].Deletes[prefix] = struct{}{} }
       if update.Count != 0 {
         mp.pendingBatches[hash].prefixes[prefix] = update.Count
-- 
2.43.0


From 0c6e7396deca04be5d2b14ac0161d23d0d359d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 03/58] fix: allow reorgs whose common ancestor is the starting
 block

---
 delivery/ordering.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 1d253ca..c4c547c 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -337,8 +337,12 @@ func (omp *OrderedMessageProcessor) prepareReorg(newHead, oldHead *PendingBatch)
   if oldHead == nil {
     return reverted, newBlocks, nil
   }
+  // Track the next block of the old chain by hash and number, so that the
+  // common ancestor can be recognized even if we don't have the block itself
+  // (eg. because it is the block we started from).
+  oldHash, oldNumber := oldHead.Hash, oldHead.Number
   for {
-    for newHead.Number > oldHead.Number + 1 {
+    for newHead.Number > oldNumber + 1 {
       parentHash := newHead.ParentHash
       newHead, _ = omp.pending[parentHash]
       if newHead == nil {
@@ -347,14 +351,15 @@ func (omp *OrderedMessageProcessor) prepareReorg(newHead, oldHead *PendingBatch)
       }
       newBlocks = append([]*PendingBatch{newHead}, newBlocks...)
     }
-    if(oldHead.Hash == newHead.ParentHash)  {
+    if(oldHash == newHead.ParentHash)  {
       return reverted, newBlocks, nil
     }
-    reverted = append([]*PendingBatch{oldHead}, reverted...)
-    oldHead, _ = omp.pending[oldHead.ParentHash]
+    oldHead, _ = omp.pending[oldHash]
     if oldHead == nil {
       return reverted, newBlocks, fmt.Errorf("Reached genesis without finding common ancestor")
     }
+    reverted = append([]*PendingBatch{oldHead}, reverted...)
+    oldHash, oldNumber = oldHead.ParentHash, oldHead.Number - 1
   }
 }
 
-- 
2.43.0


From 8040a817a8b85b2635b5a16b2c8845238669fcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:08 +0000
Subject: [PATCH 04/58] fix: keep a heavier block whose reorg can't be
 evaluated yet

---
 delivery/ordering.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index c4c547c..1f56058 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -197,6 +197,10 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
         removed, added, err := omp.prepareReorg(pb, lastBlock)
         if err != nil {
           log.Error("Error finding common ancestor", "new", pb.Hash, "number", pb.Number, "old", omp.lastHash, "error", err)
+          // The history we need may still be on its way. Keep the block, so
+          // that the reorg gets evaluated again when its descendants arrive.
+          omp.finished.Add(pb.Hash, struct{}{})
+          omp.queue(pb)
           return
         }
         log.Debug("Emitting reorg")
-- 
2.43.0


From 4357de6b661055ab5c7eb6179eda5b34b537ae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 05/58] fix: a connected block connects the descendants that
 arrived before it

---
 delivery/ordering.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 1f56058..ce41a8e 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -199,7 +199,7 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
           log.Error("Error finding common ancestor", "new", pb.Hash, "number", pb.Number, "old", omp.lastHash, "error", err)
           // The history we need may still be on its way. Keep the block, so
           // that the reorg gets evaluated again when its descendants arrive.
-          omp.finished.Add(pb.Hash, struct{}{})
+          omp.finishPendingChildren(pb.Hash)
           omp.queue(pb)
           return
         }
@@ -208,7 +208,7 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
         return
       }
     }
-    omp.finished.Add(pb.Hash, struct{}{})
+    omp.finishPendingChildren(pb.Hash)
     if child, ok := omp.getPendingChild(pb.Hash); ok {
       // log.Debug("Weight does not justify reorg, but child is available", "child", child)
       // This block's child is already pending, process it instead
@@ -230,7 +230,7 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
         delete(omp.pending, pb.Hash)
         return
       }
-      omp.finished.Add(pb.Hash, struct{}{})
+      omp.finishPendingChildren(pb.Hash)
     }
     // Queue for potential later use
     omp.queue(pb)
-- 
2.43.0


From efbb3e8d6545f4eaad8c9e1c2aa995162d32813c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 06/58] fix: don't loop forever on keys that start with a slash

---
 delivery/consumer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 52611df..05f531a 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -155,7 +155,7 @@ func (pb *PendingBatch) DecPrefixCounter(p string) bool {
     pb.prefixes[p]--
     return true
   }
-  for d := p; d != "."; d = path.Dir(d) {
+  for d := p; d != "." && d != "/"; d = path.Dir(d) {
     k := strings.TrimPrefix(d, "/") + "/"
     if v, ok := pb.prefixes[k]; ok && v > 0 {
       pb.prefixes[k]--
-- 
2.43.0


From 72247a833a31aa6d9da327831f8bdf532f347618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 07/58] fix: ignore subbatch messages whose index is out of
 range

---
 delivery/consumer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 05f531a..385c08a 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -114,6 +114,10 @@ func (pb *PendingBatch) ApplyMessage(m ResumptionMessage) bool {
       pb.pendingMessages[string(m.Key())] = m
       return false
     }
+    if idx < 0 || idx >= len(pb.batches[batchid]) {
+      log.Error("Subbatch index out of range", "key", m.Key(), "index", idx, "count", len(pb.batches[batchid]))
+      return true
+    }
     if pb.batches[batchid][idx] { return false } // Already have it, no updates
     update := &SubBatchRecord{}
     if err := avro.Unmarshal(updateSchema, m.Value(), &update); err != nil {
-- 
2.43.0


From 2a08a3d7b3a03694d84499d822e6a5b389fd9c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 08/58] fix: keep expecting a subbatch after a header that
 can't be decoded

---
 delivery/consumer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 385c08a..0884e37 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -381,9 +381,10 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     }
     batchid := types.BytesToHash(m.Key()[33:])
     if _, ok := mp.pendingBatches[hash].pendingBatches[batchid]; !ok { return nil } // We've already gotten this batch
-    delete(mp.pendingBatches[hash].pendingBatches, batchid)
     var counter int
     if err := avro.Unmarshal(intSchema, m.Value(), &counter); err != nil { return err }
+    if counter < 0 { return fmt.Errorf("negative subbatch message count: %v", counter) }
+    delete(mp.pendingBatches[hash].pendingBatches, batchid)
     mp.pendingBatches[hash].batches[batchid] = make([]bool, counter)
     mp.pendingBatches[hash].updateResumption(m.Source(), m.Offset())
     for k, msg := range mp.pendingBatches[hash].pendingMessages {
-- 
2.43.0


From 5220efd199b56521ea66ed2a5527911db0646c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:04 +0000
Subject: [PATCH 09/58] fix: reject messages whose key is too short instead of
 crashing

---
 delivery/consumer.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 0884e37..ee2ef79 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -271,6 +271,19 @@ func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 	delete(mp.pendingBatches, pb.Hash)
 }
 
+// checkKey makes sure that a key is long enough for its message type.
+func checkKey(key []byte) error {
+  required := 33 // Type, block hash
+  if len(key) > 0 {
+    switch MessageType(key[0]) {
+    case SubBatchHeaderType, SubBatchMsgType:
+      required = 65 // Type, block hash, batch id
+    }
+  }
+  if len(key) < required { return fmt.Errorf("malformed message key: %#x", key) }
+  return nil
+}
+
 // ProcessMessage takes in messages and assembles completed blocks of messages.
 func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
   EVICTLOOP:
@@ -287,6 +300,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
       break EVICTLOOP
     }
   }
+  if err := checkKey(m.Key()); err != nil { return err }
   mp.updateResumption(m.Source(), m.Offset())
   hash := types.BytesToHash(m.Key()[1:33])
   if MessageType(m.Key()[0]) == ReorgType {
-- 
2.43.0


From d8870b0f121e06ce48eaa6b7fb7e515be6a80397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 10/58] fix: ignore reorg messages that can't be decoded

---
 delivery/consumer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index ee2ef79..18815f5 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -304,14 +304,14 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
   mp.updateResumption(m.Source(), m.Offset())
   hash := types.BytesToHash(m.Key()[1:33])
   if MessageType(m.Key()[0]) == ReorgType {
+    var num int
+    if err := avro.Unmarshal(intSchema, m.Value(), &num); err != nil { return err }
     var err error
     mp.completed, err = lru.New(int(2 * mp.reorgThreshold))
     if err != nil {
       return err
     }
     mp.oldBlocks = make(map[types.Hash]struct{})
-    var num int
-    if err := avro.Unmarshal(intSchema, m.Value(), &num); err != nil { return err }
     mp.lastEmittedNum = int64(num)
     mp.reorgFeed.Send(map[int64]types.Hash{mp.lastEmittedNum: hash})
     return nil
-- 
2.43.0


From 5a6fab3251881192894aba0007565cb0bf0efb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 11/58] fix: one bad queued message no longer discards the
 others

---
 delivery/consumer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 18815f5..913f608 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -381,7 +381,10 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     if _, ok := mp.pendingMessages[hash]; ok {
       // We have some messages that arrived before the batch header. Process them now.
       for _, msg := range mp.pendingMessages[hash] {
-        if err := mp.ProcessMessage(msg); err != nil { return err }
+        if err := mp.ProcessMessage(msg); err != nil {
+          // Don't let one bad message keep the rest from being processed
+          log.Error("Error processing queued message", "err", err, "key", msg.Key())
+        }
       }
       delete (mp.pendingMessages, hash)
     }
-- 
2.43.0


From 1f1fdeed6d43c3399814becb06f5bee8dc3ff54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 12/58] fix: reject truncated messages instead of using what
 could be decoded

---
 delivery/consumer.go | 11 +++++------
 delivery/types.go    | 10 +++++++++-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 913f608..4917003 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -8,7 +8,6 @@ import (
   "github.com/openrelayxyz/cardinal-types"
   "github.com/openrelayxyz/cardinal-types/metrics"
   gmetrics "github.com/rcrowley/go-metrics"
-  "github.com/hamba/avro"
   log "github.com/inconshreveable/log15"
   "regexp"
   "fmt"
@@ -106,7 +105,7 @@ func (pb *PendingBatch) ApplyMessage(m ResumptionMessage) bool {
     // SubBatchMsgType.$hash.$BatchId.$Index
     batchid := types.BytesToHash(m.Key()[33:65])
     var idx int
-    if err := avro.Unmarshal(intSchema, m.Key()[65:], &idx); err != nil {
+    if err := unmarshal(intSchema, m.Key()[65:], &idx); err != nil {
       log.Error("Failed to unmarshal index at end of key", "key", m.Key())
       return true
     }
@@ -120,7 +119,7 @@ func (pb *PendingBatch) ApplyMessage(m ResumptionMessage) bool {
     }
     if pb.batches[batchid][idx] { return false } // Already have it, no updates
     update := &SubBatchRecord{}
-    if err := avro.Unmarshal(updateSchema, m.Value(), &update); err != nil {
+    if err := unmarshal(updateSchema, m.Value(), &update); err != nil {
       log.Error("Failed to unmarshal update record", "key", m.Key(), "value", m.Value())
       return false
     }
@@ -305,7 +304,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
   hash := types.BytesToHash(m.Key()[1:33])
   if MessageType(m.Key()[0]) == ReorgType {
     var num int
-    if err := avro.Unmarshal(intSchema, m.Value(), &num); err != nil { return err }
+    if err := unmarshal(intSchema, m.Value(), &num); err != nil { return err }
     var err error
     mp.completed, err = lru.New(int(2 * mp.reorgThreshold))
     if err != nil {
@@ -322,7 +321,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
   switch MessageType(m.Key()[0]) {
   case BatchType:
     b := &Batch{}
-    if err := avro.Unmarshal(batchSchema, m.Value(), b); err != nil { return err }
+    if err := unmarshal(batchSchema, m.Value(), b); err != nil { return err }
     b.Hash = hash
     if _, ok := mp.pendingBatches[hash]; ok { return nil } // We already have this block. No need to check further.
     // if b.Number < (mp.lastEmittedNum - mp.reorgThreshold) {
@@ -399,7 +398,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     batchid := types.BytesToHash(m.Key()[33:])
     if _, ok := mp.pendingBatches[hash].pendingBatches[batchid]; !ok { return nil } // We've already gotten this batch
     var counter int
-    if err := avro.Unmarshal(intSchema, m.Value(), &counter); err != nil { return err }
+    if err := unmarshal(intSchema, m.Value(), &counter); err != nil { return err }
     if counter < 0 { return fmt.Errorf("negative subbatch message count: %v", counter) }
     delete(mp.pendingBatches[hash].pendingBatches, batchid)
     mp.pendingBatches[hash].batches[batchid] = make([]bool, counter)
diff --git a/delivery/types.go b/delivery/types.go
index ed11458..5d9adbf 100644
--- a/delivery/types.go
+++ b/delivery/types.go
@@ -132,8 +132,16 @@ type ResumptionMessage interface{
   Time()   time.Time
 }
 
+// unmarshal decodes data, treating data that ends early as an error. (This is
+// unlike avro.Unmarshal, which returns whatever it decoded before the end.)
+func unmarshal(schema avro.Schema, data []byte, v interface{}) error {
+  r := avro.NewReader(nil, 0).Reset(data)
+  r.ReadVal(schema, v)
+  return r.Error
+}
+
 func UnmarshalBatch(data []byte) (*Batch, error) {
   b := &Batch{}
-  if err := avro.Unmarshal(batchSchema, data, b); err != nil { return nil, err }
+  if err := unmarshal(batchSchema, data, b); err != nil { return nil, err }
   return b, nil
 }
-- 
2.43.0


From 0ae7da31641b7a4c892d8e967d73262d0e2c7ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 13/58] fix: handle large reorgs in order with the blocks
 around them

---
 delivery/ordering.go     | 59 +++++++++++++++++++++++++++++++---------
 transports/websockets.go |  2 +-
 2 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index ce41a8e..c276d75 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -59,26 +59,52 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
     omp.evict(hash)
   })
   omp.finished.Add(cfg.LastHash, struct{}{})
-  ch := make(chan *PendingBatch, 100)
-  reorgCh := make(chan map[int64]types.Hash, 100)
+  // Batches and reorgs have to be handled in the order they were sent. Neither
+  // channel is buffered, so they get received in that order, and share a buffer
+  // once they have been.
+  ch := make(chan *PendingBatch)
+  reorgCh := make(chan map[int64]types.Hash)
+  events := make(chan interface{}, 100)
+  done := make(chan struct{})
   sub := omp.mp.Subscribe(ch)
   reorgSub := omp.mp.SubscribeReorgs(reorgCh)
   go func() {
     for {
+      var event interface{}
       select {
       case pb := <-ch:
-        lastBlock := cfg.LastEmittedNum
-        if batch, ok := omp.pending[omp.lastHash]; ok {
-          lastBlock = batch.Number
-        }
-        pendingGauge.Update(int64(len(omp.pending)))
-        queuedGauge.Update(int64(len(omp.queued)))
-        log.Debug("OMP Got Pending Batch", "blocknumber", pb.Number, "pending", len(omp.pending), "queued", len(omp.queued), "lastnum", lastBlock, "lasthash", omp.lastHash, "parent", pb.ParentHash, "hash", pb.Hash)
-        omp.HandlePendingBatch(pb, false)
+        event = pb
       case reorg := <-reorgCh:
-        for num, hash := range reorg {
-          omp.HandleReorg(num, hash)
-          break // There should never be more than 1 kv pair in this map
+        event = reorg
+      case <-done:
+        return
+      }
+      select {
+      case events <- event:
+      case <-done:
+        return
+      }
+    }
+  }()
+  go func() {
+    for {
+      select {
+      case event := <-events:
+        switch v := event.(type) {
+        case *PendingBatch:
+          lastBlock := cfg.LastEmittedNum
+          if batch, ok := omp.pending[omp.lastHash]; ok {
+            lastBlock = batch.Number
+          }
+          pendingGauge.Update(int64(len(omp.pending)))
+          queuedGauge.Update(int64(len(omp.queued)))
+          log.Debug("OMP Got Pending Batch", "blocknumber", v.Number, "pending", len(omp.pending), "queued", len(omp.queued), "lastnum", lastBlock, "lasthash", omp.lastHash, "parent", v.ParentHash, "hash", v.Hash)
+          omp.HandlePendingBatch(v, false)
+        case map[int64]types.Hash:
+          for num, hash := range v {
+            omp.HandleReorg(num, hash)
+            break // There should never be more than 1 kv pair in this map
+          }
         }
       case err := <-sub.Err():
         log.Error("Subscription error", "err", err.Error())
@@ -92,6 +118,7 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
         case <-omp.quit:
           sub.Unsubscribe()
           reorgSub.Unsubscribe()
+          close(done)
           return
         default:
         }
@@ -242,6 +269,12 @@ func (omp *OrderedMessageProcessor) queue(pb *PendingBatch) {
   omp.queued[pb.ParentHash][pb.Hash] = struct{}{}
 }
 
+// ProcessReorg indicates a large reorg back to the specified block. It takes
+// effect after the batches processed before it, and before those after it.
+func (omp *OrderedMessageProcessor) ProcessReorg(num int64, hash types.Hash) {
+  omp.mp.reorgFeed.Send(map[int64]types.Hash{num: hash})
+}
+
 func (omp *OrderedMessageProcessor) HandleReorg(num int64, hash types.Hash) {
   omp.lastHash = hash
   // omp.lastNumber = num
diff --git a/transports/websockets.go b/transports/websockets.go
index 5db3081..dbfd9e9 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -405,7 +405,7 @@ func (c *websocketConsumer) Start() error {
 						close(c.ready)
 					}
 				case "reorg":
-					c.omp.HandleReorg(int64(item.Batch.Number), item.Batch.Hash)
+					c.omp.ProcessReorg(int64(item.Batch.Number), item.Batch.Hash)
 				case "batch":
 					pb := &delivery.PendingBatch{
 						Number: int64(item.Batch.Number),
-- 
2.43.0


From 382ff23371ec680bf19fbcfec2bd47a862496f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 14/58] fix: let several subscribers mark the same block done

---
 delivery/consumer.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 4917003..4743e93 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -10,6 +10,7 @@ import (
   gmetrics "github.com/rcrowley/go-metrics"
   log "github.com/inconshreveable/log15"
   "regexp"
+  "sync"
   "fmt"
   "time"
 )
@@ -36,6 +37,7 @@ type PendingBatch struct {
   pendingBatches map[types.Hash]struct{}
   pendingMessages map[string]ResumptionMessage // Key -> Message
   waitCh chan struct{}
+  doneOnce sync.Once
   time time.Time
   failedReconstructPanic bool
 }
@@ -71,13 +73,12 @@ func (pb *PendingBatch) Ready() bool {
   return true
 }
 
-// Done should be called on a pending batch after it has been applied.
+// Done should be called on a pending batch after it has been applied. It can be
+// called any number of times, eg. once by each of several subscribers.
 func (pb *PendingBatch) Done() {
-  waitch := pb.waitCh
-  if waitch != nil {
-    pb.waitCh = nil
-    close(waitch)
-  }
+  pb.doneOnce.Do(func() {
+    if pb.waitCh != nil { close(pb.waitCh) }
+  })
   deltaTimerMinor.UpdateSince(pb.time)
   if deltaTimer != nil {
     deltaTimer.UpdateSince(pb.time)
-- 
2.43.0


From 63eb632743b7b1e53f8ab68a1bcd03aca19787b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 15/58] fix: waiters keep waiting for the batch that gets
 applied when a block is delivered twice

---
 delivery/consumer.go | 24 +++++++++++++++++-------
 delivery/ordering.go |  7 ++++++-
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 4743e93..8bc79f5 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -256,15 +256,25 @@ func (mp *MessageProcessor) evictOlderThan(n int64) {
 }
 
 func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
+	// Announce each block to waiters only once: they would otherwise wait for the
+	// latest announcement, even if an earlier one is what gets applied.
+	announced := mp.completed.Contains(pb.Hash)
 	if pb.waitCh == nil {
-		pb.waitCh = make(chan struct{})
+		if pending, ok := mp.pendingBatches[pb.Hash]; ok {
+			pb.waitCh = pending.waitCh
+			announced = true
+		} else {
+			pb.waitCh = make(chan struct{})
+		}
+	}
+	if !announced {
+		mp.waitFeed.Send(&Waiter{
+			Hash: pb.Hash,
+			Parent: pb.ParentHash,
+			Number: pb.Number,
+			WaitCh: pb.waitCh,
+		})
 	}
-	mp.waitFeed.Send(&Waiter{
-		Hash: pb.Hash,
-		Parent: pb.ParentHash,
-		Number: pb.Number,
-		WaitCh: pb.waitCh,
-	})
 	mp.feed.Send(pb)
 	mp.lastEmittedNum = pb.Number
 	mp.completed.Add(pb.Hash, struct{}{})
diff --git a/delivery/ordering.go b/delivery/ordering.go
index c276d75..749d5c4 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -201,7 +201,12 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
     omp.blacklist[pb.Hash] = struct{}{}
     return
   }
-  omp.pending[pb.Hash] = pb
+  if known, ok := omp.pending[pb.Hash]; ok {
+    // Stick with the one we already have, as it's the one waiters know about.
+    pb = known
+  } else {
+    omp.pending[pb.Hash] = pb
+  }
   if omp.finished.Contains(pb.Hash) && !reorg {
     // We've already handled this block. Repeats should be rare, given how the
     // MessageProcessor works, but they could happen in edge cases, and we
-- 
2.43.0


From 8519726c694e2c87507bed63236b778a6d2c89e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 16/58] fix: handle what was received before quitting

---
 delivery/ordering.go | 45 +++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 749d5c4..f53f508 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -77,35 +77,35 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
       case reorg := <-reorgCh:
         event = reorg
       case <-done:
+        close(events)
         return
       }
-      select {
-      case events <- event:
-      case <-done:
-        return
-      }
+      events <- event
     }
   }()
+  handle := func(event interface{}) {
+    switch v := event.(type) {
+    case *PendingBatch:
+      lastBlock := cfg.LastEmittedNum
+      if batch, ok := omp.pending[omp.lastHash]; ok {
+        lastBlock = batch.Number
+      }
+      pendingGauge.Update(int64(len(omp.pending)))
+      queuedGauge.Update(int64(len(omp.queued)))
+      log.Debug("OMP Got Pending Batch", "blocknumber", v.Number, "pending", len(omp.pending), "queued", len(omp.queued), "lastnum", lastBlock, "lasthash", omp.lastHash, "parent", v.ParentHash, "hash", v.Hash)
+      omp.HandlePendingBatch(v, false)
+    case map[int64]types.Hash:
+      for num, hash := range v {
+        omp.HandleReorg(num, hash)
+        break // There should never be more than 1 kv pair in this map
+      }
+    }
+  }
   go func() {
     for {
       select {
       case event := <-events:
-        switch v := event.(type) {
-        case *PendingBatch:
-          lastBlock := cfg.LastEmittedNum
-          if batch, ok := omp.pending[omp.lastHash]; ok {
-            lastBlock = batch.Number
-          }
-          pendingGauge.Update(int64(len(omp.pending)))
-          queuedGauge.Update(int64(len(omp.queued)))
-          log.Debug("OMP Got Pending Batch", "blocknumber", v.Number, "pending", len(omp.pending), "queued", len(omp.queued), "lastnum", lastBlock, "lasthash", omp.lastHash, "parent", v.ParentHash, "hash", v.Hash)
-          omp.HandlePendingBatch(v, false)
-        case map[int64]types.Hash:
-          for num, hash := range v {
-            omp.HandleReorg(num, hash)
-            break // There should never be more than 1 kv pair in this map
-          }
-        }
+        handle(event)
       case err := <-sub.Err():
         log.Error("Subscription error", "err", err.Error())
       case err := <-reorgSub.Err():
@@ -119,6 +119,9 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
           sub.Unsubscribe()
           reorgSub.Unsubscribe()
           close(done)
+          for event := range events {
+            handle(event)
+          }
           return
         default:
         }
-- 
2.43.0


From ea21f21820ac9026438787c463b03bf074331a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 17/58] fix: partition consumers wait for those that are not
 set up yet

---
 transports/kafka.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transports/kafka.go b/transports/kafka.go
index 3c3272b..94e662b 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -544,6 +544,9 @@ func (kc *KafkaConsumer) Start() error {
   messages := make(chan *sarama.ConsumerMessage, 512) // 512 is arbitrary. Worked for Flume, but may require tuning for Cardinal
   partitionConsumers := []sarama.PartitionConsumer{}
   heartbeats := make(chan types.Hash)
+  // Partition consumers can get messages while others are still being set up,
+  // and have to wait for those too.
+  warmupWg.Add(1)
   for _, topic := range kc.topics {
     partitions, err := consumer.Partitions(topic)
     if err != nil { return err }
@@ -616,6 +619,7 @@ func (kc *KafkaConsumer) Start() error {
       partitionConsumers = append(partitionConsumers, pc)
     }
   }
+  warmupWg.Done()
   var readych chan time.Time
   readyWaiter := func() <-chan time.Time  {
     // If readych isn't ready to receive, use it as the sender, eliminating any
-- 
2.43.0


From da24d716a3b5834d66eb853a8d5f9baea2dbbbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 18/58] fix: partitions with nothing to read do not hold up a
 Kafka consumer

---
 transports/kafka.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 94e662b..875504c 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -535,6 +535,20 @@ func NewKafkaConsumer(brokerURL, defaultTopic string, topics []string, resumptio
   return kafkaConsumerWithOMP(omp, brokerURL, defaultTopic, topics, resumption, rollback, cfg.LastHash)
 }
 
+// nothingToRead indicates whether a partition has no messages at or after the
+// provided offset at this time.
+func nothingToRead(client sarama.Client, topic string, partid int32, offset int64) (bool, error) {
+  newest, err := client.GetOffset(topic, partid, sarama.OffsetNewest)
+  if err != nil { return false, err }
+  switch offset {
+  case sarama.OffsetNewest:
+    return true, nil
+  case sarama.OffsetOldest:
+    if offset, err = client.GetOffset(topic, partid, sarama.OffsetOldest); err != nil { return false, err }
+  }
+  return offset >= newest, nil
+}
+
 func (kc *KafkaConsumer) Start() error {
   log.Debug("Starting kafka consumer")
   dl := drumline.NewDrumline(256)
@@ -580,8 +594,10 @@ func (kc *KafkaConsumer) Start() error {
         if err != nil { return err }
         startOffset = offset
       }
+      caughtUp, err := nothingToRead(kc.client, topic, partid, startOffset)
+      if err != nil { return err }
       log.Info("Starting partition consumer", "topic", topic, "partition", partid, "offset", offset, "startOffset", startOffset)
-      go func(pc sarama.PartitionConsumer, startOffset int64, partid int32, i int, topic string) {
+      go func(pc sarama.PartitionConsumer, startOffset int64, partid int32, i int, topic string, caughtUp bool) {
         kc.shutdownWg.Add(1)
         defer kc.shutdownWg.Done()
         dl.AddScale(i, startOffset)
@@ -589,6 +605,17 @@ func (kc *KafkaConsumer) Start() error {
         warm := false
         meter := metrics.NewMinorMeter(fmt.Sprintf("streams/kafka/%v/%v/meter", topic, partid))
         lagGauge := metrics.NewMinorGauge(fmt.Sprintf("streams/kafka/%v/%v/lag", topic, partid))
+        if caughtUp {
+          // There is no message to wait for, so this partition must not keep
+          // the others from warming up or the consumer from getting ready.
+          warmupWg.Done()
+          warmupWg.Wait()
+          warm = true
+          once.Do(func() {
+            dl.Done(i)
+            readyWg.Done()
+          })
+        }
         for input := range pc.Messages() {
           meter.Mark(1)
           lagGauge.Update(pc.HighWaterMarkOffset() - input.Offset)
@@ -615,7 +642,7 @@ func (kc *KafkaConsumer) Start() error {
           }
           messages <- input
         }
-      }(pc, startOffset, partid, len(partitionConsumers), topic)
+      }(pc, startOffset, partid, len(partitionConsumers), topic, caughtUp)
       partitionConsumers = append(partitionConsumers, pc)
     }
   }
-- 
2.43.0


From aa9c48a62115bbd0b148e37b255dbbffcfad6f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:31 +0000
Subject: [PATCH 19/58] fix: a Kafka producer starts up when its topic was
 emptied or cannot be read

---
 transports/kafka.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 875504c..1765fb9 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -259,11 +259,12 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
     readyWg.Add(1)
     go func(partid int32, readyWg *sync.WaitGroup) {
       var once sync.Once
+      defer once.Do(readyWg.Done)
       offset, err := client.GetOffset(defaultTopic, partid, sarama.OffsetNewest)
       if err != nil {
         offset = sarama.OffsetNewest
         once.Do(readyWg.Done)
-      } else if offset == 0 {
+      } else if empty, err := nothingToRead(client, defaultTopic, partid, sarama.OffsetOldest); err != nil || empty {
         offset = sarama.OffsetNewest
         once.Do(readyWg.Done)
       }
-- 
2.43.0


From b6e7e1fe1c0fc37ac6f828b2b9390b722309f184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:36 +0000
Subject: [PATCH 20/58] fix: a rollback beyond the oldest message starts there
 instead of not rolling back

---
 transports/kafka.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transports/kafka.go b/transports/kafka.go
index 1765fb9..7a4df08 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -588,6 +588,10 @@ func (kc *KafkaConsumer) Start() error {
         }
       } else {
         startOffset = offset - kc.rollback
+        if oldest, err := kc.client.GetOffset(topic, partid, sarama.OffsetOldest); err == nil && startOffset < oldest && oldest <= offset {
+          // Roll back as far as there are messages.
+          startOffset = oldest
+        }
       }
       pc, err := consumer.ConsumePartition(topic, partid, startOffset)
       if err != nil {
-- 
2.43.0


From 51a8fc07e2811884c64da4913bdd49e6dce32828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 21/58] fix: closing a Kafka consumer that has not caught up
 does not hang

---
 transports/kafka.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 7a4df08..1cc189a 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -602,8 +602,8 @@ func (kc *KafkaConsumer) Start() error {
       caughtUp, err := nothingToRead(kc.client, topic, partid, startOffset)
       if err != nil { return err }
       log.Info("Starting partition consumer", "topic", topic, "partition", partid, "offset", offset, "startOffset", startOffset)
+      kc.shutdownWg.Add(1)
       go func(pc sarama.PartitionConsumer, startOffset int64, partid int32, i int, topic string, caughtUp bool) {
-        kc.shutdownWg.Add(1)
         defer kc.shutdownWg.Done()
         dl.AddScale(i, startOffset)
         var once sync.Once
@@ -647,6 +647,10 @@ func (kc *KafkaConsumer) Start() error {
           }
           messages <- input
         }
+        if !warm {
+          // Closed before there was a message. Others must not wait for it.
+          warmupWg.Done()
+        }
       }(pc, startOffset, partid, len(partitionConsumers), topic, caughtUp)
       partitionConsumers = append(partitionConsumers, pc)
     }
-- 
2.43.0


From fb15dec9280aa8ef8158f3fb150d6ef5d1586e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:36 +0000
Subject: [PATCH 22/58] fix: notices of reorgs that are not under way do not
 stop a Kafka consumer

---
 transports/kafka.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 1cc189a..403d1e2 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -688,6 +688,7 @@ func (kc *KafkaConsumer) Start() error {
     hbGauge := metrics.NewMajorGauge("streams/kafka/heartbeat")
     hbGauge.Update(1)
     hbTicker := time.NewTicker(time.Minute)
+    var reorgsPending int
     for {
       select {
       case input, ok := <-messages:
@@ -715,10 +716,14 @@ func (kc *KafkaConsumer) Start() error {
               client: kc.client,
               isReorg: true,
             }
-            rekc.Start()
+            if err := rekc.Start(); err != nil {
+              log.Error("Error reading reorg", "err", err, "topic", rekc.topics[0])
+              continue
+            }
             <-rekc.Ready()
             rekc.Close()
           } else {
+            reorgsPending++
             reorgWg.Add(1)
             if err := kc.omp.ProcessMessage(msg); err != nil {
               log.Error("Error processing input:", "err", err, "key", input.Key, "msg", input.Value, "part", input.Partition, "offset", input.Offset)
@@ -727,7 +732,10 @@ func (kc *KafkaConsumer) Start() error {
         case delivery.PingType:
           heartbeats <- types.BytesToHash(msg.Key()[1:])
         case delivery.ReorgCompleteType:
-          reorgWg.Done()
+          if reorgsPending > 0 {
+            reorgsPending--
+            reorgWg.Done()
+          }
         default:
           if err := kc.omp.ProcessMessage(msg); err != nil {
             log.Error("Error processing input:", "err", err, "key", input.Key, "msg", input.Value, "part", input.Partition, "offset", input.Offset)
-- 
2.43.0


From 35e81af534a2e4e531980a9e4cace20b33600b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:25 +0000
Subject: [PATCH 23/58] fix: a short key in its topic does not crash a Kafka
 producer

---
 transports/kafka.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transports/kafka.go b/transports/kafka.go
index 403d1e2..ab0fa3a 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -289,6 +289,7 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
           if len(input.Key) == 0 { continue PARTITION_LOOP }
           switch delivery.MessageType(input.Key[0]) {
           case delivery.BatchType:
+            if len(input.Key) < 33 { continue PARTITION_LOOP }
             hashCh <- types.BytesToHash(input.Key[1:33])
           case delivery.PingType:
             if !bytes.Equal(input.Key[1:], idBytes[:]) { // Ignore our own heartbeats
-- 
2.43.0


From 05e5736225b5889785404472a24f09d559d6f041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:04 +0000
Subject: [PATCH 24/58] fix: a Kafka producer knows the latest blocks in its
 topic once it is up

---
 transports/kafka.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index ab0fa3a..3f8d379 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -252,7 +252,7 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
   if err != nil { return nil, err }
   partitions, err := consumer.Partitions(defaultTopic)
   if err != nil { return nil, err }
-  hashCh := make(chan types.Hash)
+  cache, _ := lru.New(4096)
   heartbeats := make(chan types.Hash)
   var readyWg sync.WaitGroup
   for _, partid := range partitions {
@@ -283,14 +283,15 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
         select {
         case input := <-pc.Messages():
           if input == nil { break PARTITION_LOOP }
+          if len(input.Key) >= 33 && delivery.MessageType(input.Key[0]) == delivery.BatchType {
+            cache.Add(types.BytesToHash(input.Key[1:33]), struct{}{})
+          }
           if hwm := pc.HighWaterMarkOffset(); hwm - input.Offset <= 1 {
+            // Everything up to here has been added to the cache
             once.Do(readyWg.Done)
           }
           if len(input.Key) == 0 { continue PARTITION_LOOP }
           switch delivery.MessageType(input.Key[0]) {
-          case delivery.BatchType:
-            if len(input.Key) < 33 { continue PARTITION_LOOP }
-            hashCh <- types.BytesToHash(input.Key[1:33])
           case delivery.PingType:
             if !bytes.Equal(input.Key[1:], idBytes[:]) { // Ignore our own heartbeats
               heartbeats <- types.BytesToHash(input.Key[1:])
@@ -300,7 +301,6 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
       }
     }(partid, &readyWg)
   }
-  cache, _ := lru.New(4096)
   skipBatches, _ := lru.New(1024)
   kp := &KafkaProducer{dp: dp, producer: producer, reorgTopic: "", defaultTopic: defaultTopic, brokerURL: brokerURL, recentHashes: cache, skipBatches: skipBatches, pt: pt, healthy: true}
   go func() {
@@ -312,8 +312,6 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
         if kp.healthy {
             producer.Input() <- &sarama.ProducerMessage{Topic: defaultTopic, Key: sarama.ByteEncoder(delivery.PingType.GetKey(idBytes[:])), Value: sarama.ByteEncoder(b)}
         }
-      case h := <-hashCh:
-        cache.Add(h, struct{}{})
       case h := <-heartbeats:
         kp.pt.update(h)
       }
-- 
2.43.0


From bf2859a85057b5835f2f098616f3d4c2fb48ac47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 25/58] fix: producers can be counted while heartbeats arrive

---
 transports/kafka.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 3f8d379..c58f708 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -28,15 +28,26 @@ var (
   producerCount = metrics.NewMajorGauge("/streams/producers")
 )
 
-type pingTracker map[types.Hash]time.Time
+type pingTracker struct {
+  mu    sync.Mutex
+  pings map[types.Hash]time.Time
+}
+
+func newPingTracker() *pingTracker {
+  return &pingTracker{pings: make(map[types.Hash]time.Time)}
+}
 
-func (pt pingTracker) update(key types.Hash) {
-  pt[key] = time.Now()
+func (pt *pingTracker) update(key types.Hash) {
+  pt.mu.Lock()
+  defer pt.mu.Unlock()
+  pt.pings[key] = time.Now()
 }
 
-func (pt pingTracker) ProducerCount(d time.Duration) uint {
+func (pt *pingTracker) ProducerCount(d time.Duration) uint {
+  pt.mu.Lock()
+  defer pt.mu.Unlock()
   var count uint
-  for _, v := range pt {
+  for _, v := range pt.pings {
     if time.Since(v) < d {
       count++
     }
@@ -221,7 +232,7 @@ type KafkaProducer struct{
   brokerURL    string
   recentHashes *lru.Cache
   skipBatches  *lru.Cache
-  pt           pingTracker
+  pt           *pingTracker
   healthy      bool
 }
 
@@ -245,7 +256,7 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
   if err != nil {
     return nil, err
   }
-  pt := make(pingTracker)
+  pt := newPingTracker()
   client, err := sarama.NewClient(brokers, config)
   if err != nil { return nil, err }
   consumer, err := sarama.NewConsumerFromClient(client)
@@ -469,7 +480,7 @@ type KafkaConsumer struct{
   shutdownWg   sync.WaitGroup
   isReorg      bool
   startHash    types.Hash
-  pt           pingTracker
+  pt           *pingTracker
   waiter       waiter.Waiter
 }
 
@@ -499,7 +510,7 @@ func kafkaConsumerWithOMP(omp *delivery.OrderedMessageProcessor, brokerURL, defa
     client: client,
     rollback: rollback,
     startHash: lastHash,
-    pt: make(pingTracker),
+    pt: newPingTracker(),
   }, nil
 }
 
@@ -714,6 +725,7 @@ func (kc *KafkaConsumer) Start() error {
               resumption: make(map[string]int64),
               client: kc.client,
               isReorg: true,
+              pt: kc.pt,
             }
             if err := rekc.Start(); err != nil {
               log.Error("Error reading reorg", "err", err, "topic", rekc.topics[0])
-- 
2.43.0


From 946d36d63509353d3c31ea25de03183c17681a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 26/58] fix: finding the latest block skips no partition and
 leaves no connections open

---
 transports/kafka.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transports/kafka.go b/transports/kafka.go
index c58f708..98157d3 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -417,6 +417,7 @@ func (kp *KafkaProducer) LatestBlockFromFeed() (int64, error) {
   brokerList, config := ParseKafkaURL(kp.brokerURL)
   client, err := sarama.NewClient(brokerList, config)
   if err != nil { return 0, err }
+  defer client.Close()
   consumer, err := sarama.NewConsumerFromClient(client)
   if err != nil { return 0, err }
   partitions, err := consumer.Partitions(kp.defaultTopic)
@@ -458,6 +459,9 @@ func (kp *KafkaProducer) LatestBlockFromFeed() (int64, error) {
         break PARTITION_LOOP
       }
     }
+    // Wait until the partition is no longer being fetched, as fetches that wait
+    // for new messages delay those of the partitions that follow.
+    pc.Close()
   }
   return highestNumber, nil
 }
-- 
2.43.0


From d2c6ff7b4954c5b094e7b6a9d7c170e6dfb88c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 27/58] fix: consumers and timestamp tokens accept
 cardinal://kafka:// URLs

---
 transports/resolver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transports/resolver.go b/transports/resolver.go
index ff309d2..0312632 100644
--- a/transports/resolver.go
+++ b/transports/resolver.go
@@ -58,7 +58,7 @@ func ResolveConsumer(brokerURL, defaultTopic string, topics []string, resumption
 func resolveConsumer(omp *delivery.OrderedMessageProcessor, brokerURL, defaultTopic string, topics []string, resumption []byte, rollback, lastNumber int64, lastHash types.Hash, trackedPrefixes []*regexp.Regexp) (Consumer, error) {
   switch protocol := strings.Split(strings.TrimPrefix(brokerURL, "cardinal://"), "://"); protocol[0] {
   case "kafka":
-    return kafkaConsumerWithOMP(omp, brokerURL, defaultTopic, topics, resumption, rollback, lastHash)
+    return kafkaConsumerWithOMP(omp, strings.TrimPrefix(brokerURL, "cardinal://"), defaultTopic, topics, resumption, rollback, lastHash)
   case "ws", "wss":
     prefixes := make([]string, len(trackedPrefixes))
     for i, p := range trackedPrefixes {
@@ -77,7 +77,7 @@ func ResumptionForTimestamp(brokerParams []BrokerParams, timestamp int64) ([]byt
   for _, bp := range brokerParams {
     switch protocol := strings.Split(strings.TrimPrefix(bp.URL, "cardinal://"), "://"); protocol[0] {
     case "kafka":
-      res, err := kafkaResumptionForTimestamp(bp.URL, bp.Topics, timestamp)
+      res, err := kafkaResumptionForTimestamp(strings.TrimPrefix(bp.URL, "cardinal://"), bp.Topics, timestamp)
       if err != nil {
         return nil, err
       }
-- 
2.43.0


From 11484579de616e62d28052f45cec31455a58c57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 28/58] fix: timestamp tokens start at the end of partitions
 with only older messages

---
 transports/kafka.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/transports/kafka.go b/transports/kafka.go
index 98157d3..8777248 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -532,10 +532,18 @@ func kafkaResumptionForTimestamp(brokerURL string, topics []string, timestamp in
     parts, err := client.Partitions(topic)
     if err != nil { return nil, err }
     for _, part := range parts {
+      newest, err := client.GetOffset(topic, part, sarama.OffsetNewest)
+      if err != nil {
+        return nil, err
+      }
       offset, err := client.GetOffset(topic, part, timestamp)
       if err != nil {
         return nil, err
       }
+      if offset < 0 {
+        // Every message is older than the timestamp, so start with the next.
+        offset = newest
+      }
       resumption = append(resumption, fmt.Sprintf("%v:%v=%v", topic, part, offset))
     }
   }
-- 
2.43.0


From fa865a5285f626b58308aafd953a1ea2d7d5a2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 29/58] fix: a rollback larger than a token's offset starts at
 the oldest message

---
 transports/kafka.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 8777248..96e6fa3 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -594,7 +594,7 @@ func (kc *KafkaConsumer) Start() error {
       offset, ok := kc.resumption[k]
       var startOffset int64
       if !ok || offset < kc.rollback{
-        if kc.startHash == (types.Hash{}) && kc.rollback >= 0 {
+        if !ok && kc.startHash == (types.Hash{}) && kc.rollback >= 0 {
           // An empty hash indicates an intention to start tracking the feed
           // now, so we should not add historical messages.
           offset, err = kc.client.GetOffset(topic, partid, sarama.OffsetNewest)
-- 
2.43.0


From 7b3981350480ac5f9499b12ac97b25e0317dc657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 30/58] fix: a negative rollback does not skip the message a
 token names

---
 transports/kafka.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 96e6fa3..fd705c2 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -609,7 +609,8 @@ func (kc *KafkaConsumer) Start() error {
           startOffset = offset
         }
       } else {
-        startOffset = offset - kc.rollback
+        startOffset = offset
+        if kc.rollback > 0 { startOffset -= kc.rollback }
         if oldest, err := kc.client.GetOffset(topic, partid, sarama.OffsetOldest); err == nil && startOffset < oldest && oldest <= offset {
           // Roll back as far as there are messages.
           startOffset = oldest
-- 
2.43.0


From 2fbef08f45e376b8af11e251ad0ad69bf8a78746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 31/58] fix: a websocket consumer whose subscription fails
 connects again

A server that could not resume (or a connection lost before the response)
left the consumer waiting forever for a subscription.
---
 transports/websockets.go | 65 ++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index dbfd9e9..44655cd 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -342,34 +342,12 @@ func (c *websocketConsumer) Start() error {
 			}
 			callData, _ := json.Marshal(call)
 			c.conn.WriteMessage(websocket.TextMessage, callData)
-			var subid *hexutil.Uint64
-			for subid == nil {
-				_, message, err := c.conn.ReadMessage()
-				if err != nil {
-					log.Warn("Read error. Resetting Connection.", "err", err)
-					time.Sleep(time.Second)
-					break
-				}
-				var response rpc.Response
-				if err := json.Unmarshal(message, &response); err != nil {
-					log.Warn("Server responded with invalid json", "err", err, "response", string(message))
-					time.Sleep(time.Second)
-					continue
-				}
-				if string(response.ID) == string(call.ID) {
-					idstring, ok := response.Result.(string)
-					if ok {
-						encodedid, err := hexutil.DecodeUint64(idstring)
-						if err != nil {
-							log.Warn("Invalid subscription id", "id", idstring, "err", err)
-							continue
-						}
-						x := hexutil.Uint64(encodedid)
-						subid = &x
-					}
-				} else {
-					log.Warn("Unexpected response", "wanted", call.ID, "got", response.ID)
-				}
+			subid, err := awaitSubscription(c.conn, call.ID)
+			if err != nil {
+				log.Warn("Subscribe failed. Resetting Connection.", "err", err)
+				c.conn.Close()
+				time.Sleep(time.Second)
+				continue
 			}
 			log.Info("Subscription established", "id", subid)
 			var notification rpc.SubscriptionResponseRaw
@@ -392,7 +370,7 @@ func (c *websocketConsumer) Start() error {
 					log.Warn("Unexpected message on channel", "message", string(message))
 					continue
 				}
-				if notification.Params.ID != *subid {
+				if notification.Params.ID != subid {
 					log.Warn("Unexpected subscription id", "wanted", subid, "got", notification.Params.ID)
 					continue
 				}
@@ -470,6 +448,35 @@ func (c *websocketConsumer) Start() error {
 	<-connected
 	return nil
 }
+
+// awaitSubscription reads messages until the server responds to the subscribe
+// call, and returns the id of the subscription.
+func awaitSubscription(conn *websocket.Conn, callID json.RawMessage) (hexutil.Uint64, error) {
+	for {
+		_, message, err := conn.ReadMessage()
+		if err != nil {
+			return 0, err
+		}
+		var response rpc.Response
+		if err := json.Unmarshal(message, &response); err != nil {
+			return 0, fmt.Errorf("server responded with invalid json '%v': %v", string(message), err)
+		}
+		if string(response.ID) != string(callID) {
+			log.Warn("Unexpected response", "wanted", callID, "got", response.ID)
+			continue
+		}
+		idstring, ok := response.Result.(string)
+		if !ok {
+			return 0, fmt.Errorf("server returned no subscription: %v", string(message))
+		}
+		subid, err := hexutil.DecodeUint64(idstring)
+		if err != nil {
+			return 0, fmt.Errorf("invalid subscription id '%v': %v", idstring, err)
+		}
+		return hexutil.Uint64(subid), nil
+	}
+}
+
 func (c *websocketConsumer) Subscribe(ch interface{}) types.Subscription {
 	return c.omp.Subscribe(ch)
 }
-- 
2.43.0


From fe2d12bc2084110510178138e358a3a34f7ca49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 32/58] fix: websocket subscribers miss no block while they
 catch up

Blocks added between the end of the resumption and the subscription to the
feed were not sent. Subscribing first closes the gap; what the feed sends
waits until the resumption is through. A subscriber that goes away while
catching up also no longer leaves a goroutine behind.
---
 transports/websockets.go | 125 ++++++++++++++++++++-------------------
 1 file changed, 63 insertions(+), 62 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index 44655cd..e0039d6 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -16,7 +16,6 @@ import (
 	"net/url"
 	"strconv"
 	"strings"
-	"sync"
 	"time"
 )
 
@@ -33,7 +32,6 @@ type websocketProducer struct {
 	feed types.Feed
 	resumer StreamsResumption
 	expectedBatches map[types.Hash]types.Hash
-	closemu sync.RWMutex
 }
 
 func (*websocketProducer) ProducerCount(time.Duration) uint {
@@ -121,7 +119,6 @@ func (p *websocketProducer) Service() interface{} {
 	return &websocketStreamsService{
 		feed: &p.feed,
 		resumer: p.resumer,
-		closemu: &p.closemu,
 	}
 }
 
@@ -137,7 +134,6 @@ func (p *websocketProducer) AddBlock(number int64, hash, parentHash types.Hash,
 	for k := range deletes {
 		deleteData = append(deleteData, k)
 	}
-	p.closemu.RLock()
 	p.feed.Send(&resultMessage{
 		Type: "batch",
 		Batch: &TransportBatch{
@@ -150,7 +146,6 @@ func (p *websocketProducer) AddBlock(number int64, hash, parentHash types.Hash,
 			Deletes: deleteData,
 		},
 	})
-	p.closemu.RUnlock()
 	for _, v := range batches {
 		p.expectedBatches[v] = hash
 	}
@@ -163,7 +158,6 @@ func (p *websocketProducer) SendBatch(batchid types.Hash, deletes []string, upda
 	for k, v := range updates {
 		updateData[k] = hexutil.Bytes(v)
 	}
-	p.closemu.RLock()
 	p.feed.Send(&resultMessage{
 		Type: "subbatch",
 		SubBatch: &transportSubbatch{
@@ -173,12 +167,10 @@ func (p *websocketProducer) SendBatch(batchid types.Hash, deletes []string, upda
 			Deletes: deletes,
 		},
 	})
-	p.closemu.RUnlock()
 	delete(p.expectedBatches, batchid)
 	return nil
 }
 func (p *websocketProducer) Reorg(number int64, hash types.Hash) (func(), error) {
-	p.closemu.RLock()
 	p.feed.Send(&resultMessage{
 		Type: "reorg",
 		Batch: &TransportBatch{
@@ -186,7 +178,6 @@ func (p *websocketProducer) Reorg(number int64, hash types.Hash) (func(), error)
 			Number: hexutil.Uint64(number),
 		},
 	})
-	p.closemu.RUnlock()
 	return func() {}, nil
 }
 func (*websocketProducer) PurgeReplayCache() {}
@@ -194,7 +185,6 @@ func (*websocketProducer) PurgeReplayCache() {}
 type websocketStreamsService struct {
 	feed *types.Feed
 	resumer StreamsResumption
-	closemu *sync.RWMutex
 }
 
 func (s *websocketStreamsService) StreamsBlock(ctx context.Context, number hexutil.Uint64) (*resultMessage, error) {
@@ -223,71 +213,82 @@ func (s *websocketStreamsService) StreamsBlock(ctx context.Context, number hexut
 }
 
 func (s *websocketStreamsService) Streams(ctx context.Context, number hexutil.Uint64, hash types.Hash) (<-chan *resultMessage, error) {
+	// Subscribe before resuming, so that blocks added in the meantime are not
+	// missed. They have to wait until everything before them has been sent.
+	live := make(chan *resultMessage, 1000)
+	sub := s.feed.Subscribe(live)
 	initBlocks, err := s.resumer.BlocksFrom(ctx, uint64(number), hash)
 	if err != nil {
+		sub.Unsubscribe()
 		return nil, err
 	}
-	subch := make(chan *resultMessage, 1000)
-	var sub types.Subscription
-	sub = &nullSubscription{}
-	var initwg sync.WaitGroup
-	initwg.Add(1)
+	subch := make(chan *resultMessage, 10)
 	go func() {
-		for block := range initBlocks {
-			values := make(map[string]hexutil.Bytes)
-			deletes := make([]string, 0, len(block.Deletes))
-			for k, v := range block.Values {
-				values[k] = hexutil.Bytes(v)
+		defer close(subch)
+		defer sub.Unsubscribe()
+		var queued []*resultMessage
+		var next *resultMessage
+		for initBlocks != nil || next != nil {
+			// Only take another block once the previous one has been sent, to avoid
+			// high memory usage if the consumer can't keep up.
+			source, out := initBlocks, subch
+			if next != nil {
+				source = nil
+			} else {
+				out = nil
 			}
-			for k, _ := range block.Deletes {
-				deletes = append(deletes, k)
-			}
-            for len(subch) > 10 {
-                // If subch is getting backed up, wait before continuing to avoid high memory usage
-                // We need the buffer to be larger for when we transition to the active feed, because
-                // one blocking subscribe can delay the whole feed, but during initialization it's
-                // more likely that consumers won't be able to keep up with the stream than when
-                // blocks are received as they're validated.
-                if ctx.Err() != nil { break }
-                time.Sleep(10 * time.Millisecond)
-            }
-
-			subch <- &resultMessage{
-				Type: "batch",
-				Batch: &TransportBatch{
-					Number: hexutil.Uint64(uint64(block.Number)),
-					Weight: (*hexutil.Big)(block.Weight),
-					Hash: block.Hash,
-					ParentHash: block.ParentHash,
-					Batches: make(map[string]types.Hash),
-					Values: values,
-					Deletes: deletes,
-				},
+			select {
+			case block, ok := <-source:
+				if !ok {
+					initBlocks = nil
+					continue
+				}
+				values := make(map[string]hexutil.Bytes)
+				deletes := make([]string, 0, len(block.Deletes))
+				for k, v := range block.Values {
+					values[k] = hexutil.Bytes(v)
+				}
+				for k, _ := range block.Deletes {
+					deletes = append(deletes, k)
+				}
+				next = &resultMessage{
+					Type: "batch",
+					Batch: &TransportBatch{
+						Number: hexutil.Uint64(uint64(block.Number)),
+						Weight: (*hexutil.Big)(block.Weight),
+						Hash: block.Hash,
+						ParentHash: block.ParentHash,
+						Batches: make(map[string]types.Hash),
+						Values: values,
+						Deletes: deletes,
+					},
+				}
+			case out <- next:
+				next = nil
+			case message := <-live:
+				// One blocking subscriber can delay the whole feed, so don't let its
+				// messages pile up behind the resumption.
+				queued = append(queued, message)
+			case <-ctx.Done():
+				return
 			}
 		}
-		if ctx.Err() == nil {
-			sub = s.feed.Subscribe(subch)
-			subch <- &resultMessage{
-				Type: "ready",
+		for _, message := range append(queued, &resultMessage{Type: "ready"}) {
+			select {
+			case subch <- message:
+			case <-ctx.Done():
+				return
 			}
 		}
-		initwg.Done()
-	}()
-	go func() {
 		for {
 			select {
+			case message := <-live:
+				select {
+				case subch <- message:
+				case <-ctx.Done():
+					return
+				}
 			case <-ctx.Done():
-				initwg.Wait()
-				sub.Unsubscribe()
-				s.closemu.Lock()
-				close(subch)
-				s.closemu.Unlock()
-				return
-			case <-sub.Err():
-				sub.Unsubscribe()
-				s.closemu.Lock()
-				close(subch)
-				s.closemu.Unlock()
 				return
 			}
 		}
-- 
2.43.0


From 7b030c58067de86a5061b22e66da3ed732e48135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 33/58] fix: a reconnecting websocket consumer resumes from the
 last block it emitted

It resumed from the last block it had received, even if earlier blocks were
still waiting for a subbatch or for ancestors, which it then never got.
---
 transports/websockets.go | 45 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index e0039d6..991f7de 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -16,6 +16,7 @@ import (
 	"net/url"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 )
 
@@ -306,6 +307,7 @@ type websocketConsumer struct {
 	conn *websocket.Conn
 	ready chan struct{}
 	quit bool
+	lastmu sync.Mutex
 	lastNum hexutil.Uint64
 	lastHash types.Hash
     waiter waiter.Waiter
@@ -323,6 +325,7 @@ func (c *websocketConsumer) Start() error {
 	var err error
 	connected := make(chan struct{}, 8)
 	isReady := false
+	c.trackEmitted()
 	go func() {
 		for !c.quit {
 			c.conn, _, err = websocket.DefaultDialer.Dial(c.url, nil)
@@ -335,7 +338,10 @@ func (c *websocketConsumer) Start() error {
 			batches := make(map[types.Hash]*delivery.PendingBatch)
 			subbatches := make(map[types.Hash]*transportSubbatch)
 			pendingSubbatches := make(map[types.Hash]map[types.Hash]struct{})
-			call, err := rpc.NewCall("cardinal_subscribe", "streams", c.lastNum, c.lastHash)
+			c.lastmu.Lock()
+			lastNum, lastHash := c.lastNum, c.lastHash
+			c.lastmu.Unlock()
+			call, err := rpc.NewCall("cardinal_subscribe", "streams", lastNum, lastHash)
 			if err != nil {
 				log.Warn("Subscribe failed", "err", err)
 				time.Sleep(time.Second)
@@ -418,8 +424,6 @@ func (c *websocketConsumer) Start() error {
 					if len(pendingSubbatches[pb.Hash]) == 0 {
 						delete(pendingSubbatches, pb.Hash)
 						c.omp.ProcessCompleteBatch(pb)
-						c.lastNum = hexutil.Uint64(pb.Number)
-						c.lastHash = pb.Hash
 					}
 				case "subbatch":
 					pb, ok := batches[item.SubBatch.Hash]
@@ -439,8 +443,6 @@ func (c *websocketConsumer) Start() error {
 						delete(pendingSubbatches, item.SubBatch.Hash)
 						delete(batches, item.SubBatch.Hash)
 						c.omp.ProcessCompleteBatch(pb)
-						c.lastNum = hexutil.Uint64(pb.Number)
-						c.lastHash = pb.Hash
 					}
 				}
 			}
@@ -450,6 +452,39 @@ func (c *websocketConsumer) Start() error {
 	return nil
 }
 
+// trackEmitted keeps track of the latest block that has been emitted in order.
+// That's where we have to resume when reconnecting: blocks we received ahead of
+// it may be waiting for ancestors or subbatches that we would not get again.
+func (c *websocketConsumer) trackEmitted() {
+	updates := make(chan *delivery.ChainUpdate)
+	reorgs := make(chan map[int64]types.Hash)
+	updateSub := c.omp.Subscribe(updates)
+	reorgSub := c.omp.SubscribeReorg(reorgs)
+	emitted := func(num int64, hash types.Hash) {
+		c.lastmu.Lock()
+		c.lastNum, c.lastHash = hexutil.Uint64(num), hash
+		c.lastmu.Unlock()
+	}
+	go func() {
+		for !c.quit {
+			select {
+			case update := <-updates:
+				if added := update.Added(); len(added) > 0 {
+					emitted(added[len(added) - 1].Number, added[len(added) - 1].Hash)
+				}
+			case reorg := <-reorgs:
+				for num, hash := range reorg {
+					emitted(num, hash)
+				}
+			case <-time.After(time.Second):
+				// Check whether it's time to quit
+			}
+		}
+		updateSub.Unsubscribe()
+		reorgSub.Unsubscribe()
+	}()
+}
+
 // awaitSubscription reads messages until the server responds to the subscribe
 // call, and returns the id of the subscription.
 func awaitSubscription(conn *websocket.Conn, callID json.RawMessage) (hexutil.Uint64, error) {
-- 
2.43.0


From 958c86823e3bbf648353e6e1ead4f47d55ca0b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 34/58] fix: a websocket consumer can be closed at any time

Closing it before the first connection crashed, closing it while it was
reconnecting left the new connection open and in use, and Start went on
waiting. Connections that broke were not closed either.
---
 transports/websockets.go | 86 ++++++++++++++++++++++++++++++----------
 1 file changed, 65 insertions(+), 21 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index 991f7de..9538f2d 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -304,9 +304,10 @@ type websocketConsumer struct {
 	chainUpdates types.Feed
 	pendingBatches types.Feed
 	reorgs types.Feed
+	connmu sync.Mutex
 	conn *websocket.Conn
 	ready chan struct{}
-	quit bool
+	quit chan struct{}
 	lastmu sync.Mutex
 	lastNum hexutil.Uint64
 	lastHash types.Hash
@@ -314,27 +315,55 @@ type websocketConsumer struct {
 }
 
 func newWebsocketConsumer(omp *delivery.OrderedMessageProcessor, url string, lastNum int64, lastHash types.Hash) (Consumer, error) {
-	return &websocketConsumer{url: strings.TrimPrefix(url, "cardinal://"), omp: omp, ready: make(chan struct{}), lastNum: hexutil.Uint64(lastNum), lastHash: lastHash}, nil
+	return &websocketConsumer{url: strings.TrimPrefix(url, "cardinal://"), omp: omp, ready: make(chan struct{}), quit: make(chan struct{}), lastNum: hexutil.Uint64(lastNum), lastHash: lastHash}, nil
 }
 
 func (*websocketConsumer) ProducerCount(time.Duration) uint {
   return 0
 }
 
+// setConn makes conn the current connection, unless the consumer has been closed.
+func (c *websocketConsumer) setConn(conn *websocket.Conn) bool {
+	c.connmu.Lock()
+	defer c.connmu.Unlock()
+	select {
+	case <-c.quit:
+		conn.Close()
+		return false
+	default:
+		c.conn = conn
+		return true
+	}
+}
+
+// wait returns false once the consumer has been closed.
+func (c *websocketConsumer) wait(d time.Duration) bool {
+	select {
+	case <-c.quit:
+	case <-time.After(d):
+	}
+	select {
+	case <-c.quit:
+		return false
+	default:
+		return true
+	}
+}
+
 func (c *websocketConsumer) Start() error {
-	var err error
 	connected := make(chan struct{}, 8)
 	isReady := false
 	c.trackEmitted()
 	go func() {
-		for !c.quit {
-			c.conn, _, err = websocket.DefaultDialer.Dial(c.url, nil)
+		for c.wait(0) {
+			conn, _, err := websocket.DefaultDialer.Dial(c.url, nil)
 			if err != nil {
 				// If we can't connect, don't slam the server with connection attempts
 				log.Warn("Dial failed", "url", c.url, "error", err)
-				time.Sleep(time.Second)
+				if !c.wait(time.Second) { return }
 				continue
 			}
+			if !c.setConn(conn) { return }
 			batches := make(map[types.Hash]*delivery.PendingBatch)
 			subbatches := make(map[types.Hash]*transportSubbatch)
 			pendingSubbatches := make(map[types.Hash]map[types.Hash]struct{})
@@ -344,16 +373,17 @@ func (c *websocketConsumer) Start() error {
 			call, err := rpc.NewCall("cardinal_subscribe", "streams", lastNum, lastHash)
 			if err != nil {
 				log.Warn("Subscribe failed", "err", err)
-				time.Sleep(time.Second)
+				conn.Close()
+				if !c.wait(time.Second) { return }
 				continue
 			}
 			callData, _ := json.Marshal(call)
-			c.conn.WriteMessage(websocket.TextMessage, callData)
-			subid, err := awaitSubscription(c.conn, call.ID)
+			conn.WriteMessage(websocket.TextMessage, callData)
+			subid, err := awaitSubscription(conn, call.ID)
 			if err != nil {
 				log.Warn("Subscribe failed. Resetting Connection.", "err", err)
-				c.conn.Close()
-				time.Sleep(time.Second)
+				conn.Close()
+				if !c.wait(time.Second) { return }
 				continue
 			}
 			log.Info("Subscription established", "id", subid)
@@ -363,9 +393,10 @@ func (c *websocketConsumer) Start() error {
 			default:
 			}
 			for {
-				_, message, err := c.conn.ReadMessage()
+				_, message, err := conn.ReadMessage()
 				if err != nil {
 					log.Debug("Read error. Resetting connection.", "err", err)
+					conn.Close()
 					break
 				}
 				if len(message) == 0 {
@@ -448,8 +479,12 @@ func (c *websocketConsumer) Start() error {
 			}
 		}
 	}()
-	<-connected
-	return nil
+	select {
+	case <-connected:
+		return nil
+	case <-c.quit:
+		return fmt.Errorf("consumer closed")
+	}
 }
 
 // trackEmitted keeps track of the latest block that has been emitted in order.
@@ -466,7 +501,9 @@ func (c *websocketConsumer) trackEmitted() {
 		c.lastmu.Unlock()
 	}
 	go func() {
-		for !c.quit {
+		defer updateSub.Unsubscribe()
+		defer reorgSub.Unsubscribe()
+		for {
 			select {
 			case update := <-updates:
 				if added := update.Added(); len(added) > 0 {
@@ -476,12 +513,10 @@ func (c *websocketConsumer) trackEmitted() {
 				for num, hash := range reorg {
 					emitted(num, hash)
 				}
-			case <-time.After(time.Second):
-				// Check whether it's time to quit
+			case <-c.quit:
+				return
 			}
 		}
-		updateSub.Unsubscribe()
-		reorgSub.Unsubscribe()
 	}()
 }
 
@@ -520,8 +555,17 @@ func (c *websocketConsumer) SubscribeReorg(ch chan<- map[int64]types.Hash) types
 	return c.omp.SubscribeReorg(ch)
 }
 func (c *websocketConsumer) Close() {
-	c.quit = true
-	c.conn.Close()
+	c.connmu.Lock()
+	defer c.connmu.Unlock()
+	select {
+	case <-c.quit:
+		return
+	default:
+	}
+	close(c.quit)
+	if c.conn != nil {
+		c.conn.Close()
+	}
 }
 func (c *websocketConsumer) Ready() <-chan struct{} {
 	return c.ready
-- 
2.43.0


From 5af038e98e292e596b2f389bd6ca6e70fd6023cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 35/58] fix: a websocket consumer loses no block sent ahead of
 its subscription id

The server may send the first blocks before the response to the subscribe
call. They were taken for unexpected responses and dropped.
---
 transports/websockets.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index 9538f2d..fcb1669 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -379,7 +379,7 @@ func (c *websocketConsumer) Start() error {
 			}
 			callData, _ := json.Marshal(call)
 			conn.WriteMessage(websocket.TextMessage, callData)
-			subid, err := awaitSubscription(conn, call.ID)
+			subid, early, err := awaitSubscription(conn, call.ID)
 			if err != nil {
 				log.Warn("Subscribe failed. Resetting Connection.", "err", err)
 				conn.Close()
@@ -393,8 +393,10 @@ func (c *websocketConsumer) Start() error {
 			default:
 			}
 			for {
-				_, message, err := conn.ReadMessage()
-				if err != nil {
+				var message []byte
+				if len(early) > 0 {
+					message, early = early[0], early[1:]
+				} else if _, message, err = conn.ReadMessage(); err != nil {
 					log.Debug("Read error. Resetting connection.", "err", err)
 					conn.Close()
 					break
@@ -521,30 +523,32 @@ func (c *websocketConsumer) trackEmitted() {
 }
 
 // awaitSubscription reads messages until the server responds to the subscribe
-// call, and returns the id of the subscription.
-func awaitSubscription(conn *websocket.Conn, callID json.RawMessage) (hexutil.Uint64, error) {
+// call, and returns the id of the subscription, as well as the messages that
+// were ahead of the response: the subscription may start before it is announced.
+func awaitSubscription(conn *websocket.Conn, callID json.RawMessage) (hexutil.Uint64, [][]byte, error) {
+	var early [][]byte
 	for {
 		_, message, err := conn.ReadMessage()
 		if err != nil {
-			return 0, err
+			return 0, nil, err
 		}
 		var response rpc.Response
 		if err := json.Unmarshal(message, &response); err != nil {
-			return 0, fmt.Errorf("server responded with invalid json '%v': %v", string(message), err)
+			return 0, nil, fmt.Errorf("server responded with invalid json '%v': %v", string(message), err)
 		}
 		if string(response.ID) != string(callID) {
-			log.Warn("Unexpected response", "wanted", callID, "got", response.ID)
+			early = append(early, message)
 			continue
 		}
 		idstring, ok := response.Result.(string)
 		if !ok {
-			return 0, fmt.Errorf("server returned no subscription: %v", string(message))
+			return 0, nil, fmt.Errorf("server returned no subscription: %v", string(message))
 		}
 		subid, err := hexutil.DecodeUint64(idstring)
 		if err != nil {
-			return 0, fmt.Errorf("invalid subscription id '%v': %v", idstring, err)
+			return 0, nil, fmt.Errorf("invalid subscription id '%v': %v", idstring, err)
 		}
-		return hexutil.Uint64(subid), nil
+		return hexutil.Uint64(subid), early, nil
 	}
 }
 
-- 
2.43.0


From c018dd538a620e6348a152d332329c7b7b65825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 36/58] fix: a stuck websocket subscriber does not block the
 producer forever

If the server stops taking a subscriber's messages without cancelling its
context, the subscription stayed in the feed, and AddBlock waited for it
once its buffer was full.
---
 transports/websockets.go | 63 +++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index fcb1669..e6d2972 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -183,6 +183,10 @@ func (p *websocketProducer) Reorg(number int64, hash types.Hash) (func(), error)
 }
 func (*websocketProducer) PurgeReplayCache() {}
 
+// subscriberTimeout is how long a subscriber may take for a single message. It
+// exceeds the time after which the server gives up on writing to a connection.
+const subscriberTimeout = 3 * time.Minute
+
 type websocketStreamsService struct {
 	feed *types.Feed
 	resumer StreamsResumption
@@ -218,8 +222,10 @@ func (s *websocketStreamsService) Streams(ctx context.Context, number hexutil.Ui
 	// missed. They have to wait until everything before them has been sent.
 	live := make(chan *resultMessage, 1000)
 	sub := s.feed.Subscribe(live)
+	ctx, cancel := context.WithCancel(ctx)
 	initBlocks, err := s.resumer.BlocksFrom(ctx, uint64(number), hash)
 	if err != nil {
+		cancel()
 		sub.Unsubscribe()
 		return nil, err
 	}
@@ -227,16 +233,32 @@ func (s *websocketStreamsService) Streams(ctx context.Context, number hexutil.Ui
 	go func() {
 		defer close(subch)
 		defer sub.Unsubscribe()
+		defer cancel()
+		ticker := time.NewTicker(subscriberTimeout / 4)
+		defer ticker.Stop()
 		var queued []*resultMessage
 		var next *resultMessage
-		for initBlocks != nil || next != nil {
-			// Only take another block once the previous one has been sent, to avoid
-			// high memory usage if the consumer can't keep up.
-			source, out := initBlocks, subch
-			if next != nil {
+		ready := false
+		idle := 0
+		for {
+			if next == nil && initBlocks == nil {
+				if len(queued) > 0 {
+					next, queued = queued[0], queued[1:]
+				} else if !ready {
+					next, ready = &resultMessage{Type: "ready"}, true
+				}
+			}
+			// Only take another message once the previous one has been sent, to avoid
+			// high memory usage if the consumer can't keep up. While resuming, the
+			// feed is taken regardless, because one blocking subscriber can delay the
+			// whole feed.
+			source, feed, out := initBlocks, live, subch
+			if next == nil {
+				out = nil
+			} else if source != nil {
 				source = nil
 			} else {
-				out = nil
+				feed = nil
 			}
 			select {
 			case block, ok := <-source:
@@ -265,28 +287,15 @@ func (s *websocketStreamsService) Streams(ctx context.Context, number hexutil.Ui
 					},
 				}
 			case out <- next:
-				next = nil
-			case message := <-live:
-				// One blocking subscriber can delay the whole feed, so don't let its
-				// messages pile up behind the resumption.
+				next, idle = nil, 0
+			case message := <-feed:
 				queued = append(queued, message)
-			case <-ctx.Done():
-				return
-			}
-		}
-		for _, message := range append(queued, &resultMessage{Type: "ready"}) {
-			select {
-			case subch <- message:
-			case <-ctx.Done():
-				return
-			}
-		}
-		for {
-			select {
-			case message := <-live:
-				select {
-				case subch <- message:
-				case <-ctx.Done():
+			case <-ticker.C:
+				if next == nil {
+					idle = 0
+				} else if idle++; idle > 4 {
+					// The connection should have timed out long ago.
+					log.Warn("Dropping stuck subscriber")
 					return
 				}
 			case <-ctx.Done():
-- 
2.43.0


From 1fdd7084f1cfdfcf5c647dfabfad8515a6138108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 37/58] fix: several transports may deliver to a processor, and
 be asked why blocks are not ready, at once

A multiplexed consumer's transports process messages concurrently, as do
applications calling WhyNotReady, which crashed on concurrent map access.
---
 delivery/consumer.go | 58 +++++++++++++++++++++++++++++++++-----------
 delivery/ordering.go | 19 +++++++++++++--
 2 files changed, 61 insertions(+), 16 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 8bc79f5..6058342 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -202,6 +202,11 @@ type MessageProcessor struct {
   resumption      map[string]int64
   evictCh         chan int64
   failedReconstructPanic bool
+  // Several transports may share a processor. procmu makes sure that messages
+  // and batches are processed one at a time. mu protects the state, and is not
+  // held while subscribers are being served, as they may ask for it.
+  procmu          sync.Mutex
+  mu              sync.Mutex
 }
 
 // NewMessageProcessor instantiates a MessageProcessor. lastEmittedNum should
@@ -255,7 +260,18 @@ func (mp *MessageProcessor) evictOlderThan(n int64) {
   }
 }
 
+// unlocked calls f without holding mp.mu, which the caller must hold.
+func (mp *MessageProcessor) unlocked(f func()) {
+  mp.mu.Unlock()
+  defer mp.mu.Lock()
+  f()
+}
+
 func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
+	mp.procmu.Lock()
+	defer mp.procmu.Unlock()
+	mp.mu.Lock()
+	defer mp.mu.Unlock()
 	// Announce each block to waiters only once: they would otherwise wait for the
 	// latest announcement, even if an earlier one is what gets applied.
 	announced := mp.completed.Contains(pb.Hash)
@@ -268,14 +284,16 @@ func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 		}
 	}
 	if !announced {
-		mp.waitFeed.Send(&Waiter{
-			Hash: pb.Hash,
-			Parent: pb.ParentHash,
-			Number: pb.Number,
-			WaitCh: pb.waitCh,
+		mp.unlocked(func() {
+			mp.waitFeed.Send(&Waiter{
+				Hash: pb.Hash,
+				Parent: pb.ParentHash,
+				Number: pb.Number,
+				WaitCh: pb.waitCh,
+			})
 		})
 	}
-	mp.feed.Send(pb)
+	mp.unlocked(func() { mp.feed.Send(pb) })
 	mp.lastEmittedNum = pb.Number
 	mp.completed.Add(pb.Hash, struct{}{})
 	delete(mp.pendingBatches, pb.Hash)
@@ -296,6 +314,14 @@ func checkKey(key []byte) error {
 
 // ProcessMessage takes in messages and assembles completed blocks of messages.
 func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
+  mp.procmu.Lock()
+  defer mp.procmu.Unlock()
+  mp.mu.Lock()
+  defer mp.mu.Unlock()
+  return mp.processMessage(m)
+}
+
+func (mp *MessageProcessor) processMessage(m ResumptionMessage) error {
   EVICTLOOP:
   for {
     select {
@@ -323,7 +349,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     }
     mp.oldBlocks = make(map[types.Hash]struct{})
     mp.lastEmittedNum = int64(num)
-    mp.reorgFeed.Send(map[int64]types.Hash{mp.lastEmittedNum: hash})
+    mp.unlocked(func() { mp.reorgFeed.Send(map[int64]types.Hash{int64(num): hash}) })
     return nil
   }
   if mp.completed.Contains(hash) { return nil }   // We've recently emitted this block
@@ -342,11 +368,13 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     //   return nil
     // }
     waitCh := make(chan struct{})
-    mp.waitFeed.Send(&Waiter{
-      Hash: b.Hash,
-      Parent: b.ParentHash,
-      Number: b.Number,
-      WaitCh: waitCh,
+    mp.unlocked(func() {
+      mp.waitFeed.Send(&Waiter{
+        Hash: b.Hash,
+        Parent: b.ParentHash,
+        Number: b.Number,
+        WaitCh: waitCh,
+      })
     })
     mp.pendingBatches[hash] = &PendingBatch{
       Number: b.Number,
@@ -391,7 +419,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     if _, ok := mp.pendingMessages[hash]; ok {
       // We have some messages that arrived before the batch header. Process them now.
       for _, msg := range mp.pendingMessages[hash] {
-        if err := mp.ProcessMessage(msg); err != nil {
+        if err := mp.processMessage(msg); err != nil {
           // Don't let one bad message keep the rest from being processed
           log.Error("Error processing queued message", "err", err, "key", msg.Key())
         }
@@ -427,7 +455,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     mp.pendingBatches[hash].ApplyMessage(m)
   }
   if b, ok := mp.pendingBatches[hash] ; ok && b.Ready() {
-    mp.feed.Send(b)
+    mp.unlocked(func() { mp.feed.Send(b) })
     mp.lastEmittedNum = b.Number
     mp.completed.Add(hash, struct{}{})
     delete(mp.pendingBatches, hash)
@@ -442,6 +470,8 @@ func (mp *MessageProcessor) queueMessage(hash types.Hash, m ResumptionMessage) {
 }
 
 func (mp *MessageProcessor) WhyNotReady(hash types.Hash) string {
+  mp.mu.Lock()
+  defer mp.mu.Unlock()
   if pb, ok := mp.pendingBatches[hash]; ok {
     return pb.whyNotReady()
   } else {
diff --git a/delivery/ordering.go b/delivery/ordering.go
index f53f508..182578a 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -7,6 +7,7 @@ import (
   "github.com/openrelayxyz/cardinal-types/metrics"
   "github.com/hashicorp/golang-lru"
   log "github.com/inconshreveable/log15"
+  "sync"
   "time"
 )
 
@@ -34,6 +35,9 @@ type OrderedMessageProcessor struct {
   whitelist      map[uint64]types.Hash
   blacklist      map[types.Hash]struct{}
   initEmpty      bool
+  // mu protects the state. It is not held while subscribers are being served,
+  // as they may ask for it.
+  mu             sync.Mutex
 }
 
 
@@ -192,6 +196,12 @@ func (omp *OrderedMessageProcessor) SubscribeReorg(ch chan<- map[int64]types.Has
 }
 
 func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg bool) {
+  omp.mu.Lock()
+  defer omp.mu.Unlock()
+  omp.handlePendingBatch(pb, reorg)
+}
+
+func (omp *OrderedMessageProcessor) handlePendingBatch(pb *PendingBatch, reorg bool) {
   if h, ok := omp.whitelist[uint64(pb.Number)]; ok && h != pb.Hash {
     // If a block is excluded by the whitelist, add it to the blacklist
     omp.blacklist[pb.Hash] = struct{}{}
@@ -248,7 +258,7 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
       // log.Debug("Weight does not justify reorg, but child is available", "child", child)
       // This block's child is already pending, process it instead
       if pb, ok := omp.pending[child]; ok {
-        omp.HandlePendingBatch(pb, true)
+        omp.handlePendingBatch(pb, true)
       }
       omp.queue(pb)
       return
@@ -317,6 +327,8 @@ func (omp *OrderedMessageProcessor) prepareEmit(new, old []*PendingBatch) {
     reorgAddMeter.Mark(int64(len(new)))
     reorgExecMeter.Mark(1)
   }
+  omp.mu.Unlock()
+  defer omp.mu.Lock()
   omp.updateFeed.Send(&ChainUpdate{added: new, removed: old})
 }
 
@@ -423,6 +435,9 @@ func (omp *OrderedMessageProcessor) Close() {
 
 func (omp *OrderedMessageProcessor) WhyNotReady(hash types.Hash) string {
   if omp.finished.Contains(hash) { return "done, not evicted" }
-  if _, ok := omp.pending[hash]; ok { return "pending parent" }
+  omp.mu.Lock()
+  _, ok := omp.pending[hash]
+  omp.mu.Unlock()
+  if ok { return "pending parent" }
   return omp.mp.WhyNotReady(hash)
 }
-- 
2.43.0


From 44851673c9c86ccacc1eb6bb8aa2d23189d03402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 38/58] fix: WhyNotReady names messages of subbatches that are
 missing

---
 delivery/consumer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 6058342..dafd154 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -93,7 +93,7 @@ func (pb *PendingBatch) whyNotReady() string {
   }
   for batchid, batch := range pb.batches {
     for i, b := range batch {
-      if !b { fmt.Sprintf("Pending batch '%#x'[%v]", batchid, i) }
+      if !b { return fmt.Sprintf("Pending batch '%#x'[%v]", batchid, i) }
     }
   }
   return "ready"
-- 
2.43.0


From c556147499427a94944c6601c922c01b50aed1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 39/58] fix: a Kafka consumer's readiness reaches everyone who
 asks for it

It was sent to one receiver only; others waited forever.
---
 transports/kafka.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index fd705c2..cf0ba28 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -654,7 +654,9 @@ func (kc *KafkaConsumer) Start() error {
             warmupWg.Wait()
             warm = true
           }
-          if kc.ready != nil {
+          select {
+          case <-kc.ready:
+          default:
             if !kc.isReorg {
               dl.Step(i)
             }
@@ -701,9 +703,8 @@ func (kc *KafkaConsumer) Start() error {
     readych = nil
     reorgWg.Wait()
     log.Debug("Reorg waiter ready")
-    kc.ready <- struct{}{}
+    close(kc.ready)
     log.Debug("Ready sent")
-    kc.ready = nil
     dl.Close()
     delivery.Ready()
   }(&readyWg, &reorgWg)
@@ -814,10 +815,7 @@ func (kc *KafkaConsumer) ProducerCount(d time.Duration) uint {
 }
 
 func (kc *KafkaConsumer) Ready() <-chan struct{} {
-  if kc.ready != nil { return kc.ready }
-  r := make(chan struct{}, 1)
-  r <- struct{}{}
-  return r
+  return kc.ready
 }
 func (kc *KafkaConsumer) Subscribe(ch interface{}) types.Subscription {
   return kc.omp.Subscribe(ch)
-- 
2.43.0


From 3a770efe96a5f0670ebb1b6efffe214f52a89de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 40/58] fix: a Kafka consumer can be closed at any time and
 leaves nothing behind

Closing one that had not been started, had failed to start, was waiting for a
reorg or had been closed already hung. Goroutines and the connections to the
brokers were left behind, as were the partitions of a start that failed.
---
 transports/kafka.go | 100 ++++++++++++++++++++++++++++++++------------
 1 file changed, 73 insertions(+), 27 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index cf0ba28..62f6f02 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -486,6 +486,8 @@ type KafkaConsumer struct{
   startHash    types.Hash
   pt           *pingTracker
   waiter       waiter.Waiter
+  startMu      sync.Mutex // Held while Start() is setting up
+  closeOnce    sync.Once
 }
 
 func kafkaConsumerWithOMP(omp *delivery.OrderedMessageProcessor, brokerURL, defaultTopic string, topics []string, resumption []byte, rollback int64, lastHash types.Hash) (Consumer, error) {
@@ -572,7 +574,18 @@ func nothingToRead(client sarama.Client, topic string, partid int32, offset int6
   return offset >= newest, nil
 }
 
-func (kc *KafkaConsumer) Start() error {
+func (kc *KafkaConsumer) closed() bool {
+  select {
+  case <-kc.quit:
+    return true
+  default:
+    return false
+  }
+}
+
+func (kc *KafkaConsumer) Start() (err error) {
+  kc.startMu.Lock()
+  defer kc.startMu.Unlock()
   log.Debug("Starting kafka consumer")
   dl := drumline.NewDrumline(256)
   consumer, err := sarama.NewConsumerFromClient(kc.client)
@@ -580,16 +593,33 @@ func (kc *KafkaConsumer) Start() error {
   var readyWg, warmupWg, reorgWg sync.WaitGroup
   messages := make(chan *sarama.ConsumerMessage, 512) // 512 is arbitrary. Worked for Flume, but may require tuning for Cardinal
   partitionConsumers := []sarama.PartitionConsumer{}
-  heartbeats := make(chan types.Hash)
+  // stop ends the partition consumers. Somebody has to take their messages
+  // until the channel gets closed.
+  stop := func() {
+    for _, pc := range partitionConsumers {
+      pc.AsyncClose()
+    }
+    go func() {
+      kc.shutdownWg.Wait()
+      close(messages)
+    }()
+  }
   // Partition consumers can get messages while others are still being set up,
   // and have to wait for those too.
   warmupWg.Add(1)
+  defer func() {
+    warmupWg.Done()
+    if err != nil {
+      stop()
+      for range messages {}
+      if len(partitionConsumers) > 0 { dl.Close() }
+    }
+  }()
   for _, topic := range kc.topics {
     partitions, err := consumer.Partitions(topic)
     if err != nil { return err }
     for _, partid := range partitions {
-      readyWg.Add(1)
-      warmupWg.Add(1)
+      if kc.closed() { return fmt.Errorf("consumer closed") }
       k := fmt.Sprintf("%v:%v", topic, partid)
       offset, ok := kc.resumption[k]
       var startOffset int64
@@ -623,8 +653,13 @@ func (kc *KafkaConsumer) Start() error {
         startOffset = offset
       }
       caughtUp, err := nothingToRead(kc.client, topic, partid, startOffset)
-      if err != nil { return err }
+      if err != nil {
+        pc.Close()
+        return err
+      }
       log.Info("Starting partition consumer", "topic", topic, "partition", partid, "offset", offset, "startOffset", startOffset)
+      readyWg.Add(1)
+      warmupWg.Add(1)
       kc.shutdownWg.Add(1)
       go func(pc sarama.PartitionConsumer, startOffset int64, partid int32, i int, topic string, caughtUp bool) {
         defer kc.shutdownWg.Done()
@@ -675,12 +710,17 @@ func (kc *KafkaConsumer) Start() error {
         if !warm {
           // Closed before there was a message. Others must not wait for it.
           warmupWg.Done()
+          // The drumline ends when all of those it knows about are done.
+          warmupWg.Wait()
         }
+        once.Do(func() {
+          dl.Done(i)
+          readyWg.Done()
+        })
       }(pc, startOffset, partid, len(partitionConsumers), topic, caughtUp)
       partitionConsumers = append(partitionConsumers, pc)
     }
   }
-  warmupWg.Done()
   var readych chan time.Time
   readyWaiter := func() <-chan time.Time  {
     // If readych isn't ready to receive, use it as the sender, eliminating any
@@ -696,29 +736,38 @@ func (kc *KafkaConsumer) Start() error {
   go func(wg, reorgWg *sync.WaitGroup) {
     // Wait until all partition consumers are up to the high water mark and alert the ready channel
     wg.Wait()
+    if len(partitionConsumers) > 0 { defer dl.Close() }
     log.Debug("Partitions ready")
     readych = make(chan time.Time)
-    <-readych
+    select {
+    case <-readych:
+    case <-kc.quit:
+      return
+    }
     log.Debug("Ready")
     readych = nil
     reorgWg.Wait()
     log.Debug("Reorg waiter ready")
+    if kc.closed() { return }
     close(kc.ready)
     log.Debug("Ready sent")
-    dl.Close()
     delivery.Ready()
   }(&readyWg, &reorgWg)
   go func() {
     hbGauge := metrics.NewMajorGauge("streams/kafka/heartbeat")
     hbGauge.Update(1)
     hbTicker := time.NewTicker(time.Minute)
+    defer hbTicker.Stop()
+    quit := kc.quit
     var reorgsPending int
     for {
       select {
       case input, ok := <-messages:
         if !ok {
+          for ; reorgsPending > 0; reorgsPending-- { reorgWg.Done() }
           return
         }
+        if quit == nil { continue } // Closing
         msg := &KafkaResumptionMessage{input}
         if len(msg.Key()) == 0 {
           // Update the heartbeat gauge to 1 (received heartbeat) and reset the
@@ -745,7 +794,10 @@ func (kc *KafkaConsumer) Start() error {
               log.Error("Error reading reorg", "err", err, "topic", rekc.topics[0])
               continue
             }
-            <-rekc.Ready()
+            select {
+            case <-rekc.Ready():
+            case <-kc.quit:
+            }
             rekc.Close()
           } else {
             reorgsPending++
@@ -755,7 +807,7 @@ func (kc *KafkaConsumer) Start() error {
             }
           }
         case delivery.PingType:
-          heartbeats <- types.BytesToHash(msg.Key()[1:])
+          kc.pt.update(types.BytesToHash(msg.Key()[1:]))
         case delivery.ReorgCompleteType:
           if reorgsPending > 0 {
             reorgsPending--
@@ -787,27 +839,14 @@ func (kc *KafkaConsumer) Start() error {
         case readych <- v:
         default:
         }
-      case <-kc.quit:
-        go func() {
-          for _, c := range partitionConsumers {
-            c.Close()
-          }
-          kc.shutdownWg.Wait()
-          close(messages)
-        }()
+      case <-quit:
+        quit = nil
+        stop()
       case <-hbTicker.C:
         hbGauge.Update(0)
       }
     }
   }()
-  go func() {
-    for {
-      select {
-      case h := <-heartbeats:
-        kc.pt.update(h)
-      }
-    }
-  }()
   return nil
 }
 func (kc *KafkaConsumer) ProducerCount(d time.Duration) uint {
@@ -824,8 +863,15 @@ func (kc *KafkaConsumer) SubscribeReorg(ch chan<- map[int64]types.Hash) types.Su
   return kc.omp.SubscribeReorg(ch)
 }
 func (kc *KafkaConsumer) Close() {
-  kc.quit <- struct{}{}
+  kc.closeOnce.Do(func() { close(kc.quit) })
+  if !kc.startMu.TryLock() {
+    // Start() may be waiting for brokers that don't respond
+    if !kc.isReorg { kc.client.Close() }
+    kc.startMu.Lock()
+  }
+  defer kc.startMu.Unlock()
   kc.shutdownWg.Wait()
+  if !kc.isReorg { kc.client.Close() } // Reorgs share the client
 }
 func (kc *KafkaConsumer) WhyNotReady(hash types.Hash) string {
   return kc.omp.WhyNotReady(hash)
-- 
2.43.0


From aad9b9b4c23de770e8e85f1f7a9f3d1b56ef08f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 41/58] fix: timestamp tokens and failed creations leave no
 connections open

---
 transports/kafka.go    | 15 ++++++++++++---
 transports/resolver.go |  5 ++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 62f6f02..3c82c28 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -258,11 +258,19 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
   }
   pt := newPingTracker()
   client, err := sarama.NewClient(brokers, config)
-  if err != nil { return nil, err }
+  if err != nil {
+    producer.Close()
+    return nil, err
+  }
+  fail := func(err error) (Producer, error) {
+    producer.Close()
+    client.Close()
+    return nil, err
+  }
   consumer, err := sarama.NewConsumerFromClient(client)
-  if err != nil { return nil, err }
+  if err != nil { return fail(err) }
   partitions, err := consumer.Partitions(defaultTopic)
-  if err != nil { return nil, err }
+  if err != nil { return fail(err) }
   cache, _ := lru.New(4096)
   heartbeats := make(chan types.Hash)
   var readyWg sync.WaitGroup
@@ -529,6 +537,7 @@ func kafkaResumptionForTimestamp(brokerURL string, topics []string, timestamp in
     log.Error("error connecting to brokers", "brokers", brokers)
     return nil, err
   }
+  defer client.Close()
   resumption := []string{}
   for _, topic := range topics {
     parts, err := client.Partitions(topic)
diff --git a/transports/resolver.go b/transports/resolver.go
index 0312632..8d91ea5 100644
--- a/transports/resolver.go
+++ b/transports/resolver.go
@@ -100,7 +100,10 @@ func ResolveMuxConsumer(brokerParams []BrokerParams, resumption []byte, cfg *del
   }
   for _, bp := range brokerParams {
     c, err := resolveConsumer(omp, bp.URL, bp.DefaultTopic, bp.Topics, resumption, bp.Rollback, cfg.LastEmittedNum, cfg.LastHash, cfg.TrackedPrefixes)
-    if err != nil { return nil, err }
+    if err != nil {
+      mc.Close()
+      return nil, err
+    }
     mc.consumers = append(mc.consumers, c)
   }
   return mc, nil
-- 
2.43.0


From 8f0053c47bf173acda21a62ddd1047bab8f305ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 42/58] fix: a multiplexed consumer works as long as one of its
 transports does

Transports that could not be reached kept those listed after them from ever
being started. Now all start at once, and those that take long are left to
start in the background once another has started. Readiness reached a single
receiver, once per request.
---
 transports/resolver.go | 82 +++++++++++++++++++++++++++++-------------
 1 file changed, 57 insertions(+), 25 deletions(-)

diff --git a/transports/resolver.go b/transports/resolver.go
index 8d91ea5..6b15cb2 100644
--- a/transports/resolver.go
+++ b/transports/resolver.go
@@ -7,6 +7,7 @@ import (
   "regexp"
   "time"
   "strings"
+  "sync"
   "reflect"
   "github.com/openrelayxyz/cardinal-types"
   "github.com/openrelayxyz/cardinal-streams/v2/delivery"
@@ -97,6 +98,7 @@ func ResolveMuxConsumer(brokerParams []BrokerParams, resumption []byte, cfg *del
   mc := &muxConsumer{
     omp: omp,
     consumers: []Consumer{},
+    quit: make(chan struct{}),
   }
   for _, bp := range brokerParams {
     c, err := resolveConsumer(omp, bp.URL, bp.DefaultTopic, bp.Topics, resumption, bp.Rollback, cfg.LastEmittedNum, cfg.LastHash, cfg.TrackedPrefixes)
@@ -127,6 +129,10 @@ type muxConsumer struct {
   omp       *delivery.OrderedMessageProcessor
   consumers []Consumer
   waiter    waiter.Waiter
+  ready     chan struct{}
+  readyOnce sync.Once
+  quit      chan struct{}
+  closeOnce sync.Once
 }
 
 func (mc *muxConsumer) Waiter() waiter.Waiter {
@@ -152,16 +158,38 @@ func (mc *muxConsumer) ProducerCount(d time.Duration) uint {
   return count
 }
 
+// muxStartGrace is how long a started consumer waits for the others to start.
+const muxStartGrace = 30 * time.Second
+
+// Start starts all consumers at once, so that those whose transports are not
+// available don't keep the others from starting. It returns once all of them
+// have started or failed; when one has started, consumers that take longer
+// than muxStartGrace are left to start in the background.
 func (mc *muxConsumer) Start() error {
-  var consumerErrs int
+  errs := make(chan error, len(mc.consumers))
   for _, c := range mc.consumers {
-    err := c.Start() 
-    if err != nil { 
-      consumerErrs += 1
-      log.Error("Error received from call to consumer.start()", "consumer", c)
+    go func(c Consumer) {
+      err := c.Start()
+      if err != nil {
+        log.Error("Error received from call to consumer.start()", "err", err)
+      }
+      errs <- err
+    }(c)
+  }
+  var grace <-chan time.Time
+  for range mc.consumers {
+    select {
+    case err := <-errs:
+      if err == nil && grace == nil {
+        timer := time.NewTimer(muxStartGrace)
+        defer timer.Stop()
+        grace = timer.C
+      }
+    case <-grace:
+      return nil
     }
   }
-  if consumerErrs == len(mc.consumers) {
+  if grace == nil {
     return fmt.Errorf("All consumers returned an error")
   }
   return nil
@@ -173,36 +201,40 @@ func (mc *muxConsumer) SubscribeReorg(ch chan<- map[int64]types.Hash) types.Subs
   return mc.omp.SubscribeReorg(ch)
 }
 func (mc *muxConsumer) Close() {
+  mc.closeOnce.Do(func() { close(mc.quit) })
+  var wg sync.WaitGroup
   for _, c := range mc.consumers {
-    c.Close()
+    wg.Add(1)
+    go func(c Consumer) {
+      defer wg.Done()
+      c.Close()
+    }(c)
   }
+  wg.Wait()
 }
 
+// Ready returns a channel that gets closed once any of the consumers is ready
 func (mc *muxConsumer) Ready() <-chan struct{} {
-  ch := make(chan struct{})
-  // go func() {
-  //   for _, c := range mc.consumers {
-  //     select {
-  //     case <-c.Ready():
-  //       ch <- struct{}{}
-  //       return
-  //     }
-  //   }
-  // }()
-  // return ch
-
-  go func() {
-    channels := make([]reflect.SelectCase, len(mc.consumers))
+  mc.readyOnce.Do(func() {
+    mc.ready = make(chan struct{})
+    channels := make([]reflect.SelectCase, len(mc.consumers) + 1)
     for i, c := range mc.consumers {
       channels[i] = reflect.SelectCase{
         Dir: reflect.SelectRecv,
         Chan: reflect.ValueOf(c.Ready()),
       }
     }
-    reflect.Select(channels)
-    ch <- struct{}{}
-  }()
-  return ch
+    channels[len(mc.consumers)] = reflect.SelectCase{
+      Dir: reflect.SelectRecv,
+      Chan: reflect.ValueOf(mc.quit),
+    }
+    go func() {
+      if i, _, _ := reflect.Select(channels); i < len(mc.consumers) {
+        close(mc.ready)
+      }
+    }()
+  })
+  return mc.ready
 }
 
 func (mc *muxConsumer) WhyNotReady(h types.Hash) string {
-- 
2.43.0


From 29102ca2ea6cc9b2f7d0710c980f7c7587e7ff7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:13 +0000
Subject: [PATCH 43/58] fix: a Kafka consumer closes within seconds when
 brokers do not respond, and may be closed concurrently

Closing while the brokers were unreachable took up to half an hour, and closing
it from several goroutines while it was starting crashed.
---
 transports/kafka.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 3c82c28..bf0cabc 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -482,6 +482,7 @@ func (kp *KafkaProducer) PurgeReplayCache() {
 type KafkaConsumer struct{
   omp          *delivery.OrderedMessageProcessor
   quit         chan struct{}
+  ended        chan struct{} // Closed when everything has ended after Close()
   ready        chan struct{}
   brokerURL    string
   defaultTopic string
@@ -516,6 +517,7 @@ func kafkaConsumerWithOMP(omp *delivery.OrderedMessageProcessor, brokerURL, defa
   return &KafkaConsumer{
     omp: omp,
     quit: make(chan struct{}),
+    ended: make(chan struct{}),
     ready: make(chan struct{}),
     brokerURL: brokerURL,
     defaultTopic: defaultTopic,
@@ -776,7 +778,7 @@ func (kc *KafkaConsumer) Start() (err error) {
           for ; reorgsPending > 0; reorgsPending-- { reorgWg.Done() }
           return
         }
-        if quit == nil { continue } // Closing
+        if kc.closed() { continue }
         msg := &KafkaResumptionMessage{input}
         if len(msg.Key()) == 0 {
           // Update the heartbeat gauge to 1 (received heartbeat) and reset the
@@ -791,6 +793,7 @@ func (kc *KafkaConsumer) Start() (err error) {
             rekc := &KafkaConsumer{
               omp: kc.omp,
               quit: make(chan struct{}),
+              ended: make(chan struct{}),
               ready: make(chan struct{}),
               brokerURL: kc.brokerURL,
               topics: []string{fmt.Sprintf("%s-re-%x",  kc.defaultTopic, msg.Key()[1:])},
@@ -871,16 +874,28 @@ func (kc *KafkaConsumer) Subscribe(ch interface{}) types.Subscription {
 func (kc *KafkaConsumer) SubscribeReorg(ch chan<- map[int64]types.Hash) types.Subscription {
   return kc.omp.SubscribeReorg(ch)
 }
+// closeGrace is how long Close() waits for brokers that may not respond. The
+// consumer is closed all the same; what is left of it ends in the background.
+const closeGrace = 10 * time.Second
+
 func (kc *KafkaConsumer) Close() {
-  kc.closeOnce.Do(func() { close(kc.quit) })
-  if !kc.startMu.TryLock() {
-    // Start() may be waiting for brokers that don't respond
-    if !kc.isReorg { kc.client.Close() }
-    kc.startMu.Lock()
+  kc.closeOnce.Do(func() {
+    close(kc.quit)
+    go func() {
+      defer close(kc.ended)
+      kc.startMu.Lock()
+      defer kc.startMu.Unlock()
+      kc.shutdownWg.Wait()
+      if !kc.isReorg { kc.client.Close() } // Reorgs share the client
+    }()
+  })
+  timer := time.NewTimer(closeGrace)
+  defer timer.Stop()
+  select {
+  case <-kc.ended:
+  case <-timer.C:
+    log.Warn("Kafka consumer is still waiting for brokers", "broker", kc.brokerURL)
   }
-  defer kc.startMu.Unlock()
-  kc.shutdownWg.Wait()
-  if !kc.isReorg { kc.client.Close() } // Reorgs share the client
 }
 func (kc *KafkaConsumer) WhyNotReady(hash types.Hash) string {
   return kc.omp.WhyNotReady(hash)
-- 
2.43.0


From 3c66ac8fede6900d610e7652ee210578afbf330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:13 +0000
Subject: [PATCH 44/58] fix: a consumer that cannot be created leaves no
 message processor running

---
 transports/kafka.go    | 4 +++-
 transports/resolver.go | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index bf0cabc..e41d93a 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -568,7 +568,9 @@ func kafkaResumptionForTimestamp(brokerURL string, topics []string, timestamp in
 func NewKafkaConsumer(brokerURL, defaultTopic string, topics []string, resumption []byte, rollback int64, cfg *delivery.ConsumerConfig) (Consumer, error) {
   omp, err := delivery.NewOrderedMessageProcessor(cfg)
   if err != nil { return nil, err }
-  return kafkaConsumerWithOMP(omp, brokerURL, defaultTopic, topics, resumption, rollback, cfg.LastHash)
+  c, err := kafkaConsumerWithOMP(omp, brokerURL, defaultTopic, topics, resumption, rollback, cfg.LastHash)
+  if err != nil { omp.Close() }
+  return c, err
 }
 
 // nothingToRead indicates whether a partition has no messages at or after the
diff --git a/transports/resolver.go b/transports/resolver.go
index 6b15cb2..0a7ecdc 100644
--- a/transports/resolver.go
+++ b/transports/resolver.go
@@ -53,7 +53,9 @@ func ResolveMuxProducer(brokerParams []ProducerBrokerParams, resumer StreamsResu
 func ResolveConsumer(brokerURL, defaultTopic string, topics []string, resumption []byte, rollback int64, cfg *delivery.ConsumerConfig) (Consumer, error) {
   omp, err := delivery.NewOrderedMessageProcessor(cfg)
   if err != nil { return nil, err }
-  return resolveConsumer(omp, brokerURL, defaultTopic, topics, resumption, rollback, cfg.LastEmittedNum, cfg.LastHash, cfg.TrackedPrefixes)
+  c, err := resolveConsumer(omp, brokerURL, defaultTopic, topics, resumption, rollback, cfg.LastEmittedNum, cfg.LastHash, cfg.TrackedPrefixes)
+  if err != nil { omp.Close() }
+  return c, err
 }
 
 func resolveConsumer(omp *delivery.OrderedMessageProcessor, brokerURL, defaultTopic string, topics []string, resumption []byte, rollback, lastNumber int64, lastHash types.Hash, trackedPrefixes []*regexp.Regexp) (Consumer, error) {
@@ -104,6 +106,7 @@ func ResolveMuxConsumer(brokerParams []BrokerParams, resumption []byte, cfg *del
     c, err := resolveConsumer(omp, bp.URL, bp.DefaultTopic, bp.Topics, resumption, bp.Rollback, cfg.LastEmittedNum, cfg.LastHash, cfg.TrackedPrefixes)
     if err != nil {
       mc.Close()
+      omp.Close()
       return nil, err
     }
     mc.consumers = append(mc.consumers, c)
-- 
2.43.0


From 4fa10821132e65126dbc77f042099a4c7b00437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 45/58] fix: blocks that never get connected to the chain do
 not stay in memory forever

---
 delivery/ordering.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 182578a..47c3cde 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -60,6 +60,7 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
   var err error
   omp.finished, err = lru.NewWithEvict(int(cfg.ReorgThreshold * 2), func(k, v interface{}) {
     hash := k.(types.Hash)
+    if pb, ok := omp.pending[hash]; ok { omp.evictUnfinished(pb.Number) }
     omp.evict(hash)
   })
   omp.finished.Add(cfg.LastHash, struct{}{})
@@ -152,6 +153,19 @@ func (omp *OrderedMessageProcessor) evict(hash types.Hash) {
   }
 }
 
+// evictUnfinished drops the blocks before n that never got connected to the
+// chain, because some of their ancestors never arrived.
+func (omp *OrderedMessageProcessor) evictUnfinished(n int64) {
+  for hash, pb := range omp.pending {
+    if pb.Number >= n || omp.finished.Contains(hash) { continue }
+    delete(omp.pending, hash)
+    if siblings, ok := omp.queued[pb.ParentHash]; ok {
+      delete(siblings, hash)
+      if len(siblings) == 0 { delete(omp.queued, pb.ParentHash) }
+    }
+  }
+}
+
 type ChainUpdate struct {
   added []*PendingBatch
   removed []*PendingBatch
-- 
2.43.0


From 236dab0678c786ed5ff9e2a6865a8633eab76c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:18 +0000
Subject: [PATCH 46/58] fix: looking for blocks that never get connected does
 not take quadratic time

---
 delivery/ordering.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 47c3cde..a1a6248 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -29,6 +29,7 @@ type OrderedMessageProcessor struct {
   pending        map[types.Hash]*PendingBatch
   queued         map[types.Hash]map[types.Hash]struct{}
   finished       *lru.Cache
+  evicted        int64
   quit           chan struct{}
   updateFeed     types.Feed
   reorgFeed      types.Feed
@@ -60,7 +61,11 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
   var err error
   omp.finished, err = lru.NewWithEvict(int(cfg.ReorgThreshold * 2), func(k, v interface{}) {
     hash := k.(types.Hash)
-    if pb, ok := omp.pending[hash]; ok { omp.evictUnfinished(pb.Number) }
+    if pb, ok := omp.pending[hash]; ok && (pb.Number < omp.evicted || pb.Number - omp.evicted >= omp.reorgThreshold) {
+      // No need to look at everything that is pending for every single block.
+      omp.evicted = pb.Number
+      omp.evictUnfinished(pb.Number)
+    }
     omp.evict(hash)
   })
   omp.finished.Add(cfg.LastHash, struct{}{})
-- 
2.43.0


From 17302765efde33715faad1b17a992f298ec01aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:37 +0000
Subject: [PATCH 47/58] fix: invalid messages do not crash a websocket consumer
 or reach its subscribers

---
 transports/websockets.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index e6d2972..1ea57c9 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -46,6 +46,22 @@ type resultMessage struct {
 	SubBatch *transportSubbatch `json:"subbatch,omitempty"`
 }
 
+// parse unmarshals a message, and makes sure that it is complete.
+func (m *resultMessage) parse(data []byte) error {
+	if err := json.Unmarshal(data, m); err != nil {
+		return err
+	}
+	switch {
+	case (m.Type == "batch" || m.Type == "reorg") && m.Batch == nil:
+		return fmt.Errorf("%v message without batch", m.Type)
+	case m.Type == "batch" && m.Batch.Weight == nil:
+		return fmt.Errorf("batch without weight")
+	case m.Type == "subbatch" && m.SubBatch == nil:
+		return fmt.Errorf("subbatch message without subbatch")
+	}
+	return nil
+}
+
 type TransportBatch struct {
 	Number hexutil.Uint64 `json:"number"`
 	Weight *hexutil.Big `json:"weight"`
@@ -396,7 +412,6 @@ func (c *websocketConsumer) Start() error {
 				continue
 			}
 			log.Info("Subscription established", "id", subid)
-			var notification rpc.SubscriptionResponseRaw
 			select {
 			case connected <- struct{}{}:
 			default:
@@ -414,7 +429,11 @@ func (c *websocketConsumer) Start() error {
 					// Probably a ping message
 					continue
 				}
-				json.Unmarshal(message, &notification)
+				var notification rpc.SubscriptionResponseRaw
+				if err := json.Unmarshal(message, &notification); err != nil {
+					log.Warn("Invalid message on channel", "message", string(message), "err", err)
+					continue
+				}
 				if notification.Method != "cardinal_subscribe" {
 					log.Warn("Unexpected message on channel", "message", string(message))
 					continue
@@ -424,7 +443,10 @@ func (c *websocketConsumer) Start() error {
 					continue
 				}
 				var item resultMessage
-				json.Unmarshal(notification.Params.Result, &item)
+				if err := item.parse(notification.Params.Result); err != nil {
+					log.Warn("Invalid message on subscription", "message", string(message), "err", err)
+					continue
+				}
 				switch item.Type {
 				case "ready":
 					if !isReady {
-- 
2.43.0


From 2c531c802aaa47be8c0b3f5247ed8ca09d05a3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:37 +0000
Subject: [PATCH 48/58] fix: repeated and unexpected messages do not spoil a
 block a websocket consumer is assembling

---
 transports/websockets.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/transports/websockets.go b/transports/websockets.go
index 1ea57c9..d67dd7d 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -456,6 +456,10 @@ func (c *websocketConsumer) Start() error {
 				case "reorg":
 					c.omp.ProcessReorg(int64(item.Batch.Number), item.Batch.Hash)
 				case "batch":
+					if _, ok := batches[item.Batch.Hash]; ok {
+						// We're already waiting for its subbatches
+						continue
+					}
 					pb := &delivery.PendingBatch{
 						Number: int64(item.Batch.Number),
 						Weight: item.Batch.Weight.ToInt(),
@@ -495,6 +499,10 @@ func (c *websocketConsumer) Start() error {
 						subbatches[item.SubBatch.BatchId] = item.SubBatch
 						continue
 					}
+					if _, ok := pendingSubbatches[item.SubBatch.Hash][item.SubBatch.BatchId]; !ok {
+						// A duplicate, or not part of the block
+						continue
+					}
 					for k, v := range item.SubBatch.Values {
 						pb.Values[k] = v
 					}
-- 
2.43.0


From 9966fc10cc2ed7f2faf3dc1a16f1ce5c813b2cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:31 +0000
Subject: [PATCH 49/58] fix: a consumer without a positive reorg threshold is
 refused instead of panicking

---
 delivery/ordering.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index a1a6248..a21f069 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -43,6 +43,9 @@ type OrderedMessageProcessor struct {
 
 
 func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor, error) {
+  if cfg.ReorgThreshold <= 0 {
+    return nil, fmt.Errorf("the reorg threshold must be positive, got %v", cfg.ReorgThreshold)
+  }
   if cfg.Whitelist == nil {
     cfg.Whitelist = make(map[uint64]types.Hash)
   }
-- 
2.43.0


From ed6760c9b0c462c8421bc022ef56c341d7175add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:49 +0000
Subject: [PATCH 50/58] fix: a producer does not accept sub-batches of blocks
 it has refused

---
 delivery/producer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/delivery/producer.go b/delivery/producer.go
index 270a22d..a15e6c5 100644
--- a/delivery/producer.go
+++ b/delivery/producer.go
@@ -102,6 +102,7 @@ func (p *Producer) AddBlock(number int64, hash, parentHash types.Hash, weight *b
     }
   }
   //Create batch messages
+  pendingBatches := make(map[types.Hash]*batchInfo)
   for k, h := range batches {
     if h == (types.Hash{}) {
       return nil, ErrInvalidBatch
@@ -118,12 +119,16 @@ func (p *Producer) AddBlock(number int64, hash, parentHash types.Hash, weight *b
         break
       }
     }
-    p.pendingBatches[h] = bi
+    pendingBatches[h] = bi
   }
   for k, c := range counts {
     if _, ok := b.Updates[k]; ok { return nil, ErrPrefixConflict }
     b.Updates[k] = BatchRecord{Count: c}
   }
+  // The block is valid, so we can expect its batches
+  for h, bi := range pendingBatches {
+    p.pendingBatches[h] = bi
+  }
   topicMessages[p.defaultTopic] = append(topicMessages[p.defaultTopic], &message{
       key: BatchType.GetKey(hash.Bytes()),
       value: b.EncodeAvro(),
-- 
2.43.0


From f9d30827479c8ed108dae9bb023b1cd1024a98e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:26 +0000
Subject: [PATCH 51/58] fix: incomplete blocks after a deep announced reorg are
 not dropped as old

---
 delivery/consumer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index dafd154..7679dd9 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -326,6 +326,11 @@ func (mp *MessageProcessor) processMessage(m ResumptionMessage) error {
   for {
     select {
     case n := <-mp.evictCh:
+      if max := mp.lastEmittedNum - mp.reorgThreshold; n > max {
+        // After an announced reorg blocks of the abandoned branch get evicted,
+        // which may be far ahead of the new one.
+        n = max
+      }
       for h, pb := range mp.pendingBatches {
         if pb.Number < n {
           delete(mp.pendingBatches, h)
-- 
2.43.0


From 3cb739c1c7a496d3b24e590b72acab567e43ff49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:46 +0000
Subject: [PATCH 52/58] fix: a Kafka consumer reads the topic of a reorg from
 its beginning

---
 transports/kafka.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transports/kafka.go b/transports/kafka.go
index e41d93a..cf209f0 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -800,6 +800,7 @@ func (kc *KafkaConsumer) Start() (err error) {
               brokerURL: kc.brokerURL,
               topics: []string{fmt.Sprintf("%s-re-%x",  kc.defaultTopic, msg.Key()[1:])},
               resumption: make(map[string]int64),
+              rollback: -1, // The whole reorg is needed, not just what comes next
               client: kc.client,
               isReorg: true,
               pt: kc.pt,
-- 
2.43.0


From 881a6ebdd77ee422f84c9ce6d17014234239b904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:01 +0000
Subject: [PATCH 53/58] fix: a Kafka consumer waits for an announced reorg to
 begin

---
 transports/kafka.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/transports/kafka.go b/transports/kafka.go
index cf209f0..6299710 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -670,6 +670,15 @@ func (kc *KafkaConsumer) Start() (err error) {
         pc.Close()
         return err
       }
+      if caughtUp && kc.isReorg {
+        // A reorg whose topic has never been written to is yet to begin.
+        oldest, err := kc.client.GetOffset(topic, partid, sarama.OffsetOldest)
+        if err != nil {
+          pc.Close()
+          return err
+        }
+        caughtUp = oldest > 0
+      }
       log.Info("Starting partition consumer", "topic", topic, "partition", partid, "offset", offset, "startOffset", startOffset)
       readyWg.Add(1)
       warmupWg.Add(1)
-- 
2.43.0


From f779cc914193d50805051de376097d448c576514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:09 +0000
Subject: [PATCH 54/58] fix: a consumer that starts within a reorg gets the
 block it started from again after going back

---
 delivery/ordering.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index a21f069..1e3e831 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -316,8 +316,15 @@ func (omp *OrderedMessageProcessor) ProcessReorg(num int64, hash types.Hash) {
 }
 
 func (omp *OrderedMessageProcessor) HandleReorg(num int64, hash types.Hash) {
+  omp.mu.Lock()
+  if _, ok := omp.pending[omp.lastHash]; !ok && omp.lastHash != hash {
+    // The block we started from may be part of the new branch. We have only
+    // heard of it, so it is not a repeat when it arrives.
+    omp.finished.Remove(omp.lastHash)
+  }
   omp.lastHash = hash
   // omp.lastNumber = num
+  omp.mu.Unlock()
   omp.reorgFeed.Send(map[int64]types.Hash{num: hash})
 }
 
-- 
2.43.0


From 22514514a5ad7ed72e6676a2665ed6d8ff5c4053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:09 +0000
Subject: [PATCH 55/58] fix: a Kafka consumer does not leave out a reorg
 because of a passing failure

---
 transports/kafka.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 6299710..3f6209e 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -814,8 +814,18 @@ func (kc *KafkaConsumer) Start() (err error) {
               isReorg: true,
               pt: kc.pt,
             }
-            if err := rekc.Start(); err != nil {
+            err := rekc.Start()
+            for err != nil && err != sarama.ErrUnknownTopicOrPartition && !kc.closed() {
+              // Without the reorg nothing that follows would fit.
               log.Error("Error reading reorg", "err", err, "topic", rekc.topics[0])
+              select {
+              case <-time.After(time.Second):
+                err = rekc.Start()
+              case <-kc.quit:
+              }
+            }
+            if err != nil {
+              log.Error("Could not read reorg", "err", err, "topic", rekc.topics[0])
               continue
             }
             select {
-- 
2.43.0


From d9864c7723368bfd5f984ad927a8ba6c535a518c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:13 +0000
Subject: [PATCH 56/58] fix: carry keys that a block both sets and deletes

---
 delivery/producer.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/delivery/producer.go b/delivery/producer.go
index a15e6c5..4433420 100644
--- a/delivery/producer.go
+++ b/delivery/producer.go
@@ -79,7 +79,14 @@ func (p *Producer) AddBlock(number int64, hash, parentHash types.Hash, weight *b
         break
       }
     }
-    if !matched {
+    if _, deleted := deletes[k]; !matched && deleted {
+      // A record can't do both, so the key becomes a prefix of its own.
+      counts[k]++
+      topicMessages[p.defaultTopic] = append(topicMessages[p.defaultTopic], &message{
+        key: BatchMsgType.GetKey(hash.Bytes(), []byte(k)),
+        value: v,
+      })
+    } else if !matched {
       b.Updates[k] = BatchRecord{Value: v}
     }
   }
@@ -97,7 +104,12 @@ func (p *Producer) AddBlock(number int64, hash, parentHash types.Hash, weight *b
         break
       }
     }
-    if !matched {
+    if _, updated := updates[k]; !matched && updated {
+      counts[k]++
+      topicMessages[p.defaultTopic] = append(topicMessages[p.defaultTopic], &message{
+        key: BatchDeleteMsgType.GetKey(hash.Bytes(), []byte(k)),
+      })
+    } else if !matched {
       b.Updates[k] = BatchRecord{Delete: true}
     }
   }
-- 
2.43.0


From 31ba3a2b97f775332f23d454fec39341b2187cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:28 +0000
Subject: [PATCH 57/58] fix: a processor closed while a subscriber holds it up
 still ends

---
 delivery/ordering.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 1e3e831..7dd95e6 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -31,6 +31,8 @@ type OrderedMessageProcessor struct {
   finished       *lru.Cache
   evicted        int64
   quit           chan struct{}
+  closing        sync.Once
+  ended          chan struct{} // Closed when nothing of the processor is running anymore
   updateFeed     types.Feed
   reorgFeed      types.Feed
   whitelist      map[uint64]types.Hash
@@ -57,6 +59,7 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
     pending: make(map[types.Hash]*PendingBatch),
     queued: make(map[types.Hash]map[types.Hash]struct{}),
     quit: make(chan struct{}),
+    ended: make(chan struct{}),
     whitelist: cfg.Whitelist,
     blacklist: make(map[types.Hash]struct{}),
     initEmpty: cfg.LastHash == (types.Hash{}),
@@ -115,6 +118,7 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
     }
   }
   go func() {
+    defer close(omp.ended)
     for {
       select {
       case event := <-events:
@@ -454,8 +458,9 @@ func (omp *OrderedMessageProcessor) ProcessMessage(m ResumptionMessage) error {
 }
 
 func (omp *OrderedMessageProcessor) Close() {
+  omp.closing.Do(func() { close(omp.quit) })
   select {
-  case omp.quit <- struct{}{}:
+  case <-omp.ended:
   case <-time.After(time.Second):
     log.Warn("Closing message processor not complete after 1 second")
   }
-- 
2.43.0


From 9a66341e99bf8456959770de2a6f715f8a1648fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:55 +0000
Subject: [PATCH 58/58] fix: refuse Kafka broker URLs that cannot be parsed

---
 transports/kafka.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 3f6209e..3f8e95f 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -77,8 +77,14 @@ func (m *KafkaResumptionMessage) Time() time.Time {
 }
 
 func ParseKafkaURL(brokerURL string) ([]string, *sarama.Config) {
-  parsedURL, _ := url.Parse("kafka://" + strings.TrimPrefix(brokerURL, "kafka://"))
   config := sarama.NewConfig()
+  parsedURL, err := url.Parse("kafka://" + strings.TrimPrefix(brokerURL, "kafka://"))
+  if err != nil {
+    // Without brokers, no client can be created. The error would show the
+    // password.
+    log.Error("Kafka broker URL could not be parsed")
+    return nil, config
+  }
   config.Version = sarama.V2_5_0_0
 
   if parsedURL.Query().Get("tls") == "1" {
-- 
2.43.0

