From 247b5c5759da09bc74e3008bdba35d91ae718cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 01/34] fix: in-memory cache mixed seconds and milliseconds in
 acknowledge deadlines

The deadline was computed as Unix seconds plus ack_deadline_ms, so the default
of 5 minutes became 300000 seconds.
---
 internal/queue/cache/memory_cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index f9d0135..5bd3581 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -279,7 +279,7 @@ func (cache *MemoryCache) PullMessages(ctx context.Context, queue string, n int6
 
 		processingEntry := &MemoryMessageEntry{
 			id:    entry.id,
-			score: float64(dtime.Now().Unix() + ackDeadlineMs),
+			score: float64(dtime.NowMs() + ackDeadlineMs),
 		}
 
 		cache.processingQueues[queue], _ = insertEntry(processingEntry, cache.processingQueues[queue])
@@ -302,7 +302,7 @@ func (cache *MemoryCache) TimeoutMessages(_ context.Context, queue string) (ids
 		return nil, nil
 	}
 
-	timeoutTime := dtime.Now().Unix()
+	timeoutTime := dtime.NowMs()
 
 	count := int64(0)
 
-- 
2.43.0


From 1ef22511bcd37ccb1dcb15f349c21062fed226e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 02/34] fix: in-memory unlock stopped at the first message and
 unlocked other queues

Removing a list element clears its next pointer, so only one message was unlocked
per queue and call, and the queue argument was ignored.
---
 internal/queue/cache/memory_cache.go | 32 +++++++++++++++-------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index 5bd3581..56af275 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -220,27 +220,29 @@ func (cache *MemoryCache) UnlockMessages(ctx context.Context, queue string, lock
 	nowMs := dtime.NowMs()
 
 	unlockedMessages := make([]string, 0)
-	for queue := range data {
-		list := data[queue]
 
-		if list == nil {
-			continue
-		}
-
-		for e := list.Front(); e != nil; e = e.Next() {
-			value := e.Value.(*MemoryMessageEntry)
+	lockedMessages := data[queue]
+	if lockedMessages == nil {
+		return unlockedMessages, nil
+	}
 
-			if nowMs >= int64(value.lockUntil) {
-				list.Remove(e)
+	var next *list.Element
+	for e := lockedMessages.Front(); e != nil; e = next {
+		// Removing an element from the list clears its next pointer
+		next = e.Next()
 
-				if score.IsUndefined(value.score) {
-					value.score = defaultScore
-				}
+		value := e.Value.(*MemoryMessageEntry)
 
-				cache.queues[queue], _ = insertEntry(value, cache.queues[queue])
+		if nowMs >= int64(value.lockUntil) {
+			lockedMessages.Remove(e)
 
-				unlockedMessages = append(unlockedMessages, value.id)
+			if score.IsUndefined(value.score) {
+				value.score = defaultScore
 			}
+
+			cache.queues[queue], _ = insertEntry(value, cache.queues[queue])
+
+			unlockedMessages = append(unlockedMessages, value.id)
 		}
 	}
 
-- 
2.43.0


From b4a42fba763dc131f3e722a5f706704c700832c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 03/34] fix: in-memory timeout returned only one message per
 sweep

Removing a list element clears its next pointer, which ended the loop.
---
 internal/queue/cache/memory_cache.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index 56af275..d611d57 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -309,7 +309,12 @@ func (cache *MemoryCache) TimeoutMessages(_ context.Context, queue string) (ids
 	count := int64(0)
 
 	result := make([]string, 0)
-	for e := cache.processingQueues[queue].Front(); e != nil; e = e.Next() {
+
+	var next *list.Element
+	for e := cache.processingQueues[queue].Front(); e != nil; e = next {
+		// Removing an element from the list clears its next pointer
+		next = e.Next()
+
 		value := e.Value.(*MemoryMessageEntry)
 
 		if value.score <= float64(timeoutTime) {
-- 
2.43.0


From e4e2c5152de63f386241ed275b3141905a190835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 04/34] fix: in-memory pull with a score filter missed matching
 messages

Messages rejected by the filter counted against the requested amount, so matching
messages behind them were not returned. It also reinserted the rejected ones,
reversing the order of messages with equal scores.
---
 internal/queue/cache/memory_cache.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index d611d57..26294f9 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -265,20 +265,19 @@ func (cache *MemoryCache) PullMessages(ctx context.Context, queue string, n int6
 
 	result := make([]string, 0, utils.MinInt64(n, total))
 
-	filteredOut := make([]*MemoryMessageEntry, 0)
-	for i := int64(0); i < n && i < total && cache.queues[queue].Len() != 0; i++ {
-		element := cache.queues[queue].Front()
+	var next *list.Element
+	for element := cache.queues[queue].Front(); element != nil && int64(len(result)) < n; element = next {
+		// Removing an element from the list clears its next pointer
+		next = element.Next()
 
 		entry := element.Value.(*MemoryMessageEntry)
 
-		cache.queues[queue], _ = removeEntry(entry, cache.queues[queue])
-
 		if minScore != nil && entry.score < *minScore || maxScore != nil && entry.score > *maxScore {
-			filteredOut = append(filteredOut, entry)
-
 			continue
 		}
 
+		cache.queues[queue].Remove(element)
+
 		processingEntry := &MemoryMessageEntry{
 			id:    entry.id,
 			score: float64(dtime.NowMs() + ackDeadlineMs),
@@ -289,10 +288,6 @@ func (cache *MemoryCache) PullMessages(ctx context.Context, queue string, n int6
 		result = append(result, entry.id)
 	}
 
-	for _, entry := range filteredOut {
-		cache.queues[queue], _ = insertEntry(entry, cache.queues[queue])
-	}
-
 	return result, nil
 }
 
-- 
2.43.0


From 3d98230f7f28f192bb69608554180652f3071ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 05/34] fix: scores requested in ack and nack were not capped

Negative scores were stored as they are (-1 even meaning undefined) instead of being
converted to 0, scores above the maximum were accepted, NaN broke the ordering of the
queue, and a negative lock_ms without a score left the undefined score -1 in the queue.
---
 internal/queue/score/score.go       | 13 ++++++++++---
 internal/service/deckard_service.go | 16 +++++-----------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/internal/queue/score/score.go b/internal/queue/score/score.go
index 18f1242..eb40b6f 100644
--- a/internal/queue/score/score.go
+++ b/internal/queue/score/score.go
@@ -68,15 +68,22 @@ func GetAddScore(addRequestScore float64) float64 {
 		return GetScoreByDefaultAlgorithm()
 	}
 
-	if addRequestScore < Min {
+	return Cap(addRequestScore)
+}
+
+// Cap limits a requested score to the scores accepted by Deckard.
+//
+// Scores lower than Min (and NaN, which has no order) result in Min and scores greater than Max result in Max.
+func Cap(score float64) float64 {
+	if !(score > Min) {
 		return Min
 	}
 
-	if addRequestScore > Max {
+	if score > Max {
 		return Max
 	}
 
-	return addRequestScore
+	return score
 }
 
 // GetScoreByDefaultAlgorithm returns the score using the default algorithm.
diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index 2b150dd..674d505 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -565,16 +565,10 @@ func (d *Deckard) Ack(ctx context.Context, request *deckard.AckRequest) (*deckar
 	// On unlock process the score is computed by the default algorithm if the score is not set
 	newScore := score.Undefined
 	if request.Score != 0 {
-		newScore = request.Score
+		newScore = score.Cap(request.Score)
 
-	} else if request.LockMs == 0 {
-		newScore = score.GetScoreByDefaultAlgorithm() - request.ScoreSubtract
-
-		if newScore < score.Min {
-			newScore = score.Min
-		} else if newScore > score.Max {
-			newScore = score.Max
-		}
+	} else if request.LockMs <= 0 {
+		newScore = score.Cap(score.GetScoreByDefaultAlgorithm() - request.ScoreSubtract)
 	}
 
 	now := dtime.Now()
@@ -614,9 +608,9 @@ func (d *Deckard) Nack(ctx context.Context, request *deckard.AckRequest) (*decka
 	// On unlock process the minimum score will be used if the score is not set
 	newScore := score.Undefined
 	if request.Score != 0 {
-		newScore = request.Score
+		newScore = score.Cap(request.Score)
 
-	} else if request.LockMs == 0 {
+	} else if request.LockMs <= 0 {
 		newScore = score.Min
 	}
 
-- 
2.43.0


From 3e4a5e3ddf471c89ef3596aada9597ee28fdd45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 06/34] fix: nack without lock ignored the requested score

---
 internal/queue/queue.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/queue/queue.go b/internal/queue/queue.go
index 9e54731..46be8cf 100644
--- a/internal/queue/queue.go
+++ b/internal/queue/queue.go
@@ -205,7 +205,9 @@ func (pool *Queue) Nack(ctx context.Context, msg *message.Message, timestamp tim
 		return result, nil
 	}
 
-	msg.Score = score.Min
+	if score.IsUndefined(msg.Score) {
+		msg.Score = score.Min
+	}
 
 	result, err := pool.cache.MakeAvailable(ctx, msg)
 
-- 
2.43.0


From e2242ef03019c6cab829a0eae76d8c843187c94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 07/34] fix: large ttl_minutes overflowed and expired messages
 at once

---
 internal/service/deckard_service.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index 674d505..63a04bc 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -6,6 +6,7 @@ import (
 	"crypto/x509"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"net"
 	"strings"
 	"time"
@@ -322,7 +323,7 @@ func (d *Deckard) Add(ctx context.Context, request *deckard.AddRequest) (*deckar
 		t := dtime.Now()
 
 		if m.TtlMinutes != 0 {
-			t = t.Add(time.Minute * time.Duration(m.TtlMinutes))
+			t = t.Add(ttlDuration(m.TtlMinutes))
 		}
 
 		if m.Timeless {
@@ -383,6 +384,19 @@ func (d *Deckard) Add(ctx context.Context, request *deckard.AddRequest) (*deckar
 	}, nil
 }
 
+// ttlDuration converts a ttl to a duration, limiting it to the longest one that can be represented (about 292 years).
+func ttlDuration(ttlMinutes int64) time.Duration {
+	const maxMinutes = math.MaxInt64 / int64(time.Minute)
+
+	if ttlMinutes > maxMinutes {
+		ttlMinutes = maxMinutes
+	} else if ttlMinutes < -maxMinutes {
+		ttlMinutes = -maxMinutes
+	}
+
+	return time.Minute * time.Duration(ttlMinutes)
+}
+
 func (d *Deckard) Pull(ctx context.Context, request *deckard.PullRequest) (*deckard.PullResponse, error) {
 	amount := int64(request.Amount)
 
-- 
2.43.0


From de470fff88fa135e548b6c06b15b8cbf75d2afac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 08/34] fix: in-memory storage mixed up messages of different
 queues

The document key was queue + ':' + id, which is the same for (a:b, c) and (a, b:c).
---
 internal/queue/storage/memory_storage.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index d2b021e..5c67374 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -18,7 +18,7 @@ import (
 // MemoryStorage is an implementation of the Storage Interface using memory.
 // Currently only insert and pull functions are implemented.
 type MemoryStorage struct {
-	docs            map[string]*message.Message
+	docs            map[docKey]*message.Message
 	configurations  map[string]*configuration.QueueConfiguration
 	lock            *sync.RWMutex
 	internalCounter int64
@@ -28,7 +28,7 @@ var _ Storage = &MemoryStorage{}
 
 func NewMemoryStorage(ctx context.Context) *MemoryStorage {
 	storage := &MemoryStorage{
-		docs:           make(map[string]*message.Message),
+		docs:           make(map[docKey]*message.Message),
 		configurations: make(map[string]*configuration.QueueConfiguration),
 
 		lock:            &sync.RWMutex{},
@@ -74,7 +74,7 @@ func (storage *MemoryStorage) Flush(_ context.Context) (deletedCount int64, err
 	count := int64(len(storage.docs))
 	count += int64(len(storage.configurations))
 
-	storage.docs = make(map[string]*message.Message)
+	storage.docs = make(map[docKey]*message.Message)
 	storage.configurations = make(map[string]*configuration.QueueConfiguration)
 
 	storage.lock.Unlock()
@@ -134,8 +134,14 @@ func (storage *MemoryStorage) GetStringInternalId(_ context.Context, message *me
 	return strconv.FormatInt(message.InternalId.(int64), 10)
 }
 
-func getKey(message *message.Message) string {
-	return message.Queue + ":" + message.ID
+// docKey identifies a message: ids are unique only inside of a queue.
+type docKey struct {
+	queue string
+	id    string
+}
+
+func getKey(message *message.Message) docKey {
+	return docKey{queue: message.Queue, id: message.ID}
 }
 
 func (storage *MemoryStorage) Count(_ context.Context, findOpts *FindOptions, _ *CountOptions) (int64, error) {
-- 
2.43.0


From 316751a0c52a90ed823130ad438427654ddbf537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 09/34] fix: rejected add left part of its messages in the
 in-memory storage

Messages before the invalid one were stored but never made available.
---
 internal/queue/storage/memory_storage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 5c67374..b1b067c 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -86,6 +86,7 @@ func (storage *MemoryStorage) Insert(_ context.Context, messages ...*message.Mes
 	inserted := int64(0)
 	modified := int64(0)
 
+	// Nothing should be stored if any message is invalid
 	for i := range messages {
 		if messages[i].Queue == "" {
 			return 0, 0, fmt.Errorf("message has a invalid queue")
@@ -94,7 +95,9 @@ func (storage *MemoryStorage) Insert(_ context.Context, messages ...*message.Mes
 		if messages[i].ID == "" {
 			return 0, 0, fmt.Errorf("message has a invalid ID")
 		}
+	}
 
+	for i := range messages {
 		key := getKey(messages[i])
 
 		storage.lock.RLock()
-- 
2.43.0


From 4afe21b09a92a9d97f120b2ab65190276af399d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 10/34] fix: data races in the in-memory storage

Queue configurations were used without lock (a concurrent map access crashes the
process), inserts and acks looked up the document and changed it under different
locks, messages and diagnostics were shared with the callers, and an invalid
breakpoint left the storage locked.
---
 internal/queue/storage/memory_storage.go | 63 ++++++++++++++++++------
 1 file changed, 47 insertions(+), 16 deletions(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index b1b067c..e88eb9a 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -39,6 +39,9 @@ func NewMemoryStorage(ctx context.Context) *MemoryStorage {
 }
 
 func (storage *MemoryStorage) ListQueueConfigurations(ctx context.Context) ([]*configuration.QueueConfiguration, error) {
+	storage.lock.RLock()
+	defer storage.lock.RUnlock()
+
 	configurations := make([]*configuration.QueueConfiguration, len(storage.configurations))
 
 	configurationIndex := 0
@@ -60,12 +63,18 @@ func (storage *MemoryStorage) EditQueueConfiguration(_ context.Context, configur
 		configuration.MaxElements = 0
 	}
 
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
+
 	storage.configurations[configuration.Queue] = configuration
 
 	return nil
 }
 
 func (storage *MemoryStorage) GetQueueConfiguration(_ context.Context, queue string) (*configuration.QueueConfiguration, error) {
+	storage.lock.RLock()
+	defer storage.lock.RUnlock()
+
 	return storage.configurations[queue], nil
 }
 
@@ -100,11 +109,8 @@ func (storage *MemoryStorage) Insert(_ context.Context, messages ...*message.Mes
 	for i := range messages {
 		key := getKey(messages[i])
 
-		storage.lock.RLock()
-		_, present := storage.docs[key]
-		storage.lock.RUnlock()
-
 		storage.lock.Lock()
+		_, present := storage.docs[key]
 		if present {
 			modified++
 
@@ -120,7 +126,10 @@ func (storage *MemoryStorage) Insert(_ context.Context, messages ...*message.Mes
 			messages[i].InternalId = storage.internalCounter
 			now := dtime.Now()
 			messages[i].LastUsage = &now
-			storage.docs[key] = messages[i]
+
+			// The caller keeps using its message, so it can't be shared
+			doc := *messages[i]
+			storage.docs[key] = &doc
 		}
 
 		storage.lock.Unlock()
@@ -151,6 +160,8 @@ func (storage *MemoryStorage) Count(_ context.Context, findOpts *FindOptions, _
 	count := int64(0)
 
 	storage.lock.RLock()
+	defer storage.lock.RUnlock()
+
 	for _, value := range storage.docs {
 		matches, err := messageMatchesFilter(value, findOpts)
 
@@ -162,7 +173,6 @@ func (storage *MemoryStorage) Count(_ context.Context, findOpts *FindOptions, _
 			count++
 		}
 	}
-	storage.lock.RUnlock()
 
 	return count, nil
 }
@@ -255,7 +265,7 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 		}
 
 		if matches {
-			messages = append(messages, *storage.docs[k])
+			messages = append(messages, copyMessage(storage.docs[k]))
 		}
 	}
 
@@ -299,6 +309,30 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 	return messages, nil
 }
 
+// copyMessage also copies the diagnostics, since they are changed in place.
+func copyMessage(doc *message.Message) message.Message {
+	result := *doc
+
+	if doc.Diagnostics != nil {
+		result.Diagnostics = &message.MessageDiagnostics{
+			Acks:             copyInt64(doc.Diagnostics.Acks),
+			Nacks:            copyInt64(doc.Diagnostics.Nacks),
+			ConsecutiveAcks:  copyInt64(doc.Diagnostics.ConsecutiveAcks),
+			ConsecutiveNacks: copyInt64(doc.Diagnostics.ConsecutiveNacks),
+		}
+	}
+
+	return result
+}
+
+func copyInt64(value *int64) *int64 {
+	if value == nil {
+		return nil
+	}
+
+	return utils.Int64Ptr(*value)
+}
+
 func isExpired(message *message.Message) bool {
 	return !message.Timeless && (message.ExpiryDate.Before(dtime.Now()) || message.ExpiryDate.Equal(dtime.Now()))
 }
@@ -326,15 +360,15 @@ func (storage *MemoryStorage) Remove(_ context.Context, queue string, ids ...str
 }
 
 func (storage *MemoryStorage) Ack(_ context.Context, msg *message.Message) (modifiedCount int64, err error) {
-	storage.lock.RLock()
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
+
 	value, contains := storage.docs[getKey(msg)]
-	storage.lock.RUnlock()
 
 	if !contains {
 		return 0, nil
 	}
 
-	storage.lock.Lock()
 	value.TotalScoreSubtract += msg.LastScoreSubtract
 	value.UsageCount += 1
 	value.LastUsage = msg.LastUsage
@@ -349,21 +383,19 @@ func (storage *MemoryStorage) Ack(_ context.Context, msg *message.Message) (modi
 	*value.Diagnostics.ConsecutiveAcks = *value.Diagnostics.ConsecutiveAcks + 1
 	*value.Diagnostics.ConsecutiveNacks = 0
 
-	storage.lock.Unlock()
-
 	return 1, nil
 }
 
 func (storage *MemoryStorage) Nack(_ context.Context, msg *message.Message) (modifiedCount int64, err error) {
-	storage.lock.RLock()
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
+
 	value, contains := storage.docs[getKey(msg)]
-	storage.lock.RUnlock()
 
 	if !contains {
 		return 0, nil
 	}
 
-	storage.lock.Lock()
 	value.Score = msg.Score
 	value.LockMs = msg.LockMs
 
@@ -372,7 +404,6 @@ func (storage *MemoryStorage) Nack(_ context.Context, msg *message.Message) (mod
 	*value.Diagnostics.Nacks = *value.Diagnostics.Nacks + 1
 	*value.Diagnostics.ConsecutiveNacks = *value.Diagnostics.ConsecutiveNacks + 1
 	*value.Diagnostics.ConsecutiveAcks = 0
-	storage.lock.Unlock()
 
 	return 1, nil
 }
-- 
2.43.0


From 8f711c7013317d17c5aa13862a1d9771d76806c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 11/34] fix: in-memory storage counted repeated ids of a remove
 more than once

---
 internal/queue/storage/memory_storage.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index e88eb9a..a88d070 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -341,17 +341,13 @@ func (storage *MemoryStorage) Remove(_ context.Context, queue string, ids ...str
 	count := int64(0)
 
 	storage.lock.Lock()
-	for key, message := range storage.docs {
-		if message.Queue != queue {
-			continue
-		}
+	for _, id := range ids {
+		key := docKey{queue: queue, id: id}
 
-		for _, id := range ids {
-			if message.ID == id {
-				delete(storage.docs, key)
+		if _, present := storage.docs[key]; present {
+			delete(storage.docs, key)
 
-				count++
-			}
+			count++
 		}
 	}
 	storage.lock.Unlock()
-- 
2.43.0


From e160a736049699d2767011cd46e03cb674e03fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 12/34] fix: in-memory storage returned messages with equal
 sort keys in random order

The order comes from a map iteration, so max_elements evicted any of the messages
expiring at the same time instead of the oldest ones.
---
 internal/queue/storage/memory_storage.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index a88d070..e7557cf 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -7,7 +7,6 @@ import (
 	"sort"
 	"strconv"
 	"sync"
-	"time"
 
 	"github.com/takenet/deckard/internal/dtime"
 	"github.com/takenet/deckard/internal/queue/configuration"
@@ -276,7 +275,7 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 
 				switch key {
 				case "expiry_date":
-					if (messages[i].ExpiryDate != time.Time{} || messages[j].ExpiryDate != time.Time{}) {
+					if !messages[i].ExpiryDate.Equal(messages[j].ExpiryDate) {
 						if value == -1 {
 							return messages[i].ExpiryDate.After(messages[j].ExpiryDate)
 						}
@@ -284,6 +283,10 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 						return messages[i].ExpiryDate.Before(messages[j].ExpiryDate)
 					}
 				case "score":
+					if messages[i].Score == messages[j].Score {
+						continue
+					}
+
 					if value == -1 {
 						return messages[i].Score > messages[j].Score
 					}
-- 
2.43.0


From bfbfa3e6f37d81047d6318f738d5a2a941a4cc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 13/34] fix: in-memory storage ignored sorting by last usage

The oldest element metric reported the first inserted message instead of the one not
used for the longest time.
---
 internal/queue/storage/memory_storage.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index e7557cf..fe8817e 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -7,6 +7,7 @@ import (
 	"sort"
 	"strconv"
 	"sync"
+	"time"
 
 	"github.com/takenet/deckard/internal/dtime"
 	"github.com/takenet/deckard/internal/queue/configuration"
@@ -292,6 +293,18 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 					}
 
 					return messages[i].Score < messages[j].Score
+				case "last_usage":
+					first, second := lastUsage(&messages[i]), lastUsage(&messages[j])
+
+					if first.Equal(second) {
+						continue
+					}
+
+					if value == -1 {
+						return first.After(second)
+					}
+
+					return first.Before(second)
 				case "_id":
 					if value == -1 {
 						return messages[i].InternalId.(int64) > messages[j].InternalId.(int64)
@@ -336,6 +349,15 @@ func copyInt64(value *int64) *int64 {
 	return utils.Int64Ptr(*value)
 }
 
+// lastUsage returns the zero time, which is before any other, if the message was never used.
+func lastUsage(message *message.Message) time.Time {
+	if message.LastUsage == nil {
+		return time.Time{}
+	}
+
+	return *message.LastUsage
+}
+
 func isExpired(message *message.Message) bool {
 	return !message.Timeless && (message.ExpiryDate.Before(dtime.Now()) || message.ExpiryDate.Equal(dtime.Now()))
 }
-- 
2.43.0


From c7c927f6975dd988afe6c2ddd585854e6b765a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 14/34] fix: max_elements evicted valid messages instead of
 expired ones in memory

Expired messages were counted as excess, but hidden from the search for messages to
evict. They are still hidden when messages are looked up by id.
---
 internal/queue/storage/memory_storage.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index fe8817e..479f4f0 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -254,7 +254,8 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 	defer storage.lock.RUnlock()
 
 	for k := range storage.docs {
-		if (opt == nil || opt.InternalFilter == nil || opt.InternalFilter.ExpiryDate == nil) && isExpired(storage.docs[k]) {
+		// Expired messages are not available for use, but still count as stored until they are removed
+		if opt != nil && opt.InternalFilter != nil && opt.InternalFilter.Ids != nil && isExpired(storage.docs[k]) {
 			continue
 		}
 
-- 
2.43.0


From e08d70e04d4c29fb80dd031234e7b6a2a420ad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 15/34] fix: redis counted locked messages with a score twice
 when removed

---
 internal/queue/cache/redis_cache_scripts.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/queue/cache/redis_cache_scripts.go b/internal/queue/cache/redis_cache_scripts.go
index 6ddf55a..e07f229 100644
--- a/internal/queue/cache/redis_cache_scripts.go
+++ b/internal/queue/cache/redis_cache_scripts.go
@@ -2,14 +2,20 @@ package cache
 
 // Removes all elements from different sorted sets
 //
-// KEYS[1-n] -> sorted sets to remove elements
+// KEYS[1-4] -> sorted sets with the elements of each pool. An element is always in a single pool.
+//
+// KEYS[5-n] -> sorted sets with additional data of the elements, which are not counted as removed elements
 //
 // ARGV[1/n] -> elements to remove from all sorted sets
 const removeElementScript = `
 local total = 0
 
-for _, pool in ipairs(KEYS) do
-	total = total + redis.call('ZREM', pool, unpack(ARGV))
+for i, pool in ipairs(KEYS) do
+	local removed = redis.call('ZREM', pool, unpack(ARGV))
+
+	if i <= 4 then
+		total = total + removed
+	end
 end
 
 return total
-- 
2.43.0


From 9e003f2233d61ef9f37e4830827dc989efcf642b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 16/34] fix: glob characters in cache.prefix matched keys of
 other namespaces

With a prefix like 'a*' a flush deleted keys of any prefix starting with 'a', and
queue listing did not find or mixed up queues.
---
 internal/queue/cache/redis_cache.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/queue/cache/redis_cache.go b/internal/queue/cache/redis_cache.go
index ab6e66a..736a60e 100644
--- a/internal/queue/cache/redis_cache.go
+++ b/internal/queue/cache/redis_cache.go
@@ -281,7 +281,7 @@ func (cache *RedisCache) Flush(ctx context.Context) {
 		metrics.CacheLatency.Record(ctx, dtime.ElapsedTime(now), metric.WithAttributes(attribute.String("op", "flush")))
 	}()
 
-	pattern := cache.fullPrefix() + ":*"
+	pattern := escapeGlob(cache.fullPrefix()) + ":*"
 
 	// Delete only this Deckard instance namespace. Never call FLUSHDB, since users may share
 	// the same Redis with other applications (or another Deckard with a different prefix).
@@ -378,6 +378,9 @@ func (cache *RedisCache) ListQueues(ctx context.Context, pattern string, poolTyp
 		searchPattern = cache.lockPool(pattern, LOCK_NACK)
 	}
 
+	// Only the queue name is a pattern
+	searchPattern = escapeGlob(cache.poolPrefix()) + strings.TrimPrefix(searchPattern, cache.poolPrefix())
+
 	// Use SCAN instead of KEYS to avoid blocking Redis.
 	//
 	// SCAN is a "keyless" command, so in cluster mode go-redis cannot route it by hash slot: it
@@ -509,6 +512,13 @@ func deleteByPattern(ctx context.Context, client redis.Cmdable, pattern string)
 	return nil
 }
 
+var globEscaper = strings.NewReplacer(`\`, `\\`, "*", `\*`, "?", `\?`, "[", `\[`, "]", `\]`)
+
+// escapeGlob escapes the characters with a special meaning in the patterns of Redis.
+func escapeGlob(value string) string {
+	return globEscaper.Replace(value)
+}
+
 func uniqStrings(values []string) []string {
 	seen := make(map[string]struct{}, len(values))
 	result := make([]string, 0, len(values))
-- 
2.43.0


From 0e4a8d387e388fba1b6dd02244fcfbf758eb7b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 17/34] fix: redis listing hid queues with names ending like
 internal key suffixes

---
 internal/queue/cache/redis_cache.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/queue/cache/redis_cache.go b/internal/queue/cache/redis_cache.go
index 736a60e..fb0f42f 100644
--- a/internal/queue/cache/redis_cache.go
+++ b/internal/queue/cache/redis_cache.go
@@ -434,12 +434,13 @@ func (cache *RedisCache) ListQueues(ctx context.Context, pattern string, poolTyp
 		regex = LOCK_NACK_POOL_REGEX
 	}
 
-	for i, queue := range data {
-		data[i] = cache.parseQueueKey(queue, regex)
+	if pool.PRIMARY_POOL == poolType {
+		// Should be done before removing the hash tag, since a queue name can also end with these suffixes
+		data = filterQueueSuffix(data)
 	}
 
-	if pool.PRIMARY_POOL == poolType {
-		return filterQueueSuffix(uniqStrings(data)), nil
+	for i, queue := range data {
+		data[i] = cache.parseQueueKey(queue, regex)
 	}
 
 	return uniqStrings(data), nil
-- 
2.43.0


From 46d73bfca4402c87e7162b8d73279ad261236f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 18/34] fix: messages of queues rejected by redis were stored

An add to a queue with braces in its name failed after storing its messages. They were
never delivered, and the recovery task could not get past them after losing the cache.
---
 internal/queue/cache/redis_cache.go |  5 +++++
 internal/queue/queue.go             | 14 ++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/internal/queue/cache/redis_cache.go b/internal/queue/cache/redis_cache.go
index fb0f42f..9186e3b 100644
--- a/internal/queue/cache/redis_cache.go
+++ b/internal/queue/cache/redis_cache.go
@@ -904,6 +904,11 @@ func (cache *RedisCache) generalCacheKey(key string) string {
 	return fmt.Sprint(cache.fullPrefix(), ":{", key, "}")
 }
 
+// ValidateQueueName returns an error if the queue name is not supported by the cache.
+func (cache *RedisCache) ValidateQueueName(queue string) error {
+	return cache.validateQueueName(queue)
+}
+
 func (cache *RedisCache) validateQueueName(queue string) error {
 	// Braces are reserved even in standalone mode so existing queues remain
 	// migratable to Redis Cluster without ambiguous hash-tag parsing.
diff --git a/internal/queue/queue.go b/internal/queue/queue.go
index 46be8cf..7d8ea4e 100644
--- a/internal/queue/queue.go
+++ b/internal/queue/queue.go
@@ -37,6 +37,11 @@ type DeckardQueue interface {
 	Flush(ctx context.Context) (bool, error)
 }
 
+// queueNameValidator is implemented by caches that do not accept all queue names.
+type queueNameValidator interface {
+	ValidateQueueName(queue string) error
+}
+
 type Queue struct {
 	storage                   storage.Storage
 	cache                     cache.Cache
@@ -104,6 +109,15 @@ func (pool *Queue) AddMessagesToStorage(ctx context.Context, messages ...*messag
 		}
 
 		queues[queueName] = true
+
+		// A stored message that the cache never accepts can't be delivered and blocks the recovery of the cache
+		if validator, ok := pool.cache.(queueNameValidator); ok {
+			if err := validator.ValidateQueueName(queueName); err != nil {
+				logger.S(ctx).Errorf("Invalid queue name %s: %v", queueName, err)
+
+				return 0, 0, err
+			}
+		}
 	}
 
 	insertions, updates, err := pool.storage.Insert(ctx, messages...)
-- 
2.43.0


From a4467de5875465f8cd0428cfbd2a27bac2362ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 19/34] fix: failing to unset the recovery mark disabled ttl
 and max_elements forever

---
 internal/queue/queue_housekeeper.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/internal/queue/queue_housekeeper.go b/internal/queue/queue_housekeeper.go
index ca83a1c..10a0ccc 100644
--- a/internal/queue/queue_housekeeper.go
+++ b/internal/queue/queue_housekeeper.go
@@ -225,8 +225,7 @@ func RecoveryMessagesPool(ctx context.Context, pool *Queue) (metrify bool) {
 	if len(messages) < 4000 {
 		logger.S(ctx).Info("Full recovery finished.")
 
-		_ = pool.cache.Set(ctx, cache.RECOVERY_RUNNING, "false")
-		_ = pool.cache.Set(ctx, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, cache.RECOVERY_FINISHED)
+		finishRecovery(ctx, pool)
 	}
 
 	logger.S(ctx).Debugf("%d messages updated in %s with %s breakpoint.", len(messages), time.Since(t), breakpoint)
@@ -234,6 +233,20 @@ func RecoveryMessagesPool(ctx context.Context, pool *Queue) (metrify bool) {
 	return true
 }
 
+// finishRecovery marks the recovery as finished only if it is not marked as running anymore.
+// Otherwise the running mark would never be removed, blocking the removal of messages forever.
+func finishRecovery(ctx context.Context, pool *Queue) {
+	err := pool.cache.Set(ctx, cache.RECOVERY_RUNNING, "false")
+
+	if err != nil {
+		logger.S(ctx).Error("Error to set full recovery status: ", err)
+
+		return
+	}
+
+	_ = pool.cache.Set(ctx, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, cache.RECOVERY_FINISHED)
+}
+
 func tryToStartRecovery(ctx context.Context, pool *Queue) bool {
 	logger.S(ctx).Info("Starting full cache recovery.")
 
@@ -265,8 +278,7 @@ func tryToStartRecovery(ctx context.Context, pool *Queue) bool {
 	if len(messages) == 0 {
 		logger.S(ctx).Info("Storage is empty. Finishing recovery.")
 
-		_ = pool.cache.Set(ctx, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, cache.RECOVERY_FINISHED)
-		_ = pool.cache.Set(ctx, cache.RECOVERY_RUNNING, "false")
+		finishRecovery(ctx, pool)
 
 		return false
 	}
-- 
2.43.0


From 74a1710406a3a333588bbd04e4b566614c157e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 20/34] fix: flush kept queue configurations in the local cache

After a flush the old configuration was still reported, and editing a queue to the same
configuration it had before was ignored.
---
 internal/queue/queue.go                       | 4 ++++
 internal/queue/queue_configuration_service.go | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/internal/queue/queue.go b/internal/queue/queue.go
index 7d8ea4e..c9b111d 100644
--- a/internal/queue/queue.go
+++ b/internal/queue/queue.go
@@ -458,6 +458,10 @@ func (pool *Queue) Flush(ctx context.Context) (bool, error) {
 		return false, err
 	}
 
+	if flusher, ok := pool.QueueConfigurationService.(interface{ Flush() }); ok {
+		flusher.Flush()
+	}
+
 	return true, err
 }
 
diff --git a/internal/queue/queue_configuration_service.go b/internal/queue/queue_configuration_service.go
index fe02e30..0dc13b0 100644
--- a/internal/queue/queue_configuration_service.go
+++ b/internal/queue/queue_configuration_service.go
@@ -57,6 +57,11 @@ func (queueService *DefaultQueueConfigurationService) EditQueueConfiguration(ctx
 	return nil
 }
 
+// Flush discards the configurations kept in memory.
+func (queueService *DefaultQueueConfigurationService) Flush() {
+	queueService.localCache.Flush()
+}
+
 func (queueService *DefaultQueueConfigurationService) GetQueueConfiguration(ctx context.Context, queue string) (*configuration.QueueConfiguration, error) {
 	cacheConfig, found := queueService.localCache.Get(queue)
 
-- 
2.43.0


From 628f3e350d6d1b49afd4a462a9f87c2c9f6311eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 21/34] fix: large acknowledge deadlines and locks overflowed
 and ended at once

---
 internal/queue/cache/cache.go        | 16 ++++++++++++++++
 internal/queue/cache/memory_cache.go |  6 +++---
 internal/queue/cache/redis_cache.go  |  4 ++--
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/internal/queue/cache/cache.go b/internal/queue/cache/cache.go
index e28a3f7..7917b3a 100644
--- a/internal/queue/cache/cache.go
+++ b/internal/queue/cache/cache.go
@@ -5,6 +5,7 @@ package cache
 import (
 	"context"
 	"errors"
+	"math"
 	"time"
 
 	"github.com/takenet/deckard/internal/queue/message"
@@ -31,6 +32,21 @@ var (
 	DefaultTimeoutMs = time.Duration(5 * time.Minute).Milliseconds()
 )
 
+// deadlineMs returns when a message stops being processed or locked, limited to the times that can be represented.
+func deadlineMs(nowMs int64, durationMs int64) int64 {
+	deadline := nowMs + durationMs
+
+	if durationMs > 0 && deadline < nowMs {
+		return math.MaxInt64
+	}
+
+	if deadline < 0 {
+		return 0
+	}
+
+	return deadline
+}
+
 type Cache interface {
 	MakeAvailable(ctx context.Context, message *message.Message) (bool, error)
 	IsProcessing(ctx context.Context, queue string, id string) (bool, error)
diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index 26294f9..5c018c0 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -189,7 +189,7 @@ func (cache *MemoryCache) LockMessage(_ context.Context, message *message.Messag
 	cache.processingQueues[message.Queue], result = removeEntry(entry, cache.processingQueues[message.Queue])
 
 	if result {
-		entry.lockUntil = float64(dtime.NowMs() + message.LockMs)
+		entry.lockUntil = float64(deadlineMs(dtime.NowMs(), message.LockMs))
 
 		switch lockType {
 		case LOCK_ACK:
@@ -233,7 +233,7 @@ func (cache *MemoryCache) UnlockMessages(ctx context.Context, queue string, lock
 
 		value := e.Value.(*MemoryMessageEntry)
 
-		if nowMs >= int64(value.lockUntil) {
+		if float64(nowMs) >= value.lockUntil {
 			lockedMessages.Remove(e)
 
 			if score.IsUndefined(value.score) {
@@ -280,7 +280,7 @@ func (cache *MemoryCache) PullMessages(ctx context.Context, queue string, n int6
 
 		processingEntry := &MemoryMessageEntry{
 			id:    entry.id,
-			score: float64(dtime.NowMs() + ackDeadlineMs),
+			score: float64(deadlineMs(dtime.NowMs(), ackDeadlineMs)),
 		}
 
 		cache.processingQueues[queue], _ = insertEntry(processingEntry, cache.processingQueues[queue])
diff --git a/internal/queue/cache/redis_cache.go b/internal/queue/cache/redis_cache.go
index 9186e3b..3c70e0b 100644
--- a/internal/queue/cache/redis_cache.go
+++ b/internal/queue/cache/redis_cache.go
@@ -633,7 +633,7 @@ func (cache *RedisCache) LockMessage(ctx context.Context, message *message.Messa
 		return false, errors.New("invalid lock time")
 	}
 
-	lockScore := dtime.NowMs() + message.LockMs
+	lockScore := deadlineMs(dtime.NowMs(), message.LockMs)
 
 	execStart := dtime.Now()
 	defer func() {
@@ -698,7 +698,7 @@ func (cache *RedisCache) PullMessages(ctx context.Context, queue string, n int64
 		ackDeadlineMs = DefaultTimeoutMs
 	}
 
-	newScore := dtime.TimeToMs(&now) + ackDeadlineMs
+	newScore := deadlineMs(dtime.TimeToMs(&now), ackDeadlineMs)
 
 	args := []any{
 		n, newScore,
-- 
2.43.0


From 30e9a3902f1756f0990b3b9c1e03c43c8928f204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 22/34] fix: messages found by the retry of a pull were counted
 as missing

---
 internal/queue/queue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/queue/queue.go b/internal/queue/queue.go
index c9b111d..861c43e 100644
--- a/internal/queue/queue.go
+++ b/internal/queue/queue.go
@@ -364,7 +364,7 @@ func (pool *Queue) Pull(ctx context.Context, queue string, n int64, minScore *fl
 	}
 
 	if len(retryNotFound) > 0 {
-		metrics.QueueNotFoundInStorage.Add(ctx, int64(len(notFound)), metric.WithAttributes(attribute.String("queue", message.GetQueuePrefix(queue))))
+		metrics.QueueNotFoundInStorage.Add(ctx, int64(len(retryNotFound)), metric.WithAttributes(attribute.String("queue", message.GetQueuePrefix(queue))))
 
 		for _, id := range retryNotFound {
 			pool.auditor.Store(ctx, audit.Entry{
-- 
2.43.0


From 6fbfc0b07aa73ca37e38b1819cb2b9e98d8c3671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 23/34] fix: spans were not flushed at shutdown

---
 internal/trace/trace.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/trace/trace.go b/internal/trace/trace.go
index 67487d1..ea67678 100644
--- a/internal/trace/trace.go
+++ b/internal/trace/trace.go
@@ -32,7 +32,7 @@ func Init() error {
 		return err
 	}
 
-	tracerProvider := sdktrace.NewTracerProvider(
+	tracerProvider = sdktrace.NewTracerProvider(
 		sdktrace.WithBatcher(exporter),
 		sdktrace.WithResource(newResource()),
 	)
-- 
2.43.0


From 2a26d05b9191f512ebb22fd7a31bf7671437a145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 24/34] fix: data race between the computation and the export
 of the queue gauges

---
 internal/metrics/metrics.go     |  3 +++
 internal/metrics/metrics_map.go | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/internal/metrics/metrics.go b/internal/metrics/metrics.go
index ce719df..add7a54 100644
--- a/internal/metrics/metrics.go
+++ b/internal/metrics/metrics.go
@@ -322,6 +322,9 @@ func metrifyTotalElements(obs metric.Int64Observer) error {
 }
 
 func metrify(obs metric.Int64Observer, data *map[string]int64) error {
+	MetricsMap.mutex.RLock()
+	defer MetricsMap.mutex.RUnlock()
+
 	for key := range *data {
 		obs.Observe((*data)[key], metric.WithAttributeSet(attribute.NewSet(attribute.String("queue", key))))
 	}
diff --git a/internal/metrics/metrics_map.go b/internal/metrics/metrics_map.go
index 381bb62..dd7ee0d 100644
--- a/internal/metrics/metrics_map.go
+++ b/internal/metrics/metrics_map.go
@@ -1,7 +1,11 @@
 package metrics
 
+import "sync"
+
 // Type to hold map of oldest queue elements
 type QueueMetricsMap struct {
+	mutex sync.RWMutex
+
 	OldestElement map[string]int64
 	TotalElements map[string]int64
 }
@@ -14,10 +18,16 @@ func NewQueueMetricsMap() *QueueMetricsMap {
 }
 
 func (oldestMap *QueueMetricsMap) UpdateOldestElementMap(data map[string]int64) {
+	oldestMap.mutex.Lock()
+	defer oldestMap.mutex.Unlock()
+
 	oldestMap.OldestElement = mergeData(oldestMap.OldestElement, data)
 }
 
 func (oldestMap *QueueMetricsMap) UpdateTotalElementsMap(data map[string]int64) {
+	oldestMap.mutex.Lock()
+	defer oldestMap.mutex.Unlock()
+
 	oldestMap.TotalElements = mergeData(oldestMap.TotalElements, data)
 }
 
-- 
2.43.0


From 12e53c985dba117f4f898dd4b6a8569cf1689b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 25/34] fix: configuration read during an edit stayed outdated
 in the local cache

---
 internal/queue/queue_configuration_service.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/queue/queue_configuration_service.go b/internal/queue/queue_configuration_service.go
index 0dc13b0..94d5843 100644
--- a/internal/queue/queue_configuration_service.go
+++ b/internal/queue/queue_configuration_service.go
@@ -2,6 +2,7 @@ package queue
 
 import (
 	"context"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -17,6 +18,9 @@ type QueueConfigurationService interface {
 type DefaultQueueConfigurationService struct {
 	storage    storage.Storage
 	localCache *cache.Cache
+
+	// Guards the reads of the storage which fill the local cache, so that they never keep a value older than an edit
+	mutex sync.Mutex
 }
 
 func NewQueueConfigurationService(_ context.Context, storage storage.Storage) *DefaultQueueConfigurationService {
@@ -39,6 +43,9 @@ func (queueService *DefaultQueueConfigurationService) EditQueueConfiguration(ctx
 		return nil
 	}
 
+	queueService.mutex.Lock()
+	defer queueService.mutex.Unlock()
+
 	config, found := queueService.localCache.Get(cfg.Queue)
 
 	if !found {
@@ -69,6 +76,9 @@ func (queueService *DefaultQueueConfigurationService) GetQueueConfiguration(ctx
 		return cacheConfig.(*configuration.QueueConfiguration), nil
 	}
 
+	queueService.mutex.Lock()
+	defer queueService.mutex.Unlock()
+
 	var err error
 	var config *configuration.QueueConfiguration
 
-- 
2.43.0


From bc8842863457184d62997b8ea6c88a184a54764c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 26/34] fix: tasks could start after the shutdown stopped
 waiting for them

---
 internal/cmd/deckard/main.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/cmd/deckard/main.go b/internal/cmd/deckard/main.go
index dde6b5c..bc13f52 100644
--- a/internal/cmd/deckard/main.go
+++ b/internal/cmd/deckard/main.go
@@ -204,6 +204,14 @@ func scheduleTask(taskName string, lock *sync.Mutex, taskWaitGroup *sync.WaitGro
 		select {
 		case <-time.After(duration):
 			taskWaitGroup.Add(1)
+
+			// The shutdown may have started before this task was added to the wait group it waits for
+			if shutdown.Ongoing() {
+				taskWaitGroup.Done()
+
+				continue
+			}
+
 			if lock != nil {
 				lock.Lock()
 			}
-- 
2.43.0


From a1afc4623832158efcf282229c851c189493f969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 27/34] fix: server certificate without key served without TLS

---
 internal/service/deckard_service.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index 63a04bc..6805514 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -134,10 +134,14 @@ func loadTLSCredentials() (credentials.TransportCredentials, error) {
 	certPath := config.TlsServerCertFilePaths.Get()
 	keyPath := config.TlsServerKeyFilePaths.Get()
 
-	if certPath == "" || keyPath == "" {
+	if certPath == "" && keyPath == "" {
 		return nil, nil
 	}
 
+	if certPath == "" || keyPath == "" {
+		return nil, fmt.Errorf("both certificate and key file paths must be configured")
+	}
+
 	// Load server's certificates and private key
 	certPathList := strings.Split(certPath, ",")
 	keyPathList := strings.Split(keyPath, ",")
-- 
2.43.0


From 1c837af7359a144e12bd6f98ed8ca327be365422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 28/34] fix: environment variable equal to the default value
 was overridden by its alias

---
 internal/config/viper_config.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/config/viper_config.go b/internal/config/viper_config.go
index 1721de7..844f1ec 100644
--- a/internal/config/viper_config.go
+++ b/internal/config/viper_config.go
@@ -1,9 +1,12 @@
 package config
 
 import (
+	"os"
+	"strings"
 	"time"
 
 	"github.com/spf13/viper"
+	"github.com/takenet/deckard/internal/project"
 )
 
 type ViperConfigKey struct {
@@ -46,11 +49,12 @@ func (config *ViperConfigKey) Set(value any) {
 // To fix this, we resolve the value for the main key and each alias and only treat
 // it as an override if it differs from the default - the first non-default value
 // found (main key first, then aliases in order) wins. If everything resolves to the
-// default, the default is returned.
+// default, the default is returned. A value equal to the default is an override too
+// when it was explicitly given by an environment variable.
 func getWithFallback[T comparable](config *ViperConfigKey, defaultVal T, keyGetter func(string) T) T {
 	if viper.IsSet(config.Key) {
 		keyVal := keyGetter(config.Key)
-		if keyVal != defaultVal {
+		if keyVal != defaultVal || hasEnv(config.Key) {
 			return keyVal
 		}
 	}
@@ -58,7 +62,7 @@ func getWithFallback[T comparable](config *ViperConfigKey, defaultVal T, keyGett
 	for _, alias := range config.GetAliases() {
 		if viper.IsSet(alias) {
 			aliasVal := keyGetter(alias)
-			if aliasVal != defaultVal {
+			if aliasVal != defaultVal || hasEnv(alias) {
 				return aliasVal
 			}
 		}
@@ -67,6 +71,11 @@ func getWithFallback[T comparable](config *ViperConfigKey, defaultVal T, keyGett
 	return defaultVal
 }
 
+// hasEnv checks if the environment has a value for the key.
+func hasEnv(key string) bool {
+	return os.Getenv(strings.ToUpper(project.Name+"_"+strings.ReplaceAll(key, ".", "_"))) != ""
+}
+
 // Should never be called before config is initialized using config.Configure()
 func (config *ViperConfigKey) Get() string {
 	defaultVal := ""
-- 
2.43.0


From ef6d8a32295df9ec242a49107062634d3b91ace2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 29/34] fix: audit entries stored but not sent before the
 shutdown were lost

---
 internal/audit/audit.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/internal/audit/audit.go b/internal/audit/audit.go
index 1263d61..6df2113 100644
--- a/internal/audit/audit.go
+++ b/internal/audit/audit.go
@@ -54,6 +54,9 @@ type AuditorImpl struct {
 	waitGroup     *sync.WaitGroup
 	enabled       bool
 	senderStarted bool
+
+	// closed when the sender finished, nothing else is sent after that
+	finished chan struct{}
 }
 
 // NewAuditor returns a new auditor with a elastic search.
@@ -98,6 +101,7 @@ func NewAuditor(waitGroup *sync.WaitGroup) (*AuditorImpl, error) {
 		entries:   make(chan Entry, 10000),
 		waitGroup: waitGroup,
 		enabled:   true,
+		finished:  make(chan struct{}),
 	}, nil
 }
 
@@ -132,8 +136,30 @@ func (a *AuditorImpl) StartSender(ctx context.Context) {
 		case <-ctx.Done():
 			zap.S().Info("Sending remaining audit data.")
 
-			close(a.entries)
+			a.sendRemaining(ctx, entriesToSend)
+
+			return
+		}
+	}
+}
+
+// sendRemaining sends the given entries and all the ones already stored.
+// The entries channel is not closed, since there may be running tasks storing entries.
+func (a *AuditorImpl) sendRemaining(ctx context.Context, entriesToSend []Entry) {
+	if a.finished != nil {
+		defer close(a.finished)
+	}
+
+	for {
+		select {
+		case entry := <-a.entries:
+			entriesToSend = append(entriesToSend, entry)
+			if len(entriesToSend) == maxEntriesSize {
+				a.send(ctx, entriesToSend...)
 
+				entriesToSend = make([]Entry, 0, maxEntriesSize)
+			}
+		default:
 			a.send(ctx, entriesToSend...)
 
 			return
@@ -206,5 +232,8 @@ func (a *AuditorImpl) Store(ctx context.Context, entry Entry) {
 		metrics.AuditorAddToStoreLatency.Record(ctx, dtime.ElapsedTime(entry.Timestamp))
 	}()
 
-	a.entries <- entry
+	select {
+	case a.entries <- entry:
+	case <-a.finished:
+	}
 }
-- 
2.43.0


From 319deda34958b3ca5bf95c646eeb1d3a471fa460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 30/34] fix: acks with an invalid score_subtract were not
 audited

---
 internal/audit/audit.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/audit/audit.go b/internal/audit/audit.go
index 6df2113..c06dcfa 100644
--- a/internal/audit/audit.go
+++ b/internal/audit/audit.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"strings"
 	"sync"
 	"time"
@@ -220,6 +221,11 @@ func (a *AuditorImpl) Store(ctx context.Context, entry Entry) {
 
 	entry.Timestamp = dtime.Now()
 
+	// The audited value must be a valid JSON number, otherwise the whole entry would be discarded
+	if math.IsNaN(entry.LastScoreSubtract) || math.IsInf(entry.LastScoreSubtract, 0) {
+		entry.LastScoreSubtract = 0
+	}
+
 	queuePrefix, queueSuffix := message.GetQueueParts(entry.Queue)
 
 	entry.QueuePrefix = queuePrefix
-- 
2.43.0


From 64a0899f47c1ad20a21f2da7c3426b95f6aa3af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 31/34] fix: a negative ttl could expire timeless messages

---
 internal/service/deckard_service.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index 6805514..d58c920 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -326,12 +326,10 @@ func (d *Deckard) Add(ctx context.Context, request *deckard.AddRequest) (*deckar
 	for i, m := range request.Messages {
 		t := dtime.Now()
 
-		if m.TtlMinutes != 0 {
-			t = t.Add(ttlDuration(m.TtlMinutes))
-		}
-
 		if m.Timeless {
 			t = t.AddDate(100, 0, 0)
+		} else if m.TtlMinutes != 0 {
+			t = t.Add(ttlDuration(m.TtlMinutes))
 		}
 
 		ids[i] = m.Id
-- 
2.43.0


From ff8c74af40abc706c4149a72719a255cda41df74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:48 +0000
Subject: [PATCH 32/34] Revert "fix: redis counted locked messages with a score
 twice when removed"

This reverts commit e08d70e04d4c29fb80dd031234e7b6a2a420ad8f.
---
 internal/queue/cache/redis_cache_scripts.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/internal/queue/cache/redis_cache_scripts.go b/internal/queue/cache/redis_cache_scripts.go
index e07f229..6ddf55a 100644
--- a/internal/queue/cache/redis_cache_scripts.go
+++ b/internal/queue/cache/redis_cache_scripts.go
@@ -2,20 +2,14 @@ package cache
 
 // Removes all elements from different sorted sets
 //
-// KEYS[1-4] -> sorted sets with the elements of each pool. An element is always in a single pool.
-//
-// KEYS[5-n] -> sorted sets with additional data of the elements, which are not counted as removed elements
+// KEYS[1-n] -> sorted sets to remove elements
 //
 // ARGV[1/n] -> elements to remove from all sorted sets
 const removeElementScript = `
 local total = 0
 
-for i, pool in ipairs(KEYS) do
-	local removed = redis.call('ZREM', pool, unpack(ARGV))
-
-	if i <= 4 then
-		total = total + removed
-	end
+for _, pool in ipairs(KEYS) do
+	total = total + redis.call('ZREM', pool, unpack(ARGV))
 end
 
 return total
-- 
2.43.0


From 8d8c25a28e81d1443f5ed609efd00ca4e7f78629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:24 +0000
Subject: [PATCH 33/34] fix: pulls only discard messages which the primary does
 not have

---
 internal/queue/storage/mongo_storage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/queue/storage/mongo_storage.go b/internal/queue/storage/mongo_storage.go
index 6c06a87..3202e85 100644
--- a/internal/queue/storage/mongo_storage.go
+++ b/internal/queue/storage/mongo_storage.go
@@ -73,7 +73,7 @@ func NewMongoStorage(ctx context.Context) (*MongoStorage, error) {
 		return nil, err
 	}
 
-	mongoPrimaryOptions.SetReadPreference(readpref.PrimaryPreferred())
+	mongoPrimaryOptions.SetReadPreference(readpref.Primary())
 	clientPrimaryPreference, err := waitForClient(ctx, mongoPrimaryOptions)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From a1bbe9616da7301bc1bc0a42933bbe7314116915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:59 +0000
Subject: [PATCH 34/34] fix: the configured histogram buckets of metrics had no
 effect

---
 internal/metrics/metrics.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/metrics/metrics.go b/internal/metrics/metrics.go
index add7a54..0141c11 100644
--- a/internal/metrics/metrics.go
+++ b/internal/metrics/metrics.go
@@ -73,6 +73,9 @@ func panicInstrumentationError(err error) {
 }
 
 func init() {
+	// The instruments created here already depend on the configuration
+	config.Configure()
+
 	registry = NewWrappedRegistry(prometheusclient.NewRegistry(), createDefaultMetrics()...)
 
 	var err error
-- 
2.43.0

