From 47f38133397c97eae7d2b0e47793552dcd02571c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:06 +0000
Subject: [PATCH 01/18] fix: do not acquire core/quantile read locks
 recursively in Value

A Value call that already holds the read lock deadlocks if a writer queues
up before it acquires the same read lock again.
---
 joint/corr.go        |  6 +++---
 joint/cov.go         |  4 ++--
 joint/ewmcorr.go     |  6 +++---
 moment/ewma.go       |  2 +-
 moment/kurtosis.go   |  6 +++---
 moment/mean.go       |  2 +-
 moment/moment.go     | 11 +++++++++--
 moment/skewness.go   |  6 +++---
 quantile/iqr.go      |  4 ++--
 quantile/quantile.go |  7 +++++++
 10 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/joint/corr.go b/joint/corr.go
index 6d28b68..2b35b65 100644
--- a/joint/corr.go
+++ b/joint/corr.go
@@ -86,18 +86,18 @@ func (corr *Corr) Value() (float64, error) {
 	// the sample size (minus 1), but the denominator is cancelled out
 	// when dividing by the sqrt of the variances, so we can avoid extra
 	// float ops here
-	cov, err := corr.core.Sum(1, 1)
+	cov, err := corr.core.UnsafeSum(1, 1)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {1, 1}")
 	}
 
 	// ditto with the "variance" variables here, as with above
-	xVar, err := corr.core.Sum(2, 0)
+	xVar, err := corr.core.UnsafeSum(2, 0)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {2, 0}")
 	}
 
-	yVar, err := corr.core.Sum(0, 2)
+	yVar, err := corr.core.UnsafeSum(0, 2)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {0, 2}")
 	}
diff --git a/joint/cov.go b/joint/cov.go
index 127dea1..f48e487 100644
--- a/joint/cov.go
+++ b/joint/cov.go
@@ -77,12 +77,12 @@ func (cov *Cov) Value() (float64, error) {
 	cov.core.RLock()
 	defer cov.core.RUnlock()
 
-	covariance, err := cov.core.Sum(1, 1)
+	covariance, err := cov.core.UnsafeSum(1, 1)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
 
-	count := cov.core.Count()
+	count := cov.core.UnsafeCount()
 	covariance /= (float64(count) - 1.)
 
 	return covariance, nil
diff --git a/joint/ewmcorr.go b/joint/ewmcorr.go
index fbd5d48..7009d35 100644
--- a/joint/ewmcorr.go
+++ b/joint/ewmcorr.go
@@ -83,18 +83,18 @@ func (corr *EWMCorr) Value() (float64, error) {
 	// the sample size (minus 1), but the denominator is cancelled out
 	// when dividing by the sqrt of the variances, so we can avoid extra
 	// float ops here
-	cov, err := corr.core.Sum(1, 1)
+	cov, err := corr.core.UnsafeSum(1, 1)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {1, 1}")
 	}
 
 	// ditto with the "variance" variables here, as with above
-	xVar, err := corr.core.Sum(2, 0)
+	xVar, err := corr.core.UnsafeSum(2, 0)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {2, 0}")
 	}
 
-	yVar, err := corr.core.Sum(0, 2)
+	yVar, err := corr.core.UnsafeSum(0, 2)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {0, 2}")
 	}
diff --git a/moment/ewma.go b/moment/ewma.go
index f3805f6..83bffd5 100644
--- a/moment/ewma.go
+++ b/moment/ewma.go
@@ -66,7 +66,7 @@ func (a *EWMA) Value() (float64, error) {
 	a.core.RLock()
 	defer a.core.RUnlock()
 
-	ewma, err := a.core.Mean()
+	ewma, err := a.core.UnsafeMean()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
diff --git a/moment/kurtosis.go b/moment/kurtosis.go
index 2a3c382..d512f5d 100644
--- a/moment/kurtosis.go
+++ b/moment/kurtosis.go
@@ -84,17 +84,17 @@ func (k *Kurtosis) Value() (float64, error) {
 	k.core.RLock()
 	defer k.core.RUnlock()
 
-	count := float64(k.core.Count())
+	count := float64(k.core.UnsafeCount())
 	if count == 0 {
 		return 0, errors.New("no values seen yet")
 	}
 
-	variance, err := k.variance.Value()
+	variance, err := k.variance.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 2nd moment")
 	}
 
-	moment, err := k.moment4.Value()
+	moment, err := k.moment4.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 4th moment")
 	}
diff --git a/moment/mean.go b/moment/mean.go
index 3afbb49..11f68da 100644
--- a/moment/mean.go
+++ b/moment/mean.go
@@ -69,7 +69,7 @@ func (m *Mean) Value() (float64, error) {
 	m.core.RLock()
 	defer m.core.RUnlock()
 
-	mean, err := m.core.Mean()
+	mean, err := m.core.UnsafeMean()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
diff --git a/moment/moment.go b/moment/moment.go
index c411185..08ed84d 100644
--- a/moment/moment.go
+++ b/moment/moment.go
@@ -78,12 +78,19 @@ func (m *Moment) Value() (float64, error) {
 	m.core.RLock()
 	defer m.core.RUnlock()
 
-	moment, err := m.core.Sum(m.k)
+	return m.unsafeValue()
+}
+
+// unsafeValue returns the value of the kth sample central moment, but does not
+// lock; the caller must hold the core's (read) lock. Read locks must not be
+// acquired recursively, as a writer waiting in between would cause a deadlock.
+func (m *Moment) unsafeValue() (float64, error) {
+	moment, err := m.core.UnsafeSum(m.k)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
 
-	count := m.core.Count()
+	count := m.core.UnsafeCount()
 	moment /= (float64(count) - 1.)
 
 	return moment, nil
diff --git a/moment/skewness.go b/moment/skewness.go
index 57e922f..71efe51 100644
--- a/moment/skewness.go
+++ b/moment/skewness.go
@@ -84,18 +84,18 @@ func (s *Skewness) Value() (float64, error) {
 	s.core.RLock()
 	defer s.core.RUnlock()
 
-	count := float64(s.core.Count())
+	count := float64(s.core.UnsafeCount())
 	if count == 0 {
 		return 0, errors.New("no values seen yet")
 	}
 
-	variance, err := s.variance.Value()
+	variance, err := s.variance.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 2nd moment")
 	}
 	variance *= (count - 1) / count
 
-	moment, err := s.moment3.Value()
+	moment, err := s.moment3.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 3rd moment")
 	}
diff --git a/quantile/iqr.go b/quantile/iqr.go
index 334037e..6145bd7 100644
--- a/quantile/iqr.go
+++ b/quantile/iqr.go
@@ -48,12 +48,12 @@ func (i *IQR) Value() (float64, error) {
 	i.quantile.RLock()
 	defer i.quantile.RUnlock()
 
-	q25, err := i.quantile.Value(0.25)
+	q25, err := i.quantile.unsafeValue(0.25)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 1st quartile")
 	}
 
-	q75, err := i.quantile.Value(0.75)
+	q75, err := i.quantile.unsafeValue(0.75)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 3rd quartile")
 	}
diff --git a/quantile/quantile.go b/quantile/quantile.go
index 47170f9..cf078cb 100644
--- a/quantile/quantile.go
+++ b/quantile/quantile.go
@@ -99,6 +99,13 @@ func (q *Quantile) Value(quantile float64) (float64, error) {
 	q.mux.RLock()
 	defer q.mux.RUnlock()
 
+	return q.unsafeValue(quantile)
+}
+
+// unsafeValue returns the value of the quantile, but does not lock; the caller
+// must hold the (read) lock. Read locks must not be acquired recursively, as a
+// writer waiting in between would cause a deadlock.
+func (q *Quantile) unsafeValue(quantile float64) (float64, error) {
 	size := int(q.statistic.Size())
 	if size == 0 {
 		return 0, errors.New("no values seen yet")
-- 
2.43.0


From 81c70409f46b515c98e3d69319c343c546993296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:01 +0000
Subject: [PATCH 02/18] fix: HeapMedian must evict the oldest value of the
 window

The item queued for eviction was the one moved by rebalancing rather than
the one pushed, and a window of size 1 read an empty low heap.
---
 quantile/heap_median.go | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/quantile/heap_median.go b/quantile/heap_median.go
index 76550a7..dfe9e57 100644
--- a/quantile/heap_median.go
+++ b/quantile/heap_median.go
@@ -74,24 +74,20 @@ func (m *HeapMedian) Push(x float64) error {
 		}
 
 		item = tail.(*heap.Item)
-		low := item.HeapID == m.lowHeap.ID
-		switch {
-		// if new/old items are in the same heap, just replace the old item
-		case low && x <= m.lowHeap.Peek():
-			m.lowHeap.Update(item, x)
-		case !low && x > m.lowHeap.Peek():
-			m.highHeap.Update(item, x)
-		// otherwise, remove old item and push new value to other heap
-		case low && x > m.lowHeap.Peek():
+		// note that the low heap is empty if the only item is in the high heap
+		low := m.lowHeap.Len() > 0 && x <= m.lowHeap.Peek()
+		if item.HeapID == m.lowHeap.ID {
 			m.lowHeap.Remove(item)
-			item.Val = x
-			heapops.Push(m.highHeap, item)
-		default:
+		} else {
 			m.highHeap.Remove(item)
-			item.Val = x
+		}
+		item.Val = x
+		if low {
 			heapops.Push(m.lowHeap, item)
+		} else {
+			heapops.Push(m.highHeap, item)
 		}
-		item = m.rebalance(item)
+		m.rebalance()
 	} else {
 		item = &heap.Item{Val: x}
 		if m.lowHeap.Len() == 0 || x <= m.lowHeap.Peek() {
@@ -99,7 +95,7 @@ func (m *HeapMedian) Push(x float64) error {
 		} else {
 			heapops.Push(m.highHeap, item)
 		}
-		item = m.rebalance(item)
+		m.rebalance()
 	}
 
 	if m.window != 0 {
@@ -112,15 +108,12 @@ func (m *HeapMedian) Push(x float64) error {
 	return nil
 }
 
-func (m *HeapMedian) rebalance(item *heap.Item) *heap.Item {
+func (m *HeapMedian) rebalance() {
 	if m.lowHeap.Len()+1 < m.highHeap.Len() {
-		item = heapops.Pop(m.highHeap).(*heap.Item)
-		heapops.Push(m.lowHeap, item)
+		heapops.Push(m.lowHeap, heapops.Pop(m.highHeap))
 	} else if m.lowHeap.Len() > m.highHeap.Len()+1 {
-		item = heapops.Pop(m.lowHeap).(*heap.Item)
-		heapops.Push(m.highHeap, item)
+		heapops.Push(m.highHeap, heapops.Pop(m.lowHeap))
 	}
-	return item
 }
 
 // Value returns the value of the median.
-- 
2.43.0


From 5a560be79ce5bdf50a1e6c261bf4853628504a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:06 +0000
Subject: [PATCH 03/18] fix: skip list widths in the presence of duplicate
 values

Nodes were compared by value when computing the width of a new node, so a
duplicate was mistaken for the end of the link.
---
 quantile/skiplist/skiplist.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/quantile/skiplist/skiplist.go b/quantile/skiplist/skiplist.go
index cde2ca6..d5c7d3b 100644
--- a/quantile/skiplist/skiplist.go
+++ b/quantile/skiplist/skiplist.go
@@ -31,10 +31,6 @@ func (n *Node) Value() float64 {
 	return n.val
 }
 
-func (n *Node) equals(m *Node) bool {
-	return (n == nil && m == nil) || (n != nil && m != nil && n.val == m.val)
-}
-
 func (n *Node) string() string {
 	if n == nil {
 		return "tail"
@@ -129,7 +125,7 @@ func (s *SkipList) Add(val float64) {
 		prevs[i].width[i]++
 	}
 	for i := 1; i < level; i++ {
-		for curr := node; !curr.equals(node.next[i]); curr = curr.next[i-1] {
+		for curr := node; curr != node.next[i]; curr = curr.next[i-1] {
 			node.width[i] += curr.width[i-1]
 		}
 		prevs[i].width[i] -= node.width[i]
-- 
2.43.0


From 16c4574a80e8e69f0a6ed2bbe60ff342be48819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:06 +0000
Subject: [PATCH 04/18] fix: tree Rank counted duplicates of the value as
 strictly less

---
 quantile/ost/avl/node.go | 3 ++-
 quantile/ost/rb/node.go  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantile/ost/avl/node.go b/quantile/ost/avl/node.go
index a51bf74..0c40a2e 100644
--- a/quantile/ost/avl/node.go
+++ b/quantile/ost/avl/node.go
@@ -231,7 +231,8 @@ func (n *Node) Rank(val float64) int {
 	} else if val > n.val {
 		return 1 + n.left.Size() + n.right.Rank(val)
 	}
-	return n.left.Size()
+	// equal values may be stored in the left subtree as well
+	return n.left.Rank(val)
 }
 
 /*******************
diff --git a/quantile/ost/rb/node.go b/quantile/ost/rb/node.go
index a1e7b29..12eea97 100644
--- a/quantile/ost/rb/node.go
+++ b/quantile/ost/rb/node.go
@@ -277,7 +277,8 @@ func (n *Node) Rank(val float64) int {
 	} else if val > n.val {
 		return 1 + n.left.Size() + n.right.Rank(val)
 	}
-	return n.left.Size()
+	// equal values may be stored in the left subtree as well
+	return n.left.Rank(val)
 }
 
 /*******************
-- 
2.43.0


From b6d895d2130745b605587802c2fa16ac86ac6219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 05/18] fix: joint Core removed an evicted value repeatedly
 from shared sums

Sums shared by several tracked tuples were updated once per tuple.
---
 joint/core.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/joint/core.go b/joint/core.go
index cbb28b7..e80e7c0 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -320,10 +320,10 @@ func (c *Core) remove(xs ...float64) error {
 			if err != nil {
 				return errors.Wrapf(err, "error removing %v from sums for tuple %v", xs, tuple)
 			}
+		}
 
-			for hash, sum := range c.newSums {
-				c.sums[hash] = sum
-			}
+		for hash, sum := range c.newSums {
+			c.sums[hash] = sum
 		}
 	} else {
 		for i := range c.means {
-- 
2.43.0


From d0d56d7891ada81c6dfac71a60198cc762a1738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 06/18] fix: joint Core must not retain the slice passed to
 Push

---
 joint/core.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/joint/core.go b/joint/core.go
index e80e7c0..9e54743 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -108,7 +108,8 @@ func (c *Core) UnsafePush(xs ...float64) error {
 			}
 		}
 
-		err := c.queue.Put(xs)
+		// copy xs, as the caller may reuse the slice it passed
+		err := c.queue.Put(append([]float64(nil), xs...))
 		if err != nil {
 			return errors.Wrapf(err, "error pushing %v to queue", xs)
 		}
-- 
2.43.0


From 73fb1c7a63c37ed94a63a7248af04651324e4ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 07/18] fix: binomial coefficients raced on a global table and
 overflowed

The factorial table was extended without synchronization by independent
cores, and coefficients of orders above 20 overflowed.
---
 util/math/math.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/util/math/math.go b/util/math/math.go
index 6a17a4e..469598e 100644
--- a/util/math/math.go
+++ b/util/math/math.go
@@ -1,14 +1,12 @@
 package math
 
-var factorials = []int{1, 1, 2, 6, 24, 120, 720, 5040}
-
 func factorial(n int) int {
-	for n >= len(factorials) {
-		next := factorials[len(factorials)-1] * len(factorials)
-		factorials = append(factorials, next)
+	result := 1
+	for i := 2; i <= n; i++ {
+		result *= i
 	}
 
-	return factorials[n]
+	return result
 }
 
 // Sign returns the sign of an integer (-1 if negative, 1 otherwise).
@@ -26,5 +24,14 @@ func Binom(n, k int) int {
 		return 1
 	}
 
-	return factorial(n) / (factorial(k) * factorial(n-k))
+	// each intermediate product is divisible by i, and growing the result
+	// this way avoids the overflow of large factorials
+	if k > n-k {
+		k = n - k
+	}
+	result := 1
+	for i := 1; i <= k; i++ {
+		result = result * (n - k + i) / i
+	}
+	return result
 }
-- 
2.43.0


From 5c3708e0c213bd33cd40ed337594064fe8fb2b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 08/18] fix: joint Core answered Sum for untracked Tuples with
 colliding hashes

---
 joint/core.go  | 15 ++++++++++++++-
 joint/tuple.go | 16 ++++++++++++++++
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/joint/core.go b/joint/core.go
index 9e54743..3978b64 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -396,13 +396,26 @@ func (c *Core) UnsafeSum(xs ...int) (float64, error) {
 	}
 
 	sum, ok := c.sums[Tuple(xs).hash()]
-	if !ok {
+	if !ok || !c.tracks(xs) {
 		return 0, errors.Errorf("%v is not a tracked power sum", xs)
 	}
 
 	return sum, nil
 }
 
+// tracks returns whether the sum of an exponent Tuple is tracked, i.e. whether it
+// is less than or equal to a configured Tuple. Hashes alone cannot tell, since
+// Tuples of another length or with negative exponents may share a hash.
+func (c *Core) tracks(m Tuple) bool {
+	for _, n := range c.tuples {
+		if m.leq(n) {
+			return true
+		}
+	}
+
+	return false
+}
+
 // Clear clears all stats being tracked.
 func (c *Core) Clear() {
 	c.mux.Lock()
diff --git a/joint/tuple.go b/joint/tuple.go
index 61b273c..1b1d23b 100644
--- a/joint/tuple.go
+++ b/joint/tuple.go
@@ -49,6 +49,22 @@ func (m Tuple) eq(n Tuple) bool {
 	return true
 }
 
+// leq returns whether m is a valid Tuple of exponents that are
+// less than or equal to the respective exponents of n.
+func (m Tuple) leq(n Tuple) bool {
+	if len(m) != len(n) {
+		return false
+	}
+
+	for i := range m {
+		if m[i] < 0 || m[i] > n[i] {
+			return false
+		}
+	}
+
+	return true
+}
+
 func sub(m, n Tuple) (Tuple, error) {
 	if len(m) != len(n) {
 		return nil, errors.Errorf(
-- 
2.43.0


From dafe9c53183b8d4f130a9a0ae3b865fdfbf3dbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 09/18] fix: MergeConfigs panicked on or dropped Tuples of
 differing lengths

They are now kept, so that NewCore reports the invalid configuration.
---
 joint/config.go | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/joint/config.go b/joint/config.go
index 766cdf1..bed16d1 100644
--- a/joint/config.go
+++ b/joint/config.go
@@ -88,30 +88,13 @@ func MergeConfigs(configs ...*CoreConfig) (*CoreConfig, error) {
 // remove any duplicate Tuples, or Tuples that are less than or equal
 // to other Tuples, since they'll get tracked automatically
 func simplifySums(sums SumsConfig) SumsConfig {
-	tupleMap := map[uint64]bool{}
 	newSums := SumsConfig{}
 	for i, m := range sums {
-		// remove dupes
-		if _, ok := tupleMap[m.hash()]; ok {
-			continue
-		}
-
-		// if Tuple is less than or equal to an already existing Tuple,
-		// skip this one
+		// if Tuple is less than or equal to an already existing Tuple
+		// (or a duplicate of it), skip this one
 		leq := false
-		for j, n := range sums {
-			if i <= j {
-				continue
-			}
-
-			allLeq := true
-			for i := range m {
-				if m[i] > n[i] {
-					allLeq = false
-					break
-				}
-			}
-			if allLeq {
+		for _, n := range sums[:i] {
+			if m.leq(n) {
 				leq = true
 				break
 			}
@@ -120,7 +103,6 @@ func simplifySums(sums SumsConfig) SumsConfig {
 			continue
 		}
 
-		tupleMap[m.hash()] = true
 		newSums = append(newSums, m)
 	}
 
-- 
2.43.0


From 05bdadb4ea723fd68ab0317595928162da4afe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 10/18] fix: cores must not share state with the config they
 are created from

NewCore modified the caller's config (handing out the shared default Sums)
and kept using its Decay and Tuples afterwards.
---
 joint/config.go  | 20 +++++++++++---------
 joint/core.go    |  9 +++++++--
 moment/config.go | 16 +++++++++-------
 moment/core.go   |  5 ++++-
 4 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/joint/config.go b/joint/config.go
index bed16d1..84370cb 100644
--- a/joint/config.go
+++ b/joint/config.go
@@ -179,21 +179,23 @@ func validateTuple(tuple Tuple, config *CoreConfig) error {
 }
 
 func setConfigDefaults(config *CoreConfig) *CoreConfig {
-	if config.Sums == nil {
-		config.Sums = defaultConfig.Sums
+	// do not modify the caller's config, or share the default Sums with it
+	result := *config
+	if result.Sums == nil {
+		result.Sums = SumsConfig{}
 	}
 
-	if config.Window == nil {
-		config.Window = defaultConfig.Window
+	if result.Window == nil {
+		result.Window = defaultConfig.Window
 	}
 
-	if config.Vars == nil {
-		config.Vars = defaultConfig.Vars
+	if result.Vars == nil {
+		result.Vars = defaultConfig.Vars
 	}
 
-	if config.Decay == nil {
-		config.Decay = defaultConfig.Decay
+	if result.Decay == nil {
+		result.Decay = defaultConfig.Decay
 	}
 
-	return config
+	return &result
 }
diff --git a/joint/core.go b/joint/core.go
index 3978b64..6800215 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -54,7 +54,9 @@ func NewCore(config *CoreConfig) (*Core, error) {
 	// initialize and create Core
 	c := &Core{}
 	c.window = *config.Window
-	c.decay = config.Decay
+	if config.Decay != nil {
+		c.decay = stream.FloatPtr(*config.Decay)
+	}
 
 	c.sums = map[uint64]float64{}
 	c.newSums = map[uint64]float64{}
@@ -69,7 +71,10 @@ func NewCore(config *CoreConfig) (*Core, error) {
 		})
 	}
 
-	c.tuples = config.Sums
+	c.tuples = make([]Tuple, len(config.Sums))
+	for i, tuple := range config.Sums {
+		c.tuples[i] = append(Tuple{}, tuple...)
+	}
 	c.means = make([]float64, *config.Vars)
 	c.queue = queue.NewRingBuffer(uint64(c.window))
 
diff --git a/moment/config.go b/moment/config.go
index 7789c07..8019c31 100644
--- a/moment/config.go
+++ b/moment/config.go
@@ -97,17 +97,19 @@ func validateConfig(config *CoreConfig) error {
 }
 
 func setConfigDefaults(config *CoreConfig) *CoreConfig {
-	if config.Sums == nil {
-		config.Sums = defaultConfig.Sums
+	// do not modify the caller's config, or share the default Sums with it
+	result := *config
+	if result.Sums == nil {
+		result.Sums = SumsConfig{}
 	}
 
-	if config.Window == nil {
-		config.Window = defaultConfig.Window
+	if result.Window == nil {
+		result.Window = defaultConfig.Window
 	}
 
-	if config.Decay == nil {
-		config.Decay = defaultConfig.Decay
+	if result.Decay == nil {
+		result.Decay = defaultConfig.Decay
 	}
 
-	return config
+	return &result
 }
diff --git a/moment/core.go b/moment/core.go
index 0bbd850..e26d9d7 100644
--- a/moment/core.go
+++ b/moment/core.go
@@ -7,6 +7,7 @@ import (
 	"github.com/pkg/errors"
 	"github.com/workiva/go-datastructures/queue"
 
+	"github.com/alexander-yu/stream"
 	mathutil "github.com/alexander-yu/stream/util/math"
 )
 
@@ -47,7 +48,9 @@ func NewCore(config *CoreConfig) (*Core, error) {
 	// initialize and create core
 	c := &Core{}
 	c.window = *config.Window
-	c.decay = config.Decay
+	if config.Decay != nil {
+		c.decay = stream.FloatPtr(*config.Decay)
+	}
 
 	maxSum := -1
 	for k := range config.Sums {
-- 
2.43.0


From 5fdbcdde6d33c054f7231d0c52f37cd513974905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 11/18] fix: do not write to or retain the variadic slices of
 callers

NewMedian/NewIQR appended in place to the options slice and the aggregates
kept the metrics slice.
---
 aggregate/simple_aggregate.go       | 2 +-
 aggregate/simple_joint_aggregate.go | 2 +-
 quantile/iqr.go                     | 2 +-
 quantile/median.go                  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aggregate/simple_aggregate.go b/aggregate/simple_aggregate.go
index 47079b0..69bb7fe 100644
--- a/aggregate/simple_aggregate.go
+++ b/aggregate/simple_aggregate.go
@@ -19,7 +19,7 @@ type SimpleAggregateMetric struct {
 
 // NewSimpleAggregateMetric instantiates an SimpleAggregateMetric struct.
 func NewSimpleAggregateMetric(metrics ...stream.SimpleMetric) *SimpleAggregateMetric {
-	return &SimpleAggregateMetric{metrics: metrics}
+	return &SimpleAggregateMetric{metrics: append([]stream.SimpleMetric(nil), metrics...)}
 }
 
 // Push adds a new value for the metrics to consume.
diff --git a/aggregate/simple_joint_aggregate.go b/aggregate/simple_joint_aggregate.go
index f18518f..94283a0 100644
--- a/aggregate/simple_joint_aggregate.go
+++ b/aggregate/simple_joint_aggregate.go
@@ -18,7 +18,7 @@ type SimpleJointAggregateMetric struct {
 
 // NewSimpleJointAggregateMetric instantiates an SimpleJointAggregateMetric struct.
 func NewSimpleJointAggregateMetric(metrics ...stream.SimpleJointMetric) *SimpleJointAggregateMetric {
-	return &SimpleJointAggregateMetric{metrics: metrics}
+	return &SimpleJointAggregateMetric{metrics: append([]stream.SimpleJointMetric(nil), metrics...)}
 }
 
 // Push adds a new value for the metrics to consume.
diff --git a/quantile/iqr.go b/quantile/iqr.go
index 6145bd7..1c206aa 100644
--- a/quantile/iqr.go
+++ b/quantile/iqr.go
@@ -13,7 +13,7 @@ type IQR struct {
 
 // NewIQR instantiates an IQR struct.
 func NewIQR(window int, options ...Option) (*IQR, error) {
-	quantile, err := New(window, append(options, InterpolationOption(Midpoint))...)
+	quantile, err := New(window, append(options[:len(options):len(options)], InterpolationOption(Midpoint))...)
 	if err != nil {
 		return nil, errors.Wrap(err, "error creating Quantile")
 	}
diff --git a/quantile/median.go b/quantile/median.go
index f740fc6..68a8512 100644
--- a/quantile/median.go
+++ b/quantile/median.go
@@ -15,7 +15,7 @@ type Median struct {
 // structure for tracking order statistics can be configured by passing in a constant
 // of type Impl.
 func NewMedian(window int, options ...Option) (*Median, error) {
-	quantile, err := New(window, append(options, InterpolationOption(Midpoint))...)
+	quantile, err := New(window, append(options[:len(options):len(options)], InterpolationOption(Midpoint))...)
 	if err != nil {
 		return nil, errors.Wrap(err, "error creating Quantile")
 	}
-- 
2.43.0


From 2f5c612fcbb13d1dc94128f1ac1a672dc7713471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 12/18] fix: rolling Std became NaN when rounding made the
 variance negative

---
 moment/core.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/moment/core.go b/moment/core.go
index e26d9d7..0348d60 100644
--- a/moment/core.go
+++ b/moment/core.go
@@ -178,6 +178,11 @@ func (c *Core) remove(x float64) {
 						math.Pow(delta/(count+1), float64(i)) *
 						c.sums[k-i]
 			}
+			// rounding errors must not turn a sum of even powers negative,
+			// as e.g. the standard deviation would become NaN
+			if k%2 == 0 && c.sums[k] < 0 {
+				c.sums[k] = 0
+			}
 		}
 	} else {
 		c.mean = 0
-- 
2.43.0


From e7b009accce55b7f75821563ca7fc37eca9366cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 13/18] fix: NaN quantiles, decays and probabilities were
 accepted

Quantile.Value(NaN) panicked.
---
 joint/config.go             | 2 +-
 moment/config.go            | 2 +-
 quantile/quantile.go        | 2 +-
 quantile/skiplist/option.go | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/joint/config.go b/joint/config.go
index 84370cb..ff5f4dd 100644
--- a/joint/config.go
+++ b/joint/config.go
@@ -121,7 +121,7 @@ func validateConfig(config *CoreConfig) error {
 	}
 
 	if config.Decay != nil {
-		if *config.Decay <= 0 || *config.Decay >= 1 {
+		if !(*config.Decay > 0 && *config.Decay < 1) {
 			return errors.Errorf("config has a decay of %f, which is not in (0, 1)", *config.Decay)
 		} else if *config.Window > 0 {
 			return errors.New("config cannot have Decay set with a nonzero window")
diff --git a/moment/config.go b/moment/config.go
index 8019c31..94a3cfb 100644
--- a/moment/config.go
+++ b/moment/config.go
@@ -80,7 +80,7 @@ func validateConfig(config *CoreConfig) error {
 	}
 
 	if config.Decay != nil {
-		if *config.Decay <= 0 || *config.Decay >= 1 {
+		if !(*config.Decay > 0 && *config.Decay < 1) {
 			return errors.Errorf("config has a decay of %f, which is not in (0, 1)", *config.Decay)
 		} else if *config.Window > 0 {
 			return errors.New("config cannot have Decay set with a nonzero window")
diff --git a/quantile/quantile.go b/quantile/quantile.go
index cf078cb..4f306bf 100644
--- a/quantile/quantile.go
+++ b/quantile/quantile.go
@@ -92,7 +92,7 @@ func (q *Quantile) Push(x float64) error {
 
 // Value returns the value of the quantile.
 func (q *Quantile) Value(quantile float64) (float64, error) {
-	if quantile <= 0 || quantile >= 1 {
+	if !(quantile > 0 && quantile < 1) {
 		return 0, errors.Errorf("quantile %f not in (0, 1)", quantile)
 	}
 
diff --git a/quantile/skiplist/option.go b/quantile/skiplist/option.go
index a4963a7..7736c43 100644
--- a/quantile/skiplist/option.go
+++ b/quantile/skiplist/option.go
@@ -35,7 +35,7 @@ func ProbabilityOption(p float64) order.Option {
 		)
 		if skiplist, ok = s.(*SkipList); !ok {
 			return errors.New("attempted to set probability on a non-skiplist")
-		} else if p <= 0 || p >= 1 {
+		} else if !(p > 0 && p < 1) {
 			return errors.Errorf("attempted to set probability %f not in (0, 1)", p)
 		}
 		skiplist.p = p
-- 
2.43.0


From cbd3ae09c21591c791ece9839d50db1ecad13bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:49 +0000
Subject: [PATCH 14/18] fix: first value of a large magnitude turned high order
 sums into NaN

---
 joint/core.go  | 12 ++++++++++++
 moment/core.go | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/joint/core.go b/joint/core.go
index 6800215..943afec 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -149,6 +149,12 @@ func (c *Core) add(xs ...float64) error {
 		c.means[i] += delta[i] / count
 	}
 
+	// all sums of a single observation are 0; note that the powers of delta
+	// may overflow here, as it is not relative to the means yet
+	if c.count == 1 {
+		return nil
+	}
+
 	for _, tuple := range c.tuples {
 		err := iter(tuple, true, func(xs ...int) error {
 			a := Tuple(xs)
@@ -221,6 +227,12 @@ func (c *Core) addDecay(xs ...float64) error {
 		c.means[i] += decay * delta[i]
 	}
 
+	// all sums of a single observation are 0; note that the powers of delta
+	// may overflow here, as it is not relative to the means yet
+	if c.count == 1 {
+		return nil
+	}
+
 	for _, tuple := range c.tuples {
 		err := iter(tuple, true, func(xs ...int) error {
 			a := Tuple(xs)
diff --git a/moment/core.go b/moment/core.go
index 0348d60..2228219 100644
--- a/moment/core.go
+++ b/moment/core.go
@@ -111,6 +111,12 @@ func (c *Core) add(x float64) {
 	count := float64(c.count)
 	delta := x - c.mean
 	c.mean += delta / count
+	// all sums of a single value are 0; note that the powers of delta
+	// may overflow here, as it is not relative to a mean yet
+	if c.count == 1 {
+		return
+	}
+
 	for k := len(c.sums) - 1; k >= 2; k-- {
 		c.sums[k] +=
 			(count - 1) / math.Pow(count, float64(k)) *
@@ -143,6 +149,12 @@ func (c *Core) addDecay(x float64) {
 
 	delta := x - c.mean
 	c.mean += decay * delta
+	// all sums of a single value are 0; note that the powers of delta
+	// may overflow here, as it is not relative to a mean yet
+	if c.count == 1 {
+		return
+	}
+
 	for k := len(c.sums) - 1; k >= 2; k-- {
 		old := (1 - decay) * c.sums[k]
 		coeff := (1-decay)*math.Pow(-decay, float64(k)) + decay*math.Pow(1-decay, float64(k))
-- 
2.43.0


From a6c095cd543d2a39d8d2c2cbd26b067907262174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:38 +0000
Subject: [PATCH 15/18] fix: red-black root must be black, and red only while
 deleting

Deletions relied on the root or a child of it being red, which nothing
established, so that Remove could drop further nodes or crash.
---
 quantile/ost/rb/tree.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/quantile/ost/rb/tree.go b/quantile/ost/rb/tree.go
index 0f1573e..6d642c6 100644
--- a/quantile/ost/rb/tree.go
+++ b/quantile/ost/rb/tree.go
@@ -17,11 +17,24 @@ func (t *Tree) Size() int {
 // Add inserts a value into the tree.
 func (t *Tree) Add(val float64) {
 	t.root = t.root.add(val)
+	t.root.color = Black
 }
 
 // Remove deletes a value from the tree.
 func (t *Tree) Remove(val float64) {
+	if !t.root.contains(val) {
+		return
+	}
+
+	// a node must be red, or have a red child, when deleting from it
+	if t.root.left.Color() == Black && t.root.right.Color() == Black {
+		t.root.color = Red
+	}
+
 	t.root = t.root.remove(val)
+	if t.root != nil {
+		t.root.color = Black
+	}
 }
 
 // Select returns the node with the kth smallest value in the tree.
-- 
2.43.0


From ee774b32d9c649e234d46d6cdc53d59a0bf9d130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:38 +0000
Subject: [PATCH 16/18] fix: red-black Remove dropped nodes next to a duplicate
 of the value

If moveRedRight rotated a duplicate of the value to the top, the minimum
of its right-leaning right subtree was removed along with a child.
---
 quantile/ost/rb/node.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantile/ost/rb/node.go b/quantile/ost/rb/node.go
index 12eea97..93351ee 100644
--- a/quantile/ost/rb/node.go
+++ b/quantile/ost/rb/node.go
@@ -118,10 +118,13 @@ func (n *Node) remove(val float64) *Node {
 		if val == n.val && n.right == nil {
 			return nil
 		}
+		top := n
 		if n.right.Color() == Black && n.right.left.Color() == Black {
 			n = n.moveRedRight()
 		}
-		if val == n.val {
+		// if moveRedRight rotated a duplicate of the value to the top, then
+		// the value also is in the right subtree, and is removed from there
+		if n == top && val == n.val {
 			x := n.right.min()
 			n.val = x.val
 			n.right = n.right.removeMin()
-- 
2.43.0


From f5d8256551fbb27ac3fa49ba7d610e12b223a556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:44 +0000
Subject: [PATCH 17/18] fix: Config() of metrics shared the metric's own
 parameters with its caller

---
 joint/corr.go       |  4 +++-
 joint/cov.go        |  4 +++-
 joint/ewmcorr.go    |  2 +-
 joint/ewmcov.go     |  2 +-
 moment/ewma.go      |  2 +-
 moment/ewmmoment.go |  2 +-
 moment/kurtosis.go  | 10 +++++++++-
 moment/mean.go      |  4 +++-
 moment/moment.go    |  4 +++-
 moment/skewness.go  | 10 +++++++++-
 10 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/joint/corr.go b/joint/corr.go
index 2b35b65..fc279bc 100644
--- a/joint/corr.go
+++ b/joint/corr.go
@@ -5,6 +5,8 @@ import (
 	"math"
 
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // Corr is a metric that tracks the sample Pearson correlation coefficient.
@@ -42,7 +44,7 @@ func (corr *Corr) Config() *CoreConfig {
 			{2, 0},
 			{0, 2},
 		},
-		Window: &corr.window,
+		Window: stream.IntPtr(corr.window),
 	}
 }
 
diff --git a/joint/cov.go b/joint/cov.go
index f48e487..c6e2f7d 100644
--- a/joint/cov.go
+++ b/joint/cov.go
@@ -4,6 +4,8 @@ import (
 	"fmt"
 
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // Cov is a metric that tracks the sample covariance.
@@ -37,7 +39,7 @@ func (cov *Cov) IsSetCore() bool {
 func (cov *Cov) Config() *CoreConfig {
 	return &CoreConfig{
 		Sums:   SumsConfig{{1, 1}},
-		Window: &cov.window,
+		Window: stream.IntPtr(cov.window),
 	}
 }
 
diff --git a/joint/ewmcorr.go b/joint/ewmcorr.go
index 7009d35..7851220 100644
--- a/joint/ewmcorr.go
+++ b/joint/ewmcorr.go
@@ -39,7 +39,7 @@ func (corr *EWMCorr) Config() *CoreConfig {
 			{0, 2},
 		},
 		Window: stream.IntPtr(0),
-		Decay:  &corr.decay,
+		Decay:  stream.FloatPtr(corr.decay),
 	}
 }
 
diff --git a/joint/ewmcov.go b/joint/ewmcov.go
index 7c1f49e..f2e2e14 100644
--- a/joint/ewmcov.go
+++ b/joint/ewmcov.go
@@ -34,7 +34,7 @@ func (cov *EWMCov) Config() *CoreConfig {
 	return &CoreConfig{
 		Sums:   SumsConfig{{1, 1}},
 		Window: stream.IntPtr(0),
-		Decay:  &cov.decay,
+		Decay:  stream.FloatPtr(cov.decay),
 	}
 }
 
diff --git a/moment/ewma.go b/moment/ewma.go
index 83bffd5..3a34bb5 100644
--- a/moment/ewma.go
+++ b/moment/ewma.go
@@ -33,7 +33,7 @@ func (a *EWMA) IsSetCore() bool {
 func (a *EWMA) Config() *CoreConfig {
 	return &CoreConfig{
 		Window: stream.IntPtr(0),
-		Decay:  &a.decay,
+		Decay:  stream.FloatPtr(a.decay),
 	}
 }
 
diff --git a/moment/ewmmoment.go b/moment/ewmmoment.go
index 0549048..60d7cdd 100644
--- a/moment/ewmmoment.go
+++ b/moment/ewmmoment.go
@@ -42,7 +42,7 @@ func (m *EWMMoment) Config() *CoreConfig {
 		// weighting scheme that's used prevents weights from being
 		// updated in a time-efficient manner
 		Window: stream.IntPtr(0),
-		Decay:  &m.decay,
+		Decay:  stream.FloatPtr(m.decay),
 	}
 }
 
diff --git a/moment/kurtosis.go b/moment/kurtosis.go
index d512f5d..adbc1f7 100644
--- a/moment/kurtosis.go
+++ b/moment/kurtosis.go
@@ -5,6 +5,8 @@ import (
 	"math"
 
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // Kurtosis is a metric that tracks the sample excess kurtosis.
@@ -52,7 +54,13 @@ func (k *Kurtosis) IsSetCore() bool {
 
 // Config returns the CoreConfig needed.
 func (k *Kurtosis) Config() *CoreConfig {
-	return k.config
+	return &CoreConfig{
+		Sums: SumsConfig{
+			2: true,
+			4: true,
+		},
+		Window: stream.IntPtr(*k.config.Window),
+	}
 }
 
 // String returns a string representation of the metric.
diff --git a/moment/mean.go b/moment/mean.go
index 11f68da..9b2fd76 100644
--- a/moment/mean.go
+++ b/moment/mean.go
@@ -4,6 +4,8 @@ import (
 	"fmt"
 
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // Mean is a metric that tracks the mean.
@@ -36,7 +38,7 @@ func (m *Mean) IsSetCore() bool {
 // Config returns the CoreConfig needed.
 func (m *Mean) Config() *CoreConfig {
 	return &CoreConfig{
-		Window: &m.window,
+		Window: stream.IntPtr(m.window),
 	}
 }
 
diff --git a/moment/moment.go b/moment/moment.go
index 08ed84d..781a8d6 100644
--- a/moment/moment.go
+++ b/moment/moment.go
@@ -5,6 +5,8 @@ import (
 	"strings"
 
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // Moment is a metric that tracks the kth sample central moment.
@@ -42,7 +44,7 @@ func (m *Moment) IsSetCore() bool {
 func (m *Moment) Config() *CoreConfig {
 	return &CoreConfig{
 		Sums:   SumsConfig{m.k: true},
-		Window: &m.window,
+		Window: stream.IntPtr(m.window),
 	}
 }
 
diff --git a/moment/skewness.go b/moment/skewness.go
index 71efe51..302ce5a 100644
--- a/moment/skewness.go
+++ b/moment/skewness.go
@@ -5,6 +5,8 @@ import (
 	"math"
 
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // Skewness is a metric that tracks the adjusted Fisher-Pearson sample skewness.
@@ -52,7 +54,13 @@ func (s *Skewness) IsSetCore() bool {
 
 // Config returns the CoreConfig needed.
 func (s *Skewness) Config() *CoreConfig {
-	return s.config
+	return &CoreConfig{
+		Sums: SumsConfig{
+			2: true,
+			3: true,
+		},
+		Window: stream.IntPtr(*s.config.Window),
+	}
 }
 
 // String returns a string representation of the metric.
-- 
2.43.0


From cb2db3b9004a50a229309413977ee064e80c2001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:02 +0000
Subject: [PATCH 18/18] fix: average of two values overflowed in HeapMedian and
 midpoint interpolation

---
 quantile/heap_median.go   |  2 +-
 quantile/interpolation.go | 10 ++++++++++
 quantile/quantile.go      |  2 +-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/quantile/heap_median.go b/quantile/heap_median.go
index dfe9e57..1f86820 100644
--- a/quantile/heap_median.go
+++ b/quantile/heap_median.go
@@ -134,7 +134,7 @@ func (m *HeapMedian) Value() (float64, error) {
 		// otherwise, return average of the two tops
 		low := m.lowHeap.Peek()
 		high := m.highHeap.Peek()
-		return (low + high) / 2, nil
+		return midpoint(low, high), nil
 	}
 }
 
diff --git a/quantile/interpolation.go b/quantile/interpolation.go
index 5348a11..2fa2b70 100644
--- a/quantile/interpolation.go
+++ b/quantile/interpolation.go
@@ -1,5 +1,7 @@
 package quantile
 
+import "math"
+
 // Interpolation represents an enum that enumerates the
 // different interpolation methods that can be chosen
 // when retrieving quantile metrics. In particular,
@@ -40,3 +42,11 @@ func (i Interpolation) Valid() bool {
 		return false
 	}
 }
+
+// midpoint returns the average of two values, also if their sum overflows.
+func midpoint(x, y float64) float64 {
+	if mid := (x + y) / 2; !math.IsInf(mid, 0) {
+		return mid
+	}
+	return x/2 + y/2
+}
diff --git a/quantile/quantile.go b/quantile/quantile.go
index 4f306bf..60adc58 100644
--- a/quantile/quantile.go
+++ b/quantile/quantile.go
@@ -145,7 +145,7 @@ func (q *Quantile) unsafeValue(quantile float64) (float64, error) {
 	default:
 		lo := q.statistic.Select(idx).Value()
 		hi := q.statistic.Select(idx + 1).Value()
-		return (lo + hi) / 2., nil
+		return midpoint(lo, hi), nil
 	}
 }
 
-- 
2.43.0

