From 2efbf40522e068cb23ca71c159241c5f3e01f49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:46 +0000
Subject: [PATCH 01/22] fix: do not record a panicking refresh function as a
 successful refresh

---
 refreshcache/refreshcache.go   | 46 ++++++++++++++++------------------
 refreshcache0/refreshcache0.go | 46 ++++++++++++++++------------------
 refreshcache1/refreshcache1.go | 46 ++++++++++++++++------------------
 3 files changed, 66 insertions(+), 72 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index 07038b7..448cf75 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -111,35 +111,33 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
 		return data, *r.err.Load()
 	}
-	defer func() {
-		if err == nil {
-			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
-		} else {
-			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
-		}
-	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	if err == nil {
+		r.data.Store(&data)
+		atomic.StoreInt64(&r.last, time.Now().UnixNano())
+		atomic.StoreInt64(&r.lastErr, 0)
+	} else {
+		r.err.Store(&err)
+		atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+		atomic.StoreInt64(&r.last, 0)
+	}
+	return data, err
 }
 
 func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T, A], args ...A) (data T, err error) {
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	defer func() {
-		if err == nil {
-			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
-		} else {
-			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
-		}
-	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	if err == nil {
+		r.data.Store(&data)
+		atomic.StoreInt64(&r.last, time.Now().UnixNano())
+		atomic.StoreInt64(&r.lastErr, 0)
+	} else {
+		r.err.Store(&err)
+		atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+		atomic.StoreInt64(&r.last, 0)
+	}
+	return data, err
 }
 
 func (r *RefreshData[T, A]) Clear(ctx context.Context, clearFunc ClearFunc[T, A], args ...A) error {
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index de2749a..17975b5 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -111,35 +111,33 @@ func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (d
 	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
 		return data, *r.err.Load()
 	}
-	defer func() {
-		if err == nil {
-			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
-		} else {
-			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
-		}
-	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	if err == nil {
+		r.data.Store(&data)
+		atomic.StoreInt64(&r.last, time.Now().UnixNano())
+		atomic.StoreInt64(&r.lastErr, 0)
+	} else {
+		r.err.Store(&err)
+		atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+		atomic.StoreInt64(&r.last, 0)
+	}
+	return data, err
 }
 
 func (r *RefreshData[T]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T]) (data T, err error) {
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	defer func() {
-		if err == nil {
-			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
-		} else {
-			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
-		}
-	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	if err == nil {
+		r.data.Store(&data)
+		atomic.StoreInt64(&r.last, time.Now().UnixNano())
+		atomic.StoreInt64(&r.lastErr, 0)
+	} else {
+		r.err.Store(&err)
+		atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+		atomic.StoreInt64(&r.last, 0)
+	}
+	return data, err
 }
 
 func (r *RefreshData[T]) Clear(ctx context.Context, clearFunc ClearFunc[T]) error {
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index 5d6a894..b424548 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -111,35 +111,33 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
 		return data, *r.err.Load()
 	}
-	defer func() {
-		if err == nil {
-			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
-		} else {
-			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
-		}
-	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	if err == nil {
+		r.data.Store(&data)
+		atomic.StoreInt64(&r.last, time.Now().UnixNano())
+		atomic.StoreInt64(&r.lastErr, 0)
+	} else {
+		r.err.Store(&err)
+		atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+		atomic.StoreInt64(&r.last, 0)
+	}
+	return data, err
 }
 
 func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T, A], args A) (data T, err error) {
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	defer func() {
-		if err == nil {
-			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
-		} else {
-			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
-		}
-	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	if err == nil {
+		r.data.Store(&data)
+		atomic.StoreInt64(&r.last, time.Now().UnixNano())
+		atomic.StoreInt64(&r.lastErr, 0)
+	} else {
+		r.err.Store(&err)
+		atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+		atomic.StoreInt64(&r.last, 0)
+	}
+	return data, err
 }
 
 func (r *RefreshData[T, A]) Clear(ctx context.Context, clearFunc ClearFunc[T, A], args A) error {
-- 
2.43.0


From 35774b50532aabd028e80ada7c6228556ab5bcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:24 +0000
Subject: [PATCH 02/22] fix: a refresh cache without a value or error is never
 fresh, however large the ages

---
 refreshcache/refreshcache.go   | 12 ++++++------
 refreshcache0/refreshcache0.go | 12 ++++++------
 refreshcache1/refreshcache1.go | 12 ++++++------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index 448cf75..e844fa3 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -97,18 +97,18 @@ var OldValKey = oldVal{}
 
 func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T, A], args ...A) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if (r.maxAge < 0 && r.last > 0) || (time.Now().UnixNano()-r.last < r.maxAge) {
+	if r.last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-r.last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	if r.errAge > 0 && r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
@@ -176,10 +176,10 @@ func (r *RefreshData[T, A]) MaxErrAge() int64 {
 
 func (r *RefreshData[T, A]) Raw() (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index 17975b5..440e679 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -97,18 +97,18 @@ var OldValKey = oldVal{}
 
 func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if (r.maxAge < 0 && r.last > 0) || (time.Now().UnixNano()-r.last < r.maxAge) {
+	if r.last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-r.last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	if r.errAge > 0 && r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
@@ -176,10 +176,10 @@ func (r *RefreshData[T]) MaxErrAge() int64 {
 
 func (r *RefreshData[T]) Raw() (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index b424548..db61165 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -97,18 +97,18 @@ var OldValKey = oldVal{}
 
 func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T, A], args A) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if (r.maxAge < 0 && r.last > 0) || (time.Now().UnixNano()-r.last < r.maxAge) {
+	if r.last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-r.last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	if r.errAge > 0 && r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
@@ -176,10 +176,10 @@ func (r *RefreshData[T, A]) MaxErrAge() int64 {
 
 func (r *RefreshData[T, A]) Raw() (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
-- 
2.43.0


From a5eb1c8bcb4e2d7c26c3f319ecaa64aca1910304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:04 +0000
Subject: [PATCH 03/22] fix: keep RWMap.Len in step with the entries dropped by
 a concurrent Clear

---
 rwmap/rwmap.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/rwmap/rwmap.go b/rwmap/rwmap.go
index c6da47d..62cb352 100644
--- a/rwmap/rwmap.go
+++ b/rwmap/rwmap.go
@@ -521,10 +521,25 @@ func (m *RWMap[K, V]) Clear() {
 		m.read.Store(&readOnly[K, V]{})
 	}
 
+	// Retire the dropped entries, so that operations that still hold one of them
+	// neither change nor count it any more and fall back to the locked path.
+	for _, e := range read.m {
+		m.retireLocked(e)
+	}
+	for _, e := range m.dirty {
+		m.retireLocked(e)
+	}
 	clear(m.dirty)
 	// Don't immediately promote the newly-cleared dirty map on the next operation.
 	m.misses = 0
-	m.len = 0
+}
+
+// retireLocked expunges an entry that is no longer part of the map.
+func (m *RWMap[K, V]) retireLocked(e *entry[V]) {
+	p := e.p.Swap((*V)(expunged))
+	if p != nil && uintptr(unsafe.Pointer(p)) != expungedUintptr {
+		atomic.AddInt64(&m.len, -1)
+	}
 }
 
 func (m *RWMap[K, V]) Len() (n int64) {
-- 
2.43.0


From a44db976c5b772b4e526a886e3aa277925b86f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:21 +0000
Subject: [PATCH 04/22] fix: do not count a key whose RWMap store panicked

---
 rwmap/rwmap.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rwmap/rwmap.go b/rwmap/rwmap.go
index 62cb352..6ec55bc 100644
--- a/rwmap/rwmap.go
+++ b/rwmap/rwmap.go
@@ -205,14 +205,15 @@ func (e *entry[V]) swapLocked(i *V) *V {
 // Otherwise, it stores and returns the given value.
 // The loaded result is true if the value was loaded, false if stored.
 func (m *RWMap[K, V]) LoadOrStore(key K, value V) (actual V, loaded bool) {
+	read := m.loadReadOnly()
+	e, ok := read.m[key] // panics if key is unhashable: before anything is counted
 	defer func() {
 		if !loaded {
 			atomic.AddInt64(&m.len, 1)
 		}
 	}()
 	// Avoid locking if it's a clean hit.
-	read := m.loadReadOnly()
-	if e, ok := read.m[key]; ok {
+	if ok {
 		actual, loaded, ok := e.tryLoadOrStore(value)
 		if ok {
 			return actual, loaded
@@ -342,13 +343,14 @@ func (e *entry[V]) trySwap(i *V) (*V, bool) {
 // Swap swaps the value for a key and returns the previous value if any.
 // The loaded result reports whether the key was present.
 func (m *RWMap[K, V]) Swap(key K, value V) (previous V, loaded bool) {
+	read := m.loadReadOnly()
+	e, ok := read.m[key] // panics if key is unhashable: before anything is counted
 	defer func() {
 		if !loaded {
 			atomic.AddInt64(&m.len, 1)
 		}
 	}()
-	read := m.loadReadOnly()
-	if e, ok := read.m[key]; ok {
+	if ok {
 		if v, ok := e.trySwap(&value); ok {
 			if v == nil {
 				return
-- 
2.43.0


From 0b93f6d096d5abf10853a5ef3fe44c20d92edf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:21 +0000
Subject: [PATCH 05/22] fix: SyncCache.LoadOrStore retries instead of returning
 an expired entry

---
 synccache/synccache.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/synccache/synccache.go b/synccache/synccache.go
index 76ca2d0..8ef940d 100644
--- a/synccache/synccache.go
+++ b/synccache/synccache.go
@@ -99,10 +99,7 @@ func (sc *SyncCache[K, V]) LoadOrStore(key K, value V, expire time.Duration) (ac
 		if !e.IsExpired() {
 			return e, true
 		}
-		if sc.CompareAndDelete(key, e) {
-			continue
-		}
-		return e, true
+		sc.CompareAndDelete(key, e)
 	}
 }
 
-- 
2.43.0


From 7ae2596ddf09b113de80b3639e949d0bcb1d0b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:39 +0000
Subject: [PATCH 06/22] fix: read the refresh time atomically under the lock,
 it races with Clear

---
 refreshcache/refreshcache.go   | 3 ++-
 refreshcache0/refreshcache0.go | 3 ++-
 refreshcache1/refreshcache1.go | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index e844fa3..5d50064 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -105,7 +105,8 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if r.last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-r.last < r.maxAge) {
+	last = atomic.LoadInt64(&r.last)
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
 	if r.errAge > 0 && r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index 440e679..755051c 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -105,7 +105,8 @@ func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (d
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if r.last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-r.last < r.maxAge) {
+	last = atomic.LoadInt64(&r.last)
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
 	if r.errAge > 0 && r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index db61165..5333c41 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -105,7 +105,8 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if r.last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-r.last < r.maxAge) {
+	last = atomic.LoadInt64(&r.last)
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
 	if r.errAge > 0 && r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
-- 
2.43.0


From 54a380e75a0f95e251226bc552b78d0d1cc6f746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:47 +0000
Subject: [PATCH 07/22] fix: align the 64-bit atomics of RWMap and SyncCache
 entries on 32-bit platforms

---
 rwmap/rwmap.go         | 14 +++++++-------
 synccache/item.go      | 15 +++++++--------
 synccache/synccache.go |  3 +--
 3 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/rwmap/rwmap.go b/rwmap/rwmap.go
index 6ec55bc..0a20ec9 100644
--- a/rwmap/rwmap.go
+++ b/rwmap/rwmap.go
@@ -58,7 +58,7 @@ type RWMap[K comparable, V any] struct {
 	// making a shallow copy of the clean map, omitting stale entries.
 	dirty map[K]*entry[V]
 
-	len int64
+	len atomic.Int64
 
 	// misses counts the number of loads since the read map was last updated that
 	// needed to lock mu to determine whether the key was present.
@@ -209,7 +209,7 @@ func (m *RWMap[K, V]) LoadOrStore(key K, value V) (actual V, loaded bool) {
 	e, ok := read.m[key] // panics if key is unhashable: before anything is counted
 	defer func() {
 		if !loaded {
-			atomic.AddInt64(&m.len, 1)
+			m.len.Add(1)
 		}
 	}()
 	// Avoid locking if it's a clean hit.
@@ -282,7 +282,7 @@ func (e *entry[V]) tryLoadOrStore(i V) (actual V, loaded, ok bool) {
 func (m *RWMap[K, V]) LoadAndDelete(key K) (value V, loaded bool) {
 	defer func() {
 		if loaded {
-			atomic.AddInt64(&m.len, -1)
+			m.len.Add(-1)
 		}
 	}()
 	read := m.loadReadOnly()
@@ -347,7 +347,7 @@ func (m *RWMap[K, V]) Swap(key K, value V) (previous V, loaded bool) {
 	e, ok := read.m[key] // panics if key is unhashable: before anything is counted
 	defer func() {
 		if !loaded {
-			atomic.AddInt64(&m.len, 1)
+			m.len.Add(1)
 		}
 	}()
 	if ok {
@@ -427,7 +427,7 @@ func (m *RWMap[K, V]) CompareAndSwap(key K, old, new V) (swapped bool) {
 func (m *RWMap[K, V]) CompareAndDelete(key K, old V) (deleted bool) {
 	defer func() {
 		if deleted {
-			atomic.AddInt64(&m.len, -1)
+			m.len.Add(-1)
 		}
 	}()
 	read := m.loadReadOnly()
@@ -540,12 +540,12 @@ func (m *RWMap[K, V]) Clear() {
 func (m *RWMap[K, V]) retireLocked(e *entry[V]) {
 	p := e.p.Swap((*V)(expunged))
 	if p != nil && uintptr(unsafe.Pointer(p)) != expungedUintptr {
-		atomic.AddInt64(&m.len, -1)
+		m.len.Add(-1)
 	}
 }
 
 func (m *RWMap[K, V]) Len() (n int64) {
-	return atomic.LoadInt64(&m.len)
+	return m.len.Load()
 }
 
 func (m *RWMap[K, V]) SlowLen() (n int64) {
diff --git a/synccache/item.go b/synccache/item.go
index 9a0bfd6..bc6c54e 100644
--- a/synccache/item.go
+++ b/synccache/item.go
@@ -7,14 +7,13 @@ import (
 
 type Entry[V any] struct {
 	value      V
-	expiration int64
+	expiration atomic.Int64
 }
 
 func NewEntry[V any](value V, expire time.Duration) *Entry[V] {
-	return &Entry[V]{
-		expiration: time.Now().Add(expire).UnixMilli(),
-		value:      value,
-	}
+	e := &Entry[V]{value: value}
+	e.expiration.Store(time.Now().Add(expire).UnixMilli())
+	return e
 }
 
 func (e *Entry[V]) Value() V {
@@ -22,13 +21,13 @@ func (e *Entry[V]) Value() V {
 }
 
 func (e *Entry[V]) IsExpired() bool {
-	return time.Now().UnixMilli() > atomic.LoadInt64(&e.expiration)
+	return time.Now().UnixMilli() > e.expiration.Load()
 }
 
 func (e *Entry[V]) AddExpiration(d time.Duration) {
-	atomic.AddInt64(&e.expiration, int64(d.Milliseconds()))
+	e.expiration.Add(int64(d.Milliseconds()))
 }
 
 func (e *Entry[V]) SetExpiration(t time.Time) {
-	atomic.StoreInt64(&e.expiration, t.UnixMilli())
+	e.expiration.Store(t.UnixMilli())
 }
diff --git a/synccache/synccache.go b/synccache/synccache.go
index 8ef940d..6eba1dd 100644
--- a/synccache/synccache.go
+++ b/synccache/synccache.go
@@ -3,7 +3,6 @@ package synccache
 import (
 	"reflect"
 	"sync"
-	"sync/atomic"
 	"time"
 
 	"github.com/zijiren233/gencontainer/rwmap"
@@ -67,7 +66,7 @@ func (sc *SyncCache[K, V]) Close() {
 func (sc *SyncCache[K, V]) trim() {
 	now := time.Now().UnixMilli()
 	sc.cache.Range(func(key K, value *Entry[V]) bool {
-		if now > atomic.LoadInt64(&value.expiration) {
+		if now > value.expiration.Load() {
 			sc.CompareAndDelete(key, value)
 		}
 		return true
-- 
2.43.0


From 37dea853fc11a7121df2144b319c933ab6ddd951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:26 +0000
Subject: [PATCH 08/22] fix: Vec.Cut returns the removed elements, not the
 storage they are overwritten in

---
 vec/vec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vec/vec.go b/vec/vec.go
index f04bf33..4c4d8bb 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -258,7 +258,7 @@ func (v *Vec[T]) Cut(i, j int) (e []T) {
 	if i < 0 || j > v.Len() || i > j {
 		return
 	}
-	val := v.d[i:j]
+	val := slices.Clone(v.d[i:j])
 	v.d = append(v.d[:i], v.d[j:]...)
 	return val
 }
-- 
2.43.0


From ce32b568b66afd7104d0b8f50a61e70c50ec5ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:26 +0000
Subject: [PATCH 09/22] fix: Vec's built-in comparisons of pointer elements
 compare what they point to

---
 vec/vec.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vec/vec.go b/vec/vec.go
index 4c4d8bb..e0416d4 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -45,19 +45,19 @@ func (v *Vec[T]) autoDetectSetCmpLess() *Vec[T] {
 	switch reflectType.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		v.cmpLess = func(a, b T) bool {
-			return reflect.ValueOf(a).Int() < reflect.ValueOf(b).Int()
+			return reflect.Indirect(reflect.ValueOf(a)).Int() < reflect.Indirect(reflect.ValueOf(b)).Int()
 		}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		v.cmpLess = func(a, b T) bool {
-			return reflect.ValueOf(a).Uint() < reflect.ValueOf(b).Uint()
+			return reflect.Indirect(reflect.ValueOf(a)).Uint() < reflect.Indirect(reflect.ValueOf(b)).Uint()
 		}
 	case reflect.Float32, reflect.Float64:
 		v.cmpLess = func(a, b T) bool {
-			return reflect.ValueOf(a).Float() < reflect.ValueOf(b).Float()
+			return reflect.Indirect(reflect.ValueOf(a)).Float() < reflect.Indirect(reflect.ValueOf(b)).Float()
 		}
 	case reflect.String:
 		v.cmpLess = func(a, b T) bool {
-			return natural.Less(reflect.ValueOf(a).String(), reflect.ValueOf(b).String())
+			return natural.Less(reflect.Indirect(reflect.ValueOf(a)).String(), reflect.Indirect(reflect.ValueOf(b)).String())
 		}
 
 	default:
@@ -77,19 +77,19 @@ func (v *Vec[T]) autoDetectSetCmpEqual() *Vec[T] {
 	switch reflectType.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).Int() == reflect.ValueOf(b).Int()
+			return reflect.Indirect(reflect.ValueOf(a)).Int() == reflect.Indirect(reflect.ValueOf(b)).Int()
 		}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).Uint() == reflect.ValueOf(b).Uint()
+			return reflect.Indirect(reflect.ValueOf(a)).Uint() == reflect.Indirect(reflect.ValueOf(b)).Uint()
 		}
 	case reflect.Float32, reflect.Float64:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).Float() == reflect.ValueOf(b).Float()
+			return reflect.Indirect(reflect.ValueOf(a)).Float() == reflect.Indirect(reflect.ValueOf(b)).Float()
 		}
 	case reflect.String:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).String() == reflect.ValueOf(b).String()
+			return reflect.Indirect(reflect.ValueOf(a)).String() == reflect.Indirect(reflect.ValueOf(b)).String()
 		}
 	default:
 		panic("warning: auto detect type failed, please set cmp equal manually or use WithCmpEqual when create vec")
-- 
2.43.0


From c7b12889d7bb97b153350d8c5de5611bb8e21a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:26 +0000
Subject: [PATCH 10/22] fix: Vec's built-in order puts NaNs before other
 values, as documented

---
 vec/vec.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vec/vec.go b/vec/vec.go
index e0416d4..1d346e9 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -53,7 +53,8 @@ func (v *Vec[T]) autoDetectSetCmpLess() *Vec[T] {
 		}
 	case reflect.Float32, reflect.Float64:
 		v.cmpLess = func(a, b T) bool {
-			return reflect.Indirect(reflect.ValueOf(a)).Float() < reflect.Indirect(reflect.ValueOf(b)).Float()
+			fa, fb := reflect.Indirect(reflect.ValueOf(a)).Float(), reflect.Indirect(reflect.ValueOf(b)).Float()
+			return fa < fb || (fa != fa && fb == fb)
 		}
 	case reflect.String:
 		v.cmpLess = func(a, b T) bool {
-- 
2.43.0


From 20c0c36bd681168866da44abb9011f81acb999bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:26 +0000
Subject: [PATCH 11/22] fix: a cloned or split off Vec keeps its comparisons
 when the source's change

---
 vec/vec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vec/vec.go b/vec/vec.go
index 1d346e9..5d80381 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -270,7 +270,7 @@ func (v *Vec[T]) Cut(i, j int) (e []T) {
 //
 // data dont overwrite each other.
 func (v *Vec[T]) SplitOff(i int) *Vec[T] {
-	return New[T](WithCmpLess(v.CmpLess), WithCmpEqual(v.CmpEqual)).Push(v.Cut(i, v.Len())...)
+	return New[T](WithCmpLess(v.cmpLess), WithCmpEqual(v.cmpEqual)).Push(v.Cut(i, v.Len())...)
 }
 
 func (v *Vec[T]) Swap(i, j int) {
@@ -320,7 +320,7 @@ func (v *Vec[T]) Clip() *Vec[T] {
 }
 
 func (v *Vec[T]) Clone() *Vec[T] {
-	return New[T](WithCmpLess(v.CmpLess), WithCmpEqual(v.CmpEqual)).Push(v.d...)
+	return New[T](WithCmpLess(v.cmpLess), WithCmpEqual(v.cmpEqual)).Push(v.d...)
 }
 
 func (v *Vec[T]) CloneToSlice() []T {
-- 
2.43.0


From adadf1f83a9eed7a36656eb3aee8f16c568b35c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:31 +0000
Subject: [PATCH 12/22] fix: Set.IsSupperSet returns whether s is a superset,
 not the opposite

---
 set/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/set/set.go b/set/set.go
index e8e8b1f..1361870 100644
--- a/set/set.go
+++ b/set/set.go
@@ -112,7 +112,7 @@ func (s Set[T]) IsSubSet(set Set[T]) (b bool) {
 
 // If s is a supper set of set, return true.
 func (s Set[T]) IsSupperSet(set Set[T]) (b bool) {
-	return !set.IsSubSet(s)
+	return set.IsSubSet(s)
 }
 
 // Contains all elements in the original s but not in the set
-- 
2.43.0


From c208f1f111327a364b454bbd4fd3434eb2bdfe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:31 +0000
Subject: [PATCH 13/22] fix: GenMap.LoadOrStore returns the value it stored

---
 genmap/genmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genmap/genmap.go b/genmap/genmap.go
index 9bf9b80..35b4ac4 100644
--- a/genmap/genmap.go
+++ b/genmap/genmap.go
@@ -66,7 +66,7 @@ func (m GenMap[K, V]) LoadOrStore(k K, v V) (actual V, loaded bool) {
 		return
 	}
 	m[k] = v
-	return
+	return v, false
 }
 
 func (m GenMap[K, V]) LoadOrStoreFunc(k K, newFunc func() V) (actual V, loaded bool) {
-- 
2.43.0


From b8be2302b52f6cfe7977706967db6ab86a8f3ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:31 +0000
Subject: [PATCH 14/22] fix: detach the elements of a cleared or sorted list

---
 dllist/dllist.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dllist/dllist.go b/dllist/dllist.go
index 3c0a33c..8bff6ce 100644
--- a/dllist/dllist.go
+++ b/dllist/dllist.go
@@ -16,6 +16,11 @@ func New[T any]() *Dllist[T] {
 }
 
 func (l *Dllist[T]) Clear() *Dllist[T] {
+	for e := l.root.next; e != nil && e != &l.root; {
+		next := e.next
+		e.next, e.prev, e.list = nil, nil, nil
+		e = next
+	}
 	l.root.next = &l.root
 	l.root.prev = &l.root
 	l.len = 0
-- 
2.43.0


From 9b246d006b82d13f3d10d333eeacf5a3a091ed1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:32 +0000
Subject: [PATCH 15/22] fix: PushBackListTo and PushFrontListTo of a list into
 itself copy it once

---
 dllist/dllist.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dllist/dllist.go b/dllist/dllist.go
index 8bff6ce..480c67c 100644
--- a/dllist/dllist.go
+++ b/dllist/dllist.go
@@ -186,8 +186,9 @@ func (l *Dllist[T]) PushBackListTo(other *Dllist[T], mark *Element[T]) {
 	if mark.list != l {
 		return
 	}
-	for i, e := other.len, other.Front(); i > 0; i, e = i-1, e.Next() {
-		l.insertValue(e.Value, mark)
+	// Copy first: other may be l itself.
+	for _, v := range other.Slice() {
+		l.insertValue(v, mark)
 	}
 }
 
@@ -202,8 +203,10 @@ func (l *Dllist[T]) PushFrontListTo(other *Dllist[T], mark *Element[T]) {
 	if mark.list != l {
 		return
 	}
-	for i, e := other.len, other.Back(); i > 0; i, e = i-1, e.Prev() {
-		l.insertValue(e.Value, mark)
+	// Copy first: other may be l itself.
+	s := other.Slice()
+	for i := len(s) - 1; i >= 0; i-- {
+		l.insertValue(s[i], mark)
 	}
 }
 
-- 
2.43.0


From 20ec88f8d3dcb84e3e0f3f0f52d52bd7619c6d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:33 +0000
Subject: [PATCH 16/22] fix: order colliding hash ring points by node and never
 return a colliding key that is no member

---
 hashring/hashring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hashring/hashring.go b/hashring/hashring.go
index 75d02aa..8fc96c9 100644
--- a/hashring/hashring.go
+++ b/hashring/hashring.go
@@ -26,10 +26,10 @@ func New[Node constraints.Ordered](replicas int) *HashRing[Node] {
 		rawNodes: set.New[Node](),
 		nodes: vec.New[node[Node]](
 			vec.WithCmpLess(func(t1, t2 node[Node]) bool {
-				return t1.hash < t2.hash
+				return t1.hash < t2.hash || (t1.hash == t2.hash && t1.Node < t2.Node)
 			}),
 			vec.WithCmpEqual(func(t1, t2 node[Node]) bool {
-				return t1.hash == t2.hash
+				return t1.hash == t2.hash && t1.Node == t2.Node
 			})),
 	}
 	return hr
-- 
2.43.0


From 20f7a7862f227bd8070b5c923a666c8624633c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:33 +0000
Subject: [PATCH 17/22] fix: unrelated tree nodes are not descendants

---
 tree/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/tree.go b/tree/tree.go
index 497786b..3261eca 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -164,7 +164,7 @@ func (n *Node[T]) IsAncestorRelation(node *Node[T]) bool {
 }
 
 func (n *Node[T]) IsDescendantRelation(node *Node[T]) bool {
-	return !node.IsAncestorRelation(n)
+	return node != n && n.IsAncestorRelation(node)
 }
 
 func (n *Node[T]) HasLeft() bool {
-- 
2.43.0


From 001e44e1e836515d4a277e643fc25d0b5e4ad360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:33 +0000
Subject: [PATCH 18/22] fix: attaching a tree node detaches it from its
 previous place

---
 tree/tree.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/tree/tree.go b/tree/tree.go
index 3261eca..7d69508 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -67,6 +67,9 @@ func (n *Node[T]) SetLeft(left *Node[T]) (old *Node[T]) {
 	if n.Left != nil {
 		n.Left.Parent = nil
 	}
+	if left != nil {
+		left.detach()
+	}
 	n.Left = left
 	if left != nil {
 		left.Parent = n
@@ -79,6 +82,9 @@ func (n *Node[T]) SetRight(right *Node[T]) (old *Node[T]) {
 	if n.Right != nil {
 		n.Right.Parent = nil
 	}
+	if right != nil {
+		right.detach()
+	}
 	n.Right = right
 	if right != nil {
 		right.Parent = n
@@ -86,6 +92,16 @@ func (n *Node[T]) SetRight(right *Node[T]) (old *Node[T]) {
 	return old
 }
 
+// detach removes the node from its parent.
+func (n *Node[T]) detach() {
+	if n.IsLeft() {
+		n.Parent.Left = nil
+	} else if n.IsRight() {
+		n.Parent.Right = nil
+	}
+	n.Parent = nil
+}
+
 func (n *Node[T]) IsLeaf() bool {
 	return !n.HasChild()
 }
-- 
2.43.0


From 3ddc22c0e352121623769236ada61b71a7347af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:34 +0000
Subject: [PATCH 19/22] fix: DrawTree writes one line per layer, however deep
 or sparse the tree

---
 tree/tree.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/tree/tree.go b/tree/tree.go
index 7d69508..8795ec1 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -42,22 +42,15 @@ func BuildTree[T any](val []T) (root *Node[T]) {
 
 func (n *Node[T]) DrawTree() string {
 	builder := strings.Builder{}
-	layer := 0
-	count := 0
-	for _, node := range n.TraversalBFS() {
+	for layer, nodes := range n.traversalBFS(nil, 0) {
 		if layer == 0 {
-			builder.WriteString(fmt.Sprintf("%v\n", node.Val))
-			layer++
+			builder.WriteString(fmt.Sprintf("%v\n", nodes[0].Val))
 			continue
 		}
-		builder.WriteString(fmt.Sprintf("%v\t", node.Val))
-		count++
-		if layer*2 == count {
-			builder.WriteRune('\n')
-			layer++
-			count = 0
-			continue
+		for _, node := range nodes {
+			builder.WriteString(fmt.Sprintf("%v\t", node.Val))
 		}
+		builder.WriteRune('\n')
 	}
 	return builder.String()
 }
-- 
2.43.0


From 2d834f69399ebd6235975b5b89e5b6204becadee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:34 +0000
Subject: [PATCH 20/22] fix: TraversalDFS of an empty tree is empty

---
 tree/tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/tree.go b/tree/tree.go
index 8795ec1..79d2a36 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -226,6 +226,9 @@ func (n *Node[T]) MaxDepth() int {
 }
 
 func (n *Node[T]) TraversalDFS() (res []*Node[T]) {
+	if n == nil {
+		return
+	}
 	queue := []*Node[T]{n}
 	if n.IsLeaf() {
 		return queue
-- 
2.43.0


From 4470045c9179fb1b8031c34ae7109027316100f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:25 +0000
Subject: [PATCH 21/22] fix: Dllist.Sort needed memory and time quadratic in
 the length for sorted or equal values

The first element was the pivot and every level of the recursion held copies of
the rest of the list, so sorting 40 000 already sorted (or equal) values ran out
of memory. Sort the values in a slice, stably as before.
---
 dllist/dllist.go | 34 +++++++---------------------------
 1 file changed, 7 insertions(+), 27 deletions(-)

diff --git a/dllist/dllist.go b/dllist/dllist.go
index 480c67c..ac81efb 100644
--- a/dllist/dllist.go
+++ b/dllist/dllist.go
@@ -1,6 +1,8 @@
 // doubly linked list
 package dllist
 
+import "sort"
+
 // Dllist represents a doubly linked list.
 type Dllist[Item any] struct {
 	root Element[Item]
@@ -265,33 +267,11 @@ func (l *Dllist[T]) Sort(cmpLess func(T, T) bool) {
 		return
 	}
 
-	pivot := l.Front().Value
-	smaller := New[T]()
-	larger := New[T]()
-
-	l.Front().Next().Range(func(e *Element[T]) bool {
-		if cmpLess(e.Value, pivot) {
-			smaller.PushBack(e.Value)
-		} else {
-			larger.PushBack(e.Value)
-		}
-		return true
-	})
-
-	smaller.Sort(cmpLess)
-	larger.Sort(cmpLess)
+	s := l.Slice()
+	sort.SliceStable(s, func(i, j int) bool { return cmpLess(s[i], s[j]) })
 
 	l.Clear()
-
-	smaller.Range(func(e *Element[T]) (Continue bool) {
-		l.PushBack(e.Value)
-		return true
-	})
-
-	l.PushBack(pivot)
-
-	larger.Range(func(e *Element[T]) (Continue bool) {
-		l.PushBack(e.Value)
-		return true
-	})
+	for _, v := range s {
+		l.PushBack(v)
+	}
 }
-- 
2.43.0


From 2b6a6760cfa90c0b4c0cffeb3d741d5a5d7ff43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:34 +0000
Subject: [PATCH 22/22] fix: SyncCache.CompareValueAndDelete failed although an
 equal value was stored all along

---
 synccache/synccache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/synccache/synccache.go b/synccache/synccache.go
index 6eba1dd..8f8f8e4 100644
--- a/synccache/synccache.go
+++ b/synccache/synccache.go
@@ -134,7 +134,8 @@ func (sc *SyncCache[K, V]) CompareAndDelete(key K, oldEntry *Entry[V]) (success
 
 func (sc *SyncCache[K, V]) CompareValueAndDelete(key K, oldValue V) (success bool) {
 	if e, ok := sc.Load(key); ok && reflect.ValueOf(oldValue).Equal(reflect.ValueOf(e.value)) {
-		return sc.CompareAndDelete(key, e)
+		// If another entry has taken its place meanwhile, that one may match as well.
+		return sc.CompareAndDelete(key, e) || sc.CompareValueAndDelete(key, oldValue)
 	}
 	return false
 }
-- 
2.43.0

