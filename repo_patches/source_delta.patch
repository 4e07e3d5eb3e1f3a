From c6aaf28b71a5b4b7a2eaca9e0f11443f44eb3323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 01/50] fix: memory queue panics when URLs are enqueued while
 Wait() returns

Reusing a WaitGroup while waiters are being released is not allowed, count
the URLs that are not done under the queue's lock instead.
---
 queue.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/queue.go b/queue.go
index 01d3a91..2107817 100644
--- a/queue.go
+++ b/queue.go
@@ -53,7 +53,7 @@ type memoryQueue struct {
 	pending URLs
 	cond    *sync.Cond
 	stopped bool
-	wg      *sync.WaitGroup
+	unacked int // enqueued URLs that are not done or discarded.
 }
 
 // MemoryQueue returns a new memory queue.
@@ -62,7 +62,7 @@ func MemoryQueue(size int) Queue {
 		pending: make(URLs, 0, size),
 		cond:    sync.NewCond(&sync.RWMutex{}),
 		stopped: false,
-		wg:      &sync.WaitGroup{},
+		unacked: 0,
 	}
 }
 
@@ -84,7 +84,7 @@ func (mq *memoryQueue) Enqueue(ctx context.Context, urls URLs) error {
 	}
 
 	mq.pending = append(mq.pending, urls...)
-	mq.wg.Add(len(urls))
+	mq.unacked += len(urls)
 	mq.cond.Broadcast()
 
 	return nil
@@ -113,13 +113,24 @@ func (mq *memoryQueue) Dequeue(ctx context.Context) (*URL, error) {
 
 // Done implementation.
 func (mq *memoryQueue) Done(_ context.Context, _ *URL) error {
-	mq.wg.Done()
+	mq.cond.L.Lock()
+	defer mq.cond.L.Unlock()
+
+	if mq.unacked--; mq.unacked == 0 {
+		mq.cond.Broadcast()
+	}
+
 	return nil
 }
 
 // Wait implementation.
 func (mq *memoryQueue) Wait() {
-	mq.wg.Wait()
+	mq.cond.L.Lock()
+	defer mq.cond.L.Unlock()
+
+	for mq.unacked > 0 {
+		mq.cond.Wait()
+	}
 }
 
 // Close implementation.
@@ -127,11 +138,8 @@ func (mq *memoryQueue) Close(_ context.Context) error {
 	mq.cond.L.Lock()
 	defer mq.cond.L.Unlock()
 
-	for range mq.pending {
-		mq.wg.Done()
-	}
-
 	mq.stopped = true
+	mq.unacked -= len(mq.pending)
 	mq.pending = mq.pending[:0]
 	mq.cond.Broadcast()
 	return nil
-- 
2.43.0


From 6a490638463411c04d1a95171bd53c65edffce94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 02/50] fix: Run() hangs when canceled while waiting for the
 semaphore

The dequeued URL was dropped without acknowledging it, so that the queue's
Wait() never returned.
---
 engine.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engine.go b/engine.go
index eda6204..c519795 100644
--- a/engine.go
+++ b/engine.go
@@ -229,6 +229,7 @@ func (eng *Engine) run(ctx context.Context) error {
 
 		if eng.sema != nil {
 			if err := eng.sema.Acquire(ctx, 1); err != nil {
+				eng.queue.Done(ctx, url)
 				return err
 			}
 		}
-- 
2.43.0


From f73e85a345008630844a063987d026394236dfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 03/50] fix: stop all workers when one of them fails

Every worker had its own errgroup, an error only canceled the worker that saw
it and the others kept crawling, Run() returned once they ran out of URLs.
Workers now share Run()'s group, so it also waits for URLs in progress when
a worker stops early.

When the crawl is canceled the reason could be masked by the io.EOF of an
enqueue to the closed queue, or lost because a worker returned nil.
---
 engine.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/engine.go b/engine.go
index c519795..6a29b67 100644
--- a/engine.go
+++ b/engine.go
@@ -146,7 +146,7 @@ func (eng *Engine) Run(ctx context.Context, urls ...string) error {
 	for i := 0; i < eng.workers; i++ {
 		eg.Go(func() error {
 			defer eng.queue.Close(ctx)
-			return eng.run(subctx)
+			return eng.run(subctx, eg)
 		})
 	}
 
@@ -214,14 +214,15 @@ func (eng *Engine) enqueue(ctx context.Context, batch URLs) error {
 //
 // The worker is in charge of fetching a url from
 // the queue, creating a page and then calling the scraper.
-func (eng *Engine) run(ctx context.Context) error {
-	eg, subctx := errgroup.WithContext(ctx)
+//
+// All workers share the group, and its context, so that an
+// error from any of the URLs stops all of them.
+func (eng *Engine) run(ctx context.Context, eg *errgroup.Group) error {
 	for {
 		url, err := eng.queue.Dequeue(ctx)
 
-		if errors.Is(err, io.EOF) ||
-			errors.Is(err, context.Canceled) {
-			return eg.Wait()
+		if errors.Is(err, io.EOF) {
+			return nil
 		}
 		if err != nil {
 			return err
@@ -238,7 +239,7 @@ func (eng *Engine) run(ctx context.Context) error {
 			if eng.sema != nil {
 				defer eng.sema.Release(1)
 			}
-			return eng.process(subctx, url)
+			return eng.process(ctx, url)
 		})
 	}
 }
@@ -273,7 +274,10 @@ func (eng *Engine) process(ctx context.Context, url *URL) error {
 	}
 
 	// Enqueue URLs.
-	if err := eng.enqueue(ctx, urls); err != nil {
+	//
+	// The queue is closed early only when the crawl is being
+	// stopped, the reason is reported by whoever stopped it.
+	if err := eng.enqueue(ctx, urls); err != nil && !errors.Is(err, io.EOF) {
 		return fmt.Errorf("ant: enqueue - %w", err)
 	}
 
-- 
2.43.0


From 42ddbbc89d5f4826298f4edf7c72b5cd1f0f294d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 04/50] fix: space concurrent requests to a host by its crawl
 delay

---
 internal/robots/cache.go | 47 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/internal/robots/cache.go b/internal/robots/cache.go
index a379cd0..a86f9c6 100644
--- a/internal/robots/cache.go
+++ b/internal/robots/cache.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"net/http"
 	"net/url"
+	"sync"
 	"time"
 
 	"github.com/segmentio/agecache"
@@ -65,6 +66,8 @@ func (h *Host) test(path, ua string) bool {
 type Cache struct {
 	lru    *agecache.Cache
 	client *http.Client
+	mutex  sync.Mutex
+	next   map[string]time.Time // last reserved slot, by host.
 }
 
 // NewCache returns a new cache with the client and cache capacity.
@@ -75,7 +78,11 @@ func NewCache(c *http.Client, capacity int) *Cache {
 		ExpirationType:     agecache.PassiveExpration,
 		ExpirationInterval: 1 * time.Minute,
 	})
-	return &Cache{lru: lru, client: c}
+	return &Cache{
+		lru:    lru,
+		client: c,
+		next:   make(map[string]time.Time),
+	}
 }
 
 // Allowed returns true if the request is allowed.
@@ -110,7 +117,8 @@ func (c *Cache) Allowed(ctx context.Context, req Request) (bool, error) {
 // Wait blocks until the given request can be sent.
 //
 // Some robots.txt define a crawl delay for all or some of the useragents.
-// The method will block until the request can go through.
+// The method will block until the request can go through, concurrent
+// requests to the same host go through one at a time, a crawl delay apart.
 func (c *Cache) Wait(ctx context.Context, req Request) error {
 	var ua = req.userAgent()
 
@@ -121,12 +129,15 @@ func (c *Cache) Wait(ctx context.Context, req Request) error {
 
 	if g, ok := host.find(ua); ok {
 		if d := g.CrawlDelay; d > 0 {
-			t := time.NewTimer(d)
+			slot := c.reserve(req.URL.Host, d)
+			t := time.NewTimer(time.Until(slot))
 			defer t.Stop()
 			select {
 			case <-ctx.Done():
+				c.release(req.URL.Host, slot, slot.Add(-d))
 				return ctx.Err()
 			case <-t.C:
+				c.release(req.URL.Host, slot, slot)
 				return nil
 			}
 		}
@@ -135,6 +146,36 @@ func (c *Cache) Wait(ctx context.Context, req Request) error {
 	return nil
 }
 
+// Reserve reserves the next slot of the given host.
+func (c *Cache) reserve(host string, d time.Duration) time.Time {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	slot := time.Now()
+	if t := c.next[host]; t.After(slot) {
+		slot = t
+	}
+
+	slot = slot.Add(d)
+	c.next[host] = slot
+	return slot
+}
+
+// Release releases a slot, if it's the last one that was reserved
+// the next one is reserved after prev.
+func (c *Cache) release(host string, slot, prev time.Time) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	if c.next[host].Equal(slot) {
+		if prev.After(time.Now()) {
+			c.next[host] = prev
+		} else {
+			delete(c.next, host)
+		}
+	}
+}
+
 // Lookup returns a host from url.
 //
 // Note that there's a logical race, the method may send multiple requests
-- 
2.43.0


From a97c303ef861199230ee4edd8f3cfe57c760b993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 05/50] fix: match robots.txt rules against the query string

---
 internal/robots/cache.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/robots/cache.go b/internal/robots/cache.go
index a86f9c6..0863d11 100644
--- a/internal/robots/cache.go
+++ b/internal/robots/cache.go
@@ -106,6 +106,10 @@ func (c *Cache) Allowed(ctx context.Context, req Request) (bool, error) {
 		path = "/" + path
 	}
 
+	if q := req.URL.RawQuery; q != "" {
+		path += "?" + q
+	}
+
 	host, err := c.lookup(ctx, req.URL)
 	if err != nil {
 		return false, err
-- 
2.43.0


From 3b0792fcac6afe7fff83bbe3ca341ffe6bc4a9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 06/50] fix: request robots.txt with the configured user agent

---
 internal/robots/cache.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/robots/cache.go b/internal/robots/cache.go
index 0863d11..9c88b89 100644
--- a/internal/robots/cache.go
+++ b/internal/robots/cache.go
@@ -110,7 +110,7 @@ func (c *Cache) Allowed(ctx context.Context, req Request) (bool, error) {
 		path += "?" + q
 	}
 
-	host, err := c.lookup(ctx, req.URL)
+	host, err := c.lookup(ctx, req)
 	if err != nil {
 		return false, err
 	}
@@ -126,7 +126,7 @@ func (c *Cache) Allowed(ctx context.Context, req Request) (bool, error) {
 func (c *Cache) Wait(ctx context.Context, req Request) error {
 	var ua = req.userAgent()
 
-	host, err := c.lookup(ctx, req.URL)
+	host, err := c.lookup(ctx, req)
 	if err != nil {
 		return err
 	}
@@ -184,7 +184,9 @@ func (c *Cache) release(host string, slot, prev time.Time) {
 //
 // Note that there's a logical race, the method may send multiple requests
 // for the same robots.txt URL, this is intentional to speed up lookups.
-func (c *Cache) lookup(ctx context.Context, url *url.URL) (*Host, error) {
+func (c *Cache) lookup(ctx context.Context, r Request) (*Host, error) {
+	var url = r.URL
+
 	if v, ok := c.lru.Get(url.Host); ok {
 		return v.(*Host), nil
 	}
@@ -195,6 +197,10 @@ func (c *Cache) lookup(ctx context.Context, url *url.URL) (*Host, error) {
 		return nil, fmt.Errorf("robots: new request - %w", err)
 	}
 
+	if ua := r.UserAgent; ua != "" {
+		req.Header.Set("User-Agent", ua)
+	}
+
 	resp, err := c.client.Do(req)
 	if err != nil {
 		return nil, fmt.Errorf("robots: GET %q - %w", rawurl, err)
-- 
2.43.0


From 1445927a79a3b64f98ec2292080f86f4977be4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 07/50] fix: make the bloom filter deduper safe for concurrent
 use

---
 dedupe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedupe.go b/dedupe.go
index 738bcb4..8fdbdba 100644
--- a/dedupe.go
+++ b/dedupe.go
@@ -57,6 +57,7 @@ func (d *deduper) Dedupe(ctx context.Context, urls URLs) (URLs, error) {
 
 // Dedupebf implements a bloom filter deduper.
 type dedupebf struct {
+	mutex  sync.Mutex
 	filter *bloom.BloomFilter
 }
 
@@ -77,6 +78,9 @@ func DedupeBF(k, m uint) Deduper {
 func (d *dedupebf) Dedupe(ctx context.Context, urls URLs) (URLs, error) {
 	var ret = make(URLs, 0, len(urls))
 
+	d.mutex.Lock()
+	defer d.mutex.Unlock()
+
 	for _, u := range urls {
 		v := []byte(u.String())
 		if !d.filter.Test(v) {
-- 
2.43.0


From 17119dd0a1a1a45f187c692c4de30a393cd120d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 08/50] fix: keep normalized paths absolute and their segments
 intact

---
 internal/normalize/url.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/internal/normalize/url.go b/internal/normalize/url.go
index aef861b..2d227a3 100644
--- a/internal/normalize/url.go
+++ b/internal/normalize/url.go
@@ -34,7 +34,7 @@ func RawURL(rawurl string) (string, error) {
 func URL(u *url.URL) *url.URL {
 	u.Scheme = strings.ToLower(u.Scheme)
 	u.Host = hostname(u)
-	u.Path = pathname(u)
+	u.Path, u.RawPath = pathname(u)
 	u.RawQuery = query(u.RawQuery)
 	u.ForceQuery = false
 	u.Fragment = ""
@@ -58,14 +58,31 @@ func hostname(u *url.URL) string {
 }
 
 // Pathname normalizes the pathname.
-func pathname(u *url.URL) string {
-	switch u.Path {
-	case "", "/":
-		return "/"
-	default:
-		parts := strings.Split(u.Path, "/")
-		return path.Join(parts...)
+//
+// The method returns the decoded and the encoded pathname, the latter
+// is empty when it's the default encoding of the former. The segments
+// are normalized one by one so that a segment with an encoded slash
+// remains a single segment.
+func pathname(u *url.URL) (decoded, encoded string) {
+	parts := strings.Split(u.EscapedPath(), "/")
+	for j, part := range parts {
+		if s, err := url.PathUnescape(part); err == nil {
+			s = (&url.URL{Path: "/" + s}).EscapedPath()[1:]
+			parts[j] = strings.ReplaceAll(s, "/", "%2F")
+		}
+	}
+
+	encoded = path.Clean("/" + strings.Join(parts, "/"))
+	decoded, err := url.PathUnescape(encoded)
+	if err != nil {
+		decoded = encoded
+	}
+
+	if (&url.URL{Path: decoded}).EscapedPath() == encoded {
+		encoded = ""
 	}
+
+	return decoded, encoded
 }
 
 // Query sorts the given query.
-- 
2.43.0


From d28635e3154c804697737c42be100560fcb6f0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 09/50] fix: remove the default port of IPv6 hosts

---
 internal/normalize/url.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/normalize/url.go b/internal/normalize/url.go
index 2d227a3..5648bf5 100644
--- a/internal/normalize/url.go
+++ b/internal/normalize/url.go
@@ -45,7 +45,7 @@ func URL(u *url.URL) *url.URL {
 func hostname(u *url.URL) string {
 	var host = strings.ToLower(u.Host)
 
-	if j := strings.IndexByte(host, ':'); j != -1 {
+	if j := strings.LastIndexByte(host, ':'); j != -1 {
 		switch port := host[j+1:]; {
 		case u.Scheme == "http" && port == "80":
 			return host[:j]
-- 
2.43.0


From ffe6540cd91ba920e22149ba968ad49ab3b441f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 10/50] fix: limiters match the same URLs as matchers do

---
 limiters.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/limiters.go b/limiters.go
index 7ec08e0..e29b3ff 100644
--- a/limiters.go
+++ b/limiters.go
@@ -60,7 +60,7 @@ func LimitHostname(n int, name string) LimiterFunc {
 func LimitPattern(n int, pattern string) LimiterFunc {
 	l := rate.NewLimiter(rate.Limit(n), n)
 	return func(ctx context.Context, u *url.URL) error {
-		if match.Match(u.Host+u.Path, pattern) {
+		if match.Match(u.Host+normalizePath(u.Path), pattern) {
 			return l.Wait(ctx)
 		}
 		return nil
@@ -80,7 +80,7 @@ func LimitRegexp(n int, expr string) LimiterFunc {
 	}
 
 	return func(ctx context.Context, u *url.URL) error {
-		if re.MatchString(u.Host + u.Path) {
+		if re.MatchString(u.Host + normalizePath(u.Path)) {
 			return l.Wait(ctx)
 		}
 		return nil
-- 
2.43.0


From 775ca3ed1ccd43e1aa13b3935a4b1f0e08a5ca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 11/50] fix: retry temporary network errors

---
 fetcher.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fetcher.go b/fetcher.go
index fc56b88..863f01c 100644
--- a/fetcher.go
+++ b/fetcher.go
@@ -2,6 +2,7 @@ package ant
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
@@ -287,6 +288,6 @@ func (f *Fetcher) maxBackoff() time.Duration {
 
 // IsTemporary returns true if the error is temporary.
 func isTemporary(err error) bool {
-	t, ok := err.(interface{ Temporary() bool })
-	return ok && t.Temporary()
+	var t interface{ Temporary() bool }
+	return errors.As(err, &t) && t.Temporary()
 }
-- 
2.43.0


From ee0a5332606794f47342f3cd2166b937eefedfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 12/50] fix: validate cached responses without losing the body,
 forward what is not about the stored response

---
 antcache/httpcache.go | 24 +++++++++++++++---------
 antcache/utils.go     | 11 +++++++++++
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index dc68224..36cff05 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -151,7 +151,6 @@ func (c *Cache) Do(req *http.Request) (*http.Response, error) {
 		return nil, err
 	}
 	if resp != nil {
-		resp.Header.Set("X-From-Cache", "1")
 		return resp, nil
 	}
 
@@ -199,6 +198,7 @@ func (c *Cache) load(key uint64, req *http.Request) (*http.Response, error) {
 
 	switch c.strategy.fresh(resp) {
 	case fresh:
+		resp.Header.Set("X-From-Cache", "1")
 		return resp, nil
 
 	case stale:
@@ -240,17 +240,28 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	if newresp.StatusCode >= 500 && newresp.StatusCode < 600 {
 		reqd := directivesFrom(req.Header)
 		if reqd.has("stale-if-error") {
+			c.discard(newresp)
+			resp.Header.Set("X-From-Cache", "1")
 			return resp, nil
 		}
+		c.discard(resp)
 		return newresp, nil
 	}
 
 	// A 304 (Not Modified) response status code indicates that the
 	// stored response can be updated and reused; see Section 4.3.4.
+	//
+	// When the request has its own conditions the response only tells
+	// that the caller's copy is valid, it is forwarded to the caller.
 	if newresp.StatusCode == 304 {
-		c.discard(resp)
+		if !validates(req, hdr) {
+			c.discard(resp)
+			return newresp, nil
+		}
+		c.discard(newresp)
 		merge(resp.Header, newresp.Header)
 		c.store(key, resp)
+		resp.Header.Set("X-From-Cache", "1")
 		return resp, nil
 	}
 
@@ -258,16 +269,11 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	// none of the stored responses nominated in the conditional request
 	// is suitable.  Instead, the cache MUST use the full response to
 	// satisfy the request and MAY replace the stored response(s).
+	c.discard(resp)
 	if c.strategy.store(newresp) {
-		c.discard(resp)
 		c.store(key, newresp)
-		return newresp, nil
 	}
-
-	// Verification failed, cleanup and close the response readers.
-	c.discard(newresp)
-	c.discard(resp)
-	return nil, nil
+	return newresp, nil
 }
 
 // Store stores the given response.
diff --git a/antcache/utils.go b/antcache/utils.go
index 3f340d3..f796b84 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -50,6 +50,17 @@ func matches(req *http.Request, resp *http.Response) bool {
 	return true
 }
 
+// Validates returns true if the conditions of req are those of
+// the stored response with the given headers.
+//
+// https://tools.ietf.org/html/rfc7234#section-4.3.1
+func validates(req *http.Request, stored http.Header) bool {
+	if etag := req.Header.Get("If-None-Match"); etag != "" {
+		return etag == stored.Get("ETag")
+	}
+	return req.Header.Get("If-Modified-Since") == stored.Get("Last-Modified")
+}
+
 // Nostore returns true if no-store is set.
 func nostore(h http.Header) bool {
 	var c = h.Get("Cache-Control")
-- 
2.43.0


From cf87c8b05d4d14bb93fcf9e7243da3b495c33778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 13/50] fix: store only responses whose body was read
 completely

---
 antcache/cachereader.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/antcache/cachereader.go b/antcache/cachereader.go
index 69a47cd..5bdfdac 100644
--- a/antcache/cachereader.go
+++ b/antcache/cachereader.go
@@ -14,11 +14,14 @@ import (
 
 // Cachereader is a special reader that caches
 // a response when it is closed.
+//
+// Responses that were not read completely are not stored.
 type cachereader struct {
 	resp  *http.Response
 	key   uint64
 	rc    io.ReadCloser
 	buf   bytes.Buffer
+	eof   bool
 	once  sync.Once
 	ctx   context.Context
 	store func(ctx context.Context, key uint64, v []byte) error
@@ -29,6 +32,9 @@ func (cr *cachereader) Read(p []byte) (n int, err error) {
 	if n, err = cr.rc.Read(p); n > 0 {
 		cr.buf.Write(p[:n])
 	}
+	if err == io.EOF {
+		cr.eof = true
+	}
 	return n, err
 }
 
@@ -37,6 +43,10 @@ func (cr *cachereader) Close() error {
 	cerr := cr.rc.Close()
 
 	cr.once.Do(func() {
+		if !cr.complete() {
+			return
+		}
+
 		resp := *cr.resp
 
 		r := bytes.NewReader(cr.buf.Bytes())
@@ -63,3 +73,15 @@ func (cr *cachereader) Close() error {
 
 	return cerr
 }
+
+// Complete returns true if the whole body was read.
+func (cr *cachereader) complete() bool {
+	if cr.eof || cr.resp.Request.Method == "HEAD" {
+		return true
+	}
+	switch cr.resp.StatusCode {
+	case 204, 304:
+		return true
+	}
+	return int64(cr.buf.Len()) == cr.resp.ContentLength
+}
-- 
2.43.0


From 40158cf5cebf3f86eee5f05c37c423e50efaa855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 14/50] fix: honour every Cache-Control line, Pragma and large
 durations

---
 antcache/directives.go | 12 +++++++++++-
 antcache/rfc7234.go    |  2 +-
 antcache/utils.go      | 20 +++++++++++++++++++-
 3 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/antcache/directives.go b/antcache/directives.go
index 10192f5..76029aa 100644
--- a/antcache/directives.go
+++ b/antcache/directives.go
@@ -1,6 +1,7 @@
 package antcache
 
 import (
+	"errors"
 	"net/http"
 	"strconv"
 	"strings"
@@ -10,9 +11,14 @@ import (
 // Directives represents cache-control directives.
 type directives map[string]string
 
+// Maxduration is the longest duration of a directive.
+//
+// https://tools.ietf.org/html/rfc7234#section-1.2.1
+const maxduration = 1 << 31
+
 // DirectivesFrom returns directives from h.
 func directivesFrom(h http.Header) directives {
-	var c = h.Get("Cache-Control")
+	var c = strings.Join(h.Values("Cache-Control"), ",")
 	var d directives
 
 	for _, item := range split(c, ",") {
@@ -42,6 +48,10 @@ func (d directives) has(name string) bool {
 func (d directives) duration(name string) (td time.Duration, ok bool) {
 	if v, has := d[name]; has {
 		n, err := strconv.ParseInt(v, 10, 64)
+		if errors.Is(err, strconv.ErrRange) {
+			err = nil
+		}
+		n = min(max(n, -maxduration), maxduration)
 		td, ok = (time.Duration(n) * time.Second), err == nil
 	}
 	return
diff --git a/antcache/rfc7234.go b/antcache/rfc7234.go
index 6d0ffb8..fb7b07c 100644
--- a/antcache/rfc7234.go
+++ b/antcache/rfc7234.go
@@ -98,7 +98,7 @@ func (rfc7234) fresh(resp *http.Response) freshness {
 	//
 	// the stored response does not contain the no-cache cache directive
 	// (Section 5.2.2.2), unless it is successfully validated (Section 4.3)
-	if reqd.has("no-cache") || resd.has("no-cache") {
+	if nocache(req.Header) || resd.has("no-cache") {
 		return stale
 	}
 
diff --git a/antcache/utils.go b/antcache/utils.go
index f796b84..7b7b66d 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -63,7 +63,7 @@ func validates(req *http.Request, stored http.Header) bool {
 
 // Nostore returns true if no-store is set.
 func nostore(h http.Header) bool {
-	var c = h.Get("Cache-Control")
+	var c = strings.Join(h.Values("Cache-Control"), ",")
 
 	for _, v := range split(c, ",") {
 		if v == "no-store" {
@@ -74,6 +74,24 @@ func nostore(h http.Header) bool {
 	return false
 }
 
+// Nocache returns true if the given request headers
+// contain the no-cache directive.
+//
+// When there's no Cache-Control header the pragma header is used.
+//
+// https://tools.ietf.org/html/rfc7234#section-5.4
+func nocache(h http.Header) bool {
+	if len(h.Values("Cache-Control")) > 0 {
+		return directivesFrom(h).has("no-cache")
+	}
+	for _, v := range split(strings.Join(h.Values("Pragma"), ","), ",") {
+		if v == "no-cache" {
+			return true
+		}
+	}
+	return false
+}
+
 // Expires returns the expires timestamp.
 //
 // When expires does not exist or is zero, ok is false.
-- 
2.43.0


From 61961b5c045571f93ff975036f009284fb6b57b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 15/50] fix: let requests only shorten the lifetime of
 responses, honour must-revalidate

---
 antcache/rfc7234.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/antcache/rfc7234.go b/antcache/rfc7234.go
index fb7b07c..ae04e9e 100644
--- a/antcache/rfc7234.go
+++ b/antcache/rfc7234.go
@@ -111,14 +111,17 @@ func (rfc7234) fresh(resp *http.Response) freshness {
 	if d, ok := date(resp.Header); ok {
 		var age = time.Since(d)
 		var lifetime time.Duration
+		var explicit bool
 
 		if maxage, ok := resd.duration("max-age"); ok {
-			lifetime = maxage
+			lifetime, explicit = maxage, true
 		} else if exp, ok := expires(resp.Header); ok {
-			lifetime = exp.Sub(d)
+			lifetime, explicit = exp.Sub(d), true
 		}
 
-		if maxage, ok := reqd.duration("max-age"); ok {
+		// The request may shorten the lifetime of the response,
+		// it sets the lifetime of responses that have none.
+		if maxage, ok := reqd.duration("max-age"); ok && (!explicit || maxage < lifetime) {
 			lifetime = maxage
 		}
 
@@ -126,7 +129,9 @@ func (rfc7234) fresh(resp *http.Response) freshness {
 			age += minfresh
 		}
 
-		if reqd.has("max-stale") {
+		// The response may not be used once stale when it must be
+		// revalidated (see Section 5.2.2.1).
+		if reqd.has("max-stale") && !resd.has("must-revalidate") {
 			ms, ok := reqd.duration("max-stale")
 
 			if !ok {
-- 
2.43.0


From b3faf542737dbfc6854efce876027349ab78f68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 16/50] fix: let no-cache requests bypass the aggressive cache

---
 antcache/aggressive.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/antcache/aggressive.go b/antcache/aggressive.go
index 253e076..3a90f4a 100644
--- a/antcache/aggressive.go
+++ b/antcache/aggressive.go
@@ -66,7 +66,12 @@ func (a aggressive) store(resp *http.Response) bool {
 }
 
 // Fresh implementation.
+//
+// Requests with the "no-cache" directive bypass the cache.
 func (a aggressive) fresh(resp *http.Response) freshness {
+	if nocache(resp.Request.Header) {
+		return transparent
+	}
 	if date, ok := date(resp.Header); ok {
 		if time.Since(date) < a.lifetime() {
 			return fresh
-- 
2.43.0


From 7052e6baca5f95b4883ab5da73460645328cf48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 17/50] fix: store the response as it was received, not as the
 caller changed it

---
 antcache/httpcache.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index 36cff05..8bc0081 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -285,8 +285,12 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 func (c *Cache) store(key uint64, resp *http.Response) {
 	rc := resp.Body
 
+	// The caller owns resp and may change it before closing the body.
+	snapshot := *resp
+	snapshot.Header = resp.Header.Clone()
+
 	resp.Body = &cachereader{
-		resp:  resp,
+		resp:  &snapshot,
 		key:   key,
 		rc:    rc,
 		ctx:   resp.Request.Context(),
-- 
2.43.0


From a9e441f43f77542b642791bc0b145fdf8f6aab73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 18/50] fix: select cached responses by the headers that the
 response's Vary names

---
 antcache/httpcache.go | 11 +++++----
 antcache/utils.go     | 52 ++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 53 insertions(+), 10 deletions(-)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index 8bc0081..1b8b83f 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -160,7 +160,7 @@ func (c *Cache) Do(req *http.Request) (*http.Response, error) {
 	}
 
 	if c.strategy.store(resp) {
-		c.store(key, resp)
+		c.store(key, req, resp)
 	}
 
 	return resp, nil
@@ -198,10 +198,12 @@ func (c *Cache) load(key uint64, req *http.Request) (*http.Response, error) {
 
 	switch c.strategy.fresh(resp) {
 	case fresh:
+		unvary(resp.Header)
 		resp.Header.Set("X-From-Cache", "1")
 		return resp, nil
 
 	case stale:
+		unvary(resp.Header)
 		return c.verify(ctx, key, resp)
 	}
 
@@ -260,7 +262,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 		}
 		c.discard(newresp)
 		merge(resp.Header, newresp.Header)
-		c.store(key, resp)
+		c.store(key, resp.Request, resp)
 		resp.Header.Set("X-From-Cache", "1")
 		return resp, nil
 	}
@@ -271,7 +273,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	// satisfy the request and MAY replace the stored response(s).
 	c.discard(resp)
 	if c.strategy.store(newresp) {
-		c.store(key, newresp)
+		c.store(key, resp.Request, newresp)
 	}
 	return newresp, nil
 }
@@ -282,12 +284,13 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 // that will write the response to the storage when it is closed.
 //
 // If the response body is not closed, the response is never stored in the cache.
-func (c *Cache) store(key uint64, resp *http.Response) {
+func (c *Cache) store(key uint64, req *http.Request, resp *http.Response) {
 	rc := resp.Body
 
 	// The caller owns resp and may change it before closing the body.
 	snapshot := *resp
 	snapshot.Header = resp.Header.Clone()
+	vary(snapshot.Header, req.Header)
 
 	resp.Body = &cachereader{
 		resp:  &snapshot,
diff --git a/antcache/utils.go b/antcache/utils.go
index 7b7b66d..58c0c5a 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -2,6 +2,7 @@ package antcache
 
 import (
 	"net/http"
+	"slices"
 	"strings"
 	"time"
 
@@ -33,17 +34,56 @@ func keyof(req *http.Request) uint64 {
 	))
 }
 
-// Matches ensures that the given request and response match.
+// Varyprefix is the prefix of the stored headers that
+// keep the selecting headers of the stored response's request.
+const varyprefix = "X-Antcache-Vary-"
+
+// Vary adds the selecting headers of the request to the
+// headers of a response that is about to be stored.
 //
 // https://tools.ietf.org/html/rfc7234#section-4.1
-func matches(req *http.Request, resp *http.Response) bool {
-	var vary = req.Header.Get("Vary")
+func vary(resp, req http.Header) {
+	unvary(resp)
+
+	for _, key := range selecting(req, resp) {
+		if v, ok := req[key]; ok {
+			resp[varyprefix+key] = slices.Clone(v)
+		}
+	}
+}
+
+// Unvary removes the headers that vary adds.
+func unvary(h http.Header) {
+	for key := range h {
+		if strings.HasPrefix(key, varyprefix) {
+			delete(h, key)
+		}
+	}
+}
+
+// Selecting returns the canonical keys of all selecting headers.
+func selecting(req, resp http.Header) (keys []string) {
+	var vary = strings.Join(slices.Concat(req.Values("Vary"), resp.Values("Vary")), ",")
 
 	for _, h := range split(vary, ",") {
 		if key := http.CanonicalHeaderKey(h); key != "" {
-			if req.Header.Get(key) != resp.Header.Get(key) {
-				return false
-			}
+			keys = append(keys, key)
+		}
+	}
+
+	return keys
+}
+
+// Matches ensures that the given request and response match.
+//
+// https://tools.ietf.org/html/rfc7234#section-4.1
+func matches(req *http.Request, resp *http.Response) bool {
+	for _, key := range selecting(req.Header, resp.Header) {
+		if key == "*" {
+			return false
+		}
+		if !slices.Equal(req.Header[key], resp.Header[varyprefix+key]) {
+			return false
 		}
 	}
 
-- 
2.43.0


From 20d5b99af2c316216bbfae19f18a57831a6b54d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 19/50] fix: remember the final URL of cached responses

---
 antcache/httpcache.go | 24 ++++++++++++++------
 antcache/utils.go     | 51 +++++++++++++++++++++++++++++++------------
 2 files changed, 54 insertions(+), 21 deletions(-)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index 1b8b83f..6cc9746 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -198,13 +198,17 @@ func (c *Cache) load(key uint64, req *http.Request) (*http.Response, error) {
 
 	switch c.strategy.fresh(resp) {
 	case fresh:
-		unvary(resp.Header)
+		if err := restore(resp); err != nil {
+			return nil, fmt.Errorf("antcache: read response %d - %w", key, err)
+		}
 		resp.Header.Set("X-From-Cache", "1")
 		return resp, nil
 
 	case stale:
-		unvary(resp.Header)
-		return c.verify(ctx, key, resp)
+		if err := restore(resp); err != nil {
+			return nil, fmt.Errorf("antcache: read response %d - %w", key, err)
+		}
+		return c.verify(ctx, key, req, resp)
 	}
 
 	return nil, nil
@@ -213,8 +217,8 @@ func (c *Cache) load(key uint64, req *http.Request) (*http.Response, error) {
 // Verify verifies that the given response is still valid.
 //
 // https://tools.ietf.org/html/rfc7234#section-4.3.
-func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*http.Response, error) {
-	var req = resp.Request.Clone(ctx)
+func (c *Cache) verify(ctx context.Context, key uint64, orig *http.Request, resp *http.Response) (*http.Response, error) {
+	var req = orig.Clone(ctx)
 	var hdr = resp.Header
 
 	if etag := hdr.Get("ETag"); etag != "" {
@@ -262,7 +266,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 		}
 		c.discard(newresp)
 		merge(resp.Header, newresp.Header)
-		c.store(key, resp.Request, resp)
+		c.store(key, orig, resp)
 		resp.Header.Set("X-From-Cache", "1")
 		return resp, nil
 	}
@@ -273,7 +277,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	// satisfy the request and MAY replace the stored response(s).
 	c.discard(resp)
 	if c.strategy.store(newresp) {
-		c.store(key, resp.Request, newresp)
+		c.store(key, orig, newresp)
 	}
 	return newresp, nil
 }
@@ -290,8 +294,14 @@ func (c *Cache) store(key uint64, req *http.Request, resp *http.Response) {
 	// The caller owns resp and may change it before closing the body.
 	snapshot := *resp
 	snapshot.Header = resp.Header.Clone()
+	unmark(snapshot.Header)
 	vary(snapshot.Header, req.Header)
 
+	// The client may have followed redirects.
+	if u := resp.Request.URL; u != nil && u.String() != req.URL.String() {
+		snapshot.Header.Set(urlkey, u.String())
+	}
+
 	resp.Body = &cachereader{
 		resp:  &snapshot,
 		key:   key,
diff --git a/antcache/utils.go b/antcache/utils.go
index 58c0c5a..6c820da 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -2,6 +2,7 @@ package antcache
 
 import (
 	"net/http"
+	"net/url"
 	"slices"
 	"strings"
 	"time"
@@ -34,17 +35,48 @@ func keyof(req *http.Request) uint64 {
 	))
 }
 
-// Varyprefix is the prefix of the stored headers that
-// keep the selecting headers of the stored response's request.
-const varyprefix = "X-Antcache-Vary-"
+// Headers that are added to stored responses.
+const (
+	// Varyprefix is the prefix of the headers that keep the
+	// selecting headers of the stored response's request.
+	varyprefix = "X-Antcache-Vary-"
+
+	// Urlkey is the header that keeps the URL the response was
+	// received from, when it is not the URL that was requested.
+	urlkey = "X-Antcache-Url"
+)
+
+// Unmark removes the headers that are added to stored responses.
+func unmark(h http.Header) {
+	for key := range h {
+		if key == urlkey || strings.HasPrefix(key, varyprefix) {
+			delete(h, key)
+		}
+	}
+}
+
+// Restore restores a response that was loaded.
+//
+// The method removes the headers that were added when the response was
+// stored, and points its request to the URL it was received from.
+func restore(resp *http.Response) error {
+	if v := resp.Header.Get(urlkey); v != "" {
+		u, err := url.Parse(v)
+		if err != nil {
+			return err
+		}
+		resp.Request = resp.Request.Clone(resp.Request.Context())
+		resp.Request.URL, resp.Request.Host = u, u.Host
+	}
+	unmark(resp.Header)
+	return nil
+}
 
 // Vary adds the selecting headers of the request to the
 // headers of a response that is about to be stored.
 //
 // https://tools.ietf.org/html/rfc7234#section-4.1
 func vary(resp, req http.Header) {
-	unvary(resp)
-
 	for _, key := range selecting(req, resp) {
 		if v, ok := req[key]; ok {
 			resp[varyprefix+key] = slices.Clone(v)
@@ -52,15 +84,6 @@ func vary(resp, req http.Header) {
 	}
 }
 
-// Unvary removes the headers that vary adds.
-func unvary(h http.Header) {
-	for key := range h {
-		if strings.HasPrefix(key, varyprefix) {
-			delete(h, key)
-		}
-	}
-}
-
 // Selecting returns the canonical keys of all selecting headers.
 func selecting(req, resp http.Header) (keys []string) {
 	var vary = strings.Join(slices.Concat(req.Values("Vary"), resp.Values("Vary")), ",")
-- 
2.43.0


From a39269f60e17a4d5228d9411139b820ba89269ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 20/50] fix: sweep the oldest files, and no more of them than
 needed

---
 antcache/disk.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index d2646e8..9eb8aeb 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -340,15 +340,21 @@ func (d *Diskstore) sweep() (int, error) {
 		return a.Before(b)
 	})
 
+	for _, f := range files {
+		sum += f.size
+	}
+
 	for _, f := range files {
 		if d.maxage > 0 {
 			if now.Sub(f.mtime) > d.maxage {
 				remove = append(remove, f)
+				sum -= f.size
+				continue
 			}
 		}
 
 		if d.maxsize > 0 {
-			if sum += f.size; sum > d.maxsize {
+			if sum > d.maxsize {
 				remove = append(remove, f)
 				sum -= f.size
 			}
-- 
2.43.0


From f5186c004335710ee24676260e4662aa978888fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:06 +0000
Subject: [PATCH 21/50] fix: never sweep a file that was stored meanwhile

---
 antcache/disk.go | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index 9eb8aeb..4aed756 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -327,8 +327,14 @@ func (d *Diskstore) sweeper() {
 }
 
 // Sweep sweeps the directory.
+//
+// The method holds the lock all along, otherwise it could
+// remove a file that was replaced since it looked at it.
 func (d *Diskstore) sweep() (int, error) {
-	var files = d.files()
+	d.readymu.Lock()
+	defer d.readymu.Unlock()
+
+	var files = d.list()
 	var now = d.now()
 	var removed int
 	var remove []file
@@ -361,9 +367,6 @@ func (d *Diskstore) sweep() (int, error) {
 		}
 	}
 
-	d.readymu.Lock()
-	defer d.readymu.Unlock()
-
 	for _, f := range remove {
 		if _, ok := d.ready[f.key]; ok {
 			if err := os.Remove(f.path); err != nil {
@@ -385,11 +388,16 @@ func (d *Diskstore) sweep() (int, error) {
 // Files returns the files.
 func (d *Diskstore) files() []file {
 	d.readymu.RLock()
+	defer d.readymu.RUnlock()
+	return d.list()
+}
+
+// List returns the files, the lock must be held.
+func (d *Diskstore) list() []file {
 	ret := make([]file, 0, len(d.ready))
 	for _, f := range d.ready {
 		ret = append(ret, f)
 	}
-	d.readymu.RUnlock()
 	return ret
 }
 
@@ -468,7 +476,12 @@ func (d *Diskstore) add(key uint64, f *os.File) error {
 		return fmt.Errorf("antcache: close %s - %w", f.Name(), err)
 	}
 
-	if err := os.Rename(f.Name(), newpath); err != nil {
+	if err := d.rename(f.Name(), file{
+		key:   key,
+		path:  newpath,
+		size:  stat.Size(),
+		mtime: stat.ModTime(),
+	}); err != nil {
 		return fmt.Errorf("antcache: disk rename - %w", err)
 	}
 
@@ -476,15 +489,20 @@ func (d *Diskstore) add(key uint64, f *os.File) error {
 		return fmt.Errorf("antcache: disk fsync - %w", err)
 	}
 
+	return nil
+}
+
+// Rename renames the file at path to f and makes it ready, at once: a sweep
+// must not see the file while the entry is that of the file it replaces.
+func (d *Diskstore) rename(path string, f file) error {
 	d.readymu.Lock()
-	d.ready[key] = file{
-		key:   key,
-		path:  newpath,
-		size:  stat.Size(),
-		mtime: stat.ModTime(),
+	defer d.readymu.Unlock()
+
+	if err := os.Rename(path, f.path); err != nil {
+		return err
 	}
-	d.readymu.Unlock()
 
+	d.ready[f.key] = f
 	return nil
 }
 
-- 
2.43.0


From 4edf2023246733acfbcf1236d22a041ee5bcc50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 22/50] fix: load empty values when compression is on

---
 antcache/disk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index 4aed756..4084b2e 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -449,7 +449,7 @@ func (d *Diskstore) Load(_ context.Context, key uint64) (v []byte, err error) {
 	}
 
 	if v != nil && d.compress {
-		if v, err = snappy.Decode(nil, v); err != nil {
+		if v, err = snappy.Decode([]byte{}, v); err != nil {
 			err = fmt.Errorf(
 				"antcache: compress is on but snappy can't decode %s/%d - %w",
 				d.path,
-- 
2.43.0


From ebeac2e2fa4bf52f0ecade7e46310765eac1f832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:17 +0000
Subject: [PATCH 23/50] fix: do not read the directory for ever when reading it
 fails

---
 antcache/disk.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/antcache/disk.go b/antcache/disk.go
index 4084b2e..44c71b3 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -285,6 +285,11 @@ func (d *Diskstore) warmup() {
 				mtime: stat.ModTime(),
 			})
 		}
+
+		if err != nil {
+			log.Printf("antcache: disk read dir %s - %s", d.path, err)
+			break
+		}
 	}
 
 	d.readymu.Lock()
-- 
2.43.0


From 979959683f384ba92ece80b8c145df17b97d4e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:22 +0000
Subject: [PATCH 24/50] fix: allow background sweeps to be disabled twice

---
 antcache/disk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index 44c71b3..ca0ca4b 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -67,7 +67,7 @@ func SweepEvery(d time.Duration) DiskOption {
 	return func(ds *Diskstore) error {
 		if d > 0 {
 			ds.ticker = time.NewTicker(d)
-		} else {
+		} else if ds.ticker != nil {
 			ds.ticker.Stop()
 			ds.ticker = nil
 		}
-- 
2.43.0


From ea3b646281f564490237a36a48f07fe93e5ce89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 25/50] fix: ignore directories and files that the disk store
 did not write

---
 antcache/disk.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index ca0ca4b..38bf0a2 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -262,12 +262,12 @@ func (d *Diskstore) warmup() {
 		for _, name := range names {
 			var path = filepath.Join(d.path, name)
 
-			if filepath.Ext(path) == "tmp" {
+			if filepath.Ext(path) == ".tmp" {
 				continue
 			}
 
 			n, err := strconv.ParseUint(name, 10, 64)
-			if err != nil {
+			if err != nil || strconv.FormatUint(n, 10) != name {
 				log.Printf("antcache: disk cache invalid entry - %s", name)
 				continue
 			}
@@ -278,6 +278,11 @@ func (d *Diskstore) warmup() {
 				continue
 			}
 
+			if !stat.Mode().IsRegular() {
+				log.Printf("antcache: disk cache invalid entry - %s", name)
+				continue
+			}
+
 			files = append(files, file{
 				key:   n,
 				path:  path,
-- 
2.43.0


From 797628eb430b1cb8e35cfee216e33c46fb73d999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:32 +0000
Subject: [PATCH 26/50] fix: do not sweep before the disk store is warm

---
 antcache/disk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/antcache/disk.go b/antcache/disk.go
index 38bf0a2..c362e9f 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -323,6 +323,9 @@ func (d *Diskstore) sweeper() {
 		d.wg.Done()
 	}()
 
+	// The warmup must not add files that were swept meanwhile.
+	<-d.warm
+
 	for {
 		select {
 		case <-d.stop:
-- 
2.43.0


From f04b9fc3f082513a862e498e316030fab239014f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:31 +0000
Subject: [PATCH 27/50] fix: scan nested structs inside the element that their
 selector matches

---
 internal/scan/struct.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/scan/struct.go b/internal/scan/struct.go
index 093dbb9..3611380 100644
--- a/internal/scan/struct.go
+++ b/internal/scan/struct.go
@@ -17,7 +17,8 @@ type field struct {
 
 // StructScanner implements a struct scanner.
 type structScanner struct {
-	fields []field
+	selector cascadia.Selector
+	fields   []field
 }
 
 // Struct returns a scanfunc for a struct or an error.
@@ -75,11 +76,23 @@ func Struct(opts Options, t reflect.Type) (ScanFunc, error) {
 		return nil, fmt.Errorf("scan: struct %v has no css tags", t)
 	}
 
-	return (structScanner{fields}).scan, nil
+	return (structScanner{
+		selector: opts.Selector,
+		fields:   fields,
+	}).scan, nil
 }
 
 // Scan implements a scan func.
+//
+// The fields are scanned inside the node that the selector matches,
+// if there is none the fields are scanned from an empty node.
 func (ss structScanner) scan(dst reflect.Value, src *html.Node) error {
+	if ss.selector != nil {
+		if src = ss.selector.MatchFirst(src); src == nil {
+			src = &html.Node{Type: html.DocumentNode}
+		}
+	}
+
 	for _, f := range ss.fields {
 		v := dst.FieldByIndex(f.index)
 		if err := f.scan(v, src); err != nil {
-- 
2.43.0


From 6c51744aa3fd5a6b5995ef5f460e1f50f09ba17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 28/50] fix: do not keep what a slice held when nothing matches

---
 internal/scan/slice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/scan/slice.go b/internal/scan/slice.go
index ae02771..17568cd 100644
--- a/internal/scan/slice.go
+++ b/internal/scan/slice.go
@@ -38,6 +38,7 @@ func (ss sliceScanner) scan(dst reflect.Value, src *html.Node) error {
 	var nodes = ss.selector.MatchAll(src)
 
 	if len(nodes) == 0 {
+		dst.Set(reflect.Zero(ss.sliceType))
 		return nil
 	}
 
-- 
2.43.0


From 9a7ae6a22140de1d949a8a8c9b69aa2c72f54f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:41 +0000
Subject: [PATCH 29/50] fix: refuse to scan into slices without a selector

---
 internal/scan/slice.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/scan/slice.go b/internal/scan/slice.go
index 17568cd..fde2096 100644
--- a/internal/scan/slice.go
+++ b/internal/scan/slice.go
@@ -1,6 +1,7 @@
 package scan
 
 import (
+	"fmt"
 	"reflect"
 
 	"github.com/andybalholm/cascadia"
@@ -18,6 +19,10 @@ type sliceScanner struct {
 func Slice(opts Options, t reflect.Type) (ScanFunc, error) {
 	var eltype = t.Elem()
 
+	if opts.Selector == nil {
+		return nil, fmt.Errorf("scan: cannot scan into type %s without a selector", t)
+	}
+
 	f, err := ScannerOf(eltype, Options{
 		Selector: nil,
 		Attr:     opts.Attr,
-- 
2.43.0


From f86cc0b3fa33a311e83a4b766bf15e6bc18c6e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 30/50] fix: refuse to scan into recursive types

---
 internal/scan/scan.go   | 3 +++
 internal/scan/slice.go  | 1 +
 internal/scan/struct.go | 7 +++++++
 3 files changed, 11 insertions(+)

diff --git a/internal/scan/scan.go b/internal/scan/scan.go
index 2345881..30e74bd 100644
--- a/internal/scan/scan.go
+++ b/internal/scan/scan.go
@@ -18,6 +18,9 @@ var (
 type Options struct {
 	Selector cascadia.Selector
 	Attr     string
+
+	// Parents are the types of the structs around the value.
+	parents []reflect.Type
 }
 
 // ScanFunc represents a scanner func.
diff --git a/internal/scan/slice.go b/internal/scan/slice.go
index fde2096..077fc02 100644
--- a/internal/scan/slice.go
+++ b/internal/scan/slice.go
@@ -26,6 +26,7 @@ func Slice(opts Options, t reflect.Type) (ScanFunc, error) {
 	f, err := ScannerOf(eltype, Options{
 		Selector: nil,
 		Attr:     opts.Attr,
+		parents:  opts.parents,
 	})
 	if err != nil {
 		return nil, err
diff --git a/internal/scan/struct.go b/internal/scan/struct.go
index 3611380..17853fe 100644
--- a/internal/scan/struct.go
+++ b/internal/scan/struct.go
@@ -30,6 +30,12 @@ func Struct(opts Options, t reflect.Type) (ScanFunc, error) {
 		name = t.String()
 	}
 
+	for _, p := range opts.parents {
+		if p == t {
+			return nil, fmt.Errorf("scan: cannot scan into recursive type %s", t)
+		}
+	}
+
 	for j := 0; j < t.NumField(); j++ {
 		var f = t.Field(j)
 		var tag = f.Tag
@@ -61,6 +67,7 @@ func Struct(opts Options, t reflect.Type) (ScanFunc, error) {
 		scan, err := ScannerOf(f.Type, Options{
 			Selector: sel,
 			Attr:     attr,
+			parents:  append(opts.parents[:len(opts.parents):len(opts.parents)], t),
 		})
 		if err != nil {
 			return nil, err
-- 
2.43.0


From e9e3d9079c5c0f48f022c70208e344758610e272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:52 +0000
Subject: [PATCH 31/50] fix: refuse to scan into nil

---
 internal/scan/scanner.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/scan/scanner.go b/internal/scan/scanner.go
index 99101eb..26efb97 100644
--- a/internal/scan/scanner.go
+++ b/internal/scan/scanner.go
@@ -49,12 +49,17 @@ func NewScanner() *Scanner {
 // Scan scans from src node into dst value.
 func (s *Scanner) Scan(dst any, src *html.Node, opts Options) error {
 	var v = reflect.ValueOf(dst)
-	var t = v.Type()
 
-	if t.Kind() != reflect.Ptr {
+	if v.Kind() != reflect.Ptr {
 		return fmt.Errorf("scan: cannot scan into non ptr %T", dst)
 	}
 
+	if v.IsNil() {
+		return fmt.Errorf("scan: cannot scan into nil %T", dst)
+	}
+
+	var t = v.Type()
+
 	f, ok := s.lookup(t)
 	if !ok {
 		scanFunc, err := s.register(t.Elem(), opts)
-- 
2.43.0


From d549027a53bc37703e85d2f48bf842814f83a80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:12 +0000
Subject: [PATCH 32/50] fix: skip links without a host

---
 page.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/page.go b/page.go
index 3974753..39e62ed 100644
--- a/page.go
+++ b/page.go
@@ -128,6 +128,10 @@ func (p *Page) resolve(selector string) URLs {
 				u = p.URL.ResolveReference(u)
 			}
 
+			if u.Hostname() == "" {
+				continue
+			}
+
 			switch u.Scheme {
 			case "https", "http":
 				ret = append(ret, u)
-- 
2.43.0


From 2e61b6bb3b763b354c03218d2a9c23f8f34be3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:05 +0000
Subject: [PATCH 33/50] fix: refuse to scrape anything but structs as JSON, as
 documented

---
 json.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json.go b/json.go
index e2577c9..e139c8e 100644
--- a/json.go
+++ b/json.go
@@ -29,7 +29,7 @@ func JSON(w io.Writer, t any, selectors ...string) Scraper {
 	var typ = reflect.TypeOf(t)
 	var enc = json.NewEncoder(w)
 
-	if typ.Kind() == reflect.Ptr {
+	if typ != nil && typ.Kind() == reflect.Ptr {
 		typ = typ.Elem()
 	}
 
@@ -50,6 +50,10 @@ type jsonscraper struct {
 
 // Scrape implementation.
 func (j *jsonscraper) Scrape(ctx context.Context, p *Page) (URLs, error) {
+	if j.typ == nil || j.typ.Kind() != reflect.Struct {
+		return nil, fmt.Errorf("ant: json expects a struct, got %v", j.typ)
+	}
+
 	var v = reflect.New(j.typ)
 
 	if err := p.Scan(v.Interface()); err != nil {
-- 
2.43.0


From 598935e9f6a7b7f034d5b107bd8c38b5aa529835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:12 +0000
Subject: [PATCH 34/50] fix: antcdp: close the connection of a request that
 fails before it is sent

---
 antcdp/transport.go | 8 ++------
 antcdp/tx.go        | 8 ++++++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/antcdp/transport.go b/antcdp/transport.go
index edc59c6..ea26440 100644
--- a/antcdp/transport.go
+++ b/antcdp/transport.go
@@ -2,8 +2,6 @@ package antcdp
 
 import (
 	"net/http"
-
-	"github.com/hashicorp/go-multierror"
 )
 
 // Transport implements a CDP request transport.
@@ -34,14 +32,12 @@ func (t *transport) roundtrip(req *http.Request) (*http.Response, error) {
 		target:  target,
 	}
 
+	defer tx.close()
+
 	if err := tx.init(ctx); err != nil {
 		return nil, err
 	}
 
-	defer func() {
-		err = multierror.Append(err, tx.close())
-	}()
-
 	resp, err := tx.do(ctx)
 	if err != nil {
 		return nil, err
diff --git a/antcdp/tx.go b/antcdp/tx.go
index 34f948f..8d59476 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -294,13 +294,17 @@ func (tx *tx) setCookies(ctx context.Context) error {
 
 // Close closes the transaction.
 func (tx *tx) close() (err error) {
-	var closers = [...]io.Closer{
-		tx.conn,
+	var closers = []io.Closer{
 		tx.events.req,
 		tx.events.res,
 		tx.events.ready,
 	}
 
+	// A nil connection would not be a nil closer.
+	if tx.conn != nil {
+		closers = append(closers, tx.conn)
+	}
+
 	for _, c := range closers {
 		if c != nil {
 			if e := c.Close(); e != nil {
-- 
2.43.0


From 38c806e453d1df60323fd393d48b68a106fa36cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:16 +0000
Subject: [PATCH 35/50] fix: antcdp: wait for the navigated document, not for
 all requests of the page

---
 antcdp/tx.go | 31 ++++++++-----------------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index 8d59476..b70e09e 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -27,7 +27,6 @@ type tx struct {
 	conn    *rpcc.Conn
 	client  *cdp.Client
 	events  struct {
-		req   network.RequestWillBeSentClient
 		res   network.ResponseReceivedClient
 		ready page.DOMContentEventFiredClient
 	}
@@ -62,11 +61,6 @@ func (tx *tx) init(ctx context.Context) error {
 		return err
 	}
 
-	reqc, err := tx.client.Network.RequestWillBeSent(ctx)
-	if err != nil {
-		return err
-	}
-
 	resc, err := tx.client.Network.ResponseReceived(ctx)
 	if err != nil {
 		return err
@@ -77,7 +71,6 @@ func (tx *tx) init(ctx context.Context) error {
 		return err
 	}
 
-	tx.events.req = reqc
 	tx.events.res = resc
 	tx.events.ready = ready
 	return nil
@@ -115,21 +108,15 @@ func (tx *tx) do(ctx context.Context) (*http.Response, error) {
 	return tx.resp, nil
 }
 
-// Wait waits for the network requests to load.
+// Wait waits for the response of the navigated document.
+//
+// The subresources and frames of the page are not waited for, their
+// responses may never arrive.
 func (tx *tx) wait(ctx context.Context, args page.NavigateReply) error {
-	var ids = make(map[network.RequestID]struct{})
-	var reqc = tx.events.req
 	var resc = tx.events.res
 
 	for {
 		select {
-		case <-reqc.Ready():
-			event, err := reqc.Recv()
-			if err != nil {
-				return fmt.Errorf("antcdp: request recv - %w", err)
-			}
-			ids[event.RequestID] = struct{}{}
-
 		case <-resc.Ready():
 			event, err := resc.Recv()
 			if err != nil {
@@ -142,15 +129,14 @@ func (tx *tx) wait(ctx context.Context, args page.NavigateReply) error {
 			if id := event.FrameID; id != nil && *id != args.FrameID {
 				continue
 			}
+			if id := args.LoaderID; id != nil && *id != event.LoaderID {
+				continue
+			}
 
 			if err := tx.merge(event.Response); err != nil {
 				return fmt.Errorf("antcdp: merge response - %w", err)
 			}
-
-			delete(ids, event.RequestID)
-			if len(ids) == 0 {
-				return nil
-			}
+			return nil
 
 		case <-ctx.Done():
 			return ctx.Err()
@@ -295,7 +281,6 @@ func (tx *tx) setCookies(ctx context.Context) error {
 // Close closes the transaction.
 func (tx *tx) close() (err error) {
 	var closers = []io.Closer{
-		tx.events.req,
 		tx.events.res,
 		tx.events.ready,
 	}
-- 
2.43.0


From c49defedcf46e453bc49df0bd777022cf4eb5165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:22 +0000
Subject: [PATCH 36/50] fix: antcdp: stop the page of a canceled request before
 its target is reused

---
 antcdp/tx.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index b70e09e..38c668f 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -53,6 +53,12 @@ func (tx *tx) init(ctx context.Context) error {
 		return err
 	}
 
+	// The target may still be loading the page of a canceled request,
+	// its events must not be taken for those of this request.
+	if err := tx.client.Page.StopLoading(ctx); err != nil {
+		return fmt.Errorf("antcdp: stop loading - %w", err)
+	}
+
 	if err := tx.setHeaders(ctx); err != nil {
 		return err
 	}
-- 
2.43.0


From 11eb07a83d99d19b5561560c03ac21d97370cd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:27 +0000
Subject: [PATCH 37/50] fix: antcdp: send headers whose keys are not canonical

---
 antcdp/tx.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index 38c668f..7254a30 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -238,8 +238,10 @@ func (tx *tx) setHeaders(ctx context.Context) error {
 	var dst = make(map[string]string)
 	var src = tx.request.Header
 
-	for k := range src {
-		dst[k] = src.Get(k)
+	for k, v := range src {
+		if len(v) > 0 {
+			dst[k] = v[0]
+		}
 	}
 
 	buf, err := json.Marshal(dst)
-- 
2.43.0


From 46c242814f4a5e2179ee5bb5d3fec0c745d23052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 38/50] fix: antcdp: split the values of repeated response
 headers

---
 antcdp/tx.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index 7254a30..82886a7 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -218,7 +218,10 @@ func (tx *tx) merge(resp network.Response) error {
 		if tx.resp.Header == nil {
 			tx.resp.Header = make(http.Header)
 		}
-		tx.resp.Header.Set(k, v)
+		// Values of repeated headers are separated by newlines.
+		for _, v := range strings.Split(v, "\n") {
+			tx.resp.Header.Add(k, v)
+		}
 	}
 
 	if p := resp.Protocol; p != nil {
-- 
2.43.0


From f98f0e7c213662ad037e737fc5db079ed74da713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:55 +0000
Subject: [PATCH 39/50] fix: antcdp: refer to the final URL of a redirected
 request

---
 antcdp/tx.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index 82886a7..7698689 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"net/url"
 	"strconv"
 	"strings"
 
@@ -34,11 +35,11 @@ type tx struct {
 
 // Init initializes the transaction.
 func (tx *tx) init(ctx context.Context) error {
-	var url = tx.target.WebSocketDebuggerURL
+	var addr = tx.target.WebSocketDebuggerURL
 
-	conn, err := rpcc.DialContext(ctx, url)
+	conn, err := rpcc.DialContext(ctx, addr)
 	if err != nil {
-		return fmt.Errorf("antcdp: dial %q - %w", url, err)
+		return fmt.Errorf("antcdp: dial %q - %w", addr, err)
 	}
 
 	tx.conn = conn
@@ -209,6 +210,17 @@ func (tx *tx) merge(resp network.Response) error {
 	tx.resp.StatusCode = resp.Status
 	tx.resp.Status = fmt.Sprintf("%d %s", resp.Status, http.StatusText(resp.Status))
 
+	// As with net/http, the request is the one of the final document,
+	// the navigation may have been redirected.
+	u, err := url.Parse(resp.URL)
+	if err != nil {
+		return fmt.Errorf("antcdp: response url - %w", err)
+	}
+	u.Fragment = tx.request.URL.Fragment
+	u.RawFragment = tx.request.URL.RawFragment
+	tx.resp.Request = tx.request.WithContext(tx.request.Context())
+	tx.resp.Request.URL = u
+
 	hdr, err := resp.Headers.Map()
 	if err != nil {
 		return fmt.Errorf("antcdp: headers map - %w", err)
-- 
2.43.0


From cff47c4c55d0dfbd5b8013591b1d09e20cce03c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:59 +0000
Subject: [PATCH 40/50] fix: do not modify the URLs returned by a scraper

---
 engine.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/engine.go b/engine.go
index 6a29b67..fb24473 100644
--- a/engine.go
+++ b/engine.go
@@ -193,9 +193,15 @@ func (eng *Engine) Enqueue(ctx context.Context, rawurls ...string) error {
 }
 
 // Enqueue enqueues the given parsed urls.
-func (eng *Engine) enqueue(ctx context.Context, batch URLs) error {
-	for j := range batch {
-		batch[j] = normalize.URL(batch[j])
+//
+// The URLs and the slice may be shared by scrapers, they're
+// copied before they are normalized.
+func (eng *Engine) enqueue(ctx context.Context, urls URLs) error {
+	var batch = make(URLs, 0, len(urls))
+
+	for _, u := range urls {
+		clone := *u
+		batch = append(batch, normalize.URL(&clone))
 	}
 
 	next, err := eng.dedupe(ctx, eng.matches(batch))
-- 
2.43.0


From 19ad25fea26fb47292dff3e3184110ec752958c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:26 +0000
Subject: [PATCH 41/50] fix: report errors of the deduper that wrap io.EOF

---
 engine.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/engine.go b/engine.go
index fb24473..4517b32 100644
--- a/engine.go
+++ b/engine.go
@@ -189,14 +189,19 @@ func (eng *Engine) Enqueue(ctx context.Context, rawurls ...string) error {
 		batch = append(batch, u)
 	}
 
-	return eng.enqueue(ctx, batch)
+	next, err := eng.next(ctx, batch)
+	if err != nil {
+		return err
+	}
+
+	return eng.queue.Enqueue(ctx, next)
 }
 
-// Enqueue enqueues the given parsed urls.
+// Next returns the URLs to queue out of the given parsed urls.
 //
 // The URLs and the slice may be shared by scrapers, they're
 // copied before they are normalized.
-func (eng *Engine) enqueue(ctx context.Context, urls URLs) error {
+func (eng *Engine) next(ctx context.Context, urls URLs) (URLs, error) {
 	var batch = make(URLs, 0, len(urls))
 
 	for _, u := range urls {
@@ -204,16 +209,7 @@ func (eng *Engine) enqueue(ctx context.Context, urls URLs) error {
 		batch = append(batch, normalize.URL(&clone))
 	}
 
-	next, err := eng.dedupe(ctx, eng.matches(batch))
-	if err != nil {
-		return err
-	}
-
-	if err := eng.queue.Enqueue(ctx, next); err != nil {
-		return err
-	}
-
-	return nil
+	return eng.dedupe(ctx, eng.matches(batch))
 }
 
 // Run runs a single crawl worker.
@@ -279,11 +275,16 @@ func (eng *Engine) process(ctx context.Context, url *URL) error {
 		return err
 	}
 
+	next, err := eng.next(ctx, urls)
+	if err != nil {
+		return fmt.Errorf("ant: enqueue - %w", err)
+	}
+
 	// Enqueue URLs.
 	//
 	// The queue is closed early only when the crawl is being
 	// stopped, the reason is reported by whoever stopped it.
-	if err := eng.enqueue(ctx, urls); err != nil && !errors.Is(err, io.EOF) {
+	if err := eng.queue.Enqueue(ctx, next); err != nil && !errors.Is(err, io.EOF) {
 		return fmt.Errorf("ant: enqueue - %w", err)
 	}
 
-- 
2.43.0


From c1860d4f6b377bccc07d018731a03105aa04c1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:42 +0000
Subject: [PATCH 42/50] fix: Next reports that the page could not be parsed

---
 page.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/page.go b/page.go
index 39e62ed..8e8a1d7 100644
--- a/page.go
+++ b/page.go
@@ -100,7 +100,12 @@ func (p *Page) URLs() URLs {
 }
 
 // Next all URLs matching the given selector.
+//
+// The method returns an error if the document could not be parsed.
 func (p *Page) Next(selector string) (URLs, error) {
+	if err := p.parse(); err != nil {
+		return nil, err
+	}
 	return p.resolve(selector), nil
 }
 
-- 
2.43.0


From 5206c856ab89f21541183cc79745c95c1502fe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:03 +0000
Subject: [PATCH 43/50] fix: anttest.Fetch fails the test when the page is
 missing

---
 anttest/anttest.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anttest/anttest.go b/anttest/anttest.go
index 623a3fb..a2b2f49 100644
--- a/anttest/anttest.go
+++ b/anttest/anttest.go
@@ -33,6 +33,9 @@ func Fetch(t testing.TB, url string) *ant.Page {
 	if err != nil {
 		t.Fatalf("anttest: %s", err)
 	}
+	if page == nil {
+		t.Fatalf("anttest: fetch %q - not found", url)
+	}
 
 	return page
 }
-- 
2.43.0


From de318458e8987f4cc98e1cbd1c852c2e8c5c39d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:50 +0000
Subject: [PATCH 44/50] fix: the pause before a retry does not overflow

---
 fetcher.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fetcher.go b/fetcher.go
index 863f01c..8786e31 100644
--- a/fetcher.go
+++ b/fetcher.go
@@ -249,14 +249,15 @@ func (f *Fetcher) client() Client {
 func (f *Fetcher) backoff(ctx context.Context, attempt int) error {
 	var min = f.minBackoff()
 	var max = f.maxBackoff()
-	var dur = time.Duration(attempt*attempt) * min
+	var dur = max
 
 	if min >= max {
 		return fmt.Errorf("ant: min backoff must be greater than max backoff")
 	}
 
-	if dur > max {
-		dur = max
+	// The product overflows after many attempts.
+	if n := time.Duration(attempt * attempt); n <= max/min {
+		dur = n * min
 	}
 
 	var timer = time.NewTimer(dur)
-- 
2.43.0


From 0c2bd41b351191534ec42bdfc742a57dcbf410bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:15 +0000
Subject: [PATCH 45/50] fix: an empty port is the default port

---
 internal/normalize/url.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/normalize/url.go b/internal/normalize/url.go
index 5648bf5..173f69a 100644
--- a/internal/normalize/url.go
+++ b/internal/normalize/url.go
@@ -47,6 +47,8 @@ func hostname(u *url.URL) string {
 
 	if j := strings.LastIndexByte(host, ':'); j != -1 {
 		switch port := host[j+1:]; {
+		case port == "":
+			return host[:j]
 		case u.Scheme == "http" && port == "80":
 			return host[:j]
 		case u.Scheme == "https" && port == "443":
-- 
2.43.0


From 016253705a7689b2292debdb0c79366cfb5674c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:02 +0000
Subject: [PATCH 46/50] fix: normalize percent-encoded triplets of the query

---
 internal/normalize/url.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/internal/normalize/url.go b/internal/normalize/url.go
index 173f69a..9888490 100644
--- a/internal/normalize/url.go
+++ b/internal/normalize/url.go
@@ -6,6 +6,7 @@ package normalize
 import (
 	"net/url"
 	"path"
+	"regexp"
 	"sort"
 	"strings"
 )
@@ -87,12 +88,32 @@ func pathname(u *url.URL) (decoded, encoded string) {
 	return decoded, encoded
 }
 
-// Query sorts the given query.
+// Query normalizes the triplets of the given query and sorts it.
 func query(query string) string {
 	if query != "" {
 		parts := strings.Split(query, "&")
+		for j, part := range parts {
+			if _, err := url.QueryUnescape(part); err == nil {
+				parts[j] = triplet.ReplaceAllStringFunc(part, decode)
+			}
+		}
 		sort.Strings(parts)
 		return strings.Join(parts, "&")
 	}
 	return ""
 }
+
+// Triplet matches a percent-encoded triplet.
+var triplet = regexp.MustCompile(`%[0-9A-Fa-f]{2}`)
+
+// Unreserved matches an unreserved character.
+var unreserved = regexp.MustCompile(`^[A-Za-z0-9._~-]$`)
+
+// Decode decodes the given triplet if it encodes an unreserved
+// character, all other triplets are returned in uppercase.
+func decode(triplet string) string {
+	if s, err := url.PathUnescape(triplet); err == nil && unreserved.MatchString(s) {
+		return s
+	}
+	return strings.ToUpper(triplet)
+}
-- 
2.43.0


From 86b1552300824155ae9e443672d3e00a09acee1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:12 +0000
Subject: [PATCH 47/50] fix: compare robots.txt rules with URLs as encoded

A rule with percent-encoded characters never matched, a rule is compared
with the path and query of a URL as RFC 9309 section 2.2.2 says.
---
 internal/robots/cache.go  | 12 ++++++---
 internal/robots/escape.go | 57 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 66 insertions(+), 3 deletions(-)
 create mode 100644 internal/robots/escape.go

diff --git a/internal/robots/cache.go b/internal/robots/cache.go
index 9c88b89..ac767e1 100644
--- a/internal/robots/cache.go
+++ b/internal/robots/cache.go
@@ -7,6 +7,7 @@ package robots
 import (
 	"context"
 	"fmt"
+	"io"
 	"net/http"
 	"net/url"
 	"sync"
@@ -99,7 +100,7 @@ func NewCache(c *http.Client, capacity int) *Cache {
 // The method returns an error if the context is canceled
 // or if a parsing error occurs.
 func (c *Cache) Allowed(ctx context.Context, req Request) (bool, error) {
-	var path = req.URL.Path
+	var path = req.URL.EscapedPath()
 	var ua = req.userAgent()
 
 	if len(path) > 0 && path[0] != '/' {
@@ -115,7 +116,7 @@ func (c *Cache) Allowed(ctx context.Context, req Request) (bool, error) {
 		return false, err
 	}
 
-	return host.test(path, ua), nil
+	return host.test(escape(path, "*$"), ua), nil
 }
 
 // Wait blocks until the given request can be sent.
@@ -213,7 +214,12 @@ func (c *Cache) lookup(ctx context.Context, r Request) (*Host, error) {
 		return s, nil
 	}
 
-	data, err := robotstxt.FromResponse(resp)
+	body, err := io.ReadAll(resp.Body)
+	if err != nil {
+		return nil, fmt.Errorf("robots: read robots.txt - %w", err)
+	}
+
+	data, err := robotstxt.FromStatusAndBytes(resp.StatusCode, escapeRules(body))
 	if err != nil {
 		return nil, fmt.Errorf("robots: parse robots.txt - %w", err)
 	}
diff --git a/internal/robots/escape.go b/internal/robots/escape.go
new file mode 100644
index 0000000..cbb1e86
--- /dev/null
+++ b/internal/robots/escape.go
@@ -0,0 +1,57 @@
+package robots
+
+import (
+	"fmt"
+	"regexp"
+	"strconv"
+	"strings"
+)
+
+// Rule matches a line with an allow, or a disallow rule.
+var rule = regexp.MustCompile(`(?i)(?:^|[\r\n])[ \t]*(?:dis)?allow[ \t]*:[^#\r\n]*`)
+
+// EscapeRules escapes the paths of all rules in robots.txt.
+func escapeRules(robots []byte) []byte {
+	return rule.ReplaceAllFunc(robots, func(line []byte) []byte {
+		return []byte(escape(string(line), ""))
+	})
+}
+
+// Escape returns the escaped form of a path and a query in which they are
+// compared with rules, RFC 9309 section 2.2.2.
+//
+// Characters that are not ASCII, and the given ones, are percent-encoded, all
+// triplets are decoded unless they stand for a character that would have
+// a different meaning if it was not encoded.
+func escape(s, encode string) string {
+	var b strings.Builder
+	var keep = "/?%*$#"
+
+	for j := 0; j < len(s); j++ {
+		c := s[j]
+
+		if c == '?' {
+			keep = "&+=%*$#"
+		}
+
+		if c == '%' && j+2 < len(s) {
+			if n, err := strconv.ParseUint(s[j+1:j+3], 16, 8); err == nil {
+				j += 2
+				if c = byte(n); c <= ' ' || c >= 0x7f || strings.IndexByte(keep, c) != -1 {
+					fmt.Fprintf(&b, "%%%02X", c)
+				} else {
+					b.WriteByte(c)
+				}
+				continue
+			}
+		}
+
+		if c >= 0x80 || strings.IndexByte(encode, c) != -1 {
+			fmt.Fprintf(&b, "%%%02X", c)
+		} else {
+			b.WriteByte(c)
+		}
+	}
+
+	return b.String()
+}
-- 
2.43.0


From 2cb2f102a7dda4c4f159a642e1dc4cbefcd055c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:12 +0000
Subject: [PATCH 48/50] fix: strip the white space around links

---
 page.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/page.go b/page.go
index 8e8a1d7..6006ce7 100644
--- a/page.go
+++ b/page.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"net/http"
 	"net/url"
+	"strings"
 	"sync"
 
 	"github.com/yields/ant/internal/scan"
@@ -124,7 +125,7 @@ func (p *Page) resolve(selector string) URLs {
 
 	for _, a := range anchors {
 		if href, ok := scan.Attr(a, "href"); ok {
-			u, err := url.Parse(href)
+			u, err := url.Parse(strings.Trim(href, " \t\n\f\r"))
 			if err != nil {
 				continue
 			}
-- 
2.43.0


From 38f5f4611662d86a1eaa306857d3a49e0f1853ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:12 +0000
Subject: [PATCH 49/50] fix: the debug message of loads misses an argument

---
 antcache/disk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index c362e9f..5e47115 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -458,7 +458,7 @@ func (d *Diskstore) Load(_ context.Context, key uint64) (v []byte, err error) {
 		if v, err = os.ReadFile(f.path); err != nil {
 			return nil, fmt.Errorf("antcache: disk read %q - %w", f.path, err)
 		}
-		d.debugf("load %d %s", key)
+		d.debugf("load %d", key)
 	}
 
 	if v != nil && d.compress {
-- 
2.43.0


From 8ea57c124fe9b33f639dccc6a4b641686d108213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:25 +0000
Subject: [PATCH 50/50] fix: pages that are queued are still fetched after a
 failure

---
 engine.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/engine.go b/engine.go
index 4517b32..1a7a891 100644
--- a/engine.go
+++ b/engine.go
@@ -230,6 +230,12 @@ func (eng *Engine) run(ctx context.Context, eg *errgroup.Group) error {
 			return err
 		}
 
+		// The crawl was stopped, drop what is still queued.
+		if err := ctx.Err(); err != nil {
+			eng.queue.Done(ctx, url)
+			return err
+		}
+
 		if eng.sema != nil {
 			if err := eng.sema.Acquire(ctx, 1); err != nil {
 				eng.queue.Done(ctx, url)
-- 
2.43.0

