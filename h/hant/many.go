package hant

import (
	"context"
	"fmt"
	"net/http"
	"sort"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/mc"
	"github.com/yields/ant/zverif/vsched"
)

// Sizes at which something grows, wraps or is evicted: whatever the number of
// pages, URLs, hosts and attempts, the guarantees are the same.
func init() {
	num := func(n int) string { return fmt.Sprintf("%sp%d", base, n) }
	add(&mc.Scenario{
		Name: "crawl/many", Prop: "C01", MaxSteps: 1000000, Quick: mc.Bound{Dev: 0, Policies: 3}, Thorough: mc.Bound{Dev: 0, Policies: 3},
		Doc: "sites of up to 1100 pages of five shapes, 1 to 20 workers",
		Run: func(x *mc.X) {
			shape := mc.Pick(x, "shape", "star", "chain", "tree", "complete", "levels", "links")
			size := mc.Pick(x, "size", 70, 270, 1100)
			cc := mc.Pick(x, "workers", crawlConf{workers: 1}, crawlConf{workers: 1, conc: 1}, crawlConf{workers: 3, conc: 2}, crawlConf{workers: 20, conc: 20}, crawlConf{workers: 4, conc: 70})
			if shape == "complete" {
				size = map[int]int{70: 12, 270: 40, 1100: 80}[size]
			}
			// Many links to few pages.
			links := 0
			if shape == "links" {
				links = map[int]int{70: 600, 270: 5100, 1100: 12000}[size]
				size = 12
			}
			w := newWeb(x)
			for i := 0; i < size; i++ {
				p := &pg{}
				switch shape {
				case "links":
					if i == 0 {
						for j := 0; j < links; j++ {
							p.links = append(p.links, num(j*size/links))
						}
					}
				case "star":
					if i == 0 {
						for j := 1; j < size; j++ {
							p.links = append(p.links, num(j))
						}
					}
				case "chain":
					p.links = []string{num((i + 1) % size)}
				case "tree":
					for j := 2*i + 1; j <= 2*i+2 && j < size; j++ {
						p.links = append(p.links, num(j))
					}
				case "complete":
					for j := 0; j < size; j++ {
						p.links = append(p.links, num(j))
					}
				case "levels":
					for j := 0; j < 10; j++ {
						if k := (i/10+1)*10 + j; k < size {
							p.links = append(p.links, num(k), num(0))
						}
					}
				}
				w.pages[num(i)] = p
			}
			c := &crawl{w: w, workers: cc.workers, conc: cc.conc, starts: []string{num(0)}}
			c.spawn()
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			got := w.fetched()
			sort.Strings(got)
			want := w.reach(c.starts)
			desc := fmt.Sprintf("%s of %d, %d workers, concurrency %d", shape, size, cc.workers, cc.conc)
			x.Obs("%s: %d", desc, len(got))
			x.Check(c.err == nil && fmt.Sprint(got) == fmt.Sprint(want), "fetched set", "%s: %d pages fetched, want %d (err %v)", desc, len(got), len(want), c.err)
			x.Check(w.count("scrape", "") == len(want), "scraped", "%s: %d pages scraped, want %d", desc, w.count("scrape", ""), len(want))
			if cc.conc > 0 {
				x.Check(w.max <= cc.conc, "too many", "%s: %d pages in progress", desc, w.max)
			}
		},
	})

	// Many start URLs, and pages of many links of which some are excluded.
	for _, prop := range []string{"C01", "C05"} {
		prop := prop
		add(&mc.Scenario{
			Name: map[string]string{"C01": "crawl/starts", "C05": "gate/many"}[prop], Prop: prop, MaxSteps: 1000000, Quick: mc.Bound{Dev: 0, Policies: 1}, Thorough: mc.Bound{Dev: 0, Policies: 3},
			Doc: "up to 2100 start URLs, or links of a page, of which every k-th is excluded, repeated or cannot be found",
			Run: func(x *mc.X) {
				n := mc.Pick(x, "URLs", 30, 70, 600, 2100)
				what := mc.Pick(x, "the", "starts", "links", "enqueued")
				every := mc.Pick(x, "every", 2, 7, 1000)
				kind := mc.Pick(x, "kind", "excluded", "repeated", "missing")
				cc := mc.Pick(x, "workers", crawlConf{workers: 1}, crawlConf{workers: 3, conc: 2})
				w := newWeb(x)
				var us []string
				for i := 0; i < n; i++ {
					u := num(i)
					w.pages[u] = &pg{}
					if i%every == every-1 || i == n-1 {
						switch kind {
						case "excluded":
							w.pages[u].matchNo = true
						case "repeated":
							us = append(us, u, num(i/2))
						case "missing":
							w.pages[u].status = 404
						}
					}
					us = append(us, u)
				}
				c := &crawl{w: w, workers: cc.workers, conc: cc.conc, starts: us, matcher: true}
				switch what {
				case "links":
					w.pages[base+"root"] = &pg{links: us}
					c.starts = []string{base + "root"}
				case "enqueued":
					c.starts = us[:1]
					c.before = func() {
						x.Check(c.eng.Enqueue(context.Background(), us...) == nil, "error", "Enqueue")
					}
				}
				want := w.reach(append(us, c.starts...))
				c.spawn()
				if !x.Finish() {
					return
				}
				x.NonTrivial()
				desc := fmt.Sprintf("%d %s, every %dth %s, %d workers, concurrency %d", n, what, every, kind, cc.workers, cc.conc)
				got := w.fetched()
				sort.Strings(got)
				x.Obs("%s: %d", desc, len(got))
				x.Check(c.err == nil && fmt.Sprint(got) == fmt.Sprint(want), "fetched set", "%s: %d pages fetched, want %d (err %v)", desc, len(got), len(want), c.err)
				if kind != "missing" {
					x.Check(w.count("scrape", "") == len(want), "scraped", "%s: %d pages scraped, want %d", desc, w.count("scrape", ""), len(want))
				}
			},
		})
	}

	// Many hosts, each with its own crawl delay.
	add(&mc.Scenario{
		Name: "polite/many", Prop: "C06", MaxSteps: 10000000, Horizon: 1000 * time.Hour, Quick: mc.Bound{Dev: 0, Policies: 2}, Thorough: mc.Bound{Dev: 0, Policies: 3},
		Doc: "up to 600 hosts of up to 4 pages with crawl delays of a second to two hours, crawled at the same time",
		Run: func(x *mc.X) {
			hosts := mc.Pick(x, "hosts", 5, 20, 70, 140, 600)
			pages := mc.Pick(x, "pages", 2, 4)
			delay := mc.Pick(x, "delay", time.Second, 90*time.Second, 2*time.Hour)
			odd := mc.Pick(x, "delay of the others", 0, 1, 3) // of every second host, in times
			cc := mc.Pick(x, "workers", crawlConf{workers: 1}, crawlConf{workers: 4, conc: 100})
			if hosts*pages > 1200 || cc.conc > 0 && hosts > 20 && delay > time.Minute {
				x.Discard()
				return
			}
			w := newWeb(x)
			every := func(h int) time.Duration {
				if h%2 == 1 {
					return time.Duration(odd) * delay
				}
				return delay
			}
			c := &crawl{w: w, workers: cc.workers, conc: cc.conc, polite: true}
			for p := 0; p < pages; p++ {
				for h := 0; h < hosts; h++ {
					u := fmt.Sprintf("http://h%d/p%d", h, p)
					w.pages[u] = &pg{}
					c.starts = append(c.starts, u)
				}
			}
			for h := 0; h < hosts; h++ {
				text := "User-agent: *\nDisallow: /no\n"
				if d := every(h); d > 0 {
					text += fmt.Sprintf("Crawl-delay: %d\n", int(d.Seconds()))
				}
				w.robots[fmt.Sprintf("h%d", h)] = &pg{links: []string{text}}
			}
			c.spawn()
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			desc := fmt.Sprintf("%d hosts of %d pages, %s and %s apart, %d workers, concurrency %d", hosts, pages, delay, time.Duration(odd)*delay, cc.workers, cc.conc)
			x.Obs("%s", desc)
			x.Check(c.err == nil && w.count("fetch", "") == hosts*pages, "fetched set", "%s: %d pages fetched, %v", desc, w.count("fetch", ""), c.err)
			last := map[int]time.Duration{}
			for _, e := range w.log {
				if e.kind != "fetch" {
					continue
				}
				var h, p int
				fmt.Sscanf(e.url, "http://h%d/p%d", &h, &p)
				if at, ok := last[h]; ok {
					x.Check(e.at-at >= every(h), "crawl delay", "%s: host %d is asked %s after it was", desc, h, e.at-at)
					if cc.conc == 0 {
						x.Check(e.at-at == every(h), "waits too long", "%s: host %d is asked %s after it was", desc, h, e.at-at)
					}
				}
				last[h] = e.at
			}
		},
	})

	// Queues: rounds of pushing and popping, until the queue is empty again.
	add(&mc.Scenario{
		Name: "queue/many", Prop: "C08", Tree: true, Bubble: true,
		Run: func(x *mc.X) {
			bg := context.Background()
			capacity := mc.Pick(x, "capacity", 0, 1, 16, 1000)
			batch := mc.Pick(x, "batch", 1, 3, 64, 1000)
			push := mc.Pick(x, "batches per round", 1, 2, 20)
			pop := mc.Pick(x, "popped per round", 1, 2, 63, 64, 65, 999, 5000)
			rounds := mc.Pick(x, "rounds", 1, 3, 20)
			if batch*push*rounds > 30000 {
				x.Discard()
				return
			}
			desc := fmt.Sprintf("capacity %d, %d rounds of %d batches of %d and %d dequeued", capacity, rounds, push, batch, pop)
			q := ant.MemoryQueue(capacity)
			all := make([]ant.URL, batch*push*rounds)
			in, out := 0, 0
			take := func() bool {
				u, err := q.Dequeue(bg)
				if !x.Check(err == nil && u == &all[out], "not FIFO", "%s: the URL number %d was not dequeued as such (%v)", desc, out, err) {
					return false
				}
				out++
				return x.Check(q.Done(bg, u) == nil, "error", "%s: Done", desc)
			}
			for r := 0; r < rounds; r++ {
				for b := 0; b < push; b++ {
					us := make(ant.URLs, batch)
					for i := range us {
						us[i] = &all[in]
						in++
					}
					if !x.Check(q.Enqueue(bg, us) == nil, "error", "%s: Enqueue", desc) {
						return
					}
				}
				for i := 0; i < pop && out < in; i++ {
					if !take() {
						return
					}
				}
			}
			for out < in {
				if !take() {
					return
				}
			}
			q.Wait() // a call that blocks is reported
			x.Step(in)
			x.NonTrivial()
			x.Obs("%d", in)
		},
	})

	// Waiting for so many URLs that a counter may wrap around.
	add(&mc.Scenario{
		Name: "queuewait/many", Prop: "C09", MaxSteps: 10000000, Quick: mc.Bound{Policies: 1}, Thorough: mc.Bound{Policies: 3},
		Doc: "up to 70000 URLs queued",
		Run: func(x *mc.X) {
			bg := context.Background()
			n := mc.Pick(x, "URLs", 128, 255, 256, 257, 32768, 65535, 65536, 65537, 70000)
			batches := mc.Pick(x, "batches", 1, 2, 64)
			capacity := mc.Pick(x, "capacity", 0, 100, 100000)
			end := mc.Pick(x, "end", "all done", "all but one done, then closed", "closed")
			desc := fmt.Sprintf("%d URLs in %d batches, capacity %d, %s", n, batches, capacity, end)
			q := ant.MemoryQueue(capacity)
			all := make(ant.URLs, n)
			for i := range all {
				all[i] = &ant.URL{}
			}
			for b := 0; b < batches; b++ {
				if !x.Check(q.Enqueue(bg, all[b*n/batches:(b+1)*n/batches]) == nil, "enqueue", "%s", desc) {
					return
				}
			}
			over := false
			left := n
			x.NonTrivial()
			x.Go("wait", func() {
				q.Wait()
				vsched.Post("waited")
				x.Check(over, "Wait returned early", "%s: %d are left", desc, left)
				x.Obs("%s", desc)
			})
			x.Go("main", func() {
				x.Point("start")
				acks := n
				switch end {
				case "all but one done, then closed":
					acks = n - 1
				case "closed":
					acks = 0
				}
				for i := 0; i < acks; i++ {
					u, err := q.Dequeue(bg)
					if !x.Check(err == nil && u == all[i], "not FIFO", "%s: number %d, %v", desc, i, err) {
						return
					}
					over = i == n-1
					if !x.Check(q.Done(bg, u) == nil, "done", "%s", desc) {
						return
					}
					left--
				}
				if end != "all done" {
					x.Point("before closing")
					over = true
					x.Check(q.Close(bg) == nil, "close", "%s", desc)
				}
			})
			x.Finish()
		},
	})

	// Large batches stay together, whoever else uses the queue.
	add(&mc.Scenario{
		Name: "queue/batches", Prop: "C08", MaxSteps: 100000, Quick: mc.Bound{Dev: 1, Policies: 3}, Thorough: mc.Bound{Dev: 1, Policies: 3},
		Run: func(x *mc.X) {
			bg := context.Background()
			seqs := [][]int{{mc.Pick(x, "batch", 2, 70, 140)}, {1, 2}}
			if x.Thorough() {
				seqs = [][]int{{mc.Pick(x, "batch", 2, 140, 300)}, {1, 70}}
			}
			total := 0
			for _, s := range seqs {
				for _, n := range s {
					total += n
				}
			}
			q := ant.MemoryQueue(mc.Pick(x, "capacity", 0, 200))
			name := map[*ant.URL]string{}
			var got []string
			done := false
			for i, seq := range seqs {
				x.Go(fmt.Sprint("enqueuer", i), func() {
					for b, n := range seq {
						var us ant.URLs
						for k := 0; k < n; k++ {
							u := &ant.URL{}
							name[u] = fmt.Sprintf("%d.%d.%d/%d", i, b, k, n)
							us = append(us, u)
						}
						x.Check(q.Enqueue(bg, us) == nil, "error", "Enqueue")
					}
				})
			}
			waiter := x.Flag("waiter")
			if waiter {
				x.Go("waiter", func() {
					q.Wait()
					vsched.Post("waited")
				})
			}
			x.Go("dequeuer", func() {
				for len(got) < total {
					u, err := q.Dequeue(bg)
					vsched.Post("dequeued")
					if !x.Check(err == nil && name[u] != "", "error", "Dequeue: %v", err) {
						return
					}
					got = append(got, name[u])
					if waiter {
						q.Done(bg, u)
					}
				}
				done = true
			})
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			x.Step(total)
			x.Obs("%v %v", seqs, got[:1])
			x.Check(done, "lost", "%v: %d URLs dequeued", seqs, len(got))
			next := [2]int{}
			for len(got) > 0 {
				var i, b, k, n int
				fmt.Sscanf(got[0], "%d.%d.%d/%d", &i, &b, &k, &n)
				if !x.Check(b == next[i] && k == 0 && len(got) >= n, "not FIFO", "%v: %s is dequeued out of order", seqs, got[0]) {
					return
				}
				for j := 0; j < n; j++ {
					if !x.Check(got[j] == fmt.Sprintf("%d.%d.%d/%d", i, b, j, n), "batch torn apart", "%v: %s is dequeued after %d URLs of batch %d of enqueuer %d", seqs, got[j], j, b, i) {
						return
					}
				}
				next[i]++
				got = got[n:]
			}
		},
	})

	// Dedupers.
	add(&mc.Scenario{
		Name: "dedupe/many", Prop: "C10", Tree: true,
		Run: func(x *mc.X) {
			d, bf := ant.DedupeMap(), false
			switch x.Choose(3, "deduper") {
			case 1:
				d, bf = ant.DedupeBF(1000000, 7), true
			case 2:
				d, bf = ant.DedupeBF(1000, 3), true
			}
			batch := mc.Pick(x, "batch", 1, 10, 1000, 10000)
			total := mc.Pick(x, "URLs", 10000, 150000)
			if total > 10000 && (bf || batch != 1000) {
				x.Discard()
				return
			}
			seen := map[string]bool{}
			lost := 0
			x.NonTrivial()
			// All of them, then all of them again, in the other order.
			for round := 0; round < 2; round++ {
				for i := 0; i < total; i += batch {
					var us ant.URLs
					for j := i; j < i+batch; j++ {
						k := j
						if round == 1 {
							k = total - 1 - j
						}
						us = append(us, mustURL(num(k)))
					}
					out, err := d.Dedupe(context.Background(), us)
					x.Check(err == nil, "error", "%v", err)
					x.Step(1)
					for _, u := range out {
						s := u.String()
						x.Check(!seen[s] && round == 0, "visited twice", "batches of %d: %s was returned in round %d though it was seen", batch, s, round)
						seen[s] = true
					}
					if round == 0 {
						lost += len(us) - len(out)
					}
				}
			}
			x.Obs("%v %d", bf, lost)
			x.Check(bf || lost == 0, "lost", "batches of %d: %d URLs were returned to nobody", batch, lost)
		},
	})

	// Large batches of two callers at the same time.
	add(&mc.Scenario{
		Name: "dedupe/batches", Prop: "C10", MaxSteps: 1000000, Quick: mc.Bound{Dev: 1, Policies: 3}, Thorough: mc.Bound{Dev: 2, Policies: 3},
		Doc: "two or three callers with overlapping batches of up to 1100 URLs",
		Run: func(x *mc.X) {
			bf := x.Flag("bloom filter")
			d := ant.DedupeMap()
			if bf {
				d = ant.DedupeBF(1000000, 7)
			}
			n := 1100
			if !bf {
				n = 300 // every URL is a point at which the other goes on
			}
			batch := func(from, to int) (us ant.URLs) {
				for k := from; k < to; k++ {
					us = append(us, mustURL(num(k)))
				}
				return
			}
			seen := map[string]int{}
			ask := func(us ant.URLs) {
				out, err := d.Dedupe(context.Background(), us)
				x.Check(err == nil, "error", "%v", err)
				at := 0
				for _, u := range out {
					seen[u.String()]++
					for at < len(us) && us[at] != u {
						at++
					}
					if !x.Check(at < len(us), "order", "the result is not in the order of the batch") {
						return
					}
				}
			}
			x.NonTrivial()
			x.Go("first", func() { ask(batch(0, n)) })
			x.Go("second", func() { ask(batch(n/3, n+50)) })
			if x.Flag("third") {
				x.Go("third", func() { ask(append(batch(n/2, n), batch(0, 10)...)) })
			}
			if !x.Finish() {
				return
			}
			lost := 0
			for k := 0; k < n+50; k++ {
				c := seen[num(k)]
				x.Check(c <= 1, "visited twice", "%s was returned %d times", num(k), c)
				if c == 0 {
					lost++
				}
			}
			x.Check(lost == 0 || bf, "lost", "%d URLs were returned to nobody", lost)
			x.Obs("%v %d", bf, lost)
		},
	})

	// The pause after an attempt neither overflows nor ends.
	add(&mc.Scenario{
		Name: "fetch/patience", Prop: "C14", Tree: true, Bubble: true, Horizon: 200 * 365 * 24 * time.Hour,
		Run: func(x *mc.X) {
			type conf struct {
				min, max time.Duration
				attempts int
			}
			c := mc.Pick(x, "backoff", conf{1000 * time.Hour, 2000 * time.Hour, 300}, conf{24 * time.Hour, 300 * 24 * time.Hour, 200}, conf{24 * time.Hour, 25 * time.Hour, 3000}, conf{time.Nanosecond, time.Second, 40000},
				conf{time.Hour, 2 * time.Hour, 2500}, conf{365 * 24 * time.Hour, 1000 * 24 * time.Hour, 30}, conf{time.Nanosecond, 2 * time.Nanosecond, 100})
			n := 0
			last := time.Now()
			f := &ant.Fetcher{MaxAttempts: c.attempts, MinBackoff: c.min, MaxBackoff: c.max, Client: doFunc(func(r *http.Request) (*http.Response, error) {
				if n > 0 {
					want := c.max
					if k := time.Duration(n) * time.Duration(n); k <= c.max/c.min {
						want = k * c.min
					}
					x.Check(time.Since(last) == want, "pause", "%v: pause of %v after attempt %d, want %v", c, time.Since(last), n, want)
				}
				n++
				last = time.Now()
				return &http.Response{StatusCode: 503, Body: http.NoBody, Request: r}, nil
			})}
			p, err := f.Fetch(context.Background(), mustURL(base))
			x.NonTrivial()
			x.Step(n)
			x.Obs("%v %d", c, n)
			x.Check(p == nil && err != nil && n == c.attempts, "attempts", "%v: %d attempts, err %v", c, n, err)
		},
	})

	// Many hosts, each has its own robots.txt.
	add(&mc.Scenario{
		Name: "robots/many", Prop: "C16", MaxSteps: 1000000, Quick: mc.Bound{Dev: 0, Policies: 2}, Thorough: mc.Bound{Dev: 0, Policies: 3},
		Run: func(x *mc.X) {
			n := mc.Pick(x, "hosts", 20, 150, 900)
			cc := mc.Pick(x, "workers", crawlConf{workers: 1, conc: 1}, crawlConf{workers: 3}, crawlConf{workers: 10, conc: 10})
			w := newWeb(x)
			host := func(i int) string { return fmt.Sprintf("h%d", i) }
			var starts, want []string
			for i := 0; i < n; i++ {
				text := "User-agent: *\nDisallow: /no\n"
				no := false
				switch i % 4 {
				case 1:
					text, no = "User-agent: *\nDisallow: /yes\n", true
				case 2:
					text = ""
				}
				if i%4 < 3 {
					w.robots[host(i)] = &pg{links: []string{text}}
				}
				u := "http://" + host(i)
				w.pages[u+"/"] = &pg{links: []string{u + "/no", u + "/yes"}}
				w.pages[u+"/no"] = &pg{}
				w.pages[u+"/yes"] = &pg{}
				starts = append(starts, u+"/")
				want = append(want, u+"/")
				if no || i%4 >= 2 {
					want = append(want, u+"/no")
				}
				if !no {
					want = append(want, u+"/yes")
				}
			}
			c := &crawl{w: w, workers: cc.workers, conc: cc.conc, starts: starts, polite: true}
			c.spawn()
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			got := w.fetched()
			sort.Strings(got)
			sort.Strings(want)
			x.Obs("%d hosts, %d workers: %d", n, cc.workers, len(got))
			x.Check(c.err == nil && fmt.Sprint(got) == fmt.Sprint(want), "fetched set", "%d hosts: %d pages fetched, want %d (err %v)", n, len(got), len(want), c.err)
			asked := map[string]int{}
			for _, e := range w.log {
				if e.kind == "robots" {
					asked[e.url]++
				}
			}
			for i := 0; i < n; i++ {
				k := asked["http://"+host(i)+"/robots.txt"]
				// Two pages of a host may miss at the same time.
				x.Check(k == 1 || k == 2 && cc.conc != 1, "requests for robots.txt", "%d hosts: robots.txt of host %d was requested %d times", n, i, k)
			}
		},
	})

	// Rates of any size.
	add(&mc.Scenario{
		Name: "rate/many", Prop: "C13", Tree: true, Bubble: true, Horizon: 1000 * time.Hour,
		Run: func(x *mc.X) {
			n := mc.Pick(x, "rate", 1, 4, 7, 10, 60, 100, 1000, 30000)
			k := x.Choose(4, "kind")
			pattern := mc.Pick(x, "calls", "as many as possible", "bursts", "one at a time", "after a long pause", "a little too fast")
			l := limiterKind(k, n)
			u := mustURL("http://h/x")
			start := time.Now()
			sec := time.Second
			var at, called []time.Duration
			// When an ideal limiter would let each of the calls through.
			ideal, now := make([]time.Duration, 0), time.Duration(0)
			tokens, last := float64(n), time.Duration(0)
			calls := 3*n + 5
			if calls > 5000 {
				calls = n + 2000
			}
			for i := 0; i < calls; i++ {
				pause := time.Duration(0)
				switch pattern {
				case "bursts":
					if i%(n/2+1) == n/2 {
						pause = 400 * time.Millisecond
					}
				case "one at a time":
					pause = sec/time.Duration(n) + 1
				case "after a long pause":
					if i == n+1 {
						pause = 30 * time.Hour
					}
				case "a little too fast":
					pause = sec / time.Duration(n) * 9 / 10
				}
				now += pause
				tokens = min(float64(n), tokens+float64(n)*(now-last).Seconds())
				last = now
				if tokens--; tokens < 0 {
					now += time.Duration(-tokens / float64(n) * float64(sec))
				}
				ideal = append(ideal, now)
				time.Sleep(pause)
				called = append(called, time.Since(start))
				if err := l.Limit(context.Background(), u); !x.Check(err == nil, "error", "%d/s, call %d: %v", n, i, err) {
					return
				}
				at = append(at, time.Since(start))
			}
			x.NonTrivial()
			x.Step(calls)
			desc := fmt.Sprintf("%d/s, kind %d, %s", n, k, pattern)
			x.Obs("%s: %v", desc, at[len(at)-1])
			want := bucket(n, called)
			for i, t := range at {
				if !x.Check(t <= ideal[i]+time.Millisecond, "too slow", "%s: call %d allowed at %v, may be at %v", desc, i, t, ideal[i]) {
					return
				}
				if !x.Check(t <= want[i]+time.Millisecond, "too slow", "%s: call %d at %v allowed at %v, may be at %v", desc, i, called[i], t, want[i]) {
					return
				}
				// The bucket which starts full allows the most.
				if !x.Check(t >= want[i]-time.Millisecond, "rate exceeded", "%s: call %d at %v allowed at %v, may be at %v", desc, i, called[i], t, want[i]) {
					return
				}
			}
		},
	})
}
