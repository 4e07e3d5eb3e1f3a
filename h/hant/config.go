package hant

import (
	"context"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/mc"
)

// C43: configurations in which anything optional is left out.
func init() {
	const delay = time.Second
	add(&mc.Scenario{
		Name: "config/defaults", Prop: "C43", Bubble: true, Quick: mc.Bound{Dev: 0, Policies: 2}, Thorough: mc.Bound{Dev: 1, Policies: 2},
		Run: func(x *mc.X) {
			workers := mc.Pick(x, "workers", 1, 0, -1, 3)
			conc := mc.Pick(x, "concurrency", 0, -1, 1, 2)
			deduper := mc.Pick(x, "deduper", "nil", "map", "bf")
			fetcher := mc.Pick(x, "fetcher", "nil", "zero", "client", "agent")
			queue := x.Flag("queue")
			limiter, matcher, impolite := x.Flag("limiter"), x.Flag("matcher"), x.Flag("impolite")

			// The program may have another default agent.
			defua := "antbot"
			if workers == 1 && conc == 0 && (fetcher == "zero" || fetcher == "client" || fetcher == "agent") && x.Flag("another default agent") {
				defua = "mybot"
				was := ant.UserAgent
				ant.UserAgent = ant.StaticAgent(defua)
				x.Cleanup(func() { ant.UserAgent = was })
			}

			w := newWeb(x)
			for p, l := range map[string]string{"a": "bcdfg", "b": "e", "c": "bx", "d": "", "e": "ag", "f": "", "g": ""} {
				n := &pg{delay: delay, matchNo: p == "f"}
				for _, c := range l {
					n.links = append(n.links, base+string(c))
				}
				w.pages[base+p] = n
			}
			w.robots["h"] = &pg{links: []string{"User-agent: " + defua + "\nDisallow: /g\n"}}
			w.hookDefaultClient()
			// The default client carries pages and robots.txt, other clients
			// only pages.
			ant.DefaultClient.Transport = roundTripFunc(func(r *http.Request) (*http.Response, error) {
				if r.URL.Path == "/robots.txt" {
					return w.RoundTrip(r)
				}
				x.Check(fetcher == "nil" || fetcher == "zero", "client", "%s was requested from the default client, not from that of the fetcher", r.URL)
				return w.Do(r)
			})
			own := 0
			mine := doFunc(func(r *http.Request) (*http.Response, error) {
				own++
				x.Check(r.URL.Path != "/robots.txt", "client", "robots.txt was requested from the client of the fetcher")
				return w.Do(r)
			})
			ua := defua
			ec := ant.EngineConfig{Workers: workers, Concurrency: conc, Impolite: impolite}
			switch deduper {
			case "map":
				ec.Deduper = ant.DedupeMap()
			case "bf":
				ec.Deduper = ant.DedupeBF(1000, 5)
			}
			switch fetcher {
			case "zero":
				ec.Fetcher = &ant.Fetcher{}
			case "client":
				ec.Fetcher = &ant.Fetcher{Client: mine}
			case "agent":
				ua = "other"
				ec.Fetcher = &ant.Fetcher{Client: mine, UserAgent: ant.StaticAgent(ua)}
			}
			if queue {
				ec.Queue = ant.MemoryQueue(1)
			}
			if limiter {
				ec.Limiter = w
			}
			if matcher {
				ec.Matcher = w
			}
			desc := fmt.Sprintf("workers %d, concurrency %d, deduper %s, fetcher %s, queue %v, limiter %v, matcher %v, impolite %v, default agent %s", workers, conc, deduper, fetcher, queue, limiter, matcher, impolite, defua)
			eng, err := ant.NewEngine(ec)
			x.Check(eng == nil && err != nil, "no scraper", "%s: no error without a scraper", desc)
			ec.Scraper = w
			eng, err = ant.NewEngine(ec)
			if !x.Check(eng != nil && err == nil, "refused", "%s: %v", desc, err) {
				return
			}
			start := time.Now()
			end := time.Duration(-1)
			var rerr error
			x.Go("run", func() {
				rerr = eng.Run(context.Background(), base+"a")
				end = time.Since(start)
				w.over = true
			})
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			x.Obs("%s: %s %v", desc, short(w.fetched()), end)
			x.Check(rerr == nil, "error", "%s: %v", desc, rerr)
			want := []string{base + "a", base + "b", base + "c", base + "d", base + "e"}
			if !matcher {
				want = append(want, base+"f")
			}
			if impolite {
				want = append(want, base+"g")
			}
			want = append(want, base+"x")
			got := w.fetched()
			sort.Strings(got)
			x.Check(strings.Join(got, " ") == strings.Join(want, " "), "fetched set", "%s: fetched %s, want %s", desc, short(got), short(want))
			for _, u := range want[:len(want)-1] {
				x.Check(w.count("scrape", u) == 1, "scraped", "%s: %s scraped %d times", desc, u, w.count("scrape", u))
			}
			for _, e := range w.log {
				switch e.kind {
				case "fetch":
					x.Check(e.ua == ua, "user agent", "%s: page requested as %q", desc, e.ua)
					x.Check(!limiter || w.count("limited", e.url) >= 1, "limiter", "%s: %s fetched but not limited", desc, e.url)
				case "robots":
					x.Check(!impolite, "impolite", "%s: robots.txt requested", desc)
					x.Check(e.ua == defua, "user agent", "%s: robots.txt requested as %q", desc, e.ua)
				}
			}
			if !impolite {
				x.Check(w.count("robots", "") > 0, "polite", "%s: robots.txt not requested", desc)
			}
			if ec.Fetcher != nil && ec.Fetcher.Client != nil {
				x.Check(own == len(want), "client", "%s: %d of %d pages requested from the client", desc, own, len(want))
			}
			// Pages take a second each: a, then its children, then theirs (x is
			// missing and takes no time).
			n := time.Duration(len(want) - 1)
			switch {
			case conc <= 0:
				x.Check(end == 3*delay, "limited concurrency", "%s: the crawl took %v, as much as its depth is %v", desc, end, 3*delay)
			case conc == 1:
				x.Check(w.max == 1 && end == n*delay, "concurrency", "%s: the crawl took %v, %d at a time", desc, end, w.max)
			default:
				min := 1 + n/2
				x.Check(w.max <= conc && end >= min*delay && end <= (min+1)*delay, "concurrency", "%s: the crawl took %v, %d at a time", desc, end, w.max)
			}
		},
	})
}
