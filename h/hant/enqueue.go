package hant

import (
	"context"
	"fmt"
	"io"
	"sort"

	"errors"
	"net/url"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/mc"
)

// enqueuer is a scraper that enqueues what it finds by itself.
type enqueuer struct {
	*web
	c      *crawl
	direct map[string]bool // pages whose links are enqueued
	both   bool            // they are returned as well
	single bool            // they are enqueued one by one
}

func (e *enqueuer) Scrape(ctx context.Context, p *ant.Page) (ant.URLs, error) {
	us, err := e.web.Scrape(ctx, p)
	if err != nil || !e.direct[p.URL.String()] {
		return us, err
	}
	var raw []string
	for _, u := range us {
		raw = append(raw, u.String())
	}
	if e.single {
		for _, r := range raw {
			e.x.Check(e.c.eng.Enqueue(ctx, r) == nil, "Enqueue failed", "%s", r)
		}
	} else {
		err := e.c.eng.Enqueue(ctx, raw...)
		e.x.Check(err == nil, "Enqueue failed", "%s: %v", raw, err)
	}
	if e.both {
		return us, nil
	}
	return nil, nil
}

var _ ant.Scraper = (*enqueuer)(nil)

// URLs that reach the engine through Engine.Enqueue are start URLs, whoever
// calls it: the program before it runs the engine, or a scraper.
func init() {
	graphs := []struct {
		name  string
		pages map[string]*pg
	}{
		{"chain", map[string]*pg{"a": {links: []string{"b"}}, "b": {links: []string{"c"}}, "c": {links: []string{"a", "d"}}, "d": {}}},
		{"diamond", map[string]*pg{"a": {links: []string{"b", "c"}}, "b": {links: []string{"d", "a"}}, "c": {links: []string{"d", "d"}}, "d": {links: []string{"e"}}, "e": {}}},
		{"missing", map[string]*pg{"a": {links: []string{"b", "x", "c"}}, "b": {links: []string{"x"}}, "c": {links: []string{"b"}}}},
	}
	scenario := func(name string, prop string, quick, thorough mc.Bound, fine bool) {
		add(&mc.Scenario{Name: name, Prop: prop, Fine: fine, Quick: quick, Thorough: thorough, Run: func(x *mc.X) {
			g := graphs[x.Choose(len(graphs), "graph")]
			cc := mc.Pick(x, "workers", crawlConf{workers: 1}, crawlConf{workers: 2}, crawlConf{workers: 2, conc: 1}, crawlConf{workers: 1, conc: 2})
			w := newWeb(x)
			for p, d := range g.pages {
				n := &pg{}
				for _, l := range d.links {
					n.links = append(n.links, base+l)
				}
				w.pages[base+p] = n
			}
			how := mc.Pick(x, "enqueued by", "caller", "caller and Run", "caller, one by one", "scraper", "scraper, one by one", "scraper, returned as well", "scraper of a", "a goroutine")
			starts := []string{base + "a"}
			c := &crawl{w: w, workers: cc.workers, conc: cc.conc, matcher: true}
			e := &enqueuer{web: w, c: c, direct: map[string]bool{}}
			c.cfg = func(ec *ant.EngineConfig) { ec.Scraper = e }
			enqueue := func(us ...string) {
				err := c.eng.Enqueue(context.Background(), us...)
				x.Check(err == nil, "Enqueue failed", "%s: %v", us, err)
			}
			// What may, but need not be crawled.
			maybe := ""
			switch how {
			case "caller":
				starts = append(starts, base+"b")
				c.before = func() { enqueue(starts...) }
			case "caller and Run":
				c.starts = []string{base + "a", base + "b"}
				starts = append(starts, base+"b", base+"other")
				w.pages[base+"other"] = &pg{links: []string{base + "a"}}
				c.before = func() { enqueue(base+"b", base+"other", base+"b") }
			case "caller, one by one":
				starts = append(starts, base+"b")
				c.starts = starts[:1]
				c.before = func() {
					for i := 0; i < 2; i++ {
						for _, s := range starts {
							enqueue(s)
						}
					}
				}
			case "a goroutine":
				maybe = base + "later"
				w.pages[maybe] = &pg{links: []string{base + "a"}}
				c.starts = starts
			default:
				c.starts = starts
				for u := range w.pages {
					e.direct[u] = how != "scraper of a" || u == base+"a"
				}
				e.single = how == "scraper, one by one"
				e.both = how == "scraper, returned as well"
			}
			want := w.reach(starts)
			c.spawn()
			if maybe != "" {
				x.Go("late", func() {
					x.Point("enqueue")
					err := c.eng.Enqueue(context.Background(), maybe)
					x.Check(err == nil || errors.Is(err, io.EOF), "Enqueue failed", "%v", err)
					if err != nil {
						maybe = "" // not for it
					}
				})
			}
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			desc := fmt.Sprintf("%s, %d workers, concurrency %d, enqueued by %s", g.name, cc.workers, cc.conc, how)
			got := w.fetched()
			sort.Strings(got)
			x.Obs("%s: %s", desc, short(got))
			x.Check(c.err == nil, "error", "%s: %v", desc, c.err)
			if how == "a goroutine" {
				late := w.count("fetch", base+"later")
				x.Check(late <= 1 && (maybe != "" || late == 0), "fetched twice", "%s: the late page was fetched %d times", desc, late)
				if late > 0 {
					want = append(want, base+"later")
					sort.Strings(want)
				}
			}
			x.Check(fmt.Sprint(got) == fmt.Sprint(want), "fetched set", "%s: fetched %s, want %s", desc, short(got), short(want))
			for _, u := range want {
				n := w.count("scrape", u)
				p := w.get(u)
				x.Check(n <= 1 && (n == 1) == (p != nil && p.status < 400), "scraped", "%s: %s was scraped %d times", desc, u, n)
			}
		}})
	}
	scenario("crawl/enqueue", "C01", mc.Bound{Dev: 1, Policies: 3}, mc.Bound{Dev: 2, Policies: 3}, false)

	// They are gated like all others, and refused as those given to Run.
	add(&mc.Scenario{Name: "gate/enqueue", Prop: "C05", Quick: mc.Bound{Dev: 1, Policies: 2}, Thorough: mc.Bound{Dev: 2, Policies: 3}, Run: func(x *mc.X) {
		w := newWeb(x)
		links := []string{"b", "HTTP://H:80/c", "d?z=1&a=2#x", "./x/../e", "%7Ef"}
		norm := []string{base + "b", base + "c", base + "d?a=2&z=1", base + "e", base + "~f"}
		no := x.Choose(len(norm)+1, "excluded")
		for i, n := range norm {
			w.pages[n] = &pg{matchNo: i == no}
		}
		root, _ := url.Parse(base + "a")
		w.pages[base+"a"] = &pg{}
		for _, l := range links {
			u, err := root.Parse(l)
			if err != nil {
				panic(err)
			}
			w.pages[base+"a"].links = append(w.pages[base+"a"].links, u.String())
		}
		c := &crawl{w: w, workers: 1 + x.Choose(2, "workers"), matcher: true, limiter: true, starts: []string{base + "a"}}
		e := &enqueuer{web: w, c: c, direct: map[string]bool{base + "a": true}, single: x.Flag("one by one")}
		c.cfg = func(ec *ant.EngineConfig) { ec.Scraper = e }
		c.spawn()
		if !x.Finish() {
			return
		}
		x.NonTrivial()
		x.Check(c.err == nil, "error", "%v", c.err)
		for i, n := range norm {
			want := 1
			if i == no {
				want = 0
			}
			for _, k := range []string{"limited", "fetch", "scrape"} {
				x.Check(w.count(k, n) == want, "gate", "%s of %s happened %d times, want %d", k, n, w.count(k, n), want)
			}
			x.Check(w.count("match", n) > 0, "normal form", "the matcher was not asked about %s", n)
		}
		x.Obs("%d", no)
	}})
}
