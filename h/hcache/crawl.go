package hcache

import (
	"bytes"
	"context"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/antcache"
	"github.com/yields/ant/zverif/mc"
	"github.com/yields/ant/zverif/vos"
)

// sitePage is a page of the site that is crawled through the cache.
type sitePage struct {
	status int
	links  string
	final  string // after redirects
	kind   string // "": as the others, "no-store"
}

const siteBase = "http://h/"

var site = map[string]sitePage{
	"a": {200, "b c", "", ""},
	"b": {200, "a d ?q=1", "", ""},
	"c": {200, "d miss r", "", ""},
	"d": {200, "", "", ""},
	"r": {200, "rel", "x/y", ""},
	// Linked by r, whose links are relative to where it was redirected to.
	"x/rel": {200, "", "", ""},
	"b?q=1": {200, "a", "", ""},
	"miss":  {404, "", "", ""},
}

var smallSite = map[string]sitePage{
	"a":    {200, "b c", "", ""},
	"b":    {200, "miss", "", ""},
	"c":    {200, "", "", ""},
	"miss": {404, "", "", ""},
}

func siteText(pages map[string]sitePage, p string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "<html><head><title>%s</title></head><body>", p)
	for _, l := range strings.Fields(pages[p].links) {
		fmt.Fprintf(&b, "<a href=\"%s\">%s</a>", l, l)
	}
	if pages[p].status == 200 {
		b.WriteString(strings.Repeat("é", len(p)))
	}
	b.WriteString("</body></html>")
	return b.String()
}

// siteCrawl is one crawl.
type siteCrawl struct {
	x        *mc.X
	pages    map[string]sitePage
	scraper  string
	workers  int
	conc     int
	out      bytes.Buffer
	seen     map[string]string // scraped pages with their HTML
	times    map[string]int
	err      error
	returned bool
	failAt   string // the scraper fails at this page
	failed   bool
}

type siteItem struct {
	Title string   `css:"title" json:"title"`
	Links []string `css:"a@href" json:"links"`
}

func (c *siteCrawl) Scrape(ctx context.Context, p *ant.Page) (ant.URLs, error) {
	u := strings.TrimPrefix(p.URL.String(), siteBase)
	c.times[u]++
	if u == c.failAt {
		c.failed = true
		return nil, errBoom
	}
	switch c.scraper {
	case "JSON":
		return ant.JSON(&c.out, siteItem{}).Scrape(ctx, p)
	case "untouched":
		for k, s := range c.pages {
			if k == u || s.final == u {
				var ret ant.URLs
				for _, l := range strings.Fields(s.links) {
					ret = append(ret, p.URL.ResolveReference(mustURL(l)))
				}
				return ret, nil
			}
		}
		return nil, nil
	}
	h, err := p.HTML()
	if err != nil {
		return nil, err
	}
	c.seen[u] = h
	return p.URLs(), nil
}

func (c *siteCrawl) run(ctx context.Context, client ant.Client) {
	c.seen, c.times = map[string]string{}, map[string]int{}
	eng, err := ant.NewEngine(ant.EngineConfig{
		Scraper: c, Impolite: true, Workers: c.workers, Concurrency: c.conc, Fetcher: &ant.Fetcher{Client: client, MaxAttempts: 1},
	})
	if err != nil {
		c.x.Fail("NewEngine", "%v", err)
		return
	}
	c.err = eng.Run(ctx, siteBase+"a")
	c.returned = true
}

func (c *siteCrawl) lines() string {
	l := strings.SplitAfter(c.out.String(), "\n")
	sort.Strings(l)
	return strings.Join(l, "")
}

// serveSite makes the origin serve the site and count the requests.
func serveSite(x *mc.X, pages map[string]sitePage, headers func(p string) http.Header) (*origin, map[string]int, map[string]int) {
	plain, conds := map[string]int{}, map[string]int{}
	o := &origin{x: x}
	o.serve = func(q *oreq, req *http.Request) (*http.Response, error) {
		x.Point("origin " + q.url)
		if err := req.Context().Err(); err != nil {
			return nil, err
		}
		p := strings.TrimPrefix(q.url, siteBase)
		s, ok := pages[p]
		if !ok {
			x.Fail("unknown page", "%s was requested", q.url)
			return nil, errBoom
		}
		h := headers(p)
		h.Set("Date", httpDate(time.Now()))
		if tag := q.header.Get("If-None-Match"); tag != "" {
			conds[p]++
			if tag == h.Get("Etag") {
				return response(req, 304, h, ""), nil
			}
		}
		plain[p]++
		resp := response(req, s.status, h, siteText(pages, p))
		if s.final != "" {
			r := req.Clone(req.Context())
			r.URL = mustURL(siteBase + s.final)
			resp.Request = r
		}
		return resp, nil
	}
	return o, plain, conds
}

// expected pages: what is scraped, by final URL.
func expected(pages map[string]sitePage) map[string]string {
	m := map[string]string{}
	for p, s := range pages {
		if s.status == 200 {
			k := p
			if s.final != "" {
				k = s.final
			}
			m[k] = siteText(pages, p)
		}
	}
	return m
}

// complete checks a crawl that must have been complete.
func (c *siteCrawl) complete(what string) {
	x := c.x
	x.Check(c.returned && c.err == nil, "error", "%s: Run: %v", what, c.err)
	want := expected(c.pages)
	for u, text := range want {
		x.Check(c.times[u] == 1, "scraped set", "%s: %q was scraped %d times", what, u, c.times[u])
		if c.scraper == "HTML" {
			x.Check(c.seen[u] == text, "another page", "%s: %q is %q, want %q", what, u, c.seen[u], text)
		}
	}
	for u := range c.times {
		_, ok := want[u]
		x.Check(ok, "scraped set", "%s: %q was scraped", what, u)
	}
}

type cachedConf struct {
	name   string
	p      policy
	header func(p string) http.Header
	gap    time.Duration
	asked  string // pages that are requested again: none, stale (conditionally) or listed
}

var cachedConfs = []cachedConf{
	{"fresh", std, func(p string) http.Header { return hdr("Cache-Control", "max-age=60", "Etag", `"`+p+`"`) }, 10 * time.Second, "none"},
	{"stale", std, func(p string) http.Header { return hdr("Cache-Control", "max-age=60", "Etag", `"`+p+`"`) }, 2 * time.Minute, "stale"},
	{"not all", std, func(p string) http.Header {
		if p == "c" || p == "miss" {
			return hdr("Cache-Control", "no-store")
		}
		return hdr("Cache-Control", "max-age=60")
	}, 10 * time.Second, "c miss"},
	{"aggressive", policy{name: "aggressive", aggr: true, age: time.Hour}, func(p string) http.Header { return hdr() }, 30 * time.Minute, "none"},
	{"aggressive, private", policy{name: "aggressive", aggr: true, age: time.Hour}, func(p string) http.Header { return hdr("Cache-Control", "private, max-age=0") }, 30 * time.Minute, "none"},
}

func init() {
	scen := func(name string, pages map[string]sitePage, store string, stop []string, scrapers []string, q, th mc.Bound) {
		add(&mc.Scenario{Name: "crawl/" + name, Prop: "C41", Quick: q, Thorough: th, Horizon: 100 * time.Hour, Run: func(x *mc.X) {
			conf := cachedConfs[x.Choose(len(cachedConfs), "policy")]
			how := scrapers[x.Choose(len(scrapers), "scraper")]
			end := stop[x.Choose(len(stop), "end")]
			wc := [][2]int{{1, 0}, {2, 1}, {2, 0}}[x.Choose(3, "workers")]
			o, plain, conds := serveSite(x, pages, conf.header)
			var st antcache.Storage
			switch store {
			case "storage":
				st = newStorage()
			case "disk":
				dfs()
			}
			var d *antcache.Diskstore
			open := func() bool {
				if store != "disk" {
					return true
				}
				var err error
				if d, err = antcache.Open(root, antcache.SweepEvery(0)); err != nil {
					x.Fail("open", "%v", err)
					return false
				}
				d.Wait(bg)
				st = d
				return true
			}
			one := &siteCrawl{x: x, pages: pages, scraper: how, workers: wc[0], conc: wc[1]}
			two := &siteCrawl{x: x, pages: pages, scraper: how, workers: wc[0], conc: wc[1]}
			ctx, cancel := context.WithCancel(bg)
			if strings.HasPrefix(end, "fails at ") {
				one.failAt = strings.TrimPrefix(end, "fails at ")
			}
			var ca *antcache.Cache
			x.Go("crawl", func() {
				if !open() {
					return
				}
				ca = newCache(x, conf.p, o, st)
				one.run(ctx, ca)
				if d != nil {
					d.Close()
				}
			})
			if end == "canceled" {
				x.Go("cancel", func() { cancel() })
			}
			if !x.Finish() {
				return
			}
			cancel()
			x.NonTrivial()
			desc := fmt.Sprintf("%s %s %s %v", conf.name, how, end, wc)
			whole := one.err == nil
			if whole {
				one.complete(desc + ": first crawl")
			} else {
				x.Check(end != "complete", "error", "%s: Run: %v", desc, one.err)
			}
			for p, n := range plain {
				x.Check(n == 1 && conds[p] == 0, "asked twice", "%s: %q was requested %d times in one crawl", desc, p, n+conds[p])
			}
			first := map[string]bool{}
			for p := range plain {
				first[p] = true
				delete(plain, p)
			}
			x.Go("again", func() {
				x.Point("sleep")
				time.Sleep(conf.gap)
				x.Point("awake")
				if store == "disk" {
					if !open() {
						return
					}
					ca = newCache(x, conf.p, o, st)
				}
				two.run(bg, ca)
				if d != nil {
					d.Close()
				}
			})
			if !x.Finish() {
				return
			}
			two.complete(desc + ": second crawl")
			if whole && how == "JSON" {
				x.Check(one.lines() == two.lines(), "another output", "%s: the first crawl writes %q, the second %q", desc, one.lines(), two.lines())
			}
			x.Obs("%s: %v, %d then %d and %d", desc, one.err != nil, len(first), len(plain), len(conds))
			for p := range pages {
				np, nc := plain[p], conds[p]
				kept := first[p] && !strings.Contains(" "+conf.asked+" ", " "+p+" ")
				switch {
				case !kept:
					x.Check(np == 1 && nc == 0, "requests", "%s: %q is not in the cache but the second crawl requests it %d times, %d times conditionally", desc, p, np+nc, nc)
				case conf.asked == "stale":
					x.Check(np == 0 && nc == 1, "requests", "%s: %q is stale but the second crawl requests it %d times, %d times conditionally", desc, p, np+nc, nc)
				default:
					x.Check(np == 0 && nc == 0, "requests", "%s: %q is in the cache and fresh but the second crawl requests it %d times, %d times conditionally", desc, p, np+nc, nc)
				}
			}
		}})
	}
	how := []string{"HTML", "JSON", "untouched"}
	scen("cached", site, "memory", []string{"complete"}, how, mc.Bound{Dev: 1, Policies: 3}, mc.Bound{Dev: 2, Policies: 1})
	scen("cached, storage", smallSite, "storage", []string{"complete"}, how, mc.Bound{Dev: 1, Policies: 3}, mc.Bound{Dev: 2, Policies: 3})
	scen("stopped", smallSite, "memory", []string{"canceled", "fails at b", "fails at c"}, how, mc.Bound{Dev: 1, Policies: 2}, mc.Bound{Dev: 2, Policies: 3})
	scen("disk", smallSite, "disk", []string{"complete", "canceled", "fails at b"}, how[:2], mc.Bound{Dev: 1, Policies: 2}, mc.Bound{Dev: 2, Policies: 1})

	// Crashes at every operation on the disk.
	add(&mc.Scenario{Name: "crawl/crash", Prop: "C41", Quick: mc.Bound{Dev: 1, Policies: 1}, Thorough: mc.Bound{Dev: 1, Policies: 3}, Horizon: 100 * time.Hour, Run: func(x *mc.X) {
		conf := cachedConfs[[]int{0, 3}[x.Choose(2, "policy")]]
		var opts = []antcache.DiskOption{antcache.SweepEvery(0)}
		if x.Flag("compress") {
			opts = append(opts, antcache.Compress())
		}
		wc := [][2]int{{1, 0}, {2, 0}}[x.Choose(2, "workers")]
		o, plain, conds := serveSite(x, smallSite, conf.header)
		fs := dfs()
		crashed := false
		at := ""
		fs.Hook = func(op vos.Op) vos.Action {
			if op.Mutates() && x.Flag("crash before "+op.Kind) {
				crashed, at = true, op.String()
				return vos.Crash
			}
			return vos.OK
		}
		crawl := func(c *siteCrawl) {
			d, err := antcache.Open(root, opts...)
			if !x.Check(err == nil, "cannot be opened", "after a crash at %s: %v", at, err) {
				return
			}
			d.Wait(bg)
			c.run(bg, newCache(x, conf.p, o, d))
			x.Check(d.Close() == nil, "close", "after a crash at %s", at)
		}
		one := &siteCrawl{x: x, pages: smallSite, scraper: "HTML", workers: wc[0], conc: wc[1]}
		two := &siteCrawl{x: x, pages: smallSite, scraper: "HTML", workers: wc[0], conc: wc[1]}
		x.Go("crawl", func() { crawl(one) })
		if !x.Finish() {
			return
		}
		x.NonTrivial()
		if !crashed {
			one.complete("without a crash")
		}
		machine := x.Flag("machine crash")
		fs.Hook = nil
		fs = fs.Image(machine, func(n int, label string) int { return x.Choose(n, label) })
		vos.Use(fs)
		x.State(fs.Dump())
		first := len(plain)
		for p := range plain {
			delete(plain, p)
		}
		x.Go("again", func() { crawl(two) })
		if !x.Finish() {
			return
		}
		two.complete(fmt.Sprintf("after a crash at %q, of the machine: %v", at, machine))
		again := 0
		for p, n := range plain {
			again += n
			x.Check(n == 1 && conds[p] == 0, "requests", "after a crash at %s: %q is requested %d times, %d times conditionally", at, p, n, conds[p])
		}
		x.Obs("%d then %d, crash %s machine %v", first, again, at, machine)
		if !crashed {
			x.Check(again == 0, "requests", "every page was stored before the crash but %d are requested", again)
		}
	}})
}
