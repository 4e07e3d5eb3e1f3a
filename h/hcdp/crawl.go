package hcdp

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/mc"
)

// sitePage is a page of a site crawled through the browser.
type sitePage struct {
	links string
	final string // after redirects
	d     doc
	busy  int // times the server is too busy for it
}

const siteBase = "http://site.test/"

func sites() []map[string]sitePage {
	wide := map[string]sitePage{
		"a": {links: "b c d", d: doc{subs: []sub{{done: true, typ: "Image"}}}},
		"b": {links: "a d ?q=1", d: doc{setCookie: "js=1"}},
		"c": {links: "d miss r", d: doc{subs: []sub{{frame: true, done: true, typ: "Document"}}}},
		"d": {d: doc{status: 203, subs: []sub{{typ: "XHR"}}}},
		"r": {links: "rel", final: "x/y", d: doc{redirects: []string{siteBase + "mid", siteBase + "x/y"}}},
		// Linked by r, whose links are relative to where it was redirected to.
		"x/rel": {},
		"b?q=1": {links: "a", busy: 1},
		"miss":  {links: "never", d: doc{status: 404}},
	}
	small := map[string]sitePage{
		"a":    {links: "b c"},
		"b":    {links: "miss a", d: doc{subs: []sub{{typ: "XHR"}}}},
		"c":    {busy: 1},
		"miss": {d: doc{status: 404}},
	}
	for _, s := range []map[string]sitePage{wide, small} {
		for p, v := range s {
			if v.d.status == 0 {
				v.d.status = 200
			}
			v.d.header = map[string]string{"X-Page": p, "Content-Type": "text/html"}
			v.d.html = siteText(p, v.links)
			s[p] = v
		}
	}
	return []map[string]sitePage{small, wide}
}

func siteText(p, links string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "<html><head><title>%s</title></head><body>", p)
	for _, l := range strings.Fields(links) {
		fmt.Fprintf(&b, "<a href=\"%s\">%s</a>", l, l)
	}
	b.WriteString("</body></html>")
	return b.String()
}

// crawlClient is the client between the engine and the browser's.
type crawlClient struct {
	x        *mc.X
	b        *browser
	c        ant.Client
	site     map[string]sitePage
	users    int
	busy     map[string]int
	asked    map[string]int
	at, most int // requests under way
}

func (c *crawlClient) Do(req *http.Request) (*http.Response, error) {
	acquire()
	c.users++
	user := c.users
	c.at++
	if c.at > c.most {
		c.most = c.at
	}
	p := strings.TrimPrefix(req.URL.String(), siteBase)
	s, ok := c.site[p]
	c.x.Check(ok, "unknown page", "%s was requested", req.URL)
	d := s.d
	if c.busy[p] < s.busy {
		c.busy[p]++
		d.status = 503
	} else {
		c.asked[p]++
	}
	c.b.docs[req.URL.String()] = &d
	ctx := c.b.start(req.Context(), user)
	release()
	resp, err := c.c.Do(req.WithContext(ctx))
	acquire()
	c.b.end(user)
	c.at--
	release()
	return resp, err
}

// siteCrawl is one crawl.
type siteCrawl struct {
	x        *mc.X
	site     map[string]sitePage
	scraper  string
	workers  int
	conc     int
	failAt   string
	failed   bool
	out      bytes.Buffer
	times    map[string]int
	bad      []string
	err      error
	returned bool
}

type siteItem struct {
	Title string   `css:"title" json:"title"`
	Links []string `css:"a@href" json:"links"`
}

func (c *siteCrawl) Scrape(ctx context.Context, p *ant.Page) (ant.URLs, error) {
	u := strings.TrimPrefix(p.URL.String(), siteBase)
	acquire()
	c.times[u]++
	if u == c.failAt {
		c.failed = true
		release()
		return nil, errNetwork
	}
	release()
	for k, s := range c.site {
		if k == u && s.final == "" || s.final == u {
			c.x.Check(p.Header.Get("X-Page") == k, "header of another", "%s: X-Page is %q", p.URL, p.Header.Get("X-Page"))
		}
	}
	if c.scraper == "JSON" {
		return ant.JSON(&c.out, siteItem{}).Scrape(ctx, p)
	}
	h, err := p.HTML()
	if err != nil {
		return nil, err
	}
	for k, s := range c.site {
		if k == u && s.final == "" || s.final == u {
			c.x.Check(h == s.d.html, "another page", "%s is %q, want %q", p.URL, h, s.d.html)
		}
	}
	return p.URLs(), nil
}

func (c *siteCrawl) run(ctx context.Context, client ant.Client) {
	c.times = map[string]int{}
	eng, err := ant.NewEngine(ant.EngineConfig{
		Scraper: c, Impolite: true, Workers: c.workers, Concurrency: c.conc, Fetcher: &ant.Fetcher{Client: client, MaxAttempts: 2},
	})
	if err != nil {
		c.x.Fail("NewEngine", "%v", err)
		return
	}
	c.err = eng.Run(ctx, siteBase+"a")
	c.returned = true
}

// expected output of a crawl: what is scraped, and the lines of JSON.
func expected(site map[string]sitePage) (map[string]bool, string) {
	m := map[string]bool{}
	var lines []string
	for p, s := range site {
		if s.d.status >= 400 {
			continue
		}
		k := p
		if s.final != "" {
			k = s.final
		}
		m[k] = true
		links := "[]"
		if f := strings.Fields(s.links); len(f) > 0 {
			links = `["` + strings.Join(f, `","`) + `"]`
		}
		lines = append(lines, fmt.Sprintf("{\"title\":%q,\"links\":%s}\n", p, links))
	}
	sort.Strings(lines)
	return m, strings.Join(lines, "")
}

// complete checks a crawl that must have been complete.
func (c *siteCrawl) complete(what string, cl *crawlClient) {
	x := c.x
	x.Check(c.returned && c.err == nil, "error", "%s: Run: %v", what, c.err)
	want, lines := expected(c.site)
	for u := range want {
		x.Check(c.times[u] == 1, "scraped set", "%s: %q was scraped %d times", what, u, c.times[u])
	}
	for u := range c.times {
		x.Check(want[u], "scraped set", "%s: %q was scraped", what, u)
	}
	for p, s := range c.site {
		x.Check(cl.asked[p] == 1, "requests", "%s: %q was requested %d times", what, p, cl.asked[p])
		x.Check(cl.busy[p] == s.busy, "requests", "%s: %q was busy %d times", what, p, cl.busy[p])
	}
	if c.scraper == "JSON" {
		l := strings.SplitAfter(c.out.String(), "\n")
		sort.Strings(l)
		got := strings.ReplaceAll(strings.Join(l, ""), "null", "[]")
		x.Check(got == lines, "output", "%s: output %q, want %q", what, got, lines)
	}
}

func newCrawlClient(x *mc.X, b *browser, c ant.Client, site map[string]sitePage) *crawlClient {
	return &crawlClient{x: x, b: b, c: c, site: site, busy: map[string]int{}, asked: map[string]int{}}
}

// settled checks what a crawl leaves in the browser.
func (c *crawlClient) settled(what string) {
	for _, k := range c.b.conns {
		c.x.Check(k.closed, "connection left open", "%s: the crawl ended, the connection to %s is open", what, k.url)
	}
	c.x.Check(c.at == 0, "request left", "%s: the crawl ended, %d requests are under way", what, c.at)
	c.x.Check(len(c.b.order) <= c.most, "targets", "%s: %d targets for at most %d requests at a time", what, len(c.b.order), c.most)
}

func mustURL(s string) *url.URL {
	u, err := url.Parse(s)
	if err != nil {
		panic(err)
	}
	return u
}

func init() {
	confs := [][2]int{{1, 0}, {2, 1}, {1, 2}, {2, 0}}
	add(&mc.Scenario{
		Name: "browser/crawl", Prop: "C42", MaxSteps: 60000, Quick: mc.Bound{Dev: 1, Policies: 1}, Thorough: mc.Bound{Dev: 1, Policies: 3},
		Doc: "a crawl of a site through the browser, every page is rendered and scraped once",
		Run: func(x *mc.X) {
			b := newBrowser(x)
			b.orders = "deviate"
			wide := x.Flag("wide")
			site, hows, confs := sites()[0], []string{"HTML", "JSON"}, confs
			if wide {
				site = sites()[1]
				if !x.Thorough() {
					hows, confs = hows[1:], [][2]int{{1, 0}, {2, 1}}
				}
			}
			how := mc.Pick(x, "scraper", hows...)
			conf := mc.Pick(x, "workers", confs...)
			cl := newCrawlClient(x, b, newClient(), site)
			c := &siteCrawl{x: x, site: site, scraper: how, workers: conf[0], conc: conf[1]}
			x.Go("crawl", func() {
				c.run(context.Background(), cl)
				c.complete("crawl", cl)
				cl.settled("crawl")
				if n := conf[1]; n > 0 {
					x.Check(cl.most <= n, "concurrency", "%d requests at a time, want at most %d", cl.most, n)
				}
				x.NonTrivial()
			})
			x.Finish()
		},
	})
	add(&mc.Scenario{
		Name: "browser/stopped", Prop: "C42", MaxSteps: 60000, Quick: mc.Bound{Dev: 0, Policies: 3}, Thorough: mc.Bound{Dev: 1, Policies: 1},
		Doc: "a crawl through the browser that is canceled, or fails, at any point leaves nothing open; the next crawl is complete",
		Run: func(x *mc.X) {
			b := newBrowser(x)
			b.orders = "deviate"
			site := sites()[0]
			conf := mc.Pick(x, "workers", [2]int{1, 0}, [2]int{2, 1})
			kind := mc.Pick(x, "end", "cancel", "deadline", "scraper", "navigation", "drop", "error reply", "dial", "create", "silent new", "silent dial")
			at := 0
			switch kind {
			case "cancel":
				at = 1 + x.Choose(60, "call")
			case "drop":
				at = 1 + x.Choose(30, "call")
			case "error reply":
				at = 1 + x.Choose(12, "call")
			case "dial", "create", "scraper", "navigation", "silent new", "silent dial":
				at = 1 + x.Choose(3, "page")
			}
			ctx, cancel := context.WithCancel(context.Background())
			cl := newCrawlClient(x, b, newClient(), site)
			one := &siteCrawl{x: x, site: site, scraper: "HTML", workers: conf[0], conc: conf[1]}
			hit := false
			b.onCall = func(c *conn, n int, method string) string {
				if n != at {
					return ""
				}
				switch kind {
				case "cancel":
					hit = true
					cancel()
				case "drop":
					hit = true
					return "drop"
				case "error reply":
					hit = true
					return "error"
				}
				return ""
			}
			b.onDial = func(n int) error {
				if kind == "dial" && n == at {
					hit = true
					return errNetwork
				}
				return nil
			}
			b.onNew = func(n int) (int, error) {
				if kind == "create" && n == at {
					hit = true
					return 0, errNetwork
				}
				return 0, nil
			}
			if w, ok := strings.CutPrefix(kind, "silent "); ok {
				ctx, cancel = context.WithTimeout(context.Background(), 10*time.Second)
				b.silent = func(what string, n int) bool {
					if what == w && n == at {
						hit = true
						return true
					}
					return false
				}
			}
			pages := []string{"a", "b", "c"}
			switch kind {
			case "scraper":
				one.failAt = pages[at-1]
			case "navigation":
				bad := map[string]sitePage{}
				for k, v := range site {
					bad[k] = v
				}
				v := bad[pages[at-1]]
				v.d.errText = "net::ERR_CONNECTION_RESET"
				bad[pages[at-1]] = v
				cl.site = bad
				hit = true
			case "deadline":
				// The browser never answers.
				ctx, cancel = context.WithTimeout(context.Background(), 10*time.Second)
				b.onCall = func(c *conn, n int, method string) string {
					if method == "Page.navigate" && n > 8 {
						hit = true
						return "hang"
					}
					return ""
				}
			}
			x.Go("crawl", func() {
				defer cancel()
				one.run(ctx, cl)
				hit = hit || one.failed
				cl.settled(kind)
				x.Check(one.returned, "not returned", "%s at %d", kind, at)
				for u, n := range one.times {
					x.Check(n == 1, "scraped set", "%s at %d: %q was scraped %d times", kind, at, u, n)
				}
				if one.err == nil {
					// Not noticed: nothing may be missing.
					if kind == "scraper" || kind == "navigation" || kind == "dial" {
						x.Check(!hit, "no error", "%s at %d: no error", kind, at)
					}
					one.complete(kind, cl)
				} else {
					x.Check(hit, "error", "%s at %d: %v", kind, at, one.err)
					var want error
					switch kind {
					case "cancel":
						want = context.Canceled
					case "deadline", "silent new", "silent dial":
						want = context.DeadlineExceeded
					case "scraper", "dial", "create":
						want = errNetwork
					}
					if want != nil {
						x.Check(errors.Is(one.err, want), "other error", "%s at %d: %v, want %v", kind, at, one.err, want)
					}
				}
				x.NonTrivial()
				// The browser recovers.
				b.onCall, b.onDial, b.onNew, b.silent = nil, nil, nil, nil
				again := newCrawlClient(x, b, cl.c, site)
				again.users, again.most = cl.users, cl.most
				two := &siteCrawl{x: x, site: site, scraper: "JSON", workers: conf[0], conc: conf[1]}
				two.run(context.Background(), again)
				two.complete("again", again)
				again.settled("again")
			})
			x.Finish()
		},
	})
}
