package hant

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/internal/robots"
	"github.com/yields/ant/zverif/mc"
	"github.com/yields/ant/zverif/vsched"
)

// once reports whether at most n events of kind happened for u.
func (w *web) index(kind, u string) int {
	for i, e := range w.log {
		if e.kind == kind && e.url == u {
			return i
		}
	}
	return -1
}

func (w *web) logString() string {
	var b []string
	for _, e := range w.log {
		b = append(b, fmt.Sprintf("%s@%s %s", e.kind, e.at, strings.TrimPrefix(e.url, base)))
	}
	return strings.Join(b, ", ")
}

// gating: the matcher decides what is queued and the limiter what is fetched,
// and when.
func init() {
	const M, L = 1, 2
	run := func(x *mc.X, polite bool) {
		cc := []crawlConf{{1, "a", 1, 0}, {1, "a", 2, 1}, {3, "a", 2, 2}, {5, "a", 2, 0}, {6, "abc", 2, 1}, {2, "aab", 1, 2}}[x.Choose(6, "config")]
		w := newWeb(x)
		w.graph(graphs[cc.g])
		mask := 1 + x.Choose(3, "components")
		// Which pages the matcher excludes and the limiter refuses.
		deny := mc.Pick(x, "excluded", "", "b", "a", "bc")
		lim := ""
		if mask&L != 0 {
			lim = mc.Pick(x, "refused", "", "b", "a")
		}
		if lim != "" {
			w.errKind(0, 1, 2, 3, 4)
		}
		for u, p := range w.pages {
			p.matchNo = mask&M != 0 && strings.Contains(deny, u[len(base):])
			if strings.Contains(lim, u[len(base):]) && lim != "" {
				p.limitErr = w.boom
			}
		}
		w.limitTime = map[bool]time.Duration{true: time.Second, false: 0}[x.Flag("slow limiter")]
		c := &crawl{w: w, workers: cc.workers, conc: cc.conc, starts: urls(cc.starts), matcher: mask&M != 0, limiter: mask&L != 0, polite: polite}
		c.spawn()
		if !x.Finish() {
			return
		}
		x.NonTrivial()
		x.Obs("g%d w%d c%d m%d x%s l%s: %s", cc.g, cc.workers, cc.conc, mask, deny, lim, short(w.fetched()))
		ok := map[string]int{}
		for _, e := range w.log {
			p := w.get(e.url)
			switch e.kind {
			case "limited":
				ok[e.url]++
			case "fetch":
				if c.limiter {
					ok[e.url]--
					x.Check(ok[e.url] >= 0, "fetch without limiter", "%s was fetched before the limiter allowed it: %s", e.url, w.logString())
				}
				fallthrough
			case "scrape", "limit":
				x.Check(p == nil || !p.matchNo, "excluded "+e.kind, "%s: %s although the matcher excludes it", e.kind, e.url)
			}
			if e.kind == "fetch" && p != nil && p.limitErr != nil && c.limiter {
				x.Fail("refused fetch", "%s was fetched although the limiter refused it", e.url)
			}
		}
		if c.matcher {
			for _, u := range w.fetched() {
				x.Check(w.index("match", u) >= 0, "fetch without matcher", "%s was fetched but the matcher was never asked", u)
			}
		}
		if lim == "" {
			got := w.fetched()
			sort.Strings(got)
			want := w.reach(c.starts)
			x.Check(c.err == nil && fmt.Sprint(got) == fmt.Sprint(want), "fetched set", "fetched %v (err %v), the matcher allows %v", got, c.err, want)
		}
	}
	add(&mc.Scenario{
		Name: "gate/impolite", Prop: "C05", Quick: mc.Bound{Dev: 1, Policies: 2}, Thorough: mc.Bound{Dev: 2, Policies: 3},
		Run: func(x *mc.X) { run(x, false) },
	})
	add(&mc.Scenario{
		Name: "gate/polite", Prop: "C05", Quick: mc.Bound{Dev: 1, Policies: 3}, Thorough: mc.Bound{Dev: 2, Policies: 3},
		Run: func(x *mc.X) { run(x, true) },
	})
	// The components see URLs in normal form however they are spelled.
	add(&mc.Scenario{
		Name: "gate/spelling", Prop: "C05", Quick: mc.Bound{Dev: 0, Policies: 2}, Thorough: mc.Bound{Dev: 2, Policies: 2},
		Run: func(x *mc.X) {
			w := newWeb(x)
			spell := []string{"http://h/b", "HTTP://h/b", "http://H/b", "http://h:80/b", "http://h/b#f", "http://h/x/../b", "http://h/%62", "http://h/./b", "http://h/b?"}
			w.graph(map[string]string{"a": "", "b": ""})
			w.pages[base+"a"].links = []string{spell[x.Choose(len(spell), "spelling")], spell[x.Choose(len(spell), "spelling")]}
			w.pages[base+"b"].matchNo = x.Flag("excluded")
			starts := []string{base + "a"}
			if x.Flag("start") {
				starts = append(starts, spell[x.Choose(len(spell), "spelling")])
			}
			c := &crawl{w: w, workers: 2, conc: 1, starts: starts, matcher: true, limiter: true}
			c.spawn()
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			x.Obs("%v", short(w.fetched()))
			for _, e := range w.log {
				if e.kind == "match" || e.kind == "limit" || e.kind == "fetch" {
					x.Check(e.url == base+"a" || e.url == base+"b", "not normalized", "%s of %q", e.kind, e.url)
				}
			}
			n := 1
			if w.pages[base+"b"].matchNo {
				n = 0
			}
			x.Check(w.count("fetch", base+"b") == n && w.count("limit", base+"b") == n, "excluded", "fetched %d times, limited %d times, want %d", w.count("fetch", base+"b"), w.count("limit", base+"b"), n)
		},
	})
}

// Politeness.

// rule is one robots.txt line of the reference.
type rule struct {
	allow bool
	path  string
}

type group struct {
	agents []string
	rules  []rule
	delay  int
}

func (gs groups) text() string {
	var b strings.Builder
	for _, g := range gs {
		for _, a := range g.agents {
			fmt.Fprintf(&b, "User-agent: %s\n", a)
		}
		for _, r := range g.rules {
			k := "Disallow"
			if r.allow {
				k = "Allow"
			}
			fmt.Fprintf(&b, "%s: %s\n", k, r.path)
		}
		if g.delay > 0 {
			fmt.Fprintf(&b, "Crawl-delay: %d\n", g.delay)
		}
		b.WriteString("\n")
	}
	return b.String()
}

type groups []group

// find returns the group for an agent: the longest prefix, else "*".
func (gs groups) find(ua string) *group {
	var best *group
	n := 0
	for i, g := range gs {
		for _, a := range g.agents {
			switch {
			case a == "*" && n == 0:
				best, n = &gs[i], 1
			case a != "*" && strings.HasPrefix(strings.ToLower(ua), strings.ToLower(a)) && len(a) > n:
				best, n = &gs[i], len(a)
			}
		}
	}
	return best
}

// allowed applies the longest matching rule.
func (g *group) allowed(path string) bool {
	if g == nil {
		return true
	}
	best, ok := 0, true
	for _, r := range g.rules {
		if r.path != "" && strings.HasPrefix(path, r.path) && len(r.path) > best {
			best, ok = len(r.path), r.allow
		}
	}
	return ok
}

func pathOf(u string) string {
	v, err := url.Parse(u)
	if err != nil {
		panic(err)
	}
	return v.RequestURI()
}

var robotsSets = []groups{
	{{[]string{"*"}, []rule{{false, "/b"}}, 0}},
	{{[]string{"*"}, []rule{{false, "/"}}, 0}, {[]string{"antbot"}, []rule{{false, "/c"}}, 0}},
	{{[]string{"*"}, []rule{{false, "/"}, {true, "/b"}}, 0}},
	{{[]string{"antbot"}, []rule{{false, "/b"}, {true, "/b2"}}, 1}},
	{{[]string{"other"}, []rule{{false, "/"}}, 5}},
	{{[]string{"*"}, []rule{{false, ""}}, 2}},
	{},
}

func init() {
	run := func(x *mc.X, confs []crawlConf) {
		cc := confs[x.Choose(len(confs), "config")]
		w := newWeb(x)
		w.graph(graphs[cc.g])
		k := x.Choose(len(robotsSets)+3, "robots")
		var gs groups
		switch k - len(robotsSets) {
		case 0: // none
		case 1:
			w.robots["h"] = &pg{status: 404}
		case 2:
			w.robots["h"] = &pg{status: 403, links: []string{robotsSets[1].text()}}
		default:
			gs = robotsSets[k]
			w.robots["h"] = &pg{links: []string{gs.text()}}
		}
		if p := w.robots["h"]; p != nil && x.Flag("slow robots") {
			p.delay = time.Second
		}
		c := &crawl{w: w, workers: cc.workers, conc: cc.conc, starts: urls(cc.starts), polite: true, limiter: true}
		c.spawn()
		if !x.Finish() {
			return
		}
		x.NonTrivial()
		x.Obs("g%d w%d c%d r%d: %s", cc.g, cc.workers, cc.conc, k, short(w.fetched()))
		g := gs.find("antbot")
		var at []time.Duration
		first := w.index("robotsend", base+"robots.txt")
		for i, e := range w.log {
			if e.kind == "fetch" {
				x.Check(first >= 0 && first < i, "fetch before robots.txt", "%s was fetched before robots.txt was: %s", e.url, w.logString())
				at = append(at, e.at)
			}
			if e.kind == "fetch" || e.kind == "scrape" {
				x.Check(g.allowed(pathOf(e.url)), "disallowed "+e.kind, "%s of %s, which robots.txt disallows", e.kind, e.url)
			}
		}
		if g != nil && g.delay > 0 {
			d := time.Duration(g.delay) * time.Second
			for i := 1; i < len(at); i++ {
				x.Check(at[i]-at[i-1] >= d, "crawl delay", "fetches at %v and %v, the crawl delay is %v: %s", at[i-1], at[i], d, w.logString())
			}
		}
		// Everything else is fetched.
		var want []string
		seen := map[string]bool{}
		todo := append([]string(nil), c.starts...)
		for len(todo) > 0 {
			u := todo[0]
			todo = todo[1:]
			if seen[u] || !g.allowed(pathOf(u)) {
				continue
			}
			seen[u] = true
			want = append(want, u)
			if p := w.get(u); p != nil {
				todo = append(todo, p.links...)
			}
		}
		got := w.fetched()
		sort.Strings(got)
		sort.Strings(want)
		x.Check(c.err == nil && fmt.Sprint(got) == fmt.Sprint(want), "fetched set", "fetched %v (err %v), robots.txt allows %v", got, c.err, want)
	}
	confs := []crawlConf{{1, "a", 1, 0}, {1, "a", 2, 1}, {3, "a", 2, 2}, {6, "abc", 2, 0}, {6, "abc", 1, 0}, {5, "a", 2, 2}}
	add(&mc.Scenario{
		Name: "polite/crawl", Prop: "C06", Quick: mc.Bound{Dev: 1, Policies: 3}, Thorough: mc.Bound{Dev: 2, Policies: 3},
		Run: func(x *mc.X) { run(x, confs) },
	})
	// Several hosts: each is governed by its own robots.txt.
	add(&mc.Scenario{
		Name: "polite/hosts", Prop: "C06", Quick: mc.Bound{Dev: 1, Policies: 2}, Thorough: mc.Bound{Dev: 2, Policies: 3},
		Run: func(x *mc.X) {
			w := newWeb(x)
			hosts := []string{"h", "i", "h:8080"}
			sets := map[string]groups{}
			var starts []string
			for i, h := range hosts {
				k := (i + x.Choose(4, "robots of "+h)) % 4
				if k < 3 {
					sets[h] = robotsSets[[]int{0, 2, 3}[k]]
					w.robots[h] = &pg{links: []string{sets[h].text()}}
				}
				for _, p := range []string{"a", "b", "b2"} {
					w.pages["http://"+h+"/"+p] = &pg{}
					starts = append(starts, "http://"+h+"/"+p)
				}
			}
			c := &crawl{w: w, workers: 1 + x.Choose(2, "workers"), conc: x.Choose(2, "concurrency") * 2, starts: starts, polite: true}
			c.spawn()
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			x.Obs("%v", w.fetched())
			x.Check(c.err == nil, "error", "Run: %v", c.err)
			last := map[string]time.Duration{}
			for i, e := range w.log {
				if e.kind != "fetch" {
					continue
				}
				v, _ := url.Parse(e.url)
				j := w.index("robotsend", "http://"+v.Host+"/robots.txt")
				x.Check(j >= 0 && j < i, "fetch before robots.txt", "%s before its robots.txt", e.url)
				g := sets[v.Host].find("antbot")
				if g != nil && g.delay > 0 {
					if t, ok := last[v.Host]; ok {
						x.Check(e.at-t >= time.Duration(g.delay)*time.Second, "crawl delay", "%s fetched %v after the previous one", e.url, e.at-t)
					}
					last[v.Host] = e.at
				}
			}
			for _, u := range starts {
				v, _ := url.Parse(u)
				n := 0
				if sets[v.Host].find("antbot").allowed(v.Path) {
					n = 1
				}
				x.Check(w.count("fetch", u) == n, "verdict", "%s fetched %d times, want %d", u, w.count("fetch", u), n)
			}
		},
	})
	// An impolite engine leaves robots.txt alone.
	// Callers with contexts of their own, which may give up while they wait.
	add(&mc.Scenario{
		Name: "polite/waits", Prop: "C06", Quick: mc.Bound{Dev: 1, Policies: 2}, Thorough: mc.Bound{Dev: 2, Policies: 2},
		Run: func(x *mc.X) {
			const delay = 10 * time.Second
			w := newWeb(x)
			w.robots["h"] = &pg{links: []string{"User-agent: *\nCrawl-delay: 10\n"}}
			w.robots["i"] = w.robots["h"]
			cache := robots.NewCache(&http.Client{Transport: w}, 100)
			type call struct {
				at, giveUp, done time.Duration
				err              error
				host             string
			}
			calls := make([]*call, 3+x.Choose(2, "callers"))
			start := time.Now()
			desc := ""
			for i := range calls {
				c := &call{host: "h"}
				if i > 0 {
					c.at = calls[i-1].at + mc.Pick(x, "begins after", 0, 4300*time.Millisecond, 11700*time.Millisecond)
				}
				if i == 3 && x.Flag("other host") {
					c.host = "i"
				}
				c.giveUp = mc.Pick(x, "gives up after", -1, 3*time.Second, 13*time.Second)
				calls[i] = c
				desc += fmt.Sprintf("%s@%v gives up %v, ", c.host, c.at, c.giveUp)
			}
			for _, c := range calls {
				x.Go("wait", func() {
					if c.at > 0 {
						time.Sleep(c.at)
						vsched.Post("slept")
					}
					ctx, cancel := context.WithCancel(context.Background())
					defer cancel()
					if c.giveUp > 0 {
						t := time.AfterFunc(c.giveUp, cancel)
						defer t.Stop()
					}
					c.err = cache.Wait(ctx, robots.Request{URL: mustURL("http://" + c.host + "/x"), UserAgent: "antbot"})
					c.done = time.Since(start)
				})
			}
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			for _, c := range calls {
				desc += fmt.Sprintf("%v %v; ", c.done, c.err)
			}
			x.Obs("%s", desc)
			for i, c := range calls {
				if c.err != nil {
					x.Check(c.giveUp > 0 && errors.Is(c.err, context.Canceled), "error", "%s", desc)
					x.Check(c.done == c.at+c.giveUp, "not released", "%s", desc)
					continue
				}
				x.Check(c.done <= c.at+time.Duration(len(calls))*delay, "too slow", "%s", desc)
				// Nobody waits for one that gave up before, unless there
				// were others behind it.
				pending, holes := time.Duration(0), false
				for _, e := range calls {
					switch {
					case e == c || e.host != c.host || e.at > c.at:
					case e.done >= c.at:
						pending++
					case e.err != nil:
						for _, f := range calls {
							if f != e && f != c && f.host == c.host && f.at >= e.at && f.at <= e.done && (f.err == nil || f.done >= e.done) {
								holes = true
							}
						}
					}
				}
				x.Check(holes || c.done <= c.at+(1+pending)*delay, "too slow", "%v after %d others: %s", c.done-c.at, pending, desc)
				for _, o := range calls[:i] {
					if d := c.done - o.done; o.err == nil && o.host == c.host {
						x.Check(d >= delay || d <= -delay, "too soon", "%v apart: %s", d, desc)
					}
				}
			}
		},
	})
	add(&mc.Scenario{
		Name: "polite/impolite", Prop: "C06", Quick: mc.Bound{Dev: 2, Policies: 3}, Thorough: mc.Bound{Dev: 3, Policies: 3},
		Run: func(x *mc.X) {
			cc := confs[x.Choose(len(confs), "config")]
			w := newWeb(x)
			w.graph(graphs[cc.g])
			w.robots["h"] = &pg{links: []string{"User-agent: *\nDisallow: /\nCrawl-delay: 9\n"}}
			c := &crawl{w: w, workers: cc.workers, conc: cc.conc, starts: urls(cc.starts), limiter: x.Flag("limiter")}
			c.spawn()
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			got := w.fetched()
			x.Obs("%s", short(got))
			sort.Strings(got)
			x.Check(w.count("robots", "") == 0, "robots.txt requested", "an impolite crawl requested robots.txt")
			x.Check(time.Since(w.start) == 0, "delayed", "an impolite crawl was delayed by %v", time.Since(w.start))
			x.Check(fmt.Sprint(got) == fmt.Sprint(w.reach(c.starts)), "fetched set", "fetched %v", got)
		},
	})

	// Bodies.
	bodies := func(x *mc.X, cc crawlConf, cancel bool) {
		w := newWeb(x)
		w.graph(graphs[cc.g])
		b := w.pages[base+"b"]
		if b == nil {
			b = w.pages[base+"a"]
		}
		switch k := x.Choose(8, "page"); k {
		case 0:
		case 1:
			b.status = 404
		case 2:
			b.status = 500
		case 3:
			b.status = 503
		case 4:
			b.status = 301
		case 5:
			b.scrapeErr = errBoom
		case 6:
			b.readErr = errBoom
		case 7:
			b.fetchErr = errBoom
			b.respErr = true
		}
		use := x.Choose(5, "scraper")
		w.scrape = func(p *ant.Page) {
			switch use {
			case 1:
				var buf [3]byte
				p.Body().Read(buf[:])
			case 2:
				p.Query("a")
			case 3:
				var buf [512]byte
				for {
					if _, err := p.Body().Read(buf[:]); err != nil {
						break
					}
				}
			case 4:
				p.HTML()
				p.URLs()
			}
		}
		c := &crawl{w: w, workers: cc.workers, conc: cc.conc, starts: urls(cc.starts), fetcher: &ant.Fetcher{MaxAttempts: 1 + x.Choose(2, "attempts")}}
		if cancel {
			c.canceller()
		}
		c.spawn()
		if !x.Finish() {
			return
		}
		if len(w.bodies) > 0 {
			x.NonTrivial()
		}
		x.Obs("g%d w%d c%d s%d: %d bodies", cc.g, cc.workers, cc.conc, use, len(w.bodies))
		for _, b := range w.bodies {
			x.Check(b.closed > 0, "body not closed", "the body of %s (%d) was not closed", b.url, b.status)
			x.Check(b.eof || b.failed, "body not drained", "the body of %s (%d) was not read until EOF", b.url, b.status)
		}
	}
	small := []crawlConf{{1, "a", 1, 1}, {1, "a", 2, 0}, {6, "abc", 2, 1}, {7, "a", 1, 0}}
	add(&mc.Scenario{
		Name: "bodies/crawl", Prop: "C07", Quick: mc.Bound{Dev: 1, Policies: 2}, Thorough: mc.Bound{Dev: 2, Policies: 3},
		Run: func(x *mc.X) { bodies(x, small[x.Choose(len(small), "config")], false) },
	})
	add(&mc.Scenario{
		Name: "bodies/cancel", Prop: "C07", Quick: mc.Bound{Dev: 2, Policies: 3}, Thorough: mc.Bound{Dev: 3, Policies: 3},
		Run: func(x *mc.X) { bodies(x, small[x.Choose(len(small), "config")], true) },
	})
	// However large they are.
	add(&mc.Scenario{
		Name: "bodies/large", Prop: "C07", Quick: mc.Bound{Dev: 0, Policies: 1}, Thorough: mc.Bound{Dev: 1, Policies: 2},
		Run: func(x *mc.X) {
			w := newWeb(x)
			w.graph(graphs[1])
			w.pages[base+"b"].pad = mc.Pick(x, "size", 4<<20+1, 17<<20, 1<<20+1, 256<<10+1, 64<<10+1, 32<<10+1, 4096+1, 512+1)
			w.pages[base+"b"].status = mc.Pick(x, "status", 200, 404, 500, 503, 304)
			use := x.Choose(4, "scraper")
			w.scrape = func(p *ant.Page) {
				switch use {
				case 1:
					var buf [3]byte
					p.Body().Read(buf[:])
				case 2:
					p.Query("a")
				case 3:
					io.CopyN(io.Discard, p.Body(), 100000)
				}
			}
			c := &crawl{w: w, workers: 1, conc: 1, starts: urls("a"), fetcher: &ant.Fetcher{MaxAttempts: 1 + x.Choose(2, "attempts")}}
			c.spawn()
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			x.Obs("%d %d %d", w.pages[base+"b"].pad, use, w.pages[base+"b"].status)
			for _, b := range w.bodies {
				x.Check(b.closed > 0, "body not closed", "the body of %s (%d) was not closed", b.url, b.status)
				x.Check(b.eof, "body not drained", "the body of %s (%d) was not read until EOF", b.url, b.status)
			}
		},
	})
	// robots.txt responses are closed as well.
	add(&mc.Scenario{
		Name: "bodies/robots", Prop: "C07", Quick: mc.Bound{Dev: 2, Policies: 3}, Thorough: mc.Bound{Dev: 3, Policies: 3},
		Run: func(x *mc.X) {
			w := newWeb(x)
			w.graph(graphs[6])
			p := &pg{links: []string{robotsSets[0].text()}}
			w.robots["h"] = p
			switch x.Choose(6, "robots") {
			case 1:
				p.status = 404
			case 2:
				p.status = 500
			case 3:
				p.readErr = errBoom
			case 4:
				p.links = []string{"Disallow: /x\nCrawl-delay: x\n"}
			case 5:
				p.fetchErr = errBoom
			}
			c := &crawl{w: w, workers: 1 + x.Choose(2, "workers"), conc: x.Choose(2, "concurrency"), starts: urls("ab"), polite: true}
			if x.Flag("cancel") {
				c.canceller()
			}
			c.spawn()
			if !x.Finish() {
				return
			}
			if len(w.bodies) > 0 {
				x.NonTrivial()
			}
			x.Obs("%d bodies", len(w.bodies))
			for _, b := range w.bodies {
				x.Check(b.closed > 0, "body not closed", "the body of %s (%d) was not closed", b.url, b.status)
			}
		},
	})
}

var _ = context.Background
var _ = vsched.P

// The caches of compiled selectors are global: executions must not depend on
// which of them came first.
func init() {
	for _, s := range []string{"a", "a[href]"} {
		ant.List{}.Query(s)
	}
}
