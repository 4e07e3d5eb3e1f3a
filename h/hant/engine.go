package hant

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/mc"
	"github.com/yields/ant/zverif/vsched"
)

const base = "http://h/"

// Graphs: adjacency by one-letter pages.
var graphs = []map[string]string{
	{"a": ""},
	{"a": "bc", "b": "", "c": ""},
	{"a": "bb", "b": "ab"},
	{"a": "bc", "b": "cd", "c": "bd", "d": "a"},
	{"a": "b", "b": "c", "c": "d", "d": "e", "e": ""},
	{"a": "bcd", "b": "x", "c": "x", "d": "x", "x": ""},
	{"a": "", "b": "", "c": ""},
	{"a": "bz", "b": ""}, // z does not exist
}

func (w *web) graph(g map[string]string) {
	for k, ls := range g {
		p := &pg{}
		for _, l := range ls {
			p.links = append(p.links, base+string(l))
		}
		w.pages[base+k] = p
	}
}

func urls(s string) (ret []string) {
	for _, c := range s {
		ret = append(ret, base+string(c))
	}
	return ret
}

type crawlConf struct {
	g             int
	starts        string
	workers, conc int
}

var crawlConfs = []crawlConf{
	{0, "a", 1, 0}, {0, "aa", 2, 1}, {1, "a", 1, 1}, {1, "a", 2, 1}, {1, "a", 2, 0}, {2, "ab", 2, 2}, {3, "a", 2, 2},
	{3, "ad", 3, 0}, {4, "a", 2, 1}, {5, "a", 2, 2}, {5, "a", 1, 0}, {6, "abc", 2, 1}, {6, "abc", 3, 2}, {7, "a", 2, 1}, {6, "", 2, 1},
}

// completeness: every page reachable is fetched and scraped exactly once.
func runComplete(x *mc.X, cc crawlConf, polite bool) {
	w := newWeb(x)
	w.graph(graphs[cc.g])
	c := &crawl{w: w, workers: cc.workers, conc: cc.conc, starts: urls(cc.starts), polite: polite}
	c.spawn()
	if !x.Finish() {
		return
	}
	got := w.fetched()
	x.Obs("g%d w%d c%d %s: %s", cc.g, cc.workers, cc.conc, cc.starts, short(got))
	if len(got) > 0 {
		x.NonTrivial()
	}
	x.Check(c.err == nil, "error", "Run failed without cause: %v", c.err)
	sort.Strings(got)
	want := w.reach(c.starts)
	x.Check(fmt.Sprint(got) == fmt.Sprint(want), "fetched set", "fetched %v, want each of %v once", got, want)
	for _, u := range want {
		n := 1
		if w.get(u) == nil {
			n = 0
		}
		x.Check(w.count("scrape", u) == n, "scraped", "%s scraped %d times", u, w.count("scrape", u))
	}
	x.Check(len(w.late) == 0, "late activity", "after Run returned: %v", w.late)
}

var errBoom = errors.New("boom")

// kindErr is an error of a component which looks like something the engine,
// or the packages under it, could treat specially.
type kindErr struct {
	error
	temporary bool
}

func (e *kindErr) Unwrap() error   { return e.error }
func (e *kindErr) Temporary() bool { return e.temporary }
func (e *kindErr) Timeout() bool   { return e.temporary }

// kinds are the errors components fail with; which of them is part of the
// choice of the environment.
var kinds = []error{errBoom, context.Canceled, context.DeadlineExceeded, io.EOF, nil, io.ErrUnexpectedEOF, http.ErrUseLastResponse}

// errKind chooses the error of w: an error of its own which wraps a kind.
func (w *web) errKind(ks ...int) {
	k := ks[w.x.Choose(len(ks), "error")]
	switch {
	case k == 0:
	case kinds[k] == nil:
		w.boom = &kindErr{errors.New("temporary"), true}
	default:
		w.boom = &kindErr{kinds[k], false}
	}
}

func init() {
	add(&mc.Scenario{
		Name: "crawl/complete", Prop: "C01", Quick: mc.Bound{Dev: 2, Policies: 3}, Thorough: mc.Bound{Dev: 3, Policies: 3},
		Run: func(x *mc.X) { runComplete(x, crawlConfs[x.Choose(len(crawlConfs), "config")], false) },
	})
	add(&mc.Scenario{
		Name: "crawl/complete-polite", Prop: "C01", Quick: mc.Bound{Dev: 2, Policies: 3}, Thorough: mc.Bound{Dev: 3, Policies: 3},
		Run: func(x *mc.X) { runComplete(x, crawlConfs[x.Choose(len(crawlConfs), "config")], true) },
	})
	add(&mc.Scenario{
		Name: "crawl/complete-fine", Prop: "C01", Fine: true, Quick: mc.Bound{Dev: 1, Policies: 2}, Thorough: mc.Bound{Dev: 2, Policies: 2},
		Run: func(x *mc.X) { runComplete(x, crawlConfs[x.Choose(len(crawlConfs), "config")], false) },
	})

	// URLs which differ in any part are different pages.
	add(&mc.Scenario{
		Name: "crawl/complete-parts", Prop: "C01", Quick: mc.Bound{Dev: 0, Policies: 2}, Thorough: mc.Bound{Dev: 1, Policies: 2},
		Run: func(x *mc.X) {
			all := []string{
				"http://h/b", "https://h/b", "http://i/b", "http://h:8080/b", "https://h:8080/b", "https://h:80/b", "http://h/B", "http://h/b?q=1",
				"http://h/b?q=2", "http://h/b?q=1&q=2", "http://h/b?r=1", "http://u@h/b", "http://u:p@h/b", "http://v@h/b", "http://h/b/c", "http://h/b%2Fc",
				"http://h/bb", "http://www.h/b", "http://h/", "http://h/b%3Fq=1", "http://127.0.0.1/b", "http://[::1]/b", "http://h/b%20c", "http://h/b.html",
				"http://h.i/b", "http://hb/", "http://h/?b",
			}
			w := newWeb(x)
			var links []string
			lo := 0
			n := 2
			if x.Thorough() {
				n = 3
			}
			for i := 0; i < n; i++ {
				lo += x.Choose(len(all)-lo, "URL")
				links = append(links, all[lo])
			}
			for _, l := range links {
				w.pages[l] = &pg{}
			}
			starts := links
			if x.Flag("linked") {
				w.pages[base+"a"] = &pg{links: links}
				starts = []string{base + "a"}
			}
			c := &crawl{w: w, workers: 1 + x.Choose(2, "workers"), conc: 1, starts: starts, polite: x.Flag("polite")}
			if x.Flag("bloom") {
				c.deduper = ant.DedupeBF(1<<16, 4)
			}
			c.spawn()
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			got := w.fetched()
			x.Obs("%v", got)
			sort.Strings(got)
			want := w.reach(starts)
			x.Check(c.err == nil && fmt.Sprint(got) == fmt.Sprint(want), "fetched set", "fetched %v (err %v), want each of %v once", got, c.err, want)
		},
	})

	// Termination: whatever fails and whenever the crawl is canceled, Run
	// returns and nothing of the crawl survives it.
	term := func(x *mc.X, cc crawlConf, fault int, cancel, polite bool) {
		w := newWeb(x)
		w.graph(graphs[cc.g])
		c := &crawl{w: w, workers: cc.workers, conc: cc.conc, starts: urls(cc.starts), limiter: true, polite: polite}
		w.fault(fault)
		if cancel {
			c.canceller()
		}
		c.spawn()
		x.NonTrivial()
		ok := x.Finish()
		x.Obs("g%d w%d c%d f%d: %s err=%v", cc.g, cc.workers, cc.conc, fault, short(w.fetched()), c.err != nil)
		if !ok {
			return
		}
		x.Check(len(w.late) == 0, "late activity", "after Run returned: %v", w.late)
		var leaked []string
		for _, g := range x.Leaked() {
			leaked = append(leaked, g.Name+" at "+g.Where)
		}
		x.Check(len(leaked) == 0, "leak", "goroutines left behind: %v", leaked)
	}
	small := []crawlConf{{1, "a", 1, 1}, {1, "a", 1, 0}, {1, "a", 2, 1}, {6, "abc", 2, 1}, {6, "ab", 2, 0}, {3, "a", 2, 2}, {0, "a", 3, 1}}
	add(&mc.Scenario{
		Name: "crawl/cancel", Prop: "C02", Quick: mc.Bound{Dev: 3, Policies: 3}, Thorough: mc.Bound{Dev: 4, Policies: 3},
		Run: func(x *mc.X) { term(x, small[x.Choose(len(small), "config")], 0, true, false) },
	})
	add(&mc.Scenario{
		Name: "crawl/fault", Prop: "C02", Quick: mc.Bound{Dev: 2, Policies: 2}, Thorough: mc.Bound{Dev: 3, Policies: 3},
		Run: func(x *mc.X) {
			term(x, small[x.Choose(len(small), "config")], 1+x.Choose(nfaults, "fault"), false, false)
		},
	})
	add(&mc.Scenario{
		Name: "crawl/fault-cancel-polite", Prop: "C02", Quick: mc.Bound{Dev: 2, Policies: 3}, Thorough: mc.Bound{Dev: 3, Policies: 3},
		Run: func(x *mc.X) {
			term(x, small[x.Choose(len(small), "config")], x.Choose(nfaults+1, "fault"), true, true)
		},
	})

	// Errors: the first failure is what Run returns.
	errs := func(x *mc.X, cc crawlConf, fault int, polite bool, ks ...int) {
		w := newWeb(x)
		w.graph(graphs[cc.g])
		c := &crawl{w: w, workers: cc.workers, conc: cc.conc, starts: urls(cc.starts), limiter: true, polite: polite}
		w.errKind(ks...)
		w.fault(fault)
		c.spawn()
		if !x.Finish() {
			return
		}
		x.NonTrivial()
		x.Obs("g%d w%d c%d f%d %v: %s", cc.g, cc.workers, cc.conc, fault, w.boom, short(w.fetched()))
		delivered := w.errAt >= 0
		switch {
		case delivered && c.err == nil:
			x.Fail("swallowed", "a component failed with %q but Run returned nil", w.boom)
		case delivered && !errors.Is(c.err, w.boom):
			x.Fail("wrong error", "a component failed with %q but Run returned %q", w.boom, c.err)
		case !delivered && c.err != nil:
			x.Fail("spurious error", "Run returned %q though nothing failed", c.err)
		}
	}
	add(&mc.Scenario{
		Name: "crawl/error", Prop: "C03", Quick: mc.Bound{Dev: 2, Policies: 2}, Thorough: mc.Bound{Dev: 3, Policies: 3},
		Run: func(x *mc.X) {
			errs(x, crawlConfs[2+x.Choose(len(crawlConfs)-3, "config")], 1+x.Choose(nfaults, "fault"), false, 0)
		},
	})
	add(&mc.Scenario{
		Name: "crawl/error-polite", Prop: "C03", Quick: mc.Bound{Dev: 2, Policies: 3}, Thorough: mc.Bound{Dev: 3, Policies: 3},
		Run: func(x *mc.X) {
			errs(x, small[x.Choose(len(small), "config")], 1+x.Choose(nfaults+1, "fault"), true, 0)
		},
	})
	// Whatever the error is.
	add(&mc.Scenario{
		Name: "crawl/error-kinds", Prop: "C03", Quick: mc.Bound{Dev: 1, Policies: 3}, Thorough: mc.Bound{Dev: 2, Policies: 3},
		Run: func(x *mc.X) {
			errs(x, small[x.Choose(len(small), "config")], 1+x.Choose(nfaults+1, "fault"), true, 1, 2, 3, 4, 5, 6)
		},
	})
	// A failure stops the crawl: in an endless web Run still returns soon.
	add(&mc.Scenario{
		Name: "crawl/error-stops", Prop: "C03", Quick: mc.Bound{Dev: 1, Policies: 3}, Thorough: mc.Bound{Dev: 2, Policies: 3},
		Run: func(x *mc.X) {
			const limit, slack = 60, 24
			w := newWeb(x)
			w.page = func(u string) *pg {
				var lane string
				var n int
				fmt.Sscanf(strings.TrimPrefix(u, base), "%1s%d", &lane, &n)
				if n >= limit {
					return &pg{}
				}
				return &pg{links: []string{fmt.Sprintf("%s%s%d", base, lane, n+1)}}
			}
			kind := x.Choose(3, "kind")
			bad := &pg{}
			switch kind {
			case 0:
				bad.fetchErr = errBoom
			case 1:
				bad.scrapeErr = errBoom
			case 2:
				bad.limitErr = errBoom
			}
			w.pages[base+"a2"] = bad
			c := &crawl{w: w, workers: 1 + x.Choose(3, "workers"), conc: x.Choose(3, "concurrency"), starts: []string{base + "a0", base + "b0"}, limiter: true}
			c.spawn()
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			after := w.count("fetch", "") - w.errAt
			x.Obs("%d w%d c%d: fetches %d before, %d after", kind, c.workers, c.conc, w.errAt, after)
			x.Check(errors.Is(c.err, errBoom), "wrong error", "Run returned %v", c.err)
			x.Check(w.errAt >= 0 && after <= slack, "crawl goes on", "%d pages fetched after the failure", after)
		},
	})
	// The same with a queue full of pages, which are not fetched any more.
	add(&mc.Scenario{
		Name: "crawl/error-stops wide", Prop: "C03", Quick: mc.Bound{Dev: 0, Policies: 3}, Thorough: mc.Bound{Dev: 1, Policies: 3},
		Run: func(x *mc.X) {
			const links, slack = 60, 8
			w := newWeb(x)
			start := &pg{}
			for i := 0; i < links; i++ {
				start.links = append(start.links, fmt.Sprintf("%sa%d", base, i))
				w.pages[start.links[i]] = &pg{}
			}
			w.pages[base] = start
			kind := x.Choose(4, "kind")
			badURL := start.links[x.Choose(3, "bad")]
			bad := w.pages[badURL]
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			want := errBoom
			switch kind {
			case 0:
				bad.fetchErr = errBoom
			case 1:
				bad.scrapeErr = errBoom
			case 2:
				bad.limitErr = errBoom
			case 3:
				want = context.Canceled
				w.scrape = func(p *ant.Page) {
					if p.URL.String() == badURL {
						w.failed()
						cancel()
					}
				}
			}
			c := &crawl{w: w, workers: 1 + x.Choose(3, "workers"), conc: x.Choose(3, "concurrency"), starts: []string{base}, limiter: kind == 2, polite: x.Flag("polite"), queue: &tapQueue{ant.MemoryQueue(1), w}, ctx: ctx}
			c.spawn()
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			var after int
			late := map[string]bool{}
			for i, e := range w.log {
				switch {
				case i < w.errLog:
				case e.kind == "dequeue":
					late[e.url] = true
				case e.kind == "fetch" && late[e.url]:
					after++
				}
			}
			x.Obs("%d w%d c%d: fetches %d before, %d of URLs taken after", kind, c.workers, c.conc, w.errAt, after)
			// A crawl canceled from the very last page of all had finished.
			complete := kind == 3 && c.err == nil && len(w.fetched()) == links+1
			x.Check(complete || errors.Is(c.err, want), "wrong error", "Run returned %v", c.err)
			x.Check(w.errAt >= 0 && after <= slack, "crawl goes on", "%d pages taken from the queue after the failure were fetched", after)
		},
	})
	// Cancellation is an error of the caller's making and is reported as such.
	add(&mc.Scenario{
		Name: "crawl/cancel-error", Prop: "C03", Quick: mc.Bound{Dev: 3, Policies: 3}, Thorough: mc.Bound{Dev: 4, Policies: 3},
		Run: func(x *mc.X) {
			cc := small[x.Choose(len(small), "config")]
			w := newWeb(x)
			w.graph(graphs[cc.g])
			c := &crawl{w: w, workers: cc.workers, conc: cc.conc, starts: urls(cc.starts)}
			c.canceller()
			c.spawn()
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			got := w.fetched()
			x.Obs("g%d w%d c%d: %s err=%v", cc.g, cc.workers, cc.conc, short(got), c.err)
			if c.err != nil {
				x.Check(errors.Is(c.err, context.Canceled), "wrong error", "Run returned %q, the only thing that happened is a cancellation", c.err)
				return
			}
			sort.Strings(got)
			x.Check(fmt.Sprint(got) == fmt.Sprint(w.reach(c.starts)), "silently incomplete", "Run returned nil but only %v were fetched", got)
		},
	})

	// Concurrency: never more than n pages at a time.
	add(&mc.Scenario{
		Name: "crawl/concurrency", Prop: "C04", Quick: mc.Bound{Dev: 2, Policies: 3}, Thorough: mc.Bound{Dev: 3, Policies: 3},
		Run: func(x *mc.X) {
			confs := []crawlConf{{5, "a", 1, 1}, {5, "a", 2, 1}, {5, "a", 2, 2}, {6, "abc", 3, 1}, {6, "abc", 3, 2}, {6, "abc", 1, 2}, {7, "ab", 2, 1}}
			cc := confs[x.Choose(len(confs), "config")]
			fault := x.Choose(3, "fault")
			w := newWeb(x)
			w.graph(graphs[cc.g])
			for _, p := range w.pages {
				p.steps = 1
			}
			c := &crawl{w: w, workers: cc.workers, conc: cc.conc, starts: urls(cc.starts), limiter: fault == 2}
			if fault == 1 {
				w.pages[base+"b"].status = 500
			}
			c.spawn()
			x.Sched()
			if x.Failed() {
				return
			}
			if w.max >= cc.conc {
				x.NonTrivial()
			}
			x.Obs("g%d w%d c%d: max %d", cc.g, cc.workers, cc.conc, w.max)
			x.Check(w.max <= cc.conc, "too many", "%d pages processed at a time, the limit is %d", w.max, cc.conc)
		},
	})
	// ... and n are possible: the limit does not serialize more than asked.
	add(&mc.Scenario{
		Name: "crawl/concurrency-reached", Prop: "C04", Quick: mc.Bound{Dev: 1, Policies: 3}, Thorough: mc.Bound{Dev: 2, Policies: 3},
		Run: func(x *mc.X) {
			w := newWeb(x)
			w.graph(graphs[6])
			// Every fetch waits until `want` fetches are in progress.
			c := &crawl{w: w, workers: 1 + x.Choose(2, "workers"), conc: x.Choose(4, "concurrency"), starts: urls("abc")}
			want := c.conc
			if want == 0 {
				want = 3
			}
			gate := int32(0)
			f := &ant.Fetcher{Client: gateClient{w, want, &gate}, MaxAttempts: 1}
			c.fetcher = f
			c.spawn()
			x.NonTrivial()
			x.Obs("w%d c%d", c.workers, c.conc)
			x.Finish()
		},
	})
}

// C39: what says that it is temporary is retried, nothing else is.
func init() {
	add(&mc.Scenario{
		Name: "crawl/temporary", Prop: "C39", Quick: mc.Bound{Dev: 1, Policies: 3}, Thorough: mc.Bound{Dev: 2, Policies: 3},
		Run: func(x *mc.X) {
			what := mc.Pick(x, "component", "scraper", "deduper")
			kind := mc.Pick(x, "error", "temporary", "not temporary", "plain", "wrapped, not temporary", "timeout", "refused")
			cc := []crawlConf{{1, "a", 1, 1}, {1, "a", 2, 0}, {6, "ab", 2, 1}, {3, "a", 2, 2}}[x.Choose(4, "config")]
			at := 1 + x.Choose(3, "at")
			var boom error = errBoom
			switch kind {
			case "temporary":
				boom = &kindErr{errBoom, true}
			case "not temporary":
				boom = &kindErr{errBoom, false}
			case "timeout":
				boom = lastingTimeout{errBoom}
			case "refused":
				boom = &ant.FetchError{Status: 403}
				boom = fmt.Errorf("%w: %w", errBoom, boom)
			case "wrapped, not temporary":
				boom = fmt.Errorf("wrapped: %w", &kindErr{errBoom, false})
			}
			w := newWeb(x)
			w.graph(graphs[cc.g])
			c := &crawl{w: w, workers: cc.workers, conc: cc.conc, starts: urls(cc.starts)}
			d := &faultDeduper{Deduper: ant.DedupeMap(), err: boom}
			sc := &faultScraper{web: w, err: boom}
			c.deduper = d
			if what == "deduper" {
				d.failAt = at
			} else {
				sc.failAt = at
			}
			c.cfg = func(ec *ant.EngineConfig) { ec.Scraper = sc }
			c.spawn()
			if !x.Finish() {
				return
			}
			if !d.failed && sc.failed == "" {
				return
			}
			x.NonTrivial()
			got := w.fetched()
			x.Obs("%s %s g%d w%d c%d @%d: %s err=%v", what, kind, cc.g, cc.workers, cc.conc, at, short(got), c.err != nil)
			if kind != "temporary" {
				x.Check(errors.Is(c.err, errBoom), "not reported", "the %s failed with an error that is not temporary but Run returned %v", what, c.err)
				if sc.failed != "" {
					x.Check(sc.calls[sc.failed] == 1, "retried", "%s was scraped %d times though the error is not temporary", sc.failed, sc.calls[sc.failed])
				}
				return
			}
			x.Check(c.err == nil, "temporary error of the "+what+" not retried", "the %s failed once with a temporary error and Run returned %v", what, c.err)
			if c.err != nil {
				return
			}
			if sc.failed != "" {
				x.Check(sc.calls[sc.failed] > 1, "not scraped again", "%s was not scraped again", sc.failed)
			}
			seen := map[string]bool{}
			for _, u := range got {
				seen[u] = true
			}
			for _, u := range w.reach(c.starts) {
				x.Check(seen[u], "incomplete", "%s was not fetched", u)
			}
		},
	})
}

// lastingTimeout is a timeout that does not pass.
type lastingTimeout struct{ error }

func (e lastingTimeout) Unwrap() error   { return e.error }
func (e lastingTimeout) Timeout() bool   { return true }
func (e lastingTimeout) Temporary() bool { return false }

// faultScraper fails at the n-th call.
type faultScraper struct {
	*web
	n, failAt int
	err       error
	failed    string // the page which failed
	calls     map[string]int
}

func (s *faultScraper) Scrape(ctx context.Context, p *ant.Page) (ant.URLs, error) {
	if s.calls == nil {
		s.calls = map[string]int{}
	}
	u := p.URL.String()
	s.calls[u]++
	if s.n++; s.n == s.failAt {
		s.failed = u
		return nil, s.err
	}
	return s.web.Scrape(ctx, p)
}

type gateClient struct {
	w    *web
	want int
	gate *int32
}

const nfaults = 6

// fault makes one component fail; 0 is no fault.
func (w *web) fault(k int) {
	b, a := w.pages[base+"b"], w.pages[base+"a"]
	if b == nil {
		b = a
	}
	switch k {
	case 1:
		b.fetchErr = w.boom
	case 2:
		b.scrapeErr = w.boom
	case 3:
		b.limitErr = w.boom
	case 4:
		a.fetchErr = w.boom
	case 5:
		a.scrapeErr = w.boom
	case 6:
		a.scrapeErr, b.limitErr = w.boom, w.boom
	case 7:
		w.robots["h"] = &pg{fetchErr: w.boom}
	}
}

var _ = vsched.P

func (g gateClient) Do(req *http.Request) (*http.Response, error) {
	g.w.ev("fetch", req.URL.String())
	if g.w.count("fetch", "") >= g.want {
		*g.gate = 1
	}
	vsched.Point("gate", vsched.KNonZero, g.gate)
	return g.w.response(req, req.URL.String(), &pg{}, ""), nil
}

// tapQueue records which URLs are dequeued.
type tapQueue struct {
	ant.Queue
	w *web
}

// Dequeue implementation.
func (q *tapQueue) Dequeue(ctx context.Context) (*ant.URL, error) {
	u, err := q.Queue.Dequeue(ctx)
	if err == nil {
		q.w.ev("dequeue", u.String())
	}
	return u, err
}
