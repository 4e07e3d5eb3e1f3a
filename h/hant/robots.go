package hant

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/mc"
	"github.com/yields/ant/zverif/vsched"
)

// Verdicts: what is crawled is what robots.txt allows the crawler's agent.
func init() {
	rules := []rule{
		{false, "/"}, {true, "/"}, {false, "/a"}, {true, "/a/b"}, {false, "/a/b"}, {true, "/a/"}, {false, "/q?x"}, {true, "/q"}, {false, "/ab"}, {false, ""}, {true, "/q?x=2"},
	}
	agents := [][]string{{"*"}, {"antbot"}, {"ANTBOT"}, {"ant"}, {"other"}, {"*", "other"}, {"other", "antbot"}, {"antbot/2"}}
	test := []string{"/", "/a", "/a/b", "/a/bc", "/ab", "/b", "/q?x=1", "/q?x=2", "/q", "/a/c", "/a?x"}
	add(&mc.Scenario{
		Name: "robots/verdict", Prop: "C16", Quick: mc.Bound{Policies: 1}, Thorough: mc.Bound{Policies: 2},
		Run: func(x *mc.X) {
			// Up to two groups with up to two rules.
			var gs groups
			used := map[string]bool{}
			ng := 1 + x.Choose(2, "groups")
			max := 2
			if ng == 2 && !x.Thorough() {
				max = 1
			}
			for i := 0; i < ng; i++ {
				g := group{agents: agents[x.Choose(len(agents), "agents")]}
				for _, a := range g.agents {
					if used[strings.ToLower(a)] {
						x.Discard()
						return
					}
					used[strings.ToLower(a)] = true
				}
				lo := 0
				for j := 0; j < max; j++ {
					k := lo + x.Choose(len(rules)-lo, "rule")
					for _, r := range g.rules {
						if r.path == rules[k].path {
							// Contradictions have no meaning.
							x.Discard()
							return
						}
					}
					g.rules = append(g.rules, rules[k])
					lo = k
				}
				gs = append(gs, g)
			}
			verdicts(x, gs, test, x.Flag("crlf"))
		},
	})
}

// Spellings: a rule covers a URL whichever characters of either are encoded.
func init() {
	paths := []string{"/a%20b", "/ü", "/%C3%BC", "/%c3%bc", "/%C3", "/~a", "/%7Ea", "/%7ea", "/a%2Fb", "/a%2fb", "/a/b", "/a:b", "/a%3Ab", "/(x)", "/%28x%29", "/[x]", "/%5Bx%5d", "/a+b", "/a%2Bb", "/%61", "/a", "/a%25b", "/a%2525b", "/a%3Fb", "/a%23b", "/%E4%BD%A0/%E5%A5%BD", "/你", "/a%00b", "/a%22", "/a;p=1,2", "/aB", "/ab", "/Ü"}
	queries := []string{"/?q=ü", "/?q=%C3%BC", "/?q=%c3%bc", "/?u=http://x/", "/?u=http:%2F%2Fx%2f", "/?a=%7Eb", "/?a=~b", "/?a=b%26c", "/?a=b&c", "/?a=b%2Bc", "/?a=b+c", "/?%61=b", "/?a%3Db", "/?a=b%3f", "/?a=b?", "/?a=b%20c", "/?a=B", "/?A=b", "/?a=b"}
	odd := map[string]bool{"/[x]": true, "/a%2525b": true}
	// units are the characters of a path and query, each with whether it is
	// encoded, where this makes a difference.
	type unit struct {
		b   byte
		enc bool
	}
	units := func(s string) (us []unit) {
		special := "/?%*$#"
		for i := 0; i < len(s); i++ {
			u := unit{s[i], false}
			if s[i] == '%' {
				var n int
				fmt.Sscanf(s[i+1:i+3], "%x", &n)
				u = unit{byte(n), strings.Contains(special, string(rune(n)))}
				i += 2
			} else if u.b == '?' && special[0] == '/' {
				special = "&+=%*$#"
			}
			us = append(us, u)
		}
		return us
	}
	all := append(append([]string{}, paths...), queries...)
	add(&mc.Scenario{
		Name: "robots/spelling", Prop: "C16", Bubble: true, Quick: mc.Bound{Dev: 0, Policies: 1}, Thorough: mc.Bound{Dev: 0, Policies: 2},
		Run: func(x *mc.X) {
			r, t := all[x.Choose(len(all), "rule")], all[x.Choose(len(all), "URL")]
			exact := odd[r] || odd[t]
			if exact && r != t {
				x.Discard()
				return
			}
			allow := x.Flag("allow")
			gs := groups{{[]string{"antbot"}, []rule{{false, r}}, 0}}
			if allow {
				gs[0].rules = []rule{{false, "/"}, {true, r}}
			}
			w := newWeb(x)
			text := gs.text()
			switch x.Choose(4, "text") {
			case 1:
				text = strings.ReplaceAll(text, "\n", "\r\n")
			case 2:
				text = strings.NewReplacer("Disallow:", " DISALLOW:\t", "Allow:", "allow:").Replace(text)
			case 3:
				text = "\ufeff" + strings.ReplaceAll(text, "\n", " # /ü%41\n")
			}
			w.robots["h"] = &pg{links: []string{text}}
			c := &crawl{w: w, conc: 1, starts: []string{"http://h" + t}, polite: true}
			c.spawn()
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			x.Step(1)
			x.State(text)
			ru, tu := units(r), units(t)
			match := len(ru) <= len(tu) && fmt.Sprint(ru) == fmt.Sprint(tu[:len(ru)])
			got := len(w.fetched()) > 0
			x.Obs("%s %s %v: %v", r, t, allow, got)
			x.Check(c.err == nil, "error", "Run: %v, robots.txt %q", c.err, text)
			x.Check(got == (match == allow), "verdict", "%s is fetched: %v, robots.txt is %q", t, got, text)
		},
	})
}

// verdicts crawls test and compares what is fetched with what gs allows.
func verdicts(x *mc.X, gs groups, test []string, crlf bool) {
	w := newWeb(x)
	text := gs.text()
	if crlf {
		text = "# comment\r\n" + strings.ReplaceAll(text, "\n", "\r\n")
	}
	w.robots["h"] = &pg{links: []string{text}}
	var starts []string
	for _, t := range test {
		starts = append(starts, "http://h"+t)
		w.pages["http://h"+t] = &pg{}
	}
	c := &crawl{w: w, conc: 1, starts: starts, polite: true}
	c.spawn()
	if !x.Finish() {
		return
	}
	x.Check(c.err == nil, "error", "Run: %v, robots.txt %q", c.err, text)
	x.NonTrivial()
	x.Step(len(test))
	x.State(text)
	g := gs.find("antbot")
	var want []string
	for _, t := range test {
		if g.allowed(t) {
			want = append(want, t)
		}
	}
	var got []string
	for _, u := range w.fetched() {
		got = append(got, strings.TrimPrefix(u, "http://h"))
	}
	sort.Strings(got)
	sort.Strings(want)
	x.Obs("%v", got)
	x.Check(fmt.Sprint(got) == fmt.Sprint(want), "verdict", "fetched %v, robots.txt allows %v:\n%s", got, want, text)
	for _, h := range w.hdrs {
		x.Check(h.Get("User-Agent") == ant.UserAgent.String(), "robots.txt agent", "robots.txt was requested by %q", h.Get("User-Agent"))
	}
}

func init() {
	// Over time: robots.txt is used for an hour.
	add(&mc.Scenario{
		Name: "robots/hour", Prop: "C16", Horizon: 100 * time.Hour, Quick: mc.Bound{Dev: 0, Policies: 2}, Thorough: mc.Bound{Dev: 1, Policies: 2},
		Run: func(x *mc.X) {
			w := newWeb(x)
			w.graph(graphs[4]) // a -> b -> c -> d -> e
			steps := []time.Duration{0, time.Minute, 31 * time.Minute, 59 * time.Minute, 61 * time.Minute, 3 * time.Hour}
			for _, l := range "abcd" {
				w.pages[base+string(l)].delay = steps[x.Choose(len(steps), "duration of "+string(l))]
			}
			// At some time the text changes: everything is disallowed from then on.
			change := mc.Pick(x, "change", time.Duration(-1), 30*time.Minute, 90*time.Minute)
			w.robotsAt = func(host string, now time.Duration) *pg {
				if change >= 0 && now >= change {
					return &pg{links: []string{"User-agent: *\nDisallow: /\n"}}
				}
				return &pg{links: []string{"User-agent: *\nDisallow: /zzz\n"}}
			}
			c := &crawl{w: w, workers: 1 + x.Choose(2, "workers"), conc: 1, starts: urls("a"), polite: true}
			c.spawn()
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			x.Obs("%s", w.logString())
			x.Check(c.err == nil, "error", "Run: %v", c.err)
			last := time.Duration(-1)
			blocked := false
			for _, e := range w.log {
				switch e.kind {
				case "robots":
					x.Check(last < 0 || e.at-last > time.Hour, "requested again", "robots.txt requested at %v and %v: %s", last, e.at, w.logString())
					last = e.at
					blocked = change >= 0 && e.at >= change
				case "fetch":
					x.Check(!blocked, "disallowed fetch", "%s fetched after robots.txt disallowed it: %s", e.url, w.logString())
					x.Check(last >= 0 && e.at-last <= time.Hour, "outdated", "%s fetched at %v with a robots.txt of %v: %s", e.url, e.at, last, w.logString())
				}
			}
		},
	})
	// Many hosts at a time; robots.txt failures are reported, absence allows all.
	add(&mc.Scenario{
		Name: "robots/hosts", Prop: "C16", Quick: mc.Bound{Dev: 1, Policies: 2}, Thorough: mc.Bound{Dev: 2, Policies: 3},
		Run: func(x *mc.X) {
			w := newWeb(x)
			kinds := []string{"none", "deny", "allow", "500", "redirect", "error", "bad"}
			want := map[string]bool{}
			fails := false
			var starts []string
			hosts := mc.Pick(x, "hosts", []string{"h", "i"}, []string{"h", "h:8080"}, []string{"h:81", "h:82"}, []string{"h", "www.h"})
			scheme := mc.Pick(x, "scheme", "http://", "https://")
			for _, h := range hosts {
				k := mc.Pick(x, "robots of "+h, kinds...)
				want[h] = true
				switch k {
				case "deny":
					w.robots[h] = &pg{links: []string{"User-agent: *\nDisallow: /\n"}}
					want[h] = false
				case "allow":
					w.robots[h] = &pg{links: []string{"User-agent: *\nDisallow:\n"}}
				case "500":
					w.robots[h] = &pg{status: 500, links: []string{"User-agent: *\nDisallow: /\n"}}
				case "redirect":
					w.robots[h] = &pg{status: 302, loc: "http://j/robots.txt"}
					w.robots["j"] = &pg{links: []string{"User-agent: *\nDisallow: /\n"}}
					want[h] = false
				case "error":
					w.robots[h] = &pg{fetchErr: errBoom}
					fails = true
					want[h] = false
				case "bad":
					w.robots[h] = &pg{links: []string{"Disallow: /\nUser-agent: *\n"}}
					fails = true
					want[h] = false
				}
				starts = append(starts, scheme+h+"/a", scheme+h+"/b")
				w.pages[scheme+h+"/a"] = &pg{}
				w.pages[scheme+h+"/b"] = &pg{}
			}
			c := &crawl{w: w, workers: 1 + x.Choose(2, "workers"), conc: 0, starts: starts, polite: true}
			c.spawn()
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			x.Obs("%s %v", w.logString(), c.err != nil)
			x.Check((c.err != nil) == fails, "error", "Run: %v, robots.txt failed: %v", c.err, fails)
			for _, u := range w.fetched() {
				x.Check(want[mustURL(u).Host], "verdict", "%s was fetched", u)
			}
			if !fails {
				for _, u := range starts {
					if want[mustURL(u).Host] {
						x.Check(w.count("fetch", u) == 1, "verdict", "%s was fetched %d times", u, w.count("fetch", u))
					}
				}
			}
			for _, e := range w.log {
				if e.kind == "robots" {
					x.Check(strings.HasSuffix(e.url, "/robots.txt"), "robots URL", "requested %s", e.url)
					x.Check(strings.HasPrefix(e.url, scheme) || mustURL(e.url).Host == "j", "robots URL", "requested %s for pages of %s", e.url, scheme)
					x.Check(e.ua == ant.UserAgent.String(), "robots.txt agent", "robots.txt was requested by %q", e.ua)
				}
			}
		},
	})

	// Custom queues: the engine keeps its side of the contract.
	contract := func(x *mc.X, cc crawlConf, fault, failAt int, cancel bool) {
		w := newWeb(x)
		w.graph(graphs[cc.g])
		polite := x.Choose(4, "robots")
		switch polite {
		case 2:
			w.robots["h"] = &pg{links: []string{"User-agent: *\nDisallow: /b\n"}}
		case 3:
			w.robots["h"] = &pg{fetchErr: errBoom}
		}
		q := &auditQueue{Queue: ant.MemoryQueue(1), w: w, out: map[*ant.URL]int{}}
		switch {
		case fault > 0 && fault <= nfaults:
			w.fault(fault)
		case fault > nfaults:
			q.failOp = "edc"[fault-nfaults-1]
			q.failAt = failAt
		}
		c := &crawl{w: w, workers: cc.workers, conc: cc.conc, starts: urls(cc.starts), limiter: true, queue: q, polite: polite > 0}
		if cancel {
			c.canceller()
		}
		c.spawn()
		if !x.Finish() {
			return
		}
		x.NonTrivial()
		x.Obs("g%d w%d c%d f%d@%d: %s err=%v", cc.g, cc.workers, cc.conc, fault, failAt, short(w.fetched()), c.err != nil)
		for _, n := range q.out {
			x.Check(n == 0, "not acknowledged", "a dequeued URL was acknowledged %d times too few", n)
		}
		if q.failed && q.failOp == 'c' {
			// A queue that can't be closed voids the contract.
			x.Check(errors.Is(c.err, errBoom) || c.err == nil, "queue error", "the queue failed but Run returned %v", c.err)
			return
		}
		x.Check(q.bad == "", "contract", "%s", q.bad)
		x.Check(q.closed > 0 || c.err != nil && q.n['d'] == 0, "not closed", "Run returned without closing the queue")
		x.Check(len(w.late) == 0, "late activity", "after Run returned: %v", w.late)
		if q.failed {
			x.Check(errors.Is(c.err, errBoom), "queue error", "the queue failed but Run returned %v", c.err)
		}
	}
	small := []crawlConf{{1, "a", 1, 1}, {1, "a", 2, 0}, {6, "ab", 2, 1}, {3, "a", 2, 2}}
	add(&mc.Scenario{
		Name: "contract/crawl", Prop: "C38", Quick: mc.Bound{Dev: 1, Policies: 3}, Thorough: mc.Bound{Dev: 2, Policies: 3},
		Run: func(x *mc.X) {
			contract(x, small[x.Choose(len(small), "config")], x.Choose(nfaults+1, "fault"), 0, x.Flag("cancel"))
		},
	})
	add(&mc.Scenario{
		Name: "contract/queue-fails", Prop: "C38", Quick: mc.Bound{Dev: 1, Policies: 3}, Thorough: mc.Bound{Dev: 2, Policies: 3},
		Run: func(x *mc.X) {
			contract(x, small[x.Choose(len(small), "config")], nfaults+1+x.Choose(3, "operation"), 1+x.Choose(4, "at"), false)
		},
	})

	// Errors of the queue and the deduper.
	add(&mc.Scenario{
		Name: "crawl/error-parts", Prop: "C03", Quick: mc.Bound{Dev: 1, Policies: 3}, Thorough: mc.Bound{Dev: 2, Policies: 3},
		Run: func(x *mc.X) {
			cc := small[x.Choose(len(small), "config")]
			w := newWeb(x)
			w.graph(graphs[cc.g])
			w.errKind(0, 1, 2, 3, 4)
			c := &crawl{w: w, workers: cc.workers, conc: cc.conc, starts: urls(cc.starts)}
			q := &auditQueue{Queue: ant.MemoryQueue(1), w: w, out: map[*ant.URL]int{}}
			d := &faultDeduper{Deduper: ant.DedupeMap(), err: w.boom}
			c.queue = q
			c.deduper = d
			at := 1 + x.Choose(3, "at")
			switch k := x.Choose(4, "what"); k {
			case 2:
				d.failAt = at
			case 3:
				// The queue says that it could not be closed, always.
				if at > 1 {
					x.Discard()
					return
				}
				q.failOp, q.failAt = 'c', -1
			default:
				if errors.Is(w.boom, io.EOF) {
					// It means that the queue is closed.
					x.Discard()
					return
				}
				q.failOp, q.failAt = "ed"[k], at
			}
			c.spawn()
			if !x.Finish() {
				return
			}
			failed := q.failed || d.failed
			if failed {
				x.NonTrivial()
			}
			x.Obs("g%d w%d c%d: %s err=%v", cc.g, cc.workers, cc.conc, short(w.fetched()), c.err != nil)
			switch {
			case failed && c.err == nil:
				x.Fail("swallowed", "the queue or deduper failed but Run returned nil")
			case failed && !errors.Is(c.err, w.boom):
				x.Fail("wrong error", "the queue or deduper failed but Run returned %q", c.err)
			case !failed && c.err != nil:
				x.Fail("spurious error", "Run returned %q", c.err)
			}
		},
	})
	// What cannot be crawled is refused before anything is fetched.
	add(&mc.Scenario{
		Name: "crawl/bad-start", Prop: "C03", Tree: true,
		Run: func(x *mc.X) {
			bad := mc.Pick(x, "start", "ftp://h/x", "mailto:a@h", "/relative", "", "http://h/%zz", ":", "javascript:1", "file:///etc/passwd", "HTTPX://h")
			starts := []string{base + "a", bad}
			if x.Flag("first") {
				starts = []string{bad, base + "a"}
			}
			if x.Flag("only") {
				starts = []string{bad}
			}
			w := newWeb(x)
			w.graph(graphs[0])
			w.hookDefaultClient()
			eng, err := ant.NewEngine(ant.EngineConfig{Scraper: w, Fetcher: &ant.Fetcher{Client: w}})
			if err != nil {
				x.Fail("NewEngine", "%v", err)
				return
			}
			err = eng.Run(context.Background(), starts...)
			x.NonTrivial()
			x.Step(1)
			x.State(fmt.Sprint(starts))
			x.Obs("%v %v", starts, err)
			x.Check(err != nil, "accepted", "Run accepted %q", starts)
			x.Check(len(w.log) == 0, "activity", "Run refused %q but %s", starts, w.logString())
		},
	})
}

// faultDeduper fails at the n-th call.
type faultDeduper struct {
	ant.Deduper
	n, failAt int
	failed    bool
	err       error
}

func (d *faultDeduper) Dedupe(ctx context.Context, us ant.URLs) (ant.URLs, error) {
	vsched.P("dedupe")
	if d.n++; d.n == d.failAt {
		d.failed = true
		return nil, d.err
	}
	return d.Deduper.Dedupe(ctx, us)
}

// auditQueue checks how the engine uses its queue, and can fail.
type auditQueue struct {
	ant.Queue
	w      *web
	out    map[*ant.URL]int
	bad    string
	closed int
	n      [256]int
	failOp byte
	failAt int
	failed bool
}

func (q *auditQueue) fail(op byte) error {
	if q.w.over {
		q.bad = fmt.Sprintf("operation %c after Run returned", op)
	}
	if q.n[op]++; q.failOp == op && (q.n[op] == q.failAt || q.failAt < 0) {
		q.failed = true
		return q.w.boom
	}
	return nil
}

func (q *auditQueue) Enqueue(ctx context.Context, us ant.URLs) error {
	vsched.P("enqueue")
	if err := q.fail('e'); err != nil {
		return err
	}
	return q.Queue.Enqueue(ctx, us)
}

func (q *auditQueue) Dequeue(ctx context.Context) (*ant.URL, error) {
	vsched.P("dequeue")
	if err := q.fail('d'); err != nil {
		return nil, err
	}
	u, err := q.Queue.Dequeue(ctx)
	if err == nil {
		q.out[u]++
	}
	return u, err
}

func (q *auditQueue) Done(ctx context.Context, u *ant.URL) error {
	vsched.P("done")
	q.fail('D')
	if q.out[u]--; q.out[u] < 0 {
		q.bad = fmt.Sprintf("%s acknowledged though it was not outstanding", u)
	}
	if q.w.active[u.String()] > 0 {
		q.bad = fmt.Sprintf("%s acknowledged while it was being processed", u)
	}
	return q.Queue.Done(ctx, u)
}

func (q *auditQueue) Close(ctx context.Context) error {
	vsched.P("close")
	q.closed++
	err := q.fail('c')
	if e := q.Queue.Close(ctx); err == nil {
		err = e
	}
	return err
}

var _ = io.EOF
