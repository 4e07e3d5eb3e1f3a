package hant

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/mc"
	"github.com/yields/ant/zverif/vsched"
)

// stalled is a body that delivers some bytes and then nothing.
type stalled struct {
	ctx    context.Context
	data   string
	closed int
}

func (b *stalled) Read(p []byte) (int, error) {
	if b.data != "" {
		n := copy(p, b.data)
		b.data = b.data[n:]
		return n, nil
	}
	<-b.ctx.Done()
	return 0, b.ctx.Err()
}

func (b *stalled) Close() error { b.closed++; return nil }

func init() {
	// Servers which do not answer, or stop in the middle of the body, with
	// the default client, which gives up after 10 seconds.
	add(&mc.Scenario{Name: "fetch/hang", Prop: "C14", Tree: true, Bubble: true, Run: func(x *mc.X) {
		const limit = 10 * time.Second
		who := mc.Pick(x, "fetcher", "Fetcher{}", "Fetch", "with DefaultClient")
		max := 5
		f := &ant.Fetcher{}
		switch who {
		case "with DefaultClient":
			f.Client = ant.DefaultClient
			fallthrough
		case "Fetcher{}":
			if n := x.Choose(4, "max attempts"); n > 0 {
				f.MaxAttempts, max = n, n
			}
		}
		start := time.Now()
		var at []time.Duration
		var delay []time.Duration
		var body *stalled
		stall := x.Flag("body stalls")
		old := ant.DefaultClient.Transport
		ant.DefaultClient.Transport = roundTripFunc(func(r *http.Request) (*http.Response, error) {
			if len(at) > max {
				x.Fail("too many attempts", "%d", len(at))
				return nil, errBoom
			}
			d := mc.Pick(x, "answers after", time.Hour, 0, 9900*time.Millisecond, 10100*time.Millisecond)
			at = append(at, time.Since(start))
			delay = append(delay, d)
			t := time.NewTimer(d)
			defer t.Stop()
			select {
			case <-t.C:
			case <-r.Context().Done():
				return nil, r.Context().Err()
			}
			h := http.Header{"Content-Type": {"text/html"}}
			body = &stalled{ctx: r.Context(), data: "<p>x</p>"}
			resp := &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, ContentLength: -1, Request: r}
			if stall {
				resp.Body = body
			} else {
				resp.Body = &cutBody{data: body.data, size: 1, err: io.EOF}
			}
			return resp, nil
		})
		x.Cleanup(func() { ant.DefaultClient.Transport = old })
		var p *ant.Page
		var err error
		if who == "Fetch" {
			p, err = ant.Fetch(context.Background(), base+"p")
		} else {
			p, err = f.Fetch(context.Background(), mustURL(base+"p"))
		}
		end := time.Since(start)
		if x.Failed() {
			return
		}
		desc := fmt.Sprintf("%s, %d attempts at %v, answered after %v: %v, %v", who, max, at, delay, p != nil, err)
		x.NonTrivial()
		x.Obs("%s", desc)
		x.State(desc)
		x.Step(len(at))
		if !x.Check(len(at) > 0, "no attempt", "%s", desc) {
			return
		}
		for i := range at[:len(at)-1] {
			pause := min(time.Duration((i+1)*(i+1))*50*time.Millisecond, time.Second)
			x.Check(delay[i] > limit, "retried", "%s", desc)
			x.Check(at[i+1] == at[i]+limit+pause, "time limit", "attempt %d after a hang begins at %v: %s", i+2, at[i+1], desc)
		}
		last := len(at) - 1
		if delay[last] > limit {
			x.Check(len(at) == max, "gave up", "%s", desc)
			x.Check(p == nil && err != nil, "no answer", "%s", desc)
			x.Check(end >= at[last]+limit && end <= at[last]+limit+time.Second, "time limit", "returned at %v: %s", end, desc)
			var ne net.Error
			x.Check(errors.As(err, &ne) && ne.Timeout(), "not a timeout", "%s", desc)
			return
		}
		x.Check(err == nil && p != nil && end == at[last]+delay[last], "answer", "returned at %v: %s", end, desc)
		if p == nil {
			return
		}
		_, err = p.HTML()
		done := time.Since(start)
		if stall {
			x.Check(err != nil, "stalled body", "a page whose body never ends is read without error")
			x.Check(done == at[last]+limit, "time limit", "the page whose body never ends is given up at %v: %s", done, desc)
		} else {
			x.Check(err == nil && done == end, "answer", "%v at %v: %s", err, done, desc)
		}
	}})

	// Hosts that never answer the request for robots.txt.
	add(&mc.Scenario{Name: "crawl/hang", Prop: "C02", Quick: mc.Bound{Dev: 2, Policies: 3}, Thorough: mc.Bound{Dev: 3, Policies: 3}, Run: func(x *mc.X) {
		cc := []crawlConf{{0, "a", 1, 1}, {0, "a", 2, 0}, {0, "ab", 2, 1}}[x.Choose(3, "config")]
		w := newWeb(x)
		w.timeouts = true
		w.graph(graphs[cc.g])
		hang := x.Flag("hangs")
		w.robots["h"] = &pg{links: []string{"User-agent: *\nAllow: /\n"}}
		if hang {
			w.robots["h"].delay = time.Hour
		}
		c := &crawl{w: w, workers: cc.workers, conc: cc.conc, starts: urls(cc.starts), polite: true}
		c.spawn()
		if !x.Finish() {
			return
		}
		x.NonTrivial()
		took := time.Since(w.start)
		x.Obs("w%d c%d hang=%v %v %v", cc.workers, cc.conc, hang, took, c.err != nil)
		x.Check((c.err != nil) == hang, "error", "robots.txt hangs: %v, Run: %v", hang, c.err)
		if hang {
			x.Check(took >= 10*time.Second && took <= 10*time.Second*time.Duration(len(cc.starts)+1), "time limit", "Run returns after %v", took)
		}
	}})

	// Components which only return when their context ends: the end of the
	// crawl's context, or the failure of another page, ends them all.
	add(&mc.Scenario{Name: "crawl/stuck", Prop: "C02", Bubble: true, Quick: mc.Bound{Dev: 1, Policies: 2}, Thorough: mc.Bound{Dev: 3, Policies: 2}, Run: func(x *mc.X) {
		what := mc.Pick(x, "stuck", "client", "body", "scraper", "limiter", "robots", "crawl delay", "interval limiter")
		end := mc.Pick(x, "end", "cancel", "deadline", "other page", "already canceled")
		cc := []crawlConf{{0, "ab", 1, 0}, {0, "ba", 1, 0}, {0, "abc", 2, 2}}[x.Choose(3, "config")]
		const late = 5 * time.Second
		w := newWeb(x)
		for _, p := range "abc" {
			w.pages[base+string(p)] = &pg{}
		}
		stuck := base + "a"
		if end == "other page" {
			w.pages[base+"b"].scrapeErr = errBoom
		}
		c := &crawl{w: w, workers: cc.workers, conc: cc.conc, starts: urls(cc.starts)}
		if what == "robots" || what == "crawl delay" {
			c.polite = true
			c.starts[strings.IndexByte(cc.starts, 'a')] = "http://g/a"
			stuck = "http://g/a"
			w.pages[stuck] = &pg{}
		}
		began := false
		wait := func(ctx context.Context) error {
			began = true
			<-ctx.Done()
			vsched.Post("stuck ends")
			return ctx.Err()
		}
		c.fetcher = &ant.Fetcher{Client: doFunc(func(r *http.Request) (*http.Response, error) {
			if r.URL.String() == stuck {
				switch what {
				case "client":
					vsched.P("stuck client")
					return nil, wait(r.Context())
				case "body":
					res, err := w.Do(r)
					if err == nil {
						began = true
						res.Body = &stalled{ctx: r.Context(), data: "<p>"}
					}
					return res, err
				}
			}
			return w.Do(r)
		})}
		if what == "interval limiter" {
			// Reserved for an hour.
			c.cfg = func(ec *ant.EngineConfig) {
				l := ant.Limit(1)
				ec.Limiter = limiterFunc(func(ctx context.Context, u *ant.URL) error {
					if u.String() != stuck {
						return w.Limit(ctx, u)
					}
					for i := 0; i < 3600; i++ {
						began = true
						if err := l.Limit(ctx, u); err != nil {
							return err
						}
					}
					return nil
				})
			}
		} else {
			c.cfg = func(ec *ant.EngineConfig) {
				if what == "limiter" {
					ec.Limiter = limiterFunc(func(ctx context.Context, u *ant.URL) error {
						if u.String() == stuck {
							return wait(ctx)
						}
						return w.Limit(ctx, u)
					})
				}
				ec.Scraper = scraperFunc(func(ctx context.Context, p *ant.Page) (ant.URLs, error) {
					if p.URL.String() == stuck {
						switch what {
						case "scraper":
							return nil, wait(ctx)
						case "body":
							if _, err := p.HTML(); err != nil {
								return nil, err
							}
						}
					}
					return w.Scrape(ctx, p)
				})
			}
		}
		switch what {
		case "robots":
			w.robots["g"] = &pg{delay: 1000 * time.Hour}
		case "crawl delay":
			w.robots["g"] = &pg{links: []string{"User-agent: *\nCrawl-delay: 3600\n"}}
			began = true
		}
		switch end {
		case "cancel":
			c.canceller()
		case "deadline":
			ctx, cancel := context.WithTimeout(context.Background(), late)
			x.Cleanup(cancel)
			c.ctx = ctx
		case "already canceled":
			ctx, cancel := context.WithCancel(context.Background())
			cancel()
			c.ctx = ctx
		}
		c.spawn()
		if !x.Finish() {
			return
		}
		took := time.Since(w.start)
		if began {
			x.NonTrivial()
		}
		desc := fmt.Sprintf("%s never ends, the crawl ends by %s, start with %s, %d workers: Run returned %v after %v", what, end, cc.starts, cc.workers, c.err, took)
		x.Obs("%s %s %s %v", what, end, cc.starts, c.err != nil)
		switch end {
		case "deadline":
			x.Check(took <= late, "too late", "%s", desc)
		case "other page":
			// The default client gives up robots.txt after a while.
			x.Check(errors.Is(c.err, errBoom), "other error", "%s", desc)
			fallthrough
		default:
			x.Check(took == 0, "too late", "%s", desc)
		}
		if end != "cancel" {
			x.Check(c.err != nil, "no error", "%s", desc)
		}
		x.Check(len(w.late) == 0, "goes on", "%s, then %s", desc, strings.Join(w.late, ", "))
	}})
}

type limiterFunc func(context.Context, *ant.URL) error

func (f limiterFunc) Limit(ctx context.Context, u *ant.URL) error { return f(ctx, u) }
