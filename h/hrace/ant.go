package hrace

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net/url"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/mc"
	"github.com/yields/ant/zverif/vsched"
)

// scraper is a scraper without state.
type scraper func(ctx context.Context, p *ant.Page) (ant.URLs, error)

func (s scraper) Scrape(ctx context.Context, p *ant.Page) (ant.URLs, error) { return s(ctx, p) }

func htmlScraper(_ context.Context, p *ant.Page) (ant.URLs, error) { return p.URLs(), nil }

type quote struct {
	Text   string `css:".text"`
	Author string `css:"small"`
}

type quotes struct {
	Title  string   `css:"title"`
	Quotes []quote  `css:".q"`
	Links  []string `css:"a@href"`
}

func scanScraper(_ context.Context, p *ant.Page) (ant.URLs, error) {
	var q quotes
	if err := p.Scan(&q); err != nil {
		return nil, err
	}
	return p.Next("li.n0 > a")
}

type conf struct {
	name      string
	workers   int
	conc      int
	polite    bool
	scraper   func() ant.Scraper
	deduper   func() ant.Deduper
	matcher   ant.Matcher
	limiter   func() ant.Limiter
	starts    []string
	cancel    bool
	quick     mc.Bound
	thorough  mc.Bound
	noDefault bool
}

// anyOf and allOf are plain users of several matchers or limiters.
type limits []ant.Limiter

func (l limits) Limit(ctx context.Context, u *url.URL) error {
	for _, x := range l {
		if err := x.Limit(ctx, u); err != nil {
			return err
		}
	}
	return nil
}

func (c conf) engine() *ant.Engine {
	ec := ant.EngineConfig{Scraper: scraper(htmlScraper), Workers: c.workers, Concurrency: c.conc, Impolite: !c.polite, Matcher: c.matcher,
		Fetcher: &ant.Fetcher{Client: web, MaxAttempts: 2}}
	if c.scraper != nil {
		ec.Scraper = c.scraper()
	}
	if c.deduper != nil {
		ec.Deduper = c.deduper()
	}
	if c.limiter != nil {
		ec.Limiter = c.limiter()
	}
	eng, err := ant.NewEngine(ec)
	if err != nil {
		panic(err)
	}
	return eng
}

func init() {
	small := func() mc.Bound { return mc.Bound{Dev: 1, Policies: 2} }
	big := func() mc.Bound { return mc.Bound{Dev: 2, Policies: 3} }
	confs := []conf{
		{name: "html", workers: 2, starts: []string{"http://h/a"}},
		{name: "three", workers: 3, conc: 2, polite: true, starts: []string{"http://h/a", "http://h/b", "http://i/a"}},
		{name: "bf", workers: 2, deduper: func() ant.Deduper { return ant.DedupeBF(1000, 3) }, starts: []string{"http://h/a", "http://h/c"}},
		{name: "limits", workers: 2, starts: []string{"http://h/a", "http://h/b"}, matcher: ant.MatchHostname("h"),
			limiter: func() ant.Limiter {
				return limits{ant.Limit(5), ant.LimitHostname(3, "h"), ant.LimitPattern(4, "h/*"), ant.LimitRegexp(4, "h/.*")}
			}},
		{name: "scan", workers: 2, scraper: func() ant.Scraper { return scraper(scanScraper) }, starts: []string{"http://h/a", "http://h/b"}},
		{name: "same-slice", workers: 2, scraper: func() ant.Scraper {
			us := parseAll("http://H/B?b=1&a=2", "http://h/c#f", "http://h:80/a")
			return scraper(func(context.Context, *ant.Page) (ant.URLs, error) { return us, nil })
		}, starts: []string{"http://h/a", "http://h/b"}},
		{name: "same-urls", workers: 2, scraper: func() ant.Scraper {
			us := parseAll("http://H/B?b=1&a=2", "http://h/c#f", "http://h:80/a")
			return scraper(func(context.Context, *ant.Page) (ant.URLs, error) { return append(ant.URLs(nil), us...), nil })
		}, starts: []string{"http://h/a", "http://h/b"}},
		{name: "json", workers: 2, scraper: func() ant.Scraper { return ant.JSON(new(bytes.Buffer), quotes{}, "li > a") }, starts: []string{"http://h/a", "http://h/b"}},
		{name: "json-ptr", workers: 2, scraper: func() ant.Scraper { return ant.JSON(new(bytes.Buffer), &quotes{}) }, starts: []string{"http://h/a", "http://h/b"}},
		{name: "errors", workers: 2, conc: 2, starts: []string{"http://h/e", "http://h/n", "http://h/a"}},
		{name: "cancel", workers: 2, cancel: true, polite: true, starts: []string{"http://h/a", "http://h/b"}},
	}
	for _, c := range confs {
		q, t := small(), big()
		race("crawl/"+c.name, q, t, func(x *mc.X) {
			eng := c.engine()
			ctx, cancel := context.WithCancel(bg)
			if !c.cancel {
				cancel = func() {}
				ctx = bg
			}
			x.Go("run", func() { eng.Run(ctx, c.starts...) })
			if c.cancel {
				x.Go("cancel", func() { cancel() })
			}
		})
	}

	// Two engines which share everything that can be shared, while more URLs
	// are added from outside.
	race("engines", small(), mc.Bound{Dev: 2, Policies: 2}, func(x *mc.X) {
		fetcher := &ant.Fetcher{Client: web}
		js := ant.JSON(io.Discard, quotes{}, "li > a")
		ded := ant.DedupeMap()
		lim := ant.Limit(50)
		var engs []*ant.Engine
		for i := 0; i < 2; i++ {
			eng, err := ant.NewEngine(ant.EngineConfig{Scraper: js, Fetcher: fetcher, Deduper: ded, Limiter: lim, Matcher: ant.MatchHostname("h"), Impolite: i == 0})
			if err != nil {
				panic(err)
			}
			engs = append(engs, eng)
		}
		x.Go("run1", func() { engs[0].Run(bg, "http://h/a") })
		x.Go("run2", func() { engs[1].Run(bg, "http://h/b", "http://h/a") })
	})
	race("enqueue", small(), big(), func(x *mc.X) {
		eng := conf{workers: 1}.engine()
		x.Go("run", func() { eng.Run(bg, "http://h/a") })
		x.Go("enqueue1", func() { eng.Enqueue(bg, "http://i/a", "http://h/c") })
		x.Go("enqueue2", func() { eng.Enqueue(bg, "http://H:80/c", "http://i/a#x") })
	})

	// What is written before Enqueue is read after Dequeue.
	race("queue", small(), big(), func(x *mc.X) {
		q := ant.MemoryQueue(2)
		for i := 0; i < 2; i++ {
			x.Go("producer", func() {
				us := parseAll(fmt.Sprintf("http://h/%d", i), fmt.Sprintf("http://h/x%d", i))
				us[0].Path += "/y"
				q.Enqueue(bg, us)
				us[0], us[1] = nil, nil // the queue does not keep the caller's slice
			})
		}
		for i := 0; i < 2; i++ {
			x.Go("consumer", func() {
				for k := 0; k < 2; k++ {
					u, err := q.Dequeue(bg)
					if err != nil {
						return
					}
					u.Path += "/z"
					q.Done(bg, u)
				}
			})
		}
		x.Go("closer", func() {
			q.Wait()
			q.Close(bg)
		})
	})
	race("queue-cancel", small(), big(), func(x *mc.X) {
		q := ant.MemoryQueue(1)
		ctx, cancel := context.WithCancel(bg)
		x.Go("producer", func() { q.Enqueue(ctx, parseAll("http://h/1", "http://h/2", "http://h/3")) })
		for i := 0; i < 2; i++ {
			x.Go("consumer", func() {
				for {
					u, err := q.Dequeue(ctx)
					if err != nil {
						return
					}
					_ = u.String()
					q.Done(ctx, u)
				}
			})
		}
		x.Go("cancel", func() { cancel() })
		x.Go("closer", func() { q.Close(bg) })
	})

	// Work done before Done is seen after Wait.
	race("queue-wait", small(), big(), func(x *mc.X) {
		q := ant.MemoryQueue(2)
		results := make([]int, 2)
		us := parseAll("http://h/0", "http://h/1")
		x.Go("owner", func() {
			q.Enqueue(bg, us)
			for i := 0; i < 2; i++ {
				vsched.Go(func() {
					u, err := q.Dequeue(bg)
					if err != nil {
						return
					}
					results[u.Path[1]-'0']++
					q.Done(bg, u)
				})
			}
			q.Wait()
			if results[0]+results[1] != 2 {
				x.Fail("wait too early", "Wait returned before the URLs were done: %v", results)
			}
			q.Close(bg)
		})
	})

	for _, d := range []struct {
		name string
		make func() ant.Deduper
	}{{"map", ant.DedupeMap}, {"bf", func() ant.Deduper { return ant.DedupeBF(1000, 3) }}} {
		race("dedupe/"+d.name, small(), big(), func(x *mc.X) {
			ded := d.make()
			us := parseAll("http://h/1", "http://h/2", "http://h/3", "http://h/1")
			for i := 0; i < 3; i++ {
				x.Go("dedupe", func() {
					next, err := ded.Dedupe(bg, us)
					if err == nil && len(next) > 0 {
						_ = next[0].String()
					}
				})
			}
		})
	}

	race("matchers", small(), big(), func(x *mc.X) {
		ms := []ant.Matcher{ant.MatchHostname("h"), ant.MatchPattern("h/*"), ant.MatchRegexp("h/[a-z]+"), ant.MatcherFunc(func(u *url.URL) bool { return u.Path != "" })}
		u := parse("http://h/a?x=1#f")
		for i := 0; i < 3; i++ {
			x.Go("match", func() {
				for _, m := range ms {
					m.Match(u)
				}
			})
		}
	})
	race("limiters", small(), big(), func(x *mc.X) {
		ls := limits{ant.Limit(2), ant.LimitHostname(2, "h"), ant.LimitPattern(2, "h/*"), ant.LimitRegexp(2, "h/[a-z]+")}
		us := parseAll("http://h/a", "http://i/a")
		for i := 0; i < 3; i++ {
			x.Go("limit", func() {
				for k := 0; k < 2; k++ {
					ls.Limit(bg, us[(i+k)%2])
				}
			})
		}
	})
	for _, f := range []struct {
		name string
		f    func() *ant.Fetcher
	}{{"zero", func() *ant.Fetcher { return &ant.Fetcher{} }},
		{"set", func() *ant.Fetcher {
			return &ant.Fetcher{Client: web, UserAgent: ant.StaticAgent(fmt.Sprint("x", fresh())), MaxAttempts: 2, MinBackoff: time.Second, MaxBackoff: time.Minute}
		}}} {
		race("fetch/"+f.name, small(), big(), func(x *mc.X) {
			fe := f.f()
			us := parseAll("http://h/a", "http://h/e", "http://h/r")
			for i := 0; i < 3; i++ {
				x.Go("fetch", func() {
					for _, u := range us[i%2 : i%2+2] {
						p, err := fe.Fetch(bg, u)
						if err != nil || p == nil {
							continue
						}
						p.URLs()
						p.Text("title")
					}
				})
			}
		})
	}
	race("fetch/package", small(), big(), func(x *mc.X) {
		for i := 0; i < 3; i++ {
			x.Go("fetch", func() {
				p, err := ant.Fetch(bg, "http://h/a")
				if err == nil {
					p.HTML()
				}
			})
		}
	})

	// One page, several goroutines.
	uses := map[string]func(p *ant.Page){
		"text":  func(p *ant.Page) { p.Text("title") },
		"query": func(p *ant.Page) { p.Query("a").Query("a").At(0).Text() },
		"urls":  func(p *ant.Page) { p.URLs() },
		"next":  func(p *ant.Page) { p.Next("li.n1 a") },
		"scan":  func(p *ant.Page) { var q quotes; p.Scan(&q) },
		"html":  func(p *ant.Page) { p.HTML() },
		"doc":   func(p *ant.Page) { p.Document() },
		"attr":  func(p *ant.Page) { l := p.Query("a"); l.Attr("href"); l.Is("a[href]") },
	}
	pairs := [][]string{{"text", "query", "urls"}, {"next", "scan", "html"}, {"doc", "attr", "scan"}, {"urls", "urls", "next"}, {"html", "html", "text"}, {"query", "scan", "scan"}}
	for i, ps := range pairs {
		race(fmt.Sprintf("page/%d", i), small(), big(), func(x *mc.X) {
			f := &ant.Fetcher{Client: web}
			p, err := f.Fetch(bg, parse("http://h/b"))
			if err != nil {
				panic(err)
			}
			for _, k := range ps {
				x.Go(k, func() { uses[k](p) })
			}
		})
	}

	// The caches behind Scan and Query, from different pages.
	race("scan-types", mc.Bound{Dev: 1, Policies: 2}, mc.Bound{Dev: 2, Policies: 2}, func(x *mc.X) {
		f := &ant.Fetcher{Client: web}
		shared := fresh()
		for i := 0; i < 3; i++ {
			p, err := f.Fetch(bg, parse("http://h/b"))
			if err != nil {
				panic(err)
			}
			n := fresh()
			x.Go("scan", func() {
				scanFresh(p, n, shared)
				p.Query(fmt.Sprintf("li.n%d%08d a", i%2, shared))
				p.Query(fmt.Sprintf("li.z%08d", n))
			})
		}
	})
	race("json", small(), big(), func(x *mc.X) {
		js := ant.JSON(new(bytes.Buffer), quotes{}, "a")
		f := &ant.Fetcher{Client: web}
		for i := 0; i < 3; i++ {
			p, err := f.Fetch(bg, parse("http://h/b"))
			if err != nil {
				panic(err)
			}
			x.Go("scrape", func() { js.Scrape(bg, p) })
		}
	})
}
