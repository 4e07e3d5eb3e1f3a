package hant

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/mc"
	"github.com/yields/ant/zverif/vsched"
)

// pg is a page of the simulated web.
type pg struct {
	status    int // 0: 200
	links     []string
	fetchErr  error
	scrapeErr error
	limitErr  error
	matchNo   bool
	steps     int           // scheduling points inside the fetch
	delay     time.Duration // fake time the fetch takes
	redirect  string        // final URL of the response
	readErr   error         // the body fails after some bytes
	loc       string        // status 3xx with this Location, for robots
	pad       int           // additional bytes of the body
	respErr   bool          // fetchErr comes with a response
}

// event of a crawl.
type event struct {
	kind string
	url  string
	at   time.Duration
	ua   string
}

// web is the environment of an engine: the network, the scraper, the limiter
// and the matcher, all of which record what the engine does.
type web struct {
	x        *mc.X
	pages    map[string]*pg
	page     func(u string) *pg // generated pages
	robots   map[string]*pg     // by host, links[0] is the text
	log      []event
	start    time.Time
	active   map[string]int
	nactive  int
	max      int
	bodies   []*body
	useHTML  bool
	timeouts bool              // the default client gives up as it does
	scrape   func(p *ant.Page) // extra behaviour of the scraper
	over     bool              // Run has returned
	late     []string          // activity after Run returned
	limiter  bool
	errAt    int // number of fetches when the first failure was delivered
	errLog   int // number of events then
	hdrs     []http.Header
	boom     error // what components fail with

	limitTime time.Duration                            // how long the limiter blocks
	robotsAt  func(host string, now time.Duration) *pg // robots.txt by time
}

func newWeb(x *mc.X) *web {
	return &web{x: x, pages: map[string]*pg{}, robots: map[string]*pg{}, active: map[string]int{}, start: time.Now(), errAt: -1, boom: errBoom}
}

func (w *web) ev(kind, u string) {
	w.log = append(w.log, event{kind: kind, url: u, at: time.Since(w.start)})
	w.x.Logf("%s %s", kind, u)
	if w.over && kind != "cancel" {
		w.late = append(w.late, kind+" "+u)
	}
}

func (w *web) count(kind, u string) (n int) {
	for _, e := range w.log {
		if e.kind == kind && (u == "" || e.url == u) {
			n++
		}
	}
	return n
}

func (w *web) fetched() []string {
	var ret []string
	for _, e := range w.log {
		if e.kind == "fetch" {
			ret = append(ret, e.url)
		}
	}
	return ret
}

func (w *web) enter(u string) {
	w.active[u]++
	w.nactive++
	if w.nactive > w.max {
		w.max = w.nactive
	}
}

func (w *web) leave(u string) {
	if w.active[u] > 0 {
		w.active[u]--
		w.nactive--
	}
}

func (w *web) failed() {
	if w.errAt < 0 {
		w.errAt = w.count("fetch", "")
		w.errLog = len(w.log)
	}
}

func (w *web) get(u string) *pg {
	if p, ok := w.pages[u]; ok {
		return p
	}
	if w.page != nil {
		return w.page(u)
	}
	return nil
}

// body is a response body which records how it is treated.
type body struct {
	w      *web
	url    string
	status int
	r      io.Reader
	eof    bool
	err    error
	failed bool
	closed int
	after  bool // read after close
}

func (b *body) Read(p []byte) (int, error) {
	if b.closed > 0 {
		b.after = true
		return 0, errors.New("read after close")
	}
	n, err := b.r.Read(p)
	if err == io.EOF {
		if b.err != nil {
			b.failed = true
			return n, b.err
		}
		b.eof = true
	}
	return n, err
}

func (b *body) Close() error { b.closed++; return nil }

func (w *web) response(req *http.Request, u string, p *pg, text string) *http.Response {
	st := p.status
	if st == 0 {
		st = 200
	}
	b := &body{w: w, url: u, status: st, r: strings.NewReader(text), err: p.readErr}
	w.bodies = append(w.bodies, b)
	r := req
	if p.redirect != "" {
		r = req.Clone(req.Context())
		r.URL, _ = url.Parse(p.redirect)
	}
	h := http.Header{"Content-Type": {"text/html"}}
	if p.loc != "" {
		h.Set("Location", p.loc)
	}
	return &http.Response{StatusCode: st, Status: fmt.Sprint(st), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: b, ContentLength: -1, Request: r}
}

var pads = map[int]string{}

// padding returns n bytes of HTML.
func padding(n int) string {
	if n == 0 {
		return ""
	}
	if _, ok := pads[n]; !ok {
		pads[n] = strings.Repeat("x", n)
	}
	return pads[n]
}

// Do is ant.Client: the page network.
func (w *web) Do(req *http.Request) (*http.Response, error) {
	u := req.URL.String()
	vsched.P("net " + u)
	w.ev("fetch", u)
	w.log[len(w.log)-1].ua = req.Header.Get("User-Agent")
	w.enter(u)
	p := w.get(u)
	if p == nil {
		w.leave(u)
		return w.response(req, u, &pg{status: 404}, "not found"), nil
	}
	for i := 0; i < p.steps; i++ {
		vsched.P("net busy " + u)
	}
	if p.delay > 0 {
		t := time.NewTimer(p.delay)
		defer t.Stop()
		select {
		case <-t.C:
		case <-req.Context().Done():
		}
		vsched.Post("net done")
	}
	if err := req.Context().Err(); err != nil {
		w.leave(u)
		return nil, err
	}
	if p.fetchErr != nil {
		w.leave(u)
		w.failed()
		if p.respErr {
			return w.response(req, u, &pg{status: 502}, "bad gateway"), p.fetchErr
		}
		return nil, p.fetchErr
	}
	text := "<html><body>"
	for _, l := range p.links {
		text += `<a href="` + l + `">x</a>`
	}
	text += padding(p.pad)
	if p.status >= 400 {
		w.leave(u)
	}
	return w.response(req, u, p, text), nil
}

// Scrape is ant.Scraper.
func (w *web) Scrape(ctx context.Context, p *ant.Page) (ant.URLs, error) {
	u := p.URL.String()
	vsched.P("scrape " + u)
	w.ev("scrape", u)
	defer w.leave(u)
	if w.scrape != nil {
		w.scrape(p)
	}
	pg := w.get(u)
	if pg == nil {
		return nil, nil
	}
	if pg.scrapeErr != nil {
		w.failed()
		return nil, pg.scrapeErr
	}
	if w.useHTML {
		return p.URLs(), nil
	}
	var ret ant.URLs
	for _, l := range pg.links {
		v, err := url.Parse(l)
		if err != nil {
			panic(err)
		}
		ret = append(ret, v)
	}
	return ret, nil
}

// Limit is ant.Limiter.
func (w *web) Limit(ctx context.Context, u *url.URL) error {
	s := u.String()
	vsched.P("limit " + s)
	w.ev("limit", s)
	if w.limitTime > 0 {
		t := time.NewTimer(w.limitTime)
		defer t.Stop()
		select {
		case <-t.C:
		case <-ctx.Done():
		}
		vsched.Post("limit done")
	}
	if p := w.get(s); p != nil && p.limitErr != nil {
		w.failed()
		return p.limitErr
	}
	if err := ctx.Err(); err != nil {
		return err
	}
	w.ev("limited", s)
	return nil
}

// Match is ant.Matcher.
func (w *web) Match(u *url.URL) bool {
	s := u.String()
	w.ev("match", s)
	p := w.get(s)
	return p == nil || !p.matchNo
}

// RoundTrip is the network of ant.DefaultClient, i.e. of robots.txt.
func (w *web) RoundTrip(req *http.Request) (*http.Response, error) {
	u := req.URL.String()
	vsched.P("robots net " + u)
	w.ev("robots", u)
	w.log[len(w.log)-1].ua = req.Header.Get("User-Agent")
	w.hdrs = append(w.hdrs, req.Header)
	defer w.ev("robotsend", u)
	p := w.robots[req.URL.Host]
	if w.robotsAt != nil {
		p = w.robotsAt(req.URL.Host, time.Since(w.start))
	}
	if p == nil {
		return w.response(req, u, &pg{status: 404}, "not found"), nil
	}
	if p.delay > 0 {
		t := time.NewTimer(p.delay)
		defer t.Stop()
		select {
		case <-t.C:
		case <-req.Context().Done():
		}
		vsched.Post("net done")
	}
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	if p.fetchErr != nil {
		w.failed()
		return nil, p.fetchErr
	}
	text := ""
	if len(p.links) > 0 {
		text = p.links[0]
	}
	return w.response(req, u, p, text), nil
}

// hookDefaultClient routes ant.DefaultClient to the web for this execution.
func (w *web) hookDefaultClient() {
	old := ant.DefaultClient
	ant.DefaultClient = &http.Client{Transport: w}
	if w.timeouts {
		ant.DefaultClient.Timeout = old.Timeout
	}
	w.x.Cleanup(func() { ant.DefaultClient = old })
}

// crawl configuration
type crawl struct {
	w        *web
	workers  int
	conc     int
	polite   bool
	matcher  bool
	limiter  bool
	deduper  ant.Deduper
	cfg      func(*ant.EngineConfig)
	queue    ant.Queue
	fetcher  *ant.Fetcher
	starts   []string
	ctx      context.Context
	cancel   func()
	err      error
	returned bool
	eng      *ant.Engine
	before   func() // called before Run
}

// spawn adds the goroutine which runs the engine.
func (c *crawl) spawn() {
	w := c.w
	x := w.x
	w.hookDefaultClient()
	f := c.fetcher
	if f == nil {
		f = &ant.Fetcher{MaxAttempts: 2}
	}
	if f.Client == nil {
		f.Client = w
	}
	ec := ant.EngineConfig{
		Scraper: w, Fetcher: f, Workers: c.workers, Concurrency: c.conc, Impolite: !c.polite,
		Deduper: c.deduper, Queue: c.queue,
	}
	if c.matcher {
		ec.Matcher = w
	}
	if c.limiter {
		ec.Limiter = w
	}
	if c.cfg != nil {
		c.cfg(&ec)
	}
	eng, err := ant.NewEngine(ec)
	if err != nil {
		x.Fail("NewEngine", "NewEngine: %v", err)
		return
	}
	if c.ctx == nil {
		c.ctx = context.Background()
	}
	c.eng = eng
	x.Go("run", func() {
		if c.before != nil {
			c.before()
		}
		c.err = eng.Run(c.ctx, c.starts...)
		w.over = true
		c.returned = true
	})
	if c.cancel != nil {
		x.Go("cancel", func() {
			w.ev("cancel", "")
			c.cancel()
		})
	}
}

// canceller makes spawn add a goroutine which cancels the crawl at any point.
func (c *crawl) canceller() {
	c.ctx, c.cancel = context.WithCancel(context.Background())
}

// reach returns the URLs a complete crawl fetches.
func (w *web) reach(starts []string) []string {
	seen := map[string]bool{}
	todo := append([]string(nil), starts...)
	for len(todo) > 0 {
		u := todo[0]
		todo = todo[1:]
		if seen[u] {
			continue
		}
		p := w.get(u)
		if p != nil && p.matchNo {
			continue
		}
		seen[u] = true
		if p != nil && p.status < 400 {
			todo = append(todo, p.links...)
		}
	}
	var ret []string
	for u := range seen {
		ret = append(ret, u)
	}
	sort.Strings(ret)
	return ret
}

// short makes URLs readable in outcomes.
func short(us []string) string {
	var b []string
	for _, u := range us {
		b = append(b, strings.TrimPrefix(u, "http://h/"))
	}
	return strings.Join(b, " ")
}
