// Package hrace looks for data races: the scenarios are run in a binary built
// with the race detector, whose verdict on every explored schedule is what the
// check reports. The environment has no mutable state of its own, so that it
// neither races nor orders the goroutines of the code under test.
package hrace

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/h/hcdp"
	"github.com/yields/ant/zverif/mc"
	"github.com/yields/ant/zverif/vsched"
)

var all []*mc.Scenario

func add(s *mc.Scenario) { all = append(all, s) }

// Scenarios returns all scenarios.
func Scenarios() []*mc.Scenario { return append(all, hcdp.Races()...) }

// doc is a page of the immutable web.
type doc struct {
	status int
	body   string
	header map[string]string
	err    error
	final  string
	steps  int
}

// site is an immutable web: both an ant.Client and a transport.
type site map[string]doc

type temporary struct{}

func (temporary) Error() string   { return "try again" }
func (temporary) Temporary() bool { return true }

func (s site) Do(req *http.Request) (*http.Response, error) {
	u := req.URL.String()
	vsched.P("net " + u)
	d, ok := s[u]
	if !ok {
		d = doc{status: 404, body: "not found"}
	}
	for i := 0; i < d.steps; i++ {
		vsched.P("net busy " + u)
	}
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	if d.err != nil {
		return nil, d.err
	}
	st := d.status
	if st == 0 {
		st = 200
	}
	r := req
	if d.final != "" {
		r = req.Clone(req.Context())
		r.URL, _ = url.Parse(d.final)
	}
	h := http.Header{"Content-Type": {"text/html"}}
	for k, v := range d.header {
		h.Set(k, v)
	}
	if v := h.Get("Etag"); v != "" && v == req.Header.Get("If-None-Match") {
		st, d.body = 304, ""
	}
	return &http.Response{StatusCode: st, Status: fmt.Sprint(st), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: &body{strings.NewReader(d.body)}, ContentLength: int64(len(d.body)), Request: r}, nil
}

func (s site) RoundTrip(req *http.Request) (*http.Response, error) { return s.Do(req) }

// body is a response body that takes some time.
type body struct{ r io.Reader }

func (b *body) Read(p []byte) (int, error) {
	vsched.P("read body")
	if len(p) > 200 {
		p = p[:200]
	}
	return b.r.Read(p)
}

func (b *body) Close() error { vsched.P("close body"); return nil }

func html(links ...string) string {
	var b strings.Builder
	b.WriteString(`<html><head><title>T</title></head><body><h1>head</h1><ul>`)
	for i, l := range links {
		fmt.Fprintf(&b, `<li class="n%d"><a href="%s">link %d</a></li>`, i, l, i)
	}
	b.WriteString(`</ul><div class="q"><span class="text">q1</span><small>a1</small></div><div class="q"><span class="text">q2</span><small>a2</small></div></body></html>`)
	return b.String()
}

var web = site{
	"http://h/robots.txt":     {body: "User-agent: *\nDisallow: /private\nCrawl-delay: 1\n"},
	"http://h/a":              {body: html("/b", "/c", "/b", "http://H:80/c#x")},
	"http://h/b":              {body: html("/c", "/a", "/private/x", "http://i/a")},
	"http://h/c":              {body: html("/a", "/b", "http://i/b?b=2&a=1")},
	"http://h/e":              {status: 503, body: "busy"},
	"http://h/n":              {err: temporary{}},
	"http://h/r":              {body: html("/b"), final: "http://h/final"},
	"http://i/robots.txt":     {status: 404},
	"http://i/a":              {body: html("/b")},
	"http://i/b?a=1&b=2":      {body: html("/a")},
	"http://h/etag":           {body: html("/b"), header: map[string]string{"Etag": `"1"`, "Date": "Sat, 01 Jan 2000 00:00:00 GMT"}},
	"http://h/fresh":          {body: html("/b"), header: map[string]string{"Cache-Control": "max-age=100", "Date": "Sat, 01 Jan 2000 00:00:00 GMT", "Vary": "Accept"}},
	"http://h/short":          {body: html("/b"), header: map[string]string{"Cache-Control": "max-age=1", "Etag": `"2"`, "Date": "Sat, 01 Jan 2000 00:00:00 GMT"}},
	"http://h/private/secret": {body: "no"},
}

func init() { ant.DefaultClient.Transport = web }

func parse(s string) *url.URL {
	u, err := url.Parse(s)
	if err != nil {
		panic(err)
	}
	return u
}

func parseAll(ss ...string) ant.URLs {
	var ret ant.URLs
	for _, s := range ss {
		ret = append(ret, parse(s))
	}
	return ret
}

// race adds a scenario.
func race(name string, quick, thorough mc.Bound, run func(x *mc.X)) {
	add(&mc.Scenario{Name: "race/" + name, Prop: "C37", Quick: quick, Thorough: thorough, Fine: true, FineFiles: fine, Horizon: 24 * time.Hour,
		Run: func(x *mc.X) {
			x.NonTrivial()
			run(x)
			x.Finish()
		}})
}

// fine lists the files whose statements are scheduling points: those with state
// shared by goroutines.
var fine = []string{"engine.go", "dedupe.go", "queue.go", "limiters.go", "json.go", "page.go", "cache.go", "disk.go", "memstore.go", "httpcache.go",
	"cachereader.go", "scanner.go", "selectors.go", "client.go", "targets.go", "transport.go"}

var bg = context.Background()
