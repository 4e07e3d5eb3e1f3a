package hcache

import (
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/yields/ant/zverif/mc"
)

// C17: requests that bypass the cache, and fidelity of the others.
func init() {
	type rq struct {
		name   string
		method string
		h      http.Header
		bypass bool
	}
	var rqs []rq
	hs := []struct {
		name   string
		h      http.Header
		bypass bool
	}{
		{"plain", hdr(), false},
		{"no-store", hdr("Cache-Control", "no-store"), true},
		{"No-Store, x", hdr("Cache-Control", "max-age=3, No-Store"), true},
		{"2nd line", hdr("Cache-Control", "max-age=3", "Cache-Control", "no-store"), true},
		{"range", hdr("Range", "bytes=0-1"), true},
		{"content-range", hdr("Content-Range", "bytes 0-1/4"), true},
		{"authorization", hdr("Authorization", "Basic x"), true},
		{"several", hdr("Authorization", "Basic x", "Range", "bytes=0-1", "Cache-Control", "no-store"), true},
		{"no-cache", hdr("Cache-Control", "no-cache"), false},
		{"conditional", hdr("If-None-Match", "\"q\""), false},
		{"cookies", hdr("Cookie", "a=b", "X-Custom", "1", "X-Custom", "2"), false},
	}
	for _, m := range []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "get"} {
		for _, h := range hs {
			rqs = append(rqs, rq{m + " " + h.name, m, h.h, h.bypass || (m != "GET" && m != "HEAD")})
		}
	}
	add(&mc.Scenario{Name: "cache/bypass", Prop: "C17", Tree: true, Bubble: true, Run: func(x *mc.X) {
		p := mc.Pick(x, "policy", std, aggr)
		hist := mc.Pick(x, "history", "empty", "fresh", "stale")
		q := rqs[x.Choose(len(rqs), "request")]
		u := mc.Pick(x, "url", "http://h/a?x=1", "http://h/a")
		status := mc.Pick(x, "status", 200, 404, 500)
		o := &origin{x: x}
		ver := 0
		o.serve = func(r *oreq, req *http.Request) (*http.Response, error) {
			ver++
			return response(req, status, hdr("Date", httpDate(time.Now()), "Cache-Control", "max-age=60", "X-Ver", fmt.Sprint(ver), "ETag", fmt.Sprintf("\"%d\"", ver), "Set-Cookie", "a=1", "Set-Cookie", "b=2"), fmt.Sprintf("v%d of %s", ver, r.url)), nil
		}
		s := newStorage()
		c := newCache(x, p, o, s)
		filled := false
		if hist != "empty" {
			for _, m := range []string{"GET", "HEAD"} {
				if f := get(x, c, newReq(m, "http://h/a?x=1", nil)); f.err != nil || f.cerr != nil {
					x.Fail("fill", "%v %v", f.err, f.cerr)
				}
			}
			filled = status != 500
			if hist == "stale" {
				time.Sleep(25 * time.Hour)
			}
		}
		o.take()
		s.ops = nil
		was := fmt.Sprint(s.m)
		req := newReq(q.method, u, q.h)
		if q.method == "POST" {
			req = newReqBody(q.method, u, "payload", q.h)
		}
		sent := req.Header.Clone()
		desc := fmt.Sprintf("%s %s %s %s %d", p.name, hist, q.name, u, status)
		x.NonTrivial()
		resp, err := c.Do(req)
		reqs := o.take()
		if !x.Check(err == nil && resp != nil, "error", "%s: %v", desc, err) {
			return
		}
		if !q.bypass {
			// The request must not be modified, whatever happens.
			x.Check(hstr(req.Header) == hstr(sent) && req.URL.String() == u && req.Method == q.method, "request modified", "%s: %s %s", desc, req.Method, hstr(req.Header))
			x.Obs("%s requests %d", desc, len(reqs))
			x.Check(len(reqs) <= 1, "origin requests", "%s: %d origin requests", desc, len(reqs))
			b, err := readAll(x, resp.Body)
			x.Check(err == nil, "read", "%v", err)
			x.Check(resp.Body.Close() == nil, "close", "close")
			fromCache := resp.Header.Get("X-From-Cache") != ""
			x.Check(fromCache == (len(reqs) == 0), "X-From-Cache", "%s: X-From-Cache %v with %d origin requests", desc, fromCache, len(reqs))
			if q.method == "GET" {
				x.Check(strings.HasPrefix(b, "v") && strings.HasSuffix(b, " of "+u), "wrong body", "%s: %q", desc, b)
			} else {
				x.Check(b == "", "wrong body", "%s: %q", desc, b)
			}
			x.Check(resp.StatusCode == status, "status", "%s: %d", desc, resp.StatusCode)
			return
		}
		if !x.Check(len(reqs) == 1, "origin requests", "%s: %d origin requests", desc, len(reqs)) {
			return
		}
		r := reqs[0]
		x.Obs("%s -> %s", desc, r)
		x.Check(r.method == q.method && r.url == u && hstr(r.header) == hstr(sent) && r.host == "h", "request changed", "%s: the origin saw %s", desc, r)
		x.Check(r.req.Body == req.Body && r.req.Context() == req.Context(), "request changed", "%s: body or context replaced", desc)
		x.Check(resp.StatusCode == status && resp.Header.Get("X-Ver") == fmt.Sprint(ver) && len(resp.Header["Set-Cookie"]) == 2 && len(resp.Header) == 5, "response changed", "%s: %d %s", desc, resp.StatusCode, hstr(resp.Header))
		b, err := readAll(x, resp.Body)
		cerr := resp.Body.Close()
		want := r.body.data
		x.Check(err == nil && cerr == nil && b == want, "response changed", "%s: %q %v %v, want %q", desc, b, err, cerr, want)
		x.Check(r.body.closed > 0, "close not passed on", "%s", desc)
		x.Check(len(s.ops) == 0 && was == fmt.Sprint(s.m), "storage used", "%s: %d storage operations", desc, len(s.ops))
		// What was cached is still there.
		if filled && hist == "fresh" {
			f := get(x, c, newReq("GET", "http://h/a?x=1", nil))
			x.Check(f.err == nil && f.cached && len(o.take()) == 0 && f.body == "v1 of http://h/a?x=1", "cached entry lost", "%s: %v", desc, f)
		}
	}})

	// Over histories: a response answers only requests of its method and URL.
	add(&mc.Scenario{Name: "cache/histories", Prop: "C17", Tree: true, Bubble: true, Run: func(x *mc.X) {
		p := mc.Pick(x, "policy", std, aggr)
		status := mc.Pick(x, "status", 200, 404)
		steps := []string{"GET a", "HEAD a", "GET b", "HEAD b", "POST a", "GET! a", "HEAD! a", "GET c"}
		n := 4
		if x.Thorough() {
			n = 5
		}
		o := &origin{x: x}
		o.serve = func(r *oreq, req *http.Request) (*http.Response, error) {
			is := fmt.Sprintf("%s %s #%d", r.method, r.url, len(r.header.Values("X-Step")))
			data := "body of " + is + " " + r.header.Get("X-Step")
			h := hdr("Date", httpDate(time.Now()), "Cache-Control", "max-age=60", "X-Is", r.method+" "+r.url+" "+r.header.Get("X-Step"))
			resp := response(req, status, h, data)
			if r.url == "http://h/c" {
				resp.ContentLength = -1
				resp.TransferEncoding = []string{"chunked"}
			}
			return resp, nil
		}
		c := newCache(x, p, o, newStorage())
		type entry struct {
			is, body string
		}
		have := map[string]entry{}
		var hist []string
		x.NonTrivial()
		for i := 0; i < n; i++ {
			s := steps[x.Choose(len(steps), "request")]
			hist = append(hist, s)
			desc := p.name + " " + strings.Join(hist, ", ")
			m, u, _ := strings.Cut(s, " ")
			h := hdr("X-Step", fmt.Sprint(i))
			reload := strings.HasSuffix(m, "!")
			if reload {
				m = m[:len(m)-1]
				h.Set("Cache-Control", "no-cache")
			}
			u = "http://h/" + u
			f := get(x, c, newReq(m, u, h))
			reqs := o.take()
			if !x.Check(f.err == nil && f.rerr == nil && f.cerr == nil && f.status == status, "error", "%s: %v", desc, f) {
				return
			}
			e, ok := have[m+" "+u]
			if !ok || reload {
				if !x.Check(len(reqs) == 1 && !f.cached, "served", "%s: %d origin requests, %v", desc, len(reqs), f) {
					return
				}
				e = entry{fmt.Sprintf("%s %s %d", m, u, i), reqs[0].body.data}
				if m != "POST" {
					have[m+" "+u] = e
				}
			} else {
				x.Check(len(reqs) == 0 && f.cached, "not served", "%s: %d origin requests, %v", desc, len(reqs), f)
			}
			x.Check(f.header.Get("X-Is") == e.is && f.body == e.body, "wrong response", "%s: got %q with body %q, want %q with %q", desc, f.header.Get("X-Is"), f.body, e.is, e.body)
			x.Obs("%s", desc)
			if x.Failed() {
				return
			}
		}
	}})

	// Whatever the framing, the cached response equals the origin's.
	type framing struct {
		name string
		set  func(r *http.Response)
	}
	framings := []framing{
		{"length", func(r *http.Response) { r.Header.Set("Content-Length", fmt.Sprint(r.ContentLength)) }},
		{"length only", func(r *http.Response) {}},
		{"chunked", func(r *http.Response) { r.ContentLength = -1; r.TransferEncoding = []string{"chunked"} }},
		{"trailer", func(r *http.Response) {
			r.ContentLength = -1
			r.TransferEncoding = []string{"chunked"}
			r.Trailer = http.Header{"X-Sum": {"77"}}
		}},
		{"until close", func(r *http.Response) { r.ContentLength = -1; r.Close = true }},
		{"http/1.0", func(r *http.Response) {
			r.ContentLength = -1
			r.Proto, r.ProtoMinor, r.Close = "HTTP/1.0", 0, true
		}},
		{"http/2", func(r *http.Response) { r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/2.0", 2, 0 }},
		{"http/2 unknown", func(r *http.Response) {
			r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/2.0", 2, 0
			r.ContentLength = -1
		}},
		{"gunzipped", func(r *http.Response) { r.ContentLength = -1; r.Uncompressed = true }},
	}
	long := strings.Repeat("0123456789abcdef\r\n", 600)
	// An origin may send what the cache adds to the responses it stores.
	internal := hdr("X-Antcache-Url", "http://evil/", "X-Antcache-Vary-Accept", "text/html")
	add(&mc.Scenario{Name: "cache/fidelity", Prop: "C17", Tree: true, Bubble: true, Run: func(x *mc.X) {
		p := mc.Pick(x, "policy", std, aggr)
		m := mc.Pick(x, "method", "GET", "HEAD")
		status := mc.Pick(x, "status", 200, 203, 204, 300, 301, 404, 405, 410, 414, 501)
		fr := framings[x.Choose(len(framings), "framing")]
		data := mc.Pick(x, "body", "", "x", "line\r\n\r\nline\nHTTP/1.1 200 OK\r\n\r\n", long)
		b := mc.Pick(x, "delivery", body{errAt: -1}, body{errAt: -1, chunk: 1, eof: true}, body{errAt: -1, chunk: 7})
		extra := mc.Pick(x, "extra headers", hdr("X-A", "1"), hdr("Set-Cookie", "a=1", "Set-Cookie", "b=2; Path=/", "X-Empty", "", "Content-Type", "text/html; charset=utf-8", "Warning", "199 a \"b\""), internal)
		final := mc.Pick(x, "final url", "", "http://h/dir/other?z")
		if data == long && b.chunk == 1 {
			x.Discard()
			return
		}
		if m == "HEAD" && (data == "" || strings.HasPrefix(data, "line")) {
			x.Discard()
			return
		}
		o := &origin{x: x}
		var want *oreq
		var wantHeader http.Header
		o.serve = func(r *oreq, req *http.Request) (*http.Response, error) {
			h := hdr("Date", httpDate(time.Now()), "Cache-Control", "max-age=60")
			for k, v := range extra {
				h[k] = v
			}
			resp := response(req, status, h, data)
			nb := b
			nb.data = resp.Body.(*body).data
			resp.Body = &nb
			if !bodyless("", status) {
				fr.set(resp)
			}
			wantHeader = resp.Header.Clone()
			want = r
			if final != "" {
				q := req.Clone(req.Context())
				q.URL = mustURL(final)
				resp.Request = q
			}
			return resp, nil
		}
		u := "http://h/a?x=1"
		wantURL := u
		if final != "" {
			wantURL = final
		}
		s := newStorage()
		c := newCache(x, p, o, s)
		desc := fmt.Sprintf("%s %s %d %s body %d chunk %d %s final %q", p.name, m, status, fr.name, len(data), b.chunk, hstr(extra), final)
		x.NonTrivial()
		for i := 0; i < 3; i++ {
			req := newReq(m, u, nil)
			f := get(x, c, req)
			if !x.Check(f.err == nil && f.rerr == nil && f.cerr == nil, "error", "%s: request %d: %v %v %v", desc, i, f.err, f.rerr, f.cerr) {
				return
			}
			x.Check(req.URL.String() == u && req.Host == "h" && req.Method == m && len(req.Header) == 0, "request modified", "%s: request %d: %s %s %s %s", desc, i, req.Method, req.Host, req.URL, hstr(req.Header))
			n := len(o.take())
			if i == 0 {
				x.Check(n == 1 && !f.cached, "first request", "%s: %d requests, cached %v", desc, n, f.cached)
			} else {
				x.Check(n == 0 && f.cached, "not served from cache", "%s: request %d: %d requests, cached %v", desc, i, n, f.cached)
			}
			x.Obs("%s", f)
			x.Check(f.status == status, "status", "%s: request %d: status %d", desc, i, f.status)
			x.Check(f.body == want.body.data, "body", "%s: request %d: body %.80q", desc, i, f.body)
			ignore := []string{"X-From-Cache"}
			if i > 0 {
				for k := range internal {
					ignore = append(ignore, k)
				}
				ignore = append(ignore, "Connection", "Transfer-Encoding")
				if wantHeader.Get("Content-Length") == "" {
					ignore = append(ignore, "Content-Length")
				}
			}
			x.Check(sameHeader(f.header, wantHeader, ignore...), "header", "%s: request %d: header %s want %s", desc, i, hstr(f.header), hstr(wantHeader))
			if fr.name == "trailer" && m != "HEAD" && !bodyless("", status) {
				x.Check(hstr(f.trailer) == "X-Sum=77|", "trailer", "%s: request %d: trailer %s", desc, i, hstr(f.trailer))
			}
			x.Check(f.url == wantURL, "final url", "%s: request %d: final URL %s, want %s", desc, i, f.url, wantURL)
		}
	}})
}

func newReqBody(method, u, data string, h http.Header) *http.Request {
	req, err := http.NewRequest(method, u, strings.NewReader(data))
	if err != nil {
		panic(err)
	}
	for k, v := range h {
		req.Header[k] = append([]string(nil), v...)
	}
	return req
}

var cacheable = map[int]bool{200: true, 203: true, 204: true, 206: true, 300: true, 301: true, 404: true, 405: true, 410: true, 414: true, 501: true}

// C18: what is stored.
func init() {
	type cc struct {
		lines   []string
		noStore bool
		maxage  int // -1: none, -2: not judged together with Expires
	}
	ccs := []cc{
		{nil, false, -1},
		{[]string{"max-age=60"}, false, 60},
		{[]string{"max-age=0"}, false, 0},
		{[]string{"max-age=1"}, false, 1},
		{[]string{"max-age=-5"}, false, 0},
		{[]string{"max-age=abc"}, false, -2},
		{[]string{"public, max-age=60"}, false, 60},
		{[]string{"PUBLIC ,  MAX-AGE=60"}, false, 60},
		{[]string{"private,max-age=60,must-revalidate"}, false, 60},
		{[]string{"no-store"}, true, -1},
		{[]string{"max-age=60, no-store"}, true, 60},
		{[]string{"No-Store,max-age=60"}, true, 60},
		{[]string{"max-age=60", "no-store"}, true, 60},
		{[]string{"no-store", "max-age=60"}, true, 60},
		{[]string{"public", "max-age=60"}, false, 60},
		{[]string{"no-cache, max-age=60"}, false, 60},
		{[]string{"public"}, false, -1},
		{[]string{"s-maxage=60"}, false, -1},
		{[]string{"max-age=31536000000"}, false, 31536000000},
		{[]string{""}, false, -1},
		{[]string{"x-no-store, max-age=60"}, false, 60},
	}
	type expv struct {
		name string
		off  time.Duration
		s    string
	}
	exps := []expv{{name: "none"}, {name: "+60s", off: time.Minute}, {name: "-60s", off: -time.Minute}, {name: "=date"}, {name: "zero", s: "0"}, {name: "garbage", s: "soon"}}
	dates := []string{"now", "-30s", "none", "garbage"}
	reqccs := []http.Header{nil, hdr("Cache-Control", "max-age=0"), hdr("Cache-Control", "no-cache"), hdr("Cache-Control", "x=no-store"), hdr("Pragma", "no-cache")}
	run := func(x *mc.X, p policy, method string, status int, c cc, e expv, d string, rh http.Header) {
		o := &origin{x: x}
		o.serve = func(r *oreq, req *http.Request) (*http.Response, error) {
			h := hdr()
			now := time.Now()
			switch d {
			case "now":
				h.Set("Date", httpDate(now))
			case "-30s":
				now = now.Add(-30 * time.Second)
				h.Set("Date", httpDate(now))
			case "garbage":
				h.Set("Date", "yesterday")
			}
			for _, l := range c.lines {
				h.Add("Cache-Control", l)
			}
			switch {
			case e.s != "":
				h.Set("Expires", e.s)
			case e.name != "none":
				h.Set("Expires", httpDate(now.Add(e.off)))
			}
			return response(req, status, h, "body"), nil
		}
		want := cacheable[status] && (d == "now" || d == "-30s")
		judged := true
		if !p.aggr && want {
			switch {
			case c.noStore:
				want = false
			case c.maxage >= 0:
				want = c.maxage > 0
			case e.name == "+60s":
				want = true
				judged = c.maxage != -2
			default:
				want = false
			}
		}
		if p.aggr {
			want = want && true
		}
		s := newStorage()
		ca := newCache(x, p, o, s)
		f := get(x, ca, newReq(method, "http://h/a", rh))
		desc := fmt.Sprintf("%s %s %d cache-control %q expires %s date %s request %s", p.name, method, status, c.lines, e.name, d, hstr(rh))
		if !x.Check(f.err == nil && f.rerr == nil && f.cerr == nil, "error", "%s: %v", desc, f) {
			return
		}
		n := s.stores()
		x.Obs("%s: %d", desc, n)
		x.State(desc)
		x.NonTrivial()
		if !judged {
			return
		}
		if want {
			x.Check(n == 1, "not stored", "%s: stored %d times", desc, n)
		} else {
			x.Check(n == 0, "stored", "%s: stored %d times", desc, n)
		}
		o.take()
		// And it can be served.
		g := get(x, ca, newReq(method, "http://h/a", hdr("Cache-Control", "only-if-cached")))
		reqs := o.take()
		if want {
			noCache := strings.Contains(strings.ToLower(strings.Join(c.lines, ",")), "no-cache")
			if !p.aggr && noCache {
				x.Check(len(reqs) == 1, "served no-cache", "%s: %d requests", desc, len(reqs))
			} else {
				x.Check(len(reqs) == 0 && g.cached && g.body == f.body && g.status == status, "not served", "%s: %d requests, %v", desc, len(reqs), g)
			}
		} else {
			x.Check(len(reqs) == 1 && !g.cached, "served", "%s: %d requests, %v", desc, len(reqs), g)
		}
	}
	add(&mc.Scenario{Name: "store/headers", Prop: "C18", Tree: true, Bubble: true, Run: func(x *mc.X) {
		p := mc.Pick(x, "policy", std, aggr)
		m := mc.Pick(x, "method", "GET", "HEAD")
		status := mc.Pick(x, "status", 200, 404, 302)
		c := ccs[x.Choose(len(ccs), "cache-control")]
		e := exps[x.Choose(len(exps), "expires")]
		d := dates[x.Choose(len(dates), "date")]
		rh := reqccs[x.Choose(len(reqccs), "request header")]
		run(x, p, m, status, c, e, d, rh)
	}})
	add(&mc.Scenario{Name: "store/status", Prop: "C18", Tree: true, Bubble: true, Run: func(x *mc.X) {
		p := mc.Pick(x, "policy", std, aggr)
		m := mc.Pick(x, "method", "GET", "HEAD")
		status := 200 + x.Choose(400, "status")
		c := mc.Pick(x, "cc", ccs[0], ccs[1], ccs[2])
		e := mc.Pick(x, "exp", exps[0], exps[1])
		run(x, p, m, status, c, e, "now", nil)
	}})

	// Keys distinguish methods and URLs.
	urls := []string{"http://h/", "http://h", "https://h/", "http://h/a", "http://h/a/", "http://h/a?", "http://h/a?x=1", "http://h/a?x=2", "http://h/a?x=1&y=2", "http://h/a?y=2&x=1",
		"http://h/A", "http://h:8080/a", "http://g/a", "http://h/a%2Fb", "http://h/a/b", "http://u:p@h/a", "http://u:q@h/a", "http://p@h/a", "http://h/a;x", "http://h/a?x", "http://h/a%20b", "http://h/HEAD:http://h/a"}
	add(&mc.Scenario{Name: "store/keys", Prop: "C18", Tree: true, Bubble: true, Run: func(x *mc.X) {
		p := mc.Pick(x, "policy", std, aggr)
		m1, u1 := mc.Pick(x, "m1", "GET", "HEAD"), mc.Pick(x, "u1", urls...)
		m2, u2 := mc.Pick(x, "m2", "GET", "HEAD"), mc.Pick(x, "u2", urls...)
		o := &origin{x: x}
		o.serve = func(r *oreq, req *http.Request) (*http.Response, error) {
			return response(req, 200, hdr("Date", httpDate(time.Now()), "Cache-Control", "max-age=60", "X-Is", r.method+" "+r.url), "body of "+r.url), nil
		}
		c := newCache(x, p, o, newStorage())
		get(x, c, newReq(m1, u1, nil))
		o.take()
		f := get(x, c, newReq(m2, u2, nil))
		n := len(o.take())
		desc := fmt.Sprintf("%s %s %s then %s %s", p.name, m1, u1, m2, u2)
		x.NonTrivial()
		x.Obs("%s: %d", desc, n)
		// http://h and http://h/ are the same page, they may share an entry.
		norm := func(u string) string {
			if u == "http://h" {
				return "http://h/"
			}
			return u
		}
		if m1 == m2 && u1 == u2 {
			x.Check(n == 0, "not served", "%s: %d requests", desc, n)
		} else if m1 != m2 || norm(u1) != norm(u2) {
			x.Check(n == 1 && f.header.Get("X-Is") == m2+" "+u2, "wrong entry", "%s: %d requests, got %q", desc, n, f.header.Get("X-Is"))
		}
	}})
}

// C19: freshness.
func init() {
	type rd struct {
		name     string
		h        http.Header
		noCache  bool
		maxAge   int // -1: none
		minFresh int
		maxStale int // -1: none, -2: any
		only     bool
	}
	d := func(name string, h http.Header) rd { return rd{name: name, h: h, maxAge: -1, maxStale: -1} }
	cc := func(v string) http.Header { return hdr("Cache-Control", v) }
	with := func(r rd, f func(*rd)) rd { f(&r); return r }
	rds := []rd{
		d("none", nil),
		with(d("no-cache", cc("no-cache")), func(r *rd) { r.noCache = true }),
		with(d("NO-CACHE", cc("x, NO-CACHE")), func(r *rd) { r.noCache = true }),
		with(d("2nd line no-cache", hdr("Cache-Control", "x", "Cache-Control", "no-cache")), func(r *rd) { r.noCache = true }),
		with(d("pragma", hdr("Pragma", "no-cache")), func(r *rd) { r.noCache = true }),
		with(d("max-age=0", cc("max-age=0")), func(r *rd) { r.maxAge = 0 }),
		with(d("max-age=5", cc("max-age=5")), func(r *rd) { r.maxAge = 5 }),
		with(d("max-age=100", cc("max-age=100")), func(r *rd) { r.maxAge = 100 }),
		with(d("max-age=huge", cc("max-age=99999999999")), func(r *rd) { r.maxAge = 1 << 40 }),
		with(d("min-fresh=3", cc("min-fresh=3")), func(r *rd) { r.minFresh = 3 }),
		with(d("min-fresh=20", cc("min-fresh=20")), func(r *rd) { r.minFresh = 20 }),
		with(d("min-fresh=huge", cc("min-fresh=99999999999")), func(r *rd) { r.minFresh = 1 << 30 }),
		with(d("max-stale", cc("max-stale")), func(r *rd) { r.maxStale = -2 }),
		with(d("max-stale=3", cc("max-stale=3")), func(r *rd) { r.maxStale = 3 }),
		with(d("max-stale=0", cc("max-stale=0")), func(r *rd) { r.maxStale = 0 }),
		with(d("only-if-cached", cc("only-if-cached")), func(r *rd) { r.only = true }),
		with(d("max-age=5,min-fresh=2", cc("max-age=5, min-fresh=2")), func(r *rd) { r.maxAge = 5; r.minFresh = 2 }),
		with(d("min-fresh=2,max-stale=4", cc("min-fresh=2, max-stale=4")), func(r *rd) { r.minFresh = 2; r.maxStale = 4 }),
		with(d("no-cache,only-if-cached", cc("no-cache, only-if-cached")), func(r *rd) { r.noCache = true; r.only = true }),
	}
	type life struct {
		name   string
		lines  []string
		exp    int // seconds after Date, 0: none
		life   int
		noC    bool
		revali bool
	}
	lives := []life{
		{"max-age=10", []string{"max-age=10"}, 0, 10, false, false},
		{"expires", nil, 10, 10, false, false},
		{"both", []string{"max-age=10"}, 20, 10, false, false},
		{"both'", []string{"max-age=10"}, 4, 10, false, false},
		{"no-cache", []string{"max-age=10, no-cache"}, 0, 10, true, false},
		{"no-cache 2nd", []string{"max-age=10", "no-cache"}, 0, 10, true, false},
		{"must-revalidate", []string{"max-age=10, must-revalidate"}, 0, 10, false, true},
		{"must-revalidate 2nd", []string{"max-age=10", "Must-Revalidate"}, 0, 10, false, true},
		{"2nd line", []string{"public", "max-age=10"}, 0, 10, false, false},
	}
	add(&mc.Scenario{Name: "fresh/directives", Prop: "C19", Tree: true, Bubble: true, Run: func(x *mc.X) {
		l := lives[x.Choose(len(lives), "lifetime")]
		r := rds[x.Choose(len(rds), "request")]
		off := mc.Pick(x, "date offset", 0, 3)
		el := mc.Pick(x, "elapsed", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 25, 100)
		valid := mc.Pick(x, "validation", 304, 200)
		m := mc.Pick(x, "method", "GET", "HEAD")
		o := &origin{x: x}
		ver := 0
		status := 200
		o.serve = func(q *oreq, req *http.Request) (*http.Response, error) {
			date := time.Now().Add(-time.Duration(off) * time.Second)
			h := hdr("Date", httpDate(date), "ETag", fmt.Sprintf("\"v%d\"", ver))
			if status == 304 {
				return response(req, 304, h, ""), nil
			}
			ver++
			h.Set("Etag", fmt.Sprintf("\"v%d\"", ver))
			h.Set("X-Ver", fmt.Sprint(ver))
			for _, v := range l.lines {
				h.Add("Cache-Control", v)
			}
			if l.exp > 0 {
				h.Set("Expires", httpDate(date.Add(time.Duration(l.exp)*time.Second)))
			}
			return response(req, 200, h, fmt.Sprintf("v%d", ver)), nil
		}
		c := newCache(x, std, o, newStorage())
		f := get(x, c, newReq(m, "http://h/a", nil))
		x.Check(f.err == nil && f.cerr == nil && len(o.take()) == 1, "fill", "%v", f)
		time.Sleep(time.Duration(el) * time.Second)
		status = valid
		req := newReq(m, "http://h/a", r.h)
		g := get(x, c, req)
		reqs := o.take()
		age := off + el
		want := true // served without contact
		switch {
		case r.noCache || l.noC:
			want = false
		case r.only:
			want = true
		default:
			limit := l.life
			if r.maxAge >= 0 && r.maxAge < limit {
				limit = r.maxAge
			}
			a := age + r.minFresh
			if r.maxStale == -2 && !l.revali {
				a = -1
			} else if r.maxStale > 0 && !l.revali {
				a -= r.maxStale
			}
			want = limit > a
		}
		desc := fmt.Sprintf("%s %s, request %s, age %d, then %d", m, l.name, r.name, age, valid)
		x.NonTrivial()
		x.Obs("%s: %d requests, %v", desc, len(reqs), g.cached)
		x.State(fmt.Sprint(l.name, r.name, age, len(reqs)))
		if !x.Check(g.err == nil && g.rerr == nil && g.cerr == nil, "error", "%s: %v", desc, g) {
			return
		}
		if want {
			x.Check(len(reqs) == 0, "fresh but origin contacted", "%s", desc)
			x.Check(g.cached && g.header.Get("X-Ver") == "1" && g.status == 200, "wrong response", "%s: %v", desc, g)
		} else {
			x.Check(len(reqs) == 1, "served stale", "%s: %d requests", desc, len(reqs))
			x.Check(g.cached == (valid == 304), "X-From-Cache", "%s: cached %v", desc, g.cached)
			v := "1"
			if valid == 200 {
				v = "2"
			}
			x.Check(g.header.Get("X-Ver") == v && g.status == 200, "wrong response", "%s: %v", desc, g)
		}
	}})

	// Freshness after a validation is that of the updated header.
	type upd struct {
		name   string
		cc     []string // nil: none
		exp    int      // seconds after Date, -1000: none
		noDate bool
	}
	const none = -1000
	firsts := []upd{
		{"max-age=10", []string{"max-age=10"}, none, false},
		{"expires=10", nil, 10, false},
		{"max-age=10 expires=30", []string{"max-age=10"}, 30, false},
		{"max-age=10, no-cache", []string{"max-age=10, no-cache"}, none, false},
	}
	upds := []upd{
		{"nothing", nil, none, false},
		{"max-age=0", []string{"max-age=0"}, none, false},
		{"max-age=0 expires=20", []string{"max-age=0"}, 20, false},
		{"max-age=5", []string{"max-age=5"}, none, false},
		{"max-age=20", []string{"max-age=20"}, none, false},
		{"max-age=20 2nd line", []string{"public", "max-age=20"}, none, false},
		{"expires=20", nil, 20, false},
		{"expires=5", nil, 5, false},
		{"expires=-5", nil, -5, false},
		{"no-cache", []string{"no-cache, max-age=20"}, none, false},
		{"must-revalidate", []string{"must-revalidate, max-age=5"}, none, false},
		{"no date", nil, none, true},
		{"no date, max-age=40", []string{"max-age=40"}, none, true},
	}
	add(&mc.Scenario{Name: "fresh/updated", Prop: "C19", Tree: true, Bubble: true, Run: func(x *mc.X) {
		a := firsts[x.Choose(len(firsts), "response")]
		b := upds[x.Choose(len(upds), "304")]
		b2 := upds[x.Choose(len(upds), "second 304")]
		e1 := mc.Pick(x, "elapsed", 31, 11)
		e2 := mc.Pick(x, "then", 0, 1, 4, 6, 15, 25)
		e3 := mc.Pick(x, "then", 0, 4, 6, 15)
		m := mc.Pick(x, "method", "GET", "HEAD")
		o := &origin{x: x}
		cur := a
		o.serve = func(q *oreq, req *http.Request) (*http.Response, error) {
			now := time.Now()
			h := hdr("X-N", cur.name)
			if !cur.noDate {
				h.Set("Date", httpDate(now))
			}
			for _, v := range cur.cc {
				h.Add("Cache-Control", v)
			}
			if cur.exp != none {
				h.Set("Expires", httpDate(now.Add(time.Duration(cur.exp)*time.Second)))
			}
			h.Set("Etag", "\"e\"")
			if q.header.Get("If-None-Match") != "" {
				return response(req, 304, h, ""), nil
			}
			return response(req, 200, h, "body"), nil
		}
		c := newCache(x, std, o, newStorage())
		// The reference: the stored header.
		start := time.Now()
		var ccs []string
		var date, exp int
		hasExp := false
		at := func() int { return int(time.Since(start) / time.Second) }
		apply := func(u upd) {
			if !u.noDate {
				date = at()
			}
			if u.cc != nil {
				ccs = u.cc
			}
			if u.exp != none {
				hasExp, exp = true, at()+u.exp
			}
		}
		isFresh := func() bool {
			life, ok := 0, false
			for _, d := range strings.Split(strings.Join(ccs, ","), ",") {
				d = strings.TrimSpace(d)
				if d == "no-cache" {
					return false
				}
				if n, _ := fmt.Sscanf(d, "max-age=%d", &life); n == 1 {
					ok = true
				}
			}
			if !ok && hasExp {
				life = exp - date
			}
			return life > at()-date
		}
		desc := fmt.Sprintf("%s %s; %ds; %s; %ds; %s; %ds", m, a.name, e1, b.name, e2, b2.name, e3)
		f := get(x, c, newReq(m, "http://h/a", nil))
		x.Check(f.err == nil && f.cerr == nil && len(o.take()) == 1, "fill", "%v", f)
		apply(a)
		x.NonTrivial()
		x.State(desc)
		for i, e := range []int{e1, e2, e3} {
			time.Sleep(time.Duration(e) * time.Second)
			cur = []upd{b, b2, b2}[i]
			want := isFresh()
			g := get(x, c, newReq(m, "http://h/a", nil))
			n := len(o.take())
			x.Obs("%s %d: %d", desc, i, n)
			if !x.Check(g.err == nil && g.rerr == nil && g.cerr == nil && g.status == 200 && g.cached, "error", "%s: %v", desc, g) {
				return
			}
			if want {
				x.Check(n == 0, "fresh but origin contacted", "%s: request %d", desc, i+2)
			} else {
				x.Check(n == 1, "served stale", "%s: request %d", desc, i+2)
				apply(cur)
			}
			if x.Failed() {
				return
			}
		}
	}})

	// Vary.
	type hv struct {
		name string
		h    http.Header
	}
	langs := []hv{{"none", nil}, {"en", hdr("Accept-Language", "en")}, {"fr", hdr("Accept-Language", "fr")}, {"en+fr", hdr("Accept-Language", "en", "Accept-Language", "fr")},
		{"en,enc", hdr("Accept-Language", "en", "Accept-Encoding", "gzip")}, {"en,EN", hdr("Accept-Language", "EN")}}
	varies := []hv{{"none", nil}, {"lang", hdr("Vary", "Accept-Language")}, {"lower", hdr("Vary", "accept-language , x-y")}, {"two lines", hdr("Vary", "X-Y", "Vary", "Accept-Language")},
		{"star", hdr("Vary", "*")}, {"enc", hdr("Vary", "Accept-Encoding")}, {"empty", hdr("Vary", "")}}
	add(&mc.Scenario{Name: "fresh/vary", Prop: "C19", Tree: true, Bubble: true, Run: func(x *mc.X) {
		v := varies[x.Choose(len(varies), "vary")]
		l1 := langs[x.Choose(len(langs), "first request")]
		l2 := langs[x.Choose(len(langs), "second request")]
		l3 := langs[x.Choose(len(langs), "third request")]
		stale := x.Flag("stale before the second")
		o := &origin{x: x}
		ver := 0
		o.serve = func(q *oreq, req *http.Request) (*http.Response, error) {
			h := hdr("Date", httpDate(time.Now()), "Etag", "\"e\"")
			for k, vs := range v.h {
				h[k] = append([]string(nil), vs...)
			}
			if q.header.Get("If-None-Match") != "" {
				delete(h, "Vary")
				return response(req, 304, h, ""), nil
			}
			ver++
			h.Set("Cache-Control", "max-age=10")
			h.Set("X-Ver", fmt.Sprint(ver))
			return response(req, 200, h, fmt.Sprintf("v%d for %s", ver, hstr(q.header))), nil
		}
		agree := func(a, b http.Header) bool {
			for _, line := range v.h["Vary"] {
				for _, n := range strings.Split(line, ",") {
					n = strings.TrimSpace(n)
					if n == "*" {
						return false
					}
					if n != "" && strings.Join(a.Values(n), "\x00") != strings.Join(b.Values(n), "\x00") {
						return false
					}
				}
			}
			return true
		}
		c := newCache(x, std, o, newStorage())
		f := get(x, c, newReq("GET", "http://h/a", l1.h))
		x.Check(f.err == nil && f.cerr == nil && len(o.take()) == 1, "fill", "%v", f)
		if stale {
			time.Sleep(11 * time.Second)
		}
		x.NonTrivial()
		have := l1.h
		cur := 1
		for i, l := range []hv{l2, l3} {
			g := get(x, c, newReq("GET", "http://h/a", l.h))
			reqs := o.take()
			desc := fmt.Sprintf("vary %s, requests %s %s %s, stale %v, request %d", v.name, l1.name, l2.name, l3.name, stale, i+2)
			x.Obs("%d %s", len(reqs), g)
			if !x.Check(g.err == nil && g.rerr == nil && g.cerr == nil, "error", "%s: %v", desc, g) {
				return
			}
			ok := agree(have, l.h)
			want := 1
			if ok && !(stale && i == 0) {
				want = 0
			}
			if ok {
				x.Check(len(reqs) == want, "agreeing request", "%s: %d origin requests", desc, len(reqs))
				x.Check(g.header.Get("X-Ver") == fmt.Sprint(cur), "agreeing request", "%s: %v", desc, g)
			} else {
				x.Check(len(reqs) == 1, "used for another request", "%s: %d origin requests, %v", desc, len(reqs), g)
				for _, q := range reqs {
					x.Check(q.header.Get("If-None-Match") == "", "validates another request's response", "%s: %s", desc, q)
				}
				x.Check(g.body == fmt.Sprintf("v%d for %s", ver, hstr(newReq("GET", "http://h/a", l.h).Header)) && !g.cached, "used for another request", "%s: %v", desc, g)
				have, cur = l.h, ver
			}
			if x.Failed() {
				return
			}
		}
	}})
}

// C20: the aggressive policy.
func init() {
	add(&mc.Scenario{Name: "aggressive", Prop: "C20", Tree: true, Bubble: true, Run: func(x *mc.X) {
		age := mc.Pick(x, "age", 0, time.Minute, time.Hour, -time.Second, 48*time.Hour, 500*time.Millisecond)
		limit := age
		if limit <= 0 {
			limit = 24 * time.Hour
		}
		off := mc.Pick(x, "date offset", 0, 30*time.Second, -30*time.Second, -72*time.Hour)
		el := mc.Pick(x, "elapsed", 0, limit/2, limit-31*time.Second, limit-30*time.Second, limit-29*time.Second, limit-time.Second, limit, limit+time.Second, 2*limit, 24*time.Hour)
		h := mc.Pick(x, "response", hdr(), hdr("Cache-Control", "no-cache"), hdr("Cache-Control", "no-store"), hdr("Cache-Control", "max-age=0, must-revalidate, private"), hdr("Expires", "0"), hdr("Cache-Control", "max-age=100000000"), hdr("Pragma", "no-cache", "Etag", "\"a\""), hdr("Expires", "Sat, 01 Jan 2050 00:00:00 GMT"),
			hdr("Expires", "Mon, 01 Jan 1990 00:00:00 GMT"), hdr("Expires", "Mon, 01 Jan 1990 00:00:00 GMT", "Cache-Control", "no-cache, no-store, must-revalidate", "Pragma", "no-cache"), hdr("Cache-Control", "s-maxage=0, proxy-revalidate"), hdr("Age", "100000000", "Warning", "110 - \"stale\""),
			hdr("Set-Cookie", "a=1", "Last-Modified", "Mon, 01 Jan 1990 00:00:00 GMT"), hdr("Cache-Control", "max-age=1", "Expires", "Sat, 01 Jan 2050 00:00:00 GMT"))
		type rq struct {
			h      http.Header
			kind   int // 0: normal, 1: must go to the origin
			method string
		}
		r := mc.Pick(x, "request", rq{nil, 0, "GET"}, rq{nil, 0, "HEAD"}, rq{hdr("Cache-Control", "no-cache"), 1, "GET"}, rq{hdr("Cache-Control", "max-stale, No-Cache"), 1, "GET"}, rq{hdr("Cache-Control", "max-stale", "Cache-Control", "no-cache"), 1, "HEAD"},
			rq{hdr("Pragma", "no-cache"), 1, "GET"}, rq{hdr("Cache-Control", "no-store"), 1, "GET"}, rq{hdr("Authorization", "x"), 1, "GET"}, rq{hdr("Range", "bytes=0-"), 1, "GET"})
		status := mc.Pick(x, "status", 200, 404)
		if el < 0 {
			x.Discard()
			return
		}
		o := &origin{x: x}
		ver := 0
		o.serve = func(q *oreq, req *http.Request) (*http.Response, error) {
			ver++
			hh := h.Clone()
			hh.Set("Date", httpDate(time.Now().Add(-off)))
			hh.Set("X-Ver", fmt.Sprint(ver))
			return response(req, status, hh, fmt.Sprintf("v%d", ver)), nil
		}
		c := newCache(x, policy{aggr: true, age: age}, o, newStorage())
		f := get(x, c, newReq(r.method, "http://h/a", nil))
		x.Check(f.err == nil && f.cerr == nil && len(o.take()) == 1, "fill", "%v", f)
		time.Sleep(el)
		g := get(x, c, newReq(r.method, "http://h/a", r.h))
		reqs := o.take()
		desc := fmt.Sprintf("age %v date -%v elapsed %v response %s request %s %s", age, off, el, hstr(h), r.method, hstr(r.h))
		x.NonTrivial()
		x.Obs("%s: %d", desc, len(reqs))
		x.State(desc)
		if !x.Check(g.err == nil && g.cerr == nil, "error", "%s: %v", desc, g) {
			return
		}
		if r.kind == 0 && off+el < limit {
			x.Check(len(reqs) == 0 && g.cached && g.header.Get("X-Ver") == "1" && g.status == status, "fresh but origin contacted", "%s: %d requests, %v", desc, len(reqs), g)
		} else {
			x.Check(len(reqs) == 1 && !g.cached && g.header.Get("X-Ver") == "2" && g.status == status, "bypass or expired but served", "%s: %d requests, %v", desc, len(reqs), g)
		}
		// A refreshed entry is used from then on.
		if r.kind == 1 && len(r.h["Cache-Control"])+len(r.h["Pragma"]) > 0 && !strings.Contains(hstr(r.h), "no-store") && time.Since(time.Now().Truncate(time.Second))+off < limit {
			k := get(x, c, newReq(r.method, "http://h/a", nil))
			x.Check(len(o.take()) == 0 && k.header.Get("X-Ver") == "2", "refreshed entry not used", "%s: %v", desc, k)
		}
	}})
}
