// Package hcdp holds the scenarios over package antcdp, against a simulated browser.
package hcdp

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"
	"time"

	"github.com/yields/ant/antcdp"
	"github.com/yields/ant/zverif/mc"
	"github.com/yields/ant/zverif/vsched"
)

var all []*mc.Scenario

func add(s *mc.Scenario) { all = append(all, s) }

// Scenarios returns all scenarios.
func Scenarios() []*mc.Scenario { return all }

func newClient() *antcdp.Client { return &antcdp.Client{Addr: "http://localhost:9222"} }

func newRequest(ctx context.Context, u string) *http.Request {
	req, err := http.NewRequest("GET", u, nil)
	if err != nil {
		panic(err)
	}
	return req.WithContext(ctx)
}

// result of Do.
type result struct {
	resp *http.Response
	err  error
	body string
}

// do performs a request.
func do(x *mc.X, b *browser, c *antcdp.Client, ctx context.Context, user int, req *http.Request) result {
	ctx = b.start(ctx, user)
	resp, err := c.Do(req.WithContext(ctx))
	b.end(user)
	r := result{resp: resp, err: err}
	if err == nil {
		if !x.Check(resp != nil && resp.Body != nil, "no response", "Do returned %v without an error", resp) {
			return r
		}
		buf, err := io.ReadAll(resp.Body)
		x.Check(err == nil && resp.Body.Close() == nil, "body", "reading the body: %v", err)
		r.body = string(buf)
	}
	x.Obs("%d: %v %q\n", user, err, r.body)
	return r
}

// checkResponse compares with the document.
func checkResponse(x *mc.X, b *browser, r result, u string, d *doc, cookies []string) {
	if !x.Check(r.err == nil, "error", "%s: %v", u, r.err) || r.resp == nil {
		return
	}
	p := r.resp
	st := fmt.Sprintf("%d %s", d.status, http.StatusText(d.status))
	x.Check(p.StatusCode == d.status && p.Status == st, "status", "%s: status %d %q, want %q", u, p.StatusCode, p.Status, st)
	x.Check(r.body == d.html, "body", "%s: body %q, want %q", u, r.body, d.html)
	x.Check(p.ContentLength == int64(len(d.html)), "length", "%s: content length %d, want %d", u, p.ContentLength, len(d.html))
	want := http.Header{}
	for k, v := range d.header {
		if k = http.CanonicalHeaderKey(k); k == "Set-Cookie" {
			continue
		}
		for _, e := range strings.Split(v, "\n") {
			want.Add(k, e)
		}
	}
	want.Set("Content-Length", fmt.Sprint(len(d.html)))
	got := p.Header.Clone()
	got.Del("Set-Cookie")
	x.Check(headers(got) == headers(want), "header", "%s: header %s, want %s", u, headers(got), headers(want))
	if d.proto != "" {
		x.Check(strings.EqualFold(p.Proto, d.proto), "protocol", "%s: protocol %q, want %q", u, p.Proto, d.proto)
		var maj, min int
		if n, _ := fmt.Sscanf(strings.ToLower(d.proto), "http/%d.%d", &maj, &min); n == 2 {
			x.Check(p.ProtoMajor == maj && p.ProtoMinor == min, "protocol", "%s: protocol %d.%d, want %s", u, p.ProtoMajor, p.ProtoMinor, d.proto)
		}
	}
	var cs []string
	for _, c := range p.Cookies() {
		cs = append(cs, c.Name+"="+c.Value)
		known := false
		for _, o := range b.cookies {
			if o["name"] == c.Name && o["value"] == c.Value && strings.TrimPrefix(o["domain"].(string), ".") == strings.TrimPrefix(c.Domain, ".") && o["path"] == c.Path && o["httpOnly"] == c.HttpOnly {
				known = true
			}
		}
		x.Check(known, "cookie", "%s: the response has the cookie %q, the browser has %v", u, c, b.cookies)
	}
	sort.Strings(cs)
	sort.Strings(cookies)
	x.Check(strings.Join(cs, " ") == strings.Join(cookies, " "), "cookies", "%s: cookies %q, want %q", u, cs, cookies)
	final := u
	if n := len(d.redirects); n > 0 {
		final = d.redirects[n-1]
	}
	if x.Check(p.Request != nil && p.Request.URL != nil, "request", "%s: the response has no request", u) {
		x.Check(p.Request.URL.String() == final, "request", "%s: the response's request is for %s, want %s", u, p.Request.URL, final)
	}
}

func headers(h http.Header) string {
	var ks []string
	for k, v := range h {
		if len(v) > 0 {
			ks = append(ks, fmt.Sprintf("%s: %q", k, v))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ", ")
}

func html(s string) string { return "<html><head></head><body>" + s + "</body></html>" }

// Documents of the simulated web.
type named struct {
	name string
	d    *doc
}

func documents() []named {
	return []named{
		{"simple", &doc{status: 200, header: map[string]string{"Content-Type": "text/html"}, proto: "http/1.1", html: html("simple")}},
		{"image", &doc{status: 200, proto: "http/2.0", html: html("image"), subs: []sub{{done: true, typ: "Image"}}}},
		{"image never completes", &doc{status: 200, html: html("poll"), proto: "http/1.0", subs: []sub{{typ: "XHR"}}}},
		{"frame", &doc{status: 404, header: map[string]string{"X-Page": "main"}, html: html("frame"), subs: []sub{{frame: true, done: true, typ: "Document"}}}},
		{"frame never completes", &doc{status: 200, html: html("frame2"), subs: []sub{{frame: true, typ: "Document"}}}},
		{"redirect", &doc{status: 200, header: map[string]string{"X-Page": "final"}, html: html("redirected"), redirects: []string{"http://site.test/final?a=1"}}},
		{"redirects and cookie", &doc{status: 403, html: html("two"), redirects: []string{"http://site.test/mid", "http://other.test/final"}, setCookie: "js=1 two=2 three=3=x"}},
		{"kinds of cookies", &doc{status: 200, html: "\n" + html("cookies") + " \n", setCookie: "a=1;path=/p;httpOnly a=2 a=3;domain=.sub.site.test e= s=4;secure t=5;domain=.site.test;path=/x/y;httpOnly"}},
		{"several values", &doc{status: 500, header: map[string]string{"x-multi": "a\nb", "Link": "one", "content-length": "7"}, proto: "h2", html: html("multi ünï ✓")}},
		{"image and poll", &doc{status: 200, header: map[string]string{"X-Page": "main"}, html: html("two subs"), subs: []sub{{done: true, typ: "Image"}, {typ: "EventSource"}}}},
		{"frame and image", &doc{status: 201, header: map[string]string{"X-Page": "main"}, html: html("frame, image"), subs: []sub{{frame: true, done: true, typ: "Document"}, {done: true, typ: "Script"}}}},
		{"preload", &doc{status: 200, header: map[string]string{"X-Page": "main"}, html: html("preload"), subs: []sub{{early: true, done: true, typ: "Stylesheet"}}}},
		{"empty", &doc{status: 204, html: html("")}},
	}
}

const page = "http://site.test/page"

func wantCookies(d *doc, more ...string) []string {
	for _, c := range strings.Fields(d.setCookie) {
		c, _, _ = strings.Cut(c, ";")
		more = append(more, c)
	}
	return more
}

func init() {
	// Every order of the messages.
	add(&mc.Scenario{
		Name: "cdp/order", Prop: "C35", Quick: mc.Bound{Dev: 1, Policies: 2}, Thorough: mc.Bound{Dev: 2, Policies: 3},
		Doc: "one request for each document of a table, every order of the browser's messages",
		Run: func(x *mc.X) {
			b := newBrowser(x)
			docs := documents()
			n := docs[x.Choose(len(docs), "document")]
			b.docs[page] = n.d
			c := newClient()
			x.Go("request", func() {
				r := do(x, b, c, context.Background(), 1, newRequest(context.Background(), page))
				checkResponse(x, b, r, page, n.d, wantCookies(n.d))
				x.NonTrivial()
			})
			x.Finish()
			x.Obs("%s", n.name)
		},
	})

	// Schedules.
	add(&mc.Scenario{
		Name: "cdp/schedules", Prop: "C35", Quick: mc.Bound{Dev: 1, Policies: 3}, Thorough: mc.Bound{Dev: 2, Policies: 3},
		Doc: "simple documents, schedules of the client's goroutines",
		Run: func(x *mc.X) {
			b := newBrowser(x)
			docs := documents()
			n := docs[mc.Pick(x, "document", 0, 2, 5)]
			b.docs[page] = n.d
			c := newClient()
			x.Go("request", func() {
				r := do(x, b, c, context.Background(), 1, newRequest(context.Background(), page))
				checkResponse(x, b, r, page, n.d, wantCookies(n.d))
				x.NonTrivial()
			})
			x.Finish()
		},
	})

	// What a request leaves behind does not disturb the next.
	reuse := func(firsts []named, stops int, second *doc) func(x *mc.X) {
		return func(x *mc.X) {
			b := newBrowser(x)
			n := firsts[x.Choose(len(firsts), "first")]
			u2 := "http://site.test/second"
			b.docs[page], b.docs[u2] = n.d, second
			c := newClient()
			ctx, cancel := context.WithCancel(context.Background())
			stop := -stops
			if stops >= 0 {
				stop = x.Choose(stops+1, "canceled at message")
			}
			if stop > 0 {
				b.onSend = func(c *conn, k int, m *msg) bool {
					if k == stop {
						// The rest comes after the client has hung up.
						c.silent = true
						cancel()
					}
					return true
				}
			}
			x.Go("requests", func() {
				defer cancel()
				r := do(x, b, c, ctx, 1, newRequest(context.Background(), page))
				if stop == 0 || r.err == nil {
					checkResponse(x, b, r, page, n.d, wantCookies(n.d))
				}
				b.onSend = nil
				r = do(x, b, c, context.Background(), 2, newRequest(context.Background(), u2))
				checkResponse(x, b, r, u2, second, b.cookieStrings())
				x.NonTrivial()
			})
			x.Finish()
		}
	}
	docs := documents()
	add(&mc.Scenario{
		Name: "cdp/reuse", Prop: "C35", Quick: mc.Bound{Dev: 0, Policies: 1}, Thorough: mc.Bound{Dev: 0, Policies: 3},
		Doc: "two requests on one target, the first complete or canceled at any message, every order of the messages",
		Run: reuse([]named{docs[0], docs[2], docs[3], docs[5]}, 14, &doc{status: 203, header: map[string]string{"X-Page": "second"}, proto: "http/1.1", html: html("second")}),
	})
	add(&mc.Scenario{
		Name: "cdp/stale", Prop: "C35", Quick: mc.Bound{Dev: 1, Policies: 1}, Thorough: mc.Bound{Dev: 2, Policies: 2},
		Doc: "as reuse, only the reply to the navigation is out when the first request is canceled, schedules",
		Run: reuse([]named{docs[0]}, -7, &doc{status: 203, header: map[string]string{"X-Page": "second"}, html: html("second")}),
	})
	add(&mc.Scenario{
		Name: "cdp/reuse2", Prop: "C35", Quick: mc.Bound{Dev: 0, Policies: 1}, Thorough: mc.Bound{Dev: 1, Policies: 1},
		Doc: "two requests on one target, both with subresources",
		Run: reuse([]named{docs[1], docs[2]}, 14, &doc{status: 203, header: map[string]string{"X-Page": "second"}, html: html("second"), subs: []sub{{typ: "XHR"}}}),
	})

	// Failures.
	add(&mc.Scenario{
		Name: "cdp/fail", Prop: "C35", Quick: mc.Bound{Dev: 1, Policies: 2}, Thorough: mc.Bound{Dev: 2, Policies: 3},
		Doc: "a call, a message, the connection, the target or the navigation fails, or the request is canceled",
		Run: func(x *mc.X) { fail(x, "") },
	})
	add(&mc.Scenario{
		Name: "cdp/fail-close", Prop: "C34", Quick: mc.Bound{Dev: 1, Policies: 3}, Thorough: mc.Bound{Dev: 2, Policies: 3},
		Doc: "connections are closed and the target is reused after a request that fails at any point or is canceled",
		Run: func(x *mc.X) { fail(x, "twice") },
	})

	add(&mc.Scenario{
		Name: "cdp/status", Prop: "C35", Quick: mc.Bound{Dev: 0, Policies: 1}, Thorough: mc.Bound{Dev: 0, Policies: 3},
		Doc: "every status from 200 to 599 and some others, after a redirect or not",
		Run: func(x *mc.X) {
			b := newBrowser(x)
			b.orders = "fixed"
			st := 200 + x.Choose(400+3, "status")
			if st >= 600 {
				st = []int{600, 700, 999}[st-600]
			}
			d := &doc{status: st, header: map[string]string{"Content-Type": "text/html", "Location": "/other"}, html: html(fmt.Sprint(st))}
			if x.Flag("redirected") {
				d.redirects = []string{"http://site.test/final"}
			}
			b.docs[page] = d
			c := newClient()
			x.Go("request", func() {
				r := do(x, b, c, context.Background(), 1, newRequest(context.Background(), page))
				checkResponse(x, b, r, page, d, nil)
				x.NonTrivial()
			})
			x.Finish()
		},
	})
	add(&mc.Scenario{
		Name: "cdp/canceled", Prop: "C34", Quick: mc.Bound{Dev: 1, Policies: 3}, Thorough: mc.Bound{Dev: 3, Policies: 3},
		Doc: "a request whose context is canceled before or at any time, between two others",
		Run: func(x *mc.X) {
			b := newBrowser(x)
			b.orders = "fixed"
			d := documents()[0].d
			b.docs[page] = d
			before := x.Flag("before")
			c := newClient()
			ctx, cancel := context.WithCancel(context.Background())
			var first int32
			if !before {
				x.Go("cancel", func() {
					vsched.Point("first is done", vsched.KNonZero, &first)
					cancel()
				})
			}
			x.Go("requests", func() {
				defer cancel()
				for k := 1; k <= 4; k++ {
					rctx := context.Background()
					if k%2 == 0 {
						first = 1
						if rctx = ctx; before {
							cancel()
						}
					}
					r := do(x, b, c, rctx, k, newRequest(context.Background(), page))
					switch {
					case k%2 == 1 || r.err == nil:
						checkResponse(x, b, r, page, d, b.cookieStrings())
					default:
						x.Check(errors.Is(r.err, context.Canceled), "other error", "the canceled request: %v", r.err)
					}
					x.Check(len(b.order) <= 1, "targets", "%d targets for %d requests in a row", len(b.order), k)
				}
				x.NonTrivial()
			})
			x.Finish()
		},
	})
	add(&mc.Scenario{
		Name: "cdp/first", Prop: "C34", Fine: true, FineFiles: []string{"client.go", "targets.go", "transport.go"}, Quick: mc.Bound{Dev: 1, Policies: 2}, Thorough: mc.Bound{Dev: 1, Policies: 3},
		Doc: "the first requests of a client come at the same time, then as many again, finest schedules",
		Run: func(x *mc.X) {
			b := newBrowser(x)
			b.orders = "fixed"
			d := documents()[0].d
			b.docs[page] = d
			c := newClient()
			done := 0
			var again int32
			const n = 2
			for g := 0; g < n; g++ {
				x.Go(fmt.Sprintf("requests %d", g), func() {
					for k := 0; k < 2; k++ {
						r := do(x, b, c, context.Background(), 10*(g+1)+k, newRequest(context.Background(), page))
						checkResponse(x, b, r, page, d, b.cookieStrings())
						if done++; done == n {
							again = 1
						}
						vsched.Point("again", vsched.KNonZero, &again)
					}
					x.Check(len(b.order) <= n, "targets", "%d targets for %d requests at a time", len(b.order), n)
					x.NonTrivial()
				})
			}
			x.Finish()
		},
	})

	// Requests at the same time.
	add(&mc.Scenario{
		Name: "cdp/pool", Prop: "C34", Quick: mc.Bound{Dev: 1, Policies: 3}, Thorough: mc.Bound{Dev: 2, Policies: 3},
		Doc: "two or three goroutines, two requests each; one may fail or be canceled",
		Run: pool,
	})
	add(&mc.Scenario{
		Name: "cdp/idle", Prop: "C34", MaxSteps: 60000, Quick: mc.Bound{Dev: 0, Policies: 3}, Thorough: mc.Bound{Dev: 1, Policies: 3},
		Doc: "twelve requests at the same time, then twelve again",
		Run: idle,
	})
}

func (b *browser) cookieStrings() (ret []string) {
	for _, c := range b.cookies {
		ret = append(ret, fmt.Sprintf("%s=%s", c["name"], c["value"]))
	}
	return
}

var errNetwork = errors.New("network is down")

// fail lets something go wrong.
func fail(x *mc.X, mode string) {
	b := newBrowser(x)
	d := documents()[0]
	if mode == "" {
		d = mc.Pick(x, "document", d, documents()[2])
	} else {
		b.orders = "deviate"
	}
	b.docs[page] = d.d
	c := newClient()
	ctx, cancel := context.WithCancel(context.Background())
	kind := mc.Pick(x, "fault", "none", "error reply", "drop at call", "drop at message", "no answer", "navigation", "dial", "create", "create status", "cancel", "cancel at call", "cancel at message", "canceled before", "deadline", "aborted", "silent new", "silent dial")
	at := 0
	switch kind {
	case "error reply", "drop at call", "no answer", "cancel at call":
		at = 1 + x.Choose(12, "call")
	case "drop at message", "cancel at message":
		at = 1 + x.Choose(14, "message")
	}
	hit, must := false, true
	var hitErr error
	b.onCall = func(c *conn, n int, method string) string {
		if n != at {
			return ""
		}
		switch kind {
		case "error reply":
			hit = true
			// Not what the response is made of.
			must = method != "Page.stopLoading" && method != "Page.disable" && method != "Network.disable"
			return "error"
		case "drop at call":
			hit = true
			return "drop"
		case "no answer":
			hit = true
			hitErr = context.Canceled
			return "hang"
		case "cancel at call":
			// The response is incomplete.
			hit, must = true, strings.HasPrefix(method, "Page.") || method == "Network.enable" || strings.HasPrefix(method, "DOM.")
			must = must && !strings.HasSuffix(method, ".disable")
			hitErr = context.Canceled
			cancel()
		}
		return ""
	}
	b.onSend = func(c *conn, n int, m *msg) bool {
		if n != at {
			return true
		}
		switch kind {
		case "drop at message":
			hit = true
			// An event that does not matter may be what was lost.
			must = false
			return false
		case "cancel at message":
			hit, must = true, false
			hitErr = context.Canceled
			cancel()
		}
		return true
	}
	switch kind {
	case "navigation":
		b.docs[page] = &doc{errText: "net::ERR_NAME_NOT_RESOLVED"}
		hit = true
	case "aborted":
		// Not a document, a download say.
		b.docs[page] = &doc{errText: "net::ERR_ABORTED"}
		hit = true
	case "silent new", "silent dial":
		ctx, cancel = context.WithTimeout(context.Background(), 10*time.Second)
		b.silent = func(what string, n int) bool {
			if "silent "+what == kind {
				hit = true
				hitErr = context.DeadlineExceeded
				return true
			}
			return false
		}
	case "dial":
		b.onDial = func(n int) error { hit = true; hitErr = errNetwork; return errNetwork }
	case "create":
		b.onNew = func(n int) (int, error) { hit = true; hitErr = errNetwork; return 0, errNetwork }
	case "create status":
		b.onNew = func(n int) (int, error) { hit = true; return 500, nil }
	case "canceled before":
		cancel()
		hit = true
		hitErr = context.Canceled
	case "deadline":
		// The browser never answers.
		ctx, cancel = context.WithTimeout(context.Background(), 10*time.Second)
		b.onCall = func(c *conn, n int, method string) string {
			if method == "Page.navigate" {
				hit = true
				hitErr = context.DeadlineExceeded
				return "hang"
			}
			return ""
		}
	case "no answer":
		// Somebody gives up.
		t := time.AfterFunc(time.Minute, cancel)
		defer t.Stop()
	}
	if kind == "cancel" {
		hit, must = true, false
		hitErr = context.Canceled
		x.Go("cancel", cancel)
	}
	x.Go("request", func() {
		defer cancel()
		r := do(x, b, c, ctx, 1, newRequest(context.Background(), page))
		x.NonTrivial()
		switch {
		case !hit:
			checkResponse(x, b, r, page, d.d, wantCookies(d.d))
		case r.err == nil:
			x.Check(!must, "no error", "%s at %d: no error", kind, at)
			checkResponse(x, b, r, page, d.d, wantCookies(d.d))
		default:
			x.Check(r.resp == nil, "response and error", "%s at %d: a response comes with %v", kind, at, r.err)
			if hitErr != nil {
				x.Check(errors.Is(r.err, hitErr), "other error", "%s at %d: %v, want %v", kind, at, r.err, hitErr)
			}
		}
		if mode != "twice" {
			return
		}
		// The browser recovers.
		b.onCall, b.onSend, b.onDial, b.onNew, b.silent = nil, nil, nil, nil, nil
		b.docs[page] = d.d
		r = do(x, b, c, context.Background(), 2, newRequest(context.Background(), page))
		checkResponse(x, b, r, page, d.d, b.cookieStrings())
		x.Check(len(b.order) <= 1, "targets", "%d targets for two requests in a row", len(b.order))
	})
	x.Finish()
}

// pool is several requests at the same time.
func pool(x *mc.X) {
	b := newBrowser(x)
	b.orders = "deviate"
	n := 2 + x.Choose(2, "goroutines")
	rounds := 4 - n
	fault := mc.Pick(x, "fault", "none", "error", "drop", "dial", "create", "cancel")
	c := newClient()
	ctx, cancel := context.WithCancel(context.Background())
	call := 1
	if fault == "error" || fault == "drop" {
		call = mc.Pick(x, "at", 1, 4, 7, 9, 12)
	}
	b.onCall = func(c *conn, k int, method string) string {
		if k == call {
			switch fault {
			case "error", "drop":
				return fault
			}
		}
		return ""
	}
	b.onDial = func(k int) error {
		if fault == "dial" && k == 1 {
			return errNetwork
		}
		return nil
	}
	b.onNew = func(k int) (int, error) {
		if fault == "create" && k == 1 {
			return 0, errNetwork
		}
		return 0, nil
	}
	done := 0
	for g := 0; g < n; g++ {
		g := g
		u := fmt.Sprintf("http://site.test/%d", g)
		d := &doc{status: 200 + g, header: map[string]string{"X-Page": fmt.Sprint(g)}, html: html(u)}
		b.docs[u] = d
		x.Go(fmt.Sprintf("requests %d", g), func() {
			for k := 0; k < rounds; k++ {
				r := do(x, b, c, ctx, 10*(g+1)+k, newRequest(context.Background(), u))
				if r.err == nil || fault == "none" {
					checkResponse(x, b, r, u, d, nil)
				}
			}
			if done++; done == n {
				x.Check(len(b.order) <= n, "targets", "%d targets for at most %d requests at a time", len(b.order), n)
			}
			x.NonTrivial()
		})
	}
	if fault == "cancel" {
		x.Go("cancel", cancel)
	}
	defer cancel()
	x.Finish()
}

// idle targets are kept, at most ten.
func idle(x *mc.X) {
	b := newBrowser(x)
	c := newClient()
	b.orders = "fixed"
	const n = 12
	var held [2]int
	var gate [3]int32
	done := 0
	round := func(user int) int { return user / 100 }
	// All requests of a round are under way before one of them goes on.
	b.onDialed = func(user int) {
		r := round(user)
		if held[r]++; held[r] == n {
			gate[r] = 1
		}
		vsched.Point("under way", vsched.KNonZero, &gate[r])
	}
	d := documents()[0].d
	for g := 0; g < n; g++ {
		g := g
		u := fmt.Sprintf("http://site.test/%d", g)
		b.docs[u] = d
		x.Go(fmt.Sprintf("requests %d", g), func() {
			checkResponse(x, b, do(x, b, c, context.Background(), g, newRequest(context.Background(), u)), u, d, nil)
			if done++; done == n {
				x.Check(b.newn == n, "targets", "%d targets created for %d requests at a time", b.newn, n)
				gate[2] = 1
			}
			vsched.Point("second round", vsched.KNonZero, &gate[2])
			checkResponse(x, b, do(x, b, c, context.Background(), 100+g, newRequest(context.Background(), u)), u, d, nil)
			if done++; done == 2*n {
				x.Check(b.newn == n+2, "idle", "%d targets were created for the second round, want 2", b.newn-n)
			}
			x.NonTrivial()
		})
	}
	x.Finish()
}

func init() {
	urls := []string{
		"http://site.test/", "http://site.test/a/b?x=1&y=%20z", "https://site.test:8443/p%2Fq?q=a+b", "http://site.test/ünï?ö=ä",
		"http://user:pw@site.test/", "http://site.test/x#frag", "http://[::1]:8080/", "http://site.test", "http://site.test/a b", "http://site.test/?", "HTTP://site.test/a//b/../c",
	}
	type hdr struct {
		k string
		v []string
	}
	sets := [][]hdr{
		nil,
		{{"User-Agent", []string{"ant"}}},
		{{"Accept", []string{"text/html", "*/*"}}, {"X-Empty", []string{""}}},
		{{"x-lower", []string{"low"}}, {"X-UPPER-case", []string{"up", "2"}}},
		{{"Accept-Language", []string{"fr, de;q=0.5"}}, {"X-Quote", []string{"\"q\" \\ <&>ü"}}, {"Referer", []string{"http://r/"}}},
	}
	cookies := [][]string{
		nil, {"a=1"}, {"a=1", "b=two words"}, {"a=", "A=x=y"}, {"n=1", "n=2"}, {"a=%20!#$/?", "b=2", "c=3"},
	}
	add(&mc.Scenario{
		Name: "cdp/request", Prop: "C36", Quick: mc.Bound{Dev: 0, Policies: 1}, Thorough: mc.Bound{Dev: 1, Policies: 1},
		Doc: "all combinations of URLs, headers and cookies, a second request with others on the same target",
		Run: func(x *mc.X) {
			b := newBrowser(x)
			b.orders = "deviate"
			c := newClient()
			type in struct {
				u  string
				h  []hdr
				cs []string
			}
			ins := []in{{mc.Pick(x, "url", urls...), mc.Pick(x, "headers", sets...), mc.Pick(x, "cookies", cookies...)}}
			if x.Flag("twice") {
				k := x.Choose(3, "second")
				ins = append(ins, in{urls[1+k], sets[k+1], cookies[2*k%len(cookies)]})
			}
			x.Go("request", func() {
				for i, in := range ins {
					req := newRequest(context.Background(), in.u)
					req.Header = http.Header{}
					for _, h := range in.h {
						req.Header[h.k] = append([]string(nil), h.v...)
					}
					if len(in.cs) > 0 {
						for _, s := range in.cs {
							k, v, _ := strings.Cut(s, "=")
							req.AddCookie(&http.Cookie{Name: k, Value: v})
						}
					}
					if in.h == nil && in.cs == nil && i == 0 {
						req.Header = nil
					}
					b.calls = nil
					u := req.URL.String()
					want := map[string]string{}
					for k, v := range req.Header {
						if !strings.EqualFold(k, "Cookie") {
							want[strings.ToLower(k)] = v[0]
						}
					}
					var wc []string
					for _, c := range req.Cookies() {
						wc = append(wc, c.Name+"="+c.Value)
					}
					d := &doc{status: 200, html: html(u)}
					b.docs[u] = d
					r := do(x, b, c, context.Background(), i+1, req)
					x.NonTrivial()
					if !x.Check(r.err == nil, "error", "%s: %v", u, r.err) {
						return
					}
					x.Check(r.body == d.html, "body", "%s: body %q", u, r.body)
					final, _, _ := strings.Cut(u, "#")
					got, _, _ := strings.Cut(r.resp.Request.URL.String(), "#")
					x.Check(got == final, "request", "%s: the response is for %s", u, r.resp.Request.URL)
					x.Check(r.resp.Request.Method == "GET" && headers(r.resp.Request.Header) == headers(req.Header), "request", "%s: the response's request is another", u)
					b.checkCalls(u, want, wc)
				}
			})
			x.Finish()
		},
	})
}

// checkCalls compares what the browser was told with the request.
func (b *browser) checkCalls(u string, want map[string]string, cookies []string) {
	x := b.x
	nav := 0
	var got map[string]string
	var cs []string
	enabled := map[string]bool{}
	cookie := func(v any) {
		m, _ := v.(map[string]any)
		cs = append(cs, str(m["name"])+"="+str(m["value"]))
		if str(m["url"]) != u {
			dm := str(m["domain"])
			x.Check(dm != "" && strings.Contains(u, dm), "cookie's URL", "%s: cookie for %q", u, m["url"])
		}
	}
	for _, c := range b.calls {
		if nav > 0 {
			x.Check(c.method != "Page.navigate", "navigations", "%s: navigated again", u)
			continue
		}
		switch c.method {
		case "Page.enable", "Network.enable":
			enabled[c.method] = true
		case "Page.disable", "Network.disable":
			enabled[strings.TrimSuffix(c.method, "disable")+"enable"] = false
		case "Network.setExtraHTTPHeaders":
			got = map[string]string{}
			m, _ := c.params["headers"].(map[string]any)
			for k, v := range m {
				k = strings.ToLower(k)
				_, dup := got[k]
				x.Check(!dup, "headers", "%s: header %s set twice", u, k)
				if k != "cookie" {
					got[k] = str(v)
				}
			}
		case "Storage.setCookies", "Network.setCookies":
			l, _ := c.params["cookies"].([]any)
			for _, v := range l {
				cookie(v)
			}
		case "Network.setCookie":
			cookie(c.params)
		case "Page.navigate":
			nav++
			x.Check(str(c.params["url"]) == u, "navigation", "navigated to %q, want %q", c.params["url"], u)
			x.Check(enabled["Page.enable"] && enabled["Network.enable"], "events", "%s: navigated before the events were enabled", u)
		}
	}
	x.Check(nav == 1, "navigation", "%s: not navigated", u)
	x.Check(fmt.Sprint(got) == fmt.Sprint(want) || len(want) == 0 && len(got) == 0, "headers", "%s: extra headers %q, want %q", u, got, want)
	x.Check(strings.Join(cs, "; ") == strings.Join(cookies, "; "), "cookies", "%s: cookies set %q, want %q", u, cs, cookies)
}

// Sizes at which something is cut, or sent in parts.
func init() {
	add(&mc.Scenario{
		Name: "cdp/large", Prop: "C35", MaxSteps: 1000000, Quick: mc.Bound{Dev: 0, Policies: 1}, Thorough: mc.Bound{Dev: 0, Policies: 3},
		Doc: "documents of up to 3 MB, 500 headers and cookies, 100 subresources and 20 redirects",
		Run: func(x *mc.X) {
			b := newBrowser(x)
			b.orders = "fixed"
			d := &doc{status: 200, header: map[string]string{"Content-Type": "text/html"}, html: html("x")}
			what := mc.Pick(x, "what", "document", "spaces", "runes", "headers", "values", "header", "cookies", "subresources", "redirects")
			n := mc.Pick(x, "size", 10, 100, 1000, 10000, 70000, 1100000, 3000000)
			max := map[string]int{"headers": 1000, "values": 1000, "cookies": 1000, "subresources": 100, "redirects": 10}[what]
			if max > 0 && n > max {
				x.Discard()
				return
			}
			switch what {
			case "document":
				d.html = html(strings.Repeat("0123456789", n/10) + "end")
			case "spaces":
				d.html = "\n" + strings.Repeat(" ", n) + html("x") + strings.Repeat("\n", n)
			case "runes":
				d.html = html(strings.Repeat("ü€", n/5) + "end")
			case "headers":
				for i := 0; i < n/2; i++ {
					d.header[fmt.Sprintf("X-Header-%d", i)] = fmt.Sprint(i)
				}
			case "values":
				d.header["X-Values"] = "first" + strings.Repeat("\nnext", n)
			case "header":
				d.header["X-Long"] = strings.Repeat("v", n)
			case "cookies":
				for i := 0; i < n/2; i++ {
					d.setCookie += fmt.Sprintf(" c%d=%d", i, i)
				}
			case "subresources":
				for i := 0; i < n; i++ {
					d.subs = append(d.subs, sub{done: i%3 > 0, frame: i%4 == 0, typ: []string{"Document", "Image", "Script", "XHR"}[i%4]})
				}
			case "redirects":
				for i := 0; i < 2*n; i++ {
					d.redirects = append(d.redirects, fmt.Sprintf("http://site.test/r%d", i))
				}
			}
			b.docs[page] = d
			c := newClient()
			x.Go("request", func() {
				ctx := b.start(context.Background(), 1)
				resp, err := c.Do(newRequest(context.Background(), page).WithContext(ctx))
				b.end(1)
				r := result{resp: resp, err: err}
				if err == nil {
					buf, err := io.ReadAll(resp.Body)
					x.Check(err == nil && resp.Body.Close() == nil, "body", "reading the body: %v", err)
					r.body = string(buf)
				}
				checkResponse(x, b, r, page, d, wantCookies(d))
				x.NonTrivial()
				x.Obs("%s %d %d", what, n, len(r.body))
			})
			x.Finish()
		},
	})
	add(&mc.Scenario{
		Name: "cdp/long", Prop: "C36", MaxSteps: 1000000, Quick: mc.Bound{Dev: 0, Policies: 1}, Thorough: mc.Bound{Dev: 0, Policies: 3},
		Doc: "URLs, headers and cookies of up to 70000 bytes, up to 500 of them",
		Run: func(x *mc.X) {
			b := newBrowser(x)
			b.orders = "fixed"
			what := mc.Pick(x, "what", "path", "query", "header", "headers", "cookie", "cookies")
			n := mc.Pick(x, "size", 100, 130, 260, 1030, 2060, 4200, 8300, 33000, 70000)
			u := page
			want := map[string]string{}
			var cs []string
			fill := strings.Repeat("x", n)
			switch what {
			case "path":
				u += "/" + fill + "/end"
			case "query":
				u += "?q=" + fill + "&r=end"
			case "header":
				want["X-Long"] = fill + "end"
			case "headers":
				for i := 0; i < min(n, 500); i++ {
					want[fmt.Sprintf("X-Header-%d", i)] = fmt.Sprint(i)
				}
			case "cookie":
				cs = []string{"long=" + fill + "end", "short=1"}
			case "cookies":
				for i := 0; i < min(n, 500); i++ {
					cs = append(cs, fmt.Sprintf("c%d=%d", i, i))
				}
			}
			req := newRequest(context.Background(), u)
			req.Header = http.Header{}
			low := map[string]string{}
			for k, v := range want {
				req.Header.Set(k, v)
				low[strings.ToLower(k)] = v
			}
			for _, s := range cs {
				k, v, _ := strings.Cut(s, "=")
				req.AddCookie(&http.Cookie{Name: k, Value: v})
			}
			b.docs[u] = &doc{status: 200, html: html("page")}
			c := newClient()
			x.Go("request", func() {
				r := do(x, b, c, context.Background(), 1, req)
				x.NonTrivial()
				x.Obs("%s %d", what, n)
				if !x.Check(r.err == nil && r.body == html("page"), "error", "%s of %d bytes: %v %q", what, n, r.err, r.body) {
					return
				}
				x.Check(r.resp.Request.URL.String() == u, "request", "%s of %d bytes: the response is for another URL", what, n)
				b.checkCalls(u, low, cs)
			})
			x.Finish()
		},
	})
}
