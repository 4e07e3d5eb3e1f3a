package hant

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/mc"
)

// tempErr is a temporary network error.
type tempErr struct{ s string }

func (e *tempErr) Error() string   { return e.s }
func (e *tempErr) Temporary() bool { return true }
func (e *tempErr) Timeout() bool   { return true }

type permErr struct{ s string }

func (e *permErr) Error() string   { return e.s }
func (e *permErr) Temporary() bool { return false }

// timeoutErr is a timeout which does not say that it is temporary.
type timeoutErr struct{ s string }

func (e *timeoutErr) Error() string   { return e.s }
func (e *timeoutErr) Timeout() bool   { return true }
func (e *timeoutErr) Temporary() bool { return false }

// outerErr is not temporary whatever caused it.
type outerErr struct{ cause error }

func (e *outerErr) Error() string   { return "final: " + e.cause.Error() }
func (e *outerErr) Unwrap() error   { return e.cause }
func (e *outerErr) Temporary() bool { return false }

// attempt is what the network does with one request.
type attempt struct {
	name     string
	status   int
	err      error
	withResp bool // a response comes with the error
	temp     bool // worth a retry
}

var errPerm = &permErr{"permanent"}
var errTemp = &tempErr{"temporary"}

var attempts = []attempt{
	{name: "200", status: 200},
	{name: "503", status: 503, temp: true},
	{name: "404", status: 404},
	{name: "temp", err: &url.Error{Op: "Get", URL: "http://h/", Err: &net.OpError{Op: "read", Err: errTemp}}, temp: true},
	{name: "perm", err: &url.Error{Op: "Get", URL: "http://h/", Err: errPerm}},
	{name: "429", status: 429, temp: true},
	{name: "504", status: 504, temp: true},
	{name: "500", status: 500},
	{name: "403", status: 403},
	{name: "301", status: 301},
	{name: "399", status: 399},
	{name: "400", status: 400},
	{name: "501", status: 501},
	{name: "502", status: 502},
	{name: "505", status: 505},
	{name: "temp+resp", err: errTemp, withResp: true, temp: true},
	{name: "perm+resp", err: errBoom, withResp: true},
	{name: "204", status: 204},
	{name: "410", status: 410},
	{name: "600", status: 600},
	{name: "999", status: 999},
	{name: "timeout", err: &url.Error{Op: "Get", URL: "http://h/", Err: &timeoutErr{"slow"}}},
	{name: "deadline", err: &url.Error{Op: "Get", URL: "http://h/", Err: context.DeadlineExceeded}, temp: true},
	{name: "wrapped temp", err: fmt.Errorf("proxy: %w", &net.DNSError{Err: "try again", IsTemporary: true}), temp: true},
	{name: "wrapped perm", err: fmt.Errorf("proxy: %w", &net.DNSError{Err: "no such host", IsNotFound: true})},
	{name: "perm then temp", err: fmt.Errorf("proxy: %w", &outerErr{errTemp})},
}

func init() {
	run := func(x *mc.X, maxAttempts int, min, max time.Duration, set []attempt, cancel bool) {
		w := newWeb(x)
		f := &ant.Fetcher{MaxAttempts: maxAttempts, MinBackoff: min, MaxBackoff: max}
		wantMax, wmin, wmaxb := maxAttempts, min, max
		if wantMax <= 0 {
			wantMax = 5
		}
		if wmin <= 0 {
			wmin = 50 * time.Millisecond
		}
		if wmaxb <= 0 {
			wmaxb = time.Second
		}
		ctx := context.Background()
		cancelAt := time.Duration(-1)
		if cancel {
			// Between and during the backoffs.
			cancelAt = mc.Pick(x, "cancel at", 10*time.Millisecond, 60*time.Millisecond, 150*time.Millisecond, 260*time.Millisecond, 0)
			c, stop := context.WithCancel(ctx)
			if cancelAt == 0 {
				stop()
			} else {
				t := time.AfterFunc(cancelAt, stop)
				defer t.Stop()
			}
			defer stop()
			ctx = c
		}
		start := time.Now()
		var got []attempt
		var at []time.Duration
		f.Client = doFunc(func(req *http.Request) (*http.Response, error) {
			at = append(at, time.Since(start))
			if err := req.Context().Err(); err != nil {
				got = append(got, attempt{name: "canceled", err: err})
				return nil, err
			}
			if len(got) > wantMax+2 {
				x.Fail("too many attempts", "%d attempts", len(got))
				return nil, errBoom
			}
			a := set[x.Choose(len(set), "attempt")]
			got = append(got, a)
			st := a.status
			if a.withResp {
				st = 502
			}
			var resp *http.Response
			if a.err == nil || a.withResp {
				resp = w.response(req, req.URL.String(), &pg{status: st}, "body of "+a.name)
			}
			return resp, a.err
		})
		u := mustURL("http://h/x?y")
		page, err := f.Fetch(ctx, u)
		end := time.Since(start)
		if x.Failed() {
			return
		}
		x.NonTrivial()
		var names []string
		for i, a := range got {
			names = append(names, fmt.Sprintf("%s@%v", a.name, at[i]))
		}
		desc := fmt.Sprintf("max %d backoff %v..%v cancel %v: %s", maxAttempts, min, max, cancelAt, strings.Join(names, " "))
		x.Obs("%s", desc)
		x.State(desc)
		x.Step(len(got))
		canceled := cancelAt >= 0 && end >= cancelAt
		// The schedule of attempts.
		x.Check(len(got) <= wantMax, "too many attempts", "%d attempts: %s", len(got), desc)
		x.Check(len(got) > 0 || canceled, "no attempt", "no attempt: %s", desc)
		if len(got) == 0 {
			return
		}
		for i := range got[:len(got)-1] {
			x.Check(cancelAt < 0 || at[i+1] <= cancelAt, "attempt after cancellation", "attempt %d at %v, the context was canceled at %v: %s", i+2, at[i+1], cancelAt, desc)
			x.Check(got[i].temp, "retried", "retried after %s: %s", got[i].name, desc)
			d := time.Duration((i+1)*(i+1)) * wmin
			if d > wmaxb {
				d = wmaxb
			}
			x.Check(at[i+1]-at[i] == d, "backoff", "waited %v after attempt %d, want %v: %s", at[i+1]-at[i], i+1, d, desc)
		}
		last := got[len(got)-1]
		ok := last.err == nil && last.status < 400
		switch {
		case wmin >= wmaxb && last.temp:
			x.Check(err != nil && page == nil && len(got) == 1, "invalid backoff", "min >= max: %d attempts, err %v: %s", len(got), err, desc)
		case ok:
			x.Check(err == nil && page != nil, "page", "page %v, err %v: %s", page != nil, err, desc)
			x.Check(end == at[len(at)-1], "delay", "returned at %v: %s", end, desc)
		case last.status == 404 && last.err == nil:
			x.Check(err == nil && page == nil, "404", "page %v, err %v: %s", page != nil, err, desc)
		case canceled && (last.temp || last.name == "canceled"):
			x.Check(err != nil && page == nil, "canceled", "page %v, err %v: %s", page != nil, err, desc)
			x.Check(errors.Is(err, context.Canceled) || len(got) == wantMax && last.temp, "canceled", "err %v: %s", err, desc)
			x.Check(end == cancelAt || end == at[len(at)-1], "cancellation ignored", "returned at %v: %s", end, desc)
		case last.temp:
			x.Check(len(got) == wantMax, "gave up", "%d attempts: %s", len(got), desc)
			x.Check(err != nil && page == nil, "exhausted", "page %v, err %v: %s", page != nil, err, desc)
			x.Check(matchesErr(err, last), "exhausted error", "the error is %q, it does not tell about %s: %s", err, last.name, desc)
		default:
			x.Check(err != nil && page == nil, "error", "page %v, err %v: %s", page != nil, err, desc)
			x.Check(matchesErr(err, last), "error", "the error is %q, it does not tell about %s: %s", err, last.name, desc)
			x.Check(end == at[len(at)-1], "delay", "returned at %v: %s", end, desc)
		}
		// Every response but the page's is given back.
		for i, b := range w.bodies {
			if ok && i == len(w.bodies)-1 {
				x.Check(b.closed == 0 && !b.eof, "page body", "the body of the page was consumed: %s", desc)
				continue
			}
			x.Check(b.closed > 0 && b.eof, "body", "the response of a failed attempt was not drained and closed: %s", desc)
		}
	}
	add(&mc.Scenario{
		Name: "fetch/sequences", Prop: "C14", Tree: true, Bubble: true,
		Run: func(x *mc.X) {
			n := 3
			set := attempts[:7]
			if x.Thorough() {
				n = 4
				set = attempts[:9]
			}
			run(x, 1+x.Choose(n, "max attempts"), 0, 0, set, false)
		},
	})
	add(&mc.Scenario{
		Name: "fetch/outcomes", Prop: "C14", Tree: true, Bubble: true,
		Run: func(x *mc.X) { run(x, 2+x.Choose(2, "max attempts"), 0, 0, attempts, false) },
	})
	add(&mc.Scenario{
		Name: "fetch/backoff", Prop: "C14", Tree: true, Bubble: true,
		Run: func(x *mc.X) {
			ms := time.Millisecond
			b := [][2]time.Duration{{0, 0}, {100 * ms, 0}, {0, 120 * ms}, {10 * ms, 25 * ms}, {100 * ms, 100 * ms}, {200 * ms, 100 * ms}, {ms, 10 * time.Second}}[x.Choose(7, "backoff")]
			run(x, []int{0, -1, 1, 6, 3}[x.Choose(5, "max attempts")], b[0], b[1], []attempt{attempts[1], attempts[0], attempts[3]}, false)
		},
	})
	add(&mc.Scenario{
		Name: "fetch/cancel", Prop: "C14", Tree: true, Bubble: true,
		Run: func(x *mc.X) { run(x, x.Choose(4, "max attempts"), 0, 0, attempts[:6], true) },
	})

	// What is sent and what the page exposes.
	add(&mc.Scenario{
		Name: "fetch/page", Prop: "C15", Tree: true,
		Run: func(x *mc.X) {
			w := newWeb(x)
			raw := mc.Pick(x, "url", "http://h/", "https://h:8443/a%2Fb?x=1&y=2", "http://u:p@h/é")
			final := mc.Pick(x, "final", "", "http://other/z")
			status := mc.Pick(x, "status", 200, 201, 204, 301)
			text := mc.Pick(x, "body", "", "<p>x</p>", strings.Repeat("<a href=/z>y</a>", 700))
			chunk := mc.Pick(x, "chunk", 1, 7, 512, 1<<20)
			eofWithData := x.Flag("eof with data")
			agent := x.Choose(3, "agent")
			f := &ant.Fetcher{}
			wantUA := ant.UserAgent.String()
			switch agent {
			case 1:
				f.UserAgent = ant.StaticAgent("custom/1.0")
				wantUA = "custom/1.0"
			case 2:
				f.UserAgent = stringer(func() string { return "s" })
				wantUA = "s"
			}
			ctx := context.WithValue(context.Background(), ctxKey{}, "v")
			var b *chunked
			n := 0
			do := doFunc(func(req *http.Request) (*http.Response, error) {
				n++
				x.Check(req.Method == "GET", "method", "method %s", req.Method)
				x.Check(req.URL.String() == mustURL(raw).String(), "url", "requested %s, want %s", req.URL, raw)
				x.Check(req.Context().Value(ctxKey{}) == "v", "context", "the context was not passed on")
				x.Check(req.Header.Get("User-Agent") == wantUA, "user agent", "user agent %q, want %q", req.Header.Get("User-Agent"), wantUA)
				x.Check(strings.HasPrefix(req.Header.Get("Accept"), "text/html"), "accept", "accept %q", req.Header.Get("Accept"))
				x.Check(req.Body == nil, "request body", "the request has a body")
				b = &chunked{r: strings.NewReader(text), n: chunk, eof: eofWithData, left: len(text)}
				r := w.response(req, raw, &pg{status: status, redirect: final}, "")
				r.Body = b
				r.Header.Set("X-A", "1")
				r.Header.Add("X-A", "2")
				return r, nil
			})
			if x.Flag("default client") {
				old := ant.DefaultClient
				ant.DefaultClient = &http.Client{Transport: roundTripFunc(func(r *http.Request) (*http.Response, error) {
					if status == 301 {
						status = 302 // no Location: delivered as it is
					}
					return do(r)
				})}
				x.Cleanup(func() { ant.DefaultClient = old })
				if status == 301 {
					x.Discard()
					return
				}
			} else {
				f.Client = do
			}
			u := mustURL(raw)
			p, err := f.Fetch(ctx, u)
			if !x.Check(err == nil && p != nil && n == 1, "fetch", "page %v, err %v, %d requests", p != nil, err, n) {
				return
			}
			x.NonTrivial()
			x.Step(1)
			wantURL := mustURL(raw).String()
			if final != "" {
				wantURL = final
			}
			x.Check(p.URL.String() == wantURL, "page URL", "page URL %s, want %s", p.URL, wantURL)
			x.Check(u.String() == mustURL(raw).String(), "argument changed", "Fetch changed its argument to %s", u)
			x.Check(fmt.Sprint(p.Header["X-A"]) == "[1 2]", "page header", "page header %v", p.Header)
			x.Check(b.closed == 0 && b.left == len(text), "page body", "the body was consumed")
			use := x.Choose(4, "use")
			x.Obs("%s %d %d %d", p.URL, status, len(text), use)
			x.State(fmt.Sprint(raw, final, status, len(text), chunk, eofWithData, agent, use))
			switch use {
			case 0:
				got, err := io.ReadAll(p.Body())
				x.Check(err == nil && string(got) == text, "body", "read %d bytes of %d, err %v", len(got), len(text), err)
			case 1:
				h, err := p.HTML()
				x.Check(err == nil && strings.Contains(h, "<body>"+fixHTML(text)+"</body>"), "html", "HTML() is %d bytes, err %v", len(h), err)
				x.Check(b.closed > 0 && b.left == 0, "body", "the body was not drained and closed after parsing")
			case 2:
				n := len(p.URLs())
				x.Check(n == strings.Count(text, "<a"), "URLs", "%d URLs, want %d", n, strings.Count(text, "<a"))
				h, err := p.HTML()
				x.Check(err == nil && strings.Contains(h, "<body>"+fixHTML(text)+"</body>"), "html", "HTML() after URLs() is %d bytes, err %v", len(h), err)
			case 3:
				d, err := p.Document()
				x.Check(err == nil && d != nil, "document", "Document(): %v", err)
				d2, _ := p.Document()
				x.Check(d == d2, "document", "Document() is another one the second time")
			}
		},
	})
	// Every attempt has a request of its own, whatever became of the others,
	// which ends with the caller's context.
	add(&mc.Scenario{
		Name: "fetch/requests", Prop: "C15", Tree: true, Bubble: true,
		Run: func(x *mc.X) {
			w := newWeb(x)
			same := x.Flag("same fetcher")
			agents := []string{"", "custom"}
			spoil := mc.Pick(x, "client", "keeps the request", "changes the header", "replaces the header", "changes the URL", "clears the header")
			f := &ant.Fetcher{}
			left := 0 // busy answers
			var ctx context.Context
			var raw, ua string
			var reqs []*http.Request
			end := ""
			var cancel func()
			client := doFunc(func(r *http.Request) (*http.Response, error) {
				reqs = append(reqs, r)
				h := http.Header{"Accept": {"text/html; charset=UTF-8"}, "User-Agent": {ua}}
				x.Check(r.Method == "GET" && r.Body == nil && r.URL.String() == raw && (r.Host == "" || r.Host == mustURL(raw).Host), "request", "request %d is %s %s of %q", len(reqs), r.Method, r.URL, r.Host)
				x.Check(len(r.Header) >= 2 && strings.HasPrefix(r.Header.Get("Accept"), "text/html") && len(r.Header["User-Agent"]) == 1 && r.Header.Get("User-Agent") == ua && r.Header.Get("X-Seen") == "", "request header", "request %d has the header %v, want %v", len(reqs), r.Header, h)
				x.Check(r.Context().Value(ctxKey{}) == ctx.Value(ctxKey{}), "context", "request %d has another context", len(reqs))
				d, ok := ctx.Deadline()
				rd, rok := r.Context().Deadline()
				x.Check(ok == rok && d.Equal(rd), "deadline", "the deadline of request %d is %v, %v", len(reqs), rd, rok)
				x.Check(r.Context().Err() == nil, "context", "the context of request %d ended", len(reqs))
				switch spoil {
				case "changes the header":
					r.Header.Set("X-Seen", "1")
					r.Header["User-Agent"][0] = "spoiled"
					r.Header.Del("Accept")
				case "replaces the header":
					r.Header = http.Header{"X-Seen": {"1"}}
				case "changes the URL":
					r.URL.Path, r.URL.Host = "/elsewhere", "other"
					r.Host = "other"
				case "clears the header":
					clear(r.Header)
				}
				if left > 0 {
					left--
					return w.response(r, raw, &pg{status: 503}, "busy"), nil
				}
				switch end {
				case "canceled in the request":
					cancel()
					fallthrough
				case "deadline in the request":
					<-r.Context().Done()
					return nil, &url.Error{Op: "Get", URL: raw, Err: r.Context().Err()}
				}
				return w.response(r, raw, &pg{}, "text"), nil
			})
			f.Client = client
			desc := ""
			for i := 0; i < 2; i++ {
				if !same {
					f = &ant.Fetcher{Client: client}
				}
				a := agents[x.Choose(2, "agent")]
				f.UserAgent, ua = nil, ant.UserAgent.String()
				if a != "" {
					f.UserAgent, ua = ant.StaticAgent(a), a
				}
				raw = []string{"http://h/x?y=1", "http://g/z"}[x.Choose(2, "url")]
				left = x.Choose(3, "busy")
				end = mc.Pick(x, "end", "", "canceled in the request", "deadline in the request")
				reqs = nil
				ctx = context.WithValue(context.Background(), ctxKey{}, i)
				switch end {
				case "deadline in the request":
					ctx, cancel = context.WithTimeout(ctx, time.Hour)
				default:
					ctx, cancel = context.WithCancel(ctx)
				}
				f.MaxAttempts = 1 + left
				desc += fmt.Sprintf("%s %s %d %s;", a, raw, left, end)
				u := mustURL(raw)
				p, err := f.Fetch(ctx, u)
				x.Check(u.String() == raw, "argument changed", "Fetch changed its argument to %s", u)
				if end == "" {
					x.Check(p != nil && err == nil, "page", "page %v, %v", p != nil, err)
				} else {
					x.Check(p == nil && err != nil, "page", "page %v, %v", p != nil, err)
				}
				cancel()
				if x.Failed() {
					return
				}
			}
			x.NonTrivial()
			x.Step(len(reqs))
			x.Obs("%s %s", spoil, desc)
		},
	})
	// Pages of any size are complete.
	add(&mc.Scenario{
		Name: "fetch/large", Prop: "C15", Tree: true,
		Run: func(x *mc.X) {
			size := mc.Pick(x, "size", 511, 513, 4097, 32<<10+1, 64<<10+1, 256<<10+1, 1<<20+1, 2<<20+1, 4<<20+1, 5<<20, 11<<20, 17<<20)
			if x.Thorough() {
				size += mc.Pick(x, "more", 0, 1<<20, 8<<20)
			}
			w := newWeb(x)
			tail := "<a href=/z>y</a>"
			text := "<p>" + padding(size) + "</p>" + tail
			var b *chunked
			f := &ant.Fetcher{Client: doFunc(func(req *http.Request) (*http.Response, error) {
				b = &chunked{r: strings.NewReader(text), n: mc.Pick(x, "chunk", 1<<30, 4000), left: len(text)}
				r := w.response(req, "http://h/x", &pg{}, "")
				if x.Flag("content length") {
					r.ContentLength = int64(len(text))
				}
				r.Body = b
				return r, nil
			})}
			p, err := f.Fetch(context.Background(), mustURL("http://h/x"))
			if !x.Check(err == nil && p != nil, "fetch", "page %v, err %v", p != nil, err) {
				return
			}
			x.NonTrivial()
			x.Step(1)
			use := x.Choose(6, "use")
			x.Obs("%d %d", size, use)
			x.State(fmt.Sprint(size, use, b.n))
			switch use {
			case 0:
				got, err := io.ReadAll(p.Body())
				x.Check(err == nil && string(got) == text, "body", "read %d bytes of %d, err %v", len(got), len(text), err)
				return
			case 1:
				h, err := p.HTML()
				x.Check(err == nil && strings.Contains(h, "<body>"+fixHTML(text)+"</body>"), "html", "HTML() of %d bytes is %d bytes, err %v", len(text), len(h), err)
			case 2:
				us := p.URLs()
				x.Check(len(us) == 1 && us[0].String() == "http://h/z", "URLs", "URLs are %v", us)
			case 3:
				n := len(p.Query("a"))
				x.Check(n == 1, "query", "Query found %d links", n)
			case 4:
				us, err := p.Next("a")
				x.Check(err == nil && len(us) == 1, "next", "Next found %v, %v", us, err)
			case 5:
				var v struct {
					P string `css:"p"`
					A string `css:"a"`
				}
				err := p.Scan(&v)
				x.Check(err == nil && len(v.P) == size && v.A == "y", "scan", "scanned %d bytes of %d and %q, %v", len(v.P), size, v.A, err)
			}
			x.Check(b.closed > 0 && b.left == 0, "body", "the body was not drained and closed after parsing")
		},
	})
	// The package level Fetch.
	add(&mc.Scenario{
		Name: "fetch/package", Prop: "C15", Tree: true,
		Run: func(x *mc.X) {
			raws := []string{"http://h/", "https://h:8443/a%2Fb?x=1&y=2#f", "http://h/%zz", ":", "http://[::1/", "\x7f"}
			k := x.Choose(len(raws), "url")
			raw, good := raws[k], k < 2
			status := mc.Pick(x, "status", 200, 404, 500)
			w := newWeb(x)
			n := 0
			old := ant.DefaultClient.Transport
			ant.DefaultClient.Transport = (roundTripFunc(func(r *http.Request) (*http.Response, error) {
				n++
				x.Check(r.URL.String() == raw && r.Method == "GET" && r.Context().Value(ctxKey{}) == "v", "request", "requested %s %s", r.Method, r.URL)
				x.Check(r.Header.Get("User-Agent") == ant.UserAgent.String(), "user agent", "user agent %q", r.Header.Get("User-Agent"))
				return w.response(r, raw, &pg{status: status}, "text"), nil
			}))
			x.Cleanup(func() { ant.DefaultClient.Transport = old })
			p, err := ant.Fetch(context.WithValue(context.Background(), ctxKey{}, "v"), raw)
			x.NonTrivial()
			x.Step(1)
			x.Obs("%s %d %v", raw, status, err)
			x.State(fmt.Sprint(raw, status))
			switch {
			case !good:
				x.Check(p == nil && err != nil && n == 0, "bad URL", "page %v, err %v, %d requests", p != nil, err, n)
			case status == 200:
				if x.Check(p != nil && err == nil && n == 1, "page", "page %v, err %v, %d requests", p != nil, err, n) {
					x.Check(p.URL.String() == raw, "page URL", "page URL %s", p.URL)
				}
			case status == 404:
				x.Check(p == nil && err == nil && n == 1, "404", "page %v, err %v, %d requests", p != nil, err, n)
			default:
				x.Check(p == nil && err != nil && n == 1, "500", "page %v, err %v, %d requests", p != nil, err, n)
			}
		},
	})
	// URLs that cannot be requested.
	add(&mc.Scenario{
		Name: "fetch/malformed", Prop: "C15", Tree: true, Bubble: true,
		Run: func(x *mc.X) {
			u := mc.Pick(x, "url", &url.URL{Scheme: "http", Host: "a b"}, &url.URL{Scheme: "http", Host: "[::1"}, &url.URL{Scheme: "h\x7f", Host: "h"}, &url.URL{Scheme: "http", Host: "h:p"}, &url.URL{Scheme: "1x", Opaque: "%zz"})
			n := 0
			f := &ant.Fetcher{MaxAttempts: 1 + x.Choose(2, "max attempts"), Client: doFunc(func(r *http.Request) (*http.Response, error) {
				n++
				return newWeb(x).response(r, "http://h/", &pg{status: 200}, "text"), nil
			})}
			t := time.Now()
			p, err := f.Fetch(context.Background(), u)
			x.NonTrivial()
			x.Step(1)
			x.State(u.String())
			x.Obs("%s: %v", u, err)
			if _, bad := url.Parse(u.String()); !x.Check(bad != nil, "harness", "%s is not malformed", u) {
				return
			}
			x.Check(p == nil && err != nil && n == 0, "malformed URL", "%s: page %v, err %v, %d requests", u, p != nil, err, n)
			x.Check(time.Now().Equal(t), "malformed URL", "%s: Fetch paused", u)
		},
	})
	// The errors of Fetch.
	add(&mc.Scenario{
		Name: "fetch/errors", Prop: "C15", Tree: true,
		Run: func(x *mc.X) {
			st := mc.Pick(x, "status", 400, 401, 403, 404, 410, 500, 501, 502, 505, 599)
			w := newWeb(x)
			big := x.Flag("big body")
			text := "x"
			if big {
				text = strings.Repeat("x", 100000)
			}
			var b *chunked
			f := &ant.Fetcher{MaxAttempts: 1, Client: doFunc(func(req *http.Request) (*http.Response, error) {
				b = &chunked{r: strings.NewReader(text), n: 100, left: len(text)}
				r := w.response(req, "http://h/x", &pg{status: st, redirect: "http://h/final"}, "")
				r.Body = b
				return r, nil
			})}
			p, err := f.Fetch(context.Background(), mustURL("http://h/x"))
			x.NonTrivial()
			x.Step(1)
			x.Obs("%d %v", st, err)
			x.State(fmt.Sprint(st, big))
			x.Check(p == nil, "page", "a page for status %d", st)
			x.Check(b.closed > 0 && b.left == 0, "body", "the body of status %d was not drained and closed (%d bytes left)", st, b.left)
			if st == 404 {
				x.Check(err == nil, "404", "404: %v", err)
				return
			}
			var fe *ant.FetchError
			if x.Check(errors.As(err, &fe), "error type", "status %d: %T %v", st, err, err) {
				x.Check(fe.Status == st && fe.URL.String() == "http://h/final", "error fields", "status %d: error for %d %s", st, fe.Status, fe.URL)
			}
		},
	})
}

// matchesErr reports whether err tells about a.
func matchesErr(err error, a attempt) bool {
	if a.err != nil {
		inner := a.err
		for {
			e := errors.Unwrap(inner)
			if e == nil {
				break
			}
			inner = e
		}
		return errors.Is(err, inner)
	}
	var fe *ant.FetchError
	return errors.As(err, &fe) && fe.Status == a.status
}

func fixHTML(s string) string { return strings.ReplaceAll(s, "href=/z", `href="/z"`) }

type ctxKey struct{}

type stringer func() string

func (s stringer) String() string { return s() }

type doFunc func(*http.Request) (*http.Response, error)

func (f doFunc) Do(r *http.Request) (*http.Response, error) { return f(r) }

type roundTripFunc func(*http.Request) (*http.Response, error)

func (f roundTripFunc) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

// chunked is a body which delivers n bytes at a time.
type chunked struct {
	r      io.Reader
	n      int
	eof    bool
	left   int
	closed int
}

func (c *chunked) Read(p []byte) (int, error) {
	if c.closed > 0 {
		return 0, errors.New("read after close")
	}
	if len(p) > c.n {
		p = p[:c.n]
	}
	n, err := c.r.Read(p)
	c.left -= n
	if c.left == 0 && c.eof && err == nil {
		err = io.EOF
	}
	return n, err
}

func (c *chunked) Close() error { c.closed++; return nil }

var _ = bytes.MinRead
