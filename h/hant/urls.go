package hant

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"regexp"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/mc"
	"github.com/yields/ant/zverif/vsched"
)

// captureQueue is a queue which keeps what is enqueued.
type captureQueue struct{ urls ant.URLs }

func (q *captureQueue) Enqueue(_ context.Context, us ant.URLs) error {
	q.urls = append(q.urls, us...)
	return nil
}
func (q *captureQueue) Dequeue(context.Context) (*ant.URL, error) { return nil, io.EOF }
func (q *captureQueue) Done(context.Context, *ant.URL) error      { return nil }
func (q *captureQueue) Wait()                                     {}
func (q *captureQueue) Close(context.Context) error               { return nil }
func (q *captureQueue) Dedupe(_ context.Context, us ant.URLs) (ant.URLs, error) {
	return us, nil
}

// normalForm is what the engine makes of a URL.
func normalForm(x *mc.X, raw string) string {
	q := &captureQueue{}
	eng, err := ant.NewEngine(ant.EngineConfig{Scraper: &web{x: x}, Queue: q, Deduper: q})
	if err != nil {
		x.Fail("NewEngine", "NewEngine: %v", err)
		return ""
	}
	if err := eng.Enqueue(context.Background(), raw); err != nil {
		x.Fail("enqueue", "Enqueue(%q): %v", raw, err)
		return ""
	}
	if len(q.urls) != 1 {
		x.Fail("enqueue", "Enqueue(%q) queued %d URLs", raw, len(q.urls))
		return ""
	}
	return q.urls[0].String()
}

// spelled is a spelling of something.
type spelled struct{ raw, means string }

// unescape decodes every triplet of a segment.
func unescape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) {
			var c byte
			if _, err := fmt.Sscanf(s[i+1:i+3], "%02x", &c); err == nil {
				b.WriteByte(c)
				i += 2
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// wellFormed tells whether every % of s starts a triplet.
func wellFormed(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '%' {
			if i+2 >= len(s) || !strings.Contains(hex, s[i+1:i+2]) || !strings.Contains(hex, s[i+2:i+3]) {
				return false
			}
		}
	}
	return true
}

const (
	hex   = "0123456789abcdefABCDEF"
	plain = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~"
)

// param is a parameter with the triplets of unreserved characters decoded and
// the others in upper case.
func param(s string) string {
	if !wellFormed(s) {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			b.WriteByte(s[i])
			continue
		}
		if c := unescape(s[i : i+3]); strings.Contains(plain, c) {
			b.WriteString(c)
		} else {
			b.WriteString(strings.ToUpper(s[i : i+3]))
		}
		i += 2
	}
	return b.String()
}

// otherParam spells it differently.
func otherParam(s string) string {
	if !wellFormed(s) {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '%':
			b.WriteString(strings.ToLower(s[i : i+3]))
			i += 2
		case strings.Contains(plain, s[i:i+1]):
			fmt.Fprintf(&b, "%%%02x", s[i])
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

// resourceOf is an independent reading of an absolute URL: two URLs denote the
// same page iff it is the same.
func resourceOf(raw string) resource {
	rest := raw
	if i := strings.IndexByte(rest, '#'); i >= 0 {
		rest = rest[:i]
	}
	var query []string
	if i := strings.IndexByte(rest, '?'); i >= 0 {
		if q := rest[i+1:]; q != "" {
			query = strings.Split(q, "&")
			for i := range query {
				query[i] = param(query[i])
			}
			sort.Strings(query)
		}
		rest = rest[:i]
	}
	i := strings.Index(rest, "://")
	scheme := strings.ToLower(rest[:i])
	rest = rest[i+3:]
	path := ""
	if i := strings.IndexByte(rest, '/'); i >= 0 {
		rest, path = rest[:i], rest[i:]
	}
	user := ""
	if i := strings.IndexByte(rest, '@'); i >= 0 {
		user, rest = rest[:i], rest[i+1:]
	}
	host, port := strings.ToLower(rest), map[string]string{"http": "80", "https": "443"}[scheme]
	if i := strings.LastIndexByte(host, ':'); i >= 0 && !strings.HasSuffix(host, "]") {
		if p := host[i+1:]; p != "" {
			port = p
		}
		host = host[:i]
	}
	var segs []string
	for _, s := range strings.Split(path, "/") {
		switch s = unescape(s); s {
		case "", ".":
		case "..":
			if len(segs) > 0 {
				segs = segs[:len(segs)-1]
			}
		default:
			segs = append(segs, s)
		}
	}
	return resource{scheme, user, host, port, strings.Join(segs, "\x00"), strings.Join(query, "&")}
}

type resource struct{ scheme, user, host, port, segs, query string }

// otherSpelling spells a resource with everything that can be explicit.
func otherSpelling(r resource) string {
	s := strings.ToUpper(r.scheme) + "://"
	if r.user != "" {
		s += r.user + "@"
	}
	s += strings.ToUpper(r.host) + ":" + r.port
	if r.segs != "" {
		for _, g := range strings.Split(r.segs, "\x00") {
			s += "/./"
			for i := 0; i < len(g); i++ {
				s += fmt.Sprintf("%%%02x", g[i])
			}
		}
	}
	s += "?"
	q := strings.Split(r.query, "&")
	for i := len(q) - 1; i >= 0; i-- {
		if s += otherParam(q[i]); i > 0 {
			s += "&"
		}
	}
	return s + "#f"
}

func init() {
	check := func(x *mc.X, raw string) {
		n := normalForm(x, raw)
		if x.Failed() {
			return
		}
		x.NonTrivial()
		x.Obs("%s", n)
		x.State(n)
		x.Step(1)
		r, rn := resourceOf(raw), resourceOf(n)
		x.Check(r == rn, "another resource", "%q is crawled as %q, which is another page", raw, n)
		n2 := normalForm(x, n)
		x.Check(n == n2, "not idempotent", "the normal form of %q is %q, whose normal form is %q", raw, n, n2)
		// All spellings of a page have the normal form of one of them.
		o := otherSpelling(r)
		x.Check(resourceOf(o) == r, "harness", "%q does not spell %s", o, r)
		no := normalForm(x, o)
		x.Check(n == no, "not canonical", "%q and %q are the same page but their normal forms are %q and %q", raw, o, n, no)
		v, err := url.Parse(n)
		x.Check(err == nil && v.Host != "" && strings.HasPrefix(v.Path, "/") && v.Fragment == "", "not a page URL", "the normal form of %q is %q (path %q)", raw, n, pathOrErr(v, err))
	}
	segs := []string{"a", "b", "..", ".", "", "%61", "%2e", "%2E%2e", "a%2Fb", "a%2fb", "~", "%7e", "%20", "A", "%2a", "%25", "%2F", "a:b", "%3F"}
	hosts := []string{"h", "H", "h:80", "h:443", "H:8080", "u@h", "U@H:80", "[::1]", "[::1]:80", "[::A]:443", "127.0.0.1:80", "h:", "[::a]:"}
	queries := []string{"", "?", "?b=2&a=1", "?a=1&b=2", "?a=1&A=2", "?b=A&b=a&B", "?a=%2f", "?a=1&a=0", "?q", "?%61=%7e", "?a=%26&%62", "?a=%zz&b=%61", "?%%361", "?a=%2561", "?a=%", "?a+b=c%20d", "?&"}
	frags := []string{"", "#", "#x", "#%2F", "#!/x"}
	schemes := []string{"http", "https", "HTTP", "hTTps"}
	path := func(x *mc.X, n int) string {
		k := x.Choose(n+1, "segments")
		p := ""
		for i := 0; i < k; i++ {
			p += "/" + segs[x.Choose(len(segs), "segment")]
		}
		return p
	}
	add(&mc.Scenario{
		Name: "url/path", Prop: "C11", Tree: true,
		Run: func(x *mc.X) {
			n := 3
			if x.Thorough() {
				n = 4
			}
			check(x, "http://h"+path(x, n))
		},
	})
	add(&mc.Scenario{
		Name: "url/parts", Prop: "C11", Tree: true,
		Run: func(x *mc.X) {
			n := 1
			if x.Thorough() {
				n = 2
			}
			check(x, mc.Pick(x, "scheme", schemes...)+"://"+mc.Pick(x, "host", hosts...)+path(x, n)+mc.Pick(x, "query", queries...)+mc.Pick(x, "fragment", frags...))
		},
	})
	// What the scraper returns is treated the same way as what the caller enqueues.
	add(&mc.Scenario{
		Name: "url/crawl", Prop: "C11", Quick: mc.Bound{Dev: 1, Policies: 2}, Thorough: mc.Bound{Dev: 2, Policies: 3},
		Run: func(x *mc.X) {
			w := newWeb(x)
			p := "http://h/" + mc.Pick(x, "a", segs...) + "/" + mc.Pick(x, "b", segs...)
			w.pages[base] = &pg{links: []string{p}}
			viaHTML := x.Flag("html")
			w.useHTML = viaHTML
			w.page = func(u string) *pg { return &pg{} }
			c := &crawl{w: w, workers: 2, conc: 0, starts: []string{"http://h"}}
			c.spawn()
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			x.Obs("%v", w.fetched())
			x.Check(c.err == nil, "error", "Run: %v", c.err)
			want := map[resource]int{resourceOf(base): 1}
			want[resourceOf(p)] = 1
			got := map[resource]int{}
			for _, u := range w.fetched() {
				got[resourceOf(u)]++
			}
			x.Check(fmt.Sprint(got) == fmt.Sprint(want), "fetched set", "fetched %v, want %v", got, want)
		},
	})
}

func init() {
	// URLs that scrapers make by hand, they never went through a parser.
	add(&mc.Scenario{
		Name: "url/handmade", Prop: "C11", Quick: mc.Bound{Dev: 1, Policies: 2}, Thorough: mc.Bound{Dev: 2, Policies: 3},
		Run: func(x *mc.X) {
			type pathOf struct{ path, raw string }
			u := &url.URL{
				Scheme: mc.Pick(x, "scheme", "http", "HTTP", "https", "HttpS"),
				Host:   mc.Pick(x, "host", "h", "H", "h:80", "H:443", "u.H:8080", "[::A]:80", "h:"),
			}
			pp := mc.Pick(x, "path", pathOf{"", ""}, pathOf{"/", ""}, pathOf{"a", ""}, pathOf{"/a/../b", ""}, pathOf{"/a b", ""}, pathOf{"/a/b", "/a%2fb"}, pathOf{"/~", "/%7e"},
				pathOf{"/a", "/other"}, pathOf{"/a", "%zz"}, pathOf{"//a//", ""}, pathOf{"/%41", ""}, pathOf{"..", ""}, pathOf{"/a?b#c", ""}, pathOf{"/\u00fc", ""})
			u.Path, u.RawPath = pp.path, pp.raw
			u.RawQuery = mc.Pick(x, "query", "", "b=2&a=1", "x=%2f")
			if x.Flag("force query") {
				u.ForceQuery = true
			}
			if x.Flag("fragment") {
				u.Fragment, u.RawFragment = "f/g", "f%2Fg"
			}
			if x.Flag("user") {
				u.User = url.UserPassword("U", "P")
			}
			spelling := u.String()
			w := newWeb(x)
			w.page = func(s string) *pg { return &pg{} }
			c := &crawl{w: w, workers: 1, conc: 0, starts: []string{"http://start/"}}
			c.cfg = func(ec *ant.EngineConfig) {
				ec.Scraper = scraperFunc(func(ctx context.Context, p *ant.Page) (ant.URLs, error) {
					if p.URL.Host == "start" {
						return ant.URLs{u}, nil
					}
					return nil, nil
				})
			}
			c.spawn()
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			got := w.fetched()
			x.Obs("%v", got)
			x.State(strings.Join(got, " "))
			if !x.Check(c.err == nil && len(got) == 2, "fetched set", "Run: %v, fetched %v after the scraper returned %q", c.err, got, spelling) {
				return
			}
			x.Check(resourceOf(got[1]) == resourceOf(spelling), "another resource", "%q is crawled as %q, which is another page", spelling, got[1])
			x.Check(u.String() == spelling, "changed", "the scraper's URL %q is %q after the crawl", spelling, u)
			n := normalForm(x, spelling)
			x.Check(got[1] == n, "not canonical", "%q is crawled as %q when a scraper returns it and as %q when it is enqueued", spelling, got[1], n)
		},
	})
}

func pathOrErr(v *url.URL, err error) string {
	if err != nil {
		return err.Error()
	}
	return v.Path
}

// Patterns.

// glob is the reference of patterns: * is any text, ? any character.
func glob(p, s string) bool {
	if p == "" {
		return s == ""
	}
	if p[0] == '*' {
		for i := 0; i <= len(s); i++ {
			if glob(p[1:], s[i:]) {
				return true
			}
		}
		return false
	}
	if s == "" {
		return false
	}
	if p[0] == '?' {
		_, n := utf8.DecodeRuneInString(s)
		return glob(p[1:], s[n:])
	}
	return p[0] == s[0] && glob(p[1:], s[1:])
}

type matchKind struct {
	name  string
	m     func(p string) ant.Matcher
	l     func(n int, p string) ant.Limiter
	pats  []string
	match func(p string, u *url.URL) bool
}

func slash(p string) string {
	if p != "" && p[0] != '/' {
		return "/" + p
	}
	return p
}

var matchKinds = []matchKind{
	{
		"hostname", func(p string) ant.Matcher { return ant.MatchHostname(p) }, func(n int, p string) ant.Limiter { return ant.LimitHostname(n, p) },
		[]string{"h", "h:8080", "a.h", ""},
		func(p string, u *url.URL) bool { return u.Host == p },
	},
	{
		"pattern", func(p string) ant.Matcher { return ant.MatchPattern(p) }, func(n int, p string) ant.Limiter { return ant.LimitPattern(n, p) },
		[]string{"h/*", "h/a", "h/a*", "*.h/*", "h*", "*", "h/?", "h/*/b", "*/a/*", "h", "", "h:8080/*", "h/a/?", "*b", "*ü*", "h/A*", "*a b", "*%*", "H/*"},
		func(p string, u *url.URL) bool { return glob(p, u.Host+slash(u.Path)) },
	},
	{
		"regexp", func(p string) ant.Matcher { return ant.MatchRegexp(p) }, func(n int, p string) ant.Limiter { return ant.LimitRegexp(n, p) },
		[]string{`^h/a`, `h/.*b$`, `^h/(a|b)$`, `\.h/`, ``, `^$`, `^h(:[0-9]+)?/a/b$`, `/`, `x=1`, `^http`, `ü`, `[A-Z]`, `a b`, `%`, `(?i)^H/A$`, `h/.$`},
		func(p string, u *url.URL) bool { return regexp.MustCompile(p).MatchString(u.Host + slash(u.Path)) },
	},
}

var matchHosts = []string{"h", "a.h", "h:8080", "b"}
var matchPaths = []string{"", "/", "/a", "/b", "/a/b", "/ab", "/aa/b", "/a/", "/b/a", "/A", "/%C3%BC", "/a%20b", "/a%2Fb"}

func init() {
	candidates := func(x *mc.X) (*url.URL, string) {
		u := mustURL(mc.Pick(x, "scheme", "http", "https") + "://" + mc.Pick(x, "host", matchHosts...) + mc.Pick(x, "path", matchPaths...) + mc.Pick(x, "query", "", "?x=1", "?a/b") + mc.Pick(x, "fragment", "", "#a"))
		if x.Flag("no slash") {
			// A URL made by hand.
			if u.Path == "" {
				x.Discard()
			}
			u.Path = strings.TrimPrefix(u.Path, "/")
		}
		return u, u.String()
	}
	for _, k := range matchKinds {
		add(&mc.Scenario{
			Name: "match/" + k.name, Prop: "C12", Tree: true,
			Run: func(x *mc.X) {
				p := mc.Pick(x, "pattern", k.pats...)
				u, s := candidates(x)
				m := k.m(p)
				got, want := m.Match(u), k.match(p, u)
				x.NonTrivial()
				x.Obs("%v %s %s", got, p, s)
				x.Step(1)
				x.State(fmt.Sprint(k.name, p, s))
				x.Check(got == want, "verdict", "%s %q on %s: %v, want %v", k.name, p, s, got, want)
				x.Check(m.Match(u) == want, "verdict changes", "%s %q on %s: the second verdict differs", k.name, p, s)
				x.Check(u.String() == s, "URL changed", "the matcher changed %s to %s", s, u)
			},
		})
		add(&mc.Scenario{
			Name: "limitmatch/" + k.name, Prop: "C12", Tree: true, Bubble: true,
			Run: func(x *mc.X) {
				p := mc.Pick(x, "pattern", k.pats...)
				u, s := candidates(x)
				l := k.l(1, p)
				want := k.match(p, u)
				start := time.Now()
				for i := 0; i < 2; i++ {
					err := l.Limit(context.Background(), u)
					x.Check(err == nil, "error", "Limit: %v", err)
				}
				got := time.Since(start) > 0
				x.NonTrivial()
				x.Obs("%v %s %s", got, p, s)
				x.Step(1)
				x.Check(got == want, "verdict", "limiter %s %q on %s: limited %v, want %v", k.name, p, s, got, want)
				x.Check(u.String() == s, "URL changed", "the limiter changed %s to %s", s, u)
			},
		})
	}
	// All short patterns.
	add(&mc.Scenario{
		Name: "match/patterns", Prop: "C12", Tree: true, Bubble: true,
		Run: func(x *mc.X) {
			n := 5
			if x.Thorough() {
				n = 6
			}
			p := ""
			for ; n > 0; n-- {
				c := x.Choose(9, "character")
				if c == 0 {
					break
				}
				p += string([]rune("h/a*?.[ü")[c-1])
			}
			x.NonTrivial()
			x.Obs("%q", p)
			m, l := ant.MatchPattern(p), ant.LimitPattern(1, p)
			for _, s := range []string{"http://h", "http://h/", "http://h/a", "https://h/a?q#f", "http://h/aa", "http://a/a", "http://h/%C3%BC", "http://h/.", "http://h/%5B", "http://h/%5Ba%5D", "http://h/a%2Fa", "http://h.a/", "http://h/%3F", "http://h/*"} {
				u := mustURL(s)
				want := glob(p, u.Host+slash(u.Path))
				x.Step(1)
				x.State(p + " " + s)
				x.Check(m.Match(u) == want, "verdict", "pattern %q on %s: %v", p, s, !want)
				if !want {
					// Those that do match are left to the other scenarios.
					t := time.Now()
					for i := 0; i < 2; i++ {
						l.Limit(context.Background(), u)
					}
					x.Check(time.Now().Equal(t), "verdict", "limiter of pattern %q: %s is limited", p, s)
				} else {
					c, stop := context.WithCancel(context.Background())
					stop()
					x.Check(l.Limit(c, u) != nil, "verdict", "limiter of pattern %q: %s is not limited", p, s)
				}
			}
		},
	})
	// Invalid expressions are refused when they are given.
	add(&mc.Scenario{
		Name: "match/invalid", Prop: "C12", Tree: true,
		Run: func(x *mc.X) {
			exprs := []string{"a", "h/(a|b)", "(", "[", "*", "a{2,1}", "\\", "a)", "(?P<n", "[z-a]", "\xff"}
			k := x.Choose(len(exprs), "expression")
			what := mc.Pick(x, "what", "MatchRegexp", "LimitRegexp")
			x.NonTrivial()
			x.Step(1)
			x.State(what + exprs[k])
			refused := func() (yes bool) {
				defer func() { yes = recover() != nil }()
				if what == "MatchRegexp" {
					ant.MatchRegexp(exprs[k])
				} else {
					ant.LimitRegexp(1, exprs[k])
				}
				return
			}()
			x.Obs("%s %q %v", what, exprs[k], refused)
			x.Check(refused == (k > 1), "invalid expression", "%s(%q): refused: %v", what, exprs[k], refused)
		},
	})
	// In a crawl, matcher and limiter agree whatever the spelling of links.
	add(&mc.Scenario{
		Name: "match/crawl", Prop: "C12", Quick: mc.Bound{Dev: 1, Policies: 2}, Thorough: mc.Bound{Dev: 2, Policies: 3},
		Run: func(x *mc.X) {
			k := matchKinds[x.Choose(len(matchKinds), "kind")]
			p := mc.Pick(x, "pattern", k.pats...)
			raw := "http://" + mc.Pick(x, "host", "h", "H", "a.h", "h:8080") + mc.Pick(x, "path", "", "/a", "/a/b", "/%61", "/x/../a", "//b", "/a/?q", "/b#a")
			w := newWeb(x)
			w.page = func(u string) *pg { return &pg{} }
			m := x.Flag("matcher")
			c := &crawl{w: w, workers: 1, starts: []string{raw}}
			res := mustURL(normalForm(x, raw))
			want := k.match(p, res)
			if m {
				c.cfg = func(ec *ant.EngineConfig) { ec.Matcher = k.m(p) }
			} else {
				l := k.l(1, p)
				l.Limit(context.Background(), res) // takes the token, if it matches
				c.cfg = func(ec *ant.EngineConfig) { ec.Limiter = l }
			}
			start := time.Now()
			c.spawn()
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			x.Obs("%v", w.fetched())
			n := len(w.fetched())
			switch {
			case m:
				x.Check((n == 1) == want && n <= 1, "verdict", "matcher %s %q on %q: fetched %v, want %v", k.name, p, raw, n == 1, want)
			default:
				x.Check((time.Since(start) > 0) == want && n == 1, "verdict", "limiter %s %q on %q: waited %v, fetched %d, matches: %v", k.name, p, raw, time.Since(start), n, want)
			}
		},
	})

	// Rates.
	rates := func(x *mc.X, threads, calls int, cancel bool) {
		k := x.Choose(4, "kind")
		n := 1 + x.Choose(3, "rate")
		l := limiterKind(k, n)
		start := time.Now()
		ctx, stop := context.WithCancel(context.Background())

		_ = stop
		cancelAt := time.Duration(-1)
		if cancel {
			d := time.Duration(x.Choose(3, "cancel after")) * 400 * time.Millisecond
			x.Go("cancel", func() {
				time.Sleep(d)
				vsched.Post("slept")
				stop()
				cancelAt = time.Since(start)
			})
		}
		var at, calledAt []time.Duration
		failed := 0
		for t := 0; t < threads; t++ {
			pause := time.Duration(x.Choose(3, "pause")) * 700 * time.Millisecond
			other := t == threads-1 && k > 0 && x.Flag("other host")
			x.Go(fmt.Sprintf("t%d", t), func() {
				for c := 0; c < calls; c++ {
					if c > 0 && pause > 0 {
						time.Sleep(pause)
						vsched.Post("slept")
					}
					u := mustURL("http://h/x")
					if other {
						u = mustURL("http://i/x")
					}
					before := time.Since(start)
					if !other {
						calledAt = append(calledAt, before)
					}
					err := l.Limit(ctx, u)
					now := time.Since(start)
					if other {
						x.Check(err == nil && now == before, "other URL limited", "a URL that does not match waited %v, err %v", now-before, err)
						continue
					}
					if err != nil {
						failed++
						x.Check(cancel && ctx.Err() != nil, "error", "Limit: %v", err)
						x.Check(now == before || now == cancelAt || cancelAt < 0, "cancellation ignored", "Limit returned at %v, canceled at %v", now, cancelAt)
						continue
					}
					x.Check(cancelAt < 0 || before <= cancelAt, "allowed after cancellation", "a request was allowed though the context was canceled at %v", cancelAt)
					at = append(at, now)
				}
			})
		}
		if !x.Finish() {
			return
		}
		if len(at) > n {
			x.NonTrivial()
		}
		x.Obs("%d/s: %v", n, at)
		for i := range at {
			for j := i; j < len(at); j++ {
				lim := float64(n) + float64(n)*(at[j]-at[i]).Seconds()
				x.Check(float64(j-i+1) <= lim+1e-6, "rate exceeded", "%d requests between %v and %v at a rate of %d/s: %v", j-i+1, at[i], at[j], n, at)
			}
		}
		// Nobody waits longer than the rate asks for.
		if !cancel {
			want := bucket(n, calledAt)
			for i, t := range at {
				x.Check(t <= want[i]+time.Millisecond, "too slow", "request %d allowed at %v, the rate of %d/s allows it at %v: calls at %v, allowed at %v", i, t, n, want[i], calledAt, at)
			}
		}
	}
	// A caller which gives up does not use up what it waited for.
	add(&mc.Scenario{
		Name: "rate/abandoned", Prop: "C13", Quick: mc.Bound{Dev: 2, Policies: 3}, Thorough: mc.Bound{Dev: 3, Policies: 3},
		Run: func(x *mc.X) {
			n := 1 + x.Choose(3, "rate")
			l := limiterKind(x.Choose(4, "kind"), n)
			burst := n + x.Choose(2, "more")
			u := mustURL("http://h/x")
			ms := time.Millisecond
			giveUp := mc.Pick(x, "gives up after", 0, 50*ms, 200*ms)
			next := giveUp + mc.Pick(x, "next after", 0, 20*ms, 400*ms, 1500*ms)
			var at, called []time.Duration
			var err error
			ctx, stop := context.WithCancel(context.Background())
			x.Cleanup(stop)
			start := time.Now()
			x.Go("calls", func() {
				for i := 0; i < burst; i++ {
					called = append(called, time.Since(start))
					l.Limit(context.Background(), u)
					at = append(at, time.Since(start))
				}
				base := time.Since(start)
				x.Go("gives up", func() { err = l.Limit(ctx, u) })
				time.Sleep(giveUp)
				vsched.Post("slept")
				stop()
				time.Sleep(next - giveUp)
				vsched.Post("slept")
				if next == giveUp {
					time.Sleep(ms)
					vsched.Post("slept")
				}
				_ = base
				for i := 0; i < 2; i++ {
					called = append(called, time.Since(start))
					l.Limit(context.Background(), u)
					at = append(at, time.Since(start))
				}
			})
			if !x.Finish() {
				return
			}
			if err == nil {
				// Allowed before it was canceled.
				x.Discard()
				return
			}
			x.NonTrivial()
			x.Obs("%d/s %d %v %v: %v", n, burst, giveUp, next, at)
			x.Check(errors.Is(err, context.Canceled), "error", "the canceled caller got %v", err)
			want := bucket(n, called)
			for i, t := range at {
				x.Check(t <= want[i]+ms, "too slow", "request %d allowed at %v, the rate of %d/s allows it at %v: %v", i, t, n, want[i], at)
			}
		},
	})
	add(&mc.Scenario{
		Name: "rate/2", Prop: "C13", Quick: mc.Bound{Dev: 3, Policies: 3}, Thorough: mc.Bound{Dev: 4, Policies: 3},
		Run: func(x *mc.X) { rates(x, 2, 3, false) },
	})
	add(&mc.Scenario{
		Name: "rate/3", Prop: "C13", Quick: mc.Bound{Dev: 2, Policies: 3}, Thorough: mc.Bound{Dev: 3, Policies: 3},
		Run: func(x *mc.X) { rates(x, 3, 2, false) },
	})
	add(&mc.Scenario{
		Name: "rate/cancel", Prop: "C13", Quick: mc.Bound{Dev: 2, Policies: 3}, Thorough: mc.Bound{Dev: 3, Policies: 3},
		Run: func(x *mc.X) { rates(x, 2, 2, true) },
	})
	// Through the engine the limit holds for fetches.
	add(&mc.Scenario{
		Name: "rate/crawl", Prop: "C13", Quick: mc.Bound{Dev: 2, Policies: 3}, Thorough: mc.Bound{Dev: 3, Policies: 3},
		Run: func(x *mc.X) {
			n := 1 + x.Choose(2, "rate")
			cc := []crawlConf{{3, "a", 2, 0}, {5, "a", 2, 2}, {6, "abc", 3, 0}}[x.Choose(3, "config")]
			w := newWeb(x)
			w.graph(graphs[cc.g])
			c := &crawl{w: w, workers: cc.workers, conc: cc.conc, starts: urls(cc.starts)}
			c.cfg = func(ec *ant.EngineConfig) { ec.Limiter = ant.Limit(n) }
			c.spawn()
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			x.Obs("%s", w.logString())
			var at []time.Duration
			for _, e := range w.log {
				if e.kind == "fetch" {
					at = append(at, e.at)
				}
			}
			for i := range at {
				for j := i; j < len(at); j++ {
					x.Check(float64(j-i+1) <= float64(n)+float64(n)*(at[j]-at[i]).Seconds()+1e-6, "rate exceeded", "fetches at %v at a rate of %d/s", at, n)
				}
			}
			x.Check(c.err == nil && len(at) == len(w.reach(c.starts)), "fetched set", "%d fetches, err %v", len(at), c.err)
		},
	})
}

func limiterKind(k, n int) ant.Limiter {
	switch k {
	case 0:
		return ant.Limit(n)
	case 1:
		return ant.LimitHostname(n, "h")
	case 2:
		return ant.LimitPattern(n, "h/*")
	}
	return ant.LimitRegexp(n, "^h/")
}

// bucket returns when a limiter of n/s which starts with n tokens allows
// calls made at the given times, in their order.
func bucket(n int, calls []time.Duration) []time.Duration {
	var ret []time.Duration
	tokens, last := float64(n), time.Duration(0)
	for _, c := range calls {
		tokens += float64(n) * (c - last).Seconds()
		if tokens > float64(n) {
			tokens = float64(n)
		}
		last = c
		if tokens--; tokens < 0 {
			c += time.Duration(-tokens / float64(n) * float64(time.Second))
		}
		ret = append(ret, c)
	}
	return ret
}

var _ = http.StatusOK
