package hscan

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/mc"
)

// ref is a reference or URL split as RFC 3986 says.
type ref struct {
	scheme, auth, path, query, frag string
	hasAuth, hasQuery, hasFrag      bool
}

// parseRef splits s (RFC 3986, appendix B).
func parseRef(s string) (r ref) {
	if i := strings.IndexByte(s, '#'); i >= 0 {
		r.frag, r.hasFrag, s = s[i+1:], true, s[:i]
	}
	if i := strings.IndexByte(s, '?'); i >= 0 {
		r.query, r.hasQuery, s = s[i+1:], true, s[:i]
	}
	if i := strings.IndexAny(s, ":/"); i > 0 && s[i] == ':' {
		r.scheme, s = strings.ToLower(s[:i]), s[i+1:]
	}
	if strings.HasPrefix(s, "//") {
		s = s[2:]
		r.hasAuth = true
		if i := strings.IndexByte(s, '/'); i >= 0 {
			r.auth, s = s[:i], s[i:]
		} else {
			r.auth, s = s, ""
		}
	}
	r.path = s
	return r
}

func (r ref) String() string {
	s := ""
	if r.scheme != "" {
		s = r.scheme + ":"
	}
	if r.hasAuth {
		s += "//" + r.auth
	}
	s += r.path
	if r.hasQuery {
		s += "?" + r.query
	}
	// An empty fragment is as good as none.
	if r.hasFrag && r.frag != "" {
		s += "#" + r.frag
	}
	return s
}

// removeDots is remove_dot_segments.
func removeDots(in string) string {
	out := ""
	for in != "" {
		switch {
		case strings.HasPrefix(in, "../"):
			in = in[3:]
		case strings.HasPrefix(in, "./"):
			in = in[2:]
		case strings.HasPrefix(in, "/./"):
			in = in[2:]
		case in == "/.":
			in = "/"
		case strings.HasPrefix(in, "/../"):
			in = in[3:]
			out = out[:max(strings.LastIndexByte(out, '/'), 0)]
		case in == "/..":
			in = "/"
			out = out[:max(strings.LastIndexByte(out, '/'), 0)]
		case in == "." || in == "..":
			in = ""
		default:
			i := 0
			if in[0] == '/' {
				i = 1
			}
			if j := strings.IndexByte(in[i:], '/'); j >= 0 {
				i += j
			} else {
				i = len(in)
			}
			out += in[:i]
			in = in[i:]
		}
	}
	return out
}

// resolve is the resolution of RFC 3986, section 5.2.
func resolve(b, r ref) (t ref) {
	switch {
	case r.scheme != "":
		t = r
		t.path = removeDots(r.path)
	case r.hasAuth:
		t = r
		t.scheme = b.scheme
		t.path = removeDots(r.path)
	default:
		t = b
		switch {
		case r.path == "":
			if r.hasQuery {
				t.query, t.hasQuery = r.query, true
			}
		case strings.HasPrefix(r.path, "/"):
			t.path = removeDots(r.path)
			t.query, t.hasQuery = r.query, r.hasQuery
		default:
			m := "/" + r.path
			if i := strings.LastIndexByte(b.path, '/'); i >= 0 {
				m = b.path[:i+1] + r.path
			}
			t.path = removeDots(m)
			t.query, t.hasQuery = r.query, r.hasQuery
		}
	}
	t.frag, t.hasFrag = r.frag, r.hasFrag
	return t
}

// canon compares URLs up to what RFC 3986 calls equivalent: dot segments of
// absolute references, an empty path. Surplus slashes do not count, as in
// normalized URLs.
func canon(s string) string {
	r := parseRef(s)
	r.path = removeDots(r.path)
	for strings.Contains(r.path, "//") {
		r.path = strings.ReplaceAll(r.path, "//", "/")
	}
	if r.path == "" {
		r.path = "/"
	}
	return r.String()
}

// expected returns what a page at base makes of a reference, "" if nothing.
func expected(base, s string) string {
	// White space around the reference is not part of it (HTML).
	s = strings.Trim(s, " \t\n\f\r")
	t := resolve(parseRef(base), parseRef(s))
	if t.scheme != "http" && t.scheme != "https" {
		return ""
	}
	if host := t.auth[strings.LastIndexByte(t.auth, '@')+1:]; host == "" || host[0] == ':' {
		return "" // not a valid http URL
	}
	return canon(t.String())
}

var bases = []string{
	"http://h.test/b/c/d;p?q", "http://h.test", "http://h.test/", "https://u@h.test:8080/b/c/", "http://h.test/b", "http://h.test/b/%2F%61/?x=../y",
}

// Fixed references; "!" marks those that cannot be parsed, "!!" those which
// are not judged by the resolver but known.
var fixedRefs = []string{
	"", "#", "#f", "?", "?q", "?q#f", "?a/../b", "g?y/./x", "g#s/../x", "//o.test", "//o.test?q", "http://a.test/x", "https://a.test", "HTTP://a.test/X", "HTTPS://A.test/a/../b",
	"http://a.test?x=http://b.test/", "http://u:p@a.test:81/", "mailto:a@b.test", "javascript:void(0)", "ftp://a.test/y", "tel:1", "data:text/html,x", "about:blank", "file:///etc/passwd", "ws://a.test/",
	"a:b", "./a:b", "g%2fh", "a%20b", "%41", "x=1;y=2", "g;x=1/../y", "~u", "(a)", "a@b", "a+b", "*", "http:", "https:", "http://", "http://?q", "http:g", "http:/g", "http://:80/", "http:///g",
	"!%zz", "!http://[::1", "!:foo", "!1:2", "!http://a b/", "!http://a.test:port/", "!a\x7fb",
	" ", " /x", "/x ", "\n\t g\r\n", "\f//o.test/y\f", "  http://a.test/x\n", "\thttps://a.test", " ?q ", "#f ", " mailto:a@b.test", " ..",
}

func init() {
	check := func(x *mc.X, base string, hrefs []string, got ant.URLs, label string) {
		var want []string
		for _, h := range hrefs {
			if strings.HasPrefix(h, "!") {
				continue
			}
			if e := expected(base, h); e != "" {
				want = append(want, e)
			}
		}
		var have []string
		for _, u := range got {
			if u == nil {
				x.Fail("nil URL", "%s of %q at %s", label, hrefs, base)
				return
			}
			have = append(have, canon(u.String()))
		}
		x.State(fmt.Sprint(want))
		x.Obs("%s: %q", label, have)
		x.Check(fmt.Sprintf("%q", have) == fmt.Sprintf("%q", want), "wrong URLs", "%s: references %q at %s yield %q, want %q", label, hrefs, base, have, want)
	}
	esc := strings.NewReplacer("&", "&amp;", `"`, "&quot;", "<", "&lt;")
	plain := func(h string) string { return esc.Replace(strings.TrimPrefix(h, "!")) }

	one := func(x *mc.X, base, href string) {
		doc := fmt.Sprintf(`<a href="%s">x</a>`, plain(href))
		p := page(x, base, doc)
		x.NonTrivial()
		x.Step(1)
		check(x, base, []string{href}, p.URLs(), "URLs")
		next, err := p.Next("a")
		x.Check(err == nil, "Next", "%v", err)
		check(x, base, []string{href}, next, "Next")
		for _, u := range next {
			// What the page returned is the caller's.
			u.Host, u.Path, u.RawQuery = "changed", "/changed", "changed"
		}
		x.Check(p.URL.String() == base, "page URL", "the page's URL became %s", p.URL)
		check(x, base, []string{href}, p.URLs(), "URLs again")
	}
	add(&mc.Scenario{Name: "links/known", Prop: "C29", Tree: true, Run: func(x *mc.X) {
		one(x, bases[x.Choose(len(bases), "base")], fixedRefs[x.Choose(len(fixedRefs), "reference")])
	}})
	gen := func(segs int) func(x *mc.X) {
		return func(x *mc.X) {
			base := bases[x.Choose(len(bases), "base")]
			href := mc.Pick(x, "prefix", "", "/", "//o.test/", "http://o.test:81/", "https://o.test/")
			n := x.Choose(segs+1, "segments")
			var ss []string
			for i := 0; i < n; i++ {
				ss = append(ss, mc.Pick(x, "segment", "g", "..", ".", "", "h;p=1", "%2e%2e", "...", "g.", "a%2Fb"))
			}
			if n > 0 && ss[0] == "" && len(href) < 2 {
				x.Discard() // an authority, or none
				return
			}
			href += strings.Join(ss, "/")
			href += mc.Pick(x, "suffix", "", "?q=1", "#f", "?#", "?a/../b#c/../d")
			// "%2e" is an unreserved character: equivalent to a dot, but
			// the resolver of the RFC works on the text.
			one(x, base, href)
		}
	}
	add(&mc.Scenario{Name: "links/3", Prop: "C29", Tree: true, Run: gen(3)})
	add(&mc.Scenario{Name: "links/4", Prop: "C29", Tree: true, Quick: mc.Bound{Dev: 1}, Thorough: mc.Bound{Dev: 1}, Run: gen(4)})
	add(&mc.Scenario{Name: "links/5", Prop: "C29", Tree: true, Quick: mc.Bound{Skip: true}, Thorough: mc.Bound{Dev: 1}, Run: gen(5)})

	// Which elements count, and in which order.
	type elem struct {
		html string
		href string // "-" for none
		name string
		cls  bool
	}
	elems := []elem{
		{`<a href="/1">1</a>`, "/1", "a", false},
		{`<a class="c" href="2">2</a>`, "2", "a", true},
		{`<a>none</a>`, "-", "a", false},
		{`<a class="c" name="n">none</a>`, "-", "a", true},
		{`<a href="">same</a>`, "", "a", false},
		{`<area href="/3">`, "/3", "area", false},
		{`<link class="c" href="/4">`, "/4", "link", true},
		{`<a href="mailto:x@y">m</a>`, "mailto:x@y", "a", false},
		{`<a href="%zz">bad</a>`, "!%zz", "a", false},
		{`<a class="c" href="//o.test/5?a&amp;b">5</a>`, "//o.test/5?a&b", "a", true},
		{`<A HREF="/6">6</A>`, "/6", "a", false},
		{`<p class="c">text</p>`, "-", "p", true},
	}
	order := func(max int) func(x *mc.X) {
		return func(x *mc.X) {
			n := x.Choose(max+1, "elements")
			var b bytes.Buffer
			var es []elem
			wrap := x.Choose(2, "nested")
			for i := 0; i < n; i++ {
				e := elems[x.Choose(len(elems), "element")]
				es = append(es, e)
				if wrap == 1 {
					fmt.Fprintf(&b, "<div>%s", e.html)
				} else {
					b.WriteString(e.html)
				}
			}
			base := "http://h.test/d/"
			p := page(x, base, "<body>"+b.String())
			if n > 1 {
				x.NonTrivial()
			}
			x.Step(1)
			sel := func(f func(e elem) bool) (r []string) {
				for _, e := range es {
					if e.href != "-" && f(e) {
						r = append(r, e.href)
					}
				}
				return r
			}
			check(x, base, sel(func(e elem) bool { return e.name == "a" }), p.URLs(), "URLs")
			for _, s := range []struct {
				sel string
				f   func(e elem) bool
			}{
				{"a", func(e elem) bool { return e.name == "a" }},
				{".c", func(e elem) bool { return e.cls }},
				{"link, area", func(e elem) bool { return e.name == "link" || e.name == "area" }},
				{"*", func(e elem) bool { return true }},
				{"a.c[href]", func(e elem) bool { return e.name == "a" && e.cls }},
				{"none", func(e elem) bool { return false }},
				{"[", func(e elem) bool { return false }},
			} {
				next, err := p.Next(s.sel)
				x.Check(err == nil, "Next", "%v", err)
				check(x, base, sel(s.f), next, "Next "+s.sel)
			}
			x.Check(p.URL.String() == base, "page URL", "the page's URL became %s", p.URL)
		}
	}
	add(&mc.Scenario{Name: "links/elements", Prop: "C29", Tree: true, Run: order(3)})
	add(&mc.Scenario{Name: "links/more elements", Prop: "C29", Tree: true, Quick: mc.Bound{Dev: 1}, Thorough: mc.Bound{Dev: 1}, Run: order(4)})
	add(&mc.Scenario{Name: "links/5 elements", Prop: "C29", Tree: true, Quick: mc.Bound{Skip: true}, Thorough: mc.Bound{Dev: 1}, Run: order(5)})
}
