package hant

import (
	"context"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/mc"
)

// Lengths at which something may be cut: URLs that differ only after a long
// common prefix, or before a long common suffix, are different URLs.
var lengths = []int{100, 130, 260, 600, 1030, 2060, 4200, 8300, 33000, 70000}

// longURLs returns URLs of about n bytes that differ in few of them, in their
// normal form.
func longURLs(kind string, n int) []string {
	fill := strings.Repeat("x", n)
	switch kind {
	case "end of path":
		return []string{base + fill + "a", base + fill + "b", base + fill, base + fill + "/a"}
	case "start of path":
		return []string{base + "a/" + fill, base + "b/" + fill, base + "c?q=" + fill}
	case "segments":
		fill = strings.Repeat("s/", n/2)
		return []string{base + fill + "a", base + fill + "b", base + fill + "s/a"}
	case "query":
		return []string{base + "?p=" + fill + "a", base + "?p=" + fill + "b", base + "?p=" + fill, base + "?q=" + fill}
	case "parameters":
		fill = strings.Repeat("p=x&", n/4)
		return []string{base + "?" + fill + "q=1", base + "?" + fill + "q=2", base + "?" + fill + "q=2&q=3"}
	case "distinct parameters":
		fill = ""
		for i := 0; len(fill) < n; i++ {
			fill += fmt.Sprintf("p%05d=x&", i)
		}
		return []string{base + "?" + fill + "q=1", base + "?" + fill + "q=2", base + "?" + fill + "q=2&q=3"}
	case "encoded":
		fill = strings.Repeat("%C3%BC", n/6)
		return []string{base + fill + "a", base + fill + "b", base + "?q=" + fill + "a", base + "?q=" + fill + "b"}
	}
	panic(kind)
}

func init() {
	kinds := []string{"end of path", "start of path", "segments", "query", "parameters", "distinct parameters", "encoded"}
	pick := func(x *mc.X) (desc string, us []string) {
		kind, n := mc.Pick(x, "kind", kinds...), mc.Pick(x, "length", lengths...)
		x.State(fmt.Sprint(kind, n))
		x.Step(1)
		x.NonTrivial()
		return fmt.Sprintf("%s of %d bytes", kind, n), longURLs(kind, n)
	}
	brief := func(us []string) string {
		var b []string
		for _, u := range us {
			if len(u) > 30 {
				u = fmt.Sprintf("%s..%s (%d bytes)", u[:15], u[len(u)-8:], len(u))
			}
			b = append(b, u)
		}
		return strings.Join(b, " ")
	}

	// Every page is fetched once, and asked for as it is spelled.
	add(&mc.Scenario{
		Name: "crawl/long", Prop: "C01", MaxSteps: 100000, Quick: mc.Bound{Dev: 0, Policies: 1}, Thorough: mc.Bound{Dev: 0, Policies: 3},
		Doc: "URLs of up to 70000 bytes",
		Run: func(x *mc.X) {
			desc, us := pick(x)
			w := newWeb(x)
			w.useHTML = x.Flag("html")
			w.pages[base] = &pg{links: us}
			for i, u := range us {
				w.pages[u] = &pg{links: []string{base, us[(i+1)%len(us)]}}
			}
			c := &crawl{w: w, workers: 2, starts: []string{base}, polite: x.Flag("polite")}
			if x.Flag("bloom filter") {
				c.deduper = ant.DedupeBF(1<<16, 4)
			}
			c.spawn()
			if !x.Finish() {
				return
			}
			got, want := w.fetched(), w.reach(c.starts)
			sort.Strings(got)
			x.Obs("%s: %d", desc, len(got))
			x.Check(c.err == nil && fmt.Sprint(got) == fmt.Sprint(want), "fetched set", "%s: fetched %s (%v), want %s", desc, brief(got), c.err, brief(want))
		},
	})

	// All of them are handed out, once.
	add(&mc.Scenario{
		Name: "dedupe/long", Prop: "C10", Tree: true, Doc: "URLs of up to 70000 bytes",
		Run: func(x *mc.X) {
			desc, us := pick(x)
			d := ant.DedupeMap()
			if x.Flag("bloom filter") {
				d = ant.DedupeBF(1<<20, 7)
			}
			got := map[string]int{}
			for round := 0; round < 2; round++ {
				var batch ant.URLs
				for _, u := range us {
					batch = append(batch, mustURL(u))
				}
				out, err := d.Dedupe(context.Background(), batch)
				x.Check(err == nil, "error", "%s: %v", desc, err)
				for _, u := range out {
					got[u.String()]++
				}
			}
			x.Obs("%s: %d", desc, len(got))
			for _, u := range us {
				x.Check(got[u] >= 1, "lost", "%s: %s was returned to nobody", desc, brief([]string{u}))
				x.Check(got[u] <= 1, "visited twice", "%s: %s was returned %d times", desc, brief([]string{u}), got[u])
			}
		},
	})

	// The normal form keeps the page.
	add(&mc.Scenario{
		Name: "url/long", Prop: "C11", Bubble: true, Tree: true, Doc: "URLs of up to 70000 bytes",
		Run: func(x *mc.X) {
			desc, us := pick(x)
			x.Obs("%s", desc)
			for _, u := range us {
				n := normalForm(x, u)
				x.Check(n == u, "changed", "%s: the normal form of %s is %s", desc, brief([]string{u}), brief([]string{n}))
				o := strings.Replace(u, "http://h/", "HTTP://H:80/./", 1) + "#fragment"
				// Parameters in another order, parts of it encoded.
				head, q, ok := strings.Cut(u, "?")
				parts := strings.Split(q, "&")
				for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
					parts[i], parts[j] = parts[j], parts[i]
				}
				switch {
				case ok:
					q = strings.ReplaceAll(strings.Join(parts, "&"), "q=", "%71=")
					if strings.HasSuffix(q, "x") {
						q = q[:len(q)-1] + "%78"
					}
					p := head + "?" + q
					m := normalForm(x, p)
					x.Check(m == u, "not canonical", "%s: the normal form of another spelling of %s is %s", desc, brief([]string{u}), brief([]string{m}))
				case strings.HasSuffix(u, "a"):
					m := normalForm(x, u[:len(u)-1]+"%61")
					x.Check(m == u, "not canonical", "%s: the normal form of another spelling of %s is %s", desc, brief([]string{u}), brief([]string{m}))
					i := strings.LastIndex(u, "/") + 1
					m = normalForm(x, u[:i]+"b/.././"+u[i:])
					x.Check(m == u, "not canonical", "%s: the normal form of another spelling of %s is %s", desc, brief([]string{u}), brief([]string{m}))
				}
				n = normalForm(x, o)
				x.Check(n == u, "not canonical", "%s: the normal form of another spelling of %s is %s", desc, brief([]string{u}), brief([]string{n}))
			}
		},
	})

	// Matchers and limiters see all of the path.
	add(&mc.Scenario{
		Name: "match/long", Prop: "C12", Tree: true, Bubble: true, Doc: "URLs of up to 70000 bytes",
		Run: func(x *mc.X) {
			desc, us := pick(x)
			what := mc.Pick(x, "what", "pattern", "regexp", "literal")
			x.Obs("%s %s", desc, what)
			for _, s := range us {
				u := mustURL(s)
				at := u.Host + u.Path
				want := strings.HasSuffix(at, "a")
				var m ant.Matcher
				var l ant.Limiter
				switch what {
				case "pattern":
					m, l = ant.MatchPattern("h/*a"), ant.LimitPattern(1, "h/*a")
				case "regexp":
					m, l = ant.MatchRegexp("^h/.*a$"), ant.LimitRegexp(1, "^h/.*a$")
				default:
					p := mustURL(us[0])
					m, l = ant.MatchPattern(p.Host+p.Path), ant.LimitPattern(1, p.Host+p.Path)
					want = at == p.Host+p.Path
				}
				x.Check(m.Match(u) == want, "verdict", "%s: %s %s: %v", desc, what, brief([]string{s}), !want)
				t := time.Now()
				for i := 0; i < 2; i++ {
					x.Check(l.Limit(context.Background(), u) == nil, "error", "%s", desc)
				}
				x.Check(time.Now().After(t) == want, "verdict", "%s: limiter of %s %s: %v", desc, what, brief([]string{s}), !want)
			}
		},
	})

	// The fetcher asks for exactly the URL, whatever it answers.
	add(&mc.Scenario{
		Name: "fetch/long", Prop: "C15", Tree: true, Bubble: true, Doc: "URLs and headers of up to 70000 bytes",
		Run: func(x *mc.X) {
			desc, us := pick(x)
			status := mc.Pick(x, "status", 200, 404, 500)
			x.Obs("%s %d", desc, status)
			for _, s := range us {
				f := &ant.Fetcher{Client: doFunc(func(req *http.Request) (*http.Response, error) {
					x.Check(req.URL.String() == s, "URL", "%s: %s is requested", desc, brief([]string{req.URL.String()}))
					resp := &http.Response{StatusCode: status, Request: req, Header: http.Header{"X-Url": {s}}, Body: http.NoBody}
					return resp, nil
				})}
				p, err := f.Fetch(context.Background(), mustURL(s))
				switch status {
				case 200:
					x.Check(err == nil && p != nil && p.URL.String() == s && p.Header.Get("X-Url") == s, "page", "%s: %v", desc, err)
				case 404:
					x.Check(p == nil && err == nil, "page", "%s: %v %v", desc, p, err)
				default:
					x.Check(p == nil && err != nil && strings.Contains(err.Error(), s), "error", "%s: %v %v", desc, p, err)
				}
			}
		},
	})

	// Long robots.txt files: rules count wherever they are.
	add(&mc.Scenario{
		Name: "robots/long", Prop: "C16", Bubble: true, MaxSteps: 10000000, Quick: mc.Bound{Dev: 0, Policies: 1}, Thorough: mc.Bound{Dev: 0, Policies: 2},
		Doc: "robots.txt of up to 1.2 MB, rules of up to 30 kB",
		Run: func(x *mc.X) {
			size := mc.Pick(x, "size", 100, 3000, 5000, 40000, 70000, 140000, 450000, 1200000)
			what := mc.Pick(x, "filled with", "comments", "rules", "groups", "a rule", "blank lines")
			var b strings.Builder
			head := "User-agent: *\nDisallow: /first\n"
			switch what {
			case "comments":
				b.WriteString(head)
				for b.Len() < size {
					b.WriteString("# nothing to see here\n")
				}
			case "blank lines":
				b.WriteString(head + strings.Repeat("\n", size))
			case "rules":
				b.WriteString(head)
				for i := 0; b.Len() < size; i++ {
					fmt.Fprintf(&b, "Disallow: /rule%d\n", i)
				}
			case "groups":
				for i := 0; b.Len() < size; i++ {
					fmt.Fprintf(&b, "User-agent: bot%d\nDisallow: /\n\n", i)
				}
				b.WriteString(head)
			case "a rule":
				if size > 30000 {
					x.Discard()
					return
				}
				b.WriteString(head + "Disallow: /" + strings.Repeat("x", size) + "a\n")
			}
			b.WriteString("Disallow: /last\n")
			w := newWeb(x)
			w.robots["h"] = &pg{links: []string{b.String()}}
			want := map[string]bool{"first": false, "last": false, "other": true, "firs": true}
			if what == "a rule" {
				fill := strings.Repeat("x", size)
				want[fill+"a"], want[fill+"b"], want[fill] = false, true, true
			}
			if what == "rules" {
				want["rule3"], want["rule"] = false, true
			}
			var starts []string
			for p := range want {
				w.pages[base+p] = &pg{}
				starts = append(starts, base+p)
			}
			sort.Strings(starts)
			c := &crawl{w: w, workers: 1, conc: 1, starts: starts, polite: true}
			c.spawn()
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			desc := fmt.Sprintf("robots.txt of %d bytes, mostly %s", b.Len(), what)
			x.Obs("%s", desc)
			x.Check(c.err == nil, "error", "%s: %v", desc, c.err)
			for p, allowed := range want {
				x.Check(w.count("fetch", base+p) == map[bool]int{true: 1}[allowed], "verdict", "%s: %s is allowed: %v", desc, brief([]string{base + p}), !allowed)
			}
		},
	})
}
