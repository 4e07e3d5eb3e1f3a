package hant

import (
	"fmt"
	"sort"

	"github.com/yields/ant/zverif/mc"
)

// URLs of all shapes, in normal form: what holds for one holds for all.
var shapes = []string{
	"http://h/", "http://h/?q", "http://h/a", "http://h/a?x=1&y=2", "http://h/a?x=2", "http://h/A", "http://h/a.html", "http://h/a/b/c", "https://h/a", "http://h:81/a", "https://h:80/a",
	"http://u:p@h/a", "http://[::1]/a", "http://127.0.0.1/", "http://www.h/a", "http://h.test/robots.txt", "http://h/a;p", "http://h/a=b,c", "http://h/~a", "http://h/a?u=http://i/b",
}

var odd = append([]string{"http://h/a%2Fb", "http://h/a%20b", "http://h/%C3%BC", "http://h/a%3Fb", "http://h/%25", "http://h/?a=%26&b=%C3%BC"}, shapes...)

func init() {
	add(&mc.Scenario{
		Name: "gate/shapes", Prop: "C05", MaxSteps: 100000, Quick: mc.Bound{Dev: 0, Policies: 2}, Thorough: mc.Bound{Dev: 1, Policies: 2},
		Doc: "a site of URLs of all shapes, of which the matcher excludes or the limiter refuses any one",
		Run: func(x *mc.X) {
			w := newWeb(x)
			for _, u := range odd {
				w.pages[u] = &pg{}
			}
			polite := x.Flag("polite")
			starts := odd
			if x.Flag("links") {
				starts = []string{"http://start/"}
				w.pages[starts[0]] = &pg{links: odd}
			}
			exclude := x.Choose(len(odd)+1, "excluded") - 1
			refuse := -1
			if exclude < 0 {
				refuse = x.Choose(len(odd)+1, "refused") - 1
			}
			if exclude >= 0 {
				w.pages[odd[exclude]].matchNo = true
			}
			if refuse >= 0 {
				w.pages[odd[refuse]].limitErr = w.boom
			}
			c := &crawl{w: w, workers: 2, conc: mc.Pick(x, "concurrency", 0, 1), starts: starts, matcher: true, limiter: true, polite: polite}
			c.spawn()
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			x.Obs("%d %d: %d", exclude, refuse, len(w.fetched()))
			x.Check((c.err != nil) == (refuse >= 0), "error", "Run: %v", c.err)
			for i, u := range odd {
				m, l, f, s := w.count("match", u), w.count("limited", u), w.count("fetch", u), w.count("scrape", u)
				switch {
				case i == exclude:
					x.Check(m == 1 && w.count("limit", u)+f+s == 0, "excluded", "the matcher excludes %s: limited %d times, fetched %d, scraped %d", u, w.count("limit", u), f, s)
				case i == refuse:
					x.Check(m == 1 && w.count("limit", u) == 1 && f+s == 0, "refused", "the limiter refuses %s: fetched %d times, scraped %d", u, f, s)
				case refuse < 0:
					x.Check(m == 1 && l == 1 && f == 1 && s == 1, "not gated", "%s: matched %d times, allowed %d, fetched %d, scraped %d", u, m, l, f, s)
				}
				if f > 0 {
					x.Check(w.index("limited", u) >= 0 && w.index("limited", u) < w.index("fetch", u), "not gated", "%s is fetched before the limiter allowed it", u)
				}
			}
		},
	})

	add(&mc.Scenario{
		Name: "polite/shapes", Prop: "C06", MaxSteps: 100000, Horizon: 100 * 3600e9, Quick: mc.Bound{Dev: 0, Policies: 2}, Thorough: mc.Bound{Dev: 1, Policies: 2},
		Doc: "a site of URLs of all shapes, of which robots.txt disallows or allows any",
		Run: func(x *mc.X) {
			w := newWeb(x)
			u := shapes[x.Choose(len(shapes), "rule for")]
			path := pathOf(u)
			var gs groups
			switch x.Choose(4, "rule") {
			case 0:
				gs = groups{{[]string{"*"}, []rule{{false, path}}, 0}}
			case 1:
				gs = groups{{[]string{"antbot"}, []rule{{false, "/"}, {true, path}}, 0}}
			case 2:
				gs = groups{{[]string{"*"}, []rule{{false, "/"}}, 0}, {[]string{"antbot"}, []rule{{false, path + "x"}, {false, path}}, 0}}
			case 3:
				gs = groups{{[]string{"*"}, []rule{{false, path}}, mc.Pick(x, "delay", 1, 30, 61, 600, 3000)}}
			}
			for _, u := range shapes {
				w.pages[u] = &pg{}
				w.robots[mustURL(u).Host] = &pg{links: []string{gs.text()}}
			}
			starts := shapes
			if x.Flag("links") {
				starts = []string{"http://start/"}
				w.pages[starts[0]] = &pg{links: shapes}
			}
			c := &crawl{w: w, workers: 2, conc: mc.Pick(x, "concurrency", 0, 1), starts: starts, polite: true}
			c.spawn()
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			var want []string
			for _, u := range shapes {
				if gs.find("antbot").allowed(pathOf(u)) {
					want = append(want, u)
				}
			}
			if len(starts) == 1 {
				want = append(want, starts[0])
			}
			sort.Strings(want)
			got := w.fetched()
			sort.Strings(got)
			x.Obs("%v: %d", gs, len(got))
			x.Check(c.err == nil && fmt.Sprint(got) == fmt.Sprint(want), "fetched set", "robots.txt %q: fetched %v (err %v), it allows %v", gs.text(), got, c.err, want)
			delay := gs.find("antbot").delay
			last := map[string]event{}
			for _, e := range w.log {
				if e.kind == "fetch" && e.url != "http://start/" {
					h := mustURL(e.url).Host
					if o, ok := last[h]; ok {
						x.Check((e.at-o.at).Seconds() >= float64(delay), "crawl delay", "%s is fetched %v after %s, the crawl delay is %d s", e.url, e.at-o.at, o.url, delay)
					}
					last[h] = e
				}
			}
		},
	})
}
