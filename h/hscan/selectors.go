package hscan

import (
	"context"
	"fmt"
	"reflect"
	"strings"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/mc"
)

// Selectors that resemble each other, one after the other: each of them
// selects what it says whatever was selected before.
func init() {
	pad := func(n int) string { return strings.Repeat(":not(.zz)", n) }
	long := func(n int, end string) string { return "p" + pad(n) + end }
	type sel struct{ sel, want string }
	groups := [][]sel{
		{{".c", "1 3"}, {".C", "2"}, {".c", "1 3"}},
		{{"p .c", "3"}, {"p.c", "1"}, {".c p", ""}, {"p .c", "3"}},
		{{"p b", "3 4"}, {"pb", "5"}, {"p>b", "3 4"}, {"p > b", "3 4"}, {"p+b", ""}, {"p~pb", "5"}, {"p , b", "1 3 2 4"}, {"p", "1 2"}, {"b", "3 4"}},
		{{"[k=v]", "1"}, {"[k='v']", "1"}, {"[k='v ']", "2"}, {"[k=V]", "3"}, {"[k^=v]", "1 2"}, {"[k]", "1 3 2"}, {"[k|=v]", "1"}},
		{{"#a", "1"}, {".a", "4"}, {"#A", "2"}, {"a", "6"}, {"[a]", ""}},
		{{"p:first-child", "1"}, {"p:last-child", ""}, {"p:nth-child(1)", "1"}, {"p:nth-child(2)", "2"}, {"p:nth-child(12)", ""}},
	}
	for _, n := range []int{3, 7, 30, 120, 500} {
		groups = append(groups, []sel{{long(n, ".c"), "1"}, {long(n, ".C"), "2"}, {long(n, " b"), "3 4"}, {long(n, ""), "1 2"}, {"b" + long(n, ".c")[1:], "3"}})
	}
	const html = `<html><head></head><body><p n=1 id=a class=c k=v><b n=3 class=c k=V></b></p><p n=2 id=A class=C k="v "><b n=4 class=a></b></p><pb n=5></pb><a n=6 href="/6"></a></body></html>`
	of := func(l ant.List) string {
		var s []string
		for i := range l {
			n, _ := l.At(i).Attr("n")
			s = append(s, n)
		}
		return strings.Join(s, " ")
	}
	add(&mc.Scenario{Name: "list/selectors", Prop: "C31", Tree: true, Doc: "selectors that resemble each other, up to 4500 bytes long, in every rotation of their order", Run: func(x *mc.X) {
		g := groups[x.Choose(len(groups), "selectors")]
		first := x.Choose(len(g), "first")
		back := x.Flag("backwards")
		p := page(x, "http://h.test/", html)
		root := p.Query("html")
		all := p.Query("[n]")
		x.NonTrivial()
		x.Step(len(g))
		for i := range g {
			s := g[(first+i)%len(g)]
			if back {
				s = g[(first+len(g)-i)%len(g)]
			}
			got := of(p.Query(s.sel))
			x.Obs("%.40s", got)
			x.Check(got == s.want, "Query", "%.80q selects [%s], want [%s]", s.sel, got, s.want)
			got = of(root.Query(s.sel))
			x.Check(got == s.want, "Query", "%.80q selects [%s] below the root, want [%s]", s.sel, got, s.want)
			for i := range all {
				e := all.At(i)
				n, _ := e.Attr("n")
				want := strings.Contains(" "+s.want+" ", " "+n+" ")
				x.Check(e.Is(s.sel) == want, "Is", "element %s is %.80q: %v", n, s.sel, !want)
			}
			// The same selector in a tag.
			if !strings.ContainsAny(s.sel, "@\"") {
				t := reflect.StructOf([]reflect.StructField{{Name: "N", Type: reflect.TypeOf([]string{}), Tag: reflect.StructTag(fmt.Sprintf("css:%q", s.sel+"@n"))}})
				dst := reflect.New(t)
				err := p.Scan(dst.Interface())
				got := strings.Join(dst.Elem().Field(0).Interface().([]string), " ")
				x.Check(err == nil && got == s.want, "Scan", "the tag %.80q scans [%s] %v, want [%s]", s.sel, got, err, s.want)
			}
		}
	}})
	const links = `<html><head></head><body><p class=c><a class=x href="/1"></a></p><p class=C><a class=X href="/2"></a></p><pa><a class="x y" href="/3"></a></pa><xa href="/4"></xa></body></html>`
	lgroups := [][]sel{
		{{".c a", "/1"}, {".C a", "/2"}, {".ca", ""}, {"pa a", "/3"}, {"p a", "/1 /2"}, {"paa", ""}},
		{{".x", "/1 /3"}, {".X", "/2"}, {".x.y", "/3"}, {".x .y", ""}},
		{{"a[href='/1']", "/1"}, {"a[href='/1 ']", ""}, {"a[href='/2']", "/2"}},
	}
	for _, n := range []int{3, 7, 30, 120, 500} {
		lgroups = append(lgroups, []sel{{"a" + pad(n) + ".x", "/1 /3"}, {"a" + pad(n) + ".X", "/2"}, {"a" + pad(n), "/1 /2 /3"}, {"a" + pad(n) + ".y", "/3"}})
	}
	add(&mc.Scenario{Name: "links/selectors", Prop: "C29", Tree: true, Doc: "selectors that resemble each other, in every rotation of their order", Run: func(x *mc.X) {
		g := lgroups[x.Choose(len(lgroups), "selectors")]
		first := x.Choose(len(g), "first")
		p := page(x, "http://h.test/", links)
		x.NonTrivial()
		x.Step(len(g))
		for i := range g {
			s := g[(first+i)%len(g)]
			us, err := p.Next(s.sel)
			var got []string
			for _, u := range us {
				got = append(got, u.Path)
			}
			x.Obs("%v", got)
			x.Check(err == nil && strings.Join(got, " ") == s.want, "selected", "Next(%.80q) yields %v %v, want %s", s.sel, got, err, s.want)
		}
	}})
}

// Links in all kinds of markup.
func init() {
	pieces := []struct{ html, urls string }{
		{`<base href="http://other.test/x/">`, ""},
		{`<a href="r">t</a>`, "http://h.test/d/r"},
		{`<A HREF='r2'>t</A>`, "http://h.test/d/r2"},
		{`<a href=r3>t</a>`, "http://h.test/d/r3"},
		{`<a href="a" href="b">t</a>`, "http://h.test/d/a"},
		{`<a href="?x=1&amp;y=2">t</a>`, "http://h.test/d/p?x=1&y=2"},
		{`<a href="?x=1&y=2">t</a>`, "http://h.test/d/p?x=1&y=2"},
		{`<a href="/&#x61;&#98;">t</a>`, "http://h.test/ab"},
		{`<a href="">t</a>`, "http://h.test/d/p?q"},
		{`<a href>t</a>`, "http://h.test/d/p?q"},
		{`<a name="r">t</a>`, ""},
		{`<a title="r" data-href="x">t</a>`, ""},
		{`<!-- <a href="no">t</a> -->`, ""},
		{`<script>"<a href='no'></a>"</script>`, ""},
		{`<style><a href="no"></a></style>`, ""},
		{`<textarea><a href="no"></a></textarea>`, ""},
		{`<p>text<a href="1">t<b>b<a href="2">u</a></b></a>`, "http://h.test/d/1 http://h.test/d/2"},
		{`<table><tr><td><a href="t">t</a></table>`, "http://h.test/d/t"},
		{`<ul><li><a href="l1">t</a><li><a href="l2">t</a></ul>`, "http://h.test/d/l1 http://h.test/d/l2"},
		{`<a rel=nofollow target=_blank download hreflang=de href="n">t</a>`, "http://h.test/d/n"},
		{`<a hidden style="display:none" href="h">t</a>`, "http://h.test/d/h"},
		{`<a href="r"><a href="r"></a>`, "http://h.test/d/r http://h.test/d/r"},
		{`<a href="u` + "\u00fc" + `">t</a>`, "http://h.test/d/u%C3%BC"},
		{`<link href="css"><area href="ar"><img src="i"><form action="f"></form>`, ""},
		{`<meta http-equiv=refresh content="0;url=m"><meta name=robots content=nofollow>`, ""},
		{`</body><a href="late">t</a>`, "http://h.test/d/late"},
		{`<select><option value="v"></select>`, ""},
		{`<button><a href="bt">t</a></button>`, "http://h.test/d/bt"},
	}
	add(&mc.Scenario{Name: "links/markup", Prop: "C29", Tree: true, Doc: "all pairs of 28 pieces of markup", Run: func(x *mc.X) {
		a, b := pieces[x.Choose(len(pieces), "first")], pieces[x.Choose(len(pieces), "second")]
		doctype := mc.Pick(x, "start", "", "<!DOCTYPE html>", "<html><head><title>t</title></head><body>", "\ufeff")
		html := doctype + a.html + "\n" + b.html
		want := strings.Join(strings.Fields(a.urls+" "+b.urls), " ")
		switch mc.Pick(x, "how", "one", "list") {
		case "one":
			us, err := page(x, "http://h.test/d/p?q", html).Next("a")
			var got []string
			for _, u := range us {
				got = append(got, u.String())
			}
			x.Check(err == nil && strings.Join(got, " ") == want, "wrong URLs", "%s: [%s] %v, want [%s]", html, strings.Join(got, " "), err, want)
		case "list":
			us, err := ant.JSON(new(strings.Builder), struct {
				T string `css:"title"`
			}{}).Scrape(context.Background(), page(x, "http://h.test/d/p?q", html))
			var got []string
			for _, u := range us {
				got = append(got, u.String())
			}
			x.Check(err == nil && strings.Join(got, " ") == want, "wrong URLs", "JSON of %s: [%s] %v, want [%s]", html, strings.Join(got, " "), err, want)
		}
		x.NonTrivial()
		x.Obs("%s", want)
		x.State(html)
		x.Step(1)
	}})
}
