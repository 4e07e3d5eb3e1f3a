package hscan

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/mc"
)

// Documents of many elements, in four shapes.
func init() {
	// large returns a document of n elements x and its reference. The i-th x
	// has the text and the attribute k that val and key say.
	large := func(shape string, n int, val, key func(i int) string) (*node, string) {
		body := &node{name: "body"}
		id := 0
		add := func(up *node, name, text string, attrs ...[2]string) *node {
			id++
			k := &node{id: id, name: name, text: text, attrs: attrs, up: up}
			up.kids = append(up.kids, k)
			return k
		}
		at := body
		for i := 0; i < n; i++ {
			switch shape {
			case "flat":
			case "deep":
			case "rows":
				if i%10 == 0 {
					at = add(body, "y", "")
				}
			case "pairs":
				at = add(body, "y", "")
			}
			e := add(at, "x", val(i), [2]string{"k", key(i)})
			if shape == "deep" && i%100 < 99 {
				at = e
			} else if shape == "deep" {
				at = body
			}
		}
		var b bytes.Buffer
		b.WriteString("<html><head></head><body>")
		for _, k := range body.kids {
			k.html(&b)
		}
		b.WriteString("</body></html>")
		return body, b.String()
	}
	shapes := []string{"flat", "deep", "rows", "pairs"}
	sizes := []int{30, 200, 1000, 5000}
	val := func(i int) string { return fmt.Sprintf("%d", i) }
	key := func(i int) string { return strconv.Itoa(-i) }

	add(&mc.Scenario{Name: "scan/many", Prop: "C30", Tree: true, Doc: "documents of up to 5000 elements", Run: func(x *mc.X) {
		type row struct {
			Xs []string `css:"x"`
			Ks []int    `css:"x@k"`
		}
		type all struct {
			First string    `css:"x"`
			Xs    []string  `css:"x"`
			Ks    []int     `css:"x@k"`
			Fs    []float64 `css:"x@k"`
			Us    []uint    `css:"y > x"`
			Rows  []row     `css:"y"`
			Bs    [][]byte  `css:"x@id"`
			Last  struct {
				Xs []string `css:"x"`
			} `css:"y:last-child"`
		}
		shape := shapes[x.Choose(len(shapes), "shape")]
		n := sizes[x.Choose(len(sizes), "elements")]
		doc, html := large(shape, n, val, key)
		var got, want all
		if x.Flag("dirty") {
			got.Xs, got.Ks, got.Rows = make([]string, n+3), make([]int, 2), make([]row, n/2)
		}
		err := page(x, "http://h.test/", html).Scan(&got)
		desc := fmt.Sprintf("%s document of %d elements", shape, n)
		x.Check(err == nil, "error", "%s: %v", desc, err)
		var xs, ys []*node
		for _, e := range doc.all() {
			switch e.name {
			case "x":
				xs = append(xs, e)
			case "y":
				ys = append(ys, e)
			}
		}
		scan := func(es []*node) (r row) {
			for _, e := range es {
				k, _ := e.attr("k")
				i, _ := strconv.Atoi(k)
				r.Xs, r.Ks = append(r.Xs, e.innerText()), append(r.Ks, i)
			}
			return r
		}
		r := scan(xs)
		want.First, want.Xs, want.Ks = xs[0].innerText(), r.Xs, r.Ks
		for _, k := range r.Ks {
			want.Fs = append(want.Fs, float64(k))
		}
		for _, e := range xs {
			want.Bs = append(want.Bs, []byte(fmt.Sprintf("n%d", e.id)))
			if e.up.name == "y" {
				u, _ := strconv.ParseUint(e.text, 10, 64)
				want.Us = append(want.Us, uint(u))
			}
		}
		for _, e := range ys {
			want.Rows = append(want.Rows, scan(e.kids))
		}
		if len(ys) > 0 {
			want.Last.Xs = scan(ys[len(ys)-1].kids).Xs
		}
		x.NonTrivial()
		x.Step(n)
		x.Obs("%s %d", desc, len(got.Xs))
		g, w := reflect.ValueOf(got), reflect.ValueOf(want)
		for i := 0; i < g.NumField(); i++ {
			f := g.Type().Field(i).Name
			x.Check(same(g.Field(i), w.Field(i)), "wrong value", "%s: %s is %.200v, want %.200v", desc, f, g.Field(i), w.Field(i))
		}
	}})

	add(&mc.Scenario{Name: "list/many", Prop: "C31", Tree: true, Doc: "documents of up to 5000 elements", Run: func(x *mc.X) {
		shape := shapes[x.Choose(len(shapes), "shape")]
		n := sizes[x.Choose(len(sizes), "elements")]
		doc, html := large(shape, n, val, key)
		p := page(x, "http://h.test/", html)
		desc := fmt.Sprintf("%s document of %d elements", shape, n)
		var xs, ys []*node
		for _, e := range doc.all() {
			switch e.name {
			case "x":
				xs = append(xs, e)
			case "y":
				ys = append(ys, e)
			}
		}
		ids := func(l ant.List) string {
			var b strings.Builder
			for i := range l {
				s, _ := l.At(i).Attr("id")
				b.WriteString(s + " ")
			}
			return b.String()
		}
		names := func(es []*node) string {
			var b strings.Builder
			for _, e := range es {
				fmt.Fprintf(&b, "n%d ", e.id)
			}
			return b.String()
		}
		x.NonTrivial()
		x.Step(n)
		l := p.Query("x")
		x.Obs("%s %d", desc, len(l))
		if !x.Check(len(l) == n && ids(l) == names(xs), "Query", "%s: Query(x) yields %d elements, or not in order", desc, len(l)) {
			return
		}
		for _, i := range []int{0, 1, n / 2, n - 1, n, n + 1, -1, -2, -n, -n - 1, 1 << 31, -1 << 31, 1<<63 - 1, -1 << 63} {
			got, j := l.At(i), i
			if i < 0 {
				j += n
			}
			if j < 0 || j >= n {
				x.Check(len(got) == 0, "At", "%s: At(%d) is not empty", desc, i)
				continue
			}
			x.Check(ids(got) == names(xs[j:j+1]), "At", "%s: At(%d) is [%s]", desc, i, ids(got))
		}
		text := ""
		for _, e := range xs {
			text += e.innerText()
		}
		x.Check(l.Text() == text, "Text", "%s: Text has %d bytes, want %d", desc, len(l.Text()), len(text))
		x.Check(p.Text("x") == text, "Text", "%s: Page.Text has %d bytes, want %d", desc, len(p.Text("x")), len(text))
		// Each element below several elements of the list.
		for _, sel := range []string{"x", "y", "x, y", "y x", "x x"} {
			r := p.Query(sel)
			count := 0
			for range r {
				count++
			}
			var want int
			for _, e := range append(append([]*node{}, xs...), ys...) {
				if match(e, sel) {
					want++
				}
			}
			x.Check(count == want, "Query", "%s: Query(%s) yields %d elements, want %d", desc, sel, count, want)
		}
		// Queries of many elements: each of them is queried.
		for _, q := range [][2]string{{"y", "x"}, {"x", "x"}, {"x", "y"}} {
			r := p.Query(q[0]).Query(q[1])
			want := 0
			for _, e := range append(append([]*node{}, xs...), ys...) {
				if e.name != q[1] {
					continue
				}
				// Once per element of the list that contains it, or is it.
				for a := e; a != nil; a = a.up {
					if a.name == q[0] {
						want++
					}
				}
			}
			x.Check(len(r) == want, "Query", "%s: Query(%s).Query(%s) yields %d elements, want %d", desc, q[0], q[1], len(r), want)
		}
		x.Check(l.Is(fmt.Sprintf("#n%d", xs[n-1].id)), "Is", "%s: the last element is not found", desc)
		x.Check(!l.Is("y"), "Is", "%s: there is no y", desc)
		// Every one of many selectors.
		for i := 0; i < n; i++ {
			r := p.Query(fmt.Sprintf("#n%d", xs[i].id))
			if !x.Check(len(r) == 1 && ids(r) == names(xs[i:i+1]), "Query", "%s: selector #n%d yields [%s]", desc, xs[i].id, ids(r)) {
				return
			}
			if n > 1000 && i == 50 {
				break
			}
		}
	}})

	add(&mc.Scenario{Name: "links/many", Prop: "C29", Tree: true, Doc: "documents of up to 5000 links", Run: func(x *mc.X) {
		n := sizes[x.Choose(len(sizes), "links")]
		bad := mc.Pick(x, "others", "none", "mail", "invalid", "same")
		pos := mc.Pick(x, "at", "start", "end", "every second", "all but the last")
		var b strings.Builder
		var want []string
		for i := 0; i < n; i++ {
			other := false
			switch pos {
			case "start":
				other = i < 20
			case "end":
				other = i >= n-20
			case "every second":
				other = i%2 == 1
			case "all but the last":
				other = i < n-1
			}
			href := fmt.Sprintf("p%d?q=%d", i, i)
			if other {
				switch bad {
				case "mail":
					href = "mailto:x@y"
				case "invalid":
					href = "%zz"
				case "same":
					href = "p"
				}
			}
			fmt.Fprintf(&b, "<div class=r%d><a class=c%d href='%s'>l</a></div>", i%2, i%2, href)
			if strings.HasPrefix(href, "p") {
				want = append(want, "http://h.test/d/"+href)
			}
		}
		p := page(x, "http://h.test/d/e", "<body>"+b.String())
		desc := fmt.Sprintf("%d links, others %s at %s", n, bad, pos)
		x.NonTrivial()
		x.Step(n)
		got := p.URLs()
		x.Obs("%s %d", desc, len(got))
		x.Check(fmt.Sprint(got) == fmt.Sprint(want) || len(got) == 0 && len(want) == 0, "URLs", "%s: %d URLs, want %d", desc, len(got), len(want))
		next, err := p.Next("div a")
		x.Check(err == nil && (fmt.Sprint(next) == fmt.Sprint(want) || len(next) == 0 && len(want) == 0), "Next", "%s: %d URLs, want %d (%v)", desc, len(next), len(want), err)
	}})

	add(&mc.Scenario{Name: "links/long", Prop: "C29", Tree: true, Doc: "links and bases of up to 70000 bytes", Run: func(x *mc.X) {
		n := mc.Pick(x, "length", 100, 130, 260, 600, 1030, 2060, 4200, 8300, 33000, 70000)
		fill := strings.Repeat("x", n)
		at := "http://h.test/d/e"
		var hrefs, want []string
		switch mc.Pick(x, "kind", "relative", "query", "absolute", "dots", "base", "spaces", "fragment") {
		case "relative":
			hrefs, want = []string{fill + "a", fill + "b"}, []string{"http://h.test/d/" + fill + "a", "http://h.test/d/" + fill + "b"}
		case "query":
			hrefs, want = []string{"?" + fill + "a", "c?" + fill + "b"}, []string{"http://h.test/d/e?" + fill + "a", "http://h.test/d/c?" + fill + "b"}
		case "absolute":
			hrefs, want = []string{"https://g/" + fill + "a", "//g/" + fill + "b", "/" + fill}, []string{"https://g/" + fill + "a", "http://g/" + fill + "b", "http://h.test/" + fill}
		case "dots":
			hrefs, want = []string{strings.Repeat("../", n) + "a", strings.Repeat("s/../", n) + "b"}, []string{"http://h.test/a", "http://h.test/d/b"}
		case "base":
			at = "http://h.test/" + fill + "/e?" + fill
			hrefs, want = []string{"a", "../b", "?c"}, []string{"http://h.test/" + fill + "/a", "http://h.test/b", "http://h.test/" + fill + "/e?c"}
		case "spaces":
			fill = strings.Repeat(" \n", n)
			hrefs, want = []string{fill + "a" + fill, fill + "b"}, []string{"http://h.test/d/a", "http://h.test/d/b"}
		case "fragment":
			hrefs, want = []string{"a#" + fill, "#" + fill}, []string{"http://h.test/d/a#" + fill, "http://h.test/d/e#" + fill}
		}
		var b strings.Builder
		for _, h := range hrefs {
			fmt.Fprintf(&b, "<a href=%q>l</a>", h)
		}
		html := strings.ReplaceAll("<body>"+b.String(), "\\n", "\n")
		p := page(x, at, html)
		x.NonTrivial()
		x.Step(len(hrefs))
		got := p.URLs()
		x.Obs("%d %d", n, len(got))
		x.Check(fmt.Sprint(got) == fmt.Sprint(want), "URLs", "links of %d bytes: %.200v, want %.200v", n, got, want)
		next, err := p.Next("a")
		x.Check(err == nil && fmt.Sprint(next) == fmt.Sprint(want), "Next", "links of %d bytes: %.200v, want %.200v (%v)", n, next, want, err)
	}})
	add(&mc.Scenario{Name: "json/many", Prop: "C33", Tree: true, Doc: "long lines and many of them", Run: func(x *mc.X) {
		type item struct {
			Xs []string `css:"x" json:"xs"`
			K  int      `css:"x@k"`
		}
		size := mc.Pick(x, "elements", 0, 1, 100, 5000)
		pages := mc.Pick(x, "pages", 1, 20, 300)
		text := mc.Pick(x, "text", 1, 100, 5000)
		if size*pages > 100000 || size*text*pages > 30000000 {
			x.Discard()
			return
		}
		_, html := large("flat", size, func(i int) string { return strings.Repeat("t", text) }, key)
		// Links of several selectors follow.
		links := mc.Pick(x, "links", 0, 100, 1500)
		if links > 0 && pages > 20 {
			x.Discard()
			return
		}
		var lb strings.Builder
		var want []string
		for _, sel := range []string{"b", "a"} {
			for i := 0; i < links; i++ {
				want = append(want, fmt.Sprintf("http://h.test/%s%d", sel, i))
			}
		}
		for i := 0; i < links; i++ {
			fmt.Fprintf(&lb, `<a class="a" href="/a%d"></a><a class="b" href="b%d"></a>`, i, i)
		}
		html = strings.Replace(html, "</body>", lb.String()+"</body>", 1)
		var out bytes.Buffer
		s := ant.JSON(&out, item{}, "a.b", "a.a")
		v := item{K: 0}
		for i := 0; i < size; i++ {
			v.Xs = append(v.Xs, strings.Repeat("t", text))
		}
		line, _ := json.Marshal(v)
		desc := fmt.Sprintf("%d pages of %d elements with %d bytes", pages, size, text)
		x.NonTrivial()
		x.Step(pages)
		for i := 0; i < pages; i++ {
			urls, err := s.Scrape(context.Background(), page(x, "http://h.test/", html))
			if !x.Check(err == nil && len(urls) == len(want), "scrape", "%s: %d URLs %v, want %d", desc, len(urls), err, len(want)) {
				return
			}
			for i, u := range urls {
				if !x.Check(u.String() == want[i], "scrape", "%s: URL %d is %s, want %s", desc, i, u, want[i]) {
					return
				}
			}
		}
		x.Obs("%s %d", desc, out.Len())
		x.Check(out.String() == strings.Repeat(string(line)+"\n", pages), "wrong lines", "%s: %d bytes written, want %d", desc, out.Len(), pages*(len(line)+1))
	}})
}
