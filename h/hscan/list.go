package hscan

import (
	"fmt"
	"strings"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/mc"
)

var listKinds = []kind{
	{name: "x", attrs: [][2]string{{"class", "c"}}, text: "a"},
	{name: "x", text: "b\n", tail: "\tt"},
	{name: "y", attrs: [][2]string{{"class", "c d"}, {"k", "v"}}},
	{name: "y", attrs: [][2]string{{"k", ""}}, text: " e ", com: true, tail: "f"},
}

var listSelectors = []string{"x", "y", ".c", "x y", "y > x", "x, y", "[k]", "y[k=v]", ".c.d", "*", "#n2", "x:first-child", "body > x", "none", "", "[", "x >", "--"}

var badSelectors = map[string]bool{"": true, "[": true, "x >": true, "--": true}

// ids names the elements of a list.
func ids(l ant.List) string {
	var s []string
	for _, n := range l {
		id := n.Data
		for _, a := range n.Attr {
			if a.Key == "id" {
				id = a.Val
			}
		}
		s = append(s, id)
	}
	return strings.Join(s, " ")
}

func names(l []*node) string {
	var s []string
	for _, n := range l {
		if id, ok := n.attr("id"); ok {
			s = append(s, id)
		} else {
			s = append(s, n.name)
		}
	}
	return strings.Join(s, " ")
}

func query(l []*node, sel string) (r []*node) {
	if badSelectors[sel] {
		return nil
	}
	for _, n := range l {
		for _, k := range n.all() {
			if matchAlt(k, sel) {
				r = append(r, k)
			}
		}
	}
	return r
}

// matchAlt also knows compounds of several classes.
func matchAlt(n *node, sel string) bool {
	if sel == ".c.d" {
		return match(n, ".c") && match(n, ".d")
	}
	return match(n, sel)
}

func init() {
	run := func(max, lists int) func(x *mc.X) {
		return func(x *mc.X) {
			doc, html := forest(x, max, listKinds)
			p := page(x, "http://h.test/", html)
			elems := doc.body.all()
			real := p.Query("body, body *")
			if !x.Check(ids(real) == names(elems), "Query", "all elements of %s: %q, want %q", html, ids(real), names(elems)) {
				return
			}
			before, err := p.HTML()
			x.Check(err == nil, "HTML", "%v", err)
			if len(elems) > 2 {
				x.NonTrivial()
			}

			// The list: up to two elements, in any order.
			var l ant.List
			var m []*node
			for i := 0; i < lists; i++ {
				k := x.Choose(len(elems)+1, "element")
				if k == 0 {
					break
				}
				l = append(l, real[k-1])
				m = append(m, elems[k-1])
			}
			was := append(ant.List{}, l...)
			x.State(html + names(m))
			x.Step(1)

			switch op := x.Choose(8, "operation"); op {
			case 0: // Query
				sel := listSelectors[x.Choose(len(listSelectors), "selector")]
				got, want := l.Query(sel), query(m, sel)
				x.Obs("query %d", len(got))
				x.Check(ids(got) == names(want), "Query", "[%s].Query(%q) of %s is [%s], want [%s]", names(m), sel, html, ids(got), names(want))
				if badSelectors[sel] {
					x.Check(len(got) == 0, "Query", "invalid selector %q", sel)
				}
			case 1: // Is
				sel := listSelectors[x.Choose(len(listSelectors), "selector")]
				want := false
				for _, n := range m {
					want = want || !badSelectors[sel] && matchAlt(n, sel)
				}
				got := l.Is(sel)
				x.Obs("is %v", got)
				x.Check(got == want, "Is", "[%s].Is(%q) of %s is %v", names(m), sel, html, got)
			case 2: // At
				i := x.Choose(11, "index") - 5
				var want []*node
				if j := i; j >= 0 && j < len(m) {
					want = m[j : j+1]
				} else if j += len(m); i < 0 && j >= 0 {
					want = m[j : j+1]
				}
				got := l.At(i)
				x.Obs("at %d", len(got))
				x.Check(ids(got) == names(want), "At", "[%s].At(%d) is [%s], want [%s]", names(m), i, ids(got), names(want))
				if len(got) > 0 {
					got[0] = nil // another list
				}
			case 3: // Text
				want := ""
				for _, n := range m {
					want += n.innerText()
				}
				got := l.Text()
				x.Obs("text %q", got)
				x.Check(got == want, "Text", "[%s].Text() of %s is %q, want %q", names(m), html, got, want)
			case 4: // Attr
				k := mc.Pick(x, "attribute", "k", "class", "id", "none", "")
				want, wok := "", false
				if len(m) > 0 {
					want, wok = m[0].attr(k)
				}
				got, ok := l.Attr(k)
				x.Obs("attr %q %v", got, ok)
				x.Check(got == want && ok == wok, "Attr", "[%s].Attr(%q) of %s is %q %v, want %q %v", names(m), k, html, got, ok, want, wok)
			case 5: // Scan
				dst := struct {
					X string `css:"x"`
					K string `css:"y@k"`
				}{"-", "-"}
				want := dst
				if len(m) > 0 {
					want.X, want.K = "", ""
					if r := query(m[:1], "x"); len(r) > 0 {
						want.X = r[0].innerText()
					}
					if r := query(m[:1], "y"); len(r) > 0 {
						want.K, _ = r[0].attr("k")
					}
				}
				err := l.Scan(&dst)
				x.Check(err == nil && dst == want, "Scan", "[%s].Scan of %s is %+v %v, want %+v", names(m), html, dst, err, want)
			case 6: // the page's own Query and Text
				sel := listSelectors[x.Choose(len(listSelectors), "selector")]
				want := query([]*node{doc.kids[0]}, sel)
				got := p.Query(sel)
				x.Check(ids(got) == names(want), "Page.Query", "Query(%q) of %s is [%s], want [%s]", sel, html, ids(got), names(want))
				text := ""
				for _, n := range want {
					text += n.innerText()
				}
				t := p.Text(sel)
				x.Obs("page %d %q", len(got), t)
				x.Check(t == text, "Page.Text", "Text(%q) of %s is %q, want %q", sel, html, t, text)
			case 7: // chains
				a := listSelectors[x.Choose(6, "selector")]
				b := listSelectors[x.Choose(6, "selector")]
				i := x.Choose(4, "index") - 2
				w := query(query(m, a), b)
				if i < 0 && len(w)+i >= 0 {
					w = w[len(w)+i : len(w)+i+1]
				} else if i >= 0 && i < len(w) {
					w = w[i : i+1]
				} else {
					w = nil
				}
				g := l.Query(a).Query(b).At(i)
				x.Obs("chain %d", len(g))
				x.Check(ids(g) == names(w), "chain", "[%s].Query(%q).Query(%q).At(%d) of %s is [%s], want [%s]", names(m), a, b, i, html, ids(g), names(w))
			}
			x.Check(fmt.Sprint(was) == fmt.Sprint(l), "list changed", "[%s] became [%s]", ids(was), ids(l))
			after, err := p.HTML()
			x.Check(err == nil && before == after, "document changed", "%s became %s (%v)", before, after, err)
		}
	}
	add(&mc.Scenario{Name: "list/2", Prop: "C31", Tree: true, Run: run(2, 3)})
	add(&mc.Scenario{Name: "list/3", Prop: "C31", Tree: true, Run: run(3, 2)})
	add(&mc.Scenario{Name: "list/4", Prop: "C31", Tree: true, Quick: mc.Bound{Skip: true}, Thorough: mc.Bound{Dev: 1}, Run: run(4, 2)})
}
