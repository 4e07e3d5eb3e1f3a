package hscan

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/mc"
)

// site answers every request with one document.
type site struct{ url, doc string }

func (s site) Do(req *http.Request) (*http.Response, error) {
	final := *req
	u, err := url.Parse(s.url)
	if err != nil {
		return nil, err
	}
	final.URL = u
	return &http.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"text/html"}}, Body: io.NopCloser(strings.NewReader(s.doc)), ContentLength: int64(len(s.doc)), Request: &final}, nil
}

// page returns a page as the fetcher returns it.
func page(x *mc.X, final, doc string) *ant.Page {
	f := &ant.Fetcher{Client: site{final, doc}}
	u, _ := url.Parse("http://asked.test/")
	p, err := f.Fetch(context.Background(), u)
	if err != nil || p == nil {
		panic(fmt.Sprint("fetch: ", err))
	}
	return p
}

// node is an element of the reference document.
type node struct {
	id       int
	name     string
	attrs    [][2]string
	text     string // before the children
	tail     string // after the element
	comment  bool   // a comment with the text "9" after the text
	kids     []*node
	up       *node
	depth    int
	preorder int
}

func (n *node) html(b *bytes.Buffer) {
	fmt.Fprintf(b, "<%s", n.name)
	for _, a := range n.attrs {
		fmt.Fprintf(b, " %s=%q", a[0], a[1])
	}
	fmt.Fprintf(b, " id=n%d>%s", n.id, n.text)
	if n.comment {
		b.WriteString("<!--9-->")
	}
	for _, k := range n.kids {
		k.html(b)
	}
	fmt.Fprintf(b, "</%s>%s", n.name, n.tail)
}

func (n *node) attr(k string) (string, bool) {
	if n == nil {
		return "", false
	}
	if k == "id" {
		if n.id == 0 {
			return "", false
		}
		return fmt.Sprintf("n%d", n.id), true
	}
	for _, a := range n.attrs {
		if a[0] == k {
			return a[1], true
		}
	}
	return "", false
}

// innerText is the text of n, its own tail excluded.
func (n *node) innerText() string {
	if n == nil {
		return ""
	}
	s := n.text
	for _, k := range n.kids {
		s += k.innerText() + k.tail
	}
	return s
}

// all returns n and its descendants in document order.
func (n *node) all() (r []*node) {
	if n == nil {
		return nil
	}
	r = append(r, n)
	for _, k := range n.kids {
		r = append(r, k.all()...)
	}
	return r
}

// root is the document: html, head and body as the parser adds them.
type root struct {
	*node // the document itself: no element
	body  *node
}

// match tells whether n matches a selector of the small language that the
// scenarios use: alternatives separated by commas, each a sequence of compounds
// with descendant and child combinators.
func match(n *node, sel string) bool {
	for _, alt := range strings.Split(sel, ",") {
		if matchSeq(n, strings.Fields(alt)) {
			return true
		}
	}
	return false
}

func matchSeq(n *node, seq []string) bool {
	if n == nil || n.name == "" || !compound(n, seq[len(seq)-1]) {
		return false
	}
	seq = seq[:len(seq)-1]
	if len(seq) == 0 {
		return true
	}
	if seq[len(seq)-1] == ">" {
		return matchSeq(n.up, seq[:len(seq)-1])
	}
	for a := n.up; a != nil; a = a.up {
		if matchSeq(a, seq) {
			return true
		}
	}
	return false
}

func compound(n *node, c string) bool {
	if strings.HasSuffix(c, ":first-child") {
		if n.up == nil || n.up.kids[0] != n {
			return false
		}
		c = strings.TrimSuffix(c, ":first-child")
	}
	if i := strings.IndexByte(c, '['); i >= 0 {
		k, v, has := strings.Cut(strings.TrimSuffix(c[i+1:], "]"), "=")
		got, ok := n.attr(k)
		if !ok || has && got != v {
			return false
		}
		c = c[:i]
	}
	if i := strings.IndexByte(c, '#'); i >= 0 {
		if v, _ := n.attr("id"); v != c[i+1:] {
			return false
		}
		c = c[:i]
	}
	if i := strings.IndexByte(c, '.'); i >= 0 {
		v, _ := n.attr("class")
		if !strings.Contains(" "+v+" ", " "+c[i+1:]+" ") {
			return false
		}
		c = c[:i]
	}
	return c == "" || c == "*" || c == n.name
}

// find returns what sel selects in n, n included, in document order.
func find(n *node, sel string) (r []*node) {
	for _, k := range n.all() {
		if match(k, sel) {
			r = append(r, k)
		}
	}
	return r
}

// kind of a generated element.
type kind struct {
	name  string
	attrs [][2]string
	text  string
	tail  string
	com   bool
}

// forest chooses an ordered forest with up to max elements and wraps it in a
// document.
func forest(x *mc.X, max int, kinds []kind) (*root, string) {
	n := x.Choose(max+1, "elements")
	html := &node{name: "html"}
	head := &node{name: "head", up: html}
	body := &node{name: "body", up: html}
	html.kids = []*node{head, body}
	doc := &node{kids: []*node{html}}
	html.up = doc
	cur, depth := body, 0
	for i := 1; i <= n; i++ {
		if i > 1 {
			// The new element is a child of the last one or of one of its ancestors.
			up := x.Choose(depth+1, "depth")
			for ; up > 0; up-- {
				cur, depth = cur.up, depth-1
			}
		}
		k := kinds[x.Choose(len(kinds), "kind")]
		e := &node{id: i, name: k.name, attrs: k.attrs, text: k.text, tail: k.tail, comment: k.com, up: cur}
		cur.kids = append(cur.kids, e)
		cur, depth = e, depth+1
	}
	var b bytes.Buffer
	b.WriteString("<html><head></head><body>")
	for _, k := range body.kids {
		k.html(&b)
	}
	b.WriteString("</body></html>")
	return &root{doc, body}, b.String()
}
