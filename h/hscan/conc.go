package hscan

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"sync/atomic"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/mc"
)

// slowBody delivers a document in pieces, with scheduling points.
type slowBody struct {
	x      *mc.X
	parts  []string
	err    error
	reads  int
	inside int
	eofs   int
	closes int
}

func (b *slowBody) Read(p []byte) (int, error) {
	if b.inside++; b.inside > 1 {
		b.x.Fail("concurrent reads", "the body is read by two goroutines at once")
	}
	b.x.Point("read")
	b.inside--
	b.reads++
	if b.closes > 0 {
		return 0, http.ErrBodyReadAfterClose
	}
	if len(b.parts) == 0 {
		if b.err != nil {
			return 0, b.err
		}
		b.eofs++
		return 0, io.EOF
	}
	n := copy(p, b.parts[0])
	if b.parts[0] = b.parts[0][n:]; b.parts[0] == "" {
		b.parts = b.parts[1:]
	}
	return n, nil
}

func (b *slowBody) Close() error {
	b.x.Point("close")
	b.closes++
	return nil
}

type slowSite struct {
	url  string
	body *slowBody
}

func (s slowSite) Do(req *http.Request) (*http.Response, error) {
	u, _ := url.Parse(s.url)
	final := *req
	final.URL = u
	return &http.Response{StatusCode: 200, Header: http.Header{}, Body: s.body, ContentLength: -1, Request: &final}, nil
}

func slowPage(x *mc.X, final, doc string, err error) (*ant.Page, *slowBody) {
	b := &slowBody{x: x, parts: []string{doc[:len(doc)/2], doc[len(doc)/2:]}, err: err}
	f := &ant.Fetcher{Client: slowSite{final, b}}
	u, _ := url.Parse("http://asked.test/")
	p, ferr := f.Fetch(context.Background(), u)
	if ferr != nil || p == nil {
		panic(fmt.Sprint("fetch: ", ferr))
	}
	return p, b
}

var serial atomic.Int64

// data of a page.
type data struct {
	title string
	links []string
}

func (d data) html() string {
	s := "<html><head></head><body><x>" + d.title + "</x>"
	for _, l := range d.links {
		s += `<a class="c" href="` + l + `">` + d.title + l + "</a>"
	}
	return s + "</body></html>"
}

// shape makes a struct type with the selectors given: new to the scanner if
// they are.
func shape(x, a string) reflect.Type {
	return reflect.StructOf([]reflect.StructField{
		{Name: "Title", Type: reflect.TypeOf(""), Tag: reflect.StructTag(`css:"` + x + `"`)},
		{Name: "Links", Type: reflect.TypeOf([]string{}), Tag: reflect.StructTag(`css:"` + a + `@href"`)},
		{Name: "Sub", Type: reflect.StructOf([]reflect.StructField{
			{Name: "A", Type: reflect.TypeOf(""), Tag: reflect.StructTag(`css:"` + a + `"`)},
		}), Tag: `css:"body"`},
	})
}

func init() {
	// Each goroutine performs a sequence of operations on pages P and R.
	type cfg struct {
		name  string
		procs []string
		cold  bool
		bad   bool // reading P fails
		q, th mc.Bound
		fine  bool
	}
	q2, t3 := mc.Bound{Dev: 2, Policies: 3}, mc.Bound{Dev: 3, Policies: 3}
	q1 := mc.Bound{Dev: 1, Policies: 3}
	cfgs := []cfg{
		{name: "same page", procs: []string{"PQ PU", "PH PS", "PT"}, cold: true, q: q2, th: t3},
		{name: "same page, fine", procs: []string{"PQ", "PS"}, cold: true, q: q2, th: t3, fine: true},
		{name: "same page, documents", procs: []string{"PD", "PD", "PH"}, cold: false, q: q2, th: t3},
		{name: "same page, scans", procs: []string{"PS", "PS", "PS"}, cold: true, q: q2, th: t3},
		{name: "same page, mixed", procs: []string{"PS PQ", "PQ PS"}, cold: true, q: q2, th: t3, fine: true},
		{name: "two pages", procs: []string{"PS PQ", "RS RQ"}, cold: true, q: q2, th: t3, fine: true},
		{name: "two pages, other types", procs: []string{"PS Ps", "Rs RS"}, cold: true, q: q2, th: t3, fine: true},
		{name: "two pages, warm", procs: []string{"PS RQ PU", "RS PQ RH"}, cold: false, q: q2, th: t3},
		{name: "three scanners", procs: []string{"PS", "Rs", "PB"}, cold: true, q: q1, th: mc.Bound{Dev: 2, Policies: 3}, fine: true},
		{name: "bad types and selectors", procs: []string{"PB PS", "PS Pq", "Pq PB"}, cold: true, q: q2, th: t3},
		{name: "lists", procs: []string{"PL PL", "PL", "PN"}, cold: true, q: q2, th: t3},
		{name: "unreadable page", procs: []string{"PD PQ", "PS PH", "PD"}, cold: true, bad: true, q: q2, th: t3},
	}
	for _, c := range cfgs {
		c := c
		add(&mc.Scenario{Name: "concurrent/" + c.name, Prop: "C32", Quick: c.q, Thorough: c.th, Fine: c.fine, FineFiles: []string{"page.go", "scanner.go", "selectors.go", "scan.go", "slice.go", "struct.go", "list.go"}, Run: func(x *mc.X) {
			selX, selA := "x", "a.c"
			if c.cold {
				n := serial.Add(1)
				selX, selA = fmt.Sprintf("x, .u%d", n), fmt.Sprintf("a.c, .v%d", n)
			}
			typ, typ2 := shape(selX, selA), shape(selA, selX)
			bad := reflect.StructOf([]reflect.StructField{{Name: "B", Type: reflect.TypeOf(true), Tag: reflect.StructTag(`css:"` + selX + `"`)}})
			docs := map[byte]data{'P': {"pp", []string{"/1", "/2"}}, 'R': {"rr", []string{"/3"}}}
			var readErr error
			if c.bad {
				readErr = errors.New("connection lost")
			}
			pages, bodies := map[byte]*ant.Page{}, map[byte]*slowBody{}
			pages['P'], bodies['P'] = slowPage(x, "http://p.test/", docs['P'].html(), readErr)
			pages['R'], bodies['R'] = slowPage(x, "http://r.test/", docs['R'].html(), nil)
			x.NonTrivial()
			used := map[byte]bool{}
			docOf := map[byte]any{}
			for i, ops := range c.procs {
				ops := ops
				x.Go(fmt.Sprint("user", i), func() {
					for _, op := range strings.Fields(ops) {
						p, d := pages[op[0]], docs[op[0]]
						used[op[0]] = true
						failed := c.bad && op[0] == 'P'
						text := ""
						for _, l := range d.links {
							text += d.title + l
						}
						switch op[1] {
						case 'Q', 'T':
							got := p.Text(selA)
							if op[1] == 'Q' {
								got = p.Query(selA).Text()
							}
							if failed {
								text = ""
							}
							x.Check(got == text, "wrong result", "%s: %q, want %q", op, got, text)
						case 'q':
							got := p.Query("[")
							x.Check(len(got) == 0, "wrong result", "%s: %q", op, got)
						case 'U':
							got, want := fmt.Sprint(p.URLs()), ""
							for _, l := range d.links {
								want += " " + strings.TrimSuffix(p.URL.String(), "/") + l
							}
							want = "[" + strings.TrimPrefix(want, " ") + "]"
							x.Check(got == want || failed && got == "[]", "wrong result", "%s: %q, want %q", op, got, want)
						case 'H':
							got, err := p.HTML()
							if failed {
								x.Check(err != nil && errors.Is(err, readErr), "no error", "%s: %v", op, err)
							} else {
								x.Check(err == nil && got == d.html(), "wrong result", "%s: %q %v, want %q", op, got, err, d.html())
							}
						case 'D':
							got, err := p.Document()
							if failed {
								x.Check(err != nil && errors.Is(err, readErr), "no error", "%s: %v", op, err)
							} else {
								x.Check(err == nil && got != nil, "no document", "%s: %v", op, err)
								if was, ok := docOf[op[0]]; ok {
									x.Check(was == any(got), "parsed twice", "%s: another document", op)
								}
								docOf[op[0]] = got
							}
						case 'S', 's':
							v := reflect.New(typ)
							if op[1] == 's' {
								v = reflect.New(typ2)
							}
							err := p.Scan(v.Interface())
							if failed {
								x.Check(err != nil && errors.Is(err, readErr), "no error", "%s: %v", op, err)
								break
							}
							want := fmt.Sprintf("{%s [%s] {%s}}", d.title, strings.Join(d.links, " "), d.title+d.links[0])
							if op[1] == 's' {
								want = fmt.Sprintf("{%s [] {%s}}", d.title+d.links[0], d.title)
							}
							got := fmt.Sprint(v.Elem())
							if op[1] == 's' {
								got = strings.Replace(got, "[ ]", "[]", 1)
							}
							x.Check(err == nil && got == want, "wrong result", "%s: %s %v, want %s", op, got, err, want)
						case 'B':
							err := p.Scan(reflect.New(bad).Interface())
							x.Check(err != nil, "no error", "%s: unsupported type accepted", op)
						case 'L', 'N':
							var l ant.List = p.Query("body")
							if op[1] == 'N' {
								v := reflect.New(typ)
								err := l.Scan(v.Interface())
								want := fmt.Sprintf("{%s [%s] {%s}}", d.title, strings.Join(d.links, " "), d.title+d.links[0])
								x.Check(err == nil && fmt.Sprint(v.Elem()) == want, "wrong result", "%s: %v %v, want %s", op, v.Elem(), err, want)
								break
							}
							got := l.Query(selA).At(-1).Text()
							x.Check(got == d.title+d.links[len(d.links)-1] && l.Query(selX).Is(selX), "wrong result", "%s: %q", op, got)
						}
					}
				})
			}
			if !x.Finish() {
				return
			}
			for k, b := range bodies {
				if !used[k] {
					continue
				}
				x.Check(b.closes > 0, "not closed", "the body of %c is not closed", k)
				x.Check(b.eofs >= 1 || c.bad, "not drained", "the body of %c was not read to the end", k)
			}
		}})
	}

	// Every sequence of selectors.
	add(&mc.Scenario{Name: "json/select", Prop: "C33", Tree: true, Run: func(x *mc.X) {
		type item struct {
			T string `css:"x"`
		}
		html := mc.Pick(x, "document", "", "<x>t</x><a class=c href=/1>1</a><y><a href=/2>2</a><a class=c href=3>3</a></y><a class=e>4</a><a class=c href='mailto:x'>5</a>", "<a href=/9>9</a>")
		links := map[string]string{"a": "http://h.test/1 http://h.test/2 http://h.test/d/3", "a.c": "http://h.test/1 http://h.test/d/3", "y > a": "http://h.test/2 http://h.test/d/3", "a:not(.c)": "http://h.test/2"}
		if strings.Contains(html, "9") {
			links = map[string]string{"a": "http://h.test/9", "a:not(.c)": "http://h.test/9"}
		}
		if html == "" {
			links = nil
		}
		all := []string{"a", "a.c", "y > a", "a:not(.c)", "a.e", "z", "x", "a["}
		var sel, want []string
		for i, n := 0, x.Choose(5, "selectors"); i < n; i++ {
			s := all[x.Choose(len(all), "selector")]
			sel = append(sel, s)
			want = append(want, strings.Fields(links[s])...)
		}
		if len(sel) == 0 {
			want = strings.Fields(links["a"])
		}
		var out bytes.Buffer
		got, err := ant.JSON(&out, item{}, sel...).Scrape(context.Background(), page(x, "http://h.test/d/e", html))
		x.NonTrivial()
		x.Step(1)
		x.State(fmt.Sprint(sel, html == ""))
		x.Obs("%q: %v", sel, got)
		x.Check(err == nil, "error", "%q of %s: %v", sel, html, err)
		x.Check(fmt.Sprint(got) == fmt.Sprint(want), "wrong URLs", "the selectors %q select %v of %s, want %v", sel, got, html, want)
	}})

	// The JSON scraper.
	type jcfg struct {
		name      string
		procs     []string // pages scraped in sequence
		selectors []string
		ptr       bool
		fault     int // this write fails
		q, th     mc.Bound
		fine      bool
	}
	jcfgs := []jcfg{
		{name: "two", procs: []string{"PR", "R"}, q: q2, th: t3},
		{name: "three", procs: []string{"P", "R", "S"}, q: q2, th: t3},
		{name: "fine", procs: []string{"P", "R"}, q: q2, th: t3, fine: true},
		{name: "same page", procs: []string{"P", "P"}, q: q2, th: t3},
		{name: "selectors", procs: []string{"P", "SR"}, selectors: []string{"a.c", "a"}, q: q2, th: t3},
		{name: "selectors without links", procs: []string{"P", "S"}, selectors: []string{"x", "["}, q: q1, th: t3},
		{name: "pointer", procs: []string{"P", "R"}, ptr: true, q: q1, th: t3},
		{name: "first write fails", procs: []string{"P", "R"}, fault: 1, q: q2, th: t3},
		{name: "second write fails", procs: []string{"PS", "R"}, fault: 2, q: q2, th: t3},
	}
	type item struct {
		Title string   `css:"x" json:"title"`
		Links []string `css:"a.c@href" json:"links,omitempty"`
		Skip  int      `json:"-"`
	}
	for _, c := range jcfgs {
		c := c
		add(&mc.Scenario{Name: "json/" + c.name, Prop: "C33", Quick: c.q, Thorough: c.th, Fine: c.fine, FineFiles: []string{"json.go", "page.go"}, Run: func(x *mc.X) {
			docs := map[byte]data{'P': {"p<&>\n\"p", []string{"/1", "/2"}}, 'R': {"r", []string{"/3"}}, 'S': {"", nil}}
			pages := map[byte]*ant.Page{}
			urls, links := map[byte][]string{}, map[byte][]string{}
			for _, k := range []byte("PRS") {
				d := docs[k]
				base := "http://" + strings.ToLower(string(k)) + ".test/"
				h := d.html()
				h = strings.Replace(h, "<x>"+d.title+"</x>", "<x>"+strings.NewReplacer("&", "&amp;", "<", "&lt;").Replace(d.title)+"</x>", 1)
				h = strings.Replace(h, "</body>", `<a href="/plain">plain</a></body>`, 1)
				pages[k], _ = slowPage(x, base, h, nil)
				for _, l := range d.links {
					links[k] = append(links[k], strings.TrimSuffix(base, "/")+l)
				}
				urls[k] = append(append([]string{}, links[k]...), base+"plain")
			}
			next := map[byte]string{}
			for k := range pages {
				var w []string
				switch {
				case len(c.selectors) == 0:
					w = urls[k]
				case c.selectors[0] == "a.c":
					w = append(append(w, links[k]...), urls[k]...)
				}
				next[k] = fmt.Sprint(w)
			}
			w := &jsonWriter{x: x, fault: c.fault}
			x.NonTrivial()
			var t any = item{}
			if c.ptr {
				t = &item{}
			}
			scraper := ant.JSON(w, t, c.selectors...)
			lines := map[string]int{}
			failed := 0
			for i, seq := range c.procs {
				seq := seq
				x.Go(fmt.Sprint("worker", i), func() {
					for _, k := range []byte(seq) {
						got, err := scraper.Scrape(context.Background(), pages[k])
						if err != nil {
							failed++
							x.Check(errors.Is(err, errWrite), "wrong error", "%c: %v", k, err)
							continue
						}
						x.Check(fmt.Sprint(got) == next[k], "wrong URLs", "%c: %v, want %s", k, got, next[k])
						b, _ := json.Marshal(item{docs[k].title, docs[k].links, 0})
						lines[string(b)]++
					}
				})
			}
			if !x.Finish() {
				return
			}
			x.Obs("%d failed", failed)
			x.Check((failed > 0) == (w.failed > 0), "swallowed", "%d writes failed, %d scrapes did", w.failed, failed)
			if c.fault == 0 {
				x.Check(strings.HasSuffix(w.buf.String(), "\n"), "no newline", "%q", w.buf.String())
			}
			have := map[string]int{}
			for _, l := range strings.Split(strings.TrimSuffix(w.buf.String(), "\n"), "\n") {
				have[l]++
			}
			for l, n := range lines {
				x.Check(have[l] == n, "wrong lines", "%q is there %d times, want %d: %q", l, have[l], n, w.buf.String())
			}
			if c.fault == 0 {
				x.Check(len(have) == len(lines), "wrong lines", "%q", w.buf.String())
			}
		}})
	}

	// Pages of all kinds, one at a time.
	add(&mc.Scenario{Name: "json/pages", Prop: "C33", Tree: true, Run: func(x *mc.X) {
		_, html := forest(x, 3, kinds[:6])
		type full struct {
			X  string   `css:"x" json:"x"`
			Y  int      `css:"y"`
			F  float64  `css:"y@k"`
			Xs []string `css:"x"`
			B  []byte   `css:"y" json:"b"`
			Ns []inner  `css:"x" json:"ns,omitempty"`
			U  string
		}
		w := &jsonWriter{x: x}
		s := ant.JSON(w, full{U: "template"})
		want := ""
		n := x.Choose(2, "pages") + 1
		for i := 0; i < n; i++ {
			p := page(x, "http://h.test/", html)
			var v full
			if err := page(x, "http://h.test/", html).Scan(&v); err != nil {
				x.Fail("scan", "%v", err)
				return
			}
			b, err := json.Marshal(v)
			if err != nil {
				x.Fail("marshal", "%v", err)
				return
			}
			want += string(b) + "\n"
			urls, err := s.Scrape(context.Background(), p)
			x.Check(err == nil && len(urls) == 0, "scrape", "%v %v", urls, err)
		}
		x.State(want)
		x.Step(1)
		x.NonTrivial()
		x.Obs("%s", want)
		x.Check(w.buf.String() == want, "wrong line", "%s yields %q, want %q", html, w.buf.String(), want)
	}})

	// Anything but a struct is an error, as documented, and so is what cannot
	// be scanned or encoded.
	add(&mc.Scenario{Name: "json/refused", Prop: "C33", Tree: true, Run: func(x *mc.X) {
		type notEncodable struct {
			F float64 `css:"x"`
		}
		type refused struct {
			name string
			t    any
		}
		s := []refused{
			{"string", ""}, {"int", 1}, {"pointer to string", new(string)}, {"slice", []string{}}, {"slice of structs", []item{}}, {"bytes", []byte{}},
			{"map", map[string]string{}}, {"nil", nil}, {"no tags", struct{ A string }{}}, {"bad selector", struct {
				A string `css:"["`
			}{}}, {"pointer to pointer", new(*item)}, {"unsupported field", struct {
				A string `css:"x"`
				B bool   `css:"x"`
			}{}}, {"not encodable", notEncodable{}}, {"float", 1.5},
		}
		c := s[x.Choose(len(s), "type")]
		sel := mc.Pick(x, "selectors", 0, 1)
		w := &jsonWriter{x: x}
		x.NonTrivial()
		var sc ant.Scraper
		if sel == 0 {
			sc = ant.JSON(w, c.t)
		} else {
			sc = ant.JSON(w, c.t, "a")
		}
		for i := 0; i < 2; i++ {
			_, err := sc.Scrape(context.Background(), page(x, "http://h.test/", `<x>NaN</x><a href="/">a</a>`))
			x.Obs("%s", c.name)
			x.Check(err != nil, "accepted", "JSON of a %s scrapes without error", c.name)
			x.Check(w.buf.Len() == 0, "output", "JSON of a %s writes %q", c.name, w.buf.String())
		}
	}})
}

var errWrite = errors.New("disk full")

// jsonWriter writes in two steps.
type jsonWriter struct {
	x      *mc.X
	buf    strings.Builder
	inside int
	writes int
	fault  int
	failed int
}

func (w *jsonWriter) Write(p []byte) (int, error) {
	if w.inside++; w.inside > 1 {
		w.x.Fail("concurrent writes", "two goroutines write at once")
	}
	defer func() { w.inside-- }()
	w.writes++
	if strings.Count(string(p), "\n") != 1 || p[len(p)-1] != '\n' {
		w.x.Obs("split write")
	}
	h := len(p) / 2
	if w.fault > 0 {
		w.x.Point("write")
	}
	w.buf.Write(p[:h])
	if w.writes == w.fault {
		w.failed++
		return h, errWrite
	}
	w.x.Point("write")
	w.buf.Write(p[h:])
	return len(p), nil
}
