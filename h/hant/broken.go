package hant

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/mc"
)

// cutBody delivers data in pieces, and then an error.
type cutBody struct {
	data   string
	size   int  // of a piece
	empty  bool // reads that yield nothing in between
	with   bool // the last piece comes with the error
	err    error
	flip   bool
	closed int
	after  bool
}

func (c *cutBody) Read(p []byte) (int, error) {
	if c.closed > 0 {
		c.after = true
		return 0, errors.New("read after close")
	}
	if c.data == "" {
		return 0, c.err
	}
	if c.flip = !c.flip; c.flip && c.empty {
		return 0, nil
	}
	n := min(c.size, len(p), len(c.data))
	copy(p, c.data[:n])
	if c.data = c.data[n:]; c.data == "" && c.with {
		return n, c.err
	}
	return n, nil
}

func (c *cutBody) Close() error { c.closed++; return nil }

type brokenItem struct {
	T  string   `css:"b" json:"t"`
	Ls []string `css:"a@href" json:"ls"`
}

// pageOps are the methods of a page: what they yield, and how they fail. The
// ones without an error yield nothing when the page cannot be read.
var pageOps = []struct {
	name   string
	noErr  bool
	result func(p *ant.Page) (string, error)
}{
	{"Document", false, func(p *ant.Page) (string, error) {
		n, err := p.Document()
		if n == nil {
			return "", err
		}
		var b strings.Builder
		for k := range n.Descendants() {
			fmt.Fprintf(&b, "%d %s %v|", k.Type, k.Data, k.Attr)
		}
		return b.String(), err
	}},
	{"HTML", false, func(p *ant.Page) (string, error) { return p.HTML() }},
	{"Scan", false, func(p *ant.Page) (string, error) {
		var v brokenItem
		err := p.Scan(&v)
		return fmt.Sprint(v.T, v.Ls), err
	}},
	{"Next", false, func(p *ant.Page) (string, error) {
		l, err := p.Next("a")
		return fmt.Sprint(l), err
	}},
	{"JSON", false, func(p *ant.Page) (string, error) {
		var b bytes.Buffer
		l, err := ant.JSON(&b, brokenItem{}).Scrape(context.Background(), p)
		if err != nil && (b.Len() > 0 || len(l) > 0) {
			return fmt.Sprintf("%s %s", b.String(), l), nil
		}
		return fmt.Sprintf("%s %s", b.String(), l), err
	}},
	{"JSON, selectors", false, func(p *ant.Page) (string, error) {
		var b bytes.Buffer
		l, err := ant.JSON(&b, &brokenItem{}, "a", "b").Scrape(context.Background(), p)
		if err != nil && (b.Len() > 0 || len(l) > 0) {
			return fmt.Sprintf("%s %s", b.String(), l), nil
		}
		return fmt.Sprintf("%s %s", b.String(), l), err
	}},
	{"Query", true, func(p *ant.Page) (string, error) {
		var b strings.Builder
		for _, n := range p.Query("*") {
			b.WriteString(n.Data + " ")
		}
		return b.String(), nil
	}},
	{"Text", true, func(p *ant.Page) (string, error) { return p.Text("b"), nil }},
	{"URLs", true, func(p *ant.Page) (string, error) {
		if l := p.URLs(); len(l) > 0 {
			return fmt.Sprint(l), nil
		}
		return "", nil
	}},
}

var brokenDocs = []string{
	`<html><head><title>t</title></head><body><b>x</b><a href="/y">z</a></body></html>`,
	`<b>é&amp;</b><!--c--><a href='//i/?q&amp;r'>`,
	`<script>if (a<b) {}</script><b>v`,
	``,
	`<textarea><b></textarea><a href=x>`,
	"\xef\xbb\xbf<b>\x00\xff</b>\r\n",
}

func init() {
	fetch := func(x *mc.X, c *cutBody) *ant.Page {
		f := &ant.Fetcher{Client: doFunc(func(r *http.Request) (*http.Response, error) {
			return &http.Response{StatusCode: 200, Status: "200 OK", Header: http.Header{}, Body: c, ContentLength: -1, Request: r}, nil
		})}
		u, _ := url.Parse(base + "p")
		p, err := f.Fetch(context.Background(), u)
		if err != nil || p == nil {
			x.Fail("fetch", "%v %v", p, err)
			x.Discard()
		}
		return p
	}
	shape := func(x *mc.X, c *cutBody) string {
		c.size = mc.Pick(x, "size", 1<<20, 1, 2, 5)
		c.empty = x.Flag("empty reads")
		c.with = x.Flag("last piece with the end")
		return fmt.Sprintf("pieces of %d, empty reads: %v, last piece with the end: %v", c.size, c.empty, c.with)
	}

	// The body ends with an error after every number of bytes.
	add(&mc.Scenario{Name: "page/broken", Prop: "C40", Tree: true, Run: func(x *mc.X) {
		doc := brokenDocs[x.Choose(len(brokenDocs), "document")]
		cut := x.Choose(len(doc)+1, "cut")
		boom := mc.Pick(x, "error", io.ErrUnexpectedEOF, errBoom, context.DeadlineExceeded)
		c := &cutBody{data: doc[:cut], err: boom}
		how := shape(x, c)
		p := fetch(x, c)
		x.NonTrivial()
		for i, n := 0, 2; i < n; i++ {
			op := pageOps[x.Choose(len(pageOps), "op")]
			got, err := op.result(p)
			x.State(fmt.Sprint(op.name, got, err))
			x.Obs("%d %s", i, op.name)
			x.Step(1)
			if op.noErr {
				x.Check(got == "", "partial page", "%s yields %q after %d of %d bytes of %q and then %v (%s)", op.name, got, cut, len(doc), doc, boom, how)
			} else {
				x.Check(errors.Is(err, boom), "partial page", "%s yields %q, %v after %d of %d bytes of %q and then %v (%s)", op.name, got, err, cut, len(doc), doc, boom, how)
			}
			x.Check(c.closed > 0, "left open", "%s leaves the body of a broken page open", op.name)
			x.Check(!c.after, "read after close", "%s reads the body after closing it", op.name)
		}
	}})

	// However a complete body arrives, the page is the same.
	add(&mc.Scenario{Name: "page/pieces", Prop: "C40", Tree: true, Run: func(x *mc.X) {
		doc := brokenDocs[x.Choose(len(brokenDocs), "document")]
		if x.Flag("long") {
			doc = strings.Repeat("<i>"+strings.Repeat("x", 1021)+"</i>", 5) + doc + strings.Repeat("<i>"+strings.Repeat("y", 1021)+"</i>", 5)
		}
		c := &cutBody{data: doc, err: io.EOF}
		how := shape(x, c)
		p := fetch(x, c)
		ref := fetch(x, &cutBody{data: doc, err: io.EOF, size: 1 << 20})
		x.NonTrivial()
		for i, n := 0, 2; i < n; i++ {
			op := pageOps[x.Choose(len(pageOps), "op")]
			got, err := op.result(p)
			want, werr := op.result(ref)
			x.State(fmt.Sprint(op.name, got, err))
			x.Obs("%d %s", i, op.name)
			x.Step(1)
			x.Check(err == nil && werr == nil, "refused", "%s of %q (%s): %v, %v", op.name, doc, how, err, werr)
			x.Check(got == want, "depends on the pieces", "%s of %q (%s) yields %q, want %q", op.name, doc, how, got, want)
			x.Check(c.closed > 0, "left open", "%s leaves the body open", op.name)
			x.Check(!c.after, "read after close", "%s reads the body after closing it", op.name)
		}
	}})

	// A crawl reports pages that cannot be read completely.
	add(&mc.Scenario{
		Name: "crawl/broken", Prop: "C40", Quick: mc.Bound{Dev: 1, Policies: 3}, Thorough: mc.Bound{Dev: 2, Policies: 3},
		Run: func(x *mc.X) {
			how := mc.Pick(x, "scraper", "JSON", "JSON, selectors", "Next", "Scan", "Document", "HTML")
			broken := mc.Pick(x, "broken", "a", "b", "c")
			cc := []crawlConf{{0, "a", 1, 0}, {0, "a", 2, 1}, {0, "a", 2, 0}}[x.Choose(3, "config")]
			w := newWeb(x)
			for p, l := range map[string][]string{"a": {base + "b", base + "c"}, "b": {base + "d"}, "c": {base + "d"}, "d": nil} {
				w.pages[base+p] = &pg{links: l}
			}
			w.pages[base+broken].readErr = io.ErrUnexpectedEOF
			var out bytes.Buffer
			c := &crawl{w: w, workers: cc.workers, conc: cc.conc, starts: urls("a")}
			js := ant.JSON(&out, brokenItem{})
			if how == "JSON, selectors" {
				js = ant.JSON(&out, brokenItem{}, "a")
			}
			reached := false
			c.cfg = func(ec *ant.EngineConfig) {
				ec.Scraper = scraperFunc(func(ctx context.Context, p *ant.Page) (ant.URLs, error) {
					if p.URL.String() == base+broken {
						reached = true
					}
					switch how {
					case "Next":
						return p.Next("a")
					case "Scan":
						var v brokenItem
						if err := p.Scan(&v); err != nil {
							return nil, err
						}
					case "Document":
						if _, err := p.Document(); err != nil {
							return nil, err
						}
					case "HTML":
						if _, err := p.HTML(); err != nil {
							return nil, err
						}
					default:
						return js.Scrape(ctx, p)
					}
					return p.URLs(), nil
				})
			}
			c.spawn()
			if !x.Finish() {
				return
			}
			x.Check(reached, "not reached", "%s was not scraped", broken)
			x.NonTrivial()
			x.Obs("%s %s w%d c%d %s %v", how, broken, cc.workers, cc.conc, short(w.fetched()), c.err != nil)
			x.Check(errors.Is(c.err, io.ErrUnexpectedEOF), "not reported", "the body of %s ended early, the scraper uses %s and Run returned %v", broken, how, c.err)
			for _, b := range w.bodies {
				x.Check(b.closed > 0, "left open", "the body of %s is left open", b.url)
			}
			// Every line is that of a page which could be read.
			have := map[string]int{}
			for _, l := range strings.SplitAfter(out.String(), "\n") {
				have[l]++
			}
			delete(have, "")
			for _, u := range w.fetched() {
				if u == base+broken {
					continue
				}
				text := "<html><body>"
				for _, l := range w.pages[u].links {
					text += `<a href="` + l + `">x</a>`
				}
				var b bytes.Buffer
				if _, err := ant.JSON(&b, brokenItem{}).Scrape(context.Background(), fetch(x, &cutBody{data: text, err: io.EOF, size: 1 << 20})); err != nil {
					x.Fail("refused", "%v", err)
				}
				have[b.String()]--
			}
			for l, n := range have {
				x.Check(n <= 0, "line of a broken page", "%q is there too often: %q", l, out.String())
			}
		},
	})
}

type scraperFunc func(ctx context.Context, p *ant.Page) (ant.URLs, error)

func (f scraperFunc) Scrape(ctx context.Context, p *ant.Page) (ant.URLs, error) { return f(ctx, p) }
