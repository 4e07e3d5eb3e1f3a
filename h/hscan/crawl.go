package hscan

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/mc"
)

// webNode is a page of a site crawled with the JSON scraper: its links are
// followed by "!" when they are of class c.
type webNode struct {
	title, links string
	status       int
	final        string
}

var jsonSite = map[string]webNode{
	"/":        {title: "root <&> \"é\"", links: "/a! /b /c! //other.test/x"},
	"/a":       {title: "a", links: "/b! /d /missing!"},
	"/b":       {title: "", links: "/ /b?x=1!"},
	"/c":       {title: "c\nc", links: "d!", final: "/d/e/"},
	"/d":       {title: "d", links: ""},
	"/d/e/d":   {title: "relative", links: "../../a!"},
	"/missing": {status: 404},
	"/b?x=1":   {title: "query", links: "#top! mailto:x@h.test!"},
}

type jsonItem struct {
	Title string   `css:"h1" json:"title"`
	Links []string `css:"a.c@href" json:"links,omitempty"`
	N     int      `css:"b" json:"n"`
}

func (n webNode) html(path string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "<html><head></head><body><h1>%s</h1><b>%d</b>", strings.NewReplacer("&", "&amp;", "<", "&lt;").Replace(n.title), len(path))
	for _, l := range strings.Fields(n.links) {
		h, c := l, ""
		if strings.HasSuffix(l, "!") {
			h, c = l[:len(l)-1], ` class="c"`
		}
		fmt.Fprintf(&b, "<a%s href=\"%s\">x</a>", c, h)
	}
	b.WriteString("</body></html>")
	return b.String()
}

// reachable returns what a crawl of the site requests and writes.
func (c *jsonCrawl) reachable() (map[string]bool, []string) {
	asked, lines := map[string]bool{}, []string{}
	todo := []string{"/"}
	for len(todo) > 0 {
		p := todo[0]
		todo = todo[1:]
		if asked[p] {
			continue
		}
		asked[p] = true
		n := jsonSite[p]
		if n.status != 0 {
			continue
		}
		it := jsonItem{Title: n.title, N: len(p)}
		for _, l := range strings.Fields(n.links) {
			class := strings.HasSuffix(l, "!")
			l = strings.TrimSuffix(l, "!")
			if class {
				it.Links = append(it.Links, l)
			}
			if c.selector != "" && !class {
				continue
			}
			switch {
			case strings.HasPrefix(l, "//"), strings.HasPrefix(l, "mailto:"):
				continue // another host, excluded by the matcher
			case strings.HasPrefix(l, "#"):
				l = p
			case l == "d":
				l = "/d/e/d"
			case l == "../../a":
				l = "/a"
			}
			if !c.excluded(l) {
				todo = append(todo, l)
			}
		}
		buf, err := json.Marshal(it)
		if err != nil {
			panic(err)
		}
		lines = append(lines, string(buf)+"\n")
	}
	sort.Strings(lines)
	return asked, lines
}

func (c *jsonCrawl) excluded(p string) bool { return c.pattern && strings.HasPrefix(p, "/b") }

type jsonCrawl struct {
	x        *mc.X
	selector string
	pattern  bool
	asked    map[string]int
}

func (c *jsonCrawl) Do(req *http.Request) (*http.Response, error) {
	c.x.Point("do " + req.URL.Path)
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	p := req.URL.RequestURI()
	c.asked[p]++
	n, ok := jsonSite[p]
	c.x.Check(ok && req.URL.Host == "h.test", "unknown page", "%s is requested", req.URL)
	resp := &http.Response{StatusCode: 200, ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: req}
	if n.status != 0 {
		resp.StatusCode = n.status
	}
	resp.Status = fmt.Sprintf("%d %s", resp.StatusCode, http.StatusText(resp.StatusCode))
	if n.final != "" {
		resp.Request = req.Clone(req.Context())
		resp.Request.URL.Path = n.final
	}
	resp.Body = io.NopCloser(strings.NewReader(n.html(p)))
	return resp, nil
}

// Match excludes other hosts, and some pages.
func (c *jsonCrawl) Match(u *ant.URL) bool { return u.Host == "h.test" && !c.excluded(u.Path) }

func init() {
	add(&mc.Scenario{Name: "json/crawl", Prop: "C33", Quick: mc.Bound{Dev: 1, Policies: 3}, Thorough: mc.Bound{Dev: 2, Policies: 2}, Run: func(x *mc.X) {
		c := &jsonCrawl{x: x, asked: map[string]int{}}
		sel := mc.Pick(x, "selectors", []string(nil), []string{"a.c"}, []string{"b", "a.c", "a.c"})
		if len(sel) > 0 {
			c.selector = sel[0]
		}
		c.pattern = x.Flag("pattern")
		wc := mc.Pick(x, "workers", [2]int{1, 0}, [2]int{2, 1}, [2]int{1, 2})
		w := &jsonWriter{x: x, fault: mc.Pick(x, "failing write", 0, 1, 3)}
		asked, lines := c.reachable()
		x.Go("crawl", func() {
			eng, err := ant.NewEngine(ant.EngineConfig{
				Scraper: ant.JSON(w, jsonItem{}, sel...), Impolite: true, Matcher: c, Workers: wc[0], Concurrency: wc[1], Fetcher: &ant.Fetcher{Client: c},
			})
			if !x.Check(err == nil, "engine", "%v", err) {
				return
			}
			err = eng.Run(context.Background(), "http://h.test")
			x.NonTrivial()
			for p, n := range c.asked {
				x.Check(n == 1 && asked[p], "requests", "%s is requested %d times", p, n)
			}
			got := strings.SplitAfter(w.buf.String(), "\n")
			if w.failed > 0 {
				x.Check(errors.Is(err, errWrite), "swallowed", "a write failed, Run returned %v", err)
				return
			}
			x.Check(err == nil, "error", "%v", err)
			x.Check(len(c.asked) == len(asked), "requests", "requested %v, want %v", c.asked, asked)
			got = got[:len(got)-1]
			sort.Strings(got)
			x.Check(strings.Join(got, "") == strings.Join(lines, ""), "wrong lines", "%q, want %q", got, lines)
		})
		x.Finish()
	}})
}
