package hant

import (
	"fmt"
	"net/http"
	"strings"
	"testing"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/anttest"
	"github.com/yields/ant/zverif/mc"
)

// tb is the test of a user: what it is told is recorded, and a fatal message
// ends it as it ends a real test.
type tb struct {
	testing.TB
	fatal []string
	other []string
}

type fatally struct{}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "TestScraper" }
func (t *tb) Cleanup(func())            {}
func (t *tb) Log(a ...any)              {}
func (t *tb) Logf(f string, a ...any)   {}
func (t *tb) Error(a ...any)            { t.other = append(t.other, fmt.Sprint(a...)) }
func (t *tb) Errorf(f string, a ...any) { t.other = append(t.other, fmt.Sprintf(f, a...)) }
func (t *tb) Fail()                     { t.other = append(t.other, "fail") }
func (t *tb) Skip(a ...any)             { t.other = append(t.other, "skip"); panic(fatally{}) }
func (t *tb) Skipf(f string, a ...any)  { t.other = append(t.other, "skip"); panic(fatally{}) }
func (t *tb) SkipNow()                  { t.other = append(t.other, "skip"); panic(fatally{}) }
func (t *tb) FailNow()                  { t.fatal = append(t.fatal, ""); panic(fatally{}) }
func (t *tb) Fatal(a ...any)            { t.fatal = append(t.fatal, fmt.Sprint(a...)); panic(fatally{}) }
func (t *tb) Fatalf(f string, a ...any) {
	t.fatal = append(t.fatal, fmt.Sprintf(f, a...))
	panic(fatally{})
}

// C44: the helper of package anttest.
func init() {
	add(&mc.Scenario{Name: "helper/fetch", Prop: "C44", Tree: true, Bubble: true, Run: func(x *mc.X) {
		raws := []string{"http://h/", "https://h:8443/a%2Fb?x=1#f", "http://h/%zz", ":", "http://[::1/"}
		k := x.Choose(len(raws), "url")
		raw, good := raws[k], k < 2
		w := newWeb(x)
		var seq []string
		var body *body
		old := ant.DefaultClient.Transport
		ant.DefaultClient.Transport = roundTripFunc(func(r *http.Request) (*http.Response, error) {
			if len(seq) > 5 {
				x.Fail("too many attempts", "%s", seq)
				return nil, errBoom
			}
			o := mc.Pick(x, "outcome", "200", "redirected", "204", "404", "500", "502", "403", "error", "503", "504", "429", "temporary error")
			seq = append(seq, o)
			switch o {
			case "error":
				return nil, errBoom
			case "temporary error":
				return nil, &kindErr{errBoom, true}
			case "redirected":
				res := w.response(r, "http://h/final", &pg{redirect: "http://h/final"}, "<p>text</p>")
				body = w.bodies[len(w.bodies)-1]
				return res, nil
			}
			st := 0
			fmt.Sscan(o, &st)
			res := w.response(r, raw, &pg{status: st}, "<p>text</p>")
			body = w.bodies[len(w.bodies)-1]
			return res, nil
		})
		x.Cleanup(func() { ant.DefaultClient.Transport = old })
		t := &tb{}
		var p *ant.Page
		returned := false
		start := time.Now()
		func() {
			defer func() {
				if e := recover(); e != nil && e != any(fatally{}) {
					panic(e)
				}
			}()
			p = anttest.Fetch(t, raw)
			returned = true
		}()
		if x.Failed() {
			return
		}
		desc := fmt.Sprintf("%s: %s", raw, strings.Join(seq, ", "))
		x.NonTrivial()
		x.Step(len(seq) + 1)
		x.State(desc)
		x.Obs("%s", desc)
		x.Check(len(t.other) == 0, "told otherwise", "%s: %q", desc, t.other)
		last := ""
		if len(seq) > 0 {
			last = seq[len(seq)-1]
		}
		switch last {
		case "200", "204", "redirected":
			if !x.Check(returned && p != nil && len(t.fatal) == 0, "no page", "%s: returned %v, page %v, the test was ended with %q", desc, returned, p != nil, t.fatal) {
				return
			}
			want := raw
			if last == "redirected" {
				want = "http://h/final"
			}
			x.Check(p.URL.String() == want, "page URL", "%s: the page's URL is %s", desc, p.URL)
			h := p.Text("p")
			x.Check(h == "text", "page", "%s: the page's text is %q", desc, h)
			x.Check(body.closed > 0 && body.eof, "body", "%s: the body is left open", desc)
		default:
			x.Check(!returned && len(t.fatal) == 1, "test goes on", "%s: returned %v, page %v, the test was ended with %q", desc, returned, p != nil, t.fatal)
			for _, b := range w.bodies {
				x.Check(b.closed > 0 && b.eof, "body", "%s: the body of a response that is no page is left open", desc)
			}
		}
		x.Check(good || len(seq) == 0, "bad URL", "%s: requested", desc)
		x.Check(len(seq) > 1 || time.Since(start) == 0, "pause", "%s took %v", desc, time.Since(start))
	}})
}
