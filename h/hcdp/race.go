package hcdp

import (
	"context"
	"fmt"
	"io"
	"unsafe"

	"github.com/yields/ant/zverif/mc"
	"github.com/yields/ant/zverif/vsched"
)

// hb orders the actions of the simulated browser for the race detector, which
// is to judge the client and not the browser's own state.
var hb byte

func acquire() { vsched.Acquire(unsafe.Pointer(&hb)) }

func release() { vsched.Release(unsafe.Pointer(&hb)) }

// Races returns the scenarios for the race detector.
func Races() (ret []*mc.Scenario) {
	type cfg struct {
		name   string
		users  int
		rounds int
		cancel bool
		fail   bool
	}
	for _, c := range []cfg{{"requests", 3, 1, false, false}, {"rounds", 2, 2, false, false}, {"cancel", 2, 1, true, false}, {"fail", 2, 2, false, true}} {
		ret = append(ret, &mc.Scenario{Name: "race/cdp-" + c.name, Prop: "C37", Fine: true, FineFiles: []string{"client.go", "targets.go", "transport.go", "tx.go"},
			Quick: mc.Bound{Dev: 1, Policies: 2}, Thorough: mc.Bound{Dev: 2, Policies: 2},
			Run: func(x *mc.X) {
				x.NonTrivial()
				b := newBrowser(x)
				b.orders = "fixed"
				if c.fail {
					b.onCall = func(_ *conn, n int, _ string) string {
						if n == 5 {
							return "drop"
						}
						return ""
					}
				}
				for i := 0; i < c.users; i++ {
					u := fmt.Sprintf("http://d%d.test/", i)
					b.docs[u] = &doc{status: 200, header: map[string]string{"X-A": "1\n2"}, html: "<html><head></head><body>" + u + "</body></html>", subs: []sub{{done: true, typ: "Image"}}}
				}
				cl := newClient()
				for i := 0; i < c.users; i++ {
					ctx, cancel := context.WithCancel(context.Background())
					x.Go("user", func() {
						for k := 0; k < c.rounds; k++ {
							req := newRequest(ctx, fmt.Sprintf("http://d%d.test/", (i+k)%c.users))
							resp, err := cl.Do(req)
							if err == nil {
								io.ReadAll(resp.Body)
								resp.Body.Close()
								resp.Header.Set("X", "y")
							}
						}
					})
					if c.cancel && i == 0 {
						x.Go("cancel", func() { cancel() })
					}
				}
				x.Finish()
			}})
	}
	return ret
}
