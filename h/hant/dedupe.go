package hant

import (
	"context"
	"errors"
	"fmt"
	"net/url"
	"sort"
	"strings"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/mc"
)

func mustURL(s string) *url.URL {
	u, err := url.Parse(s)
	if err != nil {
		panic(err)
	}
	return u
}

// Deduplication: of all callers which ask about a URL, one gets it.
func init() {
	kinds := []struct {
		name string
		new  func() ant.Deduper
	}{
		{"map", ant.DedupeMap},
		{"bf", func() ant.Deduper { return ant.DedupeBF(100000, 5) }},
	}
	batches := []string{"a", "b", "aa", "ab", "ba", "abc", "cab", ""}
	for _, k := range kinds {
		run := func(x *mc.X, threads, calls int) {
			batches := batches
			if calls > 1 && !x.Thorough() {
				batches = []string{"a", "ab", "ba", "aa"}
			}
			d := k.new()
			got := map[string]int{}
			asked := map[string]bool{}
			var returned []string // per call, in order of return
			lo := make([]int, calls)
			for t := 0; t < threads; t++ {
				var prog []string
				for c := 0; c < calls; c++ {
					// Threads are interchangeable: enumerate sorted programs.
					base := 0
					if c == 0 {
						base = lo[0]
					}
					i := base + x.Choose(len(batches)-base, "batch")
					if c == 0 {
						lo[0] = i
					}
					prog = append(prog, batches[i])
				}
				for _, b := range prog {
					for _, r := range b {
						asked[string(r)] = true
					}
				}
				x.Go(strings.Join(prog, "."), func() {
					mine := map[string]bool{}
					for _, b := range prog {
						var us ant.URLs
						for _, r := range b {
							us = append(us, mustURL("http://h/"+string(r)))
						}
						in := append(ant.URLs(nil), us...)
						out, err := d.Dedupe(context.Background(), us)
						x.Check(err == nil, "error", "Dedupe: %v", err)
						// The result is a subsequence of the batch.
						j := 0
						for _, u := range out {
							s := u.String()
							for j < len(in) && in[j].String() != s {
								j++
							}
							x.Check(j < len(in), "not a subsequence", "batch %q returned %v", b, out)
							j++
							s = s[len(s)-1:]
							got[s]++
							returned = append(returned, s)
							x.Check(!mine[s], "returned after visited", "%s was returned again to the same caller", s)
							mine[s] = true
						}
						for _, r := range b {
							mine[string(r)] = true
						}
					}
				})
			}
			if !x.Finish() {
				return
			}
			if len(asked) > 0 {
				x.NonTrivial()
			}
			x.Obs("%v", returned)
			for u := range asked {
				x.Check(got[u] <= 1, "visited twice", "%s was returned %d times", u, got[u])
				x.Check(got[u] >= 1, "lost", "%s was returned to nobody", u)
			}
		}
		add(&mc.Scenario{
			Name: "dedupe/" + k.name + "-2", Prop: "C10", Fine: true, Quick: mc.Bound{Dev: 2, Policies: 2}, Thorough: mc.Bound{Dev: 4, Policies: 2},
			Run: func(x *mc.X) { run(x, 2, 2) },
		})
		add(&mc.Scenario{
			Name: "dedupe/" + k.name + "-3", Prop: "C10", Fine: true, Quick: mc.Bound{Dev: 2, Policies: 2}, Thorough: mc.Bound{Dev: 3, Policies: 3},
			Run: func(x *mc.X) { run(x, 3, 1) },
		})
		// Callers whose context is canceled: what they do not get, others do.
		add(&mc.Scenario{
			Name: "dedupe/" + k.name + "-canceled", Prop: "C10", Fine: true, Quick: mc.Bound{Dev: 2, Policies: 2}, Thorough: mc.Bound{Dev: 4, Policies: 2},
			Run: func(x *mc.X) {
				d := k.new()
				ctx, cancel := context.WithCancel(context.Background())
				x.Cleanup(cancel)
				if x.Flag("at once") {
					cancel()
				}
				got := map[string]int{}
				failed := 0
				call := func(ctx context.Context, b string) {
					var us ant.URLs
					for _, r := range b {
						us = append(us, mustURL("http://h/"+string(r)))
					}
					out, err := d.Dedupe(ctx, us)
					if err != nil {
						failed++
						x.Check(ctx.Err() != nil && errors.Is(err, ctx.Err()), "error", "Dedupe: %v", err)
						x.Check(len(out) == 0, "error and result", "Dedupe returned %v and %v", out, err)
						return
					}
					for _, u := range out {
						got[strings.TrimPrefix(u.String(), "http://h/")]++
					}
				}
				b := mc.Pick(x, "batch", "abc", "ab", "aab")
				x.Go("canceled", func() { call(ctx, b) })
				x.Go("cancel", func() { cancel() })
				if x.Flag("other") {
					x.Go("other", func() { call(context.Background(), "ca") })
				}
				if !x.Finish() {
					return
				}
				call(context.Background(), "abc")
				x.NonTrivial()
				x.Obs("%s %v %d", b, got, failed)
				for _, u := range []string{"a", "b", "c"} {
					x.Check(got[u] <= 1, "visited twice", "%s was returned %d times", u, got[u])
					x.Check(got[u] >= 1, "lost", "%s was returned to nobody (%d calls failed)", u, failed)
				}
			},
		})
		// Sequential histories: never returned once seen, whatever the filter size.
		add(&mc.Scenario{
			Name: "dedupe/" + k.name + "-history", Prop: "C10", Tree: true,
			Run: func(x *mc.X) {
				d := k.new()
				small := false
				if k.name == "bf" {
					if x.Flag("tiny filter") {
						d, small = ant.DedupeBF(8, 2), true
					}
				}
				n := 3
				if x.Thorough() {
					n = 4
				}
				seen := map[string]bool{}
				var hist []string
				for i := 0; i < n; i++ {
					b := batches[x.Choose(len(batches), "batch")]
					var us ant.URLs
					var want []string
					for _, r := range b {
						s := "http://h/" + string(r)
						us = append(us, mustURL(s))
						if !seen[s] {
							want = append(want, s)
							seen[s] = true
						}
					}
					out, err := d.Dedupe(context.Background(), us)
					var got []string
					for _, u := range out {
						got = append(got, u.String())
					}
					hist = append(hist, fmt.Sprintf("%s>%d", b, len(got)))
					x.Check(err == nil, "error", "Dedupe: %v", err)
					if small {
						// False positives are allowed, repetitions are not.
						w := map[string]bool{}
						for _, s := range want {
							w[s] = true
						}
						for _, s := range got {
							x.Check(w[s], "visited twice", "%s was returned again, history %v", s, hist)
							delete(w, s)
						}
						continue
					}
					x.Check(fmt.Sprint(got) == fmt.Sprint(want), "history", "batch %q returned %v, want %v, history %v", b, got, want, hist)
				}
				x.NonTrivial()
				x.Obs("%v", hist)
				var st []string
				for s := range seen {
					st = append(st, s)
				}
				sort.Strings(st)
				x.State(fmt.Sprint(st))
				x.Step(n)
			},
		})
	}
	// All spellings are other URLs, and batches belong to the caller.
	spellings := []string{
		"http://h/a", "https://h/a", "http://h:81/a", "http://g/a", "http://u@h/a", "http://u:p@h/a", "http://h/A", "http://h/a?", "http://h/a?x=1", "http://h/a?x=2", "http://h/a?x=1&y=2",
		"http://h/a%2Fb", "http://h/a/b", "http://h/a%20b", "http://h/", "http://h", "http://h/a//b", "http://h/b?a", "http://h/b/?a", "http://[::1]/a",
	}
	for _, k := range kinds {
		add(&mc.Scenario{
			Name: "dedupe/" + k.name + "-urls", Prop: "C10", Tree: true,
			Run: func(x *mc.X) {
				d := k.new()
				n := len(spellings)
				idx := []int{x.Choose(n, "1"), x.Choose(n, "2"), x.Choose(n, "3")}
				cut := x.Choose(3, "cut")
				seen := map[string]bool{}
				for _, part := range [][]int{idx[:cut], idx[cut:], idx} {
					batch := make(ant.URLs, 0, len(part)+1)
					var was []*url.URL
					var want []string
					for _, i := range part {
						u := mustURL(spellings[i])
						batch, was = append(batch, u), append(was, u)
						if !seen[spellings[i]] {
							seen[spellings[i]] = true
							want = append(want, spellings[i])
						}
					}
					out, err := d.Dedupe(context.Background(), batch)
					x.Check(err == nil, "error", "Dedupe: %v", err)
					var got []string
					for _, u := range out {
						got = append(got, u.String())
					}
					x.Check(fmt.Sprint(got) == fmt.Sprint(want), "result", "batch %v returned %v, want %v", was, got, want)
					for i, u := range was {
						x.Check(batch[i] == u && u.String() == spellings[part[i]], "batch changed", "the batch %v became %v", was, batch)
					}
					// What was returned belongs to the caller as well.
					for i := range out {
						out[i] = mustURL("http://reused/")
					}
				}
				x.NonTrivial()
				x.Step(3)
				x.State(fmt.Sprint(len(seen)))
				x.Obs("%d", len(seen))
			},
		})
	}
	// In a crawl the bloom filter is used by several workers at a time.
	add(&mc.Scenario{
		Name: "dedupe/crawl", Prop: "C10", Fine: true, FineFiles: []string{"dedupe.go"}, Quick: mc.Bound{Dev: 2, Policies: 2}, Thorough: mc.Bound{Dev: 3, Policies: 3},
		Run: func(x *mc.X) {
			cc := []crawlConf{{5, "a", 2, 0}, {2, "ab", 2, 2}, {6, "abcabc", 2, 0}}[x.Choose(3, "config")]
			k := kinds[x.Choose(2, "deduper")]
			w := newWeb(x)
			w.graph(graphs[cc.g])
			c := &crawl{w: w, workers: cc.workers, conc: cc.conc, starts: urls(cc.starts), deduper: k.new()}
			c.spawn()
			if !x.Finish() {
				return
			}
			x.NonTrivial()
			got := w.fetched()
			x.Obs("%s %d: %s", k.name, cc.g, short(got))
			sort.Strings(got)
			x.Check(fmt.Sprint(got) == fmt.Sprint(w.reach(c.starts)), "fetched set", "fetched %v, want each of %v once", got, w.reach(c.starts))
		},
	})
}
