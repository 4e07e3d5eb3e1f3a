package hcache

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"
	"time"

	"github.com/yields/ant/antcache"
	"github.com/yields/ant/zverif/mc"
)

// Sizes at which something is done in parts: directories and caches of many
// entries.
func init() {
	add(&mc.Scenario{
		Name: "sweep/many", Prop: "C26", MaxSteps: 1000000, Horizon: 1000 * time.Hour, Quick: mc.Bound{Policies: 1}, Thorough: mc.Bound{Policies: 3},
		Doc: "directories of up to 1000 entries, of which none, some or all are expired or too many",
		Run: func(x *mc.X) {
			n := mc.Pick(x, "entries", 4, 5, 6, 31, 100, 1000)
			expired := mc.Pick(x, "expired, in percent", 0, 1, 50, 100) * n / 100
			keep := mc.Pick(x, "fit, in percent", 0, 1, 40, 100, -1)
			order := mc.Pick(x, "order", "oldest first", "newest first", "mixed")
			how := mc.Pick(x, "entries are", "there when opened", "stored")
			fs := dfs()
			fs.Reverse = x.Flag("reverse directory order")
			const size = 40
			val := func(k uint64) string { return fmt.Sprintf("%-*d", size, k) }
			maxsize := int64(0)
			switch {
			case keep >= 0:
				maxsize = int64(keep*n/100*size + size/2)
			}
			opts := []antcache.DiskOption{antcache.SweepEvery(time.Hour), antcache.Maxage(24 * time.Hour), antcache.Maxsize(maxsize)}
			desc := fmt.Sprintf("%d entries, %s, %d expired, at most %d bytes, %s", n, how, expired, maxsize, order)
			// The rank of an entry: 0 is the oldest.
			rank := func(k int) int {
				switch order {
				case "oldest first":
					return k
				case "newest first":
					return n - 1 - k
				}
				return (k*7 + 3) % n
			}
			if order == "mixed" && n%7 == 0 {
				x.Discard()
				return
			}
			age := func(r int) time.Duration {
				d := time.Duration(n-r) * time.Second
				if r < expired {
					d += 30 * time.Hour
				}
				return d
			}
			now := time.Now()
			if how == "there when opened" {
				for k := 0; k < n; k++ {
					fs.AddFile(fileOf(uint64(k)), val(uint64(k)), now.Add(-age(rank(k))))
				}
			}
			var want []string
			for k := 0; k < n; k++ {
				r := rank(k)
				if r < expired {
					continue
				}
				if maxsize > 0 && int64(n-r)*size > maxsize {
					continue
				}
				want = append(want, fmt.Sprint(k))
			}
			sort.Strings(want)
			x.NonTrivial()
			x.Go("main", func() {
				d, err := antcache.Open(root, opts...)
				if !x.Check(err == nil, "open", "%s: %v", desc, err) {
					return
				}
				if how == "stored" {
					// In the order of their ages; the sweeper passes while
					// they are stored, but removes nothing then.
					d.Close()
					d, err = antcache.Open(root, append(opts, antcache.SweepEvery(1000*time.Hour))...)
					if !x.Check(err == nil, "open", "%s: %v", desc, err) {
						return
					}
					at := make([]int, n)
					for k := range at {
						at[rank(k)] = k
					}
					for r, k := range at {
						if r == expired && r > 0 {
							x.Point("sleep")
							time.Sleep(30 * time.Hour)
							x.Point("awake")
						}
						if !x.Check(d.Store(bg, uint64(k), []byte(val(uint64(k)))) == nil, "store", "%s", desc) {
							return
						}
						x.Point("sleep")
						time.Sleep(time.Second)
						x.Point("awake")
					}
					if expired == n {
						x.Point("sleep")
						time.Sleep(30 * time.Hour)
						x.Point("awake")
					}
					for k := 0; k < n; k++ {
						b, err := d.Load(bg, uint64(k))
						if !x.Check(err == nil && string(b) == val(uint64(k)), "entry lost", "%s: key %d: %q %v", desc, k, b, err) {
							return
						}
					}
					if !x.Check(d.Close() == nil, "close", "%s", desc) {
						return
					}
					d, err = antcache.Open(root, opts...)
					if !x.Check(err == nil, "open", "%s: %v", desc, err) {
						return
					}
				}
				x.Check(d.Wait(bg) == nil, "wait", "%s", desc)
				for k := 0; k < n; k++ {
					b, err := d.Load(bg, uint64(k))
					if !x.Check(err == nil && string(b) == val(uint64(k)), "entry lost", "%s: before the sweep, key %d: %q %v", desc, k, b, err) {
						return
					}
				}
				x.Point("sleep")
				time.Sleep(time.Hour + time.Minute)
				x.Point("awake")
				got := fs.List(root)
				sort.Strings(got)
				x.Obs("%s: %d", desc, len(got))
				if !x.Check(fmt.Sprint(got) == fmt.Sprint(want), "wrong survivors", "%s: %d files, want %d", desc, len(got), len(want)) {
					return
				}
				left := map[string]bool{}
				for _, name := range want {
					left[name] = true
				}
				for k := 0; k < n; k++ {
					b, err := d.Load(bg, uint64(k))
					if left[fmt.Sprint(k)] {
						x.Check(err == nil && string(b) == val(uint64(k)), "survivor not loadable", "%s: key %d: %q %v", desc, k, b, err)
					} else {
						x.Check(err == nil && b == nil, "removed entry served", "%s: key %d: %q %v", desc, k, b, err)
					}
				}
				x.Check(d.Close() == nil, "close", "%s", desc)
			})
			x.Finish()
		},
	})

	// Entries whose sizes do not fit into 31 or 32 bits, or only just.
	add(&mc.Scenario{
		Name: "sweep/huge", Prop: "C26", Horizon: 100 * time.Hour, Quick: mc.Bound{Policies: 1}, Thorough: mc.Bound{Policies: 3},
		Doc: "entries of up to 8 TB",
		Run: func(x *mc.X) {
			const gb = int64(1) << 30
			unit := mc.Pick(x, "entries are of", gb/2-1, gb, 2*gb-1, 2*gb, 4*gb-1, 4*gb, 8192*gb)
			n := 2 + x.Choose(5, "entries")
			fit := x.Choose(n+2, "fit")
			off := mc.Pick(x, "off by", -1, 0, 1)
			old := x.Choose(2, "expired")
			maxsize := int64(fit)*unit + int64(off)
			fs := dfs()
			fs.Reverse = x.Flag("reverse directory order")
			var want []string
			var sum int64
			for i := 0; i < n; i++ { // the newest first
				age := time.Duration(i+1) * time.Second
				if i >= n-old {
					age += 30 * time.Hour
				}
				fs.AddSparse(fileOf(uint64(i)), unit, time.Now().Add(-age))
				if i >= n-old {
					continue
				}
				sum += unit
				if maxsize <= 0 || sum <= maxsize {
					want = append(want, fmt.Sprint(i))
				}
			}
			desc := fmt.Sprintf("%d entries of %d bytes, %d expired, at most %d bytes", n, unit, old, maxsize)
			x.NonTrivial()
			x.Go("main", func() {
				d, err := antcache.Open(root, antcache.SweepEvery(time.Hour), antcache.Maxage(24*time.Hour), antcache.Maxsize(maxsize))
				if !x.Check(err == nil, "open", "%s: %v", desc, err) {
					return
				}
				x.Check(d.Wait(bg) == nil, "wait", "%s", desc)
				x.Point("sleep")
				time.Sleep(time.Hour + time.Minute)
				x.Point("awake")
				got := fs.List(root)
				sort.Strings(got)
				x.Obs("%s: %v", desc, got)
				x.Check(fmt.Sprint(got) == fmt.Sprint(want), "wrong survivors", "%s: %v, want %v", desc, got, want)
				x.Check(d.Close() == nil, "close", "%s", desc)
			})
			x.Finish()
		},
	})

	// Files other than entries do not hide those behind them.
	add(&mc.Scenario{
		Name: "open/many", Prop: "C28", MaxSteps: 1000000, Quick: mc.Bound{Policies: 1}, Thorough: mc.Bound{Policies: 3},
		Doc: "directories of up to 1000 files of which few or most are entries",
		Run: func(x *mc.X) {
			n := mc.Pick(x, "files", 10, 64, 1000)
			every := mc.Pick(x, "an entry every", 1, 2, 5, 6, 100)
			fs := dfs()
			fs.Reverse = x.Flag("reverse directory order")
			what := mc.Pick(x, "others", "named", "directories", "unfinished")
			desc := fmt.Sprintf("%d files, every %dth an entry, others %s", n, every, what)
			var keys []uint64
			others := 0
			for i := 0; i < n; i++ {
				k := uint64(10000 + i)
				if i%every == every-1 {
					fs.AddFile(fileOf(k), value(k, i%7), time.Now())
					keys = append(keys, k)
					continue
				}
				others++
				switch what {
				case "named":
					fs.AddFile(fmt.Sprintf("%s/%dx", root, k), "x", time.Now())
				case "directories":
					fs.AddDir(fmt.Sprintf("%s/d%d", root, k))
				case "unfinished":
					fs.AddFile(fmt.Sprintf("%s/%d.tmp", root, k), "x", time.Now())
				}
			}
			x.NonTrivial()
			x.Go("main", func() {
				d, err := antcache.Open(root, antcache.SweepEvery(0))
				if !x.Check(err == nil, "open", "%s: %v", desc, err) {
					return
				}
				x.Check(d.Wait(bg) == nil, "wait", "%s", desc)
				n := 0
				for _, k := range keys {
					b, err := d.Load(bg, k)
					x.Check(err == nil && string(b) == value(k, int(k-10000)%7), "entry not found", "%s: key %d: %q %v", desc, k, b, err)
					n++
				}
				x.Step(n)
				x.Obs("%s %d", desc, n)
				x.Check(d.Close() == nil, "close", "%s", desc)
				x.Check(len(fs.List(root)) == len(keys)+others, "files", "%s: %d files are left", desc, len(fs.List(root)))
			})
			x.Finish()
		},
	})

	// Caches of many pages.
	add(&mc.Scenario{
		Name: "keys/many", Prop: "C18", MaxSteps: 1000000, Quick: mc.Bound{Policies: 1}, Thorough: mc.Bound{Policies: 1},
		Doc: "900 pages are stored and then asked for again",
		Run: func(x *mc.X) {
			disk := x.Flag("disk")
			n := mc.Pick(x, "pages", 100, 900)
			o := &origin{x: x}
			o.serve = func(q *oreq, req *http.Request) (*http.Response, error) {
				return response(req, 200, hdr("Date", httpDate(time.Now()), "Cache-Control", "max-age=1000"), req.Method+" "+req.URL.String()), nil
			}
			page := func(i int) string {
				switch i % 4 {
				case 0:
					return fmt.Sprintf("http://h/p%d", i)
				case 1:
					return fmt.Sprintf("http://h%d/", i)
				case 2:
					return fmt.Sprintf("http://h/?p=%d", i)
				}
				return fmt.Sprintf("https://h/%s", strings.Repeat("p", i))
			}
			x.NonTrivial()
			x.Go("main", func() {
				var opts []antcache.Option
				var d *antcache.Diskstore
				if disk {
					dfs()
					var err error
					if d, err = antcache.Open(root, antcache.SweepEvery(0)); err != nil {
						x.Fail("open", "%v", err)
						return
					}
					opts = append(opts, antcache.WithStorage(d))
				}
				c, err := antcache.New(o, opts...)
				if err != nil {
					x.Fail("new", "%v", err)
					return
				}
				for round := 0; round < 2; round++ {
					if round == 1 && disk {
						x.Check(d.Close() == nil, "close", "")
						if d, err = antcache.Open(root, antcache.SweepEvery(0)); err != nil {
							x.Fail("open", "%v", err)
							return
						}
						x.Check(d.Wait(bg) == nil, "wait", "")
						c, _ = antcache.New(o, antcache.WithStorage(d))
					}
					for i := 0; i < n; i++ {
						u := page(i)
						resp, err := c.Do(newReq("GET", u, nil))
						if !x.Check(err == nil, "error", "%s: %v", u, err) {
							return
						}
						b, err := io.ReadAll(resp.Body)
						x.Check(err == nil && resp.Body.Close() == nil, "body", "%s: %v", u, err)
						x.Check(string(b) == "GET "+u, "other page", "%d pages, round %d: %s has body %q", n, round, u, b)
						x.Step(1)
					}
					x.Check(len(o.reqs) == n, "requests", "%d pages, round %d: %d requests of the origin", n, round, len(o.reqs))
				}
				if disk {
					d.Close()
				}
				x.Obs("%v %d", disk, len(o.reqs))
			})
			x.Finish()
		},
	})

	// Keys are as good as 64 bits make them: among so many pages there are
	// some with the same 32 bits.
	add(&mc.Scenario{
		Name: "keys/huge", Prop: "C18", Tree: true, Doc: "200000 (400000) pages are stored, none is taken for another one",
		Run: func(x *mc.X) {
			n := 200000
			if x.Thorough() {
				n = 400000
			}
			kind := mc.Pick(x, "pages", "http://h/%d", "http://h%d/", "http://h/?p=%d")
			st := &plainStorage{m: map[uint64][]byte{}}
			asked := 0
			c, err := antcache.New(doFunc(func(req *http.Request) (*http.Response, error) {
				asked++
				return response(req, 200, hdr("Cache-Control", "max-age=1000", "Date", httpDate(time.Now())), req.URL.String()), nil
			}), antcache.WithStorage(st))
			if err != nil {
				x.Fail("new", "%v", err)
				return
			}
			x.NonTrivial()
			x.Step(n)
			x.Obs("%s", kind)
			for i := 0; i < n; i++ {
				u := fmt.Sprintf(kind, i)
				resp, err := c.Do(newReq("GET", u, nil))
				if !x.Check(err == nil, "error", "%s: %v", u, err) {
					return
				}
				b, _ := io.ReadAll(resp.Body)
				resp.Body.Close()
				if !x.Check(string(b) == u && asked == i+1, "other page", "page %d: %s has body %q, %d requests of the origin", i, u, b, asked) {
					return
				}
			}
			x.Check(len(st.m) == n, "keys", "%d pages have %d keys", n, len(st.m))
		},
	})

	// Long URLs that differ in few bytes.
	add(&mc.Scenario{
		Name: "keys/long", Prop: "C18", Tree: true, Bubble: true, Doc: "URLs of up to 70000 bytes",
		Run: func(x *mc.X) {
			n := mc.Pick(x, "length", 100, 130, 260, 600, 1030, 2060, 4200, 8300, 33000, 70000)
			kind := mc.Pick(x, "kind", "path", "query", "start", "host", "value")
			p := mc.Pick(x, "policy", std, aggr)
			fill := strings.Repeat("x", n)
			var us []string
			for _, e := range []string{"a", "b", ""} {
				switch kind {
				case "path":
					us = append(us, "http://h/"+fill+e)
				case "query":
					us = append(us, "http://h/?q="+fill+e)
				case "start":
					us = append(us, "http://h/"+e+"/"+fill)
				case "host":
					us = append(us, "http://"+fill+e+"/")
				case "value":
					us = append(us, "http://h/?q="+e+"&p="+fill)
				}
			}
			o := &origin{x: x}
			o.serve = func(q *oreq, req *http.Request) (*http.Response, error) {
				return response(req, 200, hdr("Date", httpDate(time.Now()), "Cache-Control", "max-age=1000", "X-Url", req.URL.String()), req.URL.String()), nil
			}
			c := newCache(x, p, o, newStorage())
			desc := fmt.Sprintf("%s of %d bytes, %s", kind, n, p.name)
			x.NonTrivial()
			x.Step(6)
			x.Obs("%s", desc)
			x.State(desc)
			for round := 0; round < 2; round++ {
				for _, u := range us {
					f := get(x, c, newReq("GET", u, nil))
					x.Check(f.header.Get("X-Url") == u && f.body == u, "other page", "%s: round %d", desc, round)
				}
			}
			x.Check(len(o.reqs) == len(us), "requests", "%s: %d requests of the origin", desc, len(o.reqs))
		},
	})
}

// plainStorage keeps everything.
type plainStorage struct{ m map[uint64][]byte }

func (s *plainStorage) Store(_ context.Context, k uint64, v []byte) error {
	s.m[k] = v
	return nil
}

func (s *plainStorage) Load(_ context.Context, k uint64) ([]byte, error) { return s.m[k], nil }

type doFunc func(*http.Request) (*http.Response, error)

func (f doFunc) Do(req *http.Request) (*http.Response, error) { return f(req) }
