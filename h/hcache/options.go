package hcache

import (
	"errors"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"time"

	"github.com/golang/snappy"
	"github.com/yields/ant/antcache"
	"github.com/yields/ant/zverif/mc"
)

// C45: options and what replaces those that are not given.
func init() {
	add(&mc.Scenario{Name: "options/cache", Prop: "C45", Tree: true, Bubble: true, Horizon: 1000 * time.Hour, Run: func(x *mc.X) {
		const day = 24 * time.Hour
		n, gaps := 3, []time.Duration{0, time.Minute, 59 * time.Minute, 61 * time.Minute, day - time.Minute, day + time.Minute, 100 * time.Hour}
		if x.Thorough() {
			n = 4
		}
		var client antcache.Client
		o := &origin{x: x}
		o.serve = func(r *oreq, req *http.Request) (*http.Response, error) {
			return response(req, 200, hdr("Date", httpDate(time.Now()), "Cache-Control", "max-age=30"), fmt.Sprintf("%d of %s", len(o.reqs), r.url)), nil
		}
		if !x.Flag("no client") {
			client = o
		}
		stores := []*storage{newStorage(), newStorage()}
		used := -1
		age := 30 * time.Second
		var opts []antcache.Option
		var want error
		refused := client == nil
		desc := ""
		for i := 0; i < n; i++ {
			k := x.Choose(9, "option")
			if k == 0 {
				break
			}
			bad := refused
			switch k {
			case 1, 2:
				opts = append(opts, antcache.WithStorage(stores[k-1]))
				if !bad {
					used = k - 1
				}
			case 3, 4, 5, 6:
				a := []time.Duration{time.Hour, 0, -time.Hour, 48 * time.Hour}[k-3]
				opts = append(opts, antcache.Aggressive(a))
				if age = a; a <= 0 {
					age = day
				}
			case 7:
				opts = append(opts, antcache.WithStorage(nil))
				refused = true
			case 8:
				opts = append(opts, func(*antcache.Cache) error { return errBoom })
				if !bad {
					want = errBoom
				}
				refused = true
			}
			desc += []string{"", "A", "B", "1h", "0h", "-1h", "48h", "nil", "error"}[k] + " "
		}
		desc = fmt.Sprintf("client %v, options %s", client != nil, desc)
		c, err := antcache.New(client, opts...)
		x.NonTrivial()
		x.Obs("%s: %v", desc, err)
		if refused {
			x.Check(err != nil && c == nil, "not refused", "%s: New returned %v", desc, err)
			if want != nil {
				x.Check(errors.Is(err, want), "error lost", "%s: New returned %v", desc, err)
			}
			return
		}
		if !x.Check(err == nil && c != nil, "refused", "%s: New returned %v", desc, err) {
			return
		}
		x.Check(len(stores[0].ops)+len(stores[1].ops)+len(o.reqs) == 0, "used at once", "%s", desc)
		a := get(x, c, newReq("GET", "http://h/a", nil))
		x.Check(a.err == nil && a.cerr == nil && len(o.reqs) == 1 && !a.cached, "first request", "%s: %v %v", desc, a.err, a.cerr)
		for i, s := range stores {
			if i == used {
				x.Check(s.stores() == 1, "not stored", "%s: %d entries are stored in the storage that was given", desc, s.stores())
			} else {
				x.Check(len(s.ops) == 0, "storage", "%s: another storage than the last one given was used", desc)
			}
		}
		gap := mc.Pick(x, "gap", gaps...)
		time.Sleep(gap)
		b := get(x, c, newReq("GET", "http://h/a", nil))
		x.Check(b.err == nil && b.cerr == nil, "second request", "%s: %v %v", desc, b.err, b.cerr)
		x.Check(b.cached == (gap < age), "freshness", "%s: after %v the response comes from the cache: %v", desc, gap, b.cached)
		x.Check((len(o.reqs) == 1) == (gap < age), "freshness", "%s: after %v there are %d requests", desc, gap, len(o.reqs))
		if b.cached {
			x.Check(b.body == a.body && b.status == 200, "content", "%s: %d %q, then %q", desc, b.status, a.body, b.body)
		}
		// Caches have nothing in common but what they are given.
		before := len(o.reqs)
		d, err := antcache.New(client, antcache.Aggressive(1000*time.Hour))
		if x.Check(err == nil, "refused", "New: %v", err) {
			f := get(x, d, newReq("GET", "http://h/a", nil))
			x.Check(f.err == nil && !f.cached && len(o.reqs) == before+1, "shared", "%s: a response in a cache of its own is known to another", desc)
			g := get(x, d, newReq("GET", "http://h/a", nil))
			x.Check(g.err == nil && g.cached && len(o.reqs) == before+1, "not kept", "%s: a response is not kept in memory", desc)
		}
	}})

	// What a disk store is told, and what it assumes.
	const (
		gb  = 1 << 30
		day = 24 * time.Hour
	)
	add(&mc.Scenario{Name: "options/disk", Prop: "C45", Tree: false, Horizon: 1000 * time.Hour, MaxSteps: 100000, Quick: mc.Bound{Dev: 0, Policies: 1}, Thorough: mc.Bound{Dev: 0, Policies: 3}, Run: func(x *mc.X) {
		fs := dfs()
		var (
			sweep    = 5 * time.Minute
			age      = day
			size     = int64(gb)
			compress = false
			logs     = [2][]string{}
			log      = -1
			opts     []antcache.DiskOption
			desc     string
		)
		n := 3
		if x.Thorough() {
			n = 4
		}
		for i := 0; i < n; i++ {
			k := x.Choose(14, "option")
			if k == 0 {
				break
			}
			switch k {
			case 1, 2, 3, 4:
				sweep = []time.Duration{0, -time.Second, time.Minute, time.Hour}[k-1]
				opts = append(opts, antcache.SweepEvery(sweep))
				desc += fmt.Sprintf("SweepEvery(%v) ", sweep)
			case 5, 6, 7:
				age = []time.Duration{0, -time.Second, time.Hour}[k-5]
				opts = append(opts, antcache.Maxage(age))
				desc += fmt.Sprintf("Maxage(%v) ", age)
			case 8, 9, 10:
				size = []int64{0, -1, 1000}[k-8]
				opts = append(opts, antcache.Maxsize(size))
				desc += fmt.Sprintf("Maxsize(%v) ", size)
			case 11:
				compress = true
				opts = append(opts, antcache.Compress())
				desc += "Compress() "
			case 12:
				// The one given last counts.
				i := 0
				if log == 0 {
					i = 1
				}
				log = i
				opts = append(opts, antcache.Debug(func(f string, args ...any) { logs[i] = append(logs[i], fmt.Sprintf(f, args...)) }))
				desc += "Debug(f) "
			case 13:
				log = -1
				opts = append(opts, antcache.Debug(nil))
				desc += "Debug(nil) "
			}
		}
		// Entries of all ages, as large as they are said to be.
		type ent struct {
			key  uint64
			age  time.Duration
			size int64
		}
		var es []ent
		switch x.Choose(4, "entries") {
		case 0:
			es = []ent{{1, time.Second, 10}, {2, 50 * time.Minute, 10}, {3, 70 * time.Minute, 10}, {4, day - 10*time.Minute, 10}, {5, day - 3*time.Minute, 10}, {6, 48 * time.Hour, 10}}
		case 1:
			es = []ent{{1, time.Second, gb - 20}, {2, 2 * time.Second, 10}, {3, 3 * time.Second, 10}}
		case 2:
			es = []ent{{1, time.Second, gb - 20}, {2, 2 * time.Second, 10}, {3, 3 * time.Second, 11}}
		case 3:
			es = []ent{{1, time.Second, 500}, {2, 2 * time.Second, 300}, {3, 3 * time.Second, 5 * gb}, {4, 90 * time.Minute, 100}}
		}
		start := time.Now()
		for _, e := range es {
			fs.AddSparse(fileOf(e.key), e.size, start.Add(-e.age))
		}
		files := func() string {
			l := fs.List(root)
			sort.Strings(l)
			return strings.Join(l, " ")
		}
		expect := func(es []ent) string {
			var names []string
			for _, e := range es {
				names = append(names, fmt.Sprint(e.key))
			}
			sort.Strings(names)
			return strings.Join(names, " ")
		}
		model := func(es []ent, at time.Duration) (left []ent) {
			var sum int64
			for _, e := range es {
				if age <= 0 || at+e.age <= age {
					left = append(left, e)
					sum += e.size
				}
			}
			// The oldest is the last one.
			for size > 0 && sum > size {
				sum -= left[len(left)-1].size
				left = left[:len(left)-1]
			}
			return left
		}
		x.NonTrivial()
		x.Go("main", func() {
			d, err := antcache.Open(root, opts...)
			if !x.Check(err == nil, "open", "%s: %v", desc, err) {
				return
			}
			d.Wait(bg)
			until := func(at time.Duration) {
				x.Point("sleep")
				time.Sleep(time.Until(start.Add(at)))
				x.Point("awake")
			}
			left := es
			for _, at := range []time.Duration{30 * time.Second, 61 * time.Second, 299 * time.Second, 301 * time.Second, 59 * time.Minute, 61 * time.Minute} {
				until(at)
				// The last sweep before now.
				if sweep > 0 && at > sweep {
					left = model(left, at/sweep*sweep)
				}
				if !x.Check(files() == expect(left), "survivors", "%s: %v: after %v there is %s, want %s", desc, es, at, files(), expect(left)) {
					return
				}
			}
			x.Obs("%s: %s", desc, files())
			v := strings.Repeat("value ", 20)
			x.Check(d.Store(bg, 77, []byte(v)) == nil, "store", "%s", desc)
			raw, _ := fs.Content(fileOf(77))
			if compress {
				b, err := snappy.Decode(nil, []byte(raw))
				x.Check(err == nil && string(b) == v && len(raw) < len(v), "not compressed", "%s: %q", desc, raw)
			} else {
				x.Check(raw == v, "compressed", "%s: %q", desc, raw)
			}
			b, err := d.Load(bg, 77)
			x.Check(err == nil && string(b) == v, "load", "%s: %q %v", desc, b, err)
			x.Check(d.Close() == nil, "close", "%s", desc)
		})
		if !x.Finish() {
			return
		}
		noneLeft(x, fs, desc)
		for i := range logs {
			x.Check((i == log) == (len(logs[i]) > 0), "debug", "%s: the debug function %d was called %d times", desc, i, len(logs[i]))
			for _, l := range logs[i] {
				x.Check(strings.HasPrefix(l, "antcache/disk: ") && !strings.Contains(l, "%!"), "debug", "%s: debug message %q", desc, l)
			}
		}
	}})
}
