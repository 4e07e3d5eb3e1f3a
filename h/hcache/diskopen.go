package hcache

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/yields/ant/antcache"
	"github.com/yields/ant/zverif/mc"
	"github.com/yields/ant/zverif/vos"
)

type dopts struct {
	name string
	opts func() []antcache.DiskOption
}

var diskOptions = []dopts{
	{"none", func() []antcache.DiskOption { return nil }},
	{"no sweeps", func() []antcache.DiskOption { return []antcache.DiskOption{antcache.SweepEvery(0)} }},
	{"negative", func() []antcache.DiskOption {
		return []antcache.DiskOption{antcache.SweepEvery(-1), antcache.Maxage(-1), antcache.Maxsize(-1)}
	}},
	{"no sweeps, twice", func() []antcache.DiskOption {
		return []antcache.DiskOption{antcache.SweepEvery(0), antcache.SweepEvery(0)}
	}},
	{"no sweeps, then sweeps", func() []antcache.DiskOption {
		return []antcache.DiskOption{antcache.SweepEvery(0), antcache.SweepEvery(time.Second)}
	}},
	{"sweeps, then none", func() []antcache.DiskOption {
		return []antcache.DiskOption{antcache.SweepEvery(time.Second), antcache.SweepEvery(0)}
	}},
	{"sweeps twice", func() []antcache.DiskOption {
		return []antcache.DiskOption{antcache.SweepEvery(time.Second), antcache.SweepEvery(time.Minute)}
	}},
	{"everything", func() []antcache.DiskOption {
		return []antcache.DiskOption{antcache.Compress(), antcache.Maxage(time.Hour), antcache.Maxsize(100), antcache.SweepEvery(time.Hour), antcache.Debug(func(string, ...any) {})}
	}},
}

func noneLeft(x *mc.X, fs *vos.FS, desc string) {
	if l := x.Leaked(); len(l) > 0 {
		x.Fail("goroutine left", "%s: %s", desc, x.Stuck())
	}
	x.Check(fs.Open == 0, "file left open", "%s: %d files are open", desc, fs.Open)
}

func init() {
	// What can be opened.
	add(&mc.Scenario{Name: "open/arguments", Prop: "C28", Quick: mc.Bound{Dev: 1, Policies: 1}, Thorough: mc.Bound{Dev: 1, Policies: 3}, Run: func(x *mc.X) {
		fs := dfs()
		fs.AddDir("/cache/sub dir")
		fs.AddFile("/file", "content", time.Now())
		p := mc.Pick(x, "path", root, "/cache/", "/cache/sub dir", "/", "/cache/../cache", "", ".", "cache", "./cache", "../cache", "/missing", "/cache/missing", "/file", "/file/x")
		want := p == root || p == "/cache/" || p == "/cache/sub dir" || p == "/" || p == "/cache/../cache"
		o := diskOptions[x.Choose(len(diskOptions), "options")]
		fault := mc.Pick(x, "fault", "", "open", "stat")
		failing := mc.Pick(x, "failing option", 0, 1)
		if failing == 1 && (o.name != "none" || fault != "") {
			x.Discard()
			return
		}
		hit := false
		fs.Hook = func(op vos.Op) vos.Action {
			if op.Kind == fault && !hit {
				hit = true
				return vos.Fault
			}
			return vos.OK
		}
		desc := fmt.Sprintf("Open(%q), options %s, fault %q", p, o.name, fault)
		x.NonTrivial()
		x.Go("main", func() {
			opts := o.opts()
			if failing == 1 {
				opts = append(opts, func(*antcache.Diskstore) error { return errBoom })
			}
			d, err := antcache.Open(p, opts...)
			fs.Hook = nil
			x.Obs("%s: %v", desc, err)
			if !want || hit || failing == 1 {
				if err == nil && want && hit && failing == 0 {
					// The fault may have hit the warm-up.
					d.Wait(bg)
					d.Close()
					return
				}
				x.Check(err != nil && d == nil, "opened", "%s: no error", desc)
				if failing == 1 {
					x.Check(errors.Is(err, errBoom), "error lost", "%s: %v", desc, err)
				}
				return
			}
			if !x.Check(err == nil, "not opened", "%s: %v", desc, err) {
				return
			}
			x.Check(d.Wait(bg) == nil, "wait", "%s", desc)
			for k := uint64(1); k < 3; k++ {
				x.Check(d.Store(bg, k, []byte(value(k, 1))) == nil, "store", "%s", desc)
				b, err := d.Load(bg, k)
				x.Check(err == nil && string(b) == value(k, 1), "load", "%s: %q %v", desc, b, err)
			}
			x.Check(d.Close() == nil, "close", "%s", desc)
		})
		if x.Finish() {
			noneLeft(x, fs, desc)
		}
	}})

	// What may be in the directory.
	names := []string{"1", "2", "18446744073709551615", "07", "12.tmp", "x", "-1", "+3", "18446744073709551616", "5/", "1e3", "0x10"}
	contents := func(name string, names []string, q, th mc.Bound) {
		add(&mc.Scenario{Name: "open/" + name, Prop: "C28", Horizon: 100 * time.Hour, Quick: q, Thorough: th, Run: func(x *mc.X) {
			fs := dfs()
			fs.Reverse = x.Flag("reverse directory order")
			want := map[uint64]string{}
			other := map[string]string{}
			now := time.Now()
			desc := ""
			for i, n := range names {
				if !x.Flag("has " + n) {
					continue
				}
				desc += n + " "
				v := value(uint64(i), 1)
				switch n {
				case "1":
					want[1] = v
				case "2":
					want[2] = v
				case "18446744073709551615":
					want[1<<64-1] = v
				default:
					other[strings.TrimSuffix(n, "/")] = v
				}
				if strings.HasSuffix(n, "/") {
					fs.AddDir(root + "/" + n)
					delete(other, strings.TrimSuffix(n, "/"))
				} else {
					fs.AddFile(root+"/"+n, v, now)
				}
			}
			before := fs.List(root)
			x.NonTrivial()
			x.State(desc)
			x.Go("main", func() {
				d, err := antcache.Open(root, antcache.SweepEvery(time.Hour))
				if !x.Check(err == nil, "open", "%s: %v", desc, err) {
					return
				}
				x.Check(d.Wait(bg) == nil, "wait", "%s", desc)
				for _, k := range []uint64{0, 1, 2, 3, 5, 7, 10, 12, 16, 1000, 1<<64 - 1} {
					b, err := d.Load(bg, k)
					x.Check(err == nil && loaded(b) == want[k] && (b != nil) == (want[k] != ""), "directory contents", "%s: key %d is %q %v, want %q", desc, k, b, err, want[k])
				}
				// Sweeping everything leaves what is not an entry.
				x.Point("sleep")
				time.Sleep(26 * time.Hour)
				x.Point("awake")
				left := fs.List(root)
				var keep []string
				for _, n := range before {
					if n != "1" && n != "2" && n != "18446744073709551615" {
						keep = append(keep, n)
					}
				}
				sort.Strings(keep)
				x.Check(fmt.Sprint(left) == fmt.Sprint(keep), "swept", "%s: after sweeping %v, want %v", desc, left, keep)
				for n, v := range other {
					c, _ := fs.Content(root + "/" + n)
					x.Check(c == v, "unrelated file changed", "%s: %s", desc, n)
				}
				x.Check(d.Store(bg, 7, []byte("seven")) == nil, "store", "%s", desc)
				b, err := d.Load(bg, 7)
				x.Check(err == nil && string(b) == "seven", "load", "%s: %q %v", desc, b, err)
				x.Check(d.Close() == nil, "close", "%s", desc)
				l := newLog(x, desc)
				l.settle(7, "seven")
				l.reopen()
			})
			if x.Finish() {
				noneLeft(x, fs, desc)
			}
		}})
	}
	contents("contents", names[:9], mc.Bound{Policies: 1}, mc.Bound{Skip: true})
	contents("all contents", names, mc.Bound{Skip: true}, mc.Bound{Policies: 1})
	contents("odd names", []string{"2", "07", "5/", "1e3", "0x10"}, mc.Bound{Policies: 1}, mc.Bound{Policies: 1})

	// Entries of any size and any time.
	add(&mc.Scenario{Name: "open/values", Prop: "C28", Horizon: 100 * time.Hour, Quick: mc.Bound{Policies: 1}, Thorough: mc.Bound{Policies: 3}, Run: func(x *mc.X) {
		fs := dfs()
		var opts []antcache.DiskOption
		if x.Flag("compress") {
			opts = append(opts, antcache.Compress())
		}
		if x.Flag("no sweeps") {
			opts = append(opts, antcache.SweepEvery(0))
		}
		values := map[uint64]string{}
		desc := ""
		for k := uint64(1); k <= 2; k++ {
			n := mc.Pick(x, "size", 0, 1, 4096, 70000)
			values[k] = strings.Repeat("v", n)
			desc += fmt.Sprintf("%d bytes ", n)
		}
		age := mc.Pick(x, "age", 0, -time.Minute, -1000*time.Hour, 20*time.Hour, 1000*time.Hour)
		desc += fmt.Sprintf("old by %v", age)
		x.NonTrivial()
		x.State(desc)
		x.Go("main", func() {
			d, err := antcache.Open(root, opts...)
			if !x.Check(err == nil, "open", "%s: %v", desc, err) {
				return
			}
			for k, v := range values {
				x.Check(d.Store(bg, k, []byte(v)) == nil, "store", "%s", desc)
			}
			x.Check(d.Close() == nil, "close", "%s", desc)
			for k := range values {
				c, ok := fs.Content(fileOf(k))
				x.Check(ok, "store", "%s: %d has no file", desc, k)
				fs.AddFile(fileOf(k), c, time.Now().Add(-age))
			}
			d, err = antcache.Open(root, opts...)
			if !x.Check(err == nil, "open", "%s: %v", desc, err) {
				return
			}
			x.Check(d.Wait(bg) == nil, "wait", "%s", desc)
			for k, v := range values {
				b, err := d.Load(bg, k)
				x.Check(err == nil && b != nil && string(b) == v, "entries missing", "%s: key %d is %d bytes (%v) %v", desc, k, len(b), b != nil, err)
			}
			x.Obs("%s", desc)
			x.Check(d.Close() == nil, "close", "%s", desc)
		})
		if x.Finish() {
			noneLeft(x, fs, desc)
		}
	}})

	// Many entries, errors while reading them.
	add(&mc.Scenario{Name: "open/read errors", Prop: "C28", Horizon: 100 * time.Hour, Quick: mc.Bound{Dev: 2, Policies: 1}, Thorough: mc.Bound{Dev: 4, Policies: 1}, Run: func(x *mc.X) {
		fs := dfs()
		n := mc.Pick(x, "entries", 0, 1, 4, 5, 6, 11)
		for k := 1; k <= n; k++ {
			fs.AddFile(fileOf(uint64(k)), value(uint64(k), 1), time.Now())
		}
		nf, dirf, gone := 0, 0, false
		fs.Hook = func(o vos.Op) vos.Action {
			if o.Kind == "open" {
				return vos.OK
			}
			if gone && o.Kind == "readdir" {
				return vos.Fault
			}
			if k := x.Deviate(3, "fault in "+o.Kind); k > 0 {
				nf++
				if o.Kind == "readdir" {
					dirf++
					gone = k == 2 // for good
				}
				return vos.Fault
			}
			return vos.OK
		}
		x.NonTrivial()
		desc := ""
		x.Go("main", func() {
			d, err := antcache.Open(root, antcache.SweepEvery(time.Minute))
			if err != nil {
				x.Check(nf > 0, "open", "%v", err)
				return
			}
			x.Check(d.Wait(bg) == nil, "wait", "wait failed")
			fs.Hook = nil
			desc = fmt.Sprintf("%d entries, %d faults", n, nf)
			miss := 0
			for k := uint64(1); k <= 12; k++ {
				b, err := d.Load(bg, k)
				want := ""
				if int(k) <= n {
					want = value(k, 1)
				}
				if b == nil && want != "" {
					miss++
				}
				x.Check(err == nil && (b == nil || string(b) == want), "wrong value", "%s: key %d is %q %v", desc, k, b, err)
			}
			x.Obs("%s, %d missing", desc, miss)
			x.Check(miss == 0 || nf > 0, "entries missing", "%s: %d entries are missing", desc, miss)
			x.Check(miss <= nf || dirf > 0, "entries missing", "%s: %d entries are missing", desc, miss)
			x.Check(d.Store(bg, 3, []byte("three")) == nil, "store", "%s", desc)
			b, err := d.Load(bg, 3)
			x.Check(err == nil && string(b) == "three", "load", "%s: %q %v", desc, b, err)
			x.Check(d.Close() == nil, "close", "%s", desc)
		})
		if x.Finish() {
			fs.Hook = nil
			noneLeft(x, fs, desc)
		}
	}})

	// Closing, waiting and everything else at the same time.
	type cfg struct {
		name    string
		initial int
		opts    int
		procs   []string // o (in the opener) c close, s store, l load, w wait, k wait with a context that is canceled, z sleep
		q, th   mc.Bound
		timeOpt bool
	}
	q2, t3 := mc.Bound{Dev: 2, Policies: 3}, mc.Bound{Dev: 3, Policies: 3}
	cfgs := []cfg{
		{name: "close at once", initial: 6, opts: 0, procs: []string{"c"}, q: q2, th: t3},
		{name: "close, no sweeps", initial: 6, opts: 1, procs: []string{"c"}, q: q2, th: t3},
		{name: "close and wait", initial: 2, opts: 0, procs: []string{"c", "w l"}, q: q2, th: t3},
		{name: "close and canceled wait", initial: 2, opts: 0, procs: []string{"c", "k", "x"}, q: mc.Bound{Dev: 1, Policies: 3}, th: mc.Bound{Dev: 2, Policies: 3}},
		{name: "canceled wait", initial: 2, opts: 1, procs: []string{"k c", "x"}, q: q2, th: t3},
		{name: "close and store", initial: 1, opts: 0, procs: []string{"c", "s l"}, q: q2, th: t3},
		{name: "store, then close", initial: 1, opts: 0, procs: []string{"s c"}, q: q2, th: t3},
		{name: "close while sweeping", initial: 2, opts: 4, procs: []string{"z c", "l z l"}, timeOpt: true, q: q2, th: t3},
		{name: "close while warming up and sweeping", initial: 7, opts: 4, procs: []string{"c"}, timeOpt: true, q: q2, th: t3},
		{name: "two waits", initial: 1, opts: 1, procs: []string{"w l", "w l c"}, q: q2, th: t3},
	}
	for _, c := range cfgs {
		c := c
		add(&mc.Scenario{Name: "close/" + c.name, Prop: "C28", Quick: c.q, Thorough: c.th, TimeOpt: c.timeOpt, Horizon: 6 * time.Hour, Run: func(x *mc.X) {
			fs := dfs()
			for k := 1; k <= c.initial; k++ {
				fs.AddFile(fileOf(uint64(k)), value(uint64(k), 1), time.Now().Add(-time.Hour))
			}
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			closing, closed, canceled := false, false, false
			fs.Hook = func(o vos.Op) vos.Action {
				if closed && (o.Kind == "readdir" || o.Kind == "remove" || o.Kind == "stat" && o.Path != root) && !strings.HasSuffix(o.Path, ".tmp") {
					x.Fail("work after close", "%s after Close returned", o)
				}
				return vos.OK
			}
			x.NonTrivial()
			stored := map[uint64][]string{}
			var d *antcache.Diskstore
			run := func(ops string) {
				for _, o := range strings.Fields(ops) {
					switch o {
					case "c":
						closing = true
						err := d.Close()
						closed = true
						x.Check(err == nil, "close", "Close: %v", err)
					case "w":
						err := d.Wait(bg)
						x.Check(err == nil, "wait", "Wait: %v", err)
						if !closing {
							for k := 1; k <= c.initial; k++ {
								b, err := d.Load(bg, uint64(k))
								x.Check(err == nil && (loaded(b) == value(uint64(k), 1) || len(stored[uint64(k)]) > 0), "not warm", "key %d is %q %v after Wait", k, b, err)
							}
						}
					case "k":
						err := d.Wait(ctx)
						x.Obs("wait: %v", err)
						x.Check(err == nil || (canceled && errors.Is(err, context.Canceled)), "wait", "Wait: %v", err)
						// With its context over before the call and nothing to wait for, either is fine.
					case "x":
						x.Point("cancel")
						canceled = true
						cancel()
					case "s":
						v := value(1, 2)
						err := d.Store(bg, 1, []byte(v))
						x.Obs("store: %v", err != nil)
						if x.Check(err == nil || closing, "store", "Store: %v", err); err == nil {
							stored[1] = []string{v}
						} else {
							stored[1] = []string{v, value(1, 1)}
						}
					case "l":
						for k := 1; k <= c.initial; k++ {
							b, err := d.Load(bg, uint64(k))
							x.Check(err == nil && (b == nil || string(b) == value(uint64(k), 1) || len(stored[uint64(k)]) > 0 && string(b) == stored[uint64(k)][0]), "load", "Load(%d): %q %v", k, b, err)
						}
					case "z":
						x.Point("sleep")
						time.Sleep(time.Second)
						x.Point("awake")
					}
				}
			}
			x.Go("open", func() {
				var err error
				d, err = antcache.Open(root, diskOptions[c.opts].opts()...)
				if !x.Check(err == nil, "open", "%v", err) {
					return
				}
				for i, p := range c.procs {
					p := p
					x.Go(fmt.Sprint("caller", i), func() { run(p) })
				}
			})
			if !x.Finish() || x.Failed() {
				return
			}
			noneLeft(x, fs, c.name)
			fs.Hook = nil
			x.NoTimeOpt()
			x.Go("reopen", func() {
				l := newLog(x, c.name)
				for k := 1; k <= c.initial; k++ {
					l.settle(uint64(k), value(uint64(k), 1))
				}
				if s := stored[1]; len(s) > 0 {
					l.key(1).initial = s[0]
					if len(s) > 1 {
						l.key(1).initial = s[1]
						l.key(1).stores = []*storeOp{{val: s[0], start: 1}}
					}
				}
				l.reopen()
			})
			x.Finish()
		}})
	}

	// Closing amidst a sweep that removes entries: once Close returned,
	// nothing is removed any more.
	add(&mc.Scenario{Name: "close/while removing", Prop: "C28", Quick: mc.Bound{Dev: 3, Policies: 3}, Thorough: mc.Bound{Dev: 4, Policies: 3}, TimeOpt: true, Horizon: 6 * time.Hour, Run: func(x *mc.X) {
		fs := dfs()
		fs.Reverse = x.Flag("reverse directory order")
		limit := antcache.Maxage(100 * time.Hour)
		if x.Flag("size limit") {
			limit = antcache.Maxsize(int64(len(value(1, 1))))
		}
		old := x.Choose(3, "surplus entries") + 1
		fs.AddFile(fileOf(1), value(1, 1), time.Now().Add(-time.Minute))
		for k := 2; k < 2+old; k++ {
			fs.AddFile(fileOf(uint64(k)), value(uint64(k), 1), time.Now().Add(-200*time.Hour))
		}
		closed := false
		removed := 0
		fs.Hook = func(o vos.Op) vos.Action {
			if o.Kind == "remove" {
				removed++
			}
			if closed && (o.Kind == "readdir" || o.Kind == "remove" || o.Kind == "stat" && o.Path != root) {
				x.Fail("work after close", "%s after Close returned", o)
			}
			return vos.OK
		}
		x.NonTrivial()
		x.Go("main", func() {
			d, err := antcache.Open(root, antcache.SweepEvery(time.Second), limit)
			if !x.Check(err == nil, "open", "%v", err) {
				return
			}
			if x.Flag("wait first") {
				x.Check(d.Wait(bg) == nil, "wait", "")
			}
			x.Point("sleep")
			time.Sleep(time.Second)
			x.Point("awake")
			x.Check(d.Close() == nil, "close", "Close")
			closed = true
			n := removed
			x.Obs("%d of %d removed", n, old)
			x.Point("sleep")
			time.Sleep(time.Minute)
			x.Point("awake")
			x.Check(removed == n, "work after close", "%d removed when Close returned, %d later", n, removed)
			if c, ok := fs.Content(fileOf(1)); x.Check(ok && c == value(1, 1), "survivor lost", "%q %v", c, ok) {
				x.Check(len(fs.List(root)) == 1+old-n, "wrong files", "%v, %d removed", fs.List(root), n)
			}
		})
		if x.Finish() {
			fs.Hook = nil
			noneLeft(x, fs, "close while removing")
		}
	}})
}
