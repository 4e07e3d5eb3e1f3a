package hcache

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"log"
	"sort"
	"strings"
	"time"

	"github.com/yields/ant/antcache"
	"github.com/yields/ant/zverif/mc"
	"github.com/yields/ant/zverif/vos"
)

func init() { log.SetOutput(io.Discard) }

var bg = context.Background()

const root = "/cache"

// dfs returns a file system with an empty cache directory.
func dfs() *vos.FS {
	f := vos.New()
	f.AddDir(root)
	vos.Use(f)
	return f
}

// value returns the i-th value of a key: distinct, and no prefix of another.
func value(key uint64, i int) string {
	return fmt.Sprintf("[%d.%d%s]", key, i, strings.Repeat(string(rune('a'+i)), 3+2*i))
}

func fileOf(key uint64) string { return fmt.Sprintf("%s/%d", root, key) }

// keyLog remembers what happened to a key.
type keyLog struct {
	initial string // "" for none
	stores  []*storeOp
	swept   bool // a sweep may have removed it
}

type storeOp struct {
	val        string
	start, end int // end 0: did not return
	failed     bool
}

// allowed tells which values a later load may return, "" for nothing.
func (k *keyLog) allowed() map[string]bool {
	r := map[string]bool{}
	acked := false
	for _, s := range k.stores {
		if s.end > 0 && !s.failed {
			acked = true
		}
		over := false
		for _, t := range k.stores {
			// t began after s had ended, and returned.
			if s != t && t.end > 0 && !t.failed && s.end > 0 && t.start > s.end {
				over = true
			}
		}
		if !over {
			r[s.val] = true
		}
	}
	if !acked {
		r[k.initial] = true
	}
	if k.swept {
		r[""] = true
	}
	return r
}

type disklog struct {
	x    *mc.X
	keys map[uint64]*keyLog
	seq  int
	desc string
}

func newLog(x *mc.X, desc string) *disklog {
	return &disklog{x: x, keys: map[uint64]*keyLog{}, desc: desc}
}

func (l *disklog) key(k uint64) *keyLog {
	if l.keys[k] == nil {
		l.keys[k] = &keyLog{}
	}
	return l.keys[k]
}

func (l *disklog) store(d *antcache.Diskstore, k uint64, v string) error {
	l.seq++
	s := &storeOp{val: v, start: l.seq}
	l.key(k).stores = append(l.key(k).stores, s)
	b := []byte(v)
	err := d.Store(bg, k, b)
	if string(b) != v {
		l.x.Fail("value modified", "%s: Store modified the value", l.desc)
	}
	l.seq++
	s.end, s.failed = l.seq, err != nil
	return err
}

// settle replaces the history of a key by its outcome.
func (l *disklog) settle(k uint64, v string) { *l.key(k) = keyLog{initial: v} }

func loaded(b []byte) string {
	if b == nil {
		return ""
	}
	return string(b)
}

// reopen opens the directory as it was left and checks what is in it.
func (l *disklog) reopen(opts ...antcache.DiskOption) {
	x := l.x
	opts = append([]antcache.DiskOption{antcache.SweepEvery(0)}, opts...)
	d, err := antcache.Open(root, opts...)
	if !x.Check(err == nil, "cannot be opened", "%s: reopen: %v", l.desc, err) {
		return
	}
	if !x.Check(d.Wait(bg) == nil, "wait", "%s: reopen: Wait failed", l.desc) {
		return
	}
	var ks []uint64
	for k := range l.keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	for _, k := range ks {
		b, err := d.Load(bg, k)
		if !x.Check(err == nil, "load error", "%s: reopen: Load(%d): %v", l.desc, k, err) {
			return
		}
		v := loaded(b)
		ok := l.key(k).allowed()
		x.Obs("%d=%s", k, v)
		if !ok[v] {
			what := "damaged value"
			switch {
			case v == "":
				what = "stored value lost"
			case v == l.key(k).initial:
				what = "older value is back"
			}
			for _, s := range l.key(k).stores {
				if s.val == v {
					what = "older value is back"
				}
			}
			x.Fail(what, "%s: reopen: key %d is %q, allowed %v, directory %s", l.desc, k, v, ok, vos.Current().Dump())
			return
		}
		l.settle(k, v)
	}
	// No key that was never stored appears.
	for k := uint64(0); k < 12; k++ {
		if l.keys[k] == nil {
			b, err := d.Load(bg, k)
			x.Check(err == nil && b == nil, "leftover served", "%s: reopen: key %d is %q %v, directory %s", l.desc, k, b, err, vos.Current().Dump())
		}
	}
	if err := d.Close(); err != nil {
		x.Fail("close", "%s: reopen: Close: %v", l.desc, err)
	}
}

// usable checks that a reopened directory works.
func (l *disklog) usable(opts ...antcache.DiskOption) {
	x := l.x
	d, err := antcache.Open(root, append([]antcache.DiskOption{antcache.SweepEvery(0)}, opts...)...)
	if !x.Check(err == nil, "cannot be opened", "%s: reopen: %v", l.desc, err) {
		return
	}
	d.Wait(bg)
	for _, k := range []uint64{1, 2} {
		v := value(k, 9)
		if !x.Check(d.Store(bg, k, []byte(v)) == nil, "not usable", "%s: store after reopening", l.desc) {
			return
		}
		b, err := d.Load(bg, k)
		x.Check(err == nil && string(b) == v, "not usable", "%s: load after reopening: %q %v", l.desc, b, err)
	}
	d.Close()
}

// Crashes of a single writer.
func init() {
	hist := func(name string, n int, rounds int, sweep bool, q, th mc.Bound) {
		add(&mc.Scenario{Name: "crash/" + name, Prop: "C24", Quick: q, Thorough: th, Horizon: 100 * time.Hour, Run: func(x *mc.X) {
			fs := dfs()
			var opts []antcache.DiskOption
			desc := ""
			if x.Flag("compress") {
				opts = append(opts, antcache.Compress())
				desc += "compressed "
			}
			l := newLog(x, desc)
			x.NonTrivial()
			total := rounds
			for round := 0; round < total; round++ {
				round := round
				crashed := false
				fs.Hook = func(o vos.Op) vos.Action {
					if o.Mutates() && x.Flag("crash before "+o.Kind) {
						crashed = true
						l.desc += fmt.Sprintf("(crash at %s) ", o)
						return vos.Crash
					}
					return vos.OK
				}
				ropts := opts
				if sweep {
					ropts = append(append([]antcache.DiskOption{}, opts...), antcache.Maxsize(40), antcache.SweepEvery(time.Minute))
				} else {
					ropts = append(append([]antcache.DiskOption{}, opts...), antcache.SweepEvery(0))
				}
				x.Go(fmt.Sprint("round", round), func() {
					d, err := antcache.Open(root, ropts...)
					if err != nil {
						x.Fail("open", "%s: %v", l.desc, err)
						return
					}
					d.Wait(bg)
					for i := 0; i < n; i++ {
						k := uint64(1)
						c := 3
						if sweep {
							c = 4
						}
						if i == 0 && round == 0 {
							c = 1 // key 1 first, by symmetry
						}
						switch x.Choose(c, "op") {
						case 1:
							k = 2
						case 2:
							// Nothing more.
							l.desc += "end "
							i = n
							continue
						case 3:
							l.desc += "sweep "
							for _, k := range l.keys {
								k.swept = true
							}
							x.Point("sleep")
							time.Sleep(61 * time.Second)
							x.Point("awake")
							continue
						}
						v := value(k, round*n+i)
						l.desc += fmt.Sprintf("store %s ", v)
						if err := l.store(d, k, v); err != nil {
							x.Fail("store", "%s: %v", l.desc, err)
						}
					}
					if x.Flag("close") {
						l.desc += "close "
						d.Close()
					}
					// The crash comes later.
					crashed = true
					fs.Hook = func(o vos.Op) vos.Action { return vos.Crash }
					vos.Stat("/")
				})
				if !x.Finish() {
					return
				}
				if !crashed {
					x.Fail("internal", "no crash")
					return
				}
				machine := x.Flag("machine crash")
				if machine {
					l.desc += "power failure "
				}
				fs.Hook = nil
				fs = fs.Image(machine, func(n int, label string) int { return x.Choose(n, label) })
				vos.Use(fs)
				x.State(desc + fs.Dump())
				x.Logf("%s", l.desc)
				x.Go("reopen", func() { l.reopen(opts...) })
				if !x.Finish() || x.Failed() {
					return
				}
			}
			x.Go("usable", func() { l.usable(opts...) })
			x.Finish()
		}})
	}
	hist("stores", 3, 1, false, mc.Bound{Policies: 1}, mc.Bound{Policies: 1})
	hist("more stores", 4, 1, false, mc.Bound{Skip: true}, mc.Bound{Policies: 1})
	hist("twice", 1, 2, false, mc.Bound{Policies: 1}, mc.Bound{Policies: 1})
	hist("twice, more stores", 2, 2, false, mc.Bound{Skip: true}, mc.Bound{Policies: 1})
	hist("three times", 1, 3, false, mc.Bound{Skip: true}, mc.Bound{Policies: 1})
	hist("sweeps", 3, 1, true, mc.Bound{Policies: 1}, mc.Bound{Policies: 1})
	hist("more sweeps", 4, 1, true, mc.Bound{Skip: true}, mc.Bound{Policies: 1})
}

// Crashes of concurrent writers.
func init() {
	type proc struct{ key, n int }
	conc := func(name string, initial bool, procs [][]uint64, sweep bool, q, th mc.Bound) {
		add(&mc.Scenario{Name: "crash/concurrent " + name, Prop: "C24", Quick: q, Thorough: th, Horizon: 100 * time.Hour, Run: func(x *mc.X) {
			fs := dfs()
			l := newLog(x, "")
			opts := []antcache.DiskOption{antcache.SweepEvery(0)}
			if initial {
				fs.AddFile(fileOf(1), value(1, 9), time.Now().Add(-25*time.Hour))
				l.key(1).initial = value(1, 9)
			}
			if sweep {
				opts = []antcache.DiskOption{antcache.SweepEvery(time.Second)}
				l.key(1).swept = true
			}
			x.NonTrivial()
			fs.Hook = func(o vos.Op) vos.Action {
				if o.Mutates() && x.Flag("crash before "+o.Kind) {
					l.desc += fmt.Sprintf("(crash at %s) ", o)
					return vos.Crash
				}
				return vos.OK
			}
			var d *antcache.Diskstore
			x.Go("open", func() {
				var err error
				d, err = antcache.Open(root, opts...)
				if err == nil {
					err = d.Wait(bg)
				}
				if err != nil {
					x.Fail("open", "%v", err)
				}
			})
			if !x.Finish() || x.Failed() {
				return
			}
			n := 0
			for i, p := range procs {
				p, i := p, i
				x.Go(fmt.Sprint("writer", i), func() {
					if sweep && i == 0 {
						x.Point("sleep")
						time.Sleep(time.Second)
						x.Point("awake")
					}
					for _, k := range p {
						n++
						v := value(k, n)
						l.desc += fmt.Sprintf("store %s ", v)
						err := l.store(d, k, v)
						l.desc += fmt.Sprintf("%s stored ", v)
						if err != nil {
							x.Fail("store", "%s: %v", l.desc, err)
						}
						if len(l.key(k).stores) > 0 && sweep {
							// Only the old version can expire.
							l.key(k).swept = false
						}
					}
				})
			}
			if !x.Finish() {
				return
			}
			machine := x.Flag("machine crash")
			fs.Hook = nil
			fs = fs.Image(machine, func(n int, label string) int { return x.Choose(n, label) })
			vos.Use(fs)
			x.State(fs.Dump())
			x.Go("kill", func() { l.reopen() })
			x.Finish()
		}})
	}
	conc("same key", false, [][]uint64{{1}, {1}}, false, mc.Bound{Dev: 1, Policies: 2}, mc.Bound{Dev: 2, Policies: 3})
	conc("same key, replaced", true, [][]uint64{{1}, {1}}, false, mc.Bound{Dev: 1, Policies: 2}, mc.Bound{Dev: 2, Policies: 3})
	conc("two keys", true, [][]uint64{{1, 2}, {2}}, false, mc.Bound{Dev: 1, Policies: 2}, mc.Bound{Dev: 2, Policies: 3})
	conc("sweeping", true, [][]uint64{{1}, {2}}, true, mc.Bound{Dev: 1, Policies: 2}, mc.Bound{Dev: 2, Policies: 3})
}

// ---------------------------------------------------------------- C25

// event of a concurrent history of one key.
type event struct {
	kind       string // store load wait
	val        string
	start, end int
}

// regState of the reference: what a key holds.
const (
	unloaded = "\x00unloaded"
	nothing  = ""
)

// linearizable searches an order of the events in which every load returns
// what the key holds. The initial value appears at any time before a wait;
// evictable values may vanish at any time.
func linearizable(initial string, evs []event, evictable func(string) bool) bool {
	type key struct {
		done int
		st   string
	}
	seen := map[key]bool{}
	all := 1<<len(evs) - 1
	var rec func(done int, st string) bool
	rec = func(done int, st string) bool {
		if done == all {
			return true
		}
		k := key{done, st}
		if seen[k] {
			return false
		}
		seen[k] = true
		if st == unloaded && rec(done, initial) {
			return true
		}
		if st != unloaded && st != nothing && evictable(st) && rec(done, nothing) {
			return true
		}
		for i, e := range evs {
			if done&(1<<i) != 0 {
				continue
			}
			// Something not done yet that ended before e began comes first.
			first := true
			for j, g := range evs {
				if j != i && done&(1<<j) == 0 && g.end < e.start {
					first = false
				}
			}
			if !first {
				continue
			}
			switch e.kind {
			case "store":
				if rec(done|1<<i, e.val) {
					return true
				}
			case "load":
				have := st
				if st == unloaded {
					have = nothing
				}
				if have == e.val && rec(done|1<<i, st) {
					return true
				}
			case "wait":
				if st != unloaded && rec(done|1<<i, st) {
					return true
				}
			}
		}
		return false
	}
	st := unloaded
	if initial == "" {
		st = nothing
	}
	return rec(0, st)
}

func init() {
	type cfg struct {
		name    string
		initial map[uint64]int // key: age in hours
		procs   []string       // ops: s1 (store key 1), l1, w (wait), z (sleep till the sweep), e (a bit longer)
		sweep   bool
		maxsize int64
		evict   string // prefix of values that may be swept
		wait    bool   // before the others start
		comp    bool
		final   string // what must be there in the end
		q, th   mc.Bound
		fine    bool
		timeOpt bool // time may pass while others can run
		maxage  time.Duration
	}
	q2, t3 := mc.Bound{Dev: 2, Policies: 3}, mc.Bound{Dev: 3, Policies: 3}
	cfgs := []cfg{
		{name: "store and load", procs: []string{"s1 l1", "s1 l1"}, wait: true, q: q2, th: t3},
		{name: "stores", procs: []string{"s1 s1", "s1", "l1 l1"}, wait: true, q: mc.Bound{Dev: 1, Policies: 3}, th: mc.Bound{Dev: 2, Policies: 3}},
		{name: "replace", initial: map[uint64]int{1: 1}, procs: []string{"s1 l1", "l1 l1"}, wait: true, q: q2, th: t3},
		{name: "two keys", initial: map[uint64]int{1: 1, 2: 1}, procs: []string{"s1 l2", "s2 l1"}, wait: true, q: q2, th: t3},
		{name: "compressed", initial: map[uint64]int{}, procs: []string{"s1 l1", "s1 l1"}, comp: true, wait: true, q: mc.Bound{Dev: 1, Policies: 3}, th: t3},
		{name: "warming up", initial: map[uint64]int{1: 1}, procs: []string{"l1 s1 l1", "w l1"}, q: q2, th: t3},
		{name: "warming up, two keys", initial: map[uint64]int{1: 1, 2: 1}, procs: []string{"s1 w l1", "l2 w l2"}, q: q2, th: t3},
		{name: "warming up, stores", initial: map[uint64]int{1: 1}, procs: []string{"s1 w l1", "s1"}, q: q2, th: t3},
		{name: "expiring", initial: map[uint64]int{1: 25}, procs: []string{"z s1 l1", "z l1 l1"}, sweep: true, evict: "[1.0", wait: true, q: q2, th: t3},
		{name: "expiring, stored twice", initial: map[uint64]int{1: 25}, procs: []string{"z s1", "z s1 l1"}, sweep: true, evict: "[1.0", wait: true, q: mc.Bound{Dev: 1, Policies: 3}, th: mc.Bound{Dev: 2, Policies: 3}},
		{name: "expiring while warming up", initial: map[uint64]int{1: 25}, procs: []string{"s1 z l1", "z w l1"}, sweep: true, evict: "[1.0", q: q2, th: t3},
		{name: "surplus", initial: map[uint64]int{1: 3, 2: 2}, procs: []string{"z s1 l1", "z l2 l1"}, sweep: true, maxsize: 18, evict: "[1.0", wait: true, q: q2, th: t3},
		{name: "surplus while loading", initial: map[uint64]int{1: 3, 2: 2}, procs: []string{"z l1", "z l1 l2"}, sweep: true, maxsize: 12, evict: "[1.0", wait: true, q: q2, th: t3},
		{name: "expiring soon while warming up", initial: map[uint64]int{}, procs: []string{"s1 z l1"}, sweep: true, maxage: 5 * time.Second, evict: "[", timeOpt: true, q: mc.Bound{Dev: 2, Policies: 3}, th: mc.Bound{Dev: 3, Policies: 3}},
		{name: "expiring soon", initial: map[uint64]int{1: 1}, procs: []string{"s1 z l1", "z s1 l1"}, sweep: true, maxage: 5 * time.Second, evict: "[", timeOpt: true, q: mc.Bound{Dev: 2, Policies: 3}, th: mc.Bound{Dev: 3, Policies: 3}},
		{name: "statements", initial: map[uint64]int{1: 1}, procs: []string{"s1", "l1"}, wait: true, fine: true, q: mc.Bound{Dev: 1, Policies: 2}, th: mc.Bound{Dev: 2, Policies: 2}},
		{name: "statements, expiring", initial: map[uint64]int{1: 25}, procs: []string{"z s1 l1"}, sweep: true, evict: "[1.0", wait: true, fine: true, q: mc.Bound{Dev: 1, Policies: 2}, th: mc.Bound{Dev: 2, Policies: 2}},
	}
	for _, c := range cfgs {
		c := c
		add(&mc.Scenario{Name: "disk/" + c.name, Prop: "C25", Quick: c.q, Thorough: c.th, Horizon: 100 * time.Hour, Fine: c.fine, TimeOpt: c.timeOpt, FineFiles: []string{"disk.go"}, Run: func(x *mc.X) {
			fs := dfs()
			if c.initial != nil && len(c.initial) > 1 {
				fs.Reverse = x.Flag("reverse directory order")
			}
			var opts []antcache.DiskOption
			if c.comp {
				opts = append(opts, antcache.Compress())
			}
			ini := map[uint64]string{}
			for _, k := range []uint64{1, 2} {
				if h, ok := c.initial[k]; ok {
					ini[k] = value(k, 0)
					fs.AddFile(fileOf(k), ini[k], time.Now().Add(-time.Duration(h)*time.Hour))
				}
			}
			if c.sweep {
				opts = append(opts, antcache.SweepEvery(10*time.Second))
			} else {
				opts = append(opts, antcache.SweepEvery(0))
			}
			if c.maxage > 0 {
				opts = append(opts, antcache.Maxage(c.maxage))
			}
			if c.maxsize > 0 {
				opts = append(opts, antcache.Maxsize(c.maxsize))
			}
			x.NonTrivial()
			hist := map[uint64][]event{}
			seq := 0
			tick := func() int { seq++; return seq }
			var d *antcache.Diskstore
			n := map[uint64]int{}
			ops := func(list string) {
				for _, o := range strings.Fields(list) {
					k := uint64(0)
					if len(o) > 1 {
						k = uint64(o[1] - '0')
					}
					e := event{start: tick()}
					switch o[0] {
					case 's':
						n[k]++
						e.kind, e.val = "store", value(k, n[k])
						err := d.Store(bg, k, []byte(e.val))
						x.Check(err == nil, "store error", "Store(%d): %v", k, err)
					case 'l':
						e.kind = "load"
						b, err := d.Load(bg, k)
						if !x.Check(err == nil, "load error", "Load(%d): %v", k, err) {
							return
						}
						e.val = loaded(b)
					case 'w':
						e.kind = "wait"
						if !x.Check(d.Wait(bg) == nil, "wait error", "Wait failed") {
							return
						}
					case 'z', 'e':
						x.Point("sleep")
						time.Sleep(10 * time.Second)
						x.Point("awake")
						continue
					}
					e.end = tick()
					x.Obs("%s %s", o, e.val)
					if e.kind == "wait" {
						hist[1] = append(hist[1], e)
						hist[2] = append(hist[2], e)
					} else {
						hist[k] = append(hist[k], e)
					}
				}
			}
			x.Go("open", func() {
				var err error
				d, err = antcache.Open(root, opts...)
				x.Check(err == nil, "open", "%v", err)
				if c.wait && err == nil {
					ops("w")
				} else if err == nil {
					// The others start while it warms up.
					for i, p := range c.procs {
						p := p
						_ = i
						x.Go("caller", func() { ops(p) })
					}
				}
			})
			if !x.Finish() || x.Failed() {
				return
			}
			if c.wait {
				for i, p := range c.procs {
					p := p
					x.Go(fmt.Sprint("caller", i), func() { ops(p) })
				}
				if !x.Finish() || x.Failed() {
					return
				}
			}
			x.Go("after", func() {
				last := "w l1 l2"
				if c.sweep {
					last = "w z l1 l2"
				}
				ops(last)
			})
			if !x.Finish() || x.Failed() {
				return
			}
			for _, k := range []uint64{1, 2} {
				ok := linearizable(ini[k], hist[k], func(v string) bool { return c.evict != "" && strings.HasPrefix(v, c.evict) })
				if !x.Check(ok, "not linearizable", "key %d (initially %q): %+v", k, ini[k], hist[k]) {
					return
				}
			}
			x.NoTimeOpt()
			x.Go("close", func() {
				err := d.Close()
				x.Check(err == nil, "close", "%v", err)
				// What was loaded last is what a later process finds.
				l := newLog(x, x.Observed())
				for _, k := range []uint64{1, 2} {
					l.settle(k, hist[k][len(hist[k])-1].val)
					l.key(k).swept = c.evict == "["
				}
				if c.comp {
					l.reopen(antcache.Compress())
				} else {
					l.reopen()
				}
			})
			x.Finish()
			for _, name := range fs.List(root) {
				x.Check(!strings.HasSuffix(name, ".tmp"), "temporary file left", "directory %s", fs.Dump())
			}
		}})
	}
}

// ---------------------------------------------------------------- C26

func init() {
	type ent struct {
		key  uint64
		age  time.Duration
		size int
	}
	ages := []time.Duration{0, time.Hour, 10 * time.Hour, 30 * time.Hour}
	type limit struct {
		age  time.Duration
		size int64
	}
	model := func(es []ent, l limit) (left []ent) {
		es = append([]ent(nil), es...)
		sort.SliceStable(es, func(i, j int) bool { return es[i].age > es[j].age })
		sum := int64(0)
		for _, e := range es {
			if l.age > 0 && e.age > l.age {
				continue
			}
			left = append(left, e)
			sum += int64(e.size)
		}
		for l.size > 0 && sum > l.size && len(left) > 0 {
			sum -= int64(left[0].size)
			left = left[1:]
		}
		return left
	}
	run := func(x *mc.X, n int, sizes []int, limits []limit, every []time.Duration, store bool) {
		fs := dfs()
		fs.Reverse = x.Flag("reverse directory order")
		now := time.Now()
		gap := mc.Pick(x, "gap", time.Minute, 10*time.Millisecond)
		var es []ent
		data := map[uint64]string{}
		for i := 0; i < n; i++ {
			e := ent{key: uint64(i + 1), age: ages[x.Choose(len(ages), "age")], size: sizes[x.Choose(len(sizes), "size")]}
			// Ages differ.
			e.age += 500*time.Millisecond + time.Duration(i)*gap
			es = append(es, e)
			data[e.key] = strings.Repeat(string(rune('a'+i)), e.size)
			fs.AddFile(fileOf(e.key), data[e.key], now.Add(-e.age))
		}
		fs.AddFile(root+"/other", "unrelated", now.Add(-1000*time.Hour))
		fs.AddFile(root+"/12.tmp", "unfinished", now.Add(-1000*time.Hour))
		lim := limits[x.Choose(len(limits), "limit")]
		ev := every[x.Choose(len(every), "every")]
		opts := []antcache.DiskOption{antcache.SweepEvery(ev), antcache.Maxage(lim.age), antcache.Maxsize(lim.size)}
		desc := fmt.Sprintf("%+v limits %+v every %v", es, lim, ev)
		x.NonTrivial()
		check := func(d *antcache.Diskstore, when string, left []ent) bool {
			want := map[uint64]bool{}
			var names []string
			for _, e := range left {
				want[e.key] = true
				names = append(names, fmt.Sprint(e.key))
			}
			names = append(names, "other", "12.tmp")
			sort.Strings(names)
			got := fs.List(root)
			sort.Strings(got)
			if !x.Check(fmt.Sprint(got) == fmt.Sprint(names), "wrong survivors", "%s: %s: files %v, want %v", desc, when, got, names) {
				return false
			}
			for _, e := range es {
				b, err := d.Load(bg, e.key)
				if want[e.key] {
					if !x.Check(err == nil && string(b) == data[e.key], "survivor not loadable", "%s: %s: key %d: %q %v", desc, when, e.key, b, err) {
						return false
					}
				} else if !x.Check(err == nil && b == nil, "removed entry served", "%s: %s: key %d: %q %v", desc, when, e.key, b, err) {
					return false
				}
			}
			return true
		}
		x.Go("main", func() {
			d, err := antcache.Open(root, opts...)
			if !x.Check(err == nil, "open", "%s: %v", desc, err) {
				return
			}
			d.Wait(bg)
			if !check(d, "before", es) {
				return
			}
			x.Point("sleep")
			time.Sleep(ev + time.Second)
			x.Point("awake")
			for i := range es {
				es[i].age += ev
			}
			left := model(es, lim)
			x.Obs("%v", left)
			x.State(desc)
			if !check(d, "after a sweep", left) {
				return
			}
			if store {
				// Another entry, or a new version of one.
				k := uint64(1 + x.Choose(n+1, "stored key"))
				sz := sizes[x.Choose(len(sizes), "stored size")]
				v := strings.Repeat("z", sz)
				desc += fmt.Sprintf(", store %d size %d", k, sz)
				if !x.Check(d.Store(bg, k, []byte(v)) == nil, "store", "%s", desc) {
					return
				}
				data[k] = v
				ne := ent{key: k, age: 0, size: sz}
				var next []ent
				for _, e := range left {
					if e.key != k {
						next = append(next, e)
					}
				}
				left = append(next, ne)
				found := false
				for i := range es {
					if es[i].key == k {
						es[i], found = ne, true
					}
				}
				if !found {
					es = append(es, ne)
				}
				if !check(d, "after a store", left) {
					return
				}
			}
			x.Point("sleep")
			time.Sleep(ev)
			x.Point("awake")
			for i := range left {
				left[i].age += ev - time.Second
			}
			left = model(left, lim)
			if !check(d, "after the next sweep", left) {
				return
			}
			x.Check(d.Close() == nil, "close", "%s", desc)
			fs.Hook = func(o vos.Op) vos.Action {
				x.Check(!o.Mutates(), "work after close", "%s: %s", desc, o)
				return vos.OK
			}
			x.Point("sleep")
			time.Sleep(3 * ev)
			x.Point("awake")
			fs.Hook = nil
			l := newLog(x, desc+": after closing")
			for _, e := range left {
				l.settle(e.key, data[e.key])
			}
			l.reopen()
		})
		x.Finish()
	}
	limits := []limit{{24 * time.Hour, 1 << 30}, {0, 0}, {-1, -1}, {5 * time.Hour, 0}, {24 * time.Hour, 7}, {0, 10}, {0, 1}, {5 * time.Hour, 5}, {0, 3}, {-time.Hour, 12}}
	add(&mc.Scenario{Name: "sweep/2 entries", Prop: "C26", Horizon: 1000 * time.Hour, Quick: mc.Bound{Policies: 1}, Thorough: mc.Bound{Policies: 1}, Run: func(x *mc.X) {
		run(x, 2, []int{1, 3, 8}, limits, []time.Duration{time.Minute, 6 * time.Hour}, true)
	}})
	add(&mc.Scenario{Name: "sweep/3 entries", Prop: "C26", Horizon: 1000 * time.Hour, Quick: mc.Bound{Policies: 1}, Thorough: mc.Bound{Policies: 1}, Run: func(x *mc.X) {
		run(x, 3, []int{3, 5}, limits, []time.Duration{time.Minute}, false)
	}})
	add(&mc.Scenario{Name: "sweep/3 entries, more", Prop: "C26", Horizon: 1000 * time.Hour, Quick: mc.Bound{Skip: true}, Thorough: mc.Bound{Policies: 1}, Run: func(x *mc.X) {
		run(x, 3, []int{1, 3, 8}, limits, []time.Duration{time.Minute}, true)
	}})
	add(&mc.Scenario{Name: "sweep/4 entries", Prop: "C26", Horizon: 1000 * time.Hour, Quick: mc.Bound{Policies: 1}, Thorough: mc.Bound{Policies: 1}, Run: func(x *mc.X) {
		run(x, 4, []int{3, 5}, limits, []time.Duration{time.Minute}, false)
	}})

	// The clock was set back: entries from the future are not expired.
	add(&mc.Scenario{Name: "sweep/clock", Prop: "C26", Horizon: 1000 * time.Hour, Quick: mc.Bound{Policies: 1}, Thorough: mc.Bound{Policies: 1}, Run: func(x *mc.X) {
		past := ages
		ages = []time.Duration{-time.Minute, -10 * time.Hour, -1000 * time.Hour, -100000 * time.Hour, 30 * time.Hour}
		defer func() { ages = past }()
		run(x, 2, []int{3}, []limit{{24 * time.Hour, 1 << 30}, {5 * time.Hour, 0}, {time.Second, 0}, {24 * time.Hour, 3}, {0, 0}}, []time.Duration{time.Minute}, false)
	}})

	// The default options.
	add(&mc.Scenario{Name: "sweep/defaults", Prop: "C26", Horizon: 1000 * time.Hour, Quick: mc.Bound{Policies: 1}, Thorough: mc.Bound{Policies: 1}, Run: func(x *mc.X) {
		fs := dfs()
		age := mc.Pick(x, "age", time.Hour, 23*time.Hour, 25*time.Hour)
		fs.AddFile(fileOf(1), "old", time.Now().Add(-age))
		fs.AddFile(fileOf(2), "new", time.Now())
		x.NonTrivial()
		x.Go("main", func() {
			d, err := antcache.Open(root)
			if !x.Check(err == nil, "open", "%v", err) {
				return
			}
			d.Wait(bg)
			x.Point("sleep")
			time.Sleep(5*time.Minute + time.Second)
			x.Point("awake")
			b, err := d.Load(bg, 1)
			x.Obs("%v %q", age, b)
			x.Check(err == nil && (b == nil) == (age > 24*time.Hour), "default age", "age %v: %q %v", age, b, err)
			b, err = d.Load(bg, 2)
			x.Check(err == nil && string(b) == "new", "default age", "%q %v", b, err)
			d.Close()
		})
		x.Finish()
	}})
}

// ---------------------------------------------------------------- C27

func init() {
	faults := func(name string, n int, keys int, comp bool, initial bool, q, th mc.Bound) {
		add(&mc.Scenario{Name: "faults/" + name, Prop: "C27", Quick: q, Thorough: th, Run: func(x *mc.X) {
			fs := dfs()
			var opts []antcache.DiskOption
			if comp {
				opts = append(opts, antcache.Compress())
			}
			l := newLog(x, "")
			if initial {
				x.Go("before", func() {
					d, _ := antcache.Open(root, append(opts, antcache.SweepEvery(0))...)
					d.Wait(bg)
					d.Store(bg, 1, []byte(value(1, 8)))
					d.Close()
				})
				if !x.Finish() {
					return
				}
				l.settle(1, value(1, 8))
			}
			power := false
			x.Go("main", func() {
				d, err := antcache.Open(root, append(opts, antcache.SweepEvery(0))...)
				if err == nil {
					err = d.Wait(bg)
				}
				if !x.Check(err == nil, "open", "%v", err) {
					return
				}
				removeFault := false
				nf := 0
				fs.Hook = func(o vos.Op) vos.Action {
					if x.Deviate(2, "fault in "+o.Kind) == 1 {
						nf++
						l.desc += fmt.Sprintf("(fault at %s) ", o)
						if o.Kind == "remove" {
							removeFault = true
						}
						x.NonTrivial()
						return vos.Fault
					}
					return vos.OK
				}
				for i := 0; i < n; i++ {
					var k uint64
					op := x.Choose(2*keys+1, "op")
					if op == 2*keys {
						break
					}
					k = uint64(op/2 + 1)
					before := nf
					if op%2 == 0 {
						v := value(k, i+1)
						l.desc += fmt.Sprintf("store %s ", v)
						err := l.store(d, k, v)
						if err != nil {
							l.desc += fmt.Sprintf("failed ")
							x.Check(nf > before, "store failed", "%s: %v", l.desc, err)
						}
					} else {
						l.desc += fmt.Sprintf("load %d ", k)
						b, err := d.Load(bg, k)
						if err != nil {
							x.Check(nf > before, "load failed", "%s: %v", l.desc, err)
							x.Check(b == nil, "value with error", "%s: %q %v", l.desc, b, err)
						} else {
							x.Check(l.key(k).allowed()[loaded(b)], "wrong value", "%s: %q, allowed %v", l.desc, b, l.key(k).allowed())
							if v := loaded(b); nf > before {
								x.Check(v != "" || l.key(k).allowed()[""], "fault taken for nothing", "%s: %q", l.desc, b)
							}
						}
					}
				}
				fs.Hook = nil
				x.Obs("%s", l.desc)
				if power = nf > 0 && x.Flag("power failure"); power {
					// What Store has returned for is on the disk, whatever failed.
					l.desc += "(power failure) "
					return
				}
				for k := uint64(1); int(k) <= keys; k++ {
					b, err := d.Load(bg, k)
					ok := l.key(k).allowed()
					if !x.Check(err == nil && ok[loaded(b)], "damaged by a fault", "%s: key %d: %q %v, allowed %v", l.desc, k, b, err, ok) {
						return
					}
					l.settle(k, loaded(b))
				}
				for _, name := range fs.List(root) {
					x.Check(removeFault || !strings.HasSuffix(name, ".tmp"), "temporary file left", "%s: %s", l.desc, fs.Dump())
				}
				x.Check(fs.Open == 1, "file left open", "%s: %d files are open", l.desc, fs.Open)
				x.Check(d.Close() == nil, "close", "%s", l.desc)
				x.Check(fs.Open == 0, "directory left open", "%s", l.desc)
				l.reopen(opts...)
			})
			if !x.Finish() || !power {
				return
			}
			vos.Use(fs.Image(true, func(n int, label string) int { return x.Choose(n, label) }))
			x.Go("reopen", func() { l.reopen(opts...) })
			x.Finish()
		}})
	}
	faults("one key", 3, 1, false, false, mc.Bound{Dev: 2, Policies: 1}, mc.Bound{Dev: 3, Policies: 1})
	faults("one key, replaced", 2, 1, false, true, mc.Bound{Dev: 2, Policies: 1}, mc.Bound{Dev: 3, Policies: 1})
	faults("two keys", 3, 2, false, true, mc.Bound{Dev: 1, Policies: 1}, mc.Bound{Dev: 2, Policies: 1})
	faults("compressed", 2, 1, true, true, mc.Bound{Dev: 2, Policies: 1}, mc.Bound{Dev: 3, Policies: 1})

	// Sweeping with faults.
	add(&mc.Scenario{Name: "faults/sweep", Prop: "C27", Quick: mc.Bound{Dev: 4, Policies: 1}, Thorough: mc.Bound{Dev: 6, Policies: 1}, Horizon: 100 * time.Hour, Run: func(x *mc.X) {
		fs := dfs()
		maxsize := x.Flag("surplus")
		for k := uint64(1); k <= 3; k++ {
			age := 30 * time.Hour
			if maxsize {
				age = time.Hour
			}
			fs.AddFile(fileOf(k), value(k, 0), time.Now().Add(-age-time.Duration(k)*time.Minute))
		}
		x.Go("main", func() {
			opts := []antcache.DiskOption{antcache.SweepEvery(time.Minute)}
			if maxsize {
				opts = append(opts, antcache.Maxsize(1))
			}
			d, err := antcache.Open(root, opts...)
			if !x.Check(err == nil, "open", "%v", err) {
				return
			}
			d.Wait(bg)
			nf := 0
			fs.Hook = func(o vos.Op) vos.Action {
				if x.Deviate(2, "fault in "+o.Kind) == 1 {
					nf++
					x.NonTrivial()
					return vos.Fault
				}
				return vos.OK
			}
			x.Point("sleep")
			time.Sleep(61 * time.Second)
			x.Point("awake")
			fs.Hook = nil
			left := 0
			for k := uint64(1); k <= 3; k++ {
				b, err := d.Load(bg, k)
				x.Check(err == nil && (b == nil || string(b) == value(k, 0)), "damaged by a fault", "%d faults: key %d: %q %v", nf, k, b, err)
				if b != nil {
					left++
				}
			}
			x.Obs("%d faults, %d left", nf, left)
			x.Check(left <= nf, "sweep stopped", "%d faults, %d left", nf, left)
			// The next sweep finishes the job.
			x.Point("sleep")
			time.Sleep(61 * time.Second)
			x.Point("awake")
			for k := uint64(1); k <= 3; k++ {
				b, err := d.Load(bg, k)
				x.Check(err == nil && b == nil, "never swept", "%d faults: key %d: %q %v", nf, k, b, err)
			}
			x.Check(len(fs.List(root)) == 0, "left on disk", "%d faults: %s", nf, fs.Dump())
			x.Check(d.Close() == nil, "close", "close")
		})
		x.Finish()
	}})

	// What is stored is what is loaded, for all sizes and options.
	add(&mc.Scenario{Name: "faults/round trip", Prop: "C27", Quick: mc.Bound{Policies: 1}, Thorough: mc.Bound{Policies: 1}, Run: func(x *mc.X) {
		comp := x.Flag("compress")
		size := mc.Pick(x, "size", 0, 1, 2, 3, 7, 16, 64, 511, 512, 513, 4096, 65535, 65536, 65537, 200000)
		pat := mc.Pick(x, "pattern", "zero", "text", "mixed", "255")
		key := mc.Pick(x, "key", uint64(0), 1, 1<<63, 1<<64-1)
		v := make([]byte, size)
		r := uint32(7)
		for i := range v {
			switch pat {
			case "text":
				v[i] = "HTTP/1.1 200 OK\r\n"[i%17]
			case "mixed":
				r = r*1664525 + 1013904223
				v[i] = byte(r >> 24)
			case "255":
				v[i] = 255
			}
		}
		keep := append([]byte(nil), v...)
		dfs()
		x.NonTrivial()
		desc := fmt.Sprintf("compress %v size %d %s key %d", comp, size, pat, key)
		x.State(desc)
		x.Go("main", func() {
			opts := []antcache.DiskOption{antcache.SweepEvery(0)}
			if comp {
				opts = append(opts, antcache.Compress())
			}
			for round := 0; round < 2; round++ {
				d, err := antcache.Open(root, opts...)
				if !x.Check(err == nil, "open", "%v", err) {
					return
				}
				d.Wait(bg)
				if round == 0 {
					err := d.Store(bg, key, v)
					x.Check(err == nil && bytes.Equal(v, keep), "store", "%s: %v", desc, err)
					for i := range v {
						v[i] = '#' // the caller's bytes are its own
					}
				}
				b, err := d.Load(bg, key)
				x.Check(err == nil && b != nil && bytes.Equal(b, keep), "round trip", "%s: round %d: %d bytes %v", desc, round, len(b), err)
				for i := range b {
					b[i] = '!'
				}
				b, err = d.Load(bg, key)
				x.Check(err == nil && bytes.Equal(b, keep), "value shared with callers", "%s: round %d: %v", desc, round, err)
				b, err = d.Load(bg, key^1)
				x.Check(err == nil && b == nil, "other key", "%s: %q %v", desc, b, err)
				d.Close()
			}
		})
		x.Finish()
	}})

	// Files that are not what Store wrote.
	add(&mc.Scenario{Name: "faults/damaged files", Prop: "C27", Quick: mc.Bound{Policies: 1}, Thorough: mc.Bound{Policies: 1}, Run: func(x *mc.X) {
		fs := dfs()
		n := mc.Pick(x, "size", 5, 30, 200)
		orig := strings.Repeat("abcdefg", n)[:n]
		what := mc.Pick(x, "damage", "truncated", "garbage", "empty", "plain")
		cut := x.Choose(12, "where")
		x.NonTrivial()
		x.Go("main", func() {
			d, err := antcache.Open(root, antcache.SweepEvery(0), antcache.Compress())
			if !x.Check(err == nil, "open", "%v", err) {
				return
			}
			d.Wait(bg)
			d.Store(bg, 1, []byte(orig))
			d.Store(bg, 2, []byte(orig))
			c, _ := fs.Content(fileOf(1))
			switch what {
			case "truncated":
				if cut >= len(c) {
					x.Discard()
					return
				}
				c = c[:len(c)-1-cut]
			case "garbage":
				c = strings.Repeat("\xff", cut+1)
			case "empty":
				c = ""
			case "plain":
				c = "HTTP/1.1 200 OK\r\n\r\nhello"[cut:]
			}
			fs.Corrupt(fileOf(1), c)
			b, err := d.Load(bg, 1)
			x.Obs("%s %d %d: %v", what, n, cut, err != nil)
			x.Check(err != nil && b == nil, "damaged file served", "%s %d: %q %v", what, cut, b, err)
			b, err = d.Load(bg, 2)
			x.Check(err == nil && string(b) == orig, "other key", "%q %v", b, err)
			// Storing it again repairs it.
			x.Check(d.Store(bg, 1, []byte(orig)) == nil, "store", "store")
			b, err = d.Load(bg, 1)
			x.Check(err == nil && string(b) == orig, "not repaired", "%q %v", b, err)
			d.Close()
		})
		x.Finish()
	}})
}
