package hrace

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/antcache"
	"github.com/yields/ant/internal/robots"
	"github.com/yields/ant/zverif/mc"
	"github.com/yields/ant/zverif/vos"
	"github.com/yields/ant/zverif/vsched"
)

var serial int

// fresh returns a new number.
//
//go:norace
func fresh() int { serial++; return serial }

// scanFresh scans into types the scanner does not know yet, or only from the
// other goroutines of this execution.
func scanFresh(p *ant.Page, n, shared int) {
	typ := func(n int) reflect.Type {
		return reflect.StructOf([]reflect.StructField{
			{Name: "Title", Type: reflect.TypeOf(""), Tag: reflect.StructTag(fmt.Sprintf(`css:"title, .t%08d"`, n))},
			{Name: "Sub", Type: reflect.SliceOf(reflect.StructOf([]reflect.StructField{
				{Name: "A", Type: reflect.TypeOf(""), Tag: reflect.StructTag(fmt.Sprintf(`css:".text, .s%08d"`, n))},
			})), Tag: `css:".q"`},
		})
	}
	p.Scan(reflect.New(typ(n)).Interface())
	p.Scan(reflect.New(typ(shared)).Interface())
}

func do(c *antcache.Cache, method, u string, h http.Header) {
	req, err := http.NewRequest(method, u, nil)
	if err != nil {
		panic(err)
	}
	for k, v := range h {
		req.Header[k] = v
	}
	resp, err := c.Do(req)
	if err != nil {
		return
	}
	// The response belongs to the caller.
	resp.Header.Set("X-Mine", "1")
	resp.Header.Add("Etag", "changed")
	buf, _ := io.ReadAll(resp.Body)
	for i := range buf {
		buf[i] = 'x'
	}
	resp.Body.Close()
	req.Header.Set("X-Mine", "1")
}

func init() {
	small := mc.Bound{Dev: 1, Policies: 2}
	big := mc.Bound{Dev: 2, Policies: 3}
	noCache := http.Header{"Cache-Control": {"no-cache"}}
	calls := map[string]func(c *antcache.Cache){
		"fresh":    func(c *antcache.Cache) { do(c, "GET", "http://h/fresh", nil) },
		"validate": func(c *antcache.Cache) { do(c, "GET", "http://h/etag", noCache) },
		"stale":    func(c *antcache.Cache) { do(c, "GET", "http://h/short", http.Header{"Cache-Control": {"max-stale"}}) },
		"short":    func(c *antcache.Cache) { do(c, "GET", "http://h/short", nil) },
		"head":     func(c *antcache.Cache) { do(c, "HEAD", "http://h/fresh", nil) },
		"error":    func(c *antcache.Cache) { do(c, "GET", "http://h/n", nil) },
		"post":     func(c *antcache.Cache) { do(c, "POST", "http://h/fresh", nil) },
		"sleep":    func(c *antcache.Cache) { time.Sleep(3 * time.Second); vsched.P("awake") },
	}
	stores := map[string]func(x *mc.X) []antcache.Option{
		"default":    func(x *mc.X) []antcache.Option { return nil },
		"aggressive": func(x *mc.X) []antcache.Option { return []antcache.Option{antcache.Aggressive(time.Second)} },
		"disk": func(x *mc.X) []antcache.Option {
			f := vos.New()
			f.AddDir("/d")
			vos.Use(f)
			d, err := antcache.Open("/d", antcache.Compress(), antcache.Debug(func(f string, a ...any) { _ = fmt.Sprintf(f, a...) }))
			if err != nil {
				panic(err)
			}
			return []antcache.Option{antcache.WithStorage(d)}
		},
	}
	type cfg struct {
		name  string
		store string
		procs [][]string
	}
	for _, c := range []cfg{
		{"hit", "default", [][]string{{"fresh", "fresh"}, {"fresh", "fresh"}, {"head", "fresh"}}},
		{"validate", "default", [][]string{{"validate", "validate"}, {"validate"}, {"validate"}}},
		{"expire", "default", [][]string{{"short", "sleep", "short"}, {"short", "sleep", "stale"}, {"short", "sleep", "short"}}},
		{"mixed", "default", [][]string{{"fresh", "error", "validate"}, {"validate", "fresh"}, {"post", "stale"}}},
		{"aggressive", "aggressive", [][]string{{"fresh", "fresh"}, {"validate", "sleep", "validate"}, {"validate", "fresh"}}},
		{"disk", "disk", [][]string{{"fresh", "fresh"}, {"fresh", "validate"}, {"validate"}}},
	} {
		race("cache/"+c.name, small, big, func(x *mc.X) {
			ca, err := antcache.New(web, stores[c.store](x)...)
			if err != nil {
				panic(err)
			}
			for _, p := range c.procs {
				x.Go("caller", func() {
					for _, k := range p {
						calls[k](ca)
					}
				})
			}
		})
	}

	// The disk by itself, with the sweeper running.
	type dcfg struct {
		name  string
		opts  []antcache.DiskOption
		procs []func(d *antcache.Diskstore)
	}
	val := func(s string) []byte { return []byte(s) }
	store := func(k uint64, s string) func(d *antcache.Diskstore) {
		return func(d *antcache.Diskstore) {
			v := val(s)
			d.Store(bg, k, v)
			v[0] = '!' // the value is the caller's again
		}
	}
	load := func(k uint64) func(d *antcache.Diskstore) {
		return func(d *antcache.Diskstore) {
			if v, err := d.Load(bg, k); err == nil && len(v) > 0 {
				v[0] = '?'
			}
		}
	}
	nap := func(d *antcache.Diskstore) { time.Sleep(2500 * time.Millisecond); vsched.P("awake") }
	wait := func(d *antcache.Diskstore) { d.Wait(bg) }
	closing := func(d *antcache.Diskstore) { d.Close() }
	seq := func(fs ...func(d *antcache.Diskstore)) func(d *antcache.Diskstore) {
		return func(d *antcache.Diskstore) {
			for _, f := range fs {
				f(d)
			}
		}
	}
	sweep := []antcache.DiskOption{antcache.SweepEvery(time.Second), antcache.Maxage(time.Second), antcache.Maxsize(3)}
	for _, c := range []dcfg{
		{"store-load", []antcache.DiskOption{antcache.SweepEvery(0)}, []func(d *antcache.Diskstore){store(1, "a"), store(2, "b"), seq(load(1), load(2))}},
		{"same-key", []antcache.DiskOption{antcache.SweepEvery(0)}, []func(d *antcache.Diskstore){store(1, "a"), store(1, "bb"), seq(load(1), load(1))}},
		{"warmup", []antcache.DiskOption{antcache.SweepEvery(0)}, []func(d *antcache.Diskstore){seq(load(7), store(7, "x")), seq(wait, load(7)), seq(store(8, "y"), load(8))}},
		{"sweep", sweep, []func(d *antcache.Diskstore){seq(store(1, "aa"), nap, load(1)), seq(store(2, "bb"), nap, store(3, "cc")), seq(nap, load(2), load(7))}},
		{"close", sweep, []func(d *antcache.Diskstore){seq(store(1, "aa"), load(1)), closing, wait}},
		{"close-sweep", sweep, []func(d *antcache.Diskstore){seq(store(1, "aa"), nap, store(2, "bb")), seq(nap, closing)}},
	} {
		race("disk/"+c.name, small, big, func(x *mc.X) {
			f := vos.New()
			f.AddDir("/d")
			vos.Use(f)
			for _, k := range []uint64{7, 9} {
				f.AddFile(fmt.Sprintf("/d/%d", k), "old", time.Now().Add(-time.Minute))
			}
			d, err := antcache.Open("/d", c.opts...)
			if err != nil {
				panic(err)
			}
			for _, p := range c.procs {
				x.Go("user", func() { p(d) })
			}
		})
	}

	race("robots", small, big, func(x *mc.X) {
		c := robots.NewCache(&http.Client{Transport: web}, 2)
		us := parseAll("http://h/a", "http://h/private/x", "http://i/a", "http://j/a")
		for i := 0; i < 3; i++ {
			x.Go("ask", func() {
				for k := 0; k < 2; k++ {
					r := robots.Request{URL: us[(i+k)%4], UserAgent: "x"}
					c.Allowed(bg, r)
					c.Wait(bg, r)
				}
			})
		}
	})
	race("robots-cancel", small, big, func(x *mc.X) {
		c := robots.NewCache(&http.Client{Transport: web}, 2)
		ctx, cancel := context.WithCancel(bg)
		u := parse("http://h/a")
		for i := 0; i < 2; i++ {
			x.Go("ask", func() {
				for k := 0; k < 2; k++ {
					r := robots.Request{URL: u}
					if i == 0 {
						c.Allowed(ctx, r)
						c.Wait(ctx, r)
					} else {
						c.Allowed(bg, r)
						c.Wait(bg, r)
					}
				}
			})
		}
		x.Go("cancel", func() { cancel() })
	})
}
