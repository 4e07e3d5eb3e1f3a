package hant

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/url"
	"sort"
	"strings"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/mc"
	"github.com/yields/ant/zverif/vsched"
)

// Operations of queue histories.
type qop struct {
	kind   byte // E enqueue, D dequeue, d done, W wait, C close, X cancel
	n      int
	thread int
	call   int
	ret    int // 0: pending
	urls   []string
	got    string
	err    error
	own    bool // its own context, already canceled
	after  bool // called after the cancellation
}

func (o *qop) String() string {
	s := fmt.Sprintf("t%d:%c", o.thread, o.kind)
	switch o.kind {
	case 'E':
		s += strings.Join(o.urls, "+")
	case 'D':
		s += "=" + o.got
	}
	if o.err != nil {
		s += "!" + o.err.Error()
	}
	if o.ret == 0 {
		s += "(blocked)"
	}
	return s
}

// qstate is the sequential queue.
type qstate struct {
	pending  string // comma terminated URLs
	count    int
	closed   bool
	canceled bool
}

func (s qstate) key() string { return fmt.Sprint(s.pending, s.count, s.closed, s.canceled) }

// apply returns the successor state if o, with its result, is possible in s.
func (s qstate) apply(o *qop) (qstate, bool) {
	switch o.kind {
	case 'X':
		s.canceled = true
		return s, true
	case 'E':
		switch {
		case len(o.urls) == 0:
			return s, o.err == nil
		case errors.Is(o.err, io.EOF):
			return s, s.closed
		case errors.Is(o.err, context.Canceled):
			return s, s.canceled || o.own
		case o.err != nil || s.closed || s.canceled || o.own:
			return s, false
		}
		for _, u := range o.urls {
			s.pending += u + ","
		}
		s.count += len(o.urls)
		return s, true
	case 'D':
		switch {
		case errors.Is(o.err, io.EOF):
			return s, s.closed && s.pending == ""
		case errors.Is(o.err, context.Canceled):
			return s, s.canceled || o.own
		case o.err != nil:
			return s, false
		}
		if !strings.HasPrefix(s.pending, o.got+",") {
			return s, false
		}
		s.pending = s.pending[len(o.got)+1:]
		return s, true
	case 'd':
		s.count--
		return s, s.count >= 0 && o.err == nil
	case 'W':
		return s, s.count == 0
	case 'C':
		s.count -= strings.Count(s.pending, ",")
		s.pending = ""
		s.closed = true
		return s, o.err == nil
	}
	panic("kind")
}

// blockedOK reports whether o may be blocked in s.
func (s qstate) blockedOK(o *qop) bool {
	switch o.kind {
	case 'D':
		return s.pending == "" && !s.closed && !o.after
	case 'W':
		return s.count != 0
	}
	return false
}

// linearize searches a sequential order of the history.
func linearize(x *mc.X, ops []*qop) bool {
	n := len(ops)
	seen := map[string]bool{}
	var rec func(done int, s qstate) bool
	rec = func(done int, s qstate) bool {
		k := fmt.Sprint(done, "/", s.key())
		if seen[k] {
			return false
		}
		seen[k] = true
		x.State(s.key())
		// All completed operations taken: the others must be blocked.
		ok := true
		minRet := 1 << 30
		for i, o := range ops {
			if done&(1<<i) == 0 {
				if o.ret != 0 {
					ok = false
					if o.ret < minRet {
						minRet = o.ret
					}
				} else if !s.blockedOK(o) {
					ok = false
				}
			}
		}
		if ok {
			return true
		}
		for i := 0; i < n; i++ {
			o := ops[i]
			if done&(1<<i) != 0 || o.call > minRet || o.ret == 0 {
				continue
			}
			if s2, ok := s.apply(o); ok {
				x.Step(1)
				if rec(done|1<<i, s2) {
					return true
				}
			}
		}
		return false
	}
	return rec(0, qstate{})
}

var reused = &url.URL{Path: "reused batch"}

// queueHistory runs all histories of one thread against the reference.
func queueHistory(x *mc.X, ops string, depth int) {
	sizes := []int{0, 1, 2, 3}
	q := ant.MemoryQueue(sizes[x.Choose(len(sizes), "size")])
	bg := context.Background()
	var pending []*url.URL
	var held []*url.URL
	hist := ""
	n, closed := 0, false
	for i := 0; i < depth; i++ {
		k := ops[x.Choose(len(ops), "operation")]
		hist += string(k)
		switch k {
		case 'E', '2', '5':
			m := map[byte]int{'E': 1, '2': 2, '5': 5}[k]
			batch := make(ant.URLs, 0, m+2)
			for j := 0; j < m; j++ {
				n++
				batch = append(batch, &url.URL{Path: fmt.Sprint(n)})
			}
			if !closed {
				pending = append(pending, batch...)
			}
			err := q.Enqueue(bg, batch)
			if closed {
				x.Check(errors.Is(err, io.EOF), "closed", "%s: Enqueue after Close: %v", hist, err)
			} else {
				x.Check(err == nil, "error", "%s: Enqueue: %v", hist, err)
			}
			batch = append(batch, reused, reused)
			for j := range batch {
				batch[j] = reused
			}
		case 'D':
			if len(pending) == 0 && !closed {
				x.Discard() // blocks
				return
			}
			u, err := q.Dequeue(bg)
			if closed {
				x.Check(u == nil && errors.Is(err, io.EOF), "closed", "%s: Dequeue after Close: %v %v", hist, u, err)
				break
			}
			if !x.Check(err == nil && u != nil, "error", "%s: Dequeue: %v %v", hist, u, err) {
				return
			}
			x.Check(u == pending[0], "not FIFO", "%s: Dequeue returned %s, want %s", hist, u, pending[0])
			pending = pending[1:]
			held = append(held, u)
		case 'd':
			if len(held) == 0 {
				x.Discard()
				return
			}
			err := q.Done(bg, held[0])
			x.Check(err == nil, "error", "%s: Done: %v", hist, err)
			held = held[1:]
		case 'C':
			err := q.Close(bg)
			x.Check(err == nil, "error", "%s: Close: %v", hist, err)
			closed, pending = true, nil
		}
		x.State(fmt.Sprint(len(pending), len(held), closed))
	}
	if len(pending) == 0 && len(held) == 0 {
		q.Wait() // a call that blocks is reported
	}
	x.Step(depth)
	x.NonTrivial()
	x.Obs("%d %d %v", len(pending), len(held), closed)
}

// runQueue runs one program per thread and checks the history.
func runQueue(x *mc.X, progs []string) {
	q := ant.MemoryQueue(1)
	ctx, cancel := context.WithCancel(context.Background())
	x.Cleanup(cancel)
	gone, c := context.WithCancel(context.Background())
	c()
	var ops []*qop
	clock := 0
	nurl := 0
	for t, prog := range progs {
		x.Go(prog, func() {
			var held []*ant.URL
			for _, k := range []byte(prog) {
				ctx := ctx
				o := &qop{kind: k, thread: t}
				if k == 'K' || k == 'Q' {
					// With a context of its own that is already canceled.
					ctx, o.own = gone, true
				}
				o.after = ctx.Err() != nil
				switch k {
				case 'e', 'E', '2', 'K':
					o.kind = 'E'
					n := map[byte]int{'e': 0, 'E': 1, '2': 2, 'K': 1}[k]
					var urls ant.URLs
					for i := 0; i < n; i++ {
						s := fmt.Sprintf("u%d", nurl)
						nurl++
						o.urls = append(o.urls, s)
						urls = append(urls, &url.URL{Path: s})
					}
					clock++
					o.call = clock
					ops = append(ops, o)
					// The batch has room, and belongs to the caller.
					batch := append(make(ant.URLs, 0, n+2), urls...)
					o.err = q.Enqueue(ctx, batch)
					batch = append(batch, reused, reused)
					for i := range batch {
						batch[i] = reused
					}
				case 'D', 'Q':
					o.kind = 'D'
					clock++
					o.call = clock
					ops = append(ops, o)
					u, err := q.Dequeue(ctx)
					o.err = err
					if err == nil {
						if u == nil {
							x.Fail("nil url", "Dequeue returned nil, nil")
							return
						}
						o.got = u.Path
						held = append(held, u)
					}
				case 'd':
					if len(held) == 0 {
						continue
					}
					clock++
					o.call = clock
					ops = append(ops, o)
					o.err = q.Done(context.Background(), held[0])
					held = held[1:]
				case 'W':
					clock++
					o.call = clock
					ops = append(ops, o)
					q.Wait()
				case 'C':
					clock++
					o.call = clock
					ops = append(ops, o)
					o.err = q.Close(context.Background())
				case 'X':
					clock++
					o.call = clock
					ops = append(ops, o)
					cancel()
				}
				clock++
				o.ret = clock
			}
		})
	}
	out := x.Sched()
	if x.Failed() {
		return
	}
	var b []string
	for _, o := range ops {
		b = append(b, o.String())
	}
	x.Obs("%s", strings.Join(b, " "))
	if out == vsched.Livelock {
		x.Fail("livelock", "livelock: %s", x.Stuck())
		return
	}
	over := 0
	for i, o := range ops {
		for _, p := range ops[:i] {
			if p.ret == 0 || p.ret > o.call {
				over++
			}
		}
	}
	if over > 0 || out != vsched.Done {
		x.NonTrivial()
	}
	sort.Slice(ops, func(i, j int) bool { return ops[i].call < ops[j].call })
	if !linearize(x, ops) {
		x.Fail("not linearizable", "no sequential queue explains the history (in call order): %s", strings.Join(b, " "))
	}
}

func queueScenario(name, prop string, fine bool, threads int, quick, thorough mc.Bound, set []string, must string) {
	add(&mc.Scenario{
		Name: name, Prop: prop, Fine: fine, Quick: quick, Thorough: thorough,
		Run: func(x *mc.X) {
			// All multisets of programs.
			progs := make([]string, threads)
			lo := 0
			for i := range progs {
				k := lo + x.Choose(len(set)-lo, "program")
				progs[i] = set[k]
				lo = k
			}
			if !strings.Contains(strings.Join(progs, " "), must) {
				x.Discard()
				return
			}
			runQueue(x, progs)
		},
	})
}

func init() {
	basic := []string{"E", "2", "EE", "D", "DD", "DdD", "ED", "C", "CE", "DC", "X", "XE", "W"}
	queueScenario("queue/2threads", "C08", true, 2, mc.Bound{Dev: 3, Policies: 2}, mc.Bound{Dev: 6, Policies: 2}, append([]string{"eD", "EDE", "2D", "CD", "XD", "EC", "DE2", "Q", "QD", "EQ", "K", "KD"}, basic...), "")
	queueScenario("queue/3threads", "C08", true, 3, mc.Bound{Dev: 2, Policies: 2}, mc.Bound{Dev: 3, Policies: 3}, basic, "")
	add(&mc.Scenario{Name: "queue/history", Prop: "C08", Tree: true, Run: func(x *mc.X) {
		queueHistory(x, "ED2C", map[bool]int{false: 8, true: 10}[x.Thorough()])
	}})
	add(&mc.Scenario{Name: "queuewait/history", Prop: "C09", Tree: true, Run: func(x *mc.X) {
		queueHistory(x, "EDd5C", map[bool]int{false: 7, true: 9}[x.Thorough()])
	}})
	waits := []string{"E", "EW", "2", "W", "Dd", "DdDd", "DEd", "C", "DC", "DXd", "WE", "D"}
	queueScenario("queuewait/2threads", "C09", true, 2, mc.Bound{Dev: 3, Policies: 2}, mc.Bound{Dev: 6, Policies: 2}, append([]string{"WC", "EWE", "DdW", "2DdW", "CW", "EDEd", "EQdDd", "QW", "KW"}, waits...), "W")
	queueScenario("queuewait/3threads", "C09", true, 3, mc.Bound{Dev: 2, Policies: 2}, mc.Bound{Dev: 3, Policies: 3}, waits, "W")
}
