// Package vsched is a controlled scheduler for real Go code.
//
// Source code instrumented by /verif/mc/instr calls into this package before
// every statement (S), at every synchronization operation (Point) and at every
// goroutine creation (Go). One execution runs inside one testing/synctest
// bubble; exactly one controlled goroutine runs at a time and the bubble's
// root goroutine (the controller) decides which one.  Blocking on channels,
// timers and other runtime primitives stays real: the bubble tells the
// controller when everything has settled, and time is the bubble's fake time.
//
// All functions that run on controlled goroutines are marked norace and only
// use arrays, so that the Go race detector, which can be active during a
// controlled execution, sees only the happens-before edges of the code under
// test.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"testing/synctest"
	"time"
)

func getg() uintptr

// Status of a goroutine.
const (
	stNew int32 = iota
	stParked
	stRunning
	stDone
)

// Kind of the operation a goroutine is parked at.
const (
	KPlain   int32 = iota // always enabled
	KZero                 // enabled iff *addr == 0 (mutex free, WaitGroup drained)
	KNonNeg               // enabled iff *addr >= 0 (no writer)
	KNotOne               // enabled iff *addr != 1 (once not running)
	KNonZero              // enabled iff *addr != 0 (signalled)
)

const (
	maxG     = 4096
	maxNodes = 1 << 15
)

// G is one controlled goroutine.
type G struct {
	ID      int
	Name    string
	Harness bool
	gp      uintptr
	wake    chan struct{}
	state   int32
	kind    int32
	addr    *int32
	label   string
	site    int32
	auto    bool
}

// Node is one decision of an execution.
type Node struct {
	N     int32 // number of alternatives
	Pick  int32
	Free  bool // alternatives cost nothing
	Label string
}

// Config of an execution.
type Config struct {
	Prefix    []int32
	Fine      bool          // every statement of an instrumented file is a scheduling point
	FineFiles []string      // restrict Fine to sites whose file has one of these suffixes (empty: all)
	Policy    int           // 0: keep running, then lowest id; 1: keep running, then highest id; 2: round robin
	TimeOpt   bool          // letting time pass while goroutines are enabled is an alternative
	FreeBlock bool          // switches at blocking points are free
	MaxSteps  int           // livelock bound
	Horizon   time.Duration // fake time after which a run counts as stuck
	Trace     bool
}

// Exec is one execution.
type Exec struct {
	cfg      Config
	gs       [maxG]*G
	ng       int32
	lock     int32
	arrived  chan struct{}
	ctl      uintptr
	running  *G
	last     *G
	aborting bool
	dead     int // goroutines below this number died in a crash

	nodes    []Node
	nn       int
	steps    int
	stmts    int
	TraceLog []string
	Diverged string
	Overflow bool
	panics   [16]string
	np       int
	started  time.Time
	hashes   []uint64
}

var cur *Exec

// Cur returns the current execution, or nil.
//
//go:norace
func Cur() *Exec { return cur }

// Begin starts an execution. Must be called by the bubble's root goroutine.
func Begin(cfg Config) *Exec {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20000
	}
	if cfg.Horizon == 0 {
		cfg.Horizon = time.Hour
	}
	ex := &Exec{cfg: cfg, arrived: make(chan struct{}, 1), ctl: getg(), nodes: make([]Node, 0, 256), started: time.Now()}
	cur = ex
	return ex
}

// End ends the execution.
func (ex *Exec) End() { cur = nil }

// Nodes returns the decisions taken.
func (ex *Exec) Nodes() []Node { return ex.nodes }

// Steps returns the number of scheduling steps.
func (ex *Exec) Steps() int { return ex.steps }

// Hashes returns the scheduler states seen.
func (ex *Exec) Hashes() []uint64 { return ex.hashes }

// Panics returns the panics of controlled goroutines.
func (ex *Exec) Panics() []string { return ex.panics[:ex.np] }

//go:norace
func (ex *Exec) acquire() {
	raceOff()
	for !atomic.CompareAndSwapInt32(&ex.lock, 0, 1) {
		runtime.Gosched()
	}
	raceOn()
}

//go:norace
func (ex *Exec) release() {
	raceOff()
	atomic.StoreInt32(&ex.lock, 0)
	raceOn()
}

// self returns the calling goroutine's G, nil for the controller. Unknown
// goroutines are registered.
//
//go:norace
func (ex *Exec) self() *G {
	gp := getg()
	if r := ex.running; r != nil && r.gp == gp {
		return r
	}
	if gp == ex.ctl {
		return nil
	}
	n := int(atomic.LoadInt32(&ex.ng))
	for i := n - 1; i >= 0; i-- {
		if g := ex.gs[i]; g.gp == gp && g.state != stDone {
			return g
		}
	}
	g := ex.add("auto")
	if g == nil {
		return nil
	}
	g.gp = gp
	g.auto = true
	return g
}

//go:norace
func (ex *Exec) add(name string) *G {
	ex.acquire()
	n := ex.ng
	if n >= maxG {
		// Reuse finished automatic entries, otherwise give up on control.
		ex.Overflow = true
		ex.release()
		return nil
	}
	g := &G{ID: int(n), Name: name, wake: make(chan struct{}, 1)}
	ex.gs[n] = g
	atomic.StoreInt32(&ex.ng, n+1)
	ex.release()
	return g
}

//go:norace
func (ex *Exec) park(g *G) {
	raceOff()
	g.state = stParked
	select {
	case ex.arrived <- struct{}{}:
	default:
	}
	<-g.wake
	raceOn()
	if ex.aborting {
		runtime.Goexit()
	}
	g.state = stRunning
}

// Active reports whether the caller is under control, i.e. an execution is in
// progress, it is not being torn down and the caller is not its controller.
//
//go:norace
func Active() bool {
	ex := cur
	return ex != nil && !ex.aborting && getg() != ex.ctl
}

// Aborting reports whether the current execution is being torn down.
//
//go:norace
func Aborting() bool {
	ex := cur
	return ex != nil && ex.aborting
}

// Point is a scheduling point before an operation that is enabled according to
// kind and addr.
//
//go:norace
func Point(label string, kind int32, addr *int32) {
	ex := cur
	if ex == nil || ex.aborting {
		return
	}
	g := ex.self()
	if g == nil {
		return
	}
	g.label, g.kind, g.addr = label, kind, addr
	ex.park(g)
	g.kind, g.addr = KPlain, nil
}

// P is a plain scheduling point.
//
//go:norace
func P(label string) { Point(label, KPlain, nil) }

// Post must follow every operation that can block in the runtime: if another
// goroutine was scheduled meanwhile, wait for our turn.
//
//go:norace
func Post(label string) {
	ex := cur
	if ex == nil || ex.aborting {
		return
	}
	if r := ex.running; r != nil && r.gp == getg() {
		return
	}
	g := ex.self()
	if g == nil {
		return
	}
	g.label, g.kind, g.addr = label, KPlain, nil
	ex.park(g)
}

var siteNames []string
var siteFine []bool

// Sites registers the statement sites of a package and returns the base index.
func Sites(names []string) int32 {
	base := int32(len(siteNames))
	siteNames = append(siteNames, names...)
	for range names {
		siteFine = append(siteFine, true)
	}
	return base
}

// SetFineFiles selects the sites which are scheduling points in fine mode.
func SetFineFiles(suffixes []string) {
	for i, n := range siteNames {
		if len(suffixes) == 0 {
			siteFine[i] = true
			continue
		}
		siteFine[i] = false
		j := len(n)
		for j > 0 && n[j-1] != ':' {
			j--
		}
		file := n
		if j > 0 {
			file = n[:j-1]
		}
		for _, s := range suffixes {
			if len(file) >= len(s) && file[len(file)-len(s):] == s {
				siteFine[i] = true
			}
		}
	}
}

// SiteName returns the name of a statement site.
func SiteName(i int32) string {
	if i >= 0 && int(i) < len(siteNames) {
		return siteNames[i]
	}
	return "?"
}

// S precedes every instrumented statement.
//
//go:norace
func S(site int32) {
	ex := cur
	if ex == nil || ex.aborting {
		return
	}
	gp := getg()
	if gp == ex.ctl {
		return
	}
	if r := ex.running; r != nil && r.gp == gp {
		r.site = site
		ex.stmts++
		if ex.stmts > ex.cfg.MaxSteps*20 {
			ex.livelock(r)
		}
		if ex.cfg.Fine && siteFine[site] {
			r.label, r.kind, r.addr = "stmt", KPlain, nil
			ex.park(r)
		}
		return
	}
	g := ex.self()
	if g == nil {
		return
	}
	g.site = site
	g.label, g.kind, g.addr = "stmt", KPlain, nil
	ex.park(g)
}

// livelock parks the goroutine forever: the controller reports it.
//
//go:norace
func (ex *Exec) livelock(g *G) {
	ex.steps = ex.cfg.MaxSteps + 1
	g.label, g.kind, g.addr = "livelock", KPlain, nil
	ex.park(g)
}

// Go runs f in a new controlled goroutine.
//
//go:norace
func Go(f func()) {
	ex := cur
	if ex == nil || ex.aborting {
		go f()
		return
	}
	ex.spawn("go", false, f)
}

//go:norace
func (ex *Exec) spawn(name string, harness bool, f func()) *G {
	g := ex.add(name)
	if g == nil {
		go f()
		return nil
	}
	g.Harness = harness
	g.label = "start"
	if r := ex.running; r != nil {
		g.site = r.site
	}
	go ex.body(g, f)
	return g
}

//go:norace
func (ex *Exec) body(g *G, f func()) {
	g.gp = getg()
	defer ex.exit(g)
	ex.park(g)
	f()
}

//go:norace
func (ex *Exec) exit(g *G) {
	if v := recover(); v != nil {
		if !ex.aborting && ex.np < len(ex.panics) {
			ex.panics[ex.np] = fmt.Sprintf("panic in goroutine %s#%d: %v\n%s", g.Name, g.ID, v, debug.Stack())
			ex.np++
		}
	}
	g.state = stDone
	g.gp = 0
	raceOff()
	select {
	case ex.arrived <- struct{}{}:
	default:
	}
	raceOn()
}

// SetTimeOpt changes the TimeOpt setting.
func (ex *Exec) SetTimeOpt(on bool) { ex.cfg.TimeOpt = on }

// Spawn starts a harness goroutine; called by the controller before Run.
func (ex *Exec) Spawn(name string, f func()) { ex.spawn(name, true, f) }

//go:norace
func (ex *Exec) enabled(g *G) bool {
	if g.state != stParked || g.ID < ex.dead {
		return false
	}
	switch g.kind {
	case KZero:
		return *g.addr == 0
	case KNonNeg:
		return *g.addr >= 0
	case KNotOne:
		return *g.addr != 1
	case KNonZero:
		return *g.addr != 0
	}
	return true
}

// Outcome of a run.
type Outcome int

const (
	Done     Outcome = iota // every harness goroutine finished
	Deadlock                // some harness goroutine can never continue
	Livelock                // the step bound was exceeded
)

func (o Outcome) String() string { return [...]string{"done", "deadlock", "livelock"}[o] }

// Run schedules until every harness goroutine is finished and everything else
// is blocked, or nothing can run any more.
//
//go:norace
func (ex *Exec) Run() Outcome {
	var order [maxG]*G
	for {
		synctest.Wait()
		ex.running = nil
		if ex.steps > ex.cfg.MaxSteps {
			return Livelock
		}
		n := 0
		blocked := 0
		harnessLeft := false
		ng := int(ex.ng)
		for i := 0; i < ng; i++ {
			g := ex.gs[i]
			if g.ID < ex.dead {
				continue
			}
			if g.Harness && g.state != stDone {
				harnessLeft = true
			}
			if g.state == stRunning && !g.auto {
				blocked++
			}
		}
		// Canonical order: the last goroutine first if it still can run.
		if l := ex.last; l != nil && ex.enabled(l) && ex.cfg.Policy != 2 {
			order[n] = l
			n++
		}
		switch ex.cfg.Policy {
		case 1:
			for i := ng - 1; i >= 0; i-- {
				if g := ex.gs[i]; g != ex.last && ex.enabled(g) {
					order[n] = g
					n++
				}
			}
		case 2:
			start := 0
			if ex.last != nil {
				start = ex.last.ID + 1
			}
			for k := 0; k < ng; k++ {
				if g := ex.gs[(start+k)%ng]; ex.enabled(g) {
					order[n] = g
					n++
				}
			}
		default:
			for i := 0; i < ng; i++ {
				if g := ex.gs[i]; g != ex.last && ex.enabled(g) {
					order[n] = g
					n++
				}
			}
		}
		if n == 0 {
			if !harnessLeft {
				return Done
			}
			if !ex.advance(ex.cfg.Horizon) {
				return Deadlock
			}
			continue
		}
		opts := n
		if ex.cfg.TimeOpt && blocked > 0 {
			opts++
		}
		free := ex.cfg.FreeBlock && !(ex.last != nil && order[0] == ex.last)
		ex.hashState(ng)
		k := 0
		if opts > 1 {
			lbl := ""
			if ex.cfg.Trace {
				lbl = "sched"
			}
			k = ex.decide(opts, free, lbl)
		}
		ex.steps++
		if k == n {
			if ex.cfg.Trace {
				ex.TraceLog = append(ex.TraceLog, "-- time passes --")
			}
			// Perhaps no timer is pending: then just some time passed.
			if left := ex.cfg.Horizon - time.Since(ex.started); left > ex.cfg.Horizon/2 {
				ex.advance(ex.cfg.Horizon / 8)
			}
			continue
		}
		g := order[k]
		if ex.cfg.Trace {
			ex.TraceLog = append(ex.TraceLog, fmt.Sprintf("g%d(%s) at %s [%s] opts=%d pick=%d t=%s", g.ID, g.Name, SiteName(g.site), g.label, opts, k, time.Since(ex.started)))
		}
		ex.last = g
		ex.running = g
		raceOff()
		g.wake <- struct{}{}
		raceOn()
	}
}

//go:norace
func (ex *Exec) hashState(ng int) {
	h := uint64(14695981039346656037)
	for i := 0; i < ng; i++ {
		g := ex.gs[i]
		h = (h ^ uint64(g.state)) * 1099511628211
		h = (h ^ uint64(uint32(g.site))) * 1099511628211
		h = (h ^ uint64(g.kind)) * 1099511628211
		for j := 0; j < len(g.label); j++ {
			h = (h ^ uint64(g.label[j])) * 1099511628211
		}
	}
	ex.hashes = append(ex.hashes, h)
}

// advance lets fake time pass until some goroutine arrives at a point.
//
//go:norace
func (ex *Exec) advance(max time.Duration) bool {
	left := min(ex.cfg.Horizon-time.Since(ex.started), max)
	if left <= 0 {
		return false
	}
	raceOff()
	defer raceOn()
	select {
	case <-ex.arrived:
	default:
	}
	t := time.NewTimer(left)
	defer t.Stop()
	select {
	case <-ex.arrived:
		return true
	case <-t.C:
		return false
	}
}

// decide records one decision among n alternatives.
//
//go:norace
func (ex *Exec) decide(n int, free bool, label string) int {
	i := len(ex.nodes)
	pick := int32(0)
	if i < len(ex.cfg.Prefix) {
		pick = ex.cfg.Prefix[i]
		if int(pick) >= n || pick < 0 {
			if ex.Diverged == "" {
				ex.Diverged = fmt.Sprintf("decision %d: recorded alternative %d of %d", i, pick, n)
			}
			pick = 0
		}
	}
	if i < maxNodes {
		raceOff()
		ex.nodes = append(ex.nodes, Node{N: int32(n), Pick: pick, Free: free, Label: label})
		raceOn()
	}
	return int(pick)
}

// Choose is an environment decision taken by the running goroutine or by the
// controller. Free alternatives are always explored, others cost a deviation.
//
//go:norace
func (ex *Exec) Choose(n int, free bool, label string) int {
	if n <= 1 || ex.aborting {
		return 0
	}
	k := ex.decide(n, free, label)
	if ex.cfg.Trace {
		ex.TraceLog = append(ex.TraceLog, fmt.Sprintf("choose %s: %d of %d", label, k, n))
	}
	return k
}

// Info describes a goroutine.
type Info struct {
	ID      int
	Name    string
	Harness bool
	State   string
	Where   string
}

// Alive returns the goroutines which are not finished.
func (ex *Exec) Alive() (ret []Info) {
	for i := 0; i < int(ex.ng); i++ {
		g := ex.gs[i]
		if g.state == stDone || g.auto || g.ID < ex.dead {
			continue
		}
		s := "parked"
		if g.state == stRunning {
			s = "blocked"
		}
		ret = append(ret, Info{g.ID, g.Name, g.Harness, s, SiteName(g.site) + " [" + g.label + "]"})
	}
	return ret
}

// Abort tears the execution down: every parked goroutine exits. It returns the
// number of goroutines which are blocked in the runtime and cannot be ended.
func (ex *Exec) Abort() int {
	ex.aborting = true
	for round := 0; round < 4; round++ {
		for i := 0; i < int(ex.ng); i++ {
			g := ex.gs[i]
			if g.state == stParked {
				g.state = stRunning
				g.wake <- struct{}{}
			}
		}
		synctest.Wait()
	}
	n := 0
	for i := 0; i < int(ex.ng); i++ {
		if g := ex.gs[i]; g.state != stDone && !g.auto {
			n++
		}
	}
	return n
}

// Reset forgets the current execution.
func Reset() { cur = nil }

// Crash ends the simulated process: every goroutine there is, the calling one
// included, never continues. Those started by the controller later belong to
// the next process.
//
//go:norace
func Crash() {
	ex := cur
	if ex == nil || ex.aborting {
		runtime.Goexit()
	}
	g := ex.self()
	ex.dead = int(atomic.LoadInt32(&ex.ng))
	if g == nil {
		return
	}
	g.label, g.kind, g.addr = "crashed", KPlain, nil
	ex.park(g)
}
