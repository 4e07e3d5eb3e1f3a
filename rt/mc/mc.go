// Package mc is the harness side of the model checker: scenarios, executions
// and the worker loop which explores the executions of a scenario.
//
// A scenario is a closed program: every nondeterministic choice - which
// goroutine runs next, which case of a select is taken, what the environment
// does - is a numbered decision, so an execution is identified by its
// deviations from the default decisions and can be replayed.
package mc

import (
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/yields/ant/zverif/vsched"
)

// Bound of an exploration.
type Bound struct {
	Dev      int  // maximum number of non-free deviations; for a Tree everything is free
	Skip     bool // the scenario is not part of this tier
	Policies int  // number of base schedules (1: run-to-block lowest first, 2: + highest first, 3: + round robin)
}

// Scenario is a closed program over the code under test.
type Scenario struct {
	Name      string
	Prop      string
	Tree      bool // no goroutines: enumerate environment choices only
	Bubble    bool // Tree: run under fake time
	Fine      bool
	FineFiles []string
	TimeOpt   bool
	FreeBlock bool
	MaxSteps  int
	Horizon   time.Duration
	Quick     Bound
	Thorough  Bound
	Doc       string
	Run       func(x *X)
}

// X is one execution.
type X struct {
	T     *testing.T
	Tier  string
	sc    *Scenario
	ex    *vsched.Exec
	nodes []vsched.Node // Tree
	devs  map[int]int32
	last  int

	FailKey, FailMsg string
	obs              strings.Builder
	nontrivial       bool
	states           []uint64
	transitions      int
	diverged         string
	trace            bool
	log              []string
	ran              bool
	outcome          vsched.Outcome
	cleanup          []func()
	discard          bool
}

// Thorough reports whether this is the thorough tier.
func (x *X) Thorough() bool { return x.Tier == "thorough" }

// Fail records a violation of the scenario's property. The first one counts.
func (x *X) Fail(key, format string, args ...any) {
	if x.FailKey == "" {
		x.FailKey = key
		x.FailMsg = fmt.Sprintf(format, args...)
	}
	x.Logf("FAIL "+format, args...)
}

// Failed reports whether a violation was recorded.
func (x *X) Failed() bool { return x.FailKey != "" }

// Check records a violation unless ok.
func (x *X) Check(ok bool, key, format string, args ...any) bool {
	if !ok {
		x.Fail(key, format, args...)
	}
	return ok
}

// Obs adds to the observed behaviour of this execution.
func (x *X) Obs(format string, args ...any) {
	fmt.Fprintf(&x.obs, format, args...)
	x.obs.WriteByte(';')
	x.Logf("obs "+format, args...)
}

// Observed returns what was observed.
func (x *X) Observed() string { return x.obs.String() }

// NonTrivial marks this execution as one that exercised the property.
func (x *X) NonTrivial() { x.nontrivial = true }

// Discard drops an execution which is not part of the space (a duplicate).
func (x *X) Discard() { x.discard = true }

// Logf adds to the trace.
func (x *X) Logf(format string, args ...any) {
	if x.trace {
		s := fmt.Sprintf(format, args...)
		if x.ex != nil {
			x.ex.TraceLog = append(x.ex.TraceLog, "    "+s)
		} else {
			x.log = append(x.log, s)
		}
	}
}

// State records a state of the reference model.
func (x *X) State(s string) {
	h := fnv.New64a()
	h.Write([]byte(x.sc.Name))
	h.Write([]byte(s))
	x.states = append(x.states, h.Sum64())
}

// Step records n transitions of the reference model.
func (x *X) Step(n int) { x.transitions += n }

// Choose is a free environment choice: all n alternatives are explored.
func (x *X) Choose(n int, label string) int { return x.choose(n, true, label) }

// Deviate is an environment choice whose alternatives cost one deviation.
func (x *X) Deviate(n int, label string) int { return x.choose(n, false, label) }

// Flag is a free boolean choice.
func (x *X) Flag(label string) bool { return x.choose(2, true, label) == 1 }

func (x *X) choose(n int, free bool, label string) int {
	if x.ex != nil {
		return x.ex.Choose(n, free, label)
	}
	if n <= 1 {
		return 0
	}
	i := len(x.nodes)
	k := x.devs[i]
	if int(k) >= n {
		x.diverged = fmt.Sprintf("choice %d (%s): recorded alternative %d of %d", i, label, k, n)
		k = 0
	}
	x.nodes = append(x.nodes, vsched.Node{N: int32(n), Pick: k, Free: true, Label: label})
	if x.trace {
		x.log = append(x.log, fmt.Sprintf("choose %s: %d of %d", label, k, n))
	}
	return int(k)
}

// Pick returns one of the given values.
func Pick[T any](x *X, label string, vs ...T) T {
	v := vs[x.Choose(len(vs), label)]
	x.Logf("%s = %v", label, v)
	return v
}

// Go adds a goroutine to the scenario.
func (x *X) Go(name string, f func()) { x.ex.Spawn(name, f) }

// NoTimeOpt ends TimeOpt for the rest of the execution.
func (x *X) NoTimeOpt() { x.ex.SetTimeOpt(false) }

// Sched runs the goroutines until every one added by Go is finished, or nothing
// can continue.
func (x *X) Sched() vsched.Outcome {
	x.ran = true
	x.outcome = x.ex.Run()
	x.Logf("outcome: %s", x.outcome)
	for _, p := range x.ex.Panics() {
		x.Fail("panic: "+firstLine(p), "%s", p)
	}
	return x.outcome
}

// Finish runs the goroutines and fails unless all of them finished.
func (x *X) Finish() bool {
	switch o := x.Sched(); o {
	case vsched.Done:
		return !x.Failed()
	default:
		x.Fail(o.String(), "%s: %s", o, x.Stuck())
		return false
	}
}

// Stuck describes the goroutines which are not finished.
func (x *X) Stuck() string {
	var b strings.Builder
	for _, g := range x.ex.Alive() {
		fmt.Fprintf(&b, "[%s#%d %s at %s] ", g.Name, g.ID, g.State, g.Where)
	}
	return b.String()
}

// Leaked returns the goroutines started by the code under test that are still there.
func (x *X) Leaked() (ret []vsched.Info) {
	for _, g := range x.ex.Alive() {
		if !g.Harness {
			ret = append(ret, g)
		}
	}
	return ret
}

// Point is a scheduling point of the environment, e.g. a network operation.
func (x *X) Point(label string) { vsched.P(label) }

// Tracing reports whether this execution is being traced.
func (x *X) Tracing() bool { return x.trace }

// Cleanup registers a function which runs after the execution, in any case.
func (x *X) Cleanup(f func()) { x.cleanup = append(x.cleanup, f) }

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	// Addresses and goroutine numbers would make keys unstable.
	if i := strings.Index(s, ": "); i >= 0 && strings.HasPrefix(s, "panic in goroutine") {
		s = s[i+2:]
	}
	if len(s) > 160 {
		s = s[:160]
	}
	return s
}

// Result of an execution.
type Result struct {
	Key, Msg    string
	Obs         string
	NonTrivial  bool
	Discard     bool
	Nodes       []vsched.Node
	Hashes      []uint64
	Steps       int
	Diverged    string
	Trace       []string
	Outcome     string
	Transitions int
}

// Execute runs one execution of sc.
func Execute(t *testing.T, sc *Scenario, tier string, policy int, devs map[int]int32, trace bool) (res Result) {
	x := &X{T: t, Tier: tier, sc: sc, devs: devs, trace: trace}
	if sc.Tree && !sc.Bubble {
		x.runTree()
	} else {
		protect(func() {
			defer func() {
				if v := recover(); v != nil {
					// The bubble ends with blocked goroutines: their fate was
					// judged before.
					if s := fmt.Sprint(v); !strings.Contains(s, "deadlock:") {
						x.Fail("panic: "+firstLine(s), "%v\n%s", v, debug.Stack())
					}
				}
			}()
			synctest.Test(t, func(t *testing.T) {
				if sc.Tree {
					x.runTree()
				} else {
					x.runSched(policy)
				}
			})
		})
	}
	if x.ex != nil {
		vsched.Reset()
	}
	for i := len(x.cleanup) - 1; i >= 0; i-- {
		x.cleanup[i]()
	}
	res = Result{Key: x.FailKey, Msg: x.FailMsg, Obs: x.obs.String(), NonTrivial: x.nontrivial, Discard: x.discard, Diverged: x.diverged, Trace: x.log, Transitions: x.transitions}
	res.Hashes = x.states
	if x.ex != nil {
		res.Nodes = x.ex.Nodes()
		res.Hashes = append(res.Hashes, x.ex.Hashes()...)
		res.Steps = x.ex.Steps()
		res.Trace = x.ex.TraceLog
		res.Outcome = x.outcome.String()
		if x.ex.Diverged != "" {
			res.Diverged = x.ex.Diverged
		}
	} else {
		res.Nodes = x.nodes
		res.Steps = len(x.nodes)
	}
	return res
}

// protect runs f on a goroutine of its own if it may end the calling one, as
// synctest.Test does after a data race.
func protect(f func()) {
	if !vsched.RaceEnabled {
		f()
		return
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	<-done
}

func (x *X) runTree() {
	defer func() {
		if v := recover(); v != nil {
			s := string(debug.Stack())
			x.Fail("panic: "+firstLine(fmt.Sprint(v)), "panic: %v\n%s", v, s)
		}
	}()
	x.sc.Run(x)
}

func (x *X) runSched(policy int) {
	sc := x.sc
	var prefix []int32
	for i, k := range x.devs {
		for len(prefix) <= i {
			prefix = append(prefix, 0)
		}
		prefix[i] = k
	}
	x.ex = vsched.Begin(vsched.Config{
		Prefix: prefix, Fine: sc.Fine, Policy: policy, TimeOpt: sc.TimeOpt, FreeBlock: sc.FreeBlock,
		MaxSteps: sc.MaxSteps, Horizon: sc.Horizon, Trace: x.trace,
	})
	defer func() {
		x.ex.Abort()
		x.ex.End()
	}()
	defer func() {
		if v := recover(); v != nil {
			x.Fail("panic: "+firstLine(fmt.Sprint(v)), "panic in scenario: %v\n%s", v, debug.Stack())
		}
	}()
	sc.Run(x)
}
