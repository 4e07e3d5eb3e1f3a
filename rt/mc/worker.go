package mc

import (
	"bufio"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"runtime/debug"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/yields/ant/zverif/vsched"
)

// Item is an execution to run: its deviations as (decision, alternative) pairs.
type Item []int32

// Job for a worker.
type Job struct {
	Scenario string
	Policy   int
	Tier     string
	Cost     int // cost of the items
	MaxCost  int // bound
	Items    []Item
	BudgetMS int
	Replay   bool // run the items only, with a trace
}

// Viol is a violation.
type Viol struct {
	Key, Msg string
	Scenario string
	Policy   int
	Devs     Item
	Trace    []string `json:",omitempty"`
}

// Sample is a described execution.
type Sample struct {
	Scenario string
	Policy   int
	Devs     Item
	Steps    int
	Obs      string
}

// Reply of a worker.
type Reply struct {
	Execs       int
	Steps       int
	NonTrivial  int
	Discarded   int
	Diverged    int
	DivergedMsg string
	MaxNodes    int
	Left        []Item // same cost, not run yet
	Next        []Item // next cost
	Viols       []Viol
	Samples     []Sample
	States      string // new state hashes, base64 of little-endian uint64
	Outcomes    string // new outcome hashes (non-trivial ones)
	Outs        map[string]int
	Races       int
	Traces      [][]string `json:",omitempty"`
	Keys        []string   `json:",omitempty"`
	Msgs        []string   `json:",omitempty"`
}

// Info about a scenario, for the parent.
type Info struct {
	Name, Prop, Doc string
	Tree            bool
	Quick, Thorough Bound
}

// Main is the body of the harness's only test.
func Main(t *testing.T, scenarios []*Scenario) {
	if os.Getenv("VERIF_WORKER") == "" {
		t.Skip("run by /verif/mc")
	}
	log.SetOutput(io.Discard)
	debug.SetGCPercent(400)
	in := json.NewDecoder(bufio.NewReaderSize(os.NewFile(3, "jobs"), 1<<20))
	outf := bufio.NewWriterSize(os.NewFile(4, "replies"), 1<<20)
	enc := json.NewEncoder(outf)
	byName := map[string]*Scenario{}
	var infos []Info
	for _, s := range scenarios {
		if byName[s.Name] != nil {
			panic("duplicate scenario " + s.Name)
		}
		byName[s.Name] = s
		infos = append(infos, Info{s.Name, s.Prop, s.Doc, s.Tree, s.Quick, s.Thorough})
	}
	enc.Encode(infos)
	outf.Flush()
	w := &worker{t: t, states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}, warm: map[string]bool{}}
	w.openCrash()
	go w.watchdog()
	for {
		var job Job
		if err := in.Decode(&job); err != nil {
			return
		}
		sc := byName[job.Scenario]
		if sc == nil {
			panic("unknown scenario " + job.Scenario)
		}
		r := w.run(sc, &job)
		if err := enc.Encode(r); err != nil {
			return
		}
		outf.Flush()
	}
}

type worker struct {
	t        *testing.T
	states   map[uint64]struct{}
	outcomes map[uint64]struct{}
	crash    []byte
	beat     atomic.Int64
	busy     atomic.Int32
	lastSc   string
	warm     map[string]bool
}

// The execution in progress is kept in a shared file: should the process die,
// the parent knows which one killed it.
func (w *worker) openCrash() {
	f := os.NewFile(5, "crash")
	if f == nil {
		return
	}
	b, err := syscall.Mmap(5, 0, 1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err == nil {
		w.crash = b
	}
}

func (w *worker) note(it Item) {
	w.beat.Add(1)
	if w.crash == nil {
		return
	}
	n := len(it)
	if 4*n+4 > len(w.crash) {
		return
	}
	binary.LittleEndian.PutUint32(w.crash, uint32(n))
	for i, v := range it {
		binary.LittleEndian.PutUint32(w.crash[4+4*i:], uint32(v))
	}
}

func (w *worker) watchdog() {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		b := w.beat.Load()
		if b != last || w.busy.Load() == 0 {
			last, since = b, time.Now()
			continue
		}
		if time.Since(since) > 60*time.Second {
			fmt.Fprintln(os.Stderr, "verif: HANG: no progress for 60s of real time")
			debug.SetTraceback("all")
			panic("verif: HANG")
		}
	}
}

func (w *worker) run(sc *Scenario, job *Job) *Reply {
	w.busy.Store(1)
	defer w.busy.Store(0)
	r := &Reply{Outs: map[string]int{}}
	if sc.Name != w.lastSc {
		w.lastSc = sc.Name
		vsched.SetFineFiles(sc.FineFiles)
		if !sc.Tree && !w.warm[sc.Name] {
			// What happens once per process, filling caches for example, must
			// not make executions differ.
			w.warm[sc.Name] = true
			w.note(nil)
			Execute(w.t, sc, job.Tier, job.Policy, map[int]int32{}, false)
		}
	}
	var newStates, newOut []uint64
	deadline := time.Now().Add(time.Duration(job.BudgetMS) * time.Millisecond)
	stack := make([]Item, 0, 1024)
	for i := len(job.Items) - 1; i >= 0; i-- {
		stack = append(stack, job.Items[i])
	}
	for len(stack) > 0 {
		if !job.Replay && r.Execs > 0 && time.Now().After(deadline) {
			r.Left = stack
			break
		}
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		w.note(it)
		devs := map[int]int32{}
		last := -1
		for i := 0; i+1 < len(it); i += 2 {
			devs[int(it[i])] = it[i+1]
			last = int(it[i])
		}
		races := vsched.RaceErrors()
		res := Execute(w.t, sc, job.Tier, job.Policy, devs, job.Replay)
		if d := vsched.RaceErrors() - races; d > 0 {
			r.Races += d
			if res.Key == "" {
				res.Key, res.Msg = "data race", fmt.Sprintf("%d data race(s) reported", d)
			}
		}
		r.Execs++
		r.Steps += res.Steps + res.Transitions
		if len(res.Nodes) > r.MaxNodes {
			r.MaxNodes = len(res.Nodes)
		}
		if res.Diverged != "" {
			r.Diverged++
			if r.DivergedMsg == "" {
				r.DivergedMsg = res.Diverged
			}
			if !job.Replay {
				continue
			}
		}
		if job.Replay {
			r.Traces = append(r.Traces, res.Trace)
			r.Keys = append(r.Keys, res.Key)
			r.Msgs = append(r.Msgs, res.Msg)
			r.Samples = append(r.Samples, Sample{sc.Name, job.Policy, it, res.Steps, res.Obs})
			continue
		}
		for _, h := range res.Hashes {
			if _, ok := w.states[h]; !ok && len(w.states) < 1<<22 {
				w.states[h] = struct{}{}
				newStates = append(newStates, h)
			}
		}
		if res.Discard {
			r.Discarded++
		} else {
			r.Outs[res.Outcome]++
			if res.NonTrivial {
				r.NonTrivial++
				f := fnv.New64a()
				f.Write([]byte(sc.Name))
				f.Write([]byte(res.Obs))
				h := f.Sum64()
				if _, ok := w.outcomes[h]; !ok && len(w.outcomes) < 1<<22 {
					w.outcomes[h] = struct{}{}
					newOut = append(newOut, h)
					if len(r.Samples) < 2 {
						r.Samples = append(r.Samples, Sample{sc.Name, job.Policy, it, res.Steps, clip(res.Obs, 600)})
					}
				}
			}
		}
		if res.Key != "" {
			if len(r.Viols) < 50 {
				r.Viols = append(r.Viols, Viol{Key: res.Key, Msg: clip(res.Msg, 4000), Scenario: sc.Name, Policy: job.Policy, Devs: it})
			}
		}
		// Children: the first deviation after the last one of this execution.
		nodes := res.Nodes
		for i := len(nodes) - 1; i > last; i-- {
			nd := nodes[i]
			if !nd.Free && job.Cost+1 > job.MaxCost {
				continue
			}
			for k := nd.N - 1; k >= 1; k-- {
				c := make(Item, 0, len(it)+2)
				c = append(c, it...)
				c = append(c, int32(i), k)
				if nd.Free {
					stack = append(stack, c)
				} else {
					r.Next = append(r.Next, c)
				}
			}
		}
	}
	r.States = pack(newStates)
	r.Outcomes = pack(newOut)
	return r
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func pack(hs []uint64) string {
	b := make([]byte, 8*len(hs))
	for i, h := range hs {
		binary.LittleEndian.PutUint64(b[8*i:], h)
	}
	return base64.StdEncoding.EncodeToString(b)
}
