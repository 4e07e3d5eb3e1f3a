// Command mc is the driver of the model checker: it instruments the current
// tree of /repo, builds a harness against it and explores its scenarios with a
// pool of worker processes.
package main

import (
	"bufio"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

type item []int32

type job struct {
	Scenario string
	Policy   int
	Tier     string
	Cost     int
	MaxCost  int
	Items    []item
	BudgetMS int
	Replay   bool
}

type viol struct {
	Key, Msg string
	Scenario string
	Policy   int
	Devs     item
	Trace    []string `json:",omitempty"`
}

type sample struct {
	Scenario string
	Policy   int
	Devs     item
	Steps    int
	Obs      string
}

type reply struct {
	Execs, Steps, NonTrivial, Discarded, Diverged int
	DivergedMsg                                   string
	MaxNodes                                      int
	Left, Next                                    []item
	Viols                                         []viol
	Samples                                       []sample
	States, Outcomes                              string
	Outs                                          map[string]int
	Races                                         int
	Traces                                        [][]string
	Keys, Msgs                                    []string
}

type bound struct {
	Dev      int
	Skip     bool
	Policies int
}

type info struct {
	Name, Prop, Doc string
	Tree            bool
	Quick, Thorough bound
}

type check struct {
	Pkg         string   `json:"pkg"`
	Race        bool     `json:"race"`
	Level       string   `json:"level"`
	Rule        string   `json:"rule"`
	Validation  string   `json:"validation"`
	Assumptions []string `json:"assumptions"`
	QuickSec    int      `json:"quick_sec"`
	ThoroughSec int      `json:"thorough_sec"`
}

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "mc: "+format+"\n", args...)
	os.Exit(2)
}

func main() {
	verif := getenv("VERIF_DIR", "/verif")
	repo := getenv("VERIF_REPO", "/repo")
	build := getenv("VERIF_BUILD", filepath.Join(verif, ".build"))
	tier := getenv("VERIF_TIER", "quick")
	seed := atoi(os.Getenv("VERIF_SEED"), 1)
	var props []string
	replay, only := "", ""
	for i := 1; i < len(os.Args); i++ {
		switch a := os.Args[i]; a {
		case "--thorough":
			tier = "thorough"
		case "--quick":
			tier = "quick"
		case "--replay":
			i++
			replay = os.Args[i]
		case "--only":
			i++
			only = os.Args[i]
		default:
			props = append(props, a)
		}
	}
	os.MkdirAll(build, 0o755)
	lock, err := os.OpenFile(filepath.Join(build, "lock"), os.O_CREATE|os.O_RDWR, 0o644)
	if err == nil {
		syscall.Flock(int(lock.Fd()), syscall.LOCK_EX)
	}
	var checks map[string]check
	c, err := os.ReadFile(filepath.Join(verif, "checks.json"))
	if err != nil {
		fatal("%v", err)
	}
	if err := json.Unmarshal(c, &checks); err != nil {
		fatal("checks.json: %v", err)
	}
	findings, err := loadFindings(filepath.Join(verif, "known_findings.json"))
	if err != nil {
		fatal("known_findings.json: %v", err)
	}
	if replay != "" {
		os.Exit(doReplay(verif, repo, build, checks, replay))
	}
	if len(props) == 1 && props[0] == "build" {
		pk := map[string]int{}
		for _, ch := range checks {
			k := ch.Pkg
			if ch.Race {
				k += " race"
			}
			pk[k] = 1
		}
		for _, k := range sortedKeys(pk) {
			b := &builder{verif: verif, repo: repo, build: build, levels: map[string]int{}}
			t0 := time.Now()
			if _, err := b.compile(strings.TrimSuffix(k, " race"), strings.HasSuffix(k, " race")); err != nil {
				fatal("%s: %v", k, err)
			}
			fmt.Printf("built %s in %.1fs %v\n", k, time.Since(t0).Seconds(), b.notes)
		}
		return
	}
	if len(props) == 0 {
		for k := range checks {
			props = append(props, k)
		}
		sort.Strings(props)
	}
	rc := 0
	for _, p := range props {
		ch, ok := checks[p]
		if !ok {
			fatal("unknown property %s", p)
		}
		r := runner{verif: verif, repo: repo, build: build, tier: tier, seed: seed, prop: p, ch: ch, findings: findings, only: only}
		if c := r.run(); c > rc {
			rc = c
		}
	}
	os.Exit(rc)
}

func getenv(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// worker process
type worker struct {
	id    int
	cmd   *exec.Cmd
	in    *json.Encoder
	inf   *os.File
	out   *json.Decoder
	outf  *os.File
	crash []byte
	log   string
	infos []info
}

func startWorker(bin, build, tag string, id int) (*worker, error) {
	w := &worker{id: id}
	jr, jw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	rr, rw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	dir := filepath.Join(build, "run")
	os.MkdirAll(dir, 0o755)
	cf, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("crash.%s.%d", tag, id)), os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	if err != nil {
		return nil, err
	}
	cf.Truncate(1 << 16)
	w.crash, err = syscall.Mmap(int(cf.Fd()), 0, 1<<16, syscall.PROT_READ, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	w.log = filepath.Join(dir, fmt.Sprintf("log.%s.%d", tag, id))
	lf, err := os.Create(w.log)
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(bin, "-test.run", "^TestVerif$", "-test.timeout", "0")
	cmd.Dir = dir
	cmd.Stdout, cmd.Stderr = lf, lf
	cmd.ExtraFiles = []*os.File{jr, rw, cf}
	cmd.Env = append(os.Environ(), "VERIF_WORKER=1", "GOMAXPROCS=1", "GOMEMLIMIT=2500MiB", "GOTRACEBACK=all",
		"GORACE=suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 history_size=4 atexit_sleep_ms=0", "NO_PROXY=*", "HTTP_PROXY=", "http_proxy=", "HTTPS_PROXY=", "https_proxy=")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	jr.Close()
	rw.Close()
	cf.Close()
	lf.Close()
	w.cmd = cmd
	w.inf, w.outf = jw, rr
	w.in = json.NewEncoder(jw)
	w.out = json.NewDecoder(bufio.NewReaderSize(rr, 1<<20))
	if err := w.out.Decode(&w.infos); err != nil {
		w.stop()
		l, _ := os.ReadFile(w.log)
		return nil, fmt.Errorf("worker does not start: %v\n%s", err, tail(string(l), 4000))
	}
	return w, nil
}

func (w *worker) do(j *job) (*reply, error) {
	if err := w.in.Encode(j); err != nil {
		return nil, err
	}
	var r reply
	if err := w.out.Decode(&r); err != nil {
		return nil, err
	}
	return &r, nil
}

func (w *worker) stop() {
	w.inf.Close()
	t := time.AfterFunc(2*time.Second, func() { w.cmd.Process.Kill() })
	w.cmd.Wait()
	t.Stop()
	w.outf.Close()
	syscall.Munmap(w.crash)
}

func (w *worker) crashed() item {
	n := binary.LittleEndian.Uint32(w.crash)
	if int(n)*4+4 > len(w.crash) {
		return nil
	}
	it := make(item, n)
	for i := range it {
		it[i] = int32(binary.LittleEndian.Uint32(w.crash[4+4*i:]))
	}
	return it
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type stream struct {
	inf     info
	policy  int
	max     int
	pending map[int][]item // by cost
	running int
	done    map[int]int // executions per cost
}

type runner struct {
	verif, repo, build, tier, prop, only string
	seed                                 int
	ch                                   check
	findings                             []finding
	bin                                  string

	mu       sync.Mutex
	cond     *sync.Cond
	streams  []*stream
	stop     bool
	why      string
	deadline time.Time

	execs, steps, nontrivial, discarded, diverged, maxNodes int
	divMsg                                                  string
	states, outcomes                                        map[uint64]struct{}
	outs                                                    map[string]int
	samples                                                 []sample
	viols                                                   []viol
	confirmed                                               []viol
	known                                                   map[int]viol
	unrepro                                                 []viol
	seenKey                                                 map[string]int
	crashes                                                 int
	errs                                                    []string
}

func (r *runner) run() int {
	t0 := time.Now()
	b := &builder{verif: r.verif, repo: r.repo, build: r.build, levels: map[string]int{}}
	bin, err := b.compile(r.ch.Pkg, r.ch.Race)
	if err != nil {
		fmt.Fprintf(os.Stderr, "mc: %s: %v\n", r.prop, err)
		return 2
	}
	r.bin = bin
	buildS := time.Since(t0).Seconds()
	secs := r.ch.QuickSec
	if secs == 0 {
		secs = 150
	}
	if r.tier == "thorough" {
		if secs = r.ch.ThoroughSec; secs == 0 {
			secs = 780
		}
	}
	secs = atoi(os.Getenv("VERIF_SECS"), secs)
	r.deadline = time.Now().Add(time.Duration(secs) * time.Second)
	r.states, r.outcomes = map[uint64]struct{}{}, map[uint64]struct{}{}
	r.outs, r.known, r.seenKey = map[string]int{}, map[int]viol{}, map[string]int{}
	r.cond = sync.NewCond(&r.mu)

	n := atoi(os.Getenv("VERIF_JOBS"), 8)
	w0, err := startWorker(bin, r.build, r.prop, 0)
	if err != nil {
		fmt.Fprintf(os.Stderr, "mc: %s: %v\n", r.prop, err)
		return 2
	}
	nsc := 0
	for _, in := range w0.infos {
		if in.Prop != r.prop || (r.only != "" && !strings.Contains(in.Name, r.only)) {
			continue
		}
		bd := in.Quick
		if r.tier == "thorough" {
			bd = in.Thorough
			if bd == (bound{}) {
				bd = in.Quick
			}
		}
		if bd.Skip {
			continue
		}
		nsc++
		if bd.Policies == 0 || in.Tree {
			bd.Policies = 1
		}
		for p := 0; p < bd.Policies; p++ {
			r.streams = append(r.streams, &stream{inf: in, policy: p, max: bd.Dev, pending: map[int][]item{0: {{}}}, done: map[int]int{}})
		}
	}
	if len(r.streams) == 0 {
		w0.stop()
		fmt.Fprintf(os.Stderr, "mc: %s: no scenarios\n", r.prop)
		return 2
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int, w *worker) {
			defer wg.Done()
			r.loop(i, w)
		}(i, map[bool]*worker{true: w0}[i == 0])
	}
	wg.Wait()

	exhaustive := r.why == "" && r.diverged == 0 && len(r.unrepro) == 0
	wall := time.Since(t0).Seconds()
	var bounds []map[string]any
	for _, s := range r.streams {
		m := map[string]any{"scenario": s.inf.Name, "policy": s.policy, "bound": s.max, "executions_by_deviations": s.done}
		left := 0
		for _, p := range s.pending {
			left += len(p)
		}
		if left > 0 {
			m["unexplored_prefixes"] = left
		}
		bounds = append(bounds, m)
	}
	level := r.ch.Level
	if level == "" {
		level = "model_checking"
	}
	cov := map[string]any{
		"evaluations":                   r.execs,
		"distinct_nontrivial":           len(r.outcomes),
		"states":                        len(r.states),
		"transitions":                   r.steps,
		"traces_validated_against_impl": r.execs - r.discarded - r.diverged,
		"rule":                          r.ch.Rule,
		"validation":                    r.ch.Validation,
		"samples":                       r.evSamples(),
		"exhaustive":                    exhaustive,
		"scenarios":                     nsc,
		"nontrivial_executions":         r.nontrivial,
		"outcomes_by_kind":              r.outs,
		"max_decisions_per_execution":   r.maxNodes,
		"per_scenario":                  bounds,
		"build_s":                       buildS,
	}
	if r.why != "" {
		cov["stopped"] = r.why
	}
	if r.diverged > 0 {
		cov["diverged_executions"] = r.diverged
		cov["diverged_example"] = r.divMsg
	}
	if len(r.unrepro) > 0 {
		cov["unreproducible_reports"] = r.unrepro
	}
	if len(b.notes) > 0 {
		cov["instrumentation_notes"] = b.notes
	}
	ev := map[string]any{
		"property": r.prop, "tier": r.tier, "seed": r.seed, "level": level, "coverage": cov,
		"assumptions": append([]string{}, r.ch.Assumptions...), "wall_s": wall, "violations": len(r.confirmed),
	}
	os.MkdirAll(filepath.Join(r.verif, "evidence"), 0o755)
	evb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(r.verif, "evidence", r.prop+".json"), append(evb, '\n'), 0o644); err != nil {
		fmt.Fprintf(os.Stderr, "mc: %v\n", err)
		return 2
	}
	fmt.Printf("%s %s: %d scenarios, %d executions, %d states, %d transitions, %d distinct outcomes, exhaustive=%v, %.1fs (build %.1fs)\n",
		r.prop, r.tier, nsc, r.execs, len(r.states), r.steps, len(r.outcomes), exhaustive, wall, buildS)
	if os.Getenv("VERIF_DEBUG") != "" {
		for _, s := range r.streams {
			fmt.Printf("  %s/%d bound %d: %v\n", s.inf.Name, s.policy, s.max, s.done)
		}
		fmt.Println("  outs", r.outs, "diverged", r.diverged, r.divMsg, "unrepro", len(r.unrepro), b.notes)
	}
	for i, f := range r.findings {
		if f.Property == r.prop && f.Status != "fixed" {
			seen := ""
			if v, ok := r.known[i]; ok {
				seen = " (observed: " + v.Scenario + ": " + v.Key + ")"
			}
			fmt.Printf("KNOWN-FINDING: property=%s %s%s\n", r.prop, f.What, seen)
		}
	}
	for _, e := range r.errs {
		fmt.Fprintf(os.Stderr, "mc: %s: %s\n", r.prop, e)
	}
	if len(r.confirmed) > 0 {
		v := r.confirmed[0]
		path := filepath.Join(r.verif, "replay", r.prop+".json")
		os.MkdirAll(filepath.Dir(path), 0o755)
		vb, _ := json.MarshalIndent(map[string]any{"property": r.prop, "tier": r.tier, "violation": v}, "", " ")
		os.WriteFile(path, append(vb, '\n'), 0o644)
		fmt.Printf("violated in %s (policy %d, deviations %v): %s\n%s\n", v.Scenario, v.Policy, v.Devs, v.Key, indent(tail2(v.Msg, 3000)))
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, path)
		return 1
	}
	if len(r.errs) > 0 {
		return 2
	}
	return 0
}

func tail2(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func indent(s string) string { return "    " + strings.ReplaceAll(s, "\n", "\n    ") }

func (r *runner) evSamples() []any {
	var ret []any
	for i, s := range r.samples {
		if i >= 12 {
			break
		}
		ret = append(ret, map[string]any{"scenario": s.Scenario, "policy": s.Policy, "deviations": s.Devs, "steps": s.Steps, "observed": s.Obs})
	}
	if ret == nil {
		ret = []any{"no non-trivial execution"}
	}
	return ret
}

// next picks a batch of the lowest cost.
func (r *runner) next() (*stream, *job) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stop {
			return nil, nil
		}
		if time.Now().After(r.deadline) {
			r.stop = true
			r.why = "time budget"
			r.cond.Broadcast()
			return nil, nil
		}
		best, bestCost := -1, 1<<30
		running := 0
		minDone := 1 << 60
		for i, s := range r.streams {
			running += s.running
			for c, p := range s.pending {
				if len(p) == 0 {
					continue
				}
				d := s.done[c]
				if c < bestCost || (c == bestCost && d < minDone) {
					best, bestCost, minDone = i, c, d
				}
			}
		}
		if best < 0 {
			if running == 0 {
				r.stop = true
				r.cond.Broadcast()
				return nil, nil
			}
			r.cond.Wait()
			continue
		}
		s := r.streams[best]
		p := s.pending[bestCost]
		k := len(p)/16 + 1
		if k > 256 {
			k = 256
		}
		items := append([]item(nil), p[len(p)-k:]...)
		if p = p[:len(p)-k]; len(p) == 0 {
			delete(s.pending, bestCost)
		} else {
			s.pending[bestCost] = p
		}
		s.running++
		return s, &job{Scenario: s.inf.Name, Policy: s.policy, Tier: r.tier, Cost: bestCost, MaxCost: s.max, Items: items, BudgetMS: 150}
	}
}

func (r *runner) loop(i int, w *worker) {
	var err error
	for {
		s, j := r.next()
		if j == nil {
			break
		}
		if w == nil {
			if w, err = startWorker(r.bin, r.build, r.prop, i); err != nil {
				r.mu.Lock()
				r.errs = append(r.errs, err.Error())
				s.running--
				r.stop = true
				r.cond.Broadcast()
				r.mu.Unlock()
				return
			}
		}
		rep, err := w.do(j)
		if err != nil {
			w.cmd.Process.Kill()
			w.cmd.Wait()
			r.crash(w, s, j)
			w.outf.Close()
			w.inf.Close()
			w = nil
			continue
		}
		r.merge(s, j, rep)
	}
	if w != nil {
		w.stop()
	}
}

var crashLine = regexp.MustCompile(`(?m)^(fatal error: .*|panic: .*|verif: HANG.*|SIG[A-Z]+: .*|unexpected fault address.*)$`)

func crashKey(log string) string {
	if m := crashLine.FindString(log); m != "" {
		return "crash: " + tail2(m, 160)
	}
	return "crash: worker died"
}

// crash handles a dead worker: the execution it was running is the suspect.
func (r *runner) crash(w *worker, s *stream, j *job) {
	it := w.crashed()
	l, _ := os.ReadFile(w.log)
	log := tail(string(l), 20000)
	v := viol{Key: crashKey(log), Msg: tail2(log, 6000), Scenario: j.Scenario, Policy: j.Policy, Devs: it}
	r.mu.Lock()
	r.crashes++
	many := r.crashes > 20
	r.mu.Unlock()
	ok := r.reproduces(&v)
	r.mu.Lock()
	defer r.mu.Unlock()
	s.running--
	if ok {
		r.report(v)
	} else {
		r.unrepro = append(r.unrepro, v)
		if !many {
			s.pending[j.Cost] = append(s.pending[j.Cost], j.Items...)
		} else {
			r.why = "workers keep dying"
		}
	}
	if many {
		r.stop = true
	}
	r.cond.Broadcast()
}

// reproduces replays a suspected violation 10 times in fresh processes.
func (r *runner) reproduces(v *viol) bool {
	ok := 0
	total := 0
	for total < 10 && ok < 3 {
		w, err := startWorker(r.bin, r.build, r.prop+".replay", total)
		if err != nil {
			total++
			continue
		}
		n := 3
		if strings.HasPrefix(v.Key, "crash:") {
			n = 1
		}
		items := make([]item, n)
		for i := range items {
			items[i] = v.Devs
		}
		rep, err := w.do(&job{Scenario: v.Scenario, Policy: v.Policy, Tier: r.tier, Items: items, Replay: true})
		total += n
		if err != nil {
			ok++
			l, _ := os.ReadFile(w.log)
			if k := crashKey(tail(string(l), 20000)); strings.HasPrefix(v.Key, "crash:") {
				v.Key = k
			}
			w.cmd.Process.Kill()
			w.cmd.Wait()
			continue
		}
		w.stop()
		for i, k := range rep.Keys {
			if k != "" {
				ok++
				if v.Trace == nil {
					v.Trace = rep.Traces[i]
				}
			}
		}
		if r.ch.Race {
			l, _ := os.ReadFile(w.log)
			if s := string(l); strings.Contains(s, "DATA RACE") {
				v.Msg += "\n" + tail2(s, 6000)
			}
		}
	}
	return ok >= 2
}

// report files a confirmed violation; r.mu is held.
func (r *runner) report(v viol) {
	for i, f := range r.findings {
		if f.Property != r.prop || f.Status == "fixed" {
			continue
		}
		if regexp.MustCompile("^(?:"+f.Scenario+")$").MatchString(v.Scenario) && regexp.MustCompile("^(?:"+f.Key+")$").MatchString(v.Key) {
			if _, ok := r.known[i]; !ok {
				r.known[i] = v
			}
			return
		}
	}
	r.confirmed = append(r.confirmed, v)
	if os.Getenv("VERIF_KEEPGOING") == "" {
		r.stop = true
		r.why = "violation found"
	} else {
		fmt.Printf("  violation %s/%d %v: %s\n%s\n", v.Scenario, v.Policy, v.Devs, v.Key, indent(tail2(v.Msg, 600)))
	}
}

func (r *runner) merge(s *stream, j *job, rep *reply) {
	r.mu.Lock()
	var todo []viol
	for _, v := range rep.Viols {
		k := v.Scenario + "\x00" + v.Key
		r.seenKey[k]++
		if r.seenKey[k] == 1 || (r.seenKey[k] < 4 && false) {
			todo = append(todo, v)
		}
	}
	r.mu.Unlock()
	for _, v := range todo {
		ok := r.reproduces(&v)
		r.mu.Lock()
		if ok {
			r.report(v)
		} else {
			r.unrepro = append(r.unrepro, v)
			// Give other executions with the same key a chance.
			r.seenKey[v.Scenario+"\x00"+v.Key] = 0
			if len(r.unrepro) > 8 {
				r.stop, r.why = true, "unreproducible reports"
			}
		}
		r.mu.Unlock()
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	s.running--
	s.done[j.Cost] += rep.Execs
	if len(rep.Left) > 0 {
		s.pending[j.Cost] = append(s.pending[j.Cost], rep.Left...)
	}
	if len(rep.Next) > 0 {
		s.pending[j.Cost+1] = append(s.pending[j.Cost+1], rep.Next...)
	}
	r.execs += rep.Execs
	r.steps += rep.Steps
	r.nontrivial += rep.NonTrivial
	r.discarded += rep.Discarded
	r.diverged += rep.Diverged
	if rep.DivergedMsg != "" {
		r.divMsg = s.inf.Name + ": " + rep.DivergedMsg
	}
	if rep.MaxNodes > r.maxNodes {
		r.maxNodes = rep.MaxNodes
	}
	for k, n := range rep.Outs {
		if k == "" {
			k = "enumerated"
		}
		r.outs[k] += n
	}
	unpack(rep.States, r.states)
	unpack(rep.Outcomes, r.outcomes)
	if len(r.samples) < 200 {
		have := 0
		for _, x := range r.samples {
			if x.Scenario == s.inf.Name {
				have++
			}
		}
		for _, x := range rep.Samples {
			if have < 2 {
				r.samples = append(r.samples, x)
				have++
			}
		}
	}
	r.cond.Broadcast()
}

func unpack(s string, m map[uint64]struct{}) {
	b, _ := base64.StdEncoding.DecodeString(s)
	for i := 0; i+8 <= len(b); i += 8 {
		m[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
	}
}

func doReplay(verif, repo, build string, checks map[string]check, path string) int {
	c, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var f struct {
		Property, Tier string
		Violation      viol
	}
	if err := json.Unmarshal(c, &f); err != nil {
		fatal("%v", err)
	}
	ch := checks[f.Property]
	b := &builder{verif: verif, repo: repo, build: build, levels: map[string]int{}}
	bin, err := b.compile(ch.Pkg, ch.Race)
	if err != nil {
		fatal("%v", err)
	}
	w, err := startWorker(bin, build, "replay", 0)
	if err != nil {
		fatal("%v", err)
	}
	v := f.Violation
	rep, err := w.do(&job{Scenario: v.Scenario, Policy: v.Policy, Tier: f.Tier, Items: []item{v.Devs}, Replay: true})
	if err != nil {
		l, _ := os.ReadFile(w.log)
		fmt.Println(tail(string(l), 6000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
		return 1
	}
	w.stop()
	for _, l := range rep.Traces[0] {
		fmt.Println(l)
	}
	for _, s := range rep.Samples {
		fmt.Println("observed:", s.Obs)
	}
	if ch.Race {
		l, _ := os.ReadFile(w.log)
		fmt.Println(tail2(string(l), 6000))
	}
	if rep.Keys[0] == "" {
		fmt.Println("no violation in this replay")
		return 0
	}
	fmt.Println(rep.Msgs[0])
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
	return 1
}
