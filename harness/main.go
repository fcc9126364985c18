// Command harness runs the runtime monitors for codeallergy/value.
//
//	harness -prop C01 [-replay FILE]      parent: runs the check
//	harness -worker ...                   worker: runs cases (internal)
package main

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/codeallergy/value"
)

const (
	slots     = 64
	slotBytes = 32 // section, index+1, sequence number, reserved
)

var (
	raceEnabled bool // set by race.go when built with -race
	tier        = "quick"
	seed        = uint64(1)
)

func thorough() bool { return tier == "thorough" }

// ---------------------------------------------------------------- properties

type Section struct {
	Name   string
	N      func() int    // number of cases
	Run    func(c *Case) // one case
	Serial bool          // run alone (process-wide measurements)
	NoFast bool          // run with value.AllowFastAppends == false
}

type Prop struct {
	ID       string
	Rule     string // what is a case and what makes it non-trivial
	Sections []Section
	Needs    []string // counters that must be non-zero, or the run observed nothing
	Race     bool
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// n(q, t): q cases in the quick tier, t in the thorough tier.
func n(q, t int) func() int {
	return func() int {
		if thorough() {
			return t
		}
		return q
	}
}

// ---------------------------------------------------------------- one case

type Case struct {
	*RNG
	Prop    string
	Section string
	Index   int
	st      *stats
	local   map[string]int64
	note    string // context for the report
	evals   int64
	knowns  []string
}

type failure struct{ msg string }

func (c *Case) Failf(format string, args ...interface{}) {
	panic(failure{fmt.Sprintf(format, args...)})
}
func (c *Case) Check(ok bool, format string, args ...interface{}) {
	c.evals++
	if !ok {
		c.Failf(format, args...)
	}
}
func (c *Case) Count(name string, k int64) { c.local[name] += k }

// Distinct records the signature of a non-trivial case.
func (c *Case) Distinct(sig uint64) { c.st.distinct(sig) }
func (c *Case) DistinctB(b []byte)  { c.st.distinct(fnv64(string(b)) ^ fnv64(c.Section)) }
func (c *Case) Sample(format string, args ...interface{}) {
	c.st.sample(c.Section, c.Index, format, args...)
}
func (c *Case) Note(format string, args ...interface{}) { c.note = fmt.Sprintf(format, args...) }

// Known reports a documented finding observed again (only from the dedicated
// sections that reproduce it).
func (c *Case) Known(key, what string) {
	if !knownListed(c.Prop, key) {
		c.Failf("%s (finding %q is not listed in known_findings.txt)", what, key)
	}
	c.knowns = append(c.knowns, key+"\t"+what)
}

type stats struct {
	mu       sync.Mutex
	counters map[string]int64
	sigs     [64]struct {
		mu sync.Mutex
		m  map[uint64]struct{}
	}
	samples []string
	cases   int64
	evals   int64
	knowns  map[string]string
}

func newStats() *stats {
	s := &stats{counters: map[string]int64{}, knowns: map[string]string{}}
	for i := range s.sigs {
		s.sigs[i].m = map[uint64]struct{}{}
	}
	return s
}
func (s *stats) distinct(sig uint64) {
	sh := &s.sigs[sig&63]
	sh.mu.Lock()
	sh.m[sig] = struct{}{}
	sh.mu.Unlock()
}
func (s *stats) sample(sec string, idx int, format string, args ...interface{}) {
	if idx > 2 {
		return
	}
	s.mu.Lock()
	if len(s.samples) < 24 {
		t := fmt.Sprintf(format, args...)
		if len(t) > 300 {
			t = t[:300] + "…"
		}
		s.samples = append(s.samples, fmt.Sprintf("%s#%d: %s", sec, idx, strings.ToValidUTF8(t, "?")))
	}
	s.mu.Unlock()
}

// ---------------------------------------------------------------- results

type Violation struct {
	Property string `json:"property"`
	Section  string `json:"section"`
	Index    int    `json:"index"`
	Seed     uint64 `json:"seed"`
	Tier     string `json:"tier"`
	What     string `json:"what"`
	Detail   string `json:"detail,omitempty"`
}

type Result struct {
	Done       bool              `json:"done"`
	Cases      int64             `json:"cases"`
	Evals      int64             `json:"evals"`
	Distinct   int64             `json:"distinct"`
	Counters   map[string]int64  `json:"counters"`
	Samples    []string          `json:"samples"`
	Known      map[string]string `json:"known"`
	Violations []Violation       `json:"violations"`
}

type caseRef struct{ sec, idx int }

// ---------------------------------------------------------------- worker

type worker struct {
	p     *Prop
	st    *stats
	prog  []byte
	mu    sync.Mutex
	viol  []Violation
	stop  atomic.Bool
	seqno atomic.Uint64

	outPath string
}

var slowLog = os.Getenv("VERIF_SLOW") != ""

func (w *worker) runOne(slot int, ref caseRef) {
	sec := &w.p.Sections[ref.sec]
	off := slot * slotBytes
	if w.prog != nil {
		binary.LittleEndian.PutUint64(w.prog[off:], uint64(ref.sec))
		binary.LittleEndian.PutUint64(w.prog[off+16:], w.seqno.Add(1))
		binary.LittleEndian.PutUint64(w.prog[off+8:], uint64(ref.idx+1))
	}
	c := &Case{
		RNG:     NewRNG(seed, fnv64(w.p.ID), fnv64(sec.Name), uint64(ref.idx)),
		Prop:    w.p.ID,
		Section: sec.Name,
		Index:   ref.idx,
		st:      w.st,
		local:   map[string]int64{},
	}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			v := Violation{Property: w.p.ID, Section: sec.Name, Index: ref.idx, Seed: seed, Tier: tier}
			if f, ok := r.(failure); ok {
				v.What = f.msg
			} else {
				v.What = fmt.Sprintf("panic: %v", r)
				v.Detail = string(debug.Stack())
			}
			if c.note != "" {
				v.Detail = c.note + "\n" + v.Detail
			}
			w.mu.Lock()
			w.viol = append(w.viol, v)
			// what is found counts, whatever becomes of the cases still running
			switch len(w.viol) {
			case 1:
				time.AfterFunc(60*time.Second, w.finish)
			case 5:
				w.stop.Store(true)
				time.AfterFunc(10*time.Second, w.finish)
			}
			b, _ := json.Marshal(w.viol)
			if w.outPath != "" && os.WriteFile(w.outPath+".new", b, 0o600) == nil {
				_ = os.Rename(w.outPath+".new", w.outPath+".partial")
			}
			w.mu.Unlock()
		}()
		if slowLog {
			t := time.Now()
			defer func() {
				if d := time.Since(t); d > 2*time.Second {
					fmt.Fprintf(os.Stderr, "slow: %s/%d %.1fs %s\n", sec.Name, ref.idx, d.Seconds(), firstLines(c.note, 1))
				}
			}()
		}
		sec.Run(c)
	}()
	w.st.mu.Lock()
	for k, v := range c.local {
		w.st.counters[k] += v
	}
	for _, k := range c.knowns {
		parts := strings.SplitN(k, "\t", 2)
		w.st.knowns[parts[0]] = parts[1]
	}
	w.st.cases++
	w.st.evals += c.evals
	w.st.counters["cases:"+sec.Name]++
	w.st.mu.Unlock()
	if w.prog != nil {
		binary.LittleEndian.PutUint64(w.prog[off+8:], 0)
	}
}

func (w *worker) phase(refs []caseRef, par int) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for g := 0; g < par; g++ {
		wg.Add(1)
		go func(slot int) {
			defer wg.Done()
			for !w.stop.Load() {
				i := next.Add(1) - 1
				if int(i) >= len(refs) {
					return
				}
				w.runOne(slot, refs[i])
			}
		}(g)
	}
	wg.Wait()
}

func workerMain(p *Prop, progPath, outPath, only string, cpuLimit int) {
	if !raceEnabled {
		lim := syscall.Rlimit{Cur: 14 << 30, Max: 14 << 30}
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	if cpuLimit > 0 {
		lim := syscall.Rlimit{Cur: uint64(cpuLimit), Max: uint64(cpuLimit) + 5}
		_ = syscall.Setrlimit(syscall.RLIMIT_CPU, &lim)
	}
	// Stack dumps of a crash are for the report; keep them short.
	debug.SetTraceback("single")
	if only != "" {
		debug.SetTraceback("all")
	}
	debug.SetMaxStack(512 << 20)
	debug.SetMemoryLimit(5 << 30) // collect more often rather than grow
	w := &worker{p: p, st: newStats(), outPath: outPath}
	if progPath != "" {
		f, err := os.OpenFile(progPath, os.O_RDWR, 0o600)
		if err == nil {
			w.prog, _ = syscall.Mmap(int(f.Fd()), 0, slots*slotBytes, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			f.Close()
		}
	}
	if only != "" {
		var ref caseRef
		fmt.Sscanf(only, "%d/%d", &ref.sec, &ref.idx)
		value.AllowFastAppends = !p.Sections[ref.sec].NoFast
		w.runOne(0, ref)
	} else {
		var serial, par, parSlow []caseRef
		for si := range p.Sections {
			s := &p.Sections[si]
			for i := 0; i < s.N(); i++ {
				r := caseRef{si, i}
				switch {
				case s.NoFast:
					parSlow = append(parSlow, r)
				case s.Serial:
					serial = append(serial, r)
				default:
					par = append(par, r)
				}
			}
		}
		procs := runtime.GOMAXPROCS(0)
		if procs > slots {
			procs = slots
		}
		if p.Race && procs > 3 {
			procs = 3 // each case starts many goroutines itself
		}
		w.phase(serial, 1)
		w.phase(par, procs)
		if len(parSlow) > 0 {
			value.AllowFastAppends = false
			w.phase(parSlow, procs)
			value.AllowFastAppends = true
		}
	}
	w.finish()
}

// finish writes the result and ends the worker, at the latest some time after a
// violation was found.
func (w *worker) finish() {
	w.mu.Lock() // for ever
	w.st.mu.Lock()
	res := Result{Done: true, Cases: w.st.cases, Evals: w.st.evals, Counters: w.st.counters, Samples: w.st.samples, Known: w.st.knowns, Violations: w.viol}
	for i := range w.st.sigs {
		w.st.sigs[i].mu.Lock()
		res.Distinct += int64(len(w.st.sigs[i].m))
	}
	b, _ := json.MarshalIndent(&res, "", " ")
	if err := os.WriteFile(w.outPath, b, 0o600); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Exit(0)
}

// ---------------------------------------------------------------- parent

type childOutcome struct {
	exit   int
	signal syscall.Signal
	log    string
	res    Result
	hasRes bool
	stuck  bool // did not end in time
	idle   bool // and used no CPU
	flight []caseRef
	found  []Violation // by a worker that did not get to its end
}

func readFlight(prog []byte) (refs []caseRef, seqs map[caseRef]uint64) {
	seqs = map[caseRef]uint64{}
	for s := 0; s < slots; s++ {
		o := s * slotBytes
		idx := binary.LittleEndian.Uint64(prog[o+8:])
		if idx == 0 {
			continue
		}
		r := caseRef{int(binary.LittleEndian.Uint64(prog[o:])), int(idx - 1)}
		refs = append(refs, r)
		seqs[r] = binary.LittleEndian.Uint64(prog[o+16:])
	}
	return
}

func runChild(tmp string, p *Prop, only string, cpuLimit int, stuckAfter, wall time.Duration) childOutcome {
	progPath := filepath.Join(tmp, "progress")
	outPath := filepath.Join(tmp, "result.json")
	os.Remove(outPath)
	os.Remove(outPath + ".partial")
	_ = os.WriteFile(progPath, make([]byte, slots*slotBytes), 0o600)
	f, err := os.OpenFile(progPath, os.O_RDWR, 0o600)
	if err != nil {
		fatal("progress file: %v", err)
	}
	prog, err := syscall.Mmap(int(f.Fd()), 0, slots*slotBytes, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fatal("mmap: %v", err)
	}
	f.Close()
	defer syscall.Munmap(prog)

	self, _ := os.Executable()
	args := []string{"-worker", "-prop", p.ID, "-progress", progPath, "-out", outPath, "-tier", tier, "-seed", strconv.FormatUint(seed, 10)}
	if only != "" {
		args = append(args, "-only", only)
	}
	if cpuLimit > 0 {
		args = append(args, "-cpu", strconv.Itoa(cpuLimit))
	}
	logPath := filepath.Join(tmp, "worker.log")
	lf, _ := os.Create(logPath)
	cmd := exec.Command(self, args...)
	cmd.Stdout, cmd.Stderr = lf, lf
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	if err := cmd.Start(); err != nil {
		fatal("start worker: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var oc childOutcome
	start := time.Now()
	since := map[uint64]time.Time{}
	cpuMark, idleTicks := int64(0), 0
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
loop:
	for {
		select {
		case <-done:
			break loop
		case <-tick.C:
			refs, seqs := readFlight(prog)
			now := time.Now()
			live := map[uint64]time.Time{}
			stuck := false
			// a minute of ticks with cases running and no CPU used: a deadlock
			if cpu := cpuTicks(cmd.Process.Pid); cpu < 0 || cpu > cpuMark+10 || len(refs) == 0 {
				cpuMark, idleTicks = cpu, 0
			} else if idleTicks++; idleTicks >= 120 {
				stuck, oc.idle = true, true
			}
			for _, r := range refs {
				q := seqs[r]
				t, ok := since[q]
				if !ok {
					t = now
				}
				live[q] = t
				if now.Sub(t) > stuckAfter {
					stuck = true
				}
			}
			since = live
			if stuck || now.Sub(start) > wall {
				oc.stuck = true
				_ = cmd.Process.Signal(syscall.SIGQUIT) // for the stacks
				select {
				case <-done:
				case <-time.After(3 * time.Second):
					_ = cmd.Process.Kill()
					<-done
				}
				break loop
			}
		}
	}
	lf.Close()
	oc.flight, _ = readFlight(prog)
	if oc.stuck {
		// keep only the cases that have been running long
		oc.flight = nil
		refs, seqs := readFlight(prog)
		now := time.Now()
		for _, r := range refs {
			if t, ok := since[seqs[r]]; ok && (now.Sub(t) > stuckAfter || oc.idle && now.Sub(t) > 50*time.Second) {
				oc.flight = append(oc.flight, r)
			}
		}
	}
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok {
		if ws.Signaled() {
			oc.signal = ws.Signal()
			oc.exit = -1
		} else {
			oc.exit = ws.ExitStatus()
		}
	}
	b, _ := os.ReadFile(logPath)
	if len(b) > 16000 {
		b = append(append([]byte{}, b[:12000]...), append([]byte("\n…\n"), b[len(b)-4000:]...)...)
	}
	oc.log = string(b)
	if b, err := os.ReadFile(outPath); err == nil && json.Unmarshal(b, &oc.res) == nil && oc.res.Done {
		oc.hasRes = true
	} else if b, err := os.ReadFile(outPath + ".partial"); err == nil {
		_ = json.Unmarshal(b, &oc.found)
	}
	return oc
}

// cpuTicks is the CPU time a worker has used, in hundredths of a second.
func cpuTicks(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return -1
	}
	f := strings.Fields(string(b[strings.LastIndexByte(string(b), ')')+1:]))
	if len(f) < 13 {
		return -1
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	s, _ := strconv.ParseInt(f[12], 10, 64)
	return u + s
}

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness: "+format+"\n", args...)
	os.Exit(2)
}

var verifDir = func() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}()

func writeReplay(v Violation) string {
	dir := filepath.Join(verifDir, "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", v.Property, v.Section, v.Seed, v.Index))
	b, _ := json.MarshalIndent(&v, "", " ")
	_ = os.WriteFile(path, b, 0o644)
	return path
}

func crashWhat(oc childOutcome) string {
	for _, line := range strings.Split(oc.log, "\n") {
		l := strings.TrimSpace(line)
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") ||
			strings.HasPrefix(l, "unexpected fault") || strings.HasPrefix(l, "SIG") || strings.HasPrefix(l, "WARNING: DATA RACE") {
			return l
		}
	}
	if oc.signal != 0 {
		return "killed by signal " + oc.signal.String()
	}
	return fmt.Sprintf("exit status %d", oc.exit)
}

// diagnose turns an abnormal end of a worker into violations, or "".
func diagnose(tmp string, p *Prop, oc childOutcome) (viol []Violation, inconclusive string) {
	mk := func(r caseRef, what, detail string) Violation {
		return Violation{Property: p.ID, Section: p.Sections[r.sec].Name, Index: r.idx, Seed: seed, Tier: tier, What: what, Detail: detail}
	}
	raced := oc.exit == 66 && strings.Contains(oc.log, "DATA RACE")
	if len(oc.flight) == 0 && !raced {
		return nil, "worker ended abnormally (" + crashWhat(oc) + ") with no case in flight\n" + oc.log
	}
	refs := append([]caseRef{}, oc.flight...)
	sort.Slice(refs, func(i, j int) bool {
		return refs[i].sec < refs[j].sec || refs[i].sec == refs[j].sec && refs[i].idx < refs[j].idx
	})
	// each of them alone; those that do not end all at once, so that the verdict
	// does not take longer the more there are
	outs := make([]childOutcome, len(refs))
	alone := func(i int) {
		dir := filepath.Join(tmp, fmt.Sprintf("alone%d", i))
		_ = os.MkdirAll(dir, 0o755)
		outs[i] = runChild(dir, p, fmt.Sprintf("%d/%d", refs[i].sec, refs[i].idx), 60, 200*time.Second, 200*time.Second)
	}
	if oc.stuck {
		var wg sync.WaitGroup
		for i := range refs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				alone(i)
			}(i)
		}
		wg.Wait()
	}
	deadline := time.Now().Add(250 * time.Second)
	for i, r := range refs {
		if !oc.stuck {
			if time.Now().After(deadline) {
				break
			}
			alone(i)
		}
		one := outs[i]
		switch {
		case one.hasRes:
			viol = append(viol, one.res.Violations...)
		case one.exit == 66 && strings.Contains(one.log, "DATA RACE"):
			viol = append(viol, mk(r, "data race reported by the Go race detector", one.log))
		case one.signal == syscall.SIGXCPU:
			viol = append(viol, mk(r, "no end after 60 s of CPU time (endless computation)", one.log))
		case one.stuck && one.idle:
			viol = append(viol, mk(r, "the case never ends: everything waits and no CPU is used, in the run and again alone", one.log))
		case one.stuck:
			inconclusive = "case does not end and uses no CPU"
		default:
			viol = append(viol, mk(r, "the process dies: "+crashWhat(one), one.log))
		}
		if len(viol) > 0 {
			return viol, ""
		}
	}
	if raced {
		// a report of the detector is never wrong, whether it comes again or not
		r := caseRef{0, 0}
		if len(refs) > 0 {
			r = refs[0]
		}
		return []Violation{mk(r, "data race reported by the Go race detector (does not show again in the case alone)", oc.log)}, ""
	}
	if inconclusive == "" {
		inconclusive = "worker ended abnormally (" + crashWhat(oc) + ") but no case in flight reproduces it\n" + oc.log
	}
	return nil, inconclusive
}

func main() {
	var (
		propID   = flag.String("prop", "", "property id")
		isWorker = flag.Bool("worker", false, "")
		progress = flag.String("progress", "", "")
		out      = flag.String("out", "", "")
		only     = flag.String("only", "", "")
		cpu      = flag.Int("cpu", 0, "")
		tierF    = flag.String("tier", "", "")
		seedF    = flag.Uint64("seed", 0, "")
		replay   = flag.String("replay", "", "replay file")
		list     = flag.Bool("list", false, "")
	)
	flag.Parse()
	if *list {
		for id := range props {
			fmt.Println(id)
		}
		return
	}
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		tier = t
	}
	if *tierF != "" {
		tier = *tierF
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			seed = v
		} else {
			seed = fnv64(s) >> 1
		}
	}
	if *seedF != 0 {
		seed = *seedF
	}
	p := props[*propID]
	if p == nil {
		fatal("unknown property %q", *propID)
	}
	if *isWorker {
		workerMain(p, *progress, *out, *only, *cpu)
		return
	}
	os.Exit(parent(p, *replay))
}

func parent(p *Prop, replay string) int {
	start := time.Now()
	tmp, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)

	if replay != "" {
		b, err := os.ReadFile(replay)
		if err != nil {
			fatal("%v", err)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fatal("%v", err)
		}
		seed, tier = v.Seed, v.Tier
		for si := range p.Sections {
			if p.Sections[si].Name == v.Section {
				oc := runChild(tmp, p, fmt.Sprintf("%d/%d", si, v.Index), 120, 300*time.Second, 300*time.Second)
				if oc.hasRes && len(oc.res.Violations) == 0 {
					fmt.Println("replay: the case holds")
					return 0
				}
				if oc.hasRes {
					fmt.Println(oc.res.Violations[0].What)
					fmt.Println(oc.res.Violations[0].Detail)
				} else {
					fmt.Println(crashWhat(oc))
					fmt.Println(oc.log)
				}
				fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replay)
				return 1
			}
		}
		fatal("no section %q", v.Section)
	}

	stuckAfter, wall := 100*time.Second, 400*time.Second
	if thorough() {
		stuckAfter, wall = 300*time.Second, 6*time.Hour
	}
	oc := runChild(tmp, p, "", 0, stuckAfter, wall)
	var viol []Violation
	var inconclusive string
	if oc.hasRes {
		viol = oc.res.Violations
	} else if len(oc.found) > 0 {
		viol = oc.found
	} else {
		viol, inconclusive = diagnose(tmp, p, oc)
	}

	if oc.hasRes && len(viol) == 0 {
		for _, need := range p.Needs {
			if oc.res.Counters[need] == 0 {
				inconclusive = "the monitors observed nothing for " + need
			}
		}
		for si := range p.Sections {
			if oc.res.Counters["cases:"+p.Sections[si].Name] == 0 && p.Sections[si].N() > 0 {
				inconclusive = "section " + p.Sections[si].Name + " did not run"
			}
		}
		if oc.res.Cases == 0 || oc.res.Evals == 0 {
			inconclusive = "the monitors observed nothing"
		}
	}

	writeEvidence(p, oc.res, len(viol), time.Since(start))

	keys := make([]string, 0, len(oc.res.Known))
	for k := range oc.res.Known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, k, oc.res.Known[k])
	}
	if len(viol) > 0 {
		for _, v := range viol {
			path := writeReplay(v)
			fmt.Printf("# %s %s#%d: %s\n", v.Property, v.Section, v.Index, firstLines(v.What, 12))
			fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, path)
		}
		return 1
	}
	if inconclusive != "" {
		fmt.Fprintf(os.Stderr, "INCONCLUSIVE property=%s: %s\n", p.ID, inconclusive)
		return 2
	}
	fmt.Printf("HELD property=%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d wall=%.1fs\n",
		p.ID, tier, seed, oc.res.Cases, oc.res.Evals, oc.res.Distinct, time.Since(start).Seconds())
	return 0
}

func firstLines(s string, k int) string {
	if len(s) > 2000 {
		s = s[:2000] + "…"
	}
	lines := strings.SplitN(s, "\n", k+1)
	if len(lines) > k {
		lines = lines[:k]
	}
	return strings.Join(lines, "\n#   ")
}

func writeEvidence(p *Prop, res Result, violations int, wall time.Duration) {
	dir := filepath.Join(verifDir, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	if res.Samples == nil {
		res.Samples = []string{}
	}
	sort.Strings(res.Samples)
	ev := map[string]interface{}{
		"property": p.ID,
		"tier":     tier,
		"seed":     seed,
		"level":    "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         res.Cases,
			"distinct_nontrivial": res.Distinct,
			"rule":                p.Rule,
			"samples":             res.Samples,
			"oracle_evaluations":  res.Evals,
			"observed":            res.Counters,
			"race_detector":       raceEnabled,
		},
		"assumptions": []string{
			"held on the executions produced, nothing more",
			"the Go runtime, math/big, shopspring/decimal and x/crypto/nacl behave as documented",
		},
		"wall_s":     wall.Seconds(),
		"violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644)
}

// knownListed reads known_findings.txt ("known: property=ID key=KEY text").
func knownListed(prop, key string) bool {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return false
	}
	for _, line := range strings.Split(string(b), "\n") {
		f := strings.Fields(line)
		if len(f) >= 3 && f[0] == "known:" && f[1] == "property="+prop && f[2] == "key="+key {
			return true
		}
	}
	return false
}

var errInjected = errors.New("injected fault")
