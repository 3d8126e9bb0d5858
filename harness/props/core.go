// Package props contains the executable properties of lestrrat/helium: for
// each of them generators, an oracle and the glue to run, shrink and replay
// cases.
package props

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Out is what checking one case gives.
type Out struct {
	Err        error    // the property is violated
	NonTrivial bool     // by the rule of the property
	Labels     []string // classes the case belongs to
	Sample     string   // how to show the case
}

// Sub is one generated check of a property.
type Sub struct {
	Prop, Name      string
	Quick, Thorough int // number of cases, over all workers
	gen             func(t *rapid.T) interface{}
	check           func(c interface{}) Out
	decode          func(b []byte) (interface{}, error)
	// maxCPU is how much CPU time a single case may take (0: default)
	maxCPU time.Duration
	// single: run by one worker only
	single bool
	// Race: also run it under the race detector
	Race bool
}

// Prop describes a property.
type Prop struct {
	ID   string
	Rule string // when a case counts as non-trivial
	Subs []*Sub
	// Assumptions are reported in the evidence
	Assumptions []string
	// Known are the recorded findings that are probed
	Known []Finding
}

// Finding is a recorded, unrepaired defect. Fails reports whether it still
// shows.
type Finding struct {
	What  string
	Fails func() bool
}

var Props = map[string]*Prop{}

func prop(id, rule string, assumptions ...string) *Prop {
	p := Props[id]
	if p == nil {
		p = &Prop{ID: id}
		Props[id] = p
	}
	if rule != "" {
		p.Rule = rule
	}
	p.Assumptions = append(p.Assumptions, assumptions...)
	return p
}

func reg[C any](id, name string, quick, thorough int, gen func(t *rapid.T) C, check func(c C) Out) *Sub {
	// P15 runs processes and the race detector, P14 and P09 are slow
	switch id {
	case "P15":
	case "P03", "P04", "P06", "P09", "P14":
		quick *= 2
	default:
		quick *= 4
	}
	s := &Sub{Prop: id, Name: name, Quick: quick, Thorough: thorough}
	s.gen = func(t *rapid.T) interface{} { c := gen(t); return &c }
	s.check = func(c interface{}) Out { return check(*c.(*C)) }
	s.decode = func(b []byte) (interface{}, error) {
		var c C
		err := json.Unmarshal(b, &c)
		return &c, err
	}
	p := prop(id, "")
	p.Subs = append(p.Subs, s)
	return s
}

func (p *Prop) Sub(name string) *Sub {
	for _, s := range p.Subs {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// failf is a shorthand for a violated property
func failf(format string, args ...interface{}) Out {
	return Out{Err: fmt.Errorf(format, args...)}
}

// safe runs the check and turns panics into violations
func (s *Sub) safe(c interface{}) (out Out) {
	defer func() {
		if r := recover(); r != nil {
			out = failf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return s.check(c)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var keep []string
	for i := 0; i < len(lines); i++ {
		if strings.Contains(lines[i], "helium") {
			keep = append(keep, lines[i])
		}
		if len(keep) > 24 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

// Replay is the content of a replay file.
type Replay struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

func writeReplay(dir string, s *Sub, c interface{}, msg string) string {
	b, err := json.Marshal(c)
	if err != nil {
		b = []byte("null")
		msg += " (case can not be encoded: " + err.Error() + ")"
	}
	r, _ := json.MarshalIndent(Replay{Property: s.Prop, Sub: s.Name, Message: msg, Case: b}, "", " ")
	h := fnv.New64a()
	h.Write(b)
	h.Write([]byte(s.Name))
	name := filepath.Join(dir, fmt.Sprintf("%s-%s-%016x.json", s.Prop, s.Name, h.Sum64()))
	os.MkdirAll(dir, 0o755)
	os.WriteFile(name, append(r, '\n'), 0o644)
	return name
}

// Stats is what a worker reports.
type Stats struct {
	Evaluations int64            `json:"evaluations"`
	Subs        map[string]int64 `json:"subs"`
	Labels      map[string]int64 `json:"labels"`
	Hashes      []uint64         `json:"hashes"`
	Samples     []string         `json:"samples"`
	Cut         bool             `json:"cut"` // the time cap ended the search early
	Failure     string           `json:"failure"`
	Replay      string           `json:"replay"`
}

// ---- watchdog ----

type running struct {
	sub   *Sub
	c     interface{}
	cpu   time.Duration
	start time.Time
	n     int64
}

var (
	current   atomic.Pointer[running]
	replayDir = "/verif/replays"
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const (
	ExitOK       = 0
	ExitFail     = 1
	ExitResource = 42 // a case took too long or too much memory
	defMaxCPU    = 20 * time.Second
	maxHeap      = 3 << 30
	maxWall      = 240 * time.Second
)

var dogOnce sync.Once

var slowest time.Duration

func startWatchdog() {
	dogOnce.Do(func() {
		debug.SetMaxStack(100 << 20)
		go func() {
			var ms runtime.MemStats
			for {
				time.Sleep(150 * time.Millisecond)
				r := current.Load()
				if r == nil {
					continue
				}
				why := ""
				lim := r.sub.maxCPU
				if lim == 0 {
					lim = defMaxCPU
				}
				if d := cpuTime() - r.cpu; d > lim {
					why = fmt.Sprintf("the case took more than %v of CPU time", lim)
				} else if d := time.Since(r.start); d > maxWall {
					why = fmt.Sprintf("the case did not end within %v", maxWall)
				} else if runtime.ReadMemStats(&ms); ms.HeapAlloc > maxHeap {
					why = "the case took more than 3 GB of memory"
				}
				if why == "" || current.Load() != r {
					continue
				}
				name := writeReplay(replayDir, r.sub, r.c, why)
				fmt.Printf("RESOURCE %s\n%s\n", name, why)
				os.Exit(ExitResource)
			}
		}()
	})
}

func (s *Sub) guarded(c interface{}) Out {
	r := &running{sub: s, c: c, cpu: cpuTime(), start: time.Now()}
	current.Store(r)
	out := s.safe(c)
	current.Store(nil)
	if f := os.Getenv("VH_SLOW"); f != "" { // how close do the cases come to the limits?
		if d := cpuTime() - r.cpu; d > slowest {
			slowest = d
			if w, err := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
				fmt.Fprintf(w, "%s %s %v %v\n", s.Prop, s.Name, d, time.Since(r.start))
				w.Close()
			}
		}
	}
	return out
}

// ---- rapid without a test binary ----

type stopTB struct{}

type tb struct {
	failed bool
	log    []string
}

func (t *tb) Helper()                          {}
func (t *tb) Name() string                     { return "vh" }
func (t *tb) Logf(f string, a ...interface{})  {}
func (t *tb) Log(a ...interface{})             {}
func (t *tb) Skipf(f string, a ...interface{}) { panic(stopTB{}) }
func (t *tb) Skip(a ...interface{})            { panic(stopTB{}) }
func (t *tb) SkipNow()                         { panic(stopTB{}) }
func (t *tb) Errorf(f string, a ...interface{}) {
	t.failed = true
	t.log = append(t.log, fmt.Sprintf(f, a...))
}
func (t *tb) Error(a ...interface{})            { t.failed = true; t.log = append(t.log, fmt.Sprint(a...)) }
func (t *tb) Fatalf(f string, a ...interface{}) { t.Errorf(f, a...); panic(stopTB{}) }
func (t *tb) Fatal(a ...interface{})            { t.Error(a...); panic(stopTB{}) }
func (t *tb) FailNow()                          { t.failed = true; panic(stopTB{}) }
func (t *tb) Fail()                             { t.failed = true }
func (t *tb) Failed() bool                      { return t.failed }

var setupOnce sync.Once

func rapidCheck(checks int, seed uint64, p func(*rapid.T)) (t *tb) {
	setupOnce.Do(func() {
		testing.Init()
		flag.CommandLine.Parse(nil)
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.shrinktime", "8s")
	})
	if seed == 0 {
		seed = 0x9e3779b97f4a7c15
	}
	flag.Set("rapid.checks", fmt.Sprint(checks))
	flag.Set("rapid.seed", fmt.Sprint(seed))
	t = &tb{}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopTB); !ok {
				panic(r)
			}
		}
	}()
	rapid.Check(t, p)
	return t
}

func mix(parts ...interface{}) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	x := h.Sum64()
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	return x
}

// WorkerOpts is what the driver tells a worker.
type WorkerOpts struct {
	Prop     string
	Thorough bool
	Seed     int64
	Index    int
	Workers  int
	Cap      time.Duration // wall time for the whole worker
	SaveEach string        // file that always holds the current case
	Only     string        // only this sub
	Dir      string
	Scale    float64
}

const batch = 100

// RunWorker runs the share of a worker. It returns the statistics and
// whether the property held.
func RunWorker(o WorkerOpts) (Stats, bool) {
	p := Props[o.Prop]
	st := Stats{Subs: map[string]int64{}, Labels: map[string]int64{}}
	seen := map[uint64]bool{}
	if o.Dir != "" {
		replayDir = o.Dir
	}
	startWatchdog()
	start := time.Now()
	finish := func() {
		for h := range seen {
			st.Hashes = append(st.Hashes, h)
		}
		sort.Slice(st.Hashes, func(i, j int) bool { return st.Hashes[i] < st.Hashes[j] })
	}
	total := 0.0
	for range p.Subs {
		total++
	}
	for si, s := range p.Subs {
		if o.Only != "" && s.Name != o.Only {
			continue
		}
		n := s.Quick
		if o.Thorough {
			n = s.Thorough
		}
		if o.Scale > 0 {
			n = int(float64(n) * o.Scale)
		}
		if s.single {
			if o.Index != si%o.Workers {
				continue
			}
		} else {
			lo := n * o.Index / o.Workers
			hi := n * (o.Index + 1) / o.Workers
			n = hi - lo
		}
		// what is left of the time is shared by the subs that are left
		deadline := time.Now().Add((o.Cap - time.Since(start)) / time.Duration(len(p.Subs)-si))
		samples := 0
		for b := 0; n > 0; b++ {
			if o.Cap > 0 && time.Now().After(deadline) {
				st.Cut = true
				break
			}
			k := batch
			if k > n {
				k = n
			}
			n -= k
			var last interface{}
			var lastErr error
			failing := false
			t := rapidCheck(k, mix(o.Seed, o.Prop, s.Name, o.Index, b), func(t *rapid.T) {
				c := s.gen(t)
				if o.SaveEach != "" {
					j, _ := json.Marshal(c)
					r, _ := json.Marshal(Replay{Property: s.Prop, Sub: s.Name, Message: "the process died", Case: j})
					os.WriteFile(o.SaveEach, r, 0o644)
				}
				out := s.guarded(c)
				if out.Err != nil {
					last, lastErr = c, out.Err
					failing = true
					t.Fatalf("violated")
				}
				if failing {
					return // shrinking
				}
				st.Evaluations++
				st.Subs[s.Name]++
				for _, l := range out.Labels {
					st.Labels[s.Name+": "+l]++
				}
				if out.NonTrivial {
					j, err := json.Marshal(c)
					if err == nil {
						h := fnv.New64a()
						h.Write([]byte(s.Name))
						h.Write(j)
						hv := h.Sum64()
						if !seen[hv] {
							seen[hv] = true
							if samples < 3 && out.Sample != "" && (st.Subs[s.Name]%7 == 3) {
								samples++
								st.Samples = append(st.Samples, s.Name+": "+clip(out.Sample, 600))
							}
						}
					}
				}
			})
			if t.Failed() {
				finish()
				if lastErr == nil {
					st.Failure = "generator failed: " + strings.Join(t.log, "\n")
					return st, false
				}
				last, lastErr = s.reduce(last, lastErr)
				st.Failure = lastErr.Error()
				st.Replay = writeReplay(replayDir, s, last, lastErr.Error())
				return st, false
			}
		}
	}
	finish()
	return st, true
}

// byteCase is a case that consists of input bytes only
type byteCase interface {
	input() []byte
	withInput(b []byte) interface{}
}

// reduce shortens a failing input for a few seconds
func (s *Sub) reduce(c interface{}, err error) (interface{}, error) {
	bc, ok := c.(byteCase)
	if !ok {
		return c, err
	}
	end := time.Now().Add(5 * time.Second)
	cur := bc.input()
	for size := len(cur) / 2; size > 0; {
		changed := false
		for i := 0; i+size <= len(cur) && time.Now().Before(end); {
			cand := append(append([]byte(nil), cur[:i]...), cur[i+size:]...)
			out := s.guarded(bc.withInput(cand))
			if out.Err != nil {
				cur, err = cand, out.Err
				changed = true
			} else {
				i += size
			}
		}
		if !changed || size > 1 {
			size /= 2
		}
	}
	return bc.withInput(cur), err
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + "…"
}

// RunReplay runs the case of a replay file.
func RunReplay(file string) (Out, string, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return Out{}, "", err
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		return Out{}, "", err
	}
	p := Props[r.Property]
	if p == nil {
		return Out{}, "", fmt.Errorf("unknown property %q", r.Property)
	}
	s := p.Sub(r.Sub)
	if s == nil {
		return Out{}, "", fmt.Errorf("unknown check %q", r.Sub)
	}
	c, err := s.decode(r.Case)
	if err != nil {
		return Out{}, "", err
	}
	startWatchdog()
	out := s.guarded(c)
	for i := 0; i < 20 && s.Race && out.Err == nil; i++ {
		out = s.guarded(c) // the schedule matters
	}
	return out, r.Property, nil
}
