// vh drives the generated checks:
//
//	vh run PROP quick|thorough      the check of a property
//	vh replay FILE                  run one saved case
//	vh worker ...                   internal
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/lestrrat-go/helium/verifharness/props"
)

const verifDir = "/verif"

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh run PROP TIER | vh replay FILE | vh list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(run(os.Args[2], os.Args[3]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "worker":
		worker()
	case "known":
		known(os.Args[2])
	case "one":
		props.RunOne(os.Stdin, os.Stdout)
	case "list":
		var ids []string
		for id := range props.Props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			for _, s := range props.Props[id].Subs {
				fmt.Println(id, s.Name, s.Quick, s.Thorough)
			}
		}
	default:
		os.Exit(2)
	}
}

func known(id string) {
	for _, f := range props.Props[id].Known {
		state := "gone"
		if f.Fails() {
			state = "fails"
		}
		fmt.Printf("%s\t%s\n", state, f.What)
	}
}

func replay(file string) int {
	out, id, err := props.RunReplay(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if out.Err != nil {
		fmt.Println(out.Err)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
		return 1
	}
	fmt.Println("OK")
	return 0
}

func worker() {
	var o props.WorkerOpts
	if err := json.Unmarshal([]byte(os.Args[2]), &o); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	st, ok := props.RunWorker(o)
	b, _ := json.Marshal(st)
	os.WriteFile(os.Args[3], b, 0o644)
	if !ok {
		os.Exit(props.ExitFail)
	}
}

type result struct {
	idx    int
	st     props.Stats
	code   int
	out    string
	haveSt bool
}

func run(id, tier string) int {
	p := props.Props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property: "+id)
		return 2
	}
	start := time.Now()
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	thorough := tier == "thorough"
	capd := 240 * time.Second
	workers := 6
	if thorough {
		capd = 13 * time.Minute
		workers = 8
	}
	if s := os.Getenv("VH_CAP"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			capd = d
		}
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tmp, err := os.MkdirTemp("", "vh-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	dir := filepath.Join(verifDir, "replays")

	// the findings that are recorded in known_findings.txt
	listed := readKnown(id)
	if len(p.Known) > 0 {
		out, err := exec.Command(self, "known", id).Output()
		if err != nil {
			fmt.Fprintln(os.Stderr, "probing the known findings:", err)
		}
		for _, l := range strings.Split(strings.TrimSpace(string(out)), "\n") {
			f := strings.SplitN(l, "\t", 2)
			if len(f) != 2 {
				continue
			}
			if !listed[f[1]] {
				fmt.Fprintln(os.Stderr, "not listed in known_findings.txt:", f[1])
				continue
			}
			if f[0] == "fails" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f[1])
			}
		}
	}

	scale := 1.0
	if s, err := strconv.ParseFloat(os.Getenv("VH_SCALE"), 64); err == nil {
		scale = s
	}
	var mu sync.Mutex
	stopped := false
	var procs []*exec.Cmd
	type job struct {
		bin string
		o   props.WorkerOpts
	}
	var jobs []job
	for i := 0; i < workers; i++ {
		o := props.WorkerOpts{Prop: id, Thorough: thorough, Seed: seed, Index: i, Workers: workers, Cap: capd, Only: os.Getenv("VH_ONLY"), Dir: dir, Scale: scale}
		jobs = append(jobs, job{self, o})
	}
	// the concurrent checks also run under the race detector
	if bin := os.Getenv("VH_RACE"); bin != "" {
		for _, s := range p.Subs {
			if !s.Race || os.Getenv("VH_ONLY") != "" && os.Getenv("VH_ONLY") != s.Name {
				continue
			}
			for i := 0; i < 2; i++ {
				o := props.WorkerOpts{Prop: id, Thorough: thorough, Seed: seed + 1000000, Index: i, Workers: 2, Cap: capd, Only: s.Name, Dir: dir, Scale: scale / 12}
				jobs = append(jobs, job{bin, o})
			}
		}
	}
	results := make([]result, len(jobs))
	var wg sync.WaitGroup
	for i := range jobs {
		j := jobs[i]
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r := runWorker(j.bin, tmp, j.o, func(c *exec.Cmd) bool {
				mu.Lock()
				defer mu.Unlock()
				if stopped {
					return false
				}
				procs = append(procs, c)
				return c.Start() == nil
			})
			results[i] = r
			if r.code == props.ExitFail || r.code == props.ExitResource {
				mu.Lock()
				if !stopped {
					stopped = true
					for _, c := range procs {
						if c.Process != nil {
							c.Process.Kill()
						}
					}
				}
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()

	type violation struct{ file, msg string }
	var violations []violation
	broken := ""
	for i := range results {
		r := &results[i]
		switch {
		case r.code == 0:
		case r.code == props.ExitFail && r.st.Replay != "":
			violations = append(violations, violation{r.st.Replay, r.st.Failure})
		case r.code == props.ExitResource:
			f := strings.Fields(r.out[strings.LastIndex(r.out, "RESOURCE ")+9:])[0]
			if msg, ok := confirm(self, f); ok {
				violations = append(violations, violation{f, msg})
			} else {
				broken = "a case used too many resources, but not again when it ran alone: " + f
			}
		case r.code == -2: // not started, or killed after another one failed
		default:
			if stopped {
				break
			}
			// The worker died (stack overflow, out of memory, …): run it
			// again, recording each case before it is run.
			save := filepath.Join(tmp, fmt.Sprintf("each-%d.json", i))
			o := jobs[i].o
			o.SaveEach = save
			r2 := runWorker(jobs[i].bin, tmp, o, func(c *exec.Cmd) bool { return c.Start() == nil })
			file := save
			if r2.code == props.ExitFail && r2.st.Replay != "" {
				violations = append(violations, violation{r2.st.Replay, r2.st.Failure})
				break
			}
			if b, err := os.ReadFile(file); err == nil && r2.code != 0 {
				os.MkdirAll(dir, 0o755)
				file = filepath.Join(dir, fmt.Sprintf("%s-crash-%d-%d.json", id, seed, i))
				os.WriteFile(file, b, 0o644)
				if msg, ok := confirm(jobs[i].bin, file); ok {
					violations = append(violations, violation{file, msg})
					break
				}
				// the schedule matters, so it may not happen again
				if k := strings.Index(r2.out, "WARNING: DATA RACE"); k >= 0 {
					violations = append(violations, violation{file, r2.out[k:]})
					break
				}
			}
			broken = fmt.Sprintf("worker %d ended with %d:\n%s", i, r.code, tail(r.out, 3000))
		}
	}

	// evidence
	total := int64(0)
	subs := map[string]int64{}
	labels := map[string]int64{}
	hashes := map[uint64]bool{}
	var samples []string
	cut := false
	for _, r := range results {
		total += r.st.Evaluations
		for k, v := range r.st.Subs {
			subs[k] += v
		}
		for k, v := range r.st.Labels {
			labels[k] += v
		}
		for _, h := range r.st.Hashes {
			hashes[h] = true
		}
		for _, s := range r.st.Samples {
			if len(samples) < 12 {
				samples = append(samples, s)
			}
		}
		cut = cut || r.st.Cut
	}
	rule := p.Rule
	if len(subs) > 0 {
		var ks []string
		for k := range subs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		rule += " | cases per generator:"
		for _, k := range ks {
			rule += fmt.Sprintf(" %s=%d", k, subs[k])
		}
	}
	if len(labels) > 0 {
		var ks []string
		for k := range labels {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		rule += " | classes:"
		for _, k := range ks {
			rule += fmt.Sprintf(" %s=%d", k, labels[k])
		}
	}
	if cut {
		rule += " | the time cap ended some searches early"
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         total,
			"distinct_nontrivial": len(hashes),
			"rule":                rule,
			"samples":             samples,
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(violations),
	}
	if len(p.Assumptions) > 0 {
		ev["assumptions"] = p.Assumptions
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(b, '\n'), 0o644)

	fmt.Printf("%s: %d cases, %d distinct non-trivial, %.1f s\n", id, total, len(hashes), time.Since(start).Seconds())
	if len(violations) > 0 {
		for i, v := range violations {
			if i > 2 {
				break
			}
			fmt.Println(tail(v.msg, 3000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, v.file)
		}
		return 1
	}
	if broken != "" {
		fmt.Fprintln(os.Stderr, "the check did not complete:", broken)
		return 3
	}
	for _, r := range results {
		if r.code != 0 {
			fmt.Fprintln(os.Stderr, "the check did not complete:", r.code, tail(r.out, 2000))
			return 3
		}
	}
	return 0
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func runWorker(self, tmp string, o props.WorkerOpts, start func(*exec.Cmd) bool) result {
	j, _ := json.Marshal(o)
	stFile := filepath.Join(tmp, fmt.Sprintf("st-%s-%d-%v.json", filepath.Base(self), o.Index, o.SaveEach != ""))
	c := exec.Command(self, "worker", string(j), stFile)
	c.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMAXPROCS=4", "GORACE=halt_on_error=1 exitcode=66")
	var out bytes.Buffer
	c.Stdout = &out
	c.Stderr = &out
	r := result{idx: o.Index, code: -2}
	if !start(c) {
		return r
	}
	err := c.Wait()
	r.out = out.String()
	r.code = 0
	if err != nil {
		r.code = c.ProcessState.ExitCode()
		if r.code < 0 {
			r.code = -2
			if c.ProcessState.String() != "signal: killed" {
				r.code = 99
			}
		}
	}
	if b, err := os.ReadFile(stFile); err == nil {
		json.Unmarshal(b, &r.st)
		r.haveSt = true
	}
	if r.code == 0 && !r.haveSt {
		r.code = 98
	}
	return r
}

// confirm runs a saved case in a process of its own.
func confirm(self, file string) (string, bool) {
	c := exec.Command(self, "replay", file)
	c.Env = append(os.Environ(), "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66")
	out, err := c.CombinedOutput()
	if err == nil {
		return "", false
	}
	code := c.ProcessState.ExitCode()
	if code == 3 || code < 0 {
		return "", false
	}
	return string(out), true
}

func readKnown(id string) map[string]bool {
	m := map[string]bool{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		pre := "known: property=" + id + " "
		if strings.HasPrefix(l, pre) {
			m[strings.TrimPrefix(l, pre)] = true
		}
	}
	return m
}
