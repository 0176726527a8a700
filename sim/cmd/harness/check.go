package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type checker struct {
	pr      *Prop
	tier    string
	seed    uint64
	verif   string
	sites   string
	workers int
	runs    int
	tmp     string
	start   time.Time
}

func (c *checker) logf(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "[%6.1fs] %s\n", time.Since(c.start).Seconds(), fmt.Sprintf(format, args...))
}

var selfPath = func() string {
	p, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	return p
}()

// child runs this program again; the environment decides nothing but the place of race reports
func child(tmp string, limit time.Duration, args ...string) (stdout string, stderr string, err error) {
	cmd := exec.Command(selfPath, args...)
	cmd.Env = append(os.Environ(), "GORACE=exitcode=0 halt_on_error=0 log_path="+filepath.Join(tmp, "race"), "GOMAXPROCS=2", "GOTRACEBACK=all")
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		return "", "", err
	}
	t := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	t.Stop()
	return so.String(), se.String(), err
}

// eval runs a plan in a fresh process
func (c *checker) eval(rp *Replay) (*Outcome, error) {
	f, err := os.CreateTemp(c.tmp, "plan")
	if err != nil {
		return nil, err
	}
	b, err := json.Marshal(rp)
	if err != nil {
		return nil, err
	}
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	so, se, err := child(c.tmp, 200*time.Second, "one", f.Name())
	for _, l := range strings.Split(so, "\n") {
		if strings.HasPrefix(l, "OUTCOME ") {
			o := &Outcome{}
			if err := json.Unmarshal([]byte(l[8:]), o); err != nil {
				return nil, err
			}
			return o, nil
		}
	}
	if crashed(se) {
		return &Outcome{Violation: "crash", Detail: crashText(se)}, nil
	}
	return nil, fmt.Errorf("%v: %s", err, tail(se))
}

// crashed tells whether the process died of something the code under test did that cannot be recovered
// (stack overflow, concurrent map access, a panic on a goroutine of its own)
func crashed(stderr string) bool {
	return (strings.Contains(stderr, "fatal error: ") || strings.Contains(stderr, "panic: ")) && strings.Contains(stderr, "clipperhouse/jargon") && !strings.Contains(stderr, "out of memory")
}

func crashText(se string) string {
	for _, l := range strings.Split(se, "\n") {
		if strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "panic: ") {
			return l
		}
	}
	return "crash"
}

func tail(s string) string {
	if len(s) > 3000 {
		return s[:1500] + "\n...\n" + s[len(s)-1500:]
	}
	return s
}

type batch struct {
	sums  []*Summary
	found *Found
	err   error
}

// runBatch spreads runs from..to over worker processes
func (c *checker) runBatch(from, to int, cold bool, deadline time.Time) *batch {
	b := &batch{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for w := 0; w < c.workers; w++ {
		if from+w >= to {
			break
		}
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			out := filepath.Join(c.tmp, fmt.Sprintf("w%d-%v-%d.json", from, cold, w))
			secs := time.Until(deadline).Seconds()
			args := []string{"worker", "-prop", c.pr.ID, "-tier", c.tier, "-seed", strconv.FormatUint(c.seed, 10), "-from", strconv.Itoa(from + w), "-to", strconv.Itoa(to), "-stride", strconv.Itoa(c.workers), "-seconds", fmt.Sprintf("%.1f", secs), "-out", out}
			_, se, err := child(c.tmp, time.Duration(secs*float64(time.Second))+200*time.Second, args...)
			s := &Summary{}
			d, rerr := os.ReadFile(out)
			os.Remove(out)
			mu.Lock()
			defer mu.Unlock()
			if rerr == nil && json.Unmarshal(d, s) == nil && s.Done {
				b.sums = append(b.sums, s)
				if s.Violation != nil && (b.found == nil || s.Violation.I < b.found.I) {
					b.found = s.Violation
				}
				return
			}
			if crashed(se) {
				c.logf("worker %d crashed: %s", w, crashText(se))
				if f := c.hunt(from+w, to, deadline); f != nil {
					if b.found == nil || f.I < b.found.I {
						b.found = f
					}
					return
				}
			}
			b.err = fmt.Errorf("worker %d: %v: %s", w, err, tail(se))
		}(w)
	}
	wg.Wait()
	return b
}

// hunt looks for the run on which a worker crashed
func (c *checker) hunt(from, to int, deadline time.Time) *Found {
	// the worker's runs, each in its own process
	end := time.Now().Add(100 * time.Second)
	for i := from; i < to && time.Now().Before(end); i += c.workers {
		p := makePlan(c.pr, c.tier, c.seed, i, false)
		if o, err := c.eval(&Replay{Plan: p}); err == nil && o.Violation != "" {
			return &Found{I: i, Outcome: o}
		}
	}
	return nil
}

// runCold makes each run in its own process
func (c *checker) runCold(from, to int, cold bool, deadline time.Time) *batch {
	b := &batch{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	next := from
	for w := 0; w < c.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				stop := i >= to || b.found != nil || time.Now().After(deadline)
				mu.Unlock()
				if stop {
					return
				}
				out := filepath.Join(c.tmp, fmt.Sprintf("c%d.json", i))
				args := []string{"worker", "-prop", c.pr.ID, "-tier", c.tier, "-seed", strconv.FormatUint(c.seed, 10), "-from", strconv.Itoa(i), "-to", strconv.Itoa(i + 1), "-stride", "1000", "-out", out}
				if cold {
					args = append(args, "-cold")
				}
				_, se, err := child(c.tmp, 200*time.Second, args...)
				s := &Summary{}
				d, rerr := os.ReadFile(out)
				os.Remove(out)
				mu.Lock()
				if rerr == nil && json.Unmarshal(d, s) == nil && s.Done {
					b.sums = append(b.sums, s)
					if s.Violation != nil && (b.found == nil || s.Violation.I < b.found.I) {
						b.found = s.Violation
						b.found.Cold = cold
					}
				} else if crashed(se) {
					b.found = &Found{I: i, Cold: cold, Outcome: &Outcome{Violation: "crash", Detail: crashText(se)}}
				} else {
					b.err = fmt.Errorf("run %d: %v: %s", i, err, tail(se))
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return b
}

func (c *checker) check() int {
	c.start = time.Now()
	if c.pr == nil {
		fatal("unknown property")
	}
	var err error
	c.tmp, err = os.MkdirTemp("", "verif-"+c.pr.ID+"-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(c.tmp)
	n, coldN, longN, budget := c.pr.Quick, c.pr.Cold, c.pr.Long, 240*time.Second
	if c.tier == "thorough" {
		n, coldN, longN, budget = c.pr.Thorough, c.pr.Cold*8, c.pr.Long*8, time.Hour
	}
	if c.runs > 0 {
		n = c.runs
	}
	if v := os.Getenv("VERIF_SECONDS"); v != "" {
		if s, err := strconv.Atoi(v); err == nil {
			budget = time.Duration(s) * time.Second
		}
	}
	deadline := c.start.Add(budget)
	fmt.Printf("%s %s: seed %d, %d runs\n", c.pr.ID, c.tier, c.seed, n+coldN+longN)

	total := &Summary{Faults: map[string]int{}, Probes: map[string]int{}, Logs: map[string]string{}}
	sites := map[int]bool{}
	nontrivial := map[uint64]bool{}
	scheds := map[uint64]bool{}
	merge := func(b *batch) {
		for _, s := range b.sums {
			total.Runs += s.Runs
			total.Steps += s.Steps
			total.Switches += s.Switches
			total.SimNS += s.SimNS
			total.MapIter += s.MapIter
			for k, v := range s.Faults {
				total.Faults[k] += v
			}
			for k, v := range s.Probes {
				total.Probes[k] += v
			}
			for _, h := range s.Nontrivial {
				nontrivial[h] = true
			}
			for _, h := range s.Scheds {
				scheds[h] = true
			}
			for _, id := range s.Sites {
				sites[id] = true
			}
			for k, v := range s.Logs {
				total.Logs[k] = v
			}
			if len(total.Samples) < 4 {
				total.Samples = append(total.Samples, s.Samples...)
			}
		}
	}
	evidence := func(violations int, det string) {
		c.evidence(total, sites, nontrivial, scheds, violations, det)
	}

	leaked := false
	report := func(f *Found) (int, bool) {
		rp, why := c.confirm(f)
		if rp == nil {
			c.logf("run %d: %s: %s", f.I, f.Outcome.Violation, f.Outcome.Detail)
			c.logf("%s", why)
			return 0, false
		}
		rp = c.minimise(rp)
		path := c.write(rp)
		fmt.Printf("%s: %s\n", rp.Violation, rp.Detail)
		if rp.Note != "" {
			fmt.Println(rp.Note)
		}
		evidence(1, "not run")
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.pr.ID, path)
		return 1, true
	}

	// known inputs first would go here; there are none

	if coldN > 0 {
		b := c.runCold(1<<40, 1<<40+coldN, true, deadline)
		merge(b)
		if b.found != nil {
			if code, ok := report(b.found); ok {
				return code
			}
			c.logf("unconfirmed violation in a fresh process")
			return 2
		}
		if b.err != nil {
			c.logf("%v", b.err)
			return 2
		}
	}
	if longN > 0 {
		b := c.runCold(longRuns, longRuns+longN, false, deadline)
		merge(b)
		if b.found != nil {
			if code, ok := report(b.found); ok {
				return code
			}
			c.logf("unconfirmed violation in a long run")
			return 2
		}
		if b.err != nil {
			c.logf("%v", b.err)
			return 2
		}
	}
	from := 0
	chunk := n
	if c.tier == "thorough" {
		chunk = n/10 + 1
	}
	for from < n && time.Now().Before(deadline) {
		to := from + chunk
		if to > n {
			to = n
		}
		var b *batch
		if leaked {
			b = c.runCold(from, to, false, deadline)
		} else {
			b = c.runBatch(from, to, false, deadline)
		}
		merge(b)
		if b.found != nil {
			if code, ok := report(b.found); ok {
				return code
			}
			if c.pr.Process && !leaked {
				// what one run leaves behind in package variables no second process would see
				c.logf("runs influence each other in one process; going on with a process for each run")
				leaked = true
				continue
			}
			return 2
		}
		if b.err != nil {
			c.logf("%v", b.err)
			return 2
		}
		from = to
		if c.tier == "thorough" {
			c.logf("%d runs", from)
		}
	}
	det := "not run"
	if !leaked {
		det = c.determinism(total.Logs)
	}
	evidence(0, det)
	fmt.Printf("%s holds on %d runs (%d distinct and non-trivial), %d steps, faults %v, %.0f s; determinism: %s\n", c.pr.ID, total.Runs, len(nontrivial), total.Steps, total.Faults, time.Since(c.start).Seconds(), det)
	return 0
}

// determinism runs a sample again, in other company and order, and compares what was observed
func (c *checker) determinism(logs map[string]string) string {
	var is []int
	for k := range logs {
		i, _ := strconv.Atoi(k)
		is = append(is, i)
	}
	sort.Ints(is)
	if len(is) > 48 {
		is = is[:48]
	}
	same, diff := 0, 0
	var mu sync.Mutex
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < c.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				p := makePlan(c.pr, c.tier, c.seed, i, false)
				o, err := c.eval(&Replay{Plan: p})
				mu.Lock()
				if err == nil && fmt.Sprintf("%x/%x", o.Log, o.Sched) == logs[strconv.Itoa(i)] {
					same++
				} else {
					diff++
					c.logf("run %d differs when repeated (%v)", i, err)
				}
				mu.Unlock()
			}
		}()
	}
	for _, i := range is {
		ch <- i
	}
	close(ch)
	wg.Wait()
	return fmt.Sprintf("%d of %d repeated runs identical in a fresh process", same, same+diff)
}

// confirm repeats a violation in a fresh process
func (c *checker) confirm(f *Found) (*Replay, string) {
	p := makePlan(c.pr, c.tier, c.seed, f.I, f.Cold)
	rp := &Replay{Property: c.pr.ID, Seed: c.seed, Tier: c.tier, Plan: p}
	for k := 0; k < 3; k++ {
		o, err := c.eval(rp)
		if err != nil {
			c.logf("confirm: %v", err)
			continue
		}
		if o.Violation != "" {
			rp.Violation, rp.Detail = o.Violation, o.Detail
			if k > 0 {
				rp.Note = "the code under test is itself nondeterministic: this run does not fail every time"
			}
			return rp, ""
		}
	}
	if c.pr.Process {
		return nil, "not reproduced by a fresh process"
	}
	// together with the runs before it in the same process
	var pre []*Plan
	for i := f.I - c.workers; i >= 0 && f.I < longRuns; i -= c.workers {
		pre = append([]*Plan{makePlan(c.pr, c.tier, c.seed, i, false)}, pre...)
	}
	for _, n := range []int{1, 4, 16, 64, 256, len(pre)} {
		if n > len(pre) {
			n = len(pre)
		}
		rp.Prelude = pre[len(pre)-n:]
		o, err := c.eval(rp)
		if err == nil && o.Violation != "" {
			rp.Violation, rp.Detail = o.Violation, o.Detail
			rp.Note = "the failing run depends on runs before it in the same process (prelude)"
			return rp, ""
		}
	}
	if c.pr.Confirm {
		return nil, "not reproduced"
	}
	rp.Prelude = nil
	rp.Violation, rp.Detail = f.Outcome.Violation, f.Outcome.Detail
	rp.Note = "observed, but the code under test is itself nondeterministic: not reproduced when repeated"
	return rp, ""
}

func (c *checker) write(rp *Replay) string {
	dir := filepath.Join(c.verif, "replays")
	os.MkdirAll(dir, 0777)
	path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", c.pr.ID, rp.Plan.Seed))
	b, err := json.MarshalIndent(rp, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(path, b, 0666); err != nil {
		fatal("%v", err)
	}
	return path
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	rp := &Replay{}
	if err := json.Unmarshal(b, rp); err != nil {
		fatal("%v", err)
	}
	tmp, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	c := &checker{pr: props[rp.Property], tmp: tmp, start: time.Now()}
	o, err := c.eval(rp)
	if err != nil {
		fatal("%v", err)
	}
	if o.Violation == "" {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("%s: %s\n", o.Violation, o.Detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, path)
	return 1
}

type siteInfo struct {
	ID   int
	File string
	Line int
	Func string
}

func (c *checker) evidence(t *Summary, sites map[int]bool, nontrivial, scheds map[uint64]bool, violations int, det string) {
	wall := time.Since(c.start).Seconds()
	cov := map[string]interface{}{
		"evaluations":                      t.Runs,
		"distinct_nontrivial":              len(nontrivial),
		"rule":                             c.pr.Rule,
		"samples":                          t.Samples,
		"simulated_runs_per_hour":          int(float64(t.Runs) / wall * 3600),
		"scheduler_steps":                  t.Steps,
		"faults_fired":                     t.Faults,
		"probes":                           t.Probes,
		"distinct_observations_measure":    c.pr.measure(),
		"determinism":                      det,
		"components_running_real_code":     c.pr.Real,
		"components_replaced_by_a_stub":    c.pr.Stub,
		"map_iterations_with_seeded_order": t.MapIter,
	}
	if c.pr.Bubble {
		cov["simulated_seconds"] = float64(t.SimNS) / 1e9
	} else {
		cov["simulated_time"] = "none of the code involved reads a clock; progress is counted in scheduler steps"
	}
	if len(scheds) > 0 {
		cov["task_switches"] = t.Switches
		cov["distinct_interleavings"] = len(scheds)
		cov["interleaving_measure"] = "hash of the sequence of (task switched to, yield site) over a run"
	}
	if b, err := os.ReadFile(c.sites); err == nil {
		var si []siteInfo
		if json.Unmarshal(b, &si) == nil {
			type fc struct{ hit, all int }
			by := map[string]*fc{}
			for _, s := range si {
				if !c.pr.relevant(s.File) {
					continue
				}
				f := by[s.File]
				if f == nil {
					f = &fc{}
					by[s.File] = f
				}
				f.all++
				if sites[s.ID] {
					f.hit++
				}
			}
			out := map[string]string{}
			for k, f := range by {
				if f.hit > 0 {
					out[strings.TrimPrefix(k, "github.com/clipperhouse/jargon/")] = fmt.Sprintf("%d of %d", f.hit, f.all)
				}
			}
			cov["yield_sites_reached"] = out
		}
	}
	ev := map[string]interface{}{
		"property": c.pr.ID, "tier": c.tier, "seed": c.seed, "level": "exploration", "coverage": cov,
		"assumptions": c.pr.Assume, "wall_s": wall, "violations": violations,
	}
	if c.pr.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0777)
	if err := os.WriteFile(filepath.Join(c.verif, "evidence", c.pr.ID+".json"), b, 0666); err != nil {
		fatal("%v", err)
	}
}
