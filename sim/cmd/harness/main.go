// Command harness simulates jargon. It is built with the overlay made by cmd/instrument, so that the code under test
// is /repo's current source on simulated devices, scheduler, operating system, network and clock.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"verif.local/sim/simrt"
)

// Summary of a worker
type Summary struct {
	Runs       int               `json:"runs"`
	Nontrivial []uint64          `json:"nontrivial"` // hashes of the non-trivial runs
	Scheds     []uint64          `json:"scheds"`     // hashes of the interleavings, where several tasks ran
	Steps      uint64            `json:"steps"`
	Switches   int               `json:"switches"`
	SimNS      int64             `json:"simNS"`
	Faults     map[string]int    `json:"faults"`
	Probes     map[string]int    `json:"probes"`
	Sites      []int             `json:"sites"`
	Samples    []json.RawMessage `json:"samples"`
	Logs       map[string]string `json:"logs"` // of a sample of runs, for the determinism check
	MapIter    uint64            `json:"mapIter"`
	Violation  *Found            `json:"violation,omitempty"`
	Error      string            `json:"error,omitempty"`
	Done       bool              `json:"done"`
}

// Found is a run that broke the property
type Found struct {
	I       int      `json:"i"`
	Cold    bool     `json:"cold"`
	Outcome *Outcome `json:"outcome"`
}

// Replay is a replay file
type Replay struct {
	Property  string  `json:"property"`
	Violation string  `json:"violation"`
	Detail    string  `json:"detail"`
	Seed      uint64  `json:"seed"`
	Tier      string  `json:"tier"`
	Note      string  `json:"note,omitempty"`
	Prelude   []*Plan `json:"prelude,omitempty"` // runs that must go before in the same process
	Plan      *Plan   `json:"plan"`
}

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness: "+format+"\n", args...)
	os.Exit(2)
}

var theT *testing.T // for bubbles

// inBubbleHost runs fn where synctest bubbles can be made
func inBubbleHost(fn func()) {
	os.Args = os.Args[:1]
	flag.CommandLine = flag.NewFlagSet("harness", flag.ExitOnError)
	testing.Init()
	testing.Main(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "host", F: func(t *testing.T) {
		theT = t
		fn()
		os.Stdout.Sync()
		os.Exit(0)
	}}}, nil, nil)
}

// runs from here on are long ones
const longRuns = 1 << 41

func makePlan(pr *Prop, tier string, base uint64, i int, cold bool) *Plan {
	seed := seedFor(base, pr.ID, uint64(i))
	long := i >= longRuns
	r := newRNG(seed)
	var p *Plan
	switch {
	case cold && pr.GenCold != nil:
		p = pr.GenCold(r, tier)
	case long:
		p = pr.GenLong(r, tier)
	default:
		p = pr.Gen(r, tier)
	}
	p.Prop, p.Seed, p.Cold = pr.ID, seed, cold && pr.GenCold != nil
	return p
}

func runPlan(p *Plan) *Outcome {
	pr := props[p.Prop]
	o := newOutcome()
	races := simrt.RaceErrors()
	simrt.MapSeed = p.MapSeed
	pr.Run(p.expand(), o)
	o.settle()
	if n := simrt.RaceErrors() - races; n > 0 {
		o.fail("data race", fmt.Sprintf("the race detector reported %d race(s)%s", n, raceReport()))
	}
	return o
}

func has(a []int, x int) bool {
	for _, y := range a {
		if x == y {
			return true
		}
	}
	return false
}

// beat tells the watchdog that a worker is alive
var beat atomic.Int64

func watchdog(limit time.Duration, what func() string) {
	beat.Store(time.Now().UnixNano())
	go func() {
		for {
			time.Sleep(time.Second)
			if d := time.Since(time.Unix(0, beat.Load())); d > limit {
				fmt.Fprintf(os.Stderr, "harness: watchdog: no progress for %v in %s\n", d, what())
				os.Exit(3)
			}
		}
	}()
}

func worker(pr *Prop, tier string, base uint64, from, to, stride int, cold bool, deadline time.Time, outPath string) {
	s := &Summary{Faults: map[string]int{}, Probes: map[string]int{}, Logs: map[string]string{}}
	cur := from
	watchdog(150*time.Second, func() string { return fmt.Sprintf("run %d", cur) })
	finish := func() {
		for id, n := range simrt.Sites() {
			if n > 0 {
				s.Sites = append(s.Sites, id)
			}
		}
		s.MapIter = simrt.MapIterations()
		s.Done = true
		b, err := json.Marshal(s)
		if err != nil {
			fatal("%v", err)
		}
		if err := os.WriteFile(outPath, b, 0666); err != nil {
			fatal("%v", err)
		}
	}
	for i := from; i < to; i += stride {
		if time.Now().After(deadline) {
			break
		}
		cur = i
		beat.Store(time.Now().UnixNano())
		p := makePlan(pr, tier, base, i, cold)
		o := runPlan(p)
		s.Runs++
		s.Steps += o.Steps
		s.Switches += o.Switches
		s.SimNS += o.SimNS
		for k, n := range o.Faults {
			s.Faults[k] += n
		}
		for k, n := range o.Probes {
			s.Probes[k] += n
		}
		if o.Nontrivial {
			s.Nontrivial = append(s.Nontrivial, o.Log)
		}
		if o.Switches > 0 {
			s.Scheds = append(s.Scheds, o.Sched)
		}
		if len(s.Samples) < 1 && o.Nontrivial {
			if b, err := json.Marshal(p); err == nil && len(b) < 2500 {
				s.Samples = append(s.Samples, b)
			}
		}
		if i%sampleEvery(pr) == 3 || stride == 1 {
			s.Logs[strconv.Itoa(i)] = fmt.Sprintf("%x/%x", o.Log, o.Sched)
		}
		if o.Violation != "" {
			s.Violation = &Found{I: i, Cold: cold, Outcome: o}
			break
		}
	}
	finish()
}

func sampleEvery(pr *Prop) int {
	n := pr.Quick / 60
	if n < 5 {
		n = 5
	}
	return n
}

func one(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	rp := &Replay{}
	if err := json.Unmarshal(b, rp); err != nil {
		fatal("%v", err)
	}
	watchdog(150*time.Second, func() string { return "run" })
	run := func() {
		for _, p := range rp.Prelude {
			beat.Store(time.Now().UnixNano())
			if o := runPlan(p); o.Violation != "" && p.Prop != rp.Plan.Prop {
				break
			}
		}
		beat.Store(time.Now().UnixNano())
		o := runPlan(rp.Plan)
		j, _ := json.Marshal(o)
		w := bufio.NewWriter(os.Stdout)
		w.WriteString("OUTCOME " + string(j) + "\n")
		w.Flush()
	}
	if props[rp.Plan.Prop].Bubble {
		inBubbleHost(run)
	} else {
		run()
	}
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: harness check|worker|one|replay|plan ...")
	}
	fillAbout()
	for id, n := range map[string]int{"C01": 48, "C02": 24, "C03": 32, "C04": 24, "C05": 24, "C06": 32, "C09": 16, "C10": 24, "C11": 24, "C12": 32, "C14": 8} {
		pr := props[id]
		pr.Long = n
		switch id {
		case "C12":
			pr.GenLong = longCLI
		case "C14":
			pr.GenLong = longWeb
		case "C06", "C09":
			pr.GenLong = longHistory(pr.Gen)
		default:
			pr.GenLong = longStream(pr.Gen)
		}
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "tier")
	seed := fs.Uint64("seed", 1, "seed")
	from := fs.Int("from", 0, "first run")
	to := fs.Int("to", 0, "last run")
	stride := fs.Int("stride", 1, "stride")
	cold := fs.Bool("cold", false, "fresh process runs")
	seconds := fs.Float64("seconds", 1e6, "time limit")
	out := fs.String("out", "", "output file")
	verif := fs.String("verif", "/verif", "verif directory")
	sites := fs.String("sites", "", "sites.json")
	workers := fs.Int("workers", 8, "workers")
	runs := fs.Int("runs", 0, "number of runs, instead of the tier's")
	fs.Parse(os.Args[2:])
	debug.SetGCPercent(200)
	switch cmd {
	case "worker":
		pr := props[*prop]
		deadline := time.Now().Add(time.Duration(*seconds * float64(time.Second)))
		f := func() { worker(pr, *tier, *seed, *from, *to, *stride, *cold, deadline, *out) }
		if pr.Bubble {
			inBubbleHost(f)
		}
		f()
	case "one":
		one(fs.Arg(0))
	case "plan":
		p := makePlan(props[*prop], *tier, *seed, *from, *cold)
		b, _ := json.MarshalIndent(p, "", " ")
		fmt.Println(string(b))
	case "check":
		os.Exit((&checker{pr: props[*prop], tier: *tier, seed: *seed, verif: *verif, sites: *sites, workers: *workers, runs: *runs}).check())
	case "replay":
		os.Exit(replay(fs.Arg(0)))
	case "list":
		for id := range props {
			fmt.Println(id, props[id].Race)
		}
	default:
		fatal("unknown command %s", cmd)
	}
}

// raceReport gives the functions named in the latest report of the race detector
func raceReport() string {
	path := ""
	for _, kv := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(kv, "log_path=") {
			path = kv[9:] + "." + strconv.Itoa(os.Getpid())
		}
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return ""
	}
	s := string(b)
	if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	var out []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "github.com/clipperhouse/") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Previous") {
			if k := strings.Index(l, " at 0x"); k > 0 {
				l = l[:k]
			}
			out = append(out, l)
		}
		if len(out) >= 12 {
			break
		}
	}
	return ": " + strings.Join(out, "; ")
}
