// Package simrt is the deterministic runtime that instrumented jargon code runs on: yield points,
// a cooperative seeded scheduler, step limits and a seam for map iteration order.
//
// Exactly one task runs at a time. Which one is decided here and nowhere else, from a seed or from an
// explicit list of switches. Hand-offs between tasks are hidden from the race detector (RaceDisable), so
// that the detector sees only the synchronisation the code under test performs itself.
package simrt

const (
	MaxSites    = 1 << 15
	MaxTasks    = 1024
	maxSwitches = 1 << 16
	maxChange   = 64

	// A task that has run this long while others could have is put behind them: a real scheduler is fair, and code
	// that waits in a loop may rely on it
	fairness = 500000
)

// Modes of the scheduler
const (
	ModeNone   = iota // no preemption; switch only when a task blocks or ends
	ModeRandom        // preempt after geometrically distributed numbers of steps
	ModePCT           // priorities with change points
	ModeList          // replay an explicit list of switches
)

// Switch is one scheduling decision: at Step, run Task.
type Switch struct {
	Step uint64 `json:"s"`
	Task int32  `json:"t"`
}

// Config of one simulated run
type Config struct {
	Seed    uint64
	Mode    int
	Gap     uint64   // ModeRandom: mean steps between preemptions
	Change  []uint64 // ModePCT: steps at which the running task's priority drops
	List    []Switch // ModeList
	StepCap uint64
	Process bool // Single: fn is the main function of a process, whose end ends its other tasks
	Bubble  bool // Single: inside a synctest bubble, where waiting costs no real time
}

// Result of one simulated run
type Result struct {
	Steps       uint64
	Switches    int
	Preemptions int
	Hash        uint64 // of the interleaving: (task, site) at each switch
	NoProgress  bool   // step cap exceeded
	Deadlock    bool
	Overflow    bool // decision log overflowed (then List is not complete)
	List        []Switch
}

type abortPanic struct{ why string }

func (a abortPanic) Error() string { return "simulation aborted: " + a.why }

// IsAbort tells whether a recovered panic value was raised by the simulator
func IsAbort(v interface{}) bool {
	_, ok := v.(abortPanic)
	return ok
}

type taskState struct {
	wake    chan struct{}
	used    bool
	done    bool
	blocked bool
	prio    int64
	fn      func()
	panicv  interface{}
}

var (
	active bool
	multi  bool

	steps, stepCap, nextEvent, lastSwitch uint64

	hits [MaxSites]uint32

	rng      uint64
	mode     int
	gap      uint64
	change   [maxChange]uint64
	nchange  int
	ichange  int
	list     [maxSwitches]Switch
	nlist    int
	ilist    int
	log      [maxSwitches]Switch
	nlog     int
	overflow bool

	tasks   [MaxTasks]taskState
	ntasks  int32
	cur     int32
	lowPrio int64

	hash        uint64
	switches    int
	preemptions int
	noProgress  bool
	deadlock    bool
	aborted     bool

	allDone chan struct{}

	nplan   int32       // tasks below this number were there from the start; the code under test started the others
	crashv  interface{} // panic of a task that the code under test started
	process bool
	bubble  bool
)

const never = ^uint64(0)

//go:norace
func next64() uint64 {
	rng += 0x9e3779b97f4a7c15
	z := rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func mix(h uint64, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 32
	return h
}

// Y is a yield point, inserted before every statement of the code under test.
//
//go:norace
func Y(site uint32) {
	if !active {
		return
	}
	steps++
	if site < MaxSites {
		hits[site]++
	}
	if steps >= nextEvent {
		event(site)
	}
}

// IO is a yield point used by simulated devices.
//
//go:norace
func IO() { Y(0) }

// Step advances the step counter without offering a switch
//
//go:norace
func Steps() uint64 { return steps }

// Active tells whether a simulated run is going on.
//
//go:norace
func Active() bool { return active }

//go:norace
func event(site uint32) {
	if aborted {
		panic(abortPanic{"aborted"})
	}
	if steps >= stepCap {
		noProgress = true
		if multi {
			aborted = true
		}
		nextEvent = 0
		panic(abortPanic{"step limit exceeded"})
	}
	if !multi {
		schedule()
		return
	}
	target := cur
	switch mode {
	case ModeRandom:
		target = pickRandomOther()
	case ModePCT:
		for ichange < nchange && change[ichange] <= steps {
			lowPrio--
			tasks[cur].prio = lowPrio
			ichange++
		}
		target = pickPrio()
	case ModeList:
		for ilist < nlist && list[ilist].Step <= steps {
			t := list[ilist].Task
			if t >= 0 && t < ntasks && !tasks[t].done && !tasks[t].blocked {
				target = t
			}
			ilist++
		}
	}
	if target == cur && steps-lastSwitch >= fairness {
		lastSwitch = steps
		lowPrio--
		tasks[cur].prio = lowPrio
		target = pickRandomOther()
	}
	schedule()
	if target != cur {
		preemptions++
		switchTo(target, site)
	}
}

// schedule computes the next step at which a decision is due
//
//go:norace
func schedule() {
	nextEvent = stepCap
	if !multi {
		return
	}
	if mode != ModeList || ilist >= nlist {
		if at := max(lastSwitch+fairness, steps+1); at < nextEvent {
			nextEvent = at
		}
	}
	switch mode {
	case ModeRandom:
		g := uint64(1)
		if gap > 1 {
			// geometric-ish: uniform over 1..2*gap-1, with an occasional immediate one
			r := next64()
			if r%8 == 0 {
				g = 1 + (r>>8)%3
			} else {
				g = 1 + (r>>8)%(2*gap-1)
			}
		}
		if steps+g < nextEvent {
			nextEvent = steps + g
		}
	case ModePCT:
		if ichange < nchange && change[ichange] < nextEvent {
			nextEvent = change[ichange]
		}
	case ModeList:
		if ilist < nlist && list[ilist].Step < nextEvent {
			nextEvent = list[ilist].Step
		}
	}
}

//go:norace
func runnable(i int32) bool { return tasks[i].used && !tasks[i].done && !tasks[i].blocked }

//go:norace
func pickRandomOther() int32 {
	n := int32(0)
	for i := int32(0); i < ntasks; i++ {
		if i != cur && runnable(i) {
			n++
		}
	}
	if n == 0 {
		return cur
	}
	k := int32(next64() % uint64(n))
	for i := int32(0); i < ntasks; i++ {
		if i != cur && runnable(i) {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return cur
}

//go:norace
func pickPrio() int32 {
	best := int32(-1)
	for i := int32(0); i < ntasks; i++ {
		if runnable(i) && (best < 0 || tasks[i].prio > tasks[best].prio) {
			best = i
		}
	}
	if best < 0 {
		return cur
	}
	return best
}

// pickForced chooses who runs when the current task cannot go on; -1 if nobody can.
//
//go:norace
func pickForced() int32 {
	switch mode {
	case ModeRandom:
		t := pickRandomOther()
		if t == cur && !runnable(cur) {
			return -1
		}
		return t
	case ModePCT:
		t := pickPrio()
		if !runnable(t) {
			return -1
		}
		return t
	case ModeList:
		if ilist < nlist && list[ilist].Step <= steps {
			t := list[ilist].Task
			ilist++
			schedule()
			if t >= 0 && t < ntasks && runnable(t) {
				return t
			}
		}
	}
	for i := int32(0); i < ntasks; i++ {
		if runnable(i) {
			return i
		}
	}
	return -1
}

//go:norace
func record(target int32, site uint32) {
	hash = mix(hash, uint64(target)<<32|uint64(site))
	switches++
	lastSwitch = steps
	if nlog < maxSwitches {
		log[nlog].Step = steps
		log[nlog].Task = target
		nlog++
	} else {
		overflow = true
	}
}

// switchTo hands control to target and returns when control comes back
//
//go:norace
func switchTo(target int32, site uint32) {
	self := cur
	record(target, site)
	cur = target
	raceDisable()
	tasks[target].wake <- struct{}{}
	<-tasks[self].wake
	raceEnable()
	if aborted {
		panic(abortPanic{"aborted"})
	}
}

// Block parks the current task until Notify is called by another one. Outside a run it just yields the processor.
//
//go:norace
func Block() {
	if !active || !multi {
		if active {
			// a single task waiting for itself
			deadlock = true
			panic(abortPanic{"deadlock"})
		}
		gosched()
		return
	}
	if aborted {
		panic(abortPanic{"aborted"})
	}
	steps++
	tasks[cur].blocked = true
	t := pickForced()
	if t < 0 && planLeft() && poll() {
		return
	}
	if t < 0 {
		deadlock = planLeft()
		aborted = true
		nextEvent = 0
		tasks[cur].blocked = false
		panic(abortPanic{"deadlock"})
	}
	switchTo(t, 1)
}

// Notify makes all parked tasks eligible to run again
//
//go:norace
func Notify() {
	if !active {
		return
	}
	for i := int32(0); i < ntasks; i++ {
		tasks[i].blocked = false
	}
}

// planLeft tells whether one of the tasks that were there from the start has not ended. Tasks that the code under test
// started and that wait for ever once nobody else is there are no deadlock.
//
//go:norace
func planLeft() bool {
	for i := int32(0); i < nplan; i++ {
		if tasks[i].used && !tasks[i].done {
			return true
		}
	}
	return false
}

// Go starts a task. Outside a run it starts a plain goroutine. A run with a single task becomes one with several.
//
//go:norace
func Go(fn func()) {
	if !active {
		go fn()
		return
	}
	if !multi {
		promote()
	}
	i := ntasks
	if i >= MaxTasks {
		// reuse the place of one that has ended
		for i = nplan; i < MaxTasks && !tasks[i].done; i++ {
		}
		if i == MaxTasks {
			aborted, nextEvent = true, 0
			panic(abortPanic{"too many tasks"})
		}
		initTask(i, fn)
		go taskMain(i)
		IO()
		return
	}
	ntasks++
	initTask(i, fn)
	go taskMain(i)
	IO()
}

// dropChans forgets the scheduler's own channels: one made inside a bubble cannot be used outside it, nor the other way
// round
//
//go:norace
func dropChans() {
	allDone = nil
	for i := range tasks {
		tasks[i].wake = nil
	}
}

//go:norace
func promote() {
	if bubble {
		dropChans()
	}
	if allDone == nil {
		allDone = make(chan struct{}, 1)
	}
	multi = true
	if mode == ModeNone {
		mode = ModeRandom
		gap = 40
	}
	initTask(0, nil)
	ntasks, nplan, cur = 1, 1, 0
	schedule()
}

//go:norace
func initTask(i int32, fn func()) {
	if tasks[i].wake == nil {
		tasks[i].wake = make(chan struct{}, 1)
	}
	tasks[i].used = true
	tasks[i].done = false
	tasks[i].blocked = false
	tasks[i].fn = fn
	tasks[i].panicv = nil
	tasks[i].prio = int64(next64() >> 2)
}

//go:norace
func taskMain(i int32) {
	raceDisable()
	<-tasks[i].wake
	raceEnable()
	runTask(i)
	finish(i)
}

//go:norace
func runTask(i int32) {
	defer func() {
		if v := recover(); v != nil {
			if i < nplan {
				tasks[i].panicv = v
			} else if !aborted {
				// nobody can recover this: the process is gone
				tasks[i].panicv = v
				crashv = v
				aborted = true
				nextEvent = 0
			}
		}
	}()
	if aborted {
		return
	}
	tasks[i].fn()
}

//go:norace
func finish(i int32) {
	tasks[i].done = true
	tasks[i].fn = nil
	// Real synchronisation: what the task did happens before Run returns
	taskDone(i)
	if process && i == 0 {
		aborted = true
		nextEvent = 0
	}
	t := pickForced()
	for t < 0 && planLeft() && poll() {
		t = pickForced()
	}
	if t < 0 {
		// Anyone left is blocked for good
		for k := int32(0); k < ntasks; k++ {
			if tasks[k].used && !tasks[k].done {
				if !aborted && planLeft() {
					deadlock = true
				}
				aborted = true
				nextEvent = 0
				tasks[k].blocked = false
				t = k
				break
			}
		}
	}
	if t < 0 {
		raceDisable()
		allDone <- struct{}{}
		raceEnable()
		return
	}
	record(t, 2)
	cur = t
	raceDisable()
	tasks[t].wake <- struct{}{}
	raceEnable()
}

//go:norace
func start(cfg Config, m bool) {
	rng = cfg.Seed ^ 0x5eed5eed5eed5eed
	mode = cfg.Mode
	gap = cfg.Gap
	nchange, ichange = 0, 0
	for _, c := range cfg.Change {
		if nchange < maxChange {
			change[nchange] = c
			nchange++
		}
	}
	nlist, ilist = 0, 0
	for _, s := range cfg.List {
		if nlist < maxSwitches {
			list[nlist] = s
			nlist++
		}
	}
	nlog = 0
	overflow = false
	steps, lastSwitch = 0, 0
	stepCap = cfg.StepCap
	if stepCap == 0 {
		stepCap = 1 << 40
	}
	hash = 0
	switches, preemptions = 0, 0
	noProgress, deadlock, aborted = false, false, false
	lowPrio = 0
	multi = m
	ntasks, nplan = 0, 0
	crashv = nil
	process = cfg.Process
	bubble = cfg.Bubble
	resetChans(cfg.Seed)
	cur = 0
	for i := range tasks {
		tasks[i].used = false
		tasks[i].done = false
		tasks[i].blocked = false
	}
	active = true
	schedule()
}

//go:norace
func stop() Result {
	active = false
	multi = false
	r := Result{
		Steps: steps, Switches: switches, Preemptions: preemptions, Hash: hash,
		NoProgress: noProgress, Deadlock: deadlock, Overflow: overflow,
	}
	for i := 0; i < nlog; i++ {
		r.List = append(r.List, log[i])
	}
	return r
}

// Single runs fn alone, counting steps. A panic in fn is returned.
//
//go:norace
func Single(cfg Config, fn func()) (res Result, panicv interface{}) {
	start(cfg, false)
	func() {
		defer func() { panicv = recover() }()
		fn()
	}()
	if multi {
		// the code under test started tasks: they go on until they have ended or wait for ever
		finish(0)
		raceDisable()
		<-allDone
		raceEnable()
		waitDone()
		if crashv != nil && (panicv == nil || IsAbort(panicv)) {
			panicv = crashv
		}
		for i := int32(0); i < ntasks; i++ {
			tasks[i].panicv = nil
		}
		if bubble {
			dropChans()
		}
	}
	return stop(), panicv
}

// Run runs fns as concurrent tasks under the scheduler until all have ended. The panic value of each task
// (or nil) is returned.
//
//go:norace
func Run(cfg Config, fns []func()) (Result, []interface{}) {
	start(cfg, true)
	if allDone == nil {
		allDone = make(chan struct{}, 1)
	}
	prepareDone()
	for i := range fns {
		initTask(int32(i), fns[i])
	}
	ntasks = int32(len(fns))
	nplan = ntasks
	n := len(fns)
	for i := 0; i < n; i++ {
		go taskMain(int32(i))
	}
	first := int32(0)
	switch mode {
	case ModeRandom:
		first = int32(next64() % uint64(n))
	case ModePCT:
		first = pickPrio()
	case ModeList:
		if nlist > 0 && list[0].Step == 0 {
			if t := list[0].Task; t >= 0 && t < ntasks {
				first = t
			}
			ilist = 1
			schedule()
		}
	}
	record(first, 3)
	cur = first
	raceDisable()
	tasks[first].wake <- struct{}{}
	<-allDone
	raceEnable()
	total := int(ntasks)
	waitDone()
	r := stop()
	ps := make([]interface{}, total)
	for i := range ps {
		ps[i] = tasks[i].panicv
		tasks[i].panicv = nil
	}
	return r, ps
}

// Sites returns how often each yield site was passed since the process started
//
//go:norace
func Sites() []uint32 {
	out := make([]uint32, MaxSites)
	for i := range out {
		out[i] = hits[i]
	}
	return out
}
