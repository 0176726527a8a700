package main

import (
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"

	"github.com/clipperhouse/jargon"
	"verif.local/sim/simrt"
)

// Prop is a property with its workload and its oracle
type Prop struct {
	ID       string
	Gen      func(r *RNG, tier string) *Plan
	Run      func(p *Plan, o *Outcome)
	Race     bool // uses the race detector build
	Bubble   bool // needs a simulated clock
	Process  bool // the code under test is a program, which starts afresh for each run
	Quick    int
	Thorough int
	Cold     int // additional runs, each in a fresh process (quick); thorough: 8 times as many
	GenCold  func(r *RNG, tier string) *Plan
	Long     int // additional runs with large inputs, each in a fresh process; thorough: 8 times as many
	GenLong  func(r *RNG, tier string) *Plan
	Confirm  bool // a violation counts only if it can be repeated (measurements)
	Rule     string
	Real     []string
	Stub     []string
	Measure  string
	Assume   []string
	Files    []string // prefixes of the files whose yield sites are reported; none: all
}

func (p *Prop) measure() string {
	if p.Measure != "" {
		return p.Measure
	}
	return "hash of the plan's document, delivery and everything observed at the public API"
}

func (p *Prop) relevant(file string) bool { return true }

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func stepCap(p *Plan) uint64 {
	n := 0
	for _, s := range p.Streams {
		n += len(s.Doc)
		for _, t := range s.Toks {
			n += len(t.V)
		}
	}
	for _, q := range p.Reqs {
		n += len(q.Body)
	}
	return 20e6 + 2000*uint64(n)
}

// single runs fn as the only task, and turns panics and endless loops into violations
func single(p *Plan, o *Outcome, fn func()) {
	simrt.MapSeed = p.MapSeed
	res, pv := simrt.Single(simrt.Config{Seed: p.MapSeed, StepCap: stepCap(p)}, fn)
	o.Steps += res.Steps
	switch {
	case res.NoProgress:
		o.fail("no progress", fmt.Sprintf("no end after %d steps", res.Steps))
	case res.Deadlock:
		o.fail("deadlock", "what is waited for cannot happen any more")
	case pv != nil:
		o.fail("panic", fmt.Sprint(pv))
	}
}

func longest(ts []Tok) int {
	m := 0
	for _, t := range ts {
		if len(t.V) > m {
			m = len(t.V)
		}
	}
	return m
}

// a word must come through if it is shorter than this; above, an error is allowed
const maxWord = 60000

func maxDoc(r *RNG, tier string) int {
	switch {
	case r.p(1, 40):
		return 140000
	case r.p(1, 4):
		return 9000
	}
	return 3000
}

func init() {
	register(&Prop{
		ID: "C01", Quick: 250000, Thorough: 10000000,
		Rule: "one run = one document (random mixture of words, joiners, white space, invalid UTF-8, emoji, long words; lengths around buffer boundaries), one delivery schedule of the reader, one way of consuming; non-trivial = non-empty document delivered in at least two reads; distinct by hash of document, delivery and tokens seen",
		Gen: func(r *RNG, tier string) *Plan {
			p := &Plan{}
			g := newDocGen(r, false, nil)
			s := StreamPlan{Doc: g.doc(maxDoc(r, tier)), Use: r.pick(uses)}
			switch {
			case r.p(1, 60):
				// an overlong or nearly overlong word
				n := []int{4095, 4096, 4097, 30000, 59000, 65535, 65536, 65537, 70000, 200000}[r.n(10)]
				k := r.n(len(s.Doc) + 1)
				w := strings.Repeat(r.pick([]string{"w", "é", "1", "x_", "日"[:0] + "カ"}), n)[:n]
				s.Doc = append(append(append(Bytes{}, s.Doc[:k]...), " "+w+" "...), s.Doc[k:]...)
			case r.p(1, 12):
				// any bytes at all
				s.Doc = nil
				for i := r.between(1, 300); i > 0; i-- {
					s.Doc = append(s.Doc, byte(r.next()))
				}
			}
			s.Reads = readsOf(r, s.Doc)
			if longRun(s.Doc) > 20000 {
				// the splitter looks at an unfinished word again with every piece
				s.Reads.Sizes = []int{r.between(1000, 9000), r.between(1, 9000)}
			}
			p.Streams = []StreamPlan{s}
			return p
		},
		Run: runC01,
	})
	register(&Prop{
		ID: "C02", Quick: 250000, Thorough: 10000000,
		Rule: "one run = one text or HTML document, one chain of 0-4 stages, one delivery schedule, compared with the delivery of the same document at once and (without stages) with the segmentation of the whole text; non-trivial = at least two reads and two tokens; distinct by hash of document, delivery and tokens",
		Gen: func(r *RNG, tier string) *Plan {
			p := &Plan{}
			s := StreamPlan{HTML: r.p(1, 3)}
			if r.p(1, 2) {
				s.Stages = p.genStages(r, 4)
			}
			g := newDocGen(r, s.HTML, p.phrases(r))
			s.Doc = overlong(r, g.doc(maxDoc(r, tier)), s.HTML, 1500)
			s.Reads = readsOf(r, s.Doc)
			s.Use = r.pick([]string{"next", "scan", "slice"})
			p.Streams = []StreamPlan{s}
			return p
		},
		Run: runC02,
	})
	register(&Prop{
		ID: "C03", Quick: 400000, Thorough: 16000000,
		Rule: "one run = one HTML document (well-formed, sloppy and broken markup, raw text elements, entities), one delivery schedule; non-trivial = holds markup and text; distinct by hash of document, delivery and tokens",
		Gen: func(r *RNG, tier string) *Plan {
			p := &Plan{}
			g := newDocGen(r, true, nil)
			s := StreamPlan{HTML: true, Doc: overlong(r, g.doc(maxDoc(r, tier)), true, 1500), Use: r.pick([]string{"next", "scan", "slice", "string", "writeto"})}
			s.Reads = readsOf(r, s.Doc)
			p.Streams = []StreamPlan{s}
			return p
		},
		Run: runC03,
	})
	register(&Prop{
		ID: "C04", Quick: 400000, Thorough: 16000000,
		Rule: "one run = one document, one chain of 0-3 stages, one delivery schedule ending in one of 13 kinds of error at a chosen byte, with or without data, the source afterwards failing again, ending or carrying on, one way of consuming; non-trivial = the error was delivered; distinct by hash of document, delivery, failure and tokens",
		Gen: func(r *RNG, tier string) *Plan {
			p := &Plan{}
			s := StreamPlan{HTML: r.p(1, 3), Use: r.pick(uses)}
			if r.p(3, 5) {
				s.Stages = p.genStages(r, 3)
			}
			g := newDocGen(r, s.HTML, p.phrases(r))
			s.Doc = overlong(r, g.doc(maxDoc(r, tier)), s.HTML, 1500)
			s.Reads = readsOf(r, s.Doc)
			addFailure(r, &s.Reads, s.Doc)
			p.Streams = []StreamPlan{s}
			return p
		},
		Run: runC04,
	})
	register(&Prop{
		ID: "C05", Quick: 400000, Thorough: 16000000,
		Rule: "one run = one pipeline written with WriteTo to a sink that fails after a chosen byte (refusing, accepting a part, accepting all of the failing call; once or for good), sometimes with a failing source as well; non-trivial = the sink failed; distinct by hash of document, sink and bytes accepted",
		Gen: func(r *RNG, tier string) *Plan {
			p := &Plan{}
			s := StreamPlan{HTML: r.p(1, 4), Use: "writeto"}
			if r.p(1, 2) {
				s.Stages = p.genStages(r, 3)
			}
			g := newDocGen(r, s.HTML, p.phrases(r))
			s.Doc = overlong(r, g.doc(maxDoc(r, tier)), s.HTML, 1500)
			s.Reads = readsOf(r, s.Doc)
			if r.p(1, 5) {
				addFailure(r, &s.Reads, s.Doc)
			}
			p.Sink = &SinkPlan{Fail: -1, Rich: r.p(1, 4)}
			if !r.p(1, 6) {
				p.Sink.Fail = r.between(0, len(s.Doc))
				if r.p(1, 3) {
					p.Sink.Fail = r.between(0, 30)
				}
				switch r.n(4) {
				case 0:
					p.Sink.All = true
				case 1, 2:
					p.Sink.Partial = true
				}
				p.Sink.Once = r.p(1, 2)
				p.Sink.Err = r.pick(writeErrNames)
			}
			p.Streams = []StreamPlan{s}
			return p
		},
		Run: runC05,
	})
	register(&Prop{
		ID: "C07", Confirm: true, Quick: 900, Thorough: 30000,
		Rule: "one run = one pipeline of 0-4 stages fed in pieces of at most 64 bytes from a document of 24-160 KB, the position of the source being compared with the tokens handed out at every read; one run in 50 instead streams 1 MB, mostly words never seen before, through 5-15 stages and measures live memory (a growth is confirmed on 6 MB); non-trivial = at least 100 tokens; distinct by hash of document, stages and delivery",
		Gen:  genC07,
		Run:  runC07,
	})
}

// longRun is the length of the longest stretch without a space
func longRun(b []byte) int {
	max, n := 0, 0
	for _, c := range b {
		n++
		if c == ' ' || c == '\n' {
			n = 0
		}
		if n > max {
			max = n
		}
	}
	return max
}

// trace logs what a run delivered and gave
func trace(o *Outcome, s *StreamPlan, r *simReader, res result) {
	o.log(string(s.Doc), fmt.Sprint(s.Reads), s.Use, res.str, fmt.Sprint(len(res.toks)), fmt.Sprint(res.n), fmt.Sprint(res.err), fmt.Sprint(r.calls))
	for _, t := range res.toks {
		o.log(t.V, t.flags())
	}
}

func runC01(p *Plan, o *Outcome) {
	s := &p.Streams[0]
	r := newReader(s.Doc, s.Reads, o)
	var res result
	single(p, o, func() { res = consume(s.open(r, nil), s.Use, nil) })
	trace(o, s, r, res)
	o.Nontrivial = len(s.Doc) > 0 && r.calls > 2
	if o.Violation != "" {
		return
	}
	model := modelText(s.Doc)
	if res.extra != "" {
		o.fail("inconsistent result", res.extra)
		return
	}
	if res.err != nil {
		if longest(model) < maxWord {
			o.fail("unexpected error", fmt.Sprintf("%s: %v", s.Use, res.err))
		} else if res.hasT && !strings.HasPrefix(string(s.Doc), concat(res.toks)) {
			o.fail("text altered", "tokens before the error are not a prefix of the text: "+show(res.toks))
		}
		o.probe("overlong word refused")
		return
	}
	if longest(model) >= maxWord {
		o.probe("overlong word accepted")
	}
	for i, t := range res.toks {
		if t.V == "" {
			o.fail("empty token", fmt.Sprintf("token %d", i))
		}
	}
	if res.hasS && res.str != string(s.Doc) {
		o.fail("round trip", fmt.Sprintf("%s gave %d bytes of %d; %s", s.Use, len(res.str), len(s.Doc), firstDiff(res.str, string(s.Doc))))
	}
	if s.Use == "count" && int(res.n) != len(model) {
		o.fail("count", fmt.Sprintf("Count gave %d, there are %d words and separators", res.n, len(model)))
	}
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-10, i+20
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			lo = hi
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("at byte %d: got %q, expected %q", i, cut(a), cut(b))
}

func runC02(p *Plan, o *Outcome) {
	s := &p.Streams[0]
	r := newReader(s.Doc, s.Reads, o)
	var res result
	var ref []Tok
	var refErr error
	single(p, o, func() {
		res = consume(s.open(r, buildFilters(p.Filters)), s.Use, nil)
		ref, refErr = s.oneShot(s.Doc, buildFilters(p.Filters))
	})
	trace(o, s, r, res)
	o.Nontrivial = r.calls > 2 && len(res.toks) > 1
	if o.Violation != "" {
		return
	}
	model := s.modelBase(s.Doc)
	if longest(model) >= maxWord && (res.err != nil || refErr != nil) {
		o.probe("overlong word refused")
		if res.err == nil && !prefixToks(ref, res.toks) || refErr == nil && !prefixToks(res.toks, ref) || !prefixToks(ref, res.toks) && !prefixToks(res.toks, ref) {
			o.fail("chunk dependence", "before an overlong word, in pieces vs. at once: "+diffToks(res.toks, ref))
		}
		return
	}
	if res.err != nil || refErr != nil {
		o.fail("unexpected error", fmt.Sprintf("%v; delivered at once: %v", res.err, refErr))
		return
	}
	if !equalToks(res.toks, ref) {
		o.fail("chunk dependence", "in pieces vs. at once: "+diffToks(res.toks, ref))
		return
	}
	if len(s.Stages) == 0 && !equalToks(res.toks, model) {
		o.fail("segmentation", diffToks(res.toks, model))
	}
}

func runC03(p *Plan, o *Outcome) {
	s := &p.Streams[0]
	r := newReader(s.Doc, s.Reads, o)
	var res result
	single(p, o, func() { res = consume(s.open(r, nil), s.Use, nil) })
	trace(o, s, r, res)
	if o.Violation != "" {
		return
	}
	model := modelHTML(s.Doc)
	mk, tx := false, false
	for _, t := range model {
		if strings.HasPrefix(t.V, "<") && t.P {
			mk = true
		} else if !t.S {
			tx = true
		}
	}
	o.Nontrivial = mk && tx
	if longest(model) >= maxWord && res.err != nil {
		o.probe("overlong word refused")
		if res.hasT && !prefixToks(res.toks, model) {
			o.fail("HTML structure", "before an overlong word: "+diffToks(res.toks, model))
		}
		return
	}
	if res.extra != "" {
		o.fail("inconsistent result", res.extra)
	}
	if res.err != nil {
		o.fail("unexpected error", fmt.Sprint(res.err))
		return
	}
	if res.str != string(s.Doc) {
		o.fail("not verbatim", firstDiff(res.str, string(s.Doc)))
	}
	if res.hasT && !equalToks(res.toks, model) {
		o.fail("HTML structure", diffToks(res.toks, model))
	}
}

func runC04(p *Plan, o *Outcome) {
	s := &p.Streams[0]
	if s.Reads.Fail < 0 || s.Reads.Fail > len(s.Doc) {
		s.Reads.Fail = len(s.Doc)
	}
	r := newReader(s.Doc, s.Reads, o)
	var res result
	var ref []Tok
	var refErr error
	cut := s.Doc[:s.Reads.Fail]
	single(p, o, func() {
		res = consume(s.open(r, buildFilters(p.Filters)), s.Use, nil)
		ref, refErr = s.oneShot(cut, buildFilters(p.Filters))
	})
	trace(o, s, r, res)
	o.Nontrivial = r.ended
	if o.Violation != "" {
		return
	}
	if longest(s.modelBase(cut)) >= maxWord {
		o.probe("overlong word")
		if res.err == nil {
			o.fail("failure swallowed", fmt.Sprintf("%s ended cleanly though the source failed with %q after %d bytes", s.Use, r.err(), s.Reads.Fail))
		}
		return
	}
	if res.extra != "" {
		o.fail("inconsistent result", res.extra)
		return
	}
	if refErr != nil {
		o.fail("unexpected error", fmt.Sprintf("without failure: %v", refErr))
		return
	}
	want := r.err()
	if res.err == nil {
		o.fail("failure swallowed", fmt.Sprintf("%s ended cleanly though the source failed with %q after %d bytes", s.Use, want, s.Reads.Fail))
		return
	}
	if !errors.Is(res.err, want) {
		o.fail("other error", fmt.Sprintf("source failed with %q, %s reported %q", want, s.Use, res.err))
		return
	}
	if s.Use == "next" || s.Use == "scan" {
		if !prefixToks(res.toks, ref) {
			o.fail("wrong tokens before failure", diffToks(res.toks, ref))
			return
		}
		if len(s.Stages) == 0 && !s.HTML && concat(res.toks) != string(cut) {
			o.fail("text lost before failure", firstDiff(concat(res.toks), string(cut)))
		}
	}
	if s.Use == "writeto" && !strings.HasPrefix(concat(ref), res.str) {
		o.fail("wrong tokens before failure", firstDiff(res.str, concat(ref)))
	}
	if s.Use == "writeto" && len(s.Stages) == 0 && !s.HTML && res.str != string(cut) {
		o.fail("text lost before failure", firstDiff(res.str, string(cut)))
	}
}

func runC05(p *Plan, o *Outcome) {
	s := &p.Streams[0]
	r := newReader(s.Doc, s.Reads, o)
	w := &simWriter{pl: *p.Sink, o: o}
	var n int64
	var err error
	var ref []Tok
	var refErr error
	failing := s.Reads.Fail >= 0
	doc := []byte(s.Doc)
	if failing && s.Reads.Fail <= len(doc) {
		doc = doc[:s.Reads.Fail]
	}
	single(p, o, func() {
		var sink io.Writer = w
		if p.Sink.Rich {
			sink = richWriter{w}
		}
		n, err = s.open(r, buildFilters(p.Filters)).WriteTo(sink)
		ref, refErr = s.oneShot(doc, buildFilters(p.Filters))
	})
	o.log(string(s.Doc), fmt.Sprint(s.Reads), fmt.Sprint(*p.Sink), string(w.got), fmt.Sprint(n, err))
	o.Nontrivial = w.failed
	if o.Violation != "" {
		return
	}
	if longest(s.modelBase(s.Doc)) >= maxWord {
		o.probe("overlong word")
		if n != int64(len(w.got)) {
			o.fail("count", fmt.Sprintf("WriteTo returned %d, the writer accepted %d bytes", n, len(w.got)))
		}
		if w.afterErr > 0 {
			o.fail("write after error", fmt.Sprintf("%d bytes were written after the writer failed", w.afterErr))
		}
		if (refErr != nil || w.failed || failing) && err == nil {
			o.fail("failure swallowed", fmt.Sprintf("writer failed: %v, reader failed: %v, other failure: %v", w.failed, failing, refErr))
		}
		return
	}
	if refErr != nil {
		return
	}
	all := concat(ref)
	if n != int64(len(w.got)) {
		o.fail("count", fmt.Sprintf("WriteTo returned %d, the writer accepted %d bytes", n, len(w.got)))
	}
	if !strings.HasPrefix(all, string(w.got)) {
		o.fail("not a prefix", firstDiff(string(w.got), all))
	}
	if w.afterErr > 0 {
		o.fail("write after error", fmt.Sprintf("%d bytes were written after the writer failed", w.afterErr))
	}
	switch {
	case w.failed:
		if err == nil {
			o.fail("write failure swallowed", fmt.Sprintf("writer failed with %q", w.err()))
		} else if !errors.Is(err, w.err()) {
			o.fail("other error", fmt.Sprintf("writer failed with %q, WriteTo returned %q", w.err(), err))
		}
	case failing:
		if err == nil {
			o.fail("read failure swallowed", fmt.Sprintf("reader failed with %q", r.err()))
		}
	default:
		if err != nil {
			o.fail("unexpected error", fmt.Sprint(err))
		} else if string(w.got) != all {
			o.fail("incomplete", firstDiff(string(w.got), all))
		}
	}
}

// ---- C07

func genC07(r *RNG, tier string) *Plan {
	p := &Plan{Kind: "lookahead"}
	s := StreamPlan{HTML: r.p(1, 4)}
	s.Stages = p.genStages(r, 4)
	s.Reads = ReadPlan{Fail: -1}
	for i := r.between(1, 6); i > 0; i-- {
		s.Reads.Sizes = append(s.Reads.Sizes, r.between(1, 64))
	}
	if r.p(1, 3) {
		s.Reads.Wrap = r.pick(wraps)
	}
	if r.p(1, 50) {
		p.Kind = "memory"
		// many stages at once; those which drop most tokens come last
		p.Filters, s.Stages = nil, nil
		distinct := false
		for i := r.between(4, 8); i > 0; i-- {
			st := p.genStage(r)
			if st.K == "words" || st.K == "lemmas" || strings.HasPrefix(st.K, "where:") || st.K == "distinct" {
				if !distinct && r.p(1, 2) {
					defer func() { p.Streams[0].Stages = append(p.Streams[0].Stages, st) }()
					distinct = true
					p.Unique = st.K != "distinct"
				}
				continue
			}
			s.Stages = append(s.Stages, st)
		}
		if !distinct {
			p.Unique = true
		}
		for _, k := range perToken {
			if r.p(1, 2) {
				k := Stage{K: k}
				i := r.n(len(s.Stages) + 1)
				s.Stages = append(s.Stages[:i:i], append([]Stage{k}, s.Stages[i:]...)...)
			}
		}
		p.Size = 1 << 20
		for i := range s.Reads.Sizes {
			s.Reads.Sizes[i] += 4000
		}
	}
	// a document whose words and nodes are short; punctuation may go on for long
	var lines []string
	ph := p.phrases(r)
	for i := r.between(5, 40); i > 0; i-- {
		var b strings.Builder
		for j := r.between(1, 12); j > 0; j-- {
			switch {
			case len(ph) > 0 && r.p(1, 4):
				b.WriteString(r.pick(ph))
			case r.p(1, 6):
				b.WriteString(r.pick(atomJoin))
			case r.p(1, 6):
				b.WriteString(r.pick(atomTech))
			case r.p(1, 10):
				b.WriteString(r.pick(atomSigil))
			default:
				b.WriteString(r.pick(atomWords))
			}
			b.WriteString([]string{" ", " ", " ", ", ", ". ", "\n"}[r.n(6)])
			if s.HTML && r.p(1, 3) {
				b.WriteString([]string{"<p>", "</p>", "<br/>", "<!-- x -->", "<script>a b</script>"}[r.n(5)])
			}
		}
		if s.HTML {
			b.WriteString("<br>")
		}
		l := b.String()
		if len(l) > 300 {
			l = l[:250]
			l = strings.ToValidUTF8(l, "") + "\n"
			if s.HTML {
				l = strings.NewReplacer("<", "", ">", "").Replace(l) + "<br>"
			}
		}
		lines = append(lines, l)
	}
	if p.Kind == "memory" {
		s.Doc = Bytes(strings.Join(lines, ""))
	} else {
		n := r.between(24000, 60000)
		if r.p(1, 10) {
			n = 160000
		}
		var b []byte
		// (not if a stage drops or rewrites punctuation: a dictionary stage would be left with a run of spaces after a
		// word, which may be part of a synonym however long it is)
		long := !s.HTML && r.p(2, 3)
		for _, x := range s.Stages {
			switch x.K {
			case "so", "nba", "handles", "hashtags", "contr":
			case "f":
				if k := p.Filters[x.F].Kind; k != "syn" {
					long = false
				}
			default:
				long = false
			}
		}
		for len(b) < n {
			b = append(b, r.pick(lines)...)
			if long && r.p(1, 20) {
				x := r.pick([]string{"\n", ".", ", ", "\r\n", "-", "!?", "\t", ". \n", "*", "@ ", "#", "\n "})
				b = append(b, strings.Repeat(x, r.between(200, 9000)/len(x))...)
			}
			if r.p(1, 6) {
				b = append(b, r.pick(atomWords)...)
				b = append(b, ' ')
			}
		}
		s.Doc = b
	}
	p.Streams = []StreamPlan{s}
	return p
}

// how far beyond a token the source may be read: one 64 byte piece, the words a dictionary looks ahead, the HTML
// node; documents of this check keep all of them below 300 bytes
const lookahead = 2048

func runC07(p *Plan, o *Outcome) {
	s := &p.Streams[0]
	if p.Kind == "memory" {
		runMemory(p, o)
		return
	}
	// how many tokens the pipeline gives for prefixes of the document
	type cut struct{ at, n int }
	var cuts []cut
	r := newReader(s.Doc, s.Reads, o)
	n := 0
	got := uint64(hash0)
	var fail string
	single(p, o, func() {
		step := len(s.Doc)/12 + 1
		for at := step; at < len(s.Doc); at += step {
			// cut where no word, phrase or node is in progress: after a line break, if there is one nearby
			k := at
			for k < len(s.Doc) && k < at+600 && s.Doc[k-1] != '\n' && s.Doc[k-1] != '>' {
				k++
			}
			ts, err := s.oneShot(s.Doc[:k], buildFilters(p.Filters))
			if err != nil {
				o.fail("unexpected error", err.Error())
				return
			}
			cuts = append(cuts, cut{k, len(ts)})
		}
		fs := buildFilters(p.Filters)
		st := s.open(r, fs)
		if r.calls > 0 {
			o.fail("eager", "building the pipeline read from the source")
			return
		}
		i := 0
		r.onRead = func(delivered int) {
			for i < len(cuts) && delivered > cuts[i].at+lookahead {
				// the last words of a prefix may be waiting for what follows them
				if n < cuts[i].n-16 && fail == "" {
					fail = fmt.Sprintf("%d bytes have been read but only %d of the %d tokens of the first %d bytes have been handed out", delivered, n, cuts[i].n, cuts[i].at)
				}
				i++
			}
		}
		for {
			t, err := st.Next()
			if err != nil {
				o.fail("unexpected error", err.Error())
				return
			}
			if t == nil {
				return
			}
			n++
			if n > maxTokens {
				return
			}
			got = hashStr(got, t.String())
			if fail != "" {
				return
			}
		}
	})
	o.log(string(s.Doc), fmt.Sprint(s.Stages, s.Reads), fmt.Sprint(n, got, r.calls))
	o.Nontrivial = n >= 100
	if fail != "" {
		o.fail("reads ahead", fail)
	}
	if o.Violation == "" && r.pos < len(s.Doc) {
		o.fail("ended early", fmt.Sprintf("the stream ended after %d of %d bytes", r.pos, len(s.Doc)))
	}
}

// repeatReader delivers doc again and again, up to total bytes, without holding them. If uniq is set there is a word
// not seen before every few words.
type repeatReader struct {
	doc   []byte
	uniq  bool
	k     int    // position in doc
	n     int    // unique words so far
	since int    // bytes since the last one
	pend  []byte // rest of the unique word to deliver
	total int
	pos   int
	sizes []int
	i     int
	peek  func(pos int)
}

func (r *repeatReader) Read(p []byte) (int, error) {
	simrt.IO()
	if r.peek != nil {
		r.peek(r.pos)
	}
	if r.pos >= r.total {
		return 0, errEOF
	}
	n := r.sizes[r.i%len(r.sizes)]
	r.i++
	if n > len(p) {
		n = len(p)
	}
	for i := 0; i < n; i++ {
		if len(r.pend) > 0 {
			p[i] = r.pend[0]
			r.pend = r.pend[1:]
			continue
		}
		p[i] = r.doc[r.k]
		r.k = (r.k + 1) % len(r.doc)
		r.since++
		if r.uniq && r.since > 20 && p[i] == ' ' {
			r.since = 0
			r.n++
			r.pend = append(r.pend[:0], r.pick()...)
		}
	}
	r.pos += n
	return n, nil
}

func (r *repeatReader) pick() string {
	switch r.n % 5 {
	case 0:
		return fmt.Sprintf("@U%dser ", r.n)
	case 1:
		return fmt.Sprintf("#tag%d ", r.n)
	case 2:
		return fmt.Sprintf("Éx%dings, ", r.n)
	default:
		return fmt.Sprintf("word%dings ", r.n)
	}
}

func runMemory(p *Plan, o *Outcome) {
	if len(p.Streams[0].Doc) == 0 {
		return
	}
	o.Nontrivial = true
	o.probe("1 MB streamed")
	if d := streamed(p, o, p.Size, p.Size/8); d < 160<<10 || o.Violation != "" {
		return
	}
	// not a buffer or cache that has grown to its final size?
	if d := streamed(p, o, 6*p.Size, 3*p.Size); d > 300<<10 && o.Violation == "" {
		o.fail("memory grows", fmt.Sprintf("live memory grew by more than 300 KB while bytes %d to %d were streamed", 3*p.Size, 6*p.Size))
	}
}

// streamed runs the pipeline on total bytes and returns by how much live memory grew after the first ones
func streamed(p *Plan, o *Outcome, total, first int) (worst int64) {
	s := &p.Streams[0]
	rr := &repeatReader{doc: s.Doc, uniq: p.Unique, total: total, sizes: s.Reads.Sizes}
	var base int64
	marks := []int{first, (first + total) / 2, total - total/16}
	i := 0
	var ms runtime.MemStats
	rr.peek = func(pos int) {
		if i < len(marks) && pos >= marks[i] {
			runtime.GC()
			runtime.ReadMemStats(&ms)
			if i == 0 {
				base = int64(ms.HeapAlloc)
			} else if d := int64(ms.HeapAlloc) - base; d > worst {
				worst = d
			}
			i++
		}
	}
	n := 0
	var err error
	simrt.MapSeed = p.MapSeed
	res, pv := simrt.Single(simrt.Config{StepCap: 4e9}, func() {
		var st *jargon.TokenStream
		if s.HTML {
			st = jargon.TokenizeHTML(rr)
		} else {
			st = jargon.Tokenize(rr)
		}
		st = s.apply(st, buildFilters(p.Filters))
		for {
			t, e := st.Next()
			if e != nil || t == nil {
				err = e
				return
			}
			n++
		}
	})
	o.Steps += res.Steps
	o.log(string(s.Doc), fmt.Sprint(s.Stages), fmt.Sprint(n))
	switch {
	case res.NoProgress:
		o.fail("no progress", "streaming did not end")
	case pv != nil:
		o.fail("panic", fmt.Sprint(pv))
	case err != nil:
		o.fail("unexpected error", err.Error())
	}
	return worst
}
