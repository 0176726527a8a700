package main

import (
	"fmt"

	"github.com/clipperhouse/jargon"
)

var derivations = []string{"where:all", "where:none", "where:nospace", "where:short", "where:nolemma", "words", "lemmas", "distinct"}

func init() {
	register(&Prop{
		ID: "C06", Quick: 400000, Thorough: 16000000,
		Rule: "one run = one pipeline (sometimes with a failing source, or one that carries on after its end) and one history of 3-60 calls of Next, Scan, Token, Err, ToSlice, String, Count, WriteTo and derivations on it and on its derived streams, checked call by call against a list model; non-trivial = at least two kinds of call, or calls after the end; distinct by hash of plan and observations",
		Gen: func(r *RNG, tier string) *Plan {
			p := &Plan{}
			s := StreamPlan{HTML: r.p(1, 5)}
			if r.p(1, 2) {
				s.Stages = p.genStages(r, 2)
			}
			g := newDocGen(r, s.HTML, p.phrases(r))
			n := r.between(0, 80)
			if r.p(1, 10) {
				n = r.between(100, 6000)
			}
			if n > 0 {
				s.Doc = g.fill(n)
			}
			s.Doc = overlong(r, s.Doc, s.HTML, 1500)
			s.Reads = readsOf(r, s.Doc)
			s.Reads.After = []string{"", "data", "err"}[r.n(3)]
			if r.p(1, 3) {
				addFailure(r, &s.Reads, s.Doc)
			}
			p.Streams = []StreamPlan{s}
			streams := 1
			for i := r.between(3, 60); i > 0; i-- {
				op := Op{S: r.n(streams)}
				switch k := r.n(40); {
				case k < 14:
					op.K = "next"
				case k < 22:
					op.K = "scan"
				case k < 27:
					op.K = "token"
				case k < 31:
					op.K = "err"
				case k < 36 && streams < 6:
					op.K = "derive"
					op.D = r.pick(derivations)
					streams++
				default:
					op.K = r.pick([]string{"string", "slice", "count", "writeto"})
					if r.p(2, 3) {
						op.K = "next"
					}
				}
				p.Ops = append(p.Ops, op)
			}
			if r.p(1, 2) {
				// run to the end by one path, then ask again by others
				p.Ops = append(p.Ops, Op{S: r.n(streams), K: r.pick([]string{"string", "slice", "count", "writeto", "drain"})})
				for i := r.between(1, 8); i > 0; i-- {
					p.Ops = append(p.Ops, Op{S: r.n(streams), K: r.pick([]string{"next", "scan", "token", "err", "string", "slice", "count", "writeto"})})
				}
			}
			return p
		},
		Run: runC06,
	})
	register(&Prop{
		ID: "C09", Quick: 100000, Thorough: 4000000,
		Rule: "one run = 2-5 streams over different documents and deliveries, sharing the same filter values, advanced one call at a time in a seeded order, some created late or abandoned, all tokens retained and examined again at the end; non-trivial = at least two streams were advanced alternately; distinct by hash of plan and tokens",
		Gen: func(r *RNG, tier string) *Plan {
			p := &Plan{}
			// shared stages
			pool := p.genStages(r, 4)
			for i := r.between(2, 5); i > 0; i-- {
				s := StreamPlan{HTML: r.p(1, 4)}
				for _, st := range pool {
					if r.p(2, 3) {
						s.Stages = append(s.Stages, st)
					}
				}
				g := newDocGen(r, s.HTML, p.phrases(r))
				n := r.between(1, 250)
				if r.p(1, 8) {
					n = r.between(4000, 9000)
				}
				s.Doc = g.fill(n)
				s.Reads = readsOf(r, s.Doc)
				if r.p(1, 6) {
					addFailure(r, &s.Reads, s.Doc)
				}
				p.Streams = append(p.Streams, s)
			}
			// the order of steps: bursts
			total := r.between(20, 200)
			for len(p.Ops) < total {
				k := r.n(len(p.Streams))
				burst := 1
				if r.p(1, 4) {
					burst = r.between(2, 20)
				}
				for ; burst > 0; burst-- {
					p.Ops = append(p.Ops, Op{S: k, K: []string{"next", "scan"}[r.n(2)]})
				}
			}
			return p
		},
		Run: runC09,
	})
}

// model of a stream in a history
type hstream struct {
	parent *hstream
	pred   func(Tok) bool
	// base stream only
	list []Tok
	pos  int
	err  bool // the list ends in an error

	last    *Tok
	lastErr bool
	pulled  bool // retrieved directly at least once
	fuzzy   bool // retrieved from through a derived stream since
	ended   bool
}

func (h *hstream) pull() (*Tok, bool) {
	if h.parent == nil {
		if h.pos < len(h.list) {
			t := h.list[h.pos]
			h.pos++
			return &t, false
		}
		h.ended = true
		return nil, h.err
	}
	for {
		t, e := h.parent.pull()
		h.parent.fuzzy = true
		if t == nil {
			h.ended = true
			return nil, e
		}
		if h.pred(*t) {
			return t, false
		}
	}
}

// retrieve is a direct retrieval
func (h *hstream) retrieve() (*Tok, bool) {
	t, e := h.pull()
	h.last, h.lastErr, h.pulled, h.fuzzy = t, e, true, false
	return t, e
}

func (h *hstream) rest() ([]Tok, bool) {
	var out []Tok
	for {
		t, e := h.retrieve()
		if t == nil {
			return out, e
		}
		out = append(out, *t)
	}
}

func derivePred(d string) func(Tok) bool {
	switch d {
	case "words":
		return func(t Tok) bool { return !t.P && !t.S }
	case "lemmas":
		return func(t Tok) bool { return t.L }
	case "distinct":
		seen := map[string]bool{}
		return func(t Tok) bool {
			if seen[t.V] {
				return false
			}
			seen[t.V] = true
			return true
		}
	}
	f := preds[d[6:]]
	return func(t Tok) bool { return f(t.V, t.P, t.S, t.L) }
}

func runC06(p *Plan, o *Outcome) {
	s := &p.Streams[0]
	if s.Reads.Fail > len(s.Doc) {
		s.Reads.Fail = len(s.Doc)
	}
	// Reference: the same pipeline and source, consumed by Next alone
	var ref []Tok
	var refErr error
	kinds := map[string]bool{}
	afterEnd := 0
	single(p, o, func() {
		ref, refErr = drain(s.open(newReader(s.Doc, s.Reads, nil), buildFilters(p.Filters)))
		if len(ref) > maxTokens {
			o.fail("no end", "the stream does not end")
			return
		}
		if (refErr != nil) != (s.Reads.Fail >= 0) && longest(s.modelBase(s.Doc)) < maxWord {
			o.fail("wrong end", fmt.Sprintf("failing source: %v, error at the end: %v", s.Reads.Fail >= 0, refErr))
			return
		}
		r := newReader(s.Doc, s.Reads, o)
		streams := []*jargon.TokenStream{s.open(r, buildFilters(p.Filters))}
		models := []*hstream{{list: ref, err: refErr != nil}}
		for i, op := range p.allOps() {
			if op.S >= len(streams) {
				continue
			}
			st, m := streams[op.S], models[op.S]
			kinds[op.K] = true
			if m.ended {
				afterEnd++
			}
			bad := func(format string, args ...interface{}) {
				o.fail("history", fmt.Sprintf("call %d (%s on stream %d): %s", i, op.K, op.S, fmt.Sprintf(format, args...)))
			}
			switch op.K {
			case "next":
				t, err := st.Next()
				wt, we := m.retrieve()
				checkTok(bad, t, err, wt, we)
			case "scan":
				ok := st.Scan()
				wt, we := m.retrieve()
				if ok != (wt != nil) {
					bad("Scan returned %v, expected %v", ok, wt != nil)
				}
				checkTok(bad, st.Token(), st.Err(), wt, we)
			case "token":
				if m.fuzzy {
					break
				}
				t := st.Token()
				if (t == nil) != (m.last == nil) {
					bad("Token is %v, expected %v", t, m.last)
				} else if t != nil && tokOf(t) != *m.last {
					bad("Token is %v, expected %v", tokOf(t), *m.last)
				}
			case "err":
				if m.fuzzy {
					break
				}
				if err := st.Err(); (err != nil) != m.lastErr {
					bad("Err is %v, expected an error: %v", err, m.lastErr)
				}
			case "drain":
				got, err := drain(st)
				want, we := m.rest()
				if !equalToks(got, want) {
					bad("%s", diffToks(got, want))
				}
				if (err != nil) != we {
					bad("ended with %v, expected an error: %v", err, we)
				}
			case "slice":
				ts, err := st.ToSlice()
				want, we := m.rest()
				if (err != nil) != we {
					bad("error %v, expected an error: %v", err, we)
				} else if !we {
					var got []Tok
					for _, t := range ts {
						got = append(got, tokOf(t))
					}
					if !equalToks(got, want) {
						bad("%s", diffToks(got, want))
					}
				}
			case "string":
				str, err := st.String()
				want, we := m.rest()
				if (err != nil) != we {
					bad("error %v, expected an error: %v", err, we)
				} else if !we && str != concat(want) {
					bad("%s", firstDiff(str, concat(want)))
				}
			case "count":
				n, err := st.Count()
				want, we := m.rest()
				if (err != nil) != we {
					bad("error %v, expected an error: %v", err, we)
				} else if !we && n != len(want) {
					bad("counted %d, expected %d", n, len(want))
				}
			case "writeto":
				w := &simWriter{pl: SinkPlan{Fail: -1}, o: o}
				n, err := st.WriteTo(w)
				want, we := m.rest()
				if (err != nil) != we {
					bad("error %v, expected an error: %v", err, we)
				}
				if string(w.got) != concat(want) || n != int64(len(w.got)) {
					bad("returned %d, %s", n, firstDiff(string(w.got), concat(want)))
				}
			case "derive":
				var d *jargon.TokenStream
				switch op.D {
				case "words":
					d = st.Words()
				case "lemmas":
					d = st.Lemmas()
				case "distinct":
					d = st.Distinct()
				default:
					d = where(op.D[6:])(st)
				}
				streams = append(streams, d)
				models = append(models, &hstream{parent: m, pred: derivePred(op.D)})
			}
			if o.Violation != "" {
				return
			}
		}
		if r.sawEnd {
			o.probe("source asked again after its end")
		}
	})
	o.log(string(s.Doc), fmt.Sprint(s.Reads, s.Stages, p.Ops), fmt.Sprint(ref, refErr))
	if afterEnd > 0 {
		o.Probes["calls after the end"] += afterEnd
	}
	o.Nontrivial = len(kinds) > 1 || afterEnd > 0
}

func checkTok(bad func(string, ...interface{}), t *jargon.Token, err error, wt *Tok, we bool) {
	switch {
	case we:
		if err == nil {
			bad("no error (token %v) after the source failed", t)
		} else if t != nil {
			bad("token %v together with error %v", tokOf(t), err)
		}
	case err != nil:
		bad("unexpected error %v", err)
	case wt == nil:
		if t != nil {
			bad("token %v after the end", tokOf(t))
		}
	case t == nil:
		bad("no token, expected %v", *wt)
	case tokOf(t) != *wt:
		bad("token %v, expected %v", tokOf(t), *wt)
	}
}

func runC09(p *Plan, o *Outcome) {
	type live struct {
		st   *jargon.TokenStream
		r    *simReader
		toks []*jargon.Token
		seen []Tok
		end  bool
		err  error
	}
	ls := make([]*live, len(p.Streams))
	alt, last := 0, -1
	var refs [][]Tok
	var refErrs []error
	single(p, o, func() {
		shared := buildFilters(p.Filters)
		for _, op := range p.allOps() {
			if op.S >= len(ls) {
				continue
			}
			l := ls[op.S]
			if l == nil {
				l = &live{r: newReader(p.Streams[op.S].Doc, p.Streams[op.S].Reads, o)}
				l.st = p.Streams[op.S].open(l.r, shared)
				ls[op.S] = l
			}
			if l.end {
				continue
			}
			if last >= 0 && last != op.S {
				alt++
			}
			last = op.S
			var t *jargon.Token
			var err error
			if op.K == "scan" {
				if l.st.Scan() {
					t = l.st.Token()
				} else {
					err = l.st.Err()
				}
			} else {
				t, err = l.st.Next()
			}
			if t == nil || err != nil {
				l.end, l.err = true, err
				continue
			}
			l.toks = append(l.toks, t)
			l.seen = append(l.seen, tokOf(t))
		}
		// what each would have given alone
		for i := range p.Streams {
			s := &p.Streams[i]
			ref, err := drain(s.open(newReader(s.Doc, s.Reads, nil), buildFilters(p.Filters)))
			refs = append(refs, ref)
			refErrs = append(refErrs, err)
		}
	})
	o.Nontrivial = alt > 1
	for i, l := range ls {
		if l == nil {
			continue
		}
		o.log(string(p.Streams[i].Doc), fmt.Sprint(p.Streams[i].Reads, p.Streams[i].Stages), fmt.Sprint(l.seen, l.end, l.err))
		if o.Violation != "" {
			continue
		}
		for k, t := range l.toks {
			if tokOf(t) != l.seen[k] {
				o.fail("token changed", fmt.Sprintf("token %d of stream %d was %v, now is %v", k, i, l.seen[k], tokOf(t)))
			}
		}
		switch {
		case !l.end && !prefixToks(l.seen, refs[i]):
			o.fail("interference", fmt.Sprintf("stream %d: %s", i, diffToks(l.seen, refs[i])))
		case l.end && !equalToks(l.seen, refs[i]):
			o.fail("interference", fmt.Sprintf("stream %d: %s", i, diffToks(l.seen, refs[i])))
		case l.end && (l.err != nil) != (refErrs[i] != nil):
			o.fail("interference", fmt.Sprintf("stream %d ended with %v, alone with %v", i, l.err, refErrs[i]))
		}
	}
	o.log(fmt.Sprint(p.Ops))
}
