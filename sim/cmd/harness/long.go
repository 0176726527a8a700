package main

import "verif.local/sim/simos"

// Long runs: the input is a short document many times over, megabytes in all

// longUnit is what is repeated, and how often
func longUnit(r *RNG, html bool, phrases []string, huge bool) (Bytes, int) {
	if r.p(1, 6) {
		// hundreds of thousands of different words
		unit := Bytes(" " + uniq)
		return unit, r.between(2<<20, 7<<19) / len(unit)
	}
	g := newDocGen(r, html, phrases)
	g.w[10] = 0 // nothing that swallows all the rest
	unit := g.fill(r.between(200, 4000))
	if r.p(1, 2) {
		unit = append(unit[:len(unit):len(unit)], " "+uniq+" "...)
	}
	if html {
		unit = append(unit, "<!-- --></script></style></textarea></title></noscript></iframe></xmp>"...)
	}
	unit = append(unit, " z\n"...)
	total := r.between(1<<20, 5<<19)
	switch {
	case huge && r.p(1, 12):
		total = r.between(10<<20, 20<<20)
	case r.p(1, 4):
		total = r.between(2<<20, 10<<20)
	}
	return unit, total/len(unit) + 1
}

func longReads(r *RNG) ReadPlan {
	pl := ReadPlan{Fail: -1, EOFWith: r.p(1, 3), Scribble: r.p(1, 3)}
	switch r.n(4) {
	case 0:
	case 1:
		pl.Sizes = []int{[]int{512, 1024, 4096, 4095, 32768}[r.n(5)]}
	default:
		for i := r.between(1, 6); i > 0; i-- {
			pl.Sizes = append(pl.Sizes, r.between(300, 9000))
		}
	}
	return pl
}

// longStream makes the runs of a property on one stream long
func longStream(gen func(r *RNG, tier string) *Plan) func(r *RNG, tier string) *Plan {
	return func(r *RNG, tier string) *Plan {
		p := gen(r, tier)
		s := &p.Streams[0]
		s.Custom, s.Toks = false, nil
		s.Doc, s.Rep = longUnit(r, s.HTML, p.phrases(r), p.Filters == nil && len(s.Stages) == 0)
		fail := s.Reads.Fail >= 0
		old := s.Reads
		s.Reads = longReads(r)
		n := len(s.Doc) * s.Rep
		if fail {
			s.Reads.Fail, s.Reads.FailWith, s.Reads.Err, s.Reads.After = n-r.n(n/3), old.FailWith, old.Err, old.After
		}
		if p.Sink != nil && p.Sink.Fail >= 0 {
			p.Sink.Fail = r.n(n)
		}
		return p
	}
}

func longCLI(r *RNG, tier string) *Plan {
	p := genCLI(r, tier, false)
	c := p.CLI
	w := parseCLI(c.Args)
	doc, rep := longUnit(r, w.html, nil, false)
	c.Rep = rep
	if w.in == "" && c.StdinKind == "file" && c.StdinPath != "" {
		w.in = c.StdinPath
	}
	if w.in != "" {
		c.Files[w.in] = doc
	} else {
		c.Stdin = doc
	}
	n := len(doc) * rep
	for _, f := range c.Faults {
		if f.Op == "read" || f.Op == "write" {
			f.At = int64(r.n(n))
		}
	}
	if r.p(1, 2) {
		c.Faults = []*simos.Fault{}
	}
	c.Reads = nil
	if r.p(1, 2) {
		c.Reads = []int{r.between(500, 9000)}
	}
	return p
}

func longWeb(r *RNG, tier string) *Plan {
	p := genC14(r, tier)
	p.Sched.Mode, p.Sched.Change = 0, nil
	p.Reqs = p.Reqs[:1]
	q := &p.Reqs[0]
	q.Method, q.WFail = "POST", -1
	html := r.p(1, 3)
	q.Path = "/text"
	if html {
		q.Path = "/html"
	}
	q.Body, q.Rep = longUnit(r, html, bigPhrases(r, "so"), false)
	q.Reads = longReads(r)
	n := len(q.Body) * q.Rep
	if r.p(1, 4) {
		addFailure(r, &q.Reads, q.Body)
		q.Reads.Fail = n - r.n(n/3)
	}
	return p
}

// longHistory makes the streams of a history long, and the history with them
func longHistory(gen func(r *RNG, tier string) *Plan) func(r *RNG, tier string) *Plan {
	return func(r *RNG, tier string) *Plan {
		p := gen(r, tier)
		for i := range p.Streams {
			s := &p.Streams[i]
			s.Custom, s.Toks = false, nil
			s.Doc, s.Rep = longUnit(r, s.HTML, p.phrases(r), false)
			s.Rep = s.Rep/len(p.Streams) + 1
			if len(p.Streams) == 1 && r.p(1, 4) {
				s.Doc, s.Rep, s.Stages = Bytes(" "+uniq), r.between(250000, 400000), nil
			}
			fail := s.Reads.Fail >= 0
			old := s.Reads
			s.Reads = longReads(r)
			n := len(s.Doc) * s.Rep
			if fail {
				s.Reads.Fail, s.Reads.FailWith, s.Reads.Err, s.Reads.After = n-r.n(n/3), old.FailWith, old.Err, old.After
			}
		}
		if string(p.Streams[0].Doc) == " "+uniq && len(p.Streams) == 1 {
			d := r.pick([]string{"distinct", "distinct", "distinct", "words"})
			p.Ops = append([]Op{{K: "derive", D: d}, {S: 1, K: r.pick([]string{"slice", "string", "count", "writeto", "drain"})}}, p.Ops...)
		}
		for i := range p.Ops {
			if i < 6 && len(p.Streams) == 1 && r.p(1, 8) {
				p.Ops[i].K = r.pick([]string{"slice", "slice", "string", "count", "writeto"})
			} else if k := p.Ops[i].K; (k == "next" || k == "scan") && r.p(1, 2) {
				p.Ops[i].N = 1 << r.n(13)
			}
		}
		return p
	}
}
