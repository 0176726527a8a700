package main

import (
	"encoding/json"
	"sync"
	"time"
)

// minimise makes the failing plan smaller as long as the same class of violation remains. Each candidate runs in a
// fresh process.
func (c *checker) minimise(rp *Replay) *Replay {
	if rp.Note != "" && rp.Prelude == nil {
		return rp // does not fail reliably
	}
	limit, evals, max := time.Now().Add(40*time.Second), 0, 500
	if c.pr.Race {
		limit = time.Now().Add(60 * time.Second)
	}
	// an explicit schedule instead of a seeded one
	if rp.Plan.Sched.Mode != 0 && rp.Plan.Sched.Mode != 3 {
		if o, err := c.eval(rp); err == nil && len(o.List) > 0 && len(o.List) < 20000 {
			q := *rp
			q.Plan = rp.Plan.clone()
			q.Plan.Sched = SchedPlan{Mode: 3, List: o.List}
			if o, err := c.eval(&q); err == nil && o.Violation == rp.Violation {
				q.Detail = o.Detail
				rp = &q
			}
		}
	}
	before := size(rp)
	for progress := true; progress && time.Now().Before(limit) && evals < max; {
		progress = false
		cands := candidates(rp)
		for k := 0; k < len(cands) && time.Now().Before(limit) && evals < max; k += c.workers {
			end := k + c.workers
			if end > len(cands) {
				end = len(cands)
			}
			type res struct {
				rp *Replay
				ok bool
			}
			out := make([]res, end-k)
			var wg sync.WaitGroup
			for j := k; j < end; j++ {
				wg.Add(1)
				go func(j int) {
					defer wg.Done()
					q := *rp
					q.Plan = rp.Plan.clone()
					q.Prelude = append([]*Plan{}, rp.Prelude...)
					if !cands[j](&q) {
						return
					}
					o, err := c.eval(&q)
					if err == nil && o.Violation == rp.Violation {
						q.Detail = o.Detail
						out[j-k] = res{&q, true}
					}
				}(j)
			}
			wg.Wait()
			evals += end - k
			best := -1
			for j := range out {
				if out[j].ok && (best < 0 || size(out[j].rp) < size(out[best].rp)) {
					best = j
				}
			}
			if best >= 0 && size(out[best].rp) < size(rp) {
				rp = out[best].rp
				progress = true
				break
			}
		}
	}
	c.logf("minimised from %d to %d bytes in %d evaluations", before, size(rp), evals)
	return rp
}

func size(rp *Replay) int {
	b, _ := json.Marshal(rp.Plan)
	n := len(b)
	// repetitions count as if written out, if less so
	for _, s := range rp.Plan.Streams {
		n += s.Rep
	}
	for _, q := range rp.Plan.Reqs {
		n += q.Rep
	}
	if rp.Plan.CLI != nil {
		n += rp.Plan.CLI.Rep
	}
	for _, p := range rp.Prelude {
		b, _ := json.Marshal(p)
		n += len(b)
	}
	return n
}

// cuts are the ranges to try to remove from something of length n, large ones first
func cuts(n int) [][2]int {
	var out [][2]int
	for size := n; size >= 1; size /= 2 {
		if n/size > 40 {
			break
		}
		for at := 0; at < n; at += size {
			end := at + size
			if end > n {
				end = n
			}
			out = append(out, [2]int{at, end})
		}
	}
	return out
}

// candidates are the ways to make a plan smaller; each returns false if it does not apply
func candidates(rp *Replay) []func(*Replay) bool {
	var out []func(*Replay) bool
	add := func(f func(p *Plan) bool) {
		out = append(out, func(r *Replay) bool { return f(r.Plan) })
	}
	p := rp.Plan
	for _, c := range cuts(len(rp.Prelude)) {
		c := c
		out = append(out, func(r *Replay) bool {
			r.Prelude = append(append([]*Plan{}, r.Prelude[:c[0]]...), r.Prelude[c[1]:]...)
			return true
		})
	}
	for i := range p.Streams {
		i := i
		if len(p.Streams) > 1 {
			add(func(p *Plan) bool {
				p.Streams = append(p.Streams[:i], p.Streams[i+1:]...)
				var ops []Op
				for _, o := range p.Ops {
					if o.S == i {
						continue
					}
					if o.S > i {
						o.S--
					}
					ops = append(ops, o)
				}
				p.Ops = ops
				return true
			})
		}
	}
	for _, c := range cuts(len(p.Ops)) {
		c := c
		add(func(p *Plan) bool { p.Ops = append(p.Ops[:c[0]], p.Ops[c[1]:]...); return true })
	}
	for i := range p.Reqs {
		i := i
		if len(p.Reqs) > 1 {
			add(func(p *Plan) bool { p.Reqs = append(p.Reqs[:i], p.Reqs[i+1:]...); return true })
		}
	}
	for _, c := range cuts(len(p.Sched.List)) {
		c := c
		add(func(p *Plan) bool { p.Sched.List = append(p.Sched.List[:c[0]], p.Sched.List[c[1]:]...); return true })
	}
	for i := range p.Streams {
		i := i
		s := p.Streams[i]
		for k := range s.Stages {
			k := k
			add(func(p *Plan) bool {
				s := &p.Streams[i]
				s.Stages = append(s.Stages[:k], s.Stages[k+1:]...)
				return true
			})
		}
		for _, c := range cuts(len(s.Doc)) {
			c := c
			add(func(p *Plan) bool {
				s := &p.Streams[i]
				if p.Kind == "memory" && c[1]-c[0] == len(s.Doc) {
					return false
				}
				s.Doc = cutBytes(s.Doc, c, &s.Reads)
				return true
			})
		}
		for _, c := range cuts(len(s.Toks)) {
			c := c
			add(func(p *Plan) bool {
				s := &p.Streams[i]
				s.Toks = append(s.Toks[:c[0]], s.Toks[c[1]:]...)
				return true
			})
		}
		for _, f := range readCands(s.Reads) {
			f := f
			add(func(p *Plan) bool { return f(&p.Streams[i].Reads) })
		}
	}
	for i := range p.Reqs {
		i := i
		for _, c := range cuts(len(p.Reqs[i].Body)) {
			c := c
			add(func(p *Plan) bool {
				q := &p.Reqs[i]
				q.Body = cutBytes(q.Body, c, &q.Reads)
				return true
			})
		}
		for _, f := range readCands(p.Reqs[i].Reads) {
			f := f
			add(func(p *Plan) bool { return f(&p.Reqs[i].Reads) })
		}
	}
	for i := range p.Filters {
		i := i
		for _, c := range cuts(len(p.Filters[i].Map)) {
			c := c
			add(func(p *Plan) bool {
				f := &p.Filters[i]
				f.Map = append(f.Map[:c[0]], f.Map[c[1]:]...)
				return true
			})
		}
		for _, c := range cuts(len(p.Filters[i].Words)) {
			c := c
			add(func(p *Plan) bool {
				f := &p.Filters[i]
				f.Words = append(f.Words[:c[0]], f.Words[c[1]:]...)
				return true
			})
		}
		if i == len(p.Filters)-1 {
			used := false
			for _, s := range p.Streams {
				for _, st := range s.Stages {
					used = used || st.K == "f" && st.F == i
				}
			}
			if !used && p.Prop != "C08" && p.Prop != "C15" {
				add(func(p *Plan) bool { p.Filters = p.Filters[:i]; return true })
			}
		}
	}
	for _, k := range []int{2, 4, 8, 16} {
		k := k
		less := func(n *int) bool {
			d := *n / k
			*n -= d
			return d > 0
		}
		for i := range p.Streams {
			i := i
			if p.Streams[i].Rep > 1 {
				add(func(p *Plan) bool { return less(&p.Streams[i].Rep) })
			}
		}
		for i := range p.Reqs {
			i := i
			if p.Reqs[i].Rep > 1 {
				add(func(p *Plan) bool { return less(&p.Reqs[i].Rep) })
			}
		}
		if p.CLI != nil && p.CLI.Rep > 1 {
			add(func(p *Plan) bool { return less(&p.CLI.Rep) })
		}
	}
	for _, c := range cuts(len(p.MapAlt)) {
		c := c
		add(func(p *Plan) bool { p.MapAlt = append(p.MapAlt[:c[0]], p.MapAlt[c[1]:]...); return true })
	}
	if p.MapSeed != 0 {
		add(func(p *Plan) bool { p.MapSeed = 0; return true })
	}
	if p.CLI != nil {
		for i := range p.CLI.Faults {
			i := i
			add(func(p *Plan) bool {
				p.CLI.Faults = append(p.CLI.Faults[:i], p.CLI.Faults[i+1:]...)
				return true
			})
		}
		add(func(p *Plan) bool { p.CLI.Reads = nil; return true })
		add(func(p *Plan) bool { p.CLI.Kinds = nil; return true })
		add(func(p *Plan) bool { p.CLI.Links = nil; return true })
		for _, c := range cuts(len(p.CLI.Stdin)) {
			c := c
			add(func(p *Plan) bool { p.CLI.Stdin = append(p.CLI.Stdin[:c[0]], p.CLI.Stdin[c[1]:]...); return true })
		}
		for name, d := range p.CLI.Files {
			name := name
			for _, c := range cuts(len(d)) {
				c := c
				add(func(p *Plan) bool {
					d := p.CLI.Files[name]
					p.CLI.Files[name] = append(d[:c[0]], d[c[1]:]...)
					return true
				})
			}
			add(func(p *Plan) bool { delete(p.CLI.Files, name); return true })
		}
		for i, a := range p.CLI.Args {
			i := i
			if a == "-file" || a == "-out" || a == "-lang" {
				continue
			}
			if i > 0 && (p.CLI.Args[i-1] == "-file" || p.CLI.Args[i-1] == "-out" || p.CLI.Args[i-1] == "-lang") {
				continue
			}
			add(func(p *Plan) bool { p.CLI.Args = append(p.CLI.Args[:i], p.CLI.Args[i+1:]...); return true })
		}
	}
	if p.Gen != nil {
		for _, c := range cuts(len(p.Gen.Pages)) {
			c := c
			add(func(p *Plan) bool {
				p.Gen.Pages = append(p.Gen.Pages[:c[0]], p.Gen.Pages[c[1]:]...)
				if n := len(p.Gen.Pages); n > 0 {
					p.Gen.Pages[n-1].HasMore = false
				}
				return len(p.Gen.Pages) > 0
			})
		}
		for i := range p.Gen.Pages {
			i := i
			for _, c := range cuts(len(p.Gen.Pages[i].Tags)) {
				c := c
				add(func(p *Plan) bool {
					g := &p.Gen.Pages[i]
					g.Tags = append(g.Tags[:c[0]], g.Tags[c[1]:]...)
					return len(g.Tags) > 0
				})
			}
			add(func(p *Plan) bool { p.Gen.Pages[i].DelayMS = 0; return true })
			add(func(p *Plan) bool { p.Gen.Pages[i].Backoff = 0; return true })
		}
		for i := range p.Gen.Faults {
			i := i
			add(func(p *Plan) bool {
				p.Gen.Faults = append(p.Gen.Faults[:i], p.Gen.Faults[i+1:]...)
				return true
			})
		}
		for _, c := range cuts(len(p.Gen.Names)) {
			c := c
			add(func(p *Plan) bool {
				p.Gen.Names = append(p.Gen.Names[:c[0]], p.Gen.Names[c[1]:]...)
				return len(p.Gen.Names) > 0
			})
		}
	}
	return out
}

func cutBytes(d Bytes, c [2]int, r *ReadPlan) Bytes {
	if r.Fail >= 0 {
		switch {
		case r.Fail >= c[1]:
			r.Fail -= c[1] - c[0]
		case r.Fail > c[0]:
			r.Fail = c[0]
		}
	}
	return append(d[:c[0]], d[c[1]:]...)
}

func readCands(r ReadPlan) []func(*ReadPlan) bool {
	var out []func(*ReadPlan) bool
	if len(r.Sizes) > 0 {
		out = append(out, func(r *ReadPlan) bool { r.Sizes = nil; return true })
		if len(r.Sizes) > 1 {
			out = append(out, func(r *ReadPlan) bool { r.Sizes = []int{1}; return true })
			for _, c := range cuts(len(r.Sizes)) {
				c := c
				if c[1]-c[0] == len(r.Sizes) {
					continue
				}
				out = append(out, func(r *ReadPlan) bool { r.Sizes = append(r.Sizes[:c[0]], r.Sizes[c[1]:]...); return true })
			}
		}
	}
	if r.EOFWith {
		out = append(out, func(r *ReadPlan) bool { r.EOFWith = false; return true })
	}
	if r.Wrap != "" {
		out = append(out, func(r *ReadPlan) bool { r.Wrap = ""; return true })
	}
	if r.Scribble {
		out = append(out, func(r *ReadPlan) bool { r.Scribble = false; return true })
	}
	if r.FailWith {
		out = append(out, func(r *ReadPlan) bool { r.FailWith = false; return true })
	}
	if r.After != "" {
		out = append(out, func(r *ReadPlan) bool { r.After = ""; return true })
	}
	return out
}
