package main

import (
	"fmt"
	"html"
	"io"
	"log"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/clipperhouse/jargon"
	web "github.com/clipperhouse/jargon/web"
	"verif.local/sim/simhttp"
	"verif.local/sim/simrt"
	"verif.local/sim/simsync"
)

// concurrent runs fns as tasks, and turns panics, deadlocks and endless loops into violations
func concurrent(p *Plan, o *Outcome, fns []func()) {
	simrt.MapSeed = p.MapSeed
	res, ps := simrt.Run(p.Sched.config(stepCap(p)), fns)
	o.Steps += res.Steps
	o.Switches += res.Switches
	o.Sched = hashInt(o.Sched, res.Hash)
	o.List = res.List
	switch {
	case res.NoProgress:
		o.fail("no progress", fmt.Sprintf("no end after %d steps", res.Steps))
	case res.Deadlock:
		o.fail("deadlock", "all tasks wait for each other")
	}
	for i, v := range ps {
		if v != nil && !simrt.IsAbort(v) {
			o.fail("panic", fmt.Sprintf("task %d: %v", i, v))
		}
	}
}

// merge what a task observed
func (o *Outcome) merge(t *Outcome) {
	t.settle()
	for k, n := range t.Faults {
		o.Faults[k] += n
	}
	for k, n := range t.Probes {
		o.Probes[k] += n
	}
}

// warm builds the shipped dictionaries, so that a run does not depend on the runs before it
var warmed bool

func warm() {
	if warmed {
		return
	}
	warmed = true
	for _, n := range []string{"so", "nba"} {
		drain(named[n](jargon.TokenizeString("x")))
	}
}

func genSmallStream(r *RNG, p *Plan, pool []Stage, max int) StreamPlan {
	s := StreamPlan{HTML: r.p(1, 5), Use: r.pick([]string{"next", "next", "scan", "slice", "string", "writeto", "count"})}
	for _, st := range pool {
		if r.p(3, 4) {
			s.Stages = append(s.Stages, st)
		}
	}
	g := newDocGen(r, s.HTML, p.phrases(r))
	s.Doc = g.fill(r.between(1, max))
	s.Reads = readsOf(r, s.Doc)
	if r.p(1, 8) {
		addFailure(r, &s.Reads, s.Doc)
	}
	return s
}

func init() {
	register(&Prop{
		ID: "C08", Race: true, Quick: 30000, Thorough: 1500000, Cold: 48,
		Rule: "one run = 2-5 tasks, each filtering its own document through filters shared with the others and not yet built, under one seeded schedule (random or priority-based preemption at statement level), with the race detector on; then each alone with filters of its own; additional runs in fresh processes use the shipped dictionaries; non-trivial = tasks were preempted at least twice; distinct by hash of plan, interleaving and tokens",
		Gen: func(r *RNG, tier string) *Plan {
			p := &Plan{Sched: genSched(r)}
			var pool []Stage
			for i := r.between(1, 3); i > 0; i-- {
				if r.p(1, 2) {
					p.Filters = append(p.Filters, genSyn(r, false))
					pool = append(pool, Stage{K: "f", F: len(p.Filters) - 1})
				} else {
					pool = append(pool, p.genStage(r))
				}
			}
			for i := r.between(2, 5); i > 0; i-- {
				p.Streams = append(p.Streams, genSmallStream(r, p, pool, 120))
			}
			return p
		},
		GenCold: func(r *RNG, tier string) *Plan {
			p := &Plan{Kind: "shipped", Sched: genSched(r)}
			if p.Sched.Mode == 2 {
				for i := range p.Sched.Change {
					p.Sched.Change[i] *= 40
				}
			}
			name := []string{"so", "nba"}[r.n(2)]
			for i := r.between(2, 4); i > 0; i-- {
				s := StreamPlan{Use: "next", Stages: []Stage{{K: name}}}
				s.Doc = newDocGen(r, false, bigPhrases(r, name)).fill(r.between(10, 150))
				s.Reads = readsOf(r, s.Doc)
				p.Streams = append(p.Streams, s)
			}
			return p
		},
		Run: runC08,
	})
	register(&Prop{
		ID: "C15", Race: true, Quick: 5000, Thorough: 250000,
		Rule: "one run = one filter whose dictionary holds a word too long to be tokenised, applied 2-6 times, one after the other or by concurrent tasks under a seeded schedule (race detector on), alone or within a chain; non-trivial = at least two uses; distinct by hash of plan, interleaving and results",
		Gen: func(r *RNG, tier string) *Plan {
			p := &Plan{Kind: []string{"sequential", "concurrent", "concurrent"}[r.n(3)], Sched: genSched(r)}
			f := genSyn(r, false)
			f.Huge = 70000
			f.HugeChar = r.pick([]string{"h", "h", "0", "z", "é"})
			switch r.n(5) {
			case 0:
				f.HugePre = "alpha, "
			case 1:
				f.HugePost = ", omega"
			case 2:
				f.HugePre, f.HugePost = "alpha, ", ", omega"
			case 3:
				f.HugePre = "two "
			}
			p.Filters = append(p.Filters, f)
			for i := r.between(2, 6); i > 0; i-- {
				var pool []Stage
				if r.p(1, 3) {
					pool = append(pool, p.genStage(r))
				}
				s := genSmallStream(r, p, pool, 80)
				s.Reads.Fail = -1
				k := r.n(len(s.Stages) + 1)
				s.Stages = append(append(append([]Stage{}, s.Stages[:k]...), Stage{K: "f", F: 0}), s.Stages[k:]...)
				p.Streams = append(p.Streams, s)
			}
			return p
		},
		Run: runC15,
	})
	register(&Prop{
		ID: "C14", Race: true, Quick: 8000, Thorough: 400000, Cold: 16,
		Rule: "one run = 1-5 requests to the web service's real handler (different routes, methods, bodies, deliveries; bodies that fail midway, clients that go away), handled by concurrent tasks under a seeded schedule with the race detector on; each response compared with the escaped tokens of its own body; non-trivial = at least one text or html request with a body; distinct by hash of requests, interleaving and responses",
		Gen:  genC14,
		GenCold: func(r *RNG, tier string) *Plan {
			p := genC14(r, tier)
			return p
		},
		Run: runC14,
	})
}

func runC08(p *Plan, o *Outcome) {
	if !p.Cold {
		warm()
	}
	shared := buildFilters(p.Filters)
	n := len(p.Streams)
	res := make([]result, n)
	outs := make([]*Outcome, n)
	fns := make([]func(), n)
	for i := range p.Streams {
		i := i
		s := &p.Streams[i]
		outs[i] = newOutcome()
		r := newReader(s.Doc, s.Reads, outs[i])
		fns[i] = func() { res[i] = consume(s.open(r, shared), s.Use, nil) }
	}
	concurrent(p, o, fns)
	o.Nontrivial = o.Switches > n+1
	for i := range outs {
		o.merge(outs[i])
		o.log(string(p.Streams[i].Doc), fmt.Sprint(p.Streams[i].Reads, p.Streams[i].Stages), res[i].str, fmt.Sprint(res[i].toks, res[i].n, res[i].err))
	}
	o.log(fmt.Sprint(p.Filters), fmt.Sprint(o.Sched))
	if o.Violation != "" {
		return
	}
	// each alone, with filters of its own
	want := make([]result, n)
	single(p, o, func() {
		for i := range p.Streams {
			s := &p.Streams[i]
			want[i] = consume(s.open(newReader(s.Doc, s.Reads, nil), buildFilters(p.Filters)), s.Use, nil)
		}
	})
	for i := range p.Streams {
		s := &p.Streams[i]
		if p.Kind == "shipped" && len(s.Stages) == 1 {
			// what was built concurrently cannot be built again; use the reference
			d := big(s.Stages[0].K)
			if d == nil {
				continue
			}
			d.model.touched = false
			t := d.model.apply(s.modelBase(s.Doc))
			if d.model.touched {
				continue
			}
			want[i] = result{toks: t, str: concat(t), n: int64(len(t)), hasT: true, hasS: true, hasN: true}
		}
		compareResults(o, i, res[i], want[i])
	}
}

func compareResults(o *Outcome, i int, got, want result) {
	switch {
	case got.extra != "":
		o.fail("inconsistent result", fmt.Sprintf("task %d: %s", i, got.extra))
	case (got.err != nil) != (want.err != nil):
		o.fail("interference", fmt.Sprintf("task %d: error %v, alone %v", i, got.err, want.err))
	case got.hasT && !equalToks(got.toks, want.toks):
		o.fail("interference", fmt.Sprintf("task %d: %s", i, diffToks(got.toks, want.toks)))
	case got.hasS && got.err == nil && got.str != want.str:
		o.fail("interference", fmt.Sprintf("task %d: %s", i, firstDiff(got.str, want.str)))
	case got.hasN && got.err == nil && got.n != want.n:
		o.fail("interference", fmt.Sprintf("task %d: counted %d, alone %d", i, got.n, want.n))
	}
}

func runC15(p *Plan, o *Outcome) {
	warm()
	shared := buildFilters(p.Filters)
	n := len(p.Streams)
	res := make([]result, n)
	outs := make([]*Outcome, n)
	after := make([]string, n)
	var fns []func()
	for i := range p.Streams {
		i := i
		s := &p.Streams[i]
		outs[i] = newOutcome()
		r := newReader(s.Doc, s.Reads, outs[i])
		fns = append(fns, func() {
			st := s.open(r, shared)
			res[i] = consume(st, s.Use, nil)
			for k := 0; k < 3; k++ {
				if k%2 == 0 {
					t, err := st.Next()
					if t != nil || err == nil {
						after[i] = fmt.Sprintf("once the error had been reported, Next returned %v, %v", t, err)
					}
				} else if st.Scan() || st.Err() == nil {
					after[i] = fmt.Sprintf("once the error had been reported, Scan went on: %v, %v", st.Token(), st.Err())
				}
			}
		})
	}
	if p.Kind == "sequential" {
		single(p, o, func() {
			for _, f := range fns {
				f()
			}
		})
	} else {
		concurrent(p, o, fns)
	}
	o.Nontrivial = n > 1
	failed := 0
	for i := range outs {
		o.merge(outs[i])
		o.log(string(p.Streams[i].Doc), fmt.Sprint(p.Streams[i].Reads, p.Streams[i].Stages), res[i].str, fmt.Sprint(res[i].toks, res[i].n, res[i].err))
		if res[i].err != nil {
			failed++
		}
	}
	o.log(fmt.Sprint(p.Filters), fmt.Sprint(o.Sched))
	if o.Violation != "" {
		return
	}
	if failed > 0 {
		o.fault("dictionary build fails")
	}
	if _, err := jargon.TokenizeString(p.Filters[0].hugeKey()).ToSlice(); err == nil {
		o.probe("overlong dictionary entry accepted")
		return // it can be built; C10 judges what it does
	}
	for i := range p.Streams {
		uses := false
		for _, st := range p.Streams[i].Stages {
			uses = uses || st.K == "f" && st.F == 0
		}
		if !uses {
			continue
		}
		switch {
		case res[i].err == nil:
			o.fail("build failure forgotten", fmt.Sprintf("use %d (%s) of %d gave no error (%d tokens, %q)", i, p.Streams[i].Use, n, len(res[i].toks), clip(res[i].str)))
		case len(res[i].toks) > 0 || res[i].str != "":
			o.fail("passed through", fmt.Sprintf("use %d gave %d tokens %q before the error", i, len(res[i].toks), clip(res[i].str)))
		case after[i] != "":
			o.fail("build failure forgotten", fmt.Sprintf("use %d: %s", i, after[i]))
		}
	}
}

func clip(s string) string {
	if len(s) > 80 {
		return s[:80] + "..."
	}
	return s
}

// ---- the web service

var webHandler http.Handler

func bootWeb(o *Outcome) {
	log.SetOutput(io.Discard)
	http.DefaultServeMux = http.NewServeMux()
	simhttp.Captured = nil
	// main may do other things besides; it is left once it is serving
	_, v := simrt.Single(simrt.Config{Seed: 1, StepCap: 1e7, Process: true}, web.VerifMain)
	if _, ok := v.(simhttp.Serving); !ok && v != nil && !simrt.IsAbort(v) {
		o.fail("panic", fmt.Sprint("starting the service: ", v))
	}
	webHandler = simhttp.Captured
	if webHandler == nil && o.Violation == "" {
		o.fail("not serving", "the service does not listen")
	}
}

func genC14(r *RNG, tier string) *Plan {
	p := &Plan{Sched: genSched(r)}
	ph := append(bigPhrases(r, "so"), atomXSS...)
	n := r.between(1, 5)
	for i := 0; i < n; i++ {
		q := ReqPlan{Method: "POST", WFail: -1}
		switch r.n(12) {
		case 0, 1, 2, 3, 4:
			q.Path = r.pick([]string{"/text", "/text/", "/text/x", "/text"})
		case 5, 6, 7, 8:
			q.Path = r.pick([]string{"/html", "/html/", "/html/a/b"})
		case 9:
			q.Path = r.pick([]string{"/", "/foo", "/textual", "/TEXT", "/_ah", "/favicon.ico", "/a/text", "/Html", "/texthtml"})
		case 10:
			q.Path = "/_ah/health"
		default:
			q.Path = "/text"
			q.Method = "OPTIONS"
		}
		if r.p(1, 8) {
			q.Method = r.pick([]string{"GET", "PUT", "OPTIONS", "DELETE"})
		}
		g := newDocGen(r, strings.HasPrefix(q.Path, "/html"), ph)
		n := r.between(0, 200)
		if r.p(1, 12) {
			n = r.between(1500, 6000)
		}
		if r.p(1, 40) {
			n = r.between(20000, 150000)
		}
		if n > 0 {
			q.Body = g.fill(n)
		}
		if r.p(1, 25) {
			q.Body = Bytes(strings.Repeat(r.pick([]string{"C# ", "js,", "\"", "<&>", "c++ ", "rb ", "'", "ror js ", "a ", r.pick(ph) + " "}), r.between(5, 300)))
		}
		q.Body = overlong(r, q.Body, strings.HasPrefix(q.Path, "/html"), 400)
		q.Reads = readsOf(r, q.Body)
		q.Len = r.p(1, 2)
		if r.p(1, 3) {
			q.CT = r.pick([]string{"text/plain", "text/html; charset=utf-8", "application/x-www-form-urlencoded", "application/json", "multipart/form-data; boundary=x"})
		}
		if r.p(1, 8) {
			q.Query = r.pick([]string{"a=b", "text=x", "q=%zz", "?", "lines=1&count"})
		}
		if r.p(1, 4) {
			addFailure(r, &q.Reads, q.Body)
		}
		if r.p(1, 10) {
			q.WFail = r.n(200)
		}
		p.Reqs = append(p.Reqs, q)
	}
	return p
}

type simBody struct {
	*simReader
	mu     simsync.Mutex // net/http's has one, too
	closed bool

	declared bool // the length was announced, and is what will be delivered

	cut bool // a response was flushed: the server reads no more
}

func (b *simBody) Read(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.closed || b.cut {
		return 0, http.ErrBodyReadAfterClose
	}
	return b.simReader.Read(p)
}

func (b *simBody) Close() error {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.closed = true
	return nil
}

// simResponse behaves like net/http's: the header is fixed by the first write, 2048 bytes are buffered, and once they
// are sent the rest of the request body is not available any more
type simResponse struct {
	hdr    http.Header
	sent   http.Header
	status int
	out    []byte
	fail   int
	body   *simBody
	early  string
	o      *Outcome
}

func (w *simResponse) Header() http.Header { return w.hdr }

func (w *simResponse) WriteHeader(code int) {
	simrt.IO()
	if w.status != 0 {
		return
	}
	if code < 200 {
		return
	}
	w.status = code
	w.sent = w.hdr.Clone()
}

func (w *simResponse) flushed() {
	if w.body == nil {
		return
	}
	w.body.mu.Lock()
	defer w.body.mu.Unlock()
	if w.body.declared && w.body.pos == len(w.body.doc) {
		return // all that was announced has been read
	}
	if !w.body.ended && !w.body.closed && !w.body.cut {
		w.early = fmt.Sprintf("%d bytes were sent when %d of %d body bytes had been read", len(w.out), w.body.pos, len(w.body.doc))
		w.body.cut = true
	}
}

// Flush implements http.Flusher
func (w *simResponse) Flush() {
	simrt.IO()
	if w.status == 0 {
		w.WriteHeader(200)
	}
	w.flushed()
}

func (w *simResponse) Write(p []byte) (int, error) {
	simrt.IO()
	if w.status == 0 {
		w.WriteHeader(200)
	}
	if w.fail >= 0 && len(w.out)+len(p) > w.fail {
		n := w.fail - len(w.out)
		if n < 0 {
			n = 0
		}
		w.out = append(w.out, p[:n]...)
		w.o.fault("client gone")
		return n, ioErrs["EPIPE"]
	}
	w.out = append(w.out, p...)
	if len(w.out) > 2048 {
		w.flushed()
	}
	return len(p), nil
}

// matchEscaped matches s as escaped text at the start of out and returns what follows
func matchEscaped(s, out string) (string, bool) {
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		raw := s[:n]
		s = s[n:]
		if out == "" {
			return "", false
		}
		if strings.HasPrefix(out, raw) && !strings.ContainsAny(raw, "<>&") {
			out = out[n:]
			continue
		}
		if (r == utf8.RuneError && n == 1 || r == 0) && strings.HasPrefix(out, "\ufffd") {
			out = out[3:]
			continue
		}
		if out[0] != '&' {
			return out, false
		}
		k := strings.IndexByte(out, ';')
		if k < 0 || k > 12 || html.UnescapeString(out[:k+1]) != string(r) {
			return out, false
		}
		out = out[k+1:]
	}
	return out, true
}

func matchResponse(toks []Tok, out string) string {
	all := out
	for i, t := range toks {
		ok := true
		if t.L {
			const open = `<span class="lemma">`
			if !strings.HasPrefix(out, open) {
				return fmt.Sprintf("token %d %v: no lemma span at byte %d: %q", i, t, len(all)-len(out), clip(out))
			}
			out = out[len(open):]
		}
		if out, ok = matchEscaped(t.V, out); !ok {
			return fmt.Sprintf("token %d %v is not what follows at byte %d: %q", i, t, len(all)-len(out), clip(out))
		}
		if t.L {
			if !strings.HasPrefix(out, "</span>") {
				return fmt.Sprintf("token %d %v: lemma span not closed at byte %d: %q", i, t, len(all)-len(out), clip(out))
			}
			out = out[len("</span>"):]
		}
	}
	if out != "" {
		return fmt.Sprintf("%d bytes more than the tokens: %q", len(out), clip(out))
	}
	return ""
}

func runC14(p *Plan, o *Outcome) {
	if !p.Cold {
		warm()
	}
	bootWeb(o)
	if o.Violation != "" {
		return
	}
	n := len(p.Reqs)
	ws := make([]*simResponse, n)
	outs := make([]*Outcome, n)
	var fns []func()
	for i := range p.Reqs {
		i := i
		q := &p.Reqs[i]
		outs[i] = newOutcome()
		b := &simBody{simReader: newReader(q.Body, q.Reads, outs[i])}
		if q.Len && (q.Reads.Fail < 0 || q.Reads.Fail < len(q.Body)) {
			// Like net/http, which ends the body with its last byte
			b.declared = true
			b.pl.EOFWith = true
		}
		ws[i] = &simResponse{hdr: http.Header{}, fail: q.WFail, body: b, o: outs[i]}
		fns = append(fns, func() {
			req := &http.Request{Method: q.Method, URL: &url.URL{Path: q.Path}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: b, ContentLength: -1, Host: "localhost", RequestURI: q.Path, RemoteAddr: "192.0.2.1:1234"}
			if b.declared {
				req.ContentLength = int64(len(q.Body))
				req.Header.Set("Content-Length", strconv.Itoa(len(q.Body)))
			}
			if q.CT != "" {
				req.Header.Set("Content-Type", q.CT)
			}
			if q.Query != "" {
				req.URL.RawQuery = q.Query
				req.RequestURI += "?" + q.Query
			}
			webHandler.ServeHTTP(ws[i], req)
			if ws[i].status == 0 {
				ws[i].WriteHeader(200)
			}
			b.Close()
		})
	}
	concurrent(p, o, fns)
	for i := range outs {
		o.merge(outs[i])
		o.log(fmt.Sprint(p.Reqs[i].Method, p.Reqs[i].Path, p.Reqs[i].Reads), string(p.Reqs[i].Body), fmt.Sprint(ws[i].status), string(ws[i].out))
	}
	o.log(fmt.Sprint(o.Sched))
	if o.Violation != "" {
		return
	}
	refs, errs := make([][]Tok, n), make([]error, n)
	single(p, o, func() {
		for i := range p.Reqs {
			s := StreamPlan{HTML: strings.HasPrefix(p.Reqs[i].Path, "/html"), Stages: []Stage{{K: "so"}}}
			refs[i], errs[i] = s.oneShot(p.Reqs[i].Body, nil)
		}
	})
	for i := range p.Reqs {
		q, w := &p.Reqs[i], ws[i]
		bad := func(class, format string, args ...interface{}) {
			o.fail(class, fmt.Sprintf("request %d (%s %s): %s", i, q.Method, q.Path, fmt.Sprintf(format, args...)))
		}
		if w.sent.Get("Access-Control-Allow-Origin") != "*" || w.sent.Get("Access-Control-Allow-Headers") == "" {
			bad("CORS headers", "headers %v", w.sent)
		}
		parts := strings.Split(q.Path, "/")
		switch {
		case q.Path == "/_ah/health":
			if w.status != 200 || q.Method != "OPTIONS" && q.WFail < 0 && string(w.out) != "ok" {
				bad("health check", "status %d, %q", w.status, clip(string(w.out)))
			}
		case q.Method == "OPTIONS":
			if w.status < 200 || w.status > 299 || len(w.out) > 0 {
				bad("OPTIONS", "status %d, %q", w.status, clip(string(w.out)))
			}
		case parts[1] != "text" && parts[1] != "html":
			if w.status != 404 {
				bad("routing", "status %d", w.status)
			}
		default:
			o.Nontrivial = o.Nontrivial || len(q.Body) > 0
			failing := q.Reads.Fail >= 0 && q.Reads.Fail <= len(q.Body)
			s := StreamPlan{HTML: parts[1] == "html"}
			if longest(s.modelBase(q.Body)) >= maxWord && (w.status >= 500 || errs[i] != nil) {
				o.probe("overlong word")
				if w.status < 500 {
					bad("failure reported as success", "the body cannot be tokenized (%v), status %d with %d bytes", errs[i], w.status, len(w.out))
				}
				continue
			}
			if w.early != "" {
				bad("sent early", "%s", w.early)
				continue
			}
			switch {
			case failing:
				if w.status < 500 {
					bad("failure reported as success", "the body failed after %d of %d bytes, status %d with %d bytes", q.Reads.Fail, len(q.Body), w.status, len(w.out))
				}
			case w.status < 200 || w.status > 299:
				bad("unexpected status", "%d", w.status)
			case q.WFail >= 0 && q.WFail <= len(w.out):
				// the client has gone away; it got a prefix
			default:
				if why := matchResponse(refs[i], string(w.out)); why != "" {
					bad("response", "%s", why)
				}
			}
		}
	}
}
