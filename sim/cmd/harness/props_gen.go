package main

import (
	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/synonyms/trie"

	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"html"
	"io"
	"net"
	"net/http"
	"os"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	congen "github.com/clipperhouse/jargon/filters/contractions/generate"
	nbagen "github.com/clipperhouse/jargon/filters/nba/generate"
	sogen "github.com/clipperhouse/jargon/filters/stackoverflow/generate"
	"verif.local/sim/simhttp"
	"verif.local/sim/simos"
	"verif.local/sim/simrt"
)

const generatedFile = "generated.go"

// Faults of the simulated server. Those in fetchFaults break a fetch for good.
var soFaults = []string{"refused", "reset", "dns", "stall", "stall body", "drip", "broken body", "cut", "empty", "garbage", "status", "api error", "backoff"}
var nbaFaults = []string{"refused", "reset", "dns", "broken body", "status", "no players", "bad name"}

type netRequest struct {
	at, done time.Duration // since the start; done: when the answer was handed over (headers), or failed
	page     int
	url      string
	fault    string
}

// simNet is the network: a RoundTripper on the simulated clock
type simNet struct {
	g     *GenPlan
	o     *Outcome
	start time.Time
	reqs  []*netRequest
}

var errRefused = &net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
var errReset = &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}
var errDNS = &net.DNSError{Err: "no such host", Name: "api.stackexchange.com", IsNotFound: true}

const stallTime = 10 * time.Minute

func wait(ctx context.Context, d time.Duration) error {
	if d <= 0 {
		return ctx.Err()
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-ctx.Done():
		// net/http has a timer of its own for the same moment; it comes first
		time.Sleep(time.Microsecond)
		return ctx.Err()
	case <-t.C:
		return nil
	}
}

func (n *simNet) body(page int, pl PagePlan) []byte {
	if n.g.Which == "nba" {
		return nbaPage(n.g, pl.Fault)
	}
	type item struct {
		Name string   `json:"name"`
		Syn  []string `json:"synonyms,omitempty"`
		Mod  bool     `json:"is_moderator_only"`
	}
	items := []item{}
	for _, t := range pl.Tags {
		items = append(items, item{t.Name, t.Syn, t.Mod})
	}
	m := map[string]interface{}{"items": items, "has_more": pl.HasMore, "quota_max": 300, "quota_remaining": 200}
	if pl.Backoff > 0 {
		m["backoff"] = pl.Backoff
	}
	if pl.Fault == "api error" {
		switch pl.At % 3 {
		case 0:
			m = map[string]interface{}{"error_id": 502, "error_name": "throttle_violation", "error_message": "too many requests from this IP"}
		case 1:
			m["error_message"] = "internal"
		case 2:
			m["error_name"] = "temporarily_unavailable"
		}
	}
	b, _ := json.Marshal(m)
	return b
}

func nbaPage(g *GenPlan, fault string) []byte {
	var b bytes.Buffer
	b.WriteString("<!DOCTYPE html><html><head><title>Rosters</title></head><body><div>")
	names := g.Names
	if fault == "no players" {
		names = nil
	}
	for i := 0; i < len(names) || i == 0; i += 4 {
		b.WriteString(`<table class="toccolours"><tbody><tr><td><table class="sortable"><thead><tr><th>Pos.</th><th>No.</th><th>Name</th></tr></thead><tbody>`)
		for k := i; k < i+4 && k < len(names); k++ {
			nm := names[k]
			if fault == "bad name" && k == len(names)/2 {
				nm = strings.ReplaceAll(nm, ",", "")
			}
			fmt.Fprintf(&b, "<tr><td>G</td><td>%d</td><td><a href=\"/wiki/x\">%s</a></td><td>6 ft</td></tr>\n", k, html.EscapeString(nm))
		}
		b.WriteString("</tbody></table></td></tr></tbody></table>\n")
	}
	b.WriteString("</div></body></html>")
	return b.Bytes()
}

// RoundTrip answers a request
func (n *simNet) RoundTrip(req *http.Request) (*http.Response, error) {
	if req.Body != nil {
		req.Body.Close()
	}
	q := &netRequest{at: time.Since(n.start), url: req.URL.String()}
	n.reqs = append(n.reqs, q)
	defer func() { q.done = time.Since(n.start) }()
	page := 1
	if n.g.Which == "so" {
		p, err := strconv.Atoi(req.URL.Query().Get("page"))
		if err != nil {
			p = 1 // what the API does
		}
		page = p
	}
	q.page = page
	pl := PagePlan{}
	if page >= 1 && page <= len(n.g.Pages) {
		pl = n.g.Pages[page-1]
	}
	q.fault = pl.Fault
	ctx := req.Context()
	if pl.Fault != "" {
		n.o.fault("fetch: " + pl.Fault)
	}
	switch pl.Fault {
	case "refused":
		return nil, errRefused
	case "dns":
		return nil, errDNS
	}
	if err := wait(ctx, time.Duration(pl.DelayMS)*time.Millisecond); err != nil {
		return nil, err
	}
	switch pl.Fault {
	case "reset":
		return nil, errReset
	case "stall":
		if err := wait(ctx, stallTime); err != nil {
			return nil, err
		}
		return nil, errReset
	}
	body := n.body(page, pl)
	status := 200
	b := &netBody{ctx: ctx, data: body, fail: -1, req: q, start: n.start}
	at := pl.At
	if len(body) > 0 {
		at = pl.At % len(body)
	}
	switch pl.Fault {
	case "status":
		status = []int{500, 502, 503, 429, 400, 404}[pl.At%6]
	case "api error":
		status = []int{200, 400, 502}[pl.At%7%3]
	case "stall body":
		b.fail, b.stall = at, true
	case "broken body":
		b.fail = at
	case "drip":
		b.drip = 1003*time.Millisecond + 7*time.Microsecond // never at the moment of another timer
	case "cut":
		b.data = body[:at]
	case "empty":
		b.data = nil
	case "garbage":
		b.data = []byte("<html><body><h1>502 Bad Gateway</h1></body></html>")
	}
	return &http.Response{
		Status: strconv.Itoa(status) + " " + http.StatusText(status), StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"application/json"}}, Body: b, ContentLength: -1, Request: req,
	}, nil
}

type netBody struct {
	ctx   context.Context
	data  []byte
	off   int
	fail  int
	stall bool
	drip  time.Duration
	req   *netRequest
	start time.Time
}

func (b *netBody) Read(p []byte) (int, error) {
	defer func() { b.req.done = time.Since(b.start) }()
	if err := b.ctx.Err(); err != nil {
		return 0, err
	}
	if b.fail >= 0 && b.off >= b.fail {
		if b.stall {
			if err := wait(b.ctx, stallTime); err != nil {
				return 0, err
			}
		}
		if b.off%2 == 0 {
			return 0, io.ErrUnexpectedEOF
		}
		return 0, errReset
	}
	if b.off >= len(b.data) {
		return 0, io.EOF
	}
	n := len(p)
	if n > 700 {
		n = 700
	}
	if b.drip > 0 {
		n = 1
		if err := wait(b.ctx, b.drip); err != nil {
			return 0, err
		}
	}
	if n > len(b.data)-b.off {
		n = len(b.data) - b.off
	}
	if b.fail >= 0 && n > b.fail-b.off {
		n = b.fail - b.off
	}
	copy(p, b.data[b.off:b.off+n])
	b.off += n
	return n, nil
}

func (b *netBody) Close() error { return nil }

type genRun struct {
	w     *simos.World
	n     *simNet
	code  int
	crash string
	took  time.Duration
	fired map[string]bool
	once  map[string]bool
}

// runGenerator runs a generator's main on the simulated machine, network and clock
func runGenerator(p *Plan, o *Outcome, mapSeed uint64) *genRun {
	g := p.Gen
	w := simos.NewWorld()
	w.Files[generatedFile] = &simos.Inode{Data: append([]byte(nil), g.Old...)}
	for _, f := range g.Faults {
		c := *f
		c.Fired = 0
		w.Faults = append(w.Faults, &c)
	}
	run := &genRun{w: w, n: &simNet{g: g, o: o}, fired: map[string]bool{}, once: map[string]bool{}}
	main := map[string]func(){"so": sogen.VerifMain, "nba": nbagen.VerifMain, "con": congen.VerifMain}[g.Which]
	tr, cl := http.DefaultTransport, *http.DefaultClient
	defer func() { http.DefaultTransport = tr; *http.DefaultClient = cl }()
	simhttp.Network = run.n
	http.DefaultTransport = &simhttp.Transport{}
	args := os.Args
	os.Args = []string{"generate"}
	defer func() { os.Args = args }()
	var res simrt.Result
	synctest.Test(theT, func(t *testing.T) {
		run.n.start = time.Now()
		simrt.MapSeed = mapSeed
		run.code, run.crash, res = simos.Main(w, simrt.Config{Seed: mapSeed, StepCap: 50e6, Bubble: true}, main)
		run.took = time.Since(run.n.start)
		// let everything that waits for the clock finish
		time.Sleep(2 * stallTime)
	})
	o.Steps += res.Steps
	o.SimNS += int64(run.took)
	if res.NoProgress {
		o.fail("no progress", fmt.Sprintf("no end after %d steps", res.Steps))
	}
	for _, f := range w.Faults {
		if f.Fired > 0 {
			o.fault("disk: " + f.Op)
			if f.Once {
				run.once[f.Op] = true
			} else {
				run.fired[f.Op] = true
			}
		}
	}
	o.log(g.Which, fmt.Sprint(run.code), w.Stderr.String(), strings.Join(w.Events, "\n"), fmt.Sprint(run.took))
	for _, q := range run.n.reqs {
		o.log(fmt.Sprint(q.page, q.at, q.done, q.fault))
	}
	for _, n := range w.Names() {
		o.log(n, string(w.Files[n].Data))
	}
	return run
}

func (r *genRun) file() string {
	if i := r.w.Files[generatedFile]; i != nil {
		return string(i.Data)
	}
	return "(gone)"
}

func (r *genRun) describe(g *GenPlan) string {
	var fs []string
	for i, p := range g.Pages {
		if p.Fault != "" {
			fs = append(fs, fmt.Sprintf("%q at page %d", p.Fault, i+1))
		}
	}
	return fmt.Sprintf("%s generator: exit %d%s after %v and %d requests, fetch faults %v, disk faults %v, stderr %q", g.Which, r.code, ifs(r.crash != "", " ("+clip(r.crash)+")"), r.took, len(r.n.reqs), fs, keysOf(r.fired, r.once), clip(r.w.Stderr.String()))
}

var tagWords = []string{"go", "ruby", "rails", "node", "js", "c", "java", "sql", "server", "react", "native", "machine", "learning", "unit", "testing", "web", "api", "data", "frame", "cloud"}

func genTags(r *RNG, n int, used map[string]bool, dup bool) []TagPlan {
	var out []TagPlan
	name := func() string {
		for {
			s := r.pick(tagWords)
			for k := r.n(3); k > 0; k-- {
				s += r.pick([]string{"-", "-", ".", "+"}) + r.pick(tagWords)
			}
			if r.p(1, 3) {
				s += strconv.Itoa(r.n(40))
			}
			if r.p(1, 12) {
				s = "." + s
			}
			if r.p(1, 15) {
				s += "é"
			}
			k := strings.ReplaceAll(s, "-", " ")
			if dup || !used[k] {
				used[k] = true
				return s
			}
		}
	}
	for ; n > 0; n-- {
		t := TagPlan{Name: name(), Mod: r.p(1, 15)}
		for k := r.n(4) - 1; k > 0; k-- {
			t.Syn = append(t.Syn, name())
		}
		out = append(out, t)
	}
	return out
}

func genNames(r *RNG) []string {
	first := []string{"Luka", "Nikola", "LeBron", "Goran", "Dāvis", "J. J.", "Al-Farouq", "D'Angelo", "Juan", "Jusuf", "Timothé", "O.G."}
	last := []string{"Dončić", "Jokić", "James", "Dragić", "Bertāns", "Barea", "Aminu", "Russell", "Hernangómez", "Nurkić", "Luwawu-Cabarrot", "Anunoby", "Porter Jr."}
	seen := map[string]bool{}
	var out []string
	for i := r.between(1, 30); i > 0; i-- {
		n := r.pick(last) + ", " + r.pick(first)
		if r.p(1, 6) {
			n = randFold(r, true) + ", " + randFold(r, true)
		}
		if r.p(1, 8) {
			n = " " + n + " "
		}
		// two of the same ASCII form have no right answer
		if k, _ := foldModel(strings.TrimSpace(n)); !seen[k] {
			seen[k] = true
			out = append(out, n)
		}
	}
	return out
}

func genGen(r *RNG, which string, dup bool) *GenPlan {
	g := &GenPlan{Which: which, Old: Bytes("package old\n\nvar mappings = map[string]string{\n\t\"old\": \"old\",\n}\n" + strings.Repeat("// old\n", r.n(2000)))}
	switch which {
	case "so":
		used := map[string]bool{}
		n := r.between(1, 5)
		if r.p(1, 4) {
			n = r.between(6, 15)
		}
		full := r.p(1, 60)
		if full {
			n = r.between(11, 20)
		}
		for i := 0; i < n; i++ {
			k := r.between(1, 8)
			if full {
				k = 100
			}
			big := full && r.p(1, 20)
			pg := PagePlan{Tags: genTags(r, k, used, dup), HasMore: i < n-1}
			if r.p(1, 20) && i > 0 {
				pg.Tags = nil
			}
			for j := range pg.Tags {
				for m := 0; big && m < 40; m++ {
					pg.Tags[j].Syn = append(pg.Tags[j].Syn, fmt.Sprintf("syn-%d-%d-%d-%s", i, j, m, r.pick(tagWords)))
				}
			}
			if r.p(1, 3) {
				pg.DelayMS = r.between(1, 500)
			}
			if r.p(1, 6) {
				pg.Backoff = r.between(1, 10)
			}
			g.Pages = append(g.Pages, pg)
		}
		for i := range g.Pages {
			for j := range g.Pages[i].Tags {
				t := &g.Pages[i].Tags[j]
				if r.p(1, 12) {
					t.Syn = append(t.Syn, r.pick([]string{"drop-down", "datatable", "for", "this"}))
					if k := r.n(len(t.Syn)); r.p(1, 2) {
						t.Syn[k], t.Syn[len(t.Syn)-1] = t.Syn[len(t.Syn)-1], t.Syn[k]
					}
				}
				// a synonym that is a tag as well
				if !dup && !t.Mod && len(t.Syn) > 0 && r.p(1, 8) {
					if s := t.Syn[r.n(len(t.Syn))]; !soIgnored[s] && !used["tag "+s] {
						used["tag "+s] = true
						pg := &g.Pages[r.n(len(g.Pages))]
						k := r.n(len(pg.Tags) + 1)
						pg.Tags = append(pg.Tags[:k:k], append([]TagPlan{{Name: s}}, pg.Tags[k:]...)...)
						break
					}
				}
			}
			if r.p(1, 10) {
				pg := &g.Pages[i]
				k := r.n(len(pg.Tags) + 1)
				pg.Tags = append(pg.Tags[:k:k], append([]TagPlan{{Name: r.pick([]string{"drop-down", "datatable", "for", "this"})}}, pg.Tags[k:]...)...)
			}
		}
		// something to write, at any rate
		g.Pages[0].Tags = append(g.Pages[0].Tags, genTags(r, 1, used, false)...)
		g.Pages[0].Tags[len(g.Pages[0].Tags)-1].Mod = false
	case "nba":
		g.Names = genNames(r)
		g.Pages = []PagePlan{{DelayMS: r.n(400)}}
	}
	return g
}

func (g *GenPlan) addFetchFault(r *RNG) {
	i := r.n(len(g.Pages))
	pg := &g.Pages[i]
	if g.Which == "so" {
		pg.Fault = r.pick(soFaults)
		if pg.Fault == "backoff" {
			pg.Backoff = []int{11, 12, 15, 30, 60, 600, 86400}[r.n(7)]
			pg.HasMore = true
		}
	} else {
		pg.Fault = r.pick(nbaFaults)
	}
	pg.At = r.n(100000)
	if pg.Fault == "cut" && pg.At%1000 == 0 {
		pg.At++
	}
}

func (g *GenPlan) addDiskFault(r *RNG) {
	f := &simos.Fault{Path: generatedFile, Err: r.pick([]string{"EIO", "ENOSPC", "EACCES", "EROFS", "EDQUOT"}), Once: r.p(1, 5)}
	switch r.n(4) {
	case 0:
		f.Op = "create"
	case 1, 2:
		f.Op, f.At, f.Full = "write", int64(r.between(0, 400)), r.p(1, 2)
	case 3:
		f.Op = "close"
	}
	g.Faults = append(g.Faults, f)
}

// The generator's own list of exceptions. Whether "drop-down" means the spelling with a space as well is left open.
var soIgnored = map[string]bool{"drop-down": true, "datatable": true, "for": true, "this": true}

// entries are the mappings a generated file must hold: alternative -> canonical
func (g *GenPlan) entries() map[string]string {
	m := map[string]string{}
	syn := map[string]bool{}
	for _, pg := range g.Pages {
		for _, t := range pg.Tags {
			for _, s := range t.Syn {
				if k := strings.ReplaceAll(s, "-", " "); !t.Mod && !soIgnored[s] {
					m[k] = t.Name
					syn[k] = true
				}
			}
		}
	}
	for _, pg := range g.Pages {
		for _, t := range pg.Tags {
			// a name that is a synonym of another tag is not an entry of its own
			if k := strings.ReplaceAll(t.Name, "-", " "); !t.Mod && !soIgnored[t.Name] && !syn[k] {
				m[k] = t.Name
			}
		}
	}
	for _, n := range g.Names {
		p := strings.Split(n, ",")
		c := strings.TrimSpace(p[1]) + " " + strings.TrimSpace(p[0])
		m[c] = c
		if f, ok := foldModel(c); ok {
			m[f] = c
		}
	}
	delete(m, "drop down")
	return m
}

// checkFile compares a generated file with what was served
func (g *GenPlan) checkFile(o *Outcome, src, what string) {
	m, err := dictOf(src, generatedFile)
	if err != nil {
		o.fail("the generated file is no Go source", fmt.Sprintf("%v: %s", err, what))
		return
	}
	want := g.entries()
	var wrong []string
	if g.Which == "con" {
		want = map[string]string{"i'll": "i will", "Don't": "Do not", "CAN’T": "CAN NOT", "gonna": "going to", "Should’ve": "Should have"}
		// all spellings of one contraction
		for k, v := range m {
			want[strings.ReplaceAll(k, "'", "’")] = v
			if strings.ToLower(k) == k {
				want[strings.ToUpper(k)] = strings.ToUpper(v)
				want[strings.ToUpper(k[:1])+k[1:]] = strings.ToUpper(v[:1]) + v[1:]
			}
		}
	}
	have := map[string]string{}
	for k, v := range m {
		for _, a := range strings.Split(k, ",") {
			a = strings.TrimSpace(a)
			if old, dup := have[a]; dup && old != v {
				wrong = append(wrong, fmt.Sprintf("%q -> %q and %q", a, min(old, v), max(old, v)))
			}
			have[a] = v
			if _, ok := want[a]; !ok && a != "drop down" && g.Which != "con" {
				wrong = append(wrong, fmt.Sprintf("%q -> %q was not served", a, v))
			}
		}
	}
	for k, v := range want {
		if x, ok := have[k]; !ok {
			wrong = append(wrong, fmt.Sprintf("no %q -> %q", k, v))
		} else if x != v {
			wrong = append(wrong, fmt.Sprintf("%q -> %q, expected %q", k, x, v))
		}
	}
	if len(wrong) > 0 {
		sortStrings(wrong)
		o.fail("the generated file is not what was served", fmt.Sprintf("%s: %s", clip(strings.Join(wrong, ", ")), what))
	}
}

func (g *GenPlan) fetchFault() (string, int) {
	for i, pg := range g.Pages {
		if pg.Fault != "" {
			return pg.Fault, i + 1
		}
	}
	return "", 0
}

func runC17(p *Plan, o *Outcome) {
	g := p.Gen
	r := runGenerator(p, o, p.MapSeed)
	what := r.describe(g)
	o.Nontrivial = true
	o.probe(g.Which)
	fault, _ := g.fetchFault()
	if fault != "" {
		if r.code == 0 {
			o.fail("success in spite of a failed fetch", fault+": "+what)
		}
		if r.file() != string(g.Old) {
			o.fail("generated file lost after a failed fetch", fmt.Sprintf("%s: %d bytes before, now %d: %s", fault, len(g.Old), len(r.file()), what))
		}
		if r.w.Mutated[generatedFile] > 0 {
			o.fail("generated file touched after a failed fetch", fault+": "+what)
		}
		return
	}
	for k := range r.fired {
		if r.code == 0 && (k == "create" || k == "write" || k == "close") {
			o.fail("success in spite of a disk failure", k+": "+what)
		}
	}
	if r.code == 0 {
		o.probe("success")
		g.checkFile(o, r.file(), what)
	} else if len(r.fired)+len(r.once) == 0 {
		o.fail("failure without a cause", what)
	}
	if r.crash == "" && r.code != 0 && r.w.Stderr.Len() == 0 {
		o.fail("silent failure", what)
	}
}

func runC18(p *Plan, o *Outcome) {
	g := p.Gen
	r := runGenerator(p, o, p.MapSeed)
	what := r.describe(g)
	o.Nontrivial = len(r.n.reqs) > 1
	fault, at := g.fetchFault()
	last := len(g.Pages)
	if fault != "" {
		last = at
	}
	// in order, each once, none left out, none after the end
	for i, q := range r.n.reqs {
		if q.page != i+1 {
			o.fail("pages out of order", fmt.Sprintf("request %d is for page %d: %s", i+1, q.page, what))
		}
	}
	if len(r.n.reqs) > last {
		o.fail("requests after the end", fmt.Sprintf("%d requests, expected %d: %s", len(r.n.reqs), last, what))
	}
	if len(r.n.reqs) < last {
		o.fail("pages not requested", fmt.Sprintf("%d requests, expected %d: %s", len(r.n.reqs), last, what))
	}
	// pace
	for i := 1; i < len(r.n.reqs); i++ {
		a, b := r.n.reqs[i-1], r.n.reqs[i]
		if pg := a.page; pg >= 1 && pg <= len(g.Pages) {
			if bo := time.Duration(g.Pages[pg-1].Backoff) * time.Second; b.at-a.done < bo {
				o.fail("backoff not honoured", fmt.Sprintf("page %d asked for %v, the next request came after %v: %s", pg, bo, b.at-a.done, what))
			}
		}
		if i >= 5 {
			if d := b.at - r.n.reqs[i-5].at; d < 5*time.Second/30 {
				o.fail("too many requests per second", fmt.Sprintf("requests %d to %d within %v: %s", i-4, i+1, d, what))
			}
		}
	}
	switch {
	case fault == "":
		o.probe("healthy")
		if r.code != 0 && len(g.Faults) == 0 {
			o.fail("failure without a cause", what)
		}
	default:
		if r.code == 0 {
			o.fail("success in spite of a failure", what)
		}
		if n := len(r.n.reqs); n > 0 {
			if d := r.took - r.n.reqs[n-1].at; d > time.Minute {
				o.fail("gave up too late", fmt.Sprintf("%v after the request: %s", d, what))
			}
		}
	}
}

func genC16(r *RNG, tier string) *Plan {
	p := &Plan{}
	for i := r.between(2, 4); i > 0; i-- {
		p.MapAlt = append(p.MapAlt, r.next()|1)
	}
	if r.p(1, 40) {
		p.Kind = "gen"
		p.Gen = genGen(r, r.pick([]string{"so", "so", "nba", "con"}), r.p(1, 2))
		return p
	}
	f := genSyn(r, true)
	// more of the same: variants of entries that fall together when normalised
	for k := r.n(4); k > 0 && len(f.Map) > 0; k-- {
		e := f.Map[r.n(len(f.Map))][0]
		switch r.n(5) {
		case 0:
			e = strings.ToUpper(e)
		case 1:
			e = strings.ReplaceAll(e, " ", "-")
		case 2:
			e = strings.ReplaceAll(e, "-", "")
		case 3:
			e = e + ", " + r.pick(synVocab)
		case 4:
			e = r.pick(synVocab) + "," + e
		}
		f.Map = append(f.Map, [2]string{e, "alt" + strconv.Itoa(r.n(9))})
	}
	p.Filters = []FilterSpec{f}
	s := StreamPlan{Stages: []Stage{{K: "f", F: 0}}, Use: "slice"}
	genSource(r, &s, p.phrases(r), 3000)
	p.Streams = []StreamPlan{s}
	return p
}

// trieDecl is the trie's own description of itself
func trieDecl(f FilterSpec) string {
	t := trie.New(f.IgnoreCase, []rune(f.Ignore))
	for _, kv := range f.pairs() {
		if toks, err := jargon.TokenizeString(kv[0]).ToSlice(); err == nil {
			t.Add(toks, kv[1])
		}
	}
	return t.String()
}

func runC16(p *Plan, o *Outcome) {
	if p.Kind == "gen" {
		o.probe("generator " + p.Gen.Which)
		base := runGenerator(p, o, 0)
		o.Nontrivial = true
		for _, ms := range p.MapAlt {
			r := runGenerator(p, o, ms)
			if r.code != base.code || r.file() != base.file() {
				o.fail("the generated file depends on map order", fmt.Sprintf("order %d: %s; %s", ms, firstDiff(r.file(), base.file()), r.describe(p.Gen)))
				return
			}
		}
		return
	}
	o.probe("synonyms")
	s := &p.Streams[0]
	var first result
	var firstDecl string
	for i, ms := range append([]uint64{0}, p.MapAlt...) {
		var res result
		var decl string
		q := *p
		q.MapSeed = ms
		single(&q, o, func() {
			rd := newReader(s.Doc, s.Reads, o)
			res = consume(s.open(rd, buildFilters(p.Filters)), s.Use, nil)
			if len(s.Doc)%4 == 0 {
				decl = trieDecl(p.Filters[0])
			}
		})
		if i == 0 {
			firstDecl = decl
			if decl != "" {
				o.probe("trie declaration")
			}
		} else if decl != firstDecl {
			o.fail("the declaration depends on map order", fmt.Sprintf("order %d: %s", ms, firstDiff(decl, firstDecl)))
		}
		if o.Violation != "" {
			return
		}
		if i == 0 {
			first = res
			trace(o, s, newReader(nil, s.Reads, nil), res)
			for _, t := range res.toks {
				if t.L {
					o.Nontrivial = true
				}
			}
			continue
		}
		if !equalToks(res.toks, first.toks) || (res.err == nil) != (first.err == nil) {
			o.fail("the result depends on map order", fmt.Sprintf("order %d: %s", ms, diffToks(res.toks, first.toks)))
			return
		}
	}
}

func init() {
	real := []string{"filters/stackoverflow/generate, filters/nba/generate, filters/contractions/generate (main and everything it calls)", "net/http.Client with its timeout", "encoding/json, goquery, go/format, text/template", "package time on a simulated clock (testing/synctest)"}
	stub := []string{"network and remote servers (http.DefaultTransport)", "file system, standard streams and exit (package simos)"}
	register(&Prop{
		ID: "C16", Quick: 250000, Thorough: 10000000, Process: true, Bubble: true,
		Rule: "one run = one dictionary with conflicting entries (or one generator with its data) processed under three to five seeded orders of every map iteration, results compared; non-trivial = something was replaced, or a file was generated; distinct by hash of data and results",
		Gen:  genC16, Run: runC16,
		Real: append([]string{"filters/synonyms, trie and tokenizer"}, real...), Stub: stub,
		Assume: []string{"ranges over maps are rewritten at build time to iterate in an order drawn from the seed; an iteration the rewriting does not recognise keeps Go's own random order and is then sampled, not controlled"},
	})
	register(&Prop{
		ID: "C17", Quick: 250000, Thorough: 10000000, Process: true, Bubble: true,
		Rule: "one run = one generator run against a simulated server (1 to 15 pages or a roster) with latencies, and either one fetch fault at one page or byte, or disk faults, or none; every run counts as non-trivial; distinct by hash of requests, operations and the file",
		Gen: func(r *RNG, tier string) *Plan {
			p := &Plan{Gen: genGen(r, []string{"so", "so", "so", "nba", "nba", "con"}[r.n(6)], false)}
			if r.p(1, 2) {
				p.MapSeed = r.next() | 1
			}
			switch r.n(10) {
			case 0, 1, 2, 3, 4:
				if p.Gen.Which != "con" {
					p.Gen.addFetchFault(r)
				} else {
					p.Gen.addDiskFault(r)
				}
			case 5, 6, 7:
				for k := r.between(1, 2); k > 0; k-- {
					p.Gen.addDiskFault(r)
				}
			}
			return p
		},
		Run: runC17, Real: real, Stub: stub,
		Assume: []string{"a response that is cut short is noticed by the transport or leaves incomplete JSON", "for the NBA page no stalls are injected (its client sets no timeout)", "disk failures may leave the generated file incomplete, but never with a success status"},
	})
	register(&Prop{
		ID: "C18", Quick: 300000, Thorough: 12000000, Process: true, Bubble: true,
		Rule: "one run = one run of the Stack Overflow generator against a simulated server on a simulated clock: 1 to 15 pages, latencies up to 500 ms, backoff requests, at most one fault (stall before or within the body, slow drip, errors, excessive backoff); non-trivial = more than one request; distinct by hash of the timed request sequence and results",
		Gen: func(r *RNG, tier string) *Plan {
			p := &Plan{Gen: genGen(r, "so", false)}
			if r.p(3, 5) {
				p.Gen.addFetchFault(r)
			}
			return p
		},
		Run: runC18, Real: real, Stub: stub,
		Assume: []string{"bounded time: within one simulated minute of the request that stalls"},
	})
}
