package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"strings"
	"unicode/utf8"

	"verif.local/sim/simos"
	"verif.local/sim/simrt"
)

// Bytes is a byte string, readable in JSON where it can be
type Bytes []byte

// MarshalJSON writes a plain string, or base64 with a prefix
func (b Bytes) MarshalJSON() ([]byte, error) {
	s := string(b)
	if utf8.Valid(b) && !strings.HasPrefix(s, "b64:") {
		return json.Marshal(s)
	}
	return json.Marshal("b64:" + base64.StdEncoding.EncodeToString(b))
}

// UnmarshalJSON is the inverse
func (b *Bytes) UnmarshalJSON(d []byte) error {
	var s string
	if err := json.Unmarshal(d, &s); err != nil {
		return err
	}
	if strings.HasPrefix(s, "b64:") {
		x, err := base64.StdEncoding.DecodeString(s[4:])
		*b = x
		return err
	}
	*b = Bytes(s)
	return nil
}

// ReadPlan says how a simulated reader delivers its bytes
type ReadPlan struct {
	Sizes    []int  `json:"sizes,omitempty"`    // successive sizes, cyclic; 0 is an empty read, -1 as much as asked; none: -1
	EOFWith  bool   `json:"eofWith,omitempty"`  // EOF comes together with the last bytes
	Scribble bool   `json:"scribble,omitempty"` // unused buffer space is overwritten
	Fail     int    `json:"fail"`               // fail after this many bytes; -1: never
	FailWith bool   `json:"failWith,omitempty"` // the error comes together with the last bytes
	Err      string `json:"err,omitempty"`
	Wrap     string `json:"wrap,omitempty"`  // what else the reader can do, or what it is wrapped in, see wrapReader
	After    string `json:"after,omitempty"` // what reads after EOF or the failure do: "" the same again, "data", "eof", "err"
}

// Stage of a pipeline
type Stage struct {
	K string `json:"k"`
	F int    `json:"f,omitempty"` // index of a filter of the plan
}

// TokSpec is a token of a custom upstream
type TokSpec struct {
	V Bytes `json:"v"`
	L bool  `json:"l,omitempty"`
}

// StreamPlan is one stream: source and stages
type StreamPlan struct {
	Doc    Bytes     `json:"doc"`
	HTML   bool      `json:"html,omitempty"`
	Toks   []TokSpec `json:"toks,omitempty"` // custom upstream instead of a document
	Custom bool      `json:"custom,omitempty"`
	Rep    int       `json:"rep,omitempty"` // the document is this, so many times over
	Reads  ReadPlan  `json:"reads"`
	Stages []Stage   `json:"stages,omitempty"`
	Use    string    `json:"use,omitempty"` // consumption
}

// FilterSpec is a configurable filter
type FilterSpec struct {
	Kind       string      `json:"kind"` // syn, stop, sig, map
	Map        [][2]string `json:"map,omitempty"`
	IgnoreCase bool        `json:"ignoreCase,omitempty"`
	Ignore     string      `json:"ignore,omitempty"`
	Words      []string    `json:"words,omitempty"`
	Sigil      string      `json:"sigil,omitempty"`
	Legal      string      `json:"legal,omitempty"`
	Funcs      []string    `json:"funcs,omitempty"`
	Huge       int         `json:"huge,omitempty"`     // add an entry with a word of this length
	HugeChar   string      `json:"hugeChar,omitempty"` // ... made of this (default h)
	HugePre    string      `json:"hugePre,omitempty"`  // ... after this in its entry
	HugePost   string      `json:"hugePost,omitempty"` // ... before this in its entry
}

// Op is a step of a history
type Op struct {
	S int    `json:"s"`           // stream
	K string `json:"k"`           // what
	D string `json:"d,omitempty"` // detail
	N int    `json:"n,omitempty"` // how many times, if more than once
}

// allOps is the history with repetitions written out
func (p *Plan) allOps() []Op {
	var out []Op
	for _, op := range p.Ops {
		n := op.N
		op.N = 0
		out = append(out, op)
		for ; n > 1; n-- {
			out = append(out, op)
		}
	}
	return out
}

// SinkPlan says how a simulated writer behaves
type SinkPlan struct {
	Fail    int    `json:"fail"`              // accept this many bytes, then fail; -1: never
	Partial bool   `json:"partial,omitempty"` // the failing call accepts a part
	All     bool   `json:"all,omitempty"`     // the failing call accepts everything and fails nevertheless
	Once    bool   `json:"once,omitempty"`    // later calls succeed again
	Rich    bool   `json:"rich,omitempty"`    // the sink has WriteString, WriteByte and ReadFrom as well
	Err     string `json:"err,omitempty"`
}

// SchedPlan drives the scheduler
type SchedPlan struct {
	Mode   int            `json:"mode"`
	Seed   uint64         `json:"seed,omitempty"`
	Gap    uint64         `json:"gap,omitempty"`
	Change []uint64       `json:"change,omitempty"`
	List   []simrt.Switch `json:"list,omitempty"`
}

func (s *SchedPlan) config(cap uint64) simrt.Config {
	return simrt.Config{Seed: s.Seed, Mode: s.Mode, Gap: s.Gap, Change: s.Change, List: s.List, StepCap: cap}
}

// CLIPlan is one run of the command
type CLIPlan struct {
	Args      []string          `json:"args"`
	Stdin     Bytes             `json:"stdin"`
	StdinKind string            `json:"stdinKind"`           // tty, pipe, file
	StdinPath string            `json:"stdinPath,omitempty"` // for kind file: the path of the redirected file
	Files     map[string]Bytes  `json:"files,omitempty"`
	Kinds     map[string]string `json:"kinds,omitempty"` // files that are not plain: see simos.Inode
	Links     map[string]string `json:"links,omitempty"` // further names of files
	Reads     []int             `json:"reads,omitempty"`
	Faults    []*simos.Fault    `json:"faults,omitempty"`
	Rep       int               `json:"rep,omitempty"` // the input is what Stdin, or the file, holds, so many times over
}

// ReqPlan is one request to the web service
type ReqPlan struct {
	Method string   `json:"method"`
	Path   string   `json:"path"`
	Body   Bytes    `json:"body"`
	Reads  ReadPlan `json:"reads"`
	Rep    int      `json:"rep,omitempty"` // the body is this, so many times over
	Len    bool     `json:"len,omitempty"` // the request declares the length of its body
	Query  string   `json:"query,omitempty"`
	CT     string   `json:"ct,omitempty"` // content type
	WFail  int      `json:"wfail"`        // the client goes away after this many response bytes; -1: never
}

// PagePlan is what the simulated server answers to one request
type PagePlan struct {
	Tags    []TagPlan `json:"tags,omitempty"`
	HasMore bool      `json:"hasMore,omitempty"`
	Backoff int       `json:"backoff,omitempty"`
	DelayMS int       `json:"delayMS,omitempty"`
	Fault   string    `json:"fault,omitempty"`
	At      int       `json:"at,omitempty"`
}

// TagPlan is one tag
type TagPlan struct {
	Name string   `json:"name"`
	Syn  []string `json:"syn,omitempty"`
	Mod  bool     `json:"mod,omitempty"`
}

// GenPlan is one run of a generator
type GenPlan struct {
	Which  string         `json:"which"` // so, nba, con
	Pages  []PagePlan     `json:"pages,omitempty"`
	Names  []string       `json:"names,omitempty"`
	Old    Bytes          `json:"old"`
	Faults []*simos.Fault `json:"faults,omitempty"`
}

// Plan is everything a run depends on, besides the code
type Plan struct {
	Prop    string       `json:"prop"`
	Seed    uint64       `json:"seed"` // the run's seed; for information, everything drawn from it is below
	Kind    string       `json:"kind,omitempty"`
	Streams []StreamPlan `json:"streams,omitempty"`
	Filters []FilterSpec `json:"filters,omitempty"`
	Ops     []Op         `json:"ops,omitempty"`
	Sink    *SinkPlan    `json:"sink,omitempty"`
	Sched   SchedPlan    `json:"sched"`
	MapSeed uint64       `json:"mapSeed,omitempty"`
	MapAlt  []uint64     `json:"mapAlt,omitempty"`
	Cold    bool         `json:"cold,omitempty"`
	CLI     *CLIPlan     `json:"cli,omitempty"`
	Reqs    []ReqPlan    `json:"reqs,omitempty"`
	Gen     *GenPlan     `json:"gen,omitempty"`
	Size    int          `json:"size,omitempty"`
	Unique  bool         `json:"unique,omitempty"`
}

func (p *Plan) clone() *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

// uniq stands for a word that differs from one repetition to the next
const uniq = "§uniq§"

// repeat is bytes.Repeat, with a different word for uniq each time
func repeat(b []byte, n int) []byte {
	out := bytes.Repeat(b, n)
	at := bytes.Index(b, []byte(uniq))
	if at < 0 || len(b) == 0 {
		return out
	}
	for i := 0; i < n; i++ {
		const all = 62 * 62 * 62 * 62 * 62 * 62
		v := uint64(i+1) * 1000003 % all // different for different i
		w := out[i*len(b)+at:]
		w[0], w[1] = 'u', 'q'
		for k := 2; k < len(uniq); k++ {
			w[k] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[v%62]
			v /= 62
		}
	}
	return out
}

// expand writes repeated documents out
func (p *Plan) expand() *Plan {
	q := *p
	q.Streams = append([]StreamPlan(nil), p.Streams...)
	for i := range q.Streams {
		if s := &q.Streams[i]; s.Rep > 1 {
			s.Doc = repeat(s.Doc, s.Rep)
		}
	}
	q.Reqs = append([]ReqPlan(nil), p.Reqs...)
	for i := range q.Reqs {
		if s := &q.Reqs[i]; s.Rep > 1 {
			s.Body = repeat(s.Body, s.Rep)
		}
	}
	if p.CLI != nil && p.CLI.Rep > 1 {
		c := *p.CLI
		q.CLI = &c
		c.Stdin = repeat(c.Stdin, c.Rep)
		w := parseCLI(c.Args)
		if w.in == "" && c.StdinKind == "file" {
			w.in = c.StdinPath
		}
		c.Files = map[string]Bytes{}
		for k, v := range p.CLI.Files {
			if k == w.in {
				v = repeat(v, c.Rep)
			}
			c.Files[k] = v
		}
	}
	return &q
}

// Outcome of one run
type Outcome struct {
	Violation  string         `json:"violation,omitempty"` // class
	Detail     string         `json:"detail,omitempty"`
	Log        uint64         `json:"log"` // hash of everything observed
	Nontrivial bool           `json:"nontrivial"`
	Steps      uint64         `json:"steps"`
	Sched      uint64         `json:"sched"` // hash of the interleaving
	Switches   int            `json:"switches"`
	SimNS      int64          `json:"simNS"`
	Faults     map[string]int `json:"faults,omitempty"`
	Probes     map[string]int `json:"probes,omitempty"`
	List       []simrt.Switch `json:"list,omitempty"`

	kinds  [24]string
	counts [24]int
}

func newOutcome() *Outcome {
	return &Outcome{Log: hash0, Faults: map[string]int{}, Probes: map[string]int{}}
}

func (o *Outcome) fail(class, detail string) {
	if o.Violation == "" {
		o.Violation = class
		if len(detail) > 3000 {
			detail = detail[:3000] + "..."
		}
		o.Detail = detail
	}
}

func (o *Outcome) log(ss ...string) {
	for _, s := range ss {
		o.Log = hashStr(o.Log, s)
	}
}

// fault counts a fault. Devices may be used by several goroutines that the code under test synchronises in its own way;
// the counters are no part of what they share.
//
//go:norace
func (o *Outcome) fault(k string) {
	for i := range o.kinds {
		if o.kinds[i] == "" {
			o.kinds[i] = k
		}
		if o.kinds[i] == k {
			o.counts[i]++
			return
		}
	}
}

// settle moves the counts to Faults
func (o *Outcome) settle() {
	for i, k := range o.kinds {
		if k != "" {
			o.Faults[k] += o.counts[i]
			o.counts[i] = 0
		}
	}
}

func (o *Outcome) probe(k string) { o.Probes[k]++ }
