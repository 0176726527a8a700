package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	"github.com/clipperhouse/jargon"
	"github.com/kljensen/snowball/english"
	"github.com/kljensen/snowball/french"
	"github.com/kljensen/snowball/norwegian"
	"github.com/kljensen/snowball/russian"
	"github.com/kljensen/snowball/spanish"
	"github.com/kljensen/snowball/swedish"
	textnorm "golang.org/x/text/unicode/norm"
)

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// dictOf reads the mappings of a generated dictionary from its source
func dictOf(src interface{}, path string) (map[string]string, error) {
	f, err := parser.ParseFile(token.NewFileSet(), path, src, 0)
	if err != nil {
		return nil, err
	}
	m := map[string]string{}
	var bad error
	ast.Inspect(f, func(n ast.Node) bool {
		kv, ok := n.(*ast.KeyValueExpr)
		if !ok {
			return true
		}
		k, ok1 := kv.Key.(*ast.BasicLit)
		v, ok2 := kv.Value.(*ast.BasicLit)
		if !ok1 || !ok2 {
			return true
		}
		ks, e1 := strconv.Unquote(k.Value)
		vs, e2 := strconv.Unquote(v.Value)
		if e1 != nil || e2 != nil {
			bad = fmt.Errorf("%v %v", e1, e2)
			return true
		}
		m[ks] = vs
		return true
	})
	return m, bad
}

type bigDict struct {
	model   *synModel
	phrases []string
}

var bigs = map[string]*bigDict{}
var bigMu sync.Mutex

// big is the reference for the shipped dictionaries, nil if their source could not be read
func big(name string) *bigDict {
	bigMu.Lock()
	defer bigMu.Unlock()
	if d, ok := bigs[name]; ok {
		return d
	}
	dir, ignore := "stackoverflow", " -./"
	if name == "nba" {
		dir, ignore = "nba", " .'-–"
	}
	m, err := dictOf(nil, filepath.Join(repoDir(), "filters", dir, "generated.go"))
	if err != nil || len(m) < 100 {
		bigs[name] = nil
		return nil
	}
	f := FilterSpec{Kind: "syn", IgnoreCase: true, Ignore: ignore}
	for _, k := range sortedKeys(m) {
		f.Map = append(f.Map, [2]string{k, m[k]})
	}
	d := &bigDict{model: newSynModel(f)}
	for _, kv := range f.Map {
		for _, a := range strings.Split(kv[0], ",") {
			if a = strings.TrimSpace(a); a != "" {
				d.phrases = append(d.phrases, a)
			}
		}
	}
	bigs[name] = d
	return d
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := 1; i < len(ks); i++ {
		if ks[i] < ks[i-1] {
			sortStrings(ks)
			break
		}
	}
	return ks
}

// bigPhrases are variations of entries of a shipped dictionary
func bigPhrases(r *RNG, name string) []string {
	d := big(name)
	if d == nil {
		return nil
	}
	var out []string
	for i := r.between(3, 12); i > 0; i-- {
		a := d.phrases[r.n(len(d.phrases))]
		switch r.n(8) {
		case 0:
			a = strings.ToUpper(a)
		case 1:
			a = strings.ReplaceAll(a, " ", "-")
		case 2:
			a = strings.ReplaceAll(a, " ", ".")
		case 3:
			if ws := strings.Fields(a); len(ws) > 1 {
				a = strings.Join(ws[:len(ws)-1], " ")
			}
		case 4:
			a = a + " " + d.phrases[r.n(len(d.phrases))]
		case 5:
			a = strings.ReplaceAll(a, " ", "  ")
		case 6:
			a = strings.Title(a)
		}
		out = append(out, a)
	}
	return out
}

// genToks makes a custom upstream
func genToks(r *RNG, phrases []string) []TokSpec {
	var out []TokSpec
	for i := r.between(0, 60); i > 0; i-- {
		var v string
		switch k := r.n(10); {
		case k < 3:
			v = r.pick(synVocab)
		case k < 5:
			v = " "
		case k == 5:
			v = r.pick(atomPunct)
		case k == 6:
			v = r.pick(atomSpace)
		case k == 7 && len(phrases) > 0:
			v = r.pick(phrases) // a whole phrase as one token
		case k == 8:
			v = r.pick(atomWords)
		default:
			v = r.pick(atomJoin)
		}
		if v == "" {
			continue
		}
		out = append(out, TokSpec{V: Bytes(v), L: r.p(1, 6)})
	}
	return out
}

func genSource(r *RNG, s *StreamPlan, phrases []string, max int) {
	switch {
	case r.p(1, 4):
		s.Custom = true
		s.Toks = genToks(r, phrases)
	default:
		s.HTML = r.p(1, 4)
		g := newDocGen(r, s.HTML, phrases)
		switch {
		case r.p(1, 15):
			s.Doc = g.doc(max)
		default:
			s.Doc = g.fill(r.between(1, 300))
		}
		if max >= 9000 {
			s.Doc = overlong(r, s.Doc, s.HTML, 2500)
		}
	}
	s.Reads = readsOf(r, s.Doc)
}

func init() {
	register(&Prop{
		ID: "C10", Quick: 600000, Thorough: 24000000,
		Rule: "one run = one dictionary (random, or a shipped one), one upstream (text, HTML or hand-made tokens, possibly through another filter, delivered in pieces, sometimes failing midway), one way of consuming; compared with a reference replacement over the whole upstream; non-trivial = something was replaced; distinct by hash of dictionary, upstream and tokens",
		Gen: func(r *RNG, tier string) *Plan {
			p := &Plan{}
			s := StreamPlan{Use: r.pick([]string{"next", "scan", "slice", "string", "writeto"})}
			if r.p(1, 5) {
				s.Stages = p.genStages(r, 1)
			}
			var ph []string
			switch k := r.n(10); {
			case k == 0:
				p.Kind = "so"
				ph = bigPhrases(r, "so")
			case k == 1:
				p.Kind = "nba"
				ph = bigPhrases(r, "nba")
			case r.p(1, 250):
				p.Kind = "syn"
				p.Filters = append(p.Filters, genSynWide(r))
				ph = p.phrases(r)
				for i := range ph {
					if len(ph[i]) > 20000 {
						ph[i] = "x"
					}
				}
			default:
				p.Kind = "syn"
				p.Filters = append(p.Filters, genSyn(r, false))
				ph = p.phrases(r)
			}
			genSource(r, &s, ph, 9000)
			if !s.Custom && r.p(1, 10) {
				addFailure(r, &s.Reads, s.Doc)
			}
			p.Streams = []StreamPlan{s}
			return p
		},
		Run: runC10,
	})
	register(&Prop{
		ID: "C11", Quick: 600000, Thorough: 24000000,
		Rule: "one run = one filter or chain of 1-5 filters over one upstream (text, HTML or hand-made tokens, delivered in pieces), compared with: each token filtered alone (one-to-one filters), a reference (sigils, stop words, selections), or each filter of the chain run to completion before the next; non-trivial = the filters changed something; distinct by hash of filters, upstream and tokens",
		Gen: func(r *RNG, tier string) *Plan {
			p := &Plan{}
			s := StreamPlan{Use: r.pick([]string{"next", "scan", "slice"})}
			add := func(f FilterSpec) Stage {
				p.Filters = append(p.Filters, f)
				return Stage{K: "f", F: len(p.Filters) - 1}
			}
			switch k := r.n(10); {
			case k < 3:
				p.Kind = "each"
				switch r.n(5) {
				case 0:
					s.Stages = []Stage{add(genStop(r))}
				case 1:
					s.Stages = []Stage{add(genMap(r))}
				case 2:
					s.Stages = []Stage{{K: "contr"}}
				default:
					s.Stages = []Stage{{K: r.pick(perToken)}}
				}
			case k < 6:
				p.Kind = "sigil"
				switch r.n(3) {
				case 0:
					s.Stages = []Stage{{K: "handles"}}
				case 1:
					s.Stages = []Stage{{K: "hashtags"}}
				default:
					s.Stages = []Stage{add(genSig(r))}
				}
			case k < 7:
				p.Kind = "select"
				if r.p(1, 2) {
					s.Stages = []Stage{{K: r.pick(wheres)}}
				} else {
					s.Stages = []Stage{add(genStop(r))}
				}
			default:
				p.Kind = "chain"
				for i := r.between(2, 5); i > 0; i-- {
					s.Stages = append(s.Stages, p.genStage(r))
				}
			}
			ph := p.phrases(r)
			for i := r.n(6); i > 0; i-- {
				ph = append(ph, r.pick(atomSigil), r.pick(atomJoin))
				if s.Stages[0].K == "contr" {
					ph = append(ph, genContraction(r))
				}
				if ws := stemWords[s.Stages[0].K]; ws != nil {
					ph = append(ph, r.pick(ws))
				}
			}
			genSource(r, &s, ph, 9000)
			if s.Custom && p.Kind == "sigil" {
				for i := range s.Toks {
					if r.p(1, 4) {
						s.Toks[i].V = Bytes(r.pick([]string{"@", "#", "$", "&", "the", "-"}))
					}
				}
			}
			p.Streams = []StreamPlan{s}
			return p
		},
		Run: runC11,
	})
}

func runC10(p *Plan, o *Outcome) {
	s := &p.Streams[0]
	if s.Reads.Fail > len(s.Doc) {
		s.Reads.Fail = len(s.Doc)
	}
	r := newReader(s.Doc, s.Reads, o)
	var m *synModel
	var last Stage
	switch p.Kind {
	case "so", "nba":
		d := big(p.Kind)
		if d == nil {
			o.probe("shipped dictionary not readable")
			return
		}
		m = d.model
		last = Stage{K: p.Kind}
	default:
		m = newSynModel(p.Filters[len(p.Filters)-1])
		last = Stage{K: "f", F: len(p.Filters) - 1}
	}
	full := *s
	full.Stages = append(append([]Stage{}, s.Stages...), last)
	failing := s.Reads.Fail >= 0 && !s.Custom
	doc := s.Doc
	if failing {
		doc = doc[:s.Reads.Fail]
	}
	var res result
	var up []Tok
	var upErr error
	single(p, o, func() {
		res = consume(full.open(r, buildFilters(p.Filters)), s.Use, nil)
		if len(s.Stages) > 0 {
			up, upErr = s.oneShot(doc, buildFilters(p.Filters))
		}
	})
	trace(o, s, r, res)
	o.log(fmt.Sprint(p.Filters, p.Kind, s.Toks))
	if o.Violation != "" || upErr != nil {
		return
	}
	base := s.modelBase(doc)
	if longest(base) >= maxWord && res.err != nil {
		o.probe("overlong word refused")
		return
	}
	if len(s.Stages) == 0 {
		up = base
	}
	m.touched = false
	want := m.apply(up)
	o.Nontrivial = !equalToks(want, up)
	if m.touched {
		o.probe("ambiguous entry met")
		return
	}
	if res.extra != "" {
		o.fail("inconsistent result", res.extra)
		return
	}
	if failing {
		if res.err == nil {
			o.fail("failure swallowed", fmt.Sprintf("source failed with %q", r.err()))
		}
		if s.Use == "next" || s.Use == "scan" {
			if !prefixToks(res.toks, want) {
				o.fail("replacement before failure", diffToks(res.toks, want))
			}
		}
		return
	}
	if res.err != nil {
		o.fail("unexpected error", fmt.Sprint(res.err))
		return
	}
	if res.hasT && !equalToks(res.toks, want) {
		o.fail("replacement", diffToks(res.toks, want))
	}
	if res.hasS && res.str != concat(want) {
		o.fail("replacement", firstDiff(res.str, concat(want)))
	}
}

// tokStream is a stream of given tokens
func tokStream(ts []*jargon.Token) *jargon.TokenStream {
	i := 0
	return jargon.NewTokenStream(func() (*jargon.Token, error) {
		if i >= len(ts) {
			return nil, nil
		}
		i++
		return ts[i-1], nil
	})
}

// collect by Next, keeping the tokens
func collect(st *jargon.TokenStream) ([]*jargon.Token, error) {
	var out []*jargon.Token
	for {
		t, err := st.Next()
		if err != nil || t == nil {
			return out, err
		}
		out = append(out, t)
		if len(out) > maxTokens {
			return out, fmt.Errorf("stream does not end")
		}
	}
}

func toksOf(ts []*jargon.Token) []Tok {
	var out []Tok
	for _, t := range ts {
		out = append(out, tokOf(t))
	}
	return out
}

// mapped is what a mapper's functions, or the form or stem of a word, make of one token; nil if nothing is left
func (p *Plan) mapped(st Stage, t *jargon.Token) (*jargon.Token, bool) {
	if st.K == "f" && p.Filters[st.F].Kind == "map" {
		for _, n := range p.Filters[st.F].Funcs {
			if t = mapFuncs[n](t); t == nil {
				break
			}
		}
		return t, true
	}
	if st.K == "ascii" {
		v, _ := foldModel(t.String())
		if v == t.String() {
			return t, true
		}
		return jargon.NewToken(v, true), true
	}
	if form, ok := forms[st.K]; ok {
		if form.IsNormalString(t.String()) {
			return t, true
		}
		return jargon.NewToken(form.String(t.String()), true), true
	}
	if stem, ok := stems[st.K]; ok {
		if t.IsPunct() || t.IsSpace() {
			return t, true
		}
		v := stem(t.String(), true)
		if v == t.String() {
			return t, true
		}
		return jargon.NewToken(v, true), true
	}
	return nil, false
}

var forms = map[string]textnorm.Form{"nfc": textnorm.NFC, "nfd": textnorm.NFD, "nfkc": textnorm.NFKC, "nfkd": textnorm.NFKD}

var stems = map[string]func(string, bool) string{
	"stem-english": english.Stem, "stem-french": french.Stem, "stem-norwegian": norwegian.Stem,
	"stem-russian": russian.Stem, "stem-spanish": spanish.Stem, "stem-swedish": swedish.Stem,
}

// Words to stem, common ones included
var stemWords = map[string][]string{
	"stem-english":   strings.Fields("having being does was because very once ourselves this Having THIS running ponies generously skies dying herring"),
	"stem-french":    strings.Fields("nous avons étaient auraient Cette leurs continuellement majestueusement chevaux mangeait"),
	"stem-norwegian": strings.Fields("jeg hadde ikke hvordan havnedistriktene opning Vårt være dette oppmerksomhet"),
	"stem-russian":   strings.Fields("который были чтобы после красивая бегущий важнейшими Этого вчерашнего"),
	"stem-spanish":   strings.Fields("nosotros estuvieron tenemos habían cheques chicharrones Estas cuando rápidamente torniquetes"),
	"stem-swedish":   strings.Fields("hade inte sådana jaktkarlarne Våra klostergården vilkas friskt allting"),
}

// The contractions that the filter's documentation and data list, in lower case
var contractionList = func() map[string]string {
	m := map[string]string{}
	for _, e := range strings.Fields(`
i'll=i_will you'll=you_will she'll=she_will he'll=he_will we'll=we_will they'll=they_will i'm=i_am
you're=you_are she's=she_is he's=he_is we're=we_are they're=they_are i've=i_have you've=you_have we've=we_have
they've=they_have i'd=i_would you'd=you_would she'd=she_would he'd=he_would we'd=we_would they'd=they_would
isn't=is_not aren't=are_not wasn't=was_not don't=do_not doesn't=does_not didn't=did_not haven't=have_not
hadn't=had_not can't=can_not won't=will_not will've=will_have wouldn't=would_not would've=would_have
couldn't=could_not could've=could_have shouldn't=should_not should've=should_have mightn't=might_not
might've=might_have mustn't=must_not must've=must_have gonna=going_to gotta=got_to wanna=want_to gimme=give_me
cannot=can_not
`) {
		k, v, _ := strings.Cut(e, "=")
		m[k] = strings.ReplaceAll(v, "_", " ")
	}
	return m
}()

// expanded is what a listed contraction becomes: in lower, title or upper case as it was, any other mixture in lower case
func expanded(s string) (string, bool) {
	straight := strings.ReplaceAll(s, "’", "'")
	if strings.Contains(s, "'") && straight != s {
		return "", false
	}
	low := strings.ToLower(straight)
	v, ok := contractionList[low]
	switch {
	case !ok || straight == low:
	case straight == strings.ToUpper(low):
		v = strings.ToUpper(v)
	case straight == strings.ToUpper(low[:1])+low[1:]:
		v = strings.ToUpper(v[:1]) + v[1:]
	}
	return v, ok
}

var contractionWords = func() []string {
	var out []string
	for k := range contractionList {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}()

// genContraction draws a contraction in any spelling
func genContraction(r *RNG) string {
	s := r.pick(contractionWords)
	switch r.n(5) {
	case 0:
		s = strings.ToUpper(s)
	case 1:
		s = strings.ToUpper(s[:1]) + s[1:]
	case 2:
		k := r.n(len(s))
		s = s[:k] + strings.ToUpper(s[k:k+1]) + s[k+1:]
	}
	if r.p(1, 3) {
		s = strings.ReplaceAll(s, "'", "’")
	}
	return s
}

func runC11(p *Plan, o *Outcome) {
	s := &p.Streams[0]
	r := newReader(s.Doc, s.Reads, o)
	var res result
	var in []*jargon.Token
	var want []Tok
	var err error
	clear := true
	single(p, o, func() {
		res = consume(s.open(r, buildFilters(p.Filters)), s.Use, nil)
		bare := *s
		bare.Stages = nil
		in, err = collect(bare.open(newReader(s.Doc, ReadPlan{Fail: -1}, nil), nil))
		if err != nil {
			return
		}
		fs := buildFilters(p.Filters)
		switch p.Kind {
		case "each":
			f := stageFilter(s.Stages[0], fs)
			for _, t := range in {
				if x, ok := p.mapped(s.Stages[0], t); ok {
					if x != nil {
						want = append(want, tokOf(x))
					}
					continue
				}
				if v, ok := expanded(t.String()); ok && s.Stages[0].K == "contr" {
					for i, w := range strings.Fields(v) {
						if i > 0 {
							want = append(want, Tok{V: " ", S: true})
						}
						want = append(want, Tok{V: w})
					}
					o.probe("contraction")
					continue
				}
				x, e := collect(f(tokStream([]*jargon.Token{t})))
				if e != nil {
					err = e
				}
				want = append(want, toksOf(x)...)
			}
		case "chain":
			cur := in
			for _, st := range s.Stages {
				var e error
				cur, e = collect(stageFilter(st, fs)(tokStream(cur)))
				if e != nil {
					err = e
				}
			}
			want = toksOf(cur)
		}
	})
	trace(o, s, r, res)
	o.log(fmt.Sprint(p.Filters, p.Kind, s.Stages, s.Toks))
	if o.Violation != "" {
		return
	}
	if longest(s.modelBase(s.Doc)) >= maxWord && (err != nil || res.err != nil) {
		o.probe("overlong word refused")
		if res.err == nil && p.Kind != "chain" {
			o.fail("failure swallowed", fmt.Sprintf("the source cannot be tokenized (%v), but the filtered stream ends cleanly", err))
		}
		return
	}
	if err != nil || res.err != nil {
		o.fail("unexpected error", fmt.Sprint(res.err, "; ", err))
		return
	}
	if len(s.Stages) == 0 {
		return // minimised away
	}
	it := toksOf(in)
	st := s.Stages[0]
	switch p.Kind {
	case "sigil":
		sig, legal := "@", legalHandleModel
		switch st.K {
		case "hashtags":
			sig, legal = "#", legalHashtagModel
		case "f":
			sig, legal = p.Filters[st.F].Sigil, legals[p.Filters[st.F].Legal]
		}
		want, clear = sigilModel(it, sig, legal)
	case "select":
		var keep func(Tok) bool
		if st.K == "f" {
			f := p.Filters[st.F]
			stop := map[string]bool{}
			for _, w := range f.Words {
				if f.IgnoreCase {
					w = strings.ToLower(w)
				}
				stop[w] = true
			}
			keep = func(t Tok) bool {
				if f.IgnoreCase {
					return !stop[strings.ToLower(t.V)]
				}
				return !stop[t.V]
			}
		} else {
			keep = derivePred(st.K)
		}
		for _, t := range it {
			if keep(t) {
				want = append(want, t)
			}
		}
	}
	o.Nontrivial = !equalToks(want, it)
	if !clear {
		o.probe("ambiguous sigil")
		return
	}
	if res.extra != "" {
		o.fail("inconsistent result", res.extra)
	}
	if !equalToks(res.toks, want) {
		o.fail(map[string]string{"each": "not token by token", "sigil": "sigil", "select": "selection", "chain": "composition"}[p.Kind], diffToks(res.toks, want))
	}
}
