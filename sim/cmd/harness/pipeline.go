package main

import (
	"fmt"
	"strings"
	"unicode"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/ascii"
	"github.com/clipperhouse/jargon/filters/contractions"
	"github.com/clipperhouse/jargon/filters/mapper"
	"github.com/clipperhouse/jargon/filters/nba"
	"github.com/clipperhouse/jargon/filters/norm"
	"github.com/clipperhouse/jargon/filters/sigil"
	"github.com/clipperhouse/jargon/filters/stackoverflow"
	"github.com/clipperhouse/jargon/filters/stemmer"
	"github.com/clipperhouse/jargon/filters/stopwords"
	"github.com/clipperhouse/jargon/filters/synonyms"
	"github.com/clipperhouse/jargon/filters/twitter"
)

func (f FilterSpec) pairs() [][2]string {
	ps := f.Map
	if f.Huge > 0 {
		ps = append(append([][2]string{}, ps...), [2]string{f.hugeKey(), "huge"})
	}
	return ps
}

func (f FilterSpec) hugeKey() string {
	c := f.HugeChar
	if c == "" {
		c = "h"
	}
	return f.HugePre + strings.Repeat(c, f.Huge) + f.HugePost
}

var mapFuncs = map[string]func(*jargon.Token) *jargon.Token{
	"upper": func(t *jargon.Token) *jargon.Token {
		u := strings.ToUpper(t.String())
		if u == t.String() {
			return t
		}
		return jargon.NewToken(u, true)
	},
	"double": func(t *jargon.Token) *jargon.Token {
		if t.IsPunct() || t.IsSpace() {
			return t
		}
		return jargon.NewToken(t.String()+t.String(), true)
	},
	"spacer": func(t *jargon.Token) *jargon.Token {
		if t.String() == "the" {
			return jargon.NewToken(" ", true)
		}
		return t
	},
	"id":   func(t *jargon.Token) *jargon.Token { return t },
	"mark": func(t *jargon.Token) *jargon.Token { return jargon.NewToken(t.String(), true) },
	"plain": func(t *jargon.Token) *jargon.Token {
		if t.IsLemma() {
			return jargon.NewToken(t.String(), false)
		}
		return t
	},
	"drop": func(t *jargon.Token) *jargon.Token {
		if len(t.String()) == 1 && !t.IsSpace() {
			return nil
		}
		return t
	},
}

var legals = map[string]func(string) bool{
	"handle":  legalHandleModel,
	"hashtag": legalHashtagModel,
	"any":     func(s string) bool { return true },
	"letters": func(s string) bool {
		for _, r := range s {
			if !unicode.IsLetter(r) {
				return false
			}
		}
		return true
	},
	"sigilish": func(s string) bool { return s == "@" || s == "#" || s == "$" },
}

func (f FilterSpec) build() jargon.Filter {
	switch f.Kind {
	case "syn":
		m := map[string]string{}
		for _, kv := range f.pairs() {
			m[kv[0]] = kv[1]
		}
		return synonyms.NewFilter(m, f.IgnoreCase, []rune(f.Ignore))
	case "stop":
		return stopwords.NewFilter(f.Words, f.IgnoreCase)
	case "sig":
		return sigil.NewFilter(f.Sigil, legals[f.Legal])
	case "map":
		var fs []func(*jargon.Token) *jargon.Token
		for _, n := range f.Funcs {
			fs = append(fs, mapFuncs[n])
		}
		return mapper.NewFilter(fs...)
	}
	panic("unknown filter kind " + f.Kind)
}

func buildFilters(fs []FilterSpec) []jargon.Filter {
	out := make([]jargon.Filter, len(fs))
	for i, f := range fs {
		out[i] = f.build()
	}
	return out
}

var named = map[string]jargon.Filter{
	"ascii":          ascii.Fold,
	"contr":          contractions.Expand,
	"stem-english":   stemmer.English,
	"stem-french":    stemmer.French,
	"stem-norwegian": stemmer.Norwegian,
	"stem-russian":   stemmer.Russian,
	"stem-spanish":   stemmer.Spanish,
	"stem-swedish":   stemmer.Swedish,
	"nfc":            norm.NFC,
	"nfd":            norm.NFD,
	"nfkc":           norm.NFKC,
	"nfkd":           norm.NFKD,
	"handles":        twitter.Handles,
	"hashtags":       twitter.Hashtags,
	"so":             stackoverflow.Tags,
	"nba":            nba.CurrentPlayers,
	"words":          (*jargon.TokenStream).Words,
	"lemmas":         (*jargon.TokenStream).Lemmas,
	"distinct":       (*jargon.TokenStream).Distinct,
}

// predicates usable with Where
var preds = map[string]func(v string, p, s, l bool) bool{
	"all":      func(v string, p, s, l bool) bool { return true },
	"none":     func(v string, p, s, l bool) bool { return false },
	"nospace":  func(v string, p, s, l bool) bool { return !s },
	"nopunct":  func(v string, p, s, l bool) bool { return !p },
	"short":    func(v string, p, s, l bool) bool { return len(v) <= 3 },
	"long":     func(v string, p, s, l bool) bool { return len(v) > 3 },
	"nolemma":  func(v string, p, s, l bool) bool { return !l },
	"hasvowel": func(v string, p, s, l bool) bool { return strings.ContainsAny(v, "aeiouAEIOU") },
}

func where(name string) jargon.Filter {
	p := preds[name]
	return func(s *jargon.TokenStream) *jargon.TokenStream {
		return s.Where(func(t *jargon.Token) bool { return p(t.String(), t.IsPunct(), t.IsSpace(), t.IsLemma()) })
	}
}

func stageFilter(st Stage, fs []jargon.Filter) jargon.Filter {
	if f, ok := named[st.K]; ok {
		return f
	}
	if strings.HasPrefix(st.K, "where:") {
		return where(st.K[6:])
	}
	if st.K == "f" {
		return fs[st.F]
	}
	panic("unknown stage " + st.K)
}

func tokOf(t *jargon.Token) Tok {
	return Tok{t.String(), t.IsPunct(), t.IsSpace(), t.IsLemma()}
}

// sliceStream is a custom upstream
func sliceStream(toks []TokSpec) *jargon.TokenStream {
	i := 0
	return jargon.NewTokenStream(func() (*jargon.Token, error) {
		if i >= len(toks) {
			return nil, nil
		}
		t := toks[i]
		i++
		return jargon.NewToken(string(t.V), t.L), nil
	})
}

// source makes the unfiltered stream of a plan over a reader
func (s *StreamPlan) source(r *simReader) *jargon.TokenStream {
	switch {
	case s.Custom:
		return sliceStream(s.Toks)
	case s.HTML:
		return jargon.TokenizeHTML(wrapReader(r))
	default:
		return jargon.Tokenize(wrapReader(r))
	}
}

// open makes the whole pipeline
func (s *StreamPlan) open(r *simReader, fs []jargon.Filter) *jargon.TokenStream {
	return s.apply(s.source(r), fs)
}

// apply applies the stages, in one of the ways there are
func (s *StreamPlan) apply(st *jargon.TokenStream, fs []jargon.Filter) *jargon.TokenStream {
	var all []jargon.Filter
	for _, x := range s.Stages {
		all = append(all, stageFilter(x, fs))
	}
	switch (len(s.Reads.Sizes) + len(s.Doc)) % 3 {
	case 0:
		return st.Filter(all...)
	case 1:
		for _, f := range all {
			st = st.Filter(f)
		}
	default:
		for _, f := range all {
			st = f(st)
		}
	}
	return st
}

// oneShot runs the pipeline over doc, delivered at once and without faults
func (s *StreamPlan) oneShot(doc []byte, fs []jargon.Filter) ([]Tok, error) {
	r := newReader(doc, ReadPlan{Fail: -1}, nil)
	return drain(s.open(r, fs))
}

// modelBase is the reference for the unfiltered stream over doc
func (s *StreamPlan) modelBase(doc []byte) []Tok {
	switch {
	case s.Custom:
		var out []Tok
		for _, t := range s.Toks {
			out = append(out, modelTok(string(t.V), t.L))
		}
		return out
	case s.HTML:
		return modelHTML(doc)
	default:
		return modelText(doc)
	}
}

const maxTokens = 30000000

// drain by Next
func drain(st *jargon.TokenStream) ([]Tok, error) {
	var out []Tok
	for {
		t, err := st.Next()
		if err != nil {
			return out, err
		}
		if t == nil {
			return out, nil
		}
		out = append(out, tokOf(t))
		if len(out) > maxTokens {
			return out, fmt.Errorf("stream does not end")
		}
	}
}

var uses = []string{"next", "scan", "string", "slice", "writeto", "count"}

// result of consuming a stream in one of the possible ways
type result struct {
	toks  []Tok
	str   string
	n     int64
	err   error
	hasT  bool // toks are known
	hasS  bool // str is known
	hasN  bool // n is the number of tokens
	extra string
}

func consume(st *jargon.TokenStream, use string, w *simWriter) result {
	switch use {
	case "", "next":
		t, err := drain(st)
		return result{toks: t, str: concat(t), n: int64(len(t)), err: err, hasT: true, hasS: true, hasN: true}
	case "scan":
		var t []Tok
		for st.Scan() {
			tok := st.Token()
			if tok == nil {
				return result{toks: t, err: st.Err(), hasT: true, extra: "Scan returned true without a token"}
			}
			t = append(t, tokOf(tok))
			if e := st.Err(); e != nil {
				return result{toks: t, err: e, hasT: true, extra: "Scan returned true with an error"}
			}
			if len(t) > maxTokens {
				break
			}
		}
		return result{toks: t, str: concat(t), n: int64(len(t)), err: st.Err(), hasT: true, hasS: true, hasN: true}
	case "slice":
		ts, err := st.ToSlice()
		var t []Tok
		for _, x := range ts {
			if x == nil {
				return result{err: err, extra: "ToSlice holds a nil token"}
			}
			t = append(t, tokOf(x))
		}
		return result{toks: t, str: concat(t), n: int64(len(t)), err: err, hasT: true, hasS: true, hasN: true}
	case "string":
		s, err := st.String()
		return result{str: s, err: err, hasS: true}
	case "writeto":
		if w == nil {
			w = &simWriter{pl: SinkPlan{Fail: -1}, o: newOutcome()}
		}
		n, err := st.WriteTo(w)
		r := result{str: string(w.got), err: err, hasS: true}
		if err == nil && n != int64(len(w.got)) {
			r.extra = fmt.Sprintf("WriteTo returned %d, wrote %d bytes", n, len(w.got))
		}
		return r
	case "count":
		n, err := st.Count()
		return result{n: int64(n), err: err, hasN: true}
	}
	panic("unknown use " + use)
}
