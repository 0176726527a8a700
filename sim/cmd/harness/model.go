package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/words"
	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
)

// Tok is what is observable of a token
type Tok struct {
	V       string
	P, S, L bool
}

func (t Tok) String() string {
	f := ""
	if t.P {
		f += "p"
	}
	if t.S {
		f += "s"
	}
	if t.L {
		f += "l"
	}
	if len(t.V) > 60 {
		return fmt.Sprintf("%q..(%d)%s", t.V[:60], len(t.V), f)
	}
	return fmt.Sprintf("%q%s", t.V, f)
}

func (t Tok) flags() string {
	b := [3]byte{'-', '-', '-'}
	if t.P {
		b[0] = 'p'
	}
	if t.S {
		b[1] = 's'
	}
	if t.L {
		b[2] = 'l'
	}
	return string(b[:])
}

func show(ts []Tok) string {
	var b strings.Builder
	for i, t := range ts {
		if i == 60 {
			fmt.Fprintf(&b, " ... (%d tokens)", len(ts))
			break
		}
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(t.String())
	}
	return b.String()
}

// modelTok classifies a string as the documentation says
func modelTok(s string, lemma bool) Tok {
	t := Tok{V: s, P: true, S: true, L: lemma}
	for _, r := range s {
		if !unicode.IsPunct(r) && r != '\n' && r != '\r' && r != '\t' {
			t.P = false
		}
		if !unicode.IsSpace(r) {
			t.S = false
		}
	}
	return t
}

// modelText is the segmentation of a whole text
func modelText(doc []byte) []Tok {
	var out []Tok
	for _, w := range words.SegmentAll(doc) {
		out = append(out, modelTok(string(w), false))
	}
	return out
}

// modelHTML: markup whole and verbatim, text segmented
func modelHTML(doc []byte) []Tok {
	var out []Tok
	z := html.NewTokenizer(bytes.NewReader(doc))
	var raw atom.Atom
	for {
		tt := z.Next()
		rawb := string(z.Raw())
		if tt == html.ErrorToken {
			if rawb != "" {
				out = append(out, Tok{V: rawb, P: true})
			}
			return out
		}
		switch tt {
		case html.TextToken:
			if raw != 0 {
				out = append(out, Tok{V: rawb})
			} else {
				out = append(out, modelText([]byte(rawb))...)
			}
			continue
		case html.StartTagToken, html.SelfClosingTagToken:
			// for these elements a trailing slash means nothing
			if a := z.Token().DataAtom; a == atom.Script || a == atom.Style {
				raw = a
			}
		case html.EndTagToken:
			if z.Token().DataAtom == raw {
				raw = 0
			}
		}
		out = append(out, Tok{V: rawb, P: true})
	}
}

func concat(ts []Tok) string {
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(t.V)
	}
	return b.String()
}

func equalToks(a, b []Tok) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func prefixToks(a, b []Tok) bool { return len(a) <= len(b) && equalToks(a, b[:len(a)]) }

// diffToks describes the first difference
func diffToks(got, want []Tok) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	lo := i - 3
	if lo < 0 {
		lo = 0
	}
	cut := func(ts []Tok) string {
		if lo >= len(ts) {
			return "(ended)"
		}
		hi := i + 4
		if hi > len(ts) {
			hi = len(ts)
		}
		return show(ts[lo:hi])
	}
	return fmt.Sprintf("token %d of %d (expected %d): got ... %s, expected ... %s", i, len(got), len(want), cut(got), cut(want))
}

// synModel is the reference for a synonyms filter
type synModel struct {
	dict     map[string]string
	maxWords int
	fold     bool
	ignore   map[rune]bool
	conflict bool
	clash    map[string]bool // entries that mean different things
	touched  bool            // apply met one of them
}

func (m *synModel) norm(s string) string {
	var b []rune
	for _, r := range s {
		if m.fold {
			r = unicode.ToLower(r)
		}
		if m.ignore[r] {
			continue
		}
		b = append(b, r)
	}
	return string(b)
}

func newSynModel(f FilterSpec) *synModel {
	m := &synModel{dict: map[string]string{}, maxWords: 1, fold: f.IgnoreCase, ignore: map[rune]bool{}, clash: map[string]bool{}}
	for _, r := range f.Ignore {
		m.ignore[r] = true
	}
	pairs := append([][2]string{}, f.pairs()...)
	sort.Slice(pairs, func(i, j int) bool { return pairs[i][0] < pairs[j][0] })
	for _, kv := range pairs {
		toks := modelText([]byte(kv[0]))
		var alts [][]Tok
		cur := []Tok{}
		for _, t := range toks {
			if t.V == "," {
				alts = append(alts, cur)
				cur = nil
				continue
			}
			if len(cur) == 0 && t.S {
				continue
			}
			cur = append(cur, t)
		}
		alts = append(alts, cur)
		for _, a := range alts {
			n := ""
			w := 0
			for _, t := range a {
				n += m.norm(t.V) // token by token: parts of a character in two tokens are not a character
				if !t.P && !t.S {
					w++
				}
			}
			if w > m.maxWords {
				m.maxWords = w
			}
			if n == "" {
				continue
			}
			if old, ok := m.dict[n]; ok && old != kv[1] {
				m.conflict = true
				m.clash[n] = true
			}
			m.dict[n] = kv[1]
		}
	}
	return m
}

// apply the reference to a whole sequence of tokens
func (m *synModel) apply(in []Tok) []Tok {
	var out []Tok
	for i := 0; i < len(in); {
		if in[i].P || in[i].S {
			out = append(out, in[i])
			i++
			continue
		}
		best, bestN, bestLen, bestNorm := "", 0, -1, ""
		n := ""
		w := 0
		for j := i; j < len(in) && !in[j].P; j++ {
			n += m.norm(in[j].V)
			if !in[j].S {
				w++
			}
			if c, ok := m.dict[n]; ok && n != "" && len(n) > bestLen {
				best, bestN, bestLen, bestNorm = c, j-i+1, len(n), n
			}
			if w >= m.maxWords {
				break
			}
		}
		if bestLen < 0 {
			out = append(out, in[i])
			i++
			continue
		}
		if len(m.clash) > 0 && m.clash[bestNorm] {
			m.touched = true
		}
		if best != "" {
			out = append(out, modelTok(best, true))
		}
		i += bestN
	}
	return out
}

// sigilModel joins a sigil with a legal follower unless a word precedes. Whether the preceding token is the one that
// came in or the one that went out makes a difference only if a joined token is of another kind than its last part;
// then clear is false.
func sigilModel(in []Tok, sigil string, legal func(string) bool) (out []Tok, clear bool) {
	clear = true
	for i := 0; i < len(in); i++ {
		ok := len(out) == 0 || out[len(out)-1].P || out[len(out)-1].S
		if i > 0 && ok != (in[i-1].P || in[i-1].S) {
			clear = false
		}
		if ok && in[i].V == sigil && i+1 < len(in) && legal(in[i+1].V) {
			out = append(out, modelTok(sigil+in[i+1].V, true))
			i++
			continue
		}
		out = append(out, in[i])
	}
	return out, clear
}

func legalHandleModel(s string) bool {
	if n := utf8.RuneCountInString(s); n < 1 || n > 15 {
		return false
	}
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_') {
			return false
		}
	}
	return true
}

func legalHashtagModel(s string) bool {
	if utf8.RuneCountInString(s) == 1 {
		r, _ := utf8.DecodeRuneInString(s)
		return unicode.IsLetter(r)
	}
	for _, r := range s {
		if !unicode.IsLetter(r) && !unicode.IsNumber(r) && r != '_' {
			return false
		}
	}
	return true
}

var folds = func() map[rune]string {
	m := map[rune]string{}
	for _, e := range foldTable {
		for _, c := range e[1] {
			m[c] = e[0]
		}
	}
	return m
}()

// foldModel is the ASCII form of s: characters of the table replaced, everything else as it is
func foldModel(s string) (string, bool) {
	var b strings.Builder
	any := false
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if v, ok := folds[r]; ok {
			b.WriteString(v)
			any = true
		} else {
			b.WriteString(s[i : i+n])
		}
		i += n
	}
	return b.String(), any
}
