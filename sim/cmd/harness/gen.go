package main

import (
	"strings"
)

var synVocab = []string{"foo", "bar", "baz", "a", "b", "c", "Ruby", "on", "Rails", "node", "js", "x1", "été", "日", "ß", "don't", "3.2", "UP", "e\u0301", "Ünï", "ЖУК", "foo_bar", "K"}

func genSyn(r *RNG, conflicts bool) FilterSpec {
	f := FilterSpec{Kind: "syn", IgnoreCase: r.p(2, 3)}
	for _, c := range []string{" ", "-", ".", "'", "/", "a"} {
		if r.p(1, 3) && (c != "a" || r.p(1, 3)) {
			f.Ignore += c
		}
	}
	if r.p(1, 4) {
		f.Ignore += r.pick([]string{"b", "é", "日", "\u00a0", "–", "_", "3", "’", "\u0301"})
	}
	if !f.IgnoreCase && r.p(1, 4) {
		f.Ignore += r.pick([]string{"U", "R", "F", "É", "O", "B"})
	}
	vocab := synVocab
	if r.p(1, 2) {
		k := r.between(2, 5)
		vocab = nil
		for i := 0; i < k; i++ {
			vocab = append(vocab, r.pick(synVocab))
		}
	}
	alt := func() string {
		n := r.weighted([]int{0, 5, 5, 3, 2, 1})
		if r.p(1, 30) {
			n = 8
		}
		var ws []string
		for i := 0; i < n; i++ {
			ws = append(ws, r.pick(vocab))
		}
		sep := r.weighted([]int{8, 2, 1, 1})
		return strings.Join(ws, []string{" ", "-", ".", " "}[sep])
	}
	for i := r.between(1, 8); i > 0; i-- {
		var alts []string
		for j := r.weighted([]int{0, 6, 3, 2}); j > 0; j-- {
			alts = append(alts, alt())
		}
		key := strings.Join(alts, ", ")
		if r.p(1, 12) {
			key = " " + key
		}
		if r.p(1, 15) {
			key += ","
		}
		if r.p(1, 25) {
			key = r.pick([]string{"", ",", " ", "-", ", ,", "."})
		}
		canon := r.pick([]string{"foo", "ruby-on-rails", "X", "node.js", "a b", "日本", "long canonical term", "-", " ", "the"})
		switch r.n(8) {
		case 0:
			canon = ""
		case 1:
			canon = alt()
		}
		dup := false
		for _, kv := range f.Map {
			dup = dup || kv[0] == key
		}
		if dup {
			continue
		}
		f.Map = append(f.Map, [2]string{key, canon})
		if !conflicts && newSynModel(f).conflict {
			f.Map = f.Map[:len(f.Map)-1]
		}
	}
	return f
}

// genSynWide draws a dictionary with long, or with many entries
func genSynWide(r *RNG) FilterSpec {
	f := FilterSpec{Kind: "syn", IgnoreCase: r.p(2, 3), Ignore: r.pick([]string{"", " ", "-", " -", " .-/", "'"})}
	word := func() string {
		switch r.n(6) {
		case 0:
			return r.pick(atomWords)
		case 1:
			return r.pick(synVocab)
		case 2:
			return r.pick([]string{"c++", "c#", ".net", "f#", "a/b", "1,000", "3.14", "x=y", "💎", "👩\u200d💻", "naïve", "ﬁ", "½"})
		case 3:
			return strings.Repeat(r.pick([]string{"x", "Ab", "é", "9", "日"}), r.between(1, 400)) + "q"
		}
		return r.pick([]string{"w", "K", "é"}) + strings.Repeat("i", r.n(3)) + string(rune('a'+r.n(26)))
	}
	max, n := 3, r.between(20, 200)
	if r.p(2, 3) {
		n = r.between(1, 5)
		max = []int{12, 20, 40, 70, 135, 260}[r.weighted([]int{10, 8, 6, 3, 2, 1})]
	}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		var alts []string
		for j := r.weighted([]int{0, 6, 2, 1}); j > 0; j-- {
			var ws []string
			for k := r.between(1, max); k > 0; k-- {
				ws = append(ws, word())
			}
			alts = append(alts, strings.Join(ws, r.pick([]string{" ", " ", " ", "-"})))
		}
		key := strings.Join(alts, ", ")
		if strings.ContainsAny(key, "ſς") || seen[key] {
			continue
		}
		seen[key] = true
		f.Map = append(f.Map, [2]string{key, r.pick([]string{"foo", "X", "a b", "", "long canonical term", "é"}) + r.pick([]string{"", "1", "2", "z"})})
	}
	if newSynModel(f).conflict {
		return genSyn(r, false)
	}
	return f
}

// phrases that are, or almost are, entries of the filters
func (p *Plan) phrases(r *RNG) []string {
	var out []string
	for _, f := range p.Filters {
		for _, kv := range f.Map {
			for _, a := range strings.Split(kv[0], ",") {
				a = strings.TrimSpace(a)
				if a == "" {
					continue
				}
				out = append(out, a, a)
				if ws := strings.Fields(a); len(ws) > 1 {
					out = append(out, strings.Join(ws[:len(ws)-1], " "), strings.Join(ws, "  "), strings.Join(ws, ". "), strings.Join(ws, "\n"), strings.Join(ws, "-"), ws[len(ws)-1])
				}
				out = append(out, strings.ToUpper(a), strings.ToLower(a), strings.Title(a), a+" "+a, a+".")
				if r.p(1, 3) {
					ws := strings.Fields(a)
					out = append(out, strings.Join(ws, "\u00a0"), strings.Join(ws, " \u00a0 "), strings.Join(ws, ""))
				}
				if f.Ignore != "" {
					rs := []rune(f.Ignore)
					c := string(rs[r.n(len(rs))])
					k := r.n(len(a) + 1)
					out = append(out, a[:k]+c+a[k:], c+a, a+c)
				}
			}
		}
		out = append(out, f.Words...)
		if f.Sigil != "" {
			out = append(out, f.Sigil+"x", f.Sigil, f.Sigil+f.Sigil+"y", f.Sigil+" z", "w"+f.Sigil+"v")
		}
	}
	return out
}

func genStop(r *RNG) FilterSpec {
	f := FilterSpec{Kind: "stop", IgnoreCase: r.p(1, 2)}
	for i := r.between(1, 6); i > 0; i-- {
		f.Words = append(f.Words, r.pick([]string{"the", "The", "a", "is", " ", ",", ".", "foo", "IT", "\n", "été", "ÉTÉ", "can't", "node.js", "", "İ", "on", "ß"}))
	}
	return f
}

func genSig(r *RNG) FilterSpec {
	return FilterSpec{Kind: "sig", Sigil: r.pick([]string{"@", "#", "$", "&", "the", "-", "@"}), Legal: r.pick([]string{"handle", "hashtag", "any", "letters", "sigilish"})}
}

func genMap(r *RNG) FilterSpec {
	f := FilterSpec{Kind: "map"}
	for i := r.between(0, 3); i > 0; i-- {
		f.Funcs = append(f.Funcs, r.pick([]string{"upper", "double", "spacer", "id", "mark", "plain", "drop"}))
	}
	return f
}

var perToken = []string{"ascii", "contr", "stem-english", "stem-french", "stem-norwegian", "stem-russian", "stem-spanish", "stem-swedish", "nfc", "nfd", "nfkc", "nfkd"}
var wheres = []string{"where:all", "where:nospace", "where:nopunct", "where:short", "where:long", "where:nolemma", "where:hasvowel", "words", "lemmas", "distinct"}

// genStages draws a chain of up to max stages, adding configured filters to the plan
func (p *Plan) genStages(r *RNG, max int) []Stage {
	var out []Stage
	for i := r.n(max + 1); i > 0; i-- {
		out = append(out, p.genStage(r))
	}
	return out
}

func (p *Plan) genStage(r *RNG) Stage {
	add := func(f FilterSpec) Stage {
		p.Filters = append(p.Filters, f)
		return Stage{K: "f", F: len(p.Filters) - 1}
	}
	switch r.n(14) {
	case 0, 1, 2:
		return add(genSyn(r, false))
	case 3:
		return add(genStop(r))
	case 4:
		return add(genSig(r))
	case 5:
		return add(genMap(r))
	case 6:
		return Stage{K: r.pick([]string{"handles", "hashtags"})}
	case 7:
		return Stage{K: "so"}
	case 8:
		return Stage{K: "nba"}
	case 9, 10:
		return Stage{K: r.pick(wheres)}
	case 11:
		return Stage{K: "contr"}
	default:
		return Stage{K: r.pick(perToken)}
	}
}

// genSched draws a schedule
func genSched(r *RNG) SchedPlan {
	s := SchedPlan{Seed: r.next()}
	switch r.n(4) {
	case 0, 1:
		s.Mode = 1
		s.Gap = uint64([]int{1, 2, 3, 5, 10, 30, 100, 400}[r.n(8)])
	default:
		s.Mode = 2
		span := []int{20, 60, 200, 1000, 5000, 20000}[r.n(6)]
		at := uint64(0)
		for i := r.between(1, 12); i > 0; i-- {
			at += uint64(r.between(1, span))
			s.Change = append(s.Change, at)
		}
	}
	return s
}
