package main

import (
	"strings"
	"unicode/utf8"
)

var (
	atomWords = strings.Fields(`the a an The It it is are not Ruby on Rails java script node React react C x I LeBron James développeur Straße naïve 日本語 カタカナ テスト ひらがな漢字 שלום صباح ไทย 한국어 étude élève Ⅷ x_y __init__ foo_1 can end management running courant бегущий nochnoy löpande corriendo generously ponies relational manager managers
		HTML html Python python go Go golang asp visual studio code sql server 2016 3 42 1999 user1 ﬁle ｆｕｌｌ ① café Åse œuvre ß İstanbul ǆ K`)
	atomJoin  = strings.Fields(`don't can't can’t I'm i'm SHE'S We’ve GONNA Cannot would've 1,000 3.14 1.2.3 1,000,000.50 10:30 node.js asp.net a.b.c U.S.A. O'Brien rock'n'roll e.g. x'y" l’été 1'000 a:b a·b a‧b 1٫5 ב״ב צ׳ foo.bar,baz 5.x x.5 1_000 a_b.c_d c#.net q.E.d don't. can't, 7,a b,8`)
	atomTech  = []string{"Ruby on Rails", "ruby-on-rails", "react js", "React.js", "reactjs", "JavaScript", "asp.net mvc", "Visual Studio Code", "C#", "F#", "c++", ".net", ".NET 4.5", "node js", "google app engine", "sql server 2016", "object pascal", "android debug bridge", "amazon lambda", "LeBron James", "J.R. Smith", "Luka Dončić", "luka doncic", "Kevin Durant", "Karl-Anthony Towns", "text file", "ruby on rails 3.2.1", "continuous integration", "os x", "vs.net"}
	atomSigil = []string{"@jeff", "#golang", "#1", "#1a", "@_", "@toolongtoolongtoolong", "@ user", "##tag", "@@x", "#日本", "a@b.com", "(@x)", "#a", "@a-b", "@#x", "#@x", "@", "#", "@a@b", "$x", ".@y", "@ a_b", "@sixteencharslong", "@fifteencharslon"}
	atomPunct = []string{".", ",", ";", ":", "!", "?", "'", "’", "\"", "(", ")", "-", "–", "—", "/", "@", "#", "&", "+", "*", "_", "…", "·", "‧", "٫", "״", "׳", "$", "€", "%", "<", ">", "=", "...", "--", "[", "]", "{", "}", "\\", "|", "~", "`", "^", "“", "”", "、", "。", "¿"}
	atomSpace = []string{" ", " ", " ", " ", "  ", "\n", "\r\n", "\r", "\t", "\u00a0", "\u2003", "\u3000", "\v", "\f", "\u0085", "\u2028", "\n\n", " \n ", "   ", "\r\n\r\n", "\n\r"}
	atomOdd   = []string{"\x00", "\xff", "\xc3", "\xe2\x80", "\xf0\x9f\x98", "\xed\xa0\x80", "\ufeff", "\u200d", "\u00ad", "\u200b", "👩‍👩‍👧", "🇩🇪🇫🇷🇬", "🇩", "👍🏽", "a\u0308", "\u0301", "☕️", "\u202e", "\U0010ffff", "\ufffd", "e\u0301\u0302\u0303", "\u1160ᄀ각", "🏴\U000e0067\U000e0062\U000e007f", "1️⃣", "👨🏿‍🚀", "\x80\x80", "\xc0\xaf", "\u0600", "x\u200dy", "\u2060", "\uff9e", "\x7f", "\x1b[0m"}
	atomHTML  = []string{"<p>", "</p>", "<br/>", "<br>", `<a href="x y">`, "</a>", "<b>", "</b>", "<!-- can't -->", "<!DOCTYPE html>", "<div class='a b' id=c>", "</div>", "&amp;", "&lt;", "&#39;", "&nbsp;", "&", "&copy", "<li>", "</LI>", "<IMG src=a.png alt=\"x > y\">", "<![CDATA[x]]>", "<?php echo 1 ?>", "<h1>", "</h1>", "<td>", "<p\n>", "<a b=c d>", "<x-y>", "</ p>", "</>", "<>", "< p>", "<!>", "<!-->", "<!-- a -- b -->", "<p/>"}
	atomRaw   = []string{"<script>var x = 'a b';</script>", "<style>b { c: d }</style>", "<SCRIPT type=x>if (a < b) { c() }</SCRIPT>", "<script></script>", "<style>\n</style>", "<textarea>don't <b>x</textarea>", "<title>Ruby on Rails</title>", "<script><!-- x <script> y </script> --></script>", "<script>a</scr</script >", "<noscript>a b</noscript>", "<iframe>x</iframe>", "<xmp><b></xmp>", "<style>a</script>b</style>", "<script>1,000</script>", "<svg><script>x y</script></svg>", "<Style media='x'>p > a</Style>", "<script/>var a = b;</script>", "<style />p { q }</style>", "<script src=/a b/>x y</script>"}
	atomBad   = []string{"<", "<a", "</", "<!", "<!-", "<!--", "<!-- x", "<script", "<script>", "<style>x y", "</script>", "</style>", "<a href=\"", "<a href='x", "<textarea>", "<plaintext>", "&#", "&x", "<?", "<p ", "<p a=", "<!DOC", "<title>", "</p"}
	atomXSS   = []string{"<b>&\"'+", "\"><script>alert(1)</script>", "' onload='x", "&lt;script&gt;", "</span>", "<span class=\"lemma\">", "a&b", "C++ & C#", "`x`", "{{.}}", "\x00<", "javascript:alert(1)"}
)

func randWord(r *RNG) string {
	if r.p(1, 6) {
		return randFold(r, r.p(1, 2))
	}
	n := r.between(1, 12)
	alpha := "abcdefghijklmnopqrstuvwxyz"
	switch r.n(6) {
	case 0:
		alpha = "ABCxyz019_"
	case 1:
		alpha = "aA.,'1"
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte(alpha[r.n(len(alpha))])
	}
	return b.String()
}

// randFold makes a word with characters that have an ASCII form
func randFold(r *RNG, letters bool) string {
	var b strings.Builder
	for i := r.between(1, 5); i > 0; i-- {
		switch r.n(8) {
		case 0:
			b.WriteByte("aXz_9"[r.n(5)])
			continue
		case 1:
			if !letters {
				b.WriteString(r.pick([]string{"\xff", "\ufffd", "\u0301", "日", "\xe2\x81", "😀", "\u0080"}))
				continue
			}
		}
		e := foldTable[r.n(len(foldTable))]
		if c := e[0][0]; letters && (c < 'A' || c > 'z' || c > 'Z' && c < 'a') {
			continue
		}
		cs := []rune(e[1])
		b.WriteRune(cs[r.n(len(cs))])
	}
	if b.Len() == 0 {
		return "é"
	}
	return b.String()
}

// one or more characters of each class that word segmentation tells apart
var breakClasses = []string{"aZéЯ", "בש", "1٣", "カ", "_‿", ":·", ".’", ",;٬", "'", "\"", "\u0301\u0903", "\u00ad\u2060", "\u200d", "🇩🇪", "👍☕", "\r", "\n", "\u0085\u2028", " \u3000", "あ漢-", "\u00a0", "각ᄀ", "@#"}

// randBreak makes a sequence of characters of random classes: what is joined and what is not depends on several of them
func randBreak(r *RNG) string {
	var b strings.Builder
	cl := make([]string, r.between(2, 4))
	for i := range cl {
		cl[i] = r.pick(breakClasses)
	}
	for i := r.between(2, 9); i > 0; i-- {
		rs := []rune(cl[r.n(len(cl))])
		b.WriteRune(rs[r.n(len(rs))])
	}
	return b.String()
}

func randRunes(r *RNG) string {
	if r.p(1, 2) {
		return randBreak(r)
	}
	if r.p(1, 4) {
		var b strings.Builder
		for i := r.between(1, 4); i > 0; i-- {
			b.WriteRune(rune([]int{0x800, 0x10000, 0x20000}[r.n(3)] * r.n(1<<16) >> 16))
		}
		return b.String()
	}
	base := []int{0x20, 0xa0, 0x300, 0x400, 0x5d0, 0x600, 0x900, 0xe00, 0x1100, 0x2000, 0x2100, 0x3040, 0x4e00, 0xac00, 0xfb00, 0xff00, 0x1f1e6, 0x1f300, 0xe0020}[r.n(19)]
	var b strings.Builder
	for i := r.between(1, 6); i > 0; i-- {
		b.WriteRune(rune(base + r.n(96)))
	}
	return b.String()
}

var (
	mkNames = strings.Fields("p div span a b i em h1 h6 li ul ol td tr table br hr img input form select option code pre blockquote section x-y my-element svg math path html body head meta link label button video q s u abbr o:p")
	mkAttrs = strings.Fields("href src class id style title alt data-x onclick disabled checked xml:lang aria-label HREF Class _a :b @click v-if #r")
	mkSpace = []string{" ", " ", " ", "  ", "\n", "\t", "\r\n", " \n\t ", "\f", "/", " / "}
	mkText  = []string{"x", "can't", "a > b", "a<b", "&amp;", "&lt;p&gt;", "&quot;", "http://x.y/?a=1&b=2", "", " ", "Ruby on Rails", "é日本", "1,000", "--", "->", "-", "!", "\x00", "\xff", "a\nb", "\r\n", "#", "=", "`"}
)

func randCase(r *RNG, s string) string {
	switch r.n(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if r.p(1, 2) {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return s
}

// randMarkup makes one piece of markup
func randMarkup(r *RNG) string {
	var b strings.Builder
	text := func(n int, not string) string {
		var t strings.Builder
		for i := r.n(n + 1); i > 0; i-- {
			s := r.pick(mkText)
			if not == "" || !strings.Contains(s, not) {
				t.WriteString(s)
				if r.p(1, 2) {
					t.WriteByte(' ')
				}
			}
		}
		return t.String()
	}
	attrs := func(n int) {
		for i := r.n(n + 1); i > 0; i-- {
			b.WriteString(r.pick(mkSpace))
			b.WriteString(randCase(r, r.pick(mkAttrs)))
			if r.p(1, 5) {
				continue
			}
			if r.p(1, 6) {
				b.WriteString(r.pick(mkSpace[:9]))
			}
			b.WriteString("=")
			if r.p(1, 6) {
				b.WriteString(r.pick(mkSpace[:9]))
			}
			switch r.n(3) {
			case 0:
				b.WriteString(`"` + text(3, `"`) + `"`)
			case 1:
				b.WriteString("'" + text(3, "'") + "'")
			default:
				b.WriteString(r.pick([]string{"x", "1", "a/b", "&amp;", "é", "a=b", "x'y", "`", "/"}))
			}
		}
		if r.p(1, 4) {
			b.WriteString(r.pick(mkSpace[:9]))
		}
	}
	switch r.n(12) {
	case 0, 1, 2, 3:
		b.WriteString("<" + randCase(r, r.pick(mkNames)))
		attrs(3)
		if r.p(1, 6) {
			b.WriteString("/")
		}
		b.WriteString(">")
	case 4, 5, 6:
		b.WriteString("</" + randCase(r, r.pick(mkNames)))
		if r.p(1, 6) {
			attrs(1)
		} else if r.p(1, 4) {
			b.WriteString(r.pick(mkSpace))
		}
		b.WriteString(">")
	case 7:
		b.WriteString("<!--" + text(4, "") + r.pick([]string{"-->", "-->", "-->", "--!>", "--->"}) + "-->")
	case 8:
		b.WriteString("<!" + randCase(r, "doctype") + r.pick([]string{" ", "  ", "\n", "\t", ""}) + randCase(r, "html"))
		switch r.n(4) {
		case 0:
			b.WriteString(` PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN"` + r.pick(mkSpace) + `"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd"`)
		case 1:
			b.WriteString(` SYSTEM 'about:legacy-compat'`)
		}
		if r.p(1, 3) {
			b.WriteString(r.pick(mkSpace))
		}
		b.WriteString(">")
	case 9:
		b.WriteString(r.pick([]string{"<?", "<!", "</?", "</ ", "<![CDATA["}) + text(2, ">") + ">")
	case 10, 11:
		n := r.pick([]string{"script", "style"})
		b.WriteString("<" + randCase(r, n))
		if r.p(1, 2) {
			b.WriteString(r.pick([]string{" type='x'", " a=b c", "\n", " src=\"a > b\" async ", " type=\"text/template\"", "/", " /", " src=/js/"}))
		}
		b.WriteString(">")
		for i := r.n(4); i > 0; i-- {
			b.WriteString(r.pick(mkText))
			if r.p(1, 3) {
				b.WriteString(r.pick([]string{"<b>", "</p>", "</scr", "<!-- x -->", "</styles>", "</script-x>", "&lt;", "<style>", "'</'+'script>'", " "}))
			}
		}
		b.WriteString("</" + randCase(r, n) + r.pick([]string{"", "", "", " ", "\n", " x=y"}) + ">")
	}
	return b.String()
}

// docGen makes documents; its weights are drawn once per run, so that runs differ in character
type docGen struct {
	r       *RNG
	w       []int
	phrases []string
	html    bool
	dense   bool
	long    int // how many elements of unusual length may still come
}

func newDocGen(r *RNG, html bool, phrases []string) *docGen {
	g := &docGen{r: r, phrases: phrases, html: html}
	base := []int{30, 10, 8, 4, 20, 10, 4, 4, 0, 0, 0, 0, 4}
	g.w = make([]int, len(base))
	for i, b := range base {
		switch r.n(4) {
		case 0: // left out this time
		case 1:
			g.w[i] = b
		case 2:
			g.w[i] = b * 3
		case 3:
			g.w[i] = b / 2
		}
	}
	g.w[0] += 2
	g.w[4] += 3
	if html {
		g.w[8] = r.between(5, 30)
		g.w[9] = r.n(8)
		if r.p(1, 4) {
			g.w[10] = r.between(1, 4)
		}
	}
	if len(phrases) > 0 {
		g.w[11] = r.between(3, 40)
	}
	if r.p(1, 16) {
		g.long = r.between(1, 2)
	}
	g.dense = r.p(1, 5)
	if g.dense {
		g.w[1] += 40
		g.w[5] += 20
	}
	return g
}

// longAtom makes one element of unusual length, or an unusual number of equal ones in a row
func (g *docGen) longAtom() string {
	r := g.r
	g.long--
	n := 1<<r.between(4, 11) + r.between(-2, 2)
	if r.p(1, 8) {
		n = 1<<r.between(12, 14) + r.between(-2, 2)
	}
	if r.p(1, 3) {
		n = r.between(16, 1500)
	}
	times := func(s string) string { return strings.Repeat(s, n/len(s)+1)[:n/len(s)*len(s)] }
	k := 7
	if g.html {
		k = 13
	}
	switch r.n(k) {
	case 0: // a long word
		return times(r.pick([]string{"a", "A", "x1", "é", "日", "カ", "a_", "don't", "1,", "a.b", "ß", "e\u0301", "\xff", "👩\u200d"}))
	case 1: // many words
		return times(r.pick(atomWords) + " ")
	case 2:
		return times(r.pick(atomPunct))
	case 3:
		if n > 2000 {
			n = 2000
		}
		return times(r.pick(atomSpace))
	case 4:
		return times(r.pick(atomSigil))
	case 5:
		return times(r.pick(atomJoin) + r.pick([]string{" ", ", ", "\n", "-"}))
	case 6:
		if len(g.phrases) > 0 {
			return times(r.pick(g.phrases) + r.pick([]string{" ", ", ", "\n", ""}) + " ")
		}
		return times(r.pick(atomTech) + " ")
	case 7:
		return times(r.pick(atomHTML))
	case 8:
		return "<!--" + times(r.pick([]string{"x", "a b ", "-", "é", "<p>", "\n"})) + "-->"
	case 9:
		return "<p title='" + times(r.pick([]string{"x", "a b ", "é", "<p>", "&amp;"})) + "'>"
	case 10:
		nm := r.pick([]string{"script", "style"})
		return "<" + nm + ">" + times(r.pick([]string{"x", "a b ", "é", "<p>", "\n", "// x\n", "</scr"})) + "</" + nm + ">"
	case 11:
		return "<p>" + times(r.pick([]string{"x", "a b ", "é ", "can't ", "\n", "&amp; ", "&lt;"})) + "</p>"
	default:
		return times("<"+r.pick(mkNames)+">") + times("</"+r.pick(mkNames)+">")
	}
}

func (g *docGen) atom() string {
	r := g.r
	if g.long > 0 && r.p(1, 12) {
		return g.longAtom()
	}
	switch r.weighted(g.w) {
	case 0:
		return r.pick(atomWords)
	case 1:
		return r.pick(atomJoin)
	case 2:
		return r.pick(atomTech)
	case 3:
		return r.pick(atomSigil)
	case 4:
		return r.pick(atomSpace)
	case 5:
		return r.pick(atomPunct)
	case 6:
		return r.pick(atomOdd)
	case 7:
		return randWord(r)
	case 8:
		if r.p(1, 3) {
			return randMarkup(r)
		}
		return r.pick(atomHTML)
	case 9:
		return r.pick(atomRaw)
	case 10:
		return r.pick(atomBad)
	case 11:
		return r.pick(g.phrases)
	default:
		return randRunes(r)
	}
}

func (g *docGen) fill(n int) []byte {
	var b []byte
	for len(b) < n {
		b = append(b, g.atom()...)
		if !g.dense && g.r.p(1, 2) {
			b = append(b, ' ')
		}
	}
	return b
}

// doc makes a document of one of the interesting lengths, up to max
func (g *docGen) doc(max int) []byte {
	r := g.r
	switch k := r.n(20); {
	case k == 0:
		return nil
	case k <= 3:
		return g.fill(r.between(1, 12))
	case k <= 12:
		return g.fill(r.between(5, 200))
	case k <= 15:
		n := r.between(200, 2000)
		if n > max {
			n = max
		}
		return g.fill(n)
	}
	// around a buffer boundary, with something delicate right there
	bounds := []int{4096, 8192, 512, 1024, 16384, 4096, 4096, 65536, 32768}
	b := bounds[r.n(len(bounds))]
	if b > max {
		b = 512
	}
	start := b - r.between(0, 24)
	var d []byte
	if r.p(1, 2) {
		d = g.fill(start - 40)
	}
	for len(d) < start {
		w := r.pick(atomWords)
		if len(d)+len(w)+1 > start {
			w = strings.Repeat("z", start-len(d)-1)
		}
		d = append(d, w...)
		d = append(d, ' ')
	}
	d = d[:start]
	d = append(d, g.delicate()...)
	d = append(d, g.fill(r.between(0, 100))...)
	if len(d) > max {
		d = d[:max]
	}
	return d
}

// overlong puts a word that is longer than the tokenizer's buffer into one document of n
func overlong(r *RNG, doc []byte, html bool, n int) []byte {
	if !r.p(1, n) {
		return doc
	}
	k := []int{65536, 66000, 70000, 131072}[r.n(4)] + r.between(-3, 3)
	w := r.pick([]string{"x", "A", "é", "日", "a_", "x1", "don't", "1,", "👩\u200d", "a\u0301"})
	w = strings.Repeat(w, k/len(w)+1)
	if html && r.p(1, 2) {
		w = "<p>" + w + "</p>"
	}
	i := r.between(0, len(doc))
	return append(append(append([]byte(nil), doc[:i]...), w...), doc[i:]...)
}

// readsOf makes a delivery schedule for a document, in larger pieces if there is an overlong word: the tokenizer looks at
// the whole of it again after each read
func readsOf(r *RNG, doc []byte) ReadPlan {
	run := 0
	for _, b := range doc {
		run++
		if b == ' ' || b == '\n' || b == '>' {
			run = 0
		}
		if run > maxWord {
			return longReads(r)
		}
	}
	return genReads(r, len(doc))
}

func (g *docGen) delicate() []byte {
	r := g.r
	var b []byte
	for i := r.between(2, 6); i > 0; i-- {
		switch r.n(6) {
		case 0, 1:
			b = append(b, r.pick(atomJoin)...)
		case 5:
			b = append(b, randBreak(r)...)
		case 2:
			b = append(b, r.pick(atomOdd)...)
		case 3:
			b = append(b, r.pick(atomTech)...)
		case 4:
			b = append(b, r.pick(atomSigil)...)
		}
		if r.p(1, 2) {
			b = append(b, r.pick(atomSpace)...)
		}
	}
	return b
}

// readPlan makes a delivery schedule without failure
func genReads(r *RNG, n int) ReadPlan {
	pl := ReadPlan{Fail: -1}
	switch r.n(7) {
	case 0: // at once
	case 1:
		pl.Sizes = []int{1}
		if n > 20000 {
			pl.Sizes = []int{7}
		}
	case 2:
		pl.Sizes = []int{r.between(2, 9)}
	case 3:
		for i := r.between(2, 12); i > 0; i-- {
			pl.Sizes = append(pl.Sizes, r.between(1, 17))
		}
	case 4:
		for i := r.between(2, 12); i > 0; i-- {
			pl.Sizes = append(pl.Sizes, []int{0, 1, 2, 3, 64, 511, 512, 4095, 4096, 4097, -1, 0}[r.n(12)])
		}
	case 5:
		pl.Sizes = []int{[]int{1023, 1024, 4095, 4096, 511}[r.n(5)]}
	case 6:
		for i := r.between(2, 30); i > 0; i-- {
			pl.Sizes = append(pl.Sizes, r.between(0, 40))
		}
	}
	nz := false
	for _, s := range pl.Sizes {
		nz = nz || s != 0
	}
	if !nz && len(pl.Sizes) > 0 {
		pl.Sizes[0] = 3
	}
	pl.EOFWith = r.p(1, 3)
	pl.Scribble = r.p(1, 3)
	if r.p(1, 4) {
		pl.Wrap = r.pick(wraps)
	}
	return pl
}

// addFailure makes the source fail somewhere in n bytes, preferably where something is in flight
func addFailure(r *RNG, pl *ReadPlan, doc []byte) {
	n := len(doc)
	switch r.n(6) {
	case 0:
		pl.Fail = n
	case 1:
		pl.Fail = 0
	case 2:
		pl.Fail = n - r.between(0, 8)
	case 3: // inside a multi-byte character or right after a space or punctuation
		pl.Fail = r.between(0, n)
		for i := 0; i < 200 && pl.Fail < n; i++ {
			if c := doc[pl.Fail]; !utf8.RuneStart(c) || c == ' ' || c == '\'' || c == '.' || c == '<' {
				break
			}
			pl.Fail++
		}
	default:
		pl.Fail = r.between(0, n)
	}
	if pl.Fail < 0 {
		pl.Fail = 0
	}
	if pl.Fail > n {
		pl.Fail = n
	}
	pl.FailWith = r.p(1, 2)
	pl.Err = r.pick(readErrNames)
	pl.After = []string{"", "data", "eof", "err"}[r.n(4)]
}
