From 76ab01b2cb697af47c5f399a24a98fafad11f290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:01 +0000
Subject: [PATCH 01/25] fix: tokens no longer depend on read and buffer
 boundaries

Words joined by punctuation (can't, node.js, 1,000) were split apart when the
data available to the scanner ended right after the punctuation, e.g. at a
4K buffer boundary or with a reader that returns small chunks.
---
 tokenizer.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/tokenizer.go b/tokenizer.go
index ea098e3..ac0ca1c 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -3,6 +3,8 @@ package jargon
 import (
 	"io"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/clipperhouse/uax29/iterators"
 	"github.com/clipperhouse/uax29/words"
@@ -31,10 +33,35 @@ type tokenizer struct {
 
 func newTokenizer(r io.Reader) *tokenizer {
 	return &tokenizer{
-		sc: words.NewScanner(r),
+		sc: iterators.NewScanner(r, split),
 	}
 }
 
+// split is words.SplitFunc, except that its results don't depend on where the available data happens to end.
+func split(data []byte, atEOF bool) (advance int, token []byte, err error) {
+	advance, token, err = words.SplitFunc(data, atEOF)
+	if atEOF || err != nil || advance == 0 {
+		return advance, token, err
+	}
+
+	// Whether punctuation joins two words (can't, node.js, 1,000) depends on what follows it. If that's
+	// not available yet, SplitFunc reports a break prematurely, so we need to request more.
+	rest := data[advance:]
+	r, _ := utf8.DecodeRune(rest)
+	if unicode.IsLetter(r) || unicode.IsNumber(r) || unicode.IsSpace(r) {
+		return advance, token, nil
+	}
+	following, _, err := words.SplitFunc(rest, false)
+	if err != nil {
+		return 0, nil, err
+	}
+	if following == 0 {
+		return 0, nil, nil
+	}
+
+	return advance, token, nil
+}
+
 // next returns the next token. Call until it returns nil.
 func (t *tokenizer) next() (*Token, error) {
 	if t.sc.Scan() {
-- 
2.43.0


From a19692910d23f4b484d8aa61d2048c40c7126f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:02 +0000
Subject: [PATCH 02/25] fix: tokenize HTML text following a script or style
 element

Leaving a script or style element was not recorded, so all later text came
back as single, untokenized tokens.
---
 tokenizer_html.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenizer_html.go b/tokenizer_html.go
index fbedc36..45c9454 100644
--- a/tokenizer_html.go
+++ b/tokenizer_html.go
@@ -74,7 +74,7 @@ func (t *htokenizer) next() (*Token, error) {
 		}
 	case html.EndTagToken:
 		if htoken.DataAtom == t.parent {
-			htoken.DataAtom = 0
+			t.parent = 0
 		}
 	}
 
-- 
2.43.0


From 671d39f2cfd7c01b50084665cf1373f652f69f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:03 +0000
Subject: [PATCH 03/25] fix: TokenizeHTML returns markup and text verbatim

Tokens were re-serialized from parsed HTML, which escaped script and style
contents and apostrophes (Let's became Let&#39;s and was split apart),
rewrote tags and line endings, and dropped an incomplete trailing tag.
---
 tokenizer_html.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tokenizer_html.go b/tokenizer_html.go
index 45c9454..19cac76 100644
--- a/tokenizer_html.go
+++ b/tokenizer_html.go
@@ -41,7 +41,15 @@ func (t *htokenizer) next() (*Token, error) {
 
 	htype := t.htokenizer.Next()
 
+	// Keep the verbatim text; must be called before Token(), which modifies the underlying bytes
+	raw := string(t.htokenizer.Raw())
+
 	if htype == html.ErrorToken {
+		if raw != "" {
+			// An incomplete tag at the end of input. The tokenizer will return the error again.
+			return &Token{value: raw, punct: true}, nil
+		}
+
 		err := t.htokenizer.Err()
 		if err == io.EOF {
 			// No problem
@@ -63,13 +71,13 @@ func (t *htokenizer) next() (*Token, error) {
 		case atom.Script, atom.Style:
 			// Don't tokenize script and style blocks, just return as one big string
 			token := &Token{
-				value: htoken.String(),
+				value: raw,
 				punct: false,
 				space: false,
 			}
 			return token, nil
 		default:
-			t.ttokens = TokenizeString(htoken.String())
+			t.ttokens = TokenizeString(raw)
 			return t.ttokens.Next()
 		}
 	case html.EndTagToken:
@@ -80,7 +88,7 @@ func (t *htokenizer) next() (*Token, error) {
 
 	// Everything else is punct for our purposes
 	token := &Token{
-		value: htoken.String(),
+		value: raw,
 		punct: true,
 		space: false,
 	}
-- 
2.43.0


From 12d297d6359482d4ea87db7ac8c5852d135554ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:04 +0000
Subject: [PATCH 04/25] fix: synonyms filter streams tokens instead of
 consuming all input first

The first call to Next read the entire input into the outgoing queue, so
memory grew with the input and popping the queue took quadratic time.
---
 filters/synonyms/filter.go | 37 +++++++++++--------------------------
 1 file changed, 11 insertions(+), 26 deletions(-)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index a25473c..3e3dfce 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -137,26 +137,25 @@ type tokens struct {
 
 // next returns the next token; nil indicates end of data
 func (t *tokens) next() (*jargon.Token, error) {
-	// Buffer should be clear after every call to next()
-	if t.buffer.Len() != 0 {
-		return nil, fmt.Errorf("expected buffer to be empty")
-	}
-
-	// Clear out any outgoing
-	if t.outgoing.Any() {
-		return t.outgoing.Pop(), nil
-	}
-
-	// Consume all the words
+	// Only consume as much as needed to return a token
 	for {
+		// Clear out any outgoing
+		if t.outgoing.Any() {
+			return t.outgoing.Pop(), nil
+		}
+
 		err := t.fill()
 		if err != nil {
 			return nil, err
 		}
 
 		if t.buffer.Len() == 0 {
+			if t.outgoing.Any() {
+				// Trailing space & punct
+				continue
+			}
 			// Nothing left
-			break
+			return nil, nil
 		}
 
 		run, err := t.wordrun()
@@ -164,11 +163,6 @@ func (t *tokens) next() (*jargon.Token, error) {
 			return nil, err
 		}
 
-		if len(run) == 0 {
-			// No more words
-			break
-		}
-
 		// Try to lemmatize
 		found, canonical, consumed := t.filter.trie.SearchCanonical(run...)
 		if found {
@@ -183,15 +177,6 @@ func (t *tokens) next() (*jargon.Token, error) {
 		// The word didn't lemmatize, pass it along verbatim
 		t.buffer.PopTo(t.outgoing)
 	}
-
-	// Queue up the rest of the buffer to go out
-	t.buffer.FlushTo(t.outgoing)
-
-	if t.outgoing.Any() {
-		return t.outgoing.Pop(), nil
-	}
-
-	return nil, nil
 }
 
 // fill the buffer until EOF, punctuation, or enough word tokens
-- 
2.43.0


From 4ffa3634c471e0654e19a5379209cd2c24a0e7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:05 +0000
Subject: [PATCH 05/25] fix: synonyms filter stays failed after an error from
 its source

A read error was returned ahead of tokens already determined, and calls after
it returned those tokens as if nothing happened. Return them first, and the
error from then on.
---
 filters/synonyms/filter.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index 3e3dfce..2932a18 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -133,6 +133,8 @@ type tokens struct {
 	// outgoing queue of filtered tokens
 	outgoing *tokenqueue.TokenQueue
 	filter   *filter
+	// an error from incoming, which ends the stream
+	err error
 }
 
 // next returns the next token; nil indicates end of data
@@ -144,9 +146,14 @@ func (t *tokens) next() (*jargon.Token, error) {
 			return t.outgoing.Pop(), nil
 		}
 
-		err := t.fill()
-		if err != nil {
-			return nil, err
+		if t.err != nil {
+			return nil, t.err
+		}
+
+		t.err = t.fill()
+		if t.err != nil {
+			t.buffer.Clear()
+			continue
 		}
 
 		if t.buffer.Len() == 0 {
-- 
2.43.0


From 16ecc6ca703ecab5d03b392dcc45fddc446b9d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:06 +0000
Subject: [PATCH 06/25] fix: report a failed synonyms build on every use of the
 filter

Only the first use returned the error; later ones panicked on the nil trie.
---
 filters/synonyms/filter.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index 2932a18..ea47815 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -16,6 +16,7 @@ type filter struct {
 	// For lazy loading, see build() below
 	config *config
 	once   sync.Once
+	err    error // result of lazy loading
 
 	trie     *trie.RuneTrie
 	maxWords int
@@ -102,9 +103,8 @@ func updateMaxWords(tokens []*jargon.Token, maxWords *int) {
 func (f *filter) Filter(incoming *jargon.TokenStream) *jargon.TokenStream {
 	// Lazily build the trie on first call, i.e. don't pay for the construction
 	// unless we use it
-	var err error
 	f.once.Do(func() {
-		err = f.build()
+		f.err = f.build()
 	})
 
 	t := &tokens{
@@ -116,8 +116,8 @@ func (f *filter) Filter(incoming *jargon.TokenStream) *jargon.TokenStream {
 
 	// Catch the error that may have resulted from lazy construction above
 	next := func() (*jargon.Token, error) {
-		if err != nil {
-			return nil, err
+		if f.err != nil {
+			return nil, f.err
 		}
 		return t.next()
 	}
-- 
2.43.0


From 08c8fbd7dd4b0d6b3a23c6e2ff2337fc10cf2a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:07 +0000
Subject: [PATCH 07/25] fix: sigil filter considers queued lookahead tokens

A token looked ahead at and put back was passed on without becoming the
previous token or being tried as a sigil itself, so toolonghandle@name was
joined although preceded by a word, and @@name was not joined.
---
 filters/sigil/filter.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/filters/sigil/filter.go b/filters/sigil/filter.go
index bcc81ba..c568596 100644
--- a/filters/sigil/filter.go
+++ b/filters/sigil/filter.go
@@ -39,11 +39,7 @@ type stream struct {
 }
 
 func (s *stream) next() (*jargon.Token, error) {
-	if s.outgoing.Any() {
-		return s.outgoing.Pop(), nil
-	}
-
-	current, err := s.incoming.Next()
+	current, err := s.pull()
 	if err != nil {
 		return nil, err
 	}
@@ -76,12 +72,20 @@ func (s *stream) next() (*jargon.Token, error) {
 	return current, nil
 }
 
+// pull gets the next token, from the lookahead queue if there is one
+func (s *stream) pull() (*jargon.Token, error) {
+	if s.outgoing.Any() {
+		return s.outgoing.Pop(), nil
+	}
+	return s.incoming.Next()
+}
+
 func (s *stream) try(sigil string, current *jargon.Token, legal func(string) bool) (bool, *jargon.Token, error) {
 	if current.String() != sigil {
 		return false, nil, nil
 	}
 
-	lookahead, err := s.incoming.Next()
+	lookahead, err := s.pull()
 	if err != nil {
 		return false, nil, err
 	}
-- 
2.43.0


From 95604acb196a1c5715d07004d8e8411ee80596f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:08 +0000
Subject: [PATCH 08/25] fix: CLI reports an error closing the output file

A write error that the file system reports only on close was ignored, and the
command exited 0 with incomplete output.
---
 cmd/jargon/main.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/jargon/main.go b/cmd/jargon/main.go
index 330f227..f002f1c 100644
--- a/cmd/jargon/main.go
+++ b/cmd/jargon/main.go
@@ -91,9 +91,6 @@ func main() {
 	//
 	err = setOutput(&c, *fileout)
 	check(err)
-	if c.Fileout != nil {
-		defer c.Fileout.Close()
-	}
 
 	//
 	// Reader
@@ -112,6 +109,12 @@ func main() {
 	//
 	err = execute(&c)
 	check(err)
+
+	if c.Fileout != nil {
+		// Deferred write errors may only be reported here
+		err = c.Fileout.Close()
+		check(err)
+	}
 }
 
 type config struct {
-- 
2.43.0


From 8fcfdcbf924ba76ccc609c8fb412175990b74d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:08 +0000
Subject: [PATCH 09/25] fix: conflicting synonyms no longer depend on map
 iteration order

---
 filters/synonyms/filter.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index ea47815..aed8ba1 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -4,6 +4,7 @@ package synonyms
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"sync"
 
 	"github.com/clipperhouse/jargon"
@@ -44,7 +45,16 @@ func NewFilter(mappings map[string]string, ignoreCase bool, ignoreRunes []rune)
 func (f *filter) build() error {
 	trie := trie.New(f.config.ignoreCase, f.config.ignoreRunes)
 	maxWords := 1
-	for synonyms, canonical := range f.config.mappings {
+
+	// Maps have random order; where synonyms conflict, the result should not be random
+	keys := make([]string, 0, len(f.config.mappings))
+	for synonyms := range f.config.mappings {
+		keys = append(keys, synonyms)
+	}
+	sort.Strings(keys)
+
+	for _, synonyms := range keys {
+		canonical := f.config.mappings[synonyms]
 		tokens, err := jargon.TokenizeString(synonyms).ToSlice()
 		if err != nil {
 			return err
-- 
2.43.0


From 37e762c7eda532292c496ce5823344f6254eeceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:09 +0000
Subject: [PATCH 10/25] fix: an empty synonym matches nothing

A trailing comma in a list of synonyms matched any word made up of ignored
runes, which was then replaced by the canonical term.
---
 filters/synonyms/trie/trie.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filters/synonyms/trie/trie.go b/filters/synonyms/trie/trie.go
index 26f71aa..cc2740e 100644
--- a/filters/synonyms/trie/trie.go
+++ b/filters/synonyms/trie/trie.go
@@ -87,6 +87,11 @@ func (t *RuneTrie) Add(tokens []*jargon.Token, canonical string) {
 		}
 	}
 
+	if n == t.root {
+		// Nothing to match, e.g. a trailing comma in a list of synonyms
+		return
+	}
+
 	n.hasCanonical = true
 	n.canonical = canonical
 }
-- 
2.43.0


From d309d1fa40b6c1082288ed7c2746e1ae81b9e4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:10 +0000
Subject: [PATCH 11/25] fix: stackoverflow generator rejects an error status

An error response without Stack Exchange's error fields was taken for the
last page, and a shortened dictionary was written.
---
 filters/stackoverflow/generate/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filters/stackoverflow/generate/main.go b/filters/stackoverflow/generate/main.go
index 248513c..36c65a5 100644
--- a/filters/stackoverflow/generate/main.go
+++ b/filters/stackoverflow/generate/main.go
@@ -221,6 +221,10 @@ func fetchTags(page, pageSize int, site string) (wrapper, error) {
 		return wrapper, fmt.Errorf("%s: %s", wrapper.ErrorName, wrapper.ErrorMessage)
 	}
 
+	if r.StatusCode != http.StatusOK {
+		return wrapper, fmt.Errorf("status code error: %d %s", r.StatusCode, r.Status)
+	}
+
 	return wrapper, nil
 }
 
-- 
2.43.0


From ecc60885c7e335bf1c026c361080bfa87b02820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:11 +0000
Subject: [PATCH 12/25] fix: generators report an error closing the generated
 file

---
 filters/contractions/generate/main.go  | 4 ++--
 filters/nba/generate/main.go           | 4 ++--
 filters/stackoverflow/generate/main.go | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/filters/contractions/generate/main.go b/filters/contractions/generate/main.go
index 5c36dd6..6cc0333 100644
--- a/filters/contractions/generate/main.go
+++ b/filters/contractions/generate/main.go
@@ -71,14 +71,14 @@ func write() error {
 	if createErr != nil {
 		return createErr
 	}
-	defer f.Close()
 
 	_, writeErr := f.Write(formatted)
 	if writeErr != nil {
+		f.Close()
 		return writeErr
 	}
 
-	return nil
+	return f.Close()
 }
 
 const a = "'"
diff --git a/filters/nba/generate/main.go b/filters/nba/generate/main.go
index eae2f00..e5fe9bb 100644
--- a/filters/nba/generate/main.go
+++ b/filters/nba/generate/main.go
@@ -101,14 +101,14 @@ func write(mappings map[string]string) error {
 	if createErr != nil {
 		return createErr
 	}
-	defer f.Close()
 
 	_, writeErr := f.Write(formatted)
 	if writeErr != nil {
+		f.Close()
 		return writeErr
 	}
 
-	return nil
+	return f.Close()
 }
 
 var tmpl = template.Must(template.New("").Parse(`
diff --git a/filters/stackoverflow/generate/main.go b/filters/stackoverflow/generate/main.go
index 36c65a5..ed4be15 100644
--- a/filters/stackoverflow/generate/main.go
+++ b/filters/stackoverflow/generate/main.go
@@ -156,14 +156,14 @@ func writeDictionary() error {
 	if createErr != nil {
 		return createErr
 	}
-	defer f.Close()
 
 	_, writeErr := f.Write(formatted)
 	if writeErr != nil {
+		f.Close()
 		return writeErr
 	}
 
-	return nil
+	return f.Close()
 }
 
 var tmpl = template.Must(template.New("").Parse(`
-- 
2.43.0


From d26cacb2ecc35700627380f3666faa7dc666d4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:55 +0000
Subject: [PATCH 13/25] fix: nba generator fails if the page holds no players

---
 filters/nba/generate/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filters/nba/generate/main.go b/filters/nba/generate/main.go
index e5fe9bb..634881b 100644
--- a/filters/nba/generate/main.go
+++ b/filters/nba/generate/main.go
@@ -46,6 +46,9 @@ func fetchNames() ([]string, error) {
 	links.Each(func(i int, s *goquery.Selection) {
 		names = append(names, s.Text())
 	})
+	if len(names) == 0 {
+		return nil, fmt.Errorf("no players found, perhaps the page has changed")
+	}
 
 	return names, nil
 }
-- 
2.43.0


From 95261b5fd924193fe3b12a6c146d1a6d3e8e09f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:55 +0000
Subject: [PATCH 14/25] fix: stackoverflow generator fails if no tags were
 received

---
 filters/stackoverflow/generate/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filters/stackoverflow/generate/main.go b/filters/stackoverflow/generate/main.go
index ed4be15..bb2d747 100644
--- a/filters/stackoverflow/generate/main.go
+++ b/filters/stackoverflow/generate/main.go
@@ -132,6 +132,10 @@ func writeDictionary() error {
 		}
 	}
 
+	if len(mappings) == 0 {
+		return fmt.Errorf("no tags received from api.stackexchange.com")
+	}
+
 	var source bytes.Buffer
 
 	tmplErr := tmpl.Execute(&source, mappings)
-- 
2.43.0


From 89441c873f9216ded7e3b679295f85cc3d3ede40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:58 +0000
Subject: [PATCH 15/25] fix: a token mapped to nothing no longer ends the
 stream

---
 filters/mapper/filter.go | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/filters/mapper/filter.go b/filters/mapper/filter.go
index 7f307c8..ff9be9d 100644
--- a/filters/mapper/filter.go
+++ b/filters/mapper/filter.go
@@ -35,17 +35,25 @@ type tokens struct {
 }
 
 func (t *tokens) next() (*jargon.Token, error) {
-	token, err := t.incoming.Next()
-	if err != nil {
-		return nil, err
+	for {
+		token, err := t.incoming.Next()
+		if err != nil {
+			return nil, err
+		}
+		if token == nil {
+			return nil, nil
+		}
+
+		for _, f := range t.filter.funcs {
+			token = f(token)
+			if token == nil {
+				break
+			}
+		}
+
+		if token != nil {
+			return token, nil
+		}
+		// Nothing left of the token, such as a stem without letters; that's not the end of the stream
 	}
-	if token == nil {
-		return nil, nil
-	}
-
-	for _, f := range t.filter.funcs {
-		token = f(token)
-	}
-
-	return token, nil
 }
-- 
2.43.0


From a4dec29196de67f4ca9bc175e1826e7583cead1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:23 +0000
Subject: [PATCH 16/25] fix: CLI applies filters given with two dashes or an
 explicit value

---
 cmd/jargon/main.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmd/jargon/main.go b/cmd/jargon/main.go
index f002f1c..ffdf550 100644
--- a/cmd/jargon/main.go
+++ b/cmd/jargon/main.go
@@ -192,6 +192,16 @@ var stemmerMap = map[string]jargon.Filter{
 func setFilters(c *config, args []string, lang string) error {
 	// Loop through filters; order matters, so can't use flag package
 	for _, arg := range args {
+		// The flag package also accepts two dashes, and an explicit value
+		if strings.HasPrefix(arg, "--") {
+			arg = arg[1:]
+		}
+		if i := strings.IndexByte(arg, '='); i >= 0 {
+			if on, err := strconv.ParseBool(arg[i+1:]); err == nil && on {
+				arg = arg[:i]
+			}
+		}
+
 		filter, found := filterMap[arg]
 		if found {
 			if arg == "-stem" && lang != "" {
-- 
2.43.0


From 9f29c92cd05d622a1be1dc3f9fd66e86d1197d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:49 +0000
Subject: [PATCH 17/25] fix: synonyms filter hands out space and punctuation at
 once

---
 filters/synonyms/filter.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index aed8ba1..bc6b01a 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -160,21 +160,26 @@ func (t *tokens) next() (*jargon.Token, error) {
 			return nil, t.err
 		}
 
+		if t.buffer.Len() == 0 {
+			var token *jargon.Token
+			token, t.err = t.incoming.Next()
+			if token == nil || t.err != nil {
+				return nil, t.err
+			}
+			t.buffer.Push(token)
+		}
+
+		// Space & punct go straight out; don't look further, there might be a lot of these
+		if head := t.buffer.Tokens[0]; head.IsSpace() || head.IsPunct() {
+			return t.buffer.Pop(), nil
+		}
+
 		t.err = t.fill()
 		if t.err != nil {
 			t.buffer.Clear()
 			continue
 		}
 
-		if t.buffer.Len() == 0 {
-			if t.outgoing.Any() {
-				// Trailing space & punct
-				continue
-			}
-			// Nothing left
-			return nil, nil
-		}
-
 		run, err := t.wordrun()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From e48e0734c161e8a573d60490c3afbcd83a9aaf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:17 +0000
Subject: [PATCH 18/25] fix: jargon -out refuses to truncate the file it reads
 from

---
 cmd/jargon/main.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/cmd/jargon/main.go b/cmd/jargon/main.go
index ffdf550..d969517 100644
--- a/cmd/jargon/main.go
+++ b/cmd/jargon/main.go
@@ -134,6 +134,7 @@ type config struct {
 
 var errNoInput = fmt.Errorf("no input")
 var errTwoInput = fmt.Errorf("choose *either* an input -file argument *or* piped input")
+var errSameFile = fmt.Errorf("input and output are the same file")
 
 func printUsage() {
 	// Display usage
@@ -223,6 +224,11 @@ func setFilters(c *config, args []string, lang string) error {
 
 func setOutput(c *config, fileout string) error {
 	if fileout != "" {
+		// Creating the output truncates it; don't do that to the input
+		if isInput(c, fileout) {
+			return errSameFile
+		}
+
 		file, err := c.Fs.Create(fileout)
 		if err != nil {
 			return err
@@ -235,6 +241,28 @@ func setOutput(c *config, fileout string) error {
 	return nil
 }
 
+// isInput reports whether fileout is the very file that input is read from
+func isInput(c *config, fileout string) bool {
+	var in os.FileInfo
+	var err error
+	switch {
+	case c.Filein != nil:
+		in, err = c.Filein.Stat()
+	case c.Pipedin:
+		in, err = os.Stdin.Stat()
+	}
+	if err != nil || in == nil || !in.Mode().IsRegular() {
+		return false
+	}
+
+	out, err := c.Fs.Stat(fileout)
+	if err != nil {
+		// Most likely doesn't exist yet
+		return false
+	}
+	return os.SameFile(in, out)
+}
+
 func setReader(c *config) error {
 	if c.Pipedin || c.Pipedout {
 		// We're limited by the OS pipe buffer, typically 64K with back pressure
-- 
2.43.0


From 95a1569b6c18db50de3cd3a4e12aca87adf0dcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:34 +0000
Subject: [PATCH 19/25] fix: trie.RuneTrie.String does not depend on map order

---
 filters/synonyms/trie/trie.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/filters/synonyms/trie/trie.go b/filters/synonyms/trie/trie.go
index cc2740e..d9a1093 100644
--- a/filters/synonyms/trie/trie.go
+++ b/filters/synonyms/trie/trie.go
@@ -3,6 +3,7 @@ package trie
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"unicode"
 
 	"github.com/clipperhouse/jargon"
@@ -35,8 +36,14 @@ func (t *RuneTrie) String() string {
 	fmt.Fprintf(&b, "&trie.RuneTrie{\n")
 	if t.ignore != nil {
 		fmt.Fprintf(&b, "Ignore: map[rune]bool{\n")
-		for k, v := range t.ignore {
-			fmt.Fprintf(&b, "'%s': %t,\n", string(k), v)
+		// Maps have random order; the declaration should not
+		runes := make([]rune, 0, len(t.ignore))
+		for r := range t.ignore {
+			runes = append(runes, r)
+		}
+		sortRunes(runes)
+		for _, r := range runes {
+			fmt.Fprintf(&b, "'%s': %t,\n", string(r), t.ignore[r])
 		}
 		fmt.Fprintf(&b, "},\n")
 	}
@@ -146,8 +153,13 @@ func (n *node) String() string {
 	if n.children != nil {
 		// default value does not need to be declared
 		fmt.Fprintf(&b, "Children: map[rune]*trie.Node{\n")
-		for r, child := range n.children {
-			fmt.Fprintf(&b, "'%s': %s,\n", string(r), child.String())
+		runes := make([]rune, 0, len(n.children))
+		for r := range n.children {
+			runes = append(runes, r)
+		}
+		sortRunes(runes)
+		for _, r := range runes {
+			fmt.Fprintf(&b, "'%s': %s,\n", string(r), n.children[r].String())
 		}
 		fmt.Fprintf(&b, "},\n")
 	}
@@ -161,3 +173,7 @@ func (n *node) String() string {
 
 	return string(result)
 }
+
+func sortRunes(runes []rune) {
+	sort.Slice(runes, func(i, j int) bool { return runes[i] < runes[j] })
+}
-- 
2.43.0


From 967be7e40aae0afdb9d70b7339395a8b2d3bb5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:12 +0000
Subject: [PATCH 20/25] fix: jargon -out does not truncate a file it cannot
 tell from the input

---
 cmd/jargon/main.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/cmd/jargon/main.go b/cmd/jargon/main.go
index d969517..eb377a4 100644
--- a/cmd/jargon/main.go
+++ b/cmd/jargon/main.go
@@ -225,7 +225,11 @@ func setFilters(c *config, args []string, lang string) error {
 func setOutput(c *config, fileout string) error {
 	if fileout != "" {
 		// Creating the output truncates it; don't do that to the input
-		if isInput(c, fileout) {
+		same, err := isInput(c, fileout)
+		if err != nil {
+			return err
+		}
+		if same {
 			return errSameFile
 		}
 
@@ -242,7 +246,7 @@ func setOutput(c *config, fileout string) error {
 }
 
 // isInput reports whether fileout is the very file that input is read from
-func isInput(c *config, fileout string) bool {
+func isInput(c *config, fileout string) (bool, error) {
 	var in os.FileInfo
 	var err error
 	switch {
@@ -251,16 +255,21 @@ func isInput(c *config, fileout string) bool {
 	case c.Pipedin:
 		in, err = os.Stdin.Stat()
 	}
-	if err != nil || in == nil || !in.Mode().IsRegular() {
-		return false
+	if err != nil {
+		return false, err
+	}
+	if in == nil || !in.Mode().IsRegular() {
+		return false, nil
 	}
 
 	out, err := c.Fs.Stat(fileout)
+	if os.IsNotExist(err) {
+		return false, nil
+	}
 	if err != nil {
-		// Most likely doesn't exist yet
-		return false
+		return false, err
 	}
-	return os.SameFile(in, out)
+	return os.SameFile(in, out), nil
 }
 
 func setReader(c *config) error {
-- 
2.43.0


From 76af17809f59aec772b86052aa414d73c9bf3bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:38 +0000
Subject: [PATCH 21/25] fix: content of script and style elements whose start
 tag ends in a slash

---
 tokenizer_html.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tokenizer_html.go b/tokenizer_html.go
index 19cac76..b88925a 100644
--- a/tokenizer_html.go
+++ b/tokenizer_html.go
@@ -61,8 +61,9 @@ func (t *htokenizer) next() (*Token, error) {
 	htoken := t.htokenizer.Token()
 
 	switch htoken.Type {
-	case html.StartTagToken:
-		// Record that we are entering script or style blocks; don't tokenize text
+	case html.StartTagToken, html.SelfClosingTagToken:
+		// Record that we are entering script or style blocks; don't tokenize text.
+		// A trailing slash doesn't close these elements, <script src=/js/> has content.
 		if htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style {
 			t.parent = htoken.DataAtom
 		}
-- 
2.43.0


From 79606c40a4c084d48dbf9dc3cc4d456b5e1ae5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:05 +0000
Subject: [PATCH 22/25] fix: no token after a word that is too long has ended
 the stream

---
 tokenizer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tokenizer.go b/tokenizer.go
index ac0ca1c..fb7a9af 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -29,6 +29,8 @@ func TokenizeString(s string) *TokenStream {
 
 type tokenizer struct {
 	sc *iterators.Scanner
+	// an error from sc, which ends the stream
+	err error
 }
 
 func newTokenizer(r io.Reader) *tokenizer {
@@ -64,11 +66,16 @@ func split(data []byte, atEOF bool) (advance int, token []byte, err error) {
 
 // next returns the next token. Call until it returns nil.
 func (t *tokenizer) next() (*Token, error) {
+	if t.err != nil {
+		// The scanner might go on, with the part of an overlong word that fits its buffer
+		return nil, t.err
+	}
 	if t.sc.Scan() {
 		token := NewToken(t.sc.Text(), false)
 		return token, nil
 	}
 	if err := t.sc.Err(); err != nil {
+		t.err = err
 		return nil, err
 	}
 
-- 
2.43.0


From d049caa94566ce488810c621a40f083ddc9359d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 23/25] fix: ASCII folding of U+02A8, and of swung dash and
 fullwidth tilde alone

---
 filters/ascii/fold.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filters/ascii/fold.go b/filters/ascii/fold.go
index c40f9b2..8b11245 100644
--- a/filters/ascii/fold.go
+++ b/filters/ascii/fold.go
@@ -1232,7 +1232,7 @@ func FoldString(s string) (string, bool) {
 			case
 				'\u02A8': // ʨ  [LATIN SMALL LETTER TC DIGRAPH WITH CURL]
 				b.WriteRune('t')
-				b.WriteRune('r')
+				b.WriteRune('c')
 				folded = true
 			case
 				'\u00FE', // þ  [LATIN SMALL LETTER THORN]
@@ -2148,6 +2148,7 @@ func FoldString(s string) (string, bool) {
 				'\u2053', // ⁓  [SWUNG DASH]
 				'\uFF5E': // ～  [FULLWIDTH TILDE]
 				b.WriteRune('~')
+				folded = true
 			default:
 				b.WriteRune(r)
 			}
-- 
2.43.0


From 049eed9d3f6890e31a7acc3d0d0de56fd215f126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:16 +0000
Subject: [PATCH 24/25] fix: ASCII folding leaves bytes that are not valid
 UTF-8 unchanged

---
 filters/ascii/fold.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/filters/ascii/fold.go b/filters/ascii/fold.go
index 8b11245..ad7c5b7 100644
--- a/filters/ascii/fold.go
+++ b/filters/ascii/fold.go
@@ -1,13 +1,16 @@
 package ascii
 
-import "bytes"
+import (
+	"bytes"
+	"unicode/utf8"
+)
 
 // FoldString is a utility method for folding a single string. Use the Fold() filter to process a token stream.
 func FoldString(s string) (string, bool) {
 	var b bytes.Buffer
 	folded := false
 
-	for _, r := range s {
+	for i, r := range s {
 		// Quick test: if it's not in range then just keep current character
 		if r < '\u0080' {
 			b.WriteRune(r)
@@ -2150,7 +2153,9 @@ func FoldString(s string) (string, bool) {
 				b.WriteRune('~')
 				folded = true
 			default:
-				b.WriteRune(r)
+				// Verbatim; it might not be valid UTF-8
+				_, size := utf8.DecodeRuneInString(s[i:])
+				b.WriteString(s[i : i+size])
 			}
 		}
 	}
-- 
2.43.0


From 93f8831f0b55b75f67533f03ba49805ffe83ffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:48 +0000
Subject: [PATCH 25/25] fix: stackoverflow generator emitted a tag name that is
 a synonym of a tag on a later page

---
 filters/stackoverflow/generate/main.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/filters/stackoverflow/generate/main.go b/filters/stackoverflow/generate/main.go
index bb2d747..2d84992 100644
--- a/filters/stackoverflow/generate/main.go
+++ b/filters/stackoverflow/generate/main.go
@@ -37,6 +37,7 @@ func writeDictionary() error {
 	// Used in the template below
 	mappings := make(map[string]string)
 	seen := make(map[string]bool)
+	names := make(map[string]string)
 
 	for site, count := range sites {
 		pages := count / pageSize
@@ -85,7 +86,6 @@ func writeDictionary() error {
 				mappings[synonyms] = canonical
 			}
 
-			// Avoid duplicates; since we are querying multiple sites, duplication is common.
 			for _, tag := range wrapper.Items {
 				if tag.Moderator {
 					// We don't want those
@@ -101,13 +101,7 @@ func writeDictionary() error {
 					continue
 				}
 
-				if seen[synonym] {
-					// Ignore ones we've seen
-					continue
-				}
-
-				// We want to identify tags as canonical even if they don't map to something different
-				mappings[synonym] = canonical
+				names[synonym] = canonical
 			}
 
 			if !wrapper.HasMore {
@@ -132,6 +126,17 @@ func writeDictionary() error {
 		}
 	}
 
+	// Only now are all synonyms known, including those of tags on later pages
+	for synonym, canonical := range names {
+		if seen[synonym] {
+			// Avoid duplicates; since we are querying multiple sites, duplication is common.
+			continue
+		}
+
+		// We want to identify tags as canonical even if they don't map to something different
+		mappings[synonym] = canonical
+	}
+
 	if len(mappings) == 0 {
 		return fmt.Errorf("no tags received from api.stackexchange.com")
 	}
-- 
2.43.0

