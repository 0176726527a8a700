import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Text round trip under every delivery of the input",
 "For every byte string handed to the text tokenizer through a reader, and every way that reader delivers it (short reads, empty reads, data together with EOF, scribbling on unused buffer space), the stream ends cleanly and the concatenation of the token values is exactly the bytes delivered, invalid UTF-8 included. No token is empty. A single word longer than 64 KiB may instead end the stream with an error, never with silently missing text.",
 ["inputs","schedules","fault_sequences"],"all documents x all read-size sequences x consumption by iteration, String, ToSlice, WriteTo or Count",
 "TestTokenizer round-trips one short valid-UTF-8 string through a strings.Reader, i.e. one delivery schedule that fits one buffer.",
 ["tokenizer.go","token.go","tokenstream.go"],[("scanner over the reader with a split function that never skips bytes","tokenizer.go:newTokenizer,next"),("token values are copied out of the scan buffer","tokenizer.go:next")],
 ["Tokenize","TokenStream.String","TokenStream.ToSlice","TokenStream.WriteTo"])
p("C02","Tokens do not depend on how the input is chunked",
 "The sequence of tokens (values and their punctuation, space and lemma flags) a pipeline yields depends only on the bytes of the input, never on where the reader's read boundaries or internal buffer boundaries happen to fall. This holds for text and HTML tokenizing, alone or with any chain of filters: feeding the same document one byte at a time, in arbitrary chunks, or all at once gives identical tokens, equal to the Unicode word segmentation of the whole text.",
 ["inputs","schedules"],"all documents x all pairs of read schedules x all filter chains",
 "Every existing test uses a reader that delivers a short input in one read; no test has an input longer than one 4 KiB internal buffer except benchmarks that check nothing.",
 ["tokenizer.go","tokenizer_html.go","filters/synonyms/filter.go"],[("incremental split function asks for more data when a boundary is undecided","tokenizer.go"),("HTML text nodes are tokenized from the complete node","tokenizer_html.go:next")],
 ["Tokenize","TokenizeHTML","Filter"])
p("C03","HTML is reproduced verbatim, markup whole, text tokenized",
 "For every HTML input and every delivery of it, the concatenated token values are exactly the input bytes. Each tag, comment, doctype or other piece of markup is one verbatim token flagged as punctuation; the content of a script or style element is one verbatim word-like token; every other text node, also after a script or style element, is split exactly as the plain-text tokenizer splits it.",
 ["inputs","schedules"],"all HTML documents, well-formed or not, x all read schedules",
 "TestTokenizeHTML checks the presence of a few tokens of one document delivered in one read; it never checks reconstruction, ordering or text after a script.",
 ["tokenizer_html.go"],[("raw bytes of each HTML token are emitted","tokenizer_html.go:next"),("script/style parent tracking","tokenizer_html.go:next"),("nested text stream drained before the next HTML token","tokenizer_html.go:next")],
 ["TokenizeHTML"],[("parent","which raw-text element we are inside","tokenizer_html.go:htokenizer")])
p("C04","A failing source is reported, never mistaken for the end",
 "If the reader fails with any error other than plain EOF, at any byte position, with or without data in the same call, then every consumption path (Next, Scan, String, ToSlice, WriteTo, Count) of every pipeline ends with that error and none reports a clean end or a complete result. The tokens returned before the error are a prefix of what the same pipeline yields for the bytes delivered before the failure; for the bare text tokenizer they cover all of those bytes.",
 ["inputs","crash_points","fault_sequences"],"all documents x all failure positions and error values x all filter chains x all consumption paths",
 "No existing test injects a read error.",
 ["tokenizer.go","tokenizer_html.go","tokenstream.go","filters/synonyms/filter.go","filters/sigil/filter.go","filters/contractions/filter.go","filters/stopwords/filter.go","filters/mapper/filter.go"],
 [("scanner error checked after Scan fails","tokenizer.go:next"),("only io.EOF counts as a clean end","tokenizer_html.go:next"),("error propagation in each filter and terminal","tokenstream.go; filters/*/filter.go")],
 ["TokenStream.Next","TokenStream.Err","TokenStream.WriteTo"])
p("C05","A failing sink is reported with an exact count",
 "WriteTo returns as its count exactly the number of bytes the writer accepted, returns the writer's error if it failed, and the accepted bytes are a prefix of the concatenated token values. After a write error nothing more is written. With a healthy writer, everything is written and the count is the total length.",
 ["inputs","crash_points","fault_sequences"],"all pipelines x all positions and sizes of a failing or partially failing write, also combined with read failures",
 "WriteTo has no test at all.",
 ["tokenstream.go"],[("per-token write with accumulated count and early return","tokenstream.go:WriteTo")],["TokenStream.WriteTo"])
p("C06","A stream is a forward-only, exactly-once iterator that stays ended",
 "In any history of Next, Scan, Token, Err, Where, Words, Lemmas, Distinct, ToSlice, String, Count and WriteTo calls on a stream and on streams derived from it, each token is handed out exactly once, in order; Token and Err describe the most recent retrieval; a derived stream sees precisely the not-yet-consumed tokens that satisfy it. Once a stream has ended, every further call says so again: after a clean end no token and no error, after a failure never another token and always an error.",
 ["histories","schedules","fault_sequences"],"all finite call histories, including interleaved use of a stream and its derivatives, and calls after the end or after a failure",
 "Tests exhaust a stream once with one method; none mixes calls, derives streams midway or calls again after the end.",
 ["tokenstream.go","filters/synonyms/filter.go"],[("shim keeps Next and Scan consistent","tokenstream.go:NewTokenStream"),("where-streams pull through their parent","tokenstream.go:where.next")],["TokenStream"])
p("C07","Pipelines stream: lazy, bounded lookahead, bounded memory",
 "Building a pipeline reads nothing from the source. Each request for a token reads only a bounded amount beyond that token (a few words for multi-word dictionaries, the current node for HTML), so tokens come out while a slow source is still delivering, however long the input is. Live memory does not grow with the input length, except for the set of values a Distinct stage must remember.",
 ["inputs","schedules","configurations"],"all input lengths x slow, small-chunk sources x all filter chains",
 "Tests use inputs of a few dozen words and only look at the final result.",
 ["tokenizer.go","tokenstream.go","filters/synonyms/filter.go","tokenqueue/queue.go"],[("pull-based iterators","tokenstream.go"),("lookahead buffer limited to the longest synonym","filters/synonyms/filter.go:fill")],["io.Reader calls","Next"])
p("C08","Filters can be shared by concurrent goroutines",
 "Any filter value, including one whose dictionary is built lazily on first use and the package-level filters, can be applied at the same time by any number of goroutines to their own streams. In every interleaving each stream yields exactly what it yields when run alone, the dictionary is fully built before it is used, and there is no data race, deadlock or panic.",
 ["schedules","inputs"],"all interleavings of 2 or more goroutines at statement granularity, first use included",
 "No existing test starts a goroutine.",
 ["filters/synonyms/filter.go","filters/synonyms/trie/trie.go","token.go","filters/stopwords/filter.go","filters/mapper/filter.go","filters/sigil/filter.go","filters/contractions/filter.go"],
 [("sync.Once guards the lazy build","filters/synonyms/filter.go:Filter"),("shared tables are read-only after construction","token.go:common; filters/*"),("per-stream state lives in the stream, not the filter","filters/*/filter.go")],
 ["filter(stream)"],[("trie,maxWords","shared, lazily built dictionary","filters/synonyms/filter.go:filter")],
 "statement-level yield points and lock seams, added by an overlay at build time")
p("C09","Streams are isolated and tokens never change once handed out",
 "Any number of streams, sharing filters, created, advanced and abandoned in any interleaved order, each yield exactly what they would yield alone. A token, once handed out, keeps its value and flags forever, whatever happens later to its stream, its reader's buffers or other streams.",
 ["histories","schedules","inputs"],"all interleavings of steps of several live streams, with retained tokens re-examined at the end",
 "Tests drive one stream at a time and look at each token once.",
 ["token.go","tokenizer.go","tokenstream.go","tokenqueue/queue.go","filters/synonyms/filter.go","filters/contractions/filter.go","filters/sigil/filter.go"],
 [("token text copied from the scan buffer","tokenizer.go:next"),("queues and buffers are per stream","filters/*"),("shared common tokens are immutable","token.go")],["Next","Token.String","Token.IsLemma"])
p("C10","Synonym replacement is greedy, complete and touches nothing else",
 "A synonyms filter scans left to right and, at each word, replaces the longest run of consecutive tokens (words and the spaces between them, never across punctuation, at most as many words as the longest synonym) that equals a synonym, ignoring case and the configured characters, with that synonym's canonical term as one lemma token (or removes it if the canonical is empty). Every other token passes through unchanged, in order, exactly once; an entry that is empty once ignored characters are removed matches nothing. This holds for any upstream source, delivery and consumption pattern.",
 ["inputs","configurations","schedules","fault_sequences"],"all dictionaries x token streams x upstream deliveries",
 "TestFilter checks one sentence against one dictionary; the lookahead buffer's states depend on where runs, punctuation and end of input fall.",
 ["filters/synonyms/filter.go","filters/synonyms/trie/trie.go","tokenqueue/queue.go","filters/stackoverflow/filter.go","filters/nba/filter.go"],
 [("lookahead buffer and word runs","filters/synonyms/filter.go:fill,wordrun,next"),("greedy trie search","filters/synonyms/trie/trie.go:SearchCanonical")],["synonyms.NewFilter"])
p("C11","Other filters transform token by token, losing and reordering nothing",
 "Mapper-based, normalisation, ASCII, stemming, contraction and stopword filters yield, for any stream, exactly the in-order concatenation of what they yield for each incoming token alone. For a mapper that is what its functions return, one applied after the other, and nothing if one returns nil; for normalisation, stemming and ASCII folding the normal form, the Snowball stem or the folded form, marked as a lemma if it differs; a listed contraction becomes the words of its expansion, in lower, title or upper case as it was written (any other mixture: lower case), with a straight or a curly apostrophe. Sigil filters (handles, hashtags) join a sigil token with the immediately following token if that one is legal and the preceding token is not a word, and pass every other token through unchanged. Chains of filters compose: the result is each filter applied in order to the whole output of the one before.",
 ["inputs","configurations","schedules","fault_sequences"],"all filter chains x token streams x upstream deliveries",
 "Each filter has one or two example sentences (sigil and nba none); queued lookahead tokens and chains are never exercised.",
 ["filters/mapper/filter.go","filters/contractions/filter.go","filters/stopwords/filter.go","filters/sigil/filter.go","filters/twitter/filter.go","filters/ascii/filter.go","filters/norm/filter.go","filters/stemmer/filter.go","tokenstream.go"],
 [("one-in one-out mapper","filters/mapper/filter.go:next"),("expansion queue","filters/contractions/filter.go:next"),("one-token lookahead with put-back","filters/sigil/filter.go:next,try")],["TokenStream.Filter"])
p("C12","The command line tool succeeds only with complete, exact output",
 "If the jargon command exits with status 0, its output file or standard output holds exactly the result of applying the requested filters, in the order given, to the whole input (or the token count, or one token per line, as requested). If opening, reading, creating, writing, flushing or closing the output fails at any point, or reading fails midway, it exits non-zero with a message on standard error. Without such a failure a valid invocation exits 0. If the output is the very file the input is read from, it either refuses and leaves that file intact, or gives the right result. What a file's reported size says makes no difference.",
 ["inputs","crash_points","fault_sequences","configurations"],"all flag combinations x inputs x points at which a file, pipe or disk operation fails, is short or is delayed",
 "CLI tests check flag and file wiring on an in-memory file system; none runs the pipeline end to end or injects an I/O failure.",
 ["cmd/jargon/main.go"],[("errors of every step checked before exit","cmd/jargon/main.go:main,execute"),("buffered writer flushed and file closed before success","cmd/jargon/main.go:main,execute")],
 ["exit status","output file","stdout","stderr"],None,"os and file-system seam, added by an overlay at build time")
p("C13","A rejected invocation leaves the output file alone",
 "When the jargon command rejects an invocation because the input file cannot be opened, both or no inputs are given, the output is the input file itself, or the stemming language is unknown, it neither creates nor truncates the output file: existing contents survive byte for byte. It also never removes, renames or writes any file other than the requested output.",
 ["configurations","fault_sequences"],"all invalid or failing invocations x prior states of the file system",
 "Tests call the setup steps one at a time; none checks their order against an existing output file.",
 ["cmd/jargon/main.go"],[("inputs and filters validated before the output file is created","cmd/jargon/main.go:main")],["file system"],None,"os and file-system seam, added by an overlay at build time")
p("C14","The web service answers completely or with an error, per request",
 "For each request to the text or html route, in any interleaving with other requests and any delivery of the body, a success status carries exactly the HTML-escaped tokens of that request's own body, lemmas wrapped in a lemma span, and every response carries the CORS headers. If the body cannot be read to its end the status is 5xx, never a success; nothing is sent before the body has been consumed. Other paths get 404, OPTIONS gets an empty success, and the health check says ok.",
 ["schedules","inputs","fault_sequences"],"all interleavings of concurrent requests x body deliveries and failures x client disconnects",
 "TestHandler sends one small well-behaved request and looks for two substrings.",
 ["web/main.go"],[("response buffered until the body is consumed","web/main.go:jargonHandler"),("per-request buffer and stream; html/template escaping","web/main.go"),("error status on stream error","web/main.go:jargonHandler")],
 ["ResponseWriter"],None,"listener seam, added by an overlay at build time")
p("C15","A dictionary that cannot be built fails every use, cleanly",
 "If a synonyms filter's dictionary cannot be built, every stream the filter is applied to, on the first use and on all later or concurrent uses, reports an error and yields no tokens. It never panics and never passes text through as if it had been filtered.",
 ["histories","schedules","configurations"],"all sequences and interleavings of uses of a filter whose lazy build fails",
 "TestLazyLoad only uses a buildable dictionary, once.",
 ["filters/synonyms/filter.go"],[("build error remembered and returned by each stream","filters/synonyms/filter.go:Filter")],["Filter then Next"],[("err","outcome of the lazy build","filters/synonyms/filter.go:filter")])
p("C16","Same data, same result: no dependence on map order",
 "Results depend only on the input and the configuration. Rebuilding a synonyms filter from the same mappings, also when two entries conflict after normalisation, gives the same output whatever order the mappings are iterated in, and regenerating a dictionary source file from the same data gives byte-identical contents.",
 ["configurations","schedules"],"all mappings, conflicting ones included, x all map iteration orders",
 "Go randomises map iteration per process; a test run sees one order and the tests use no conflicting entries.",
 ["filters/synonyms/filter.go","filters/contractions/generate/main.go"],[("mappings are inserted in a fixed order","filters/synonyms/filter.go:build"),("generated maps are printed sorted","filters/*/generate/main.go")],["synonyms.NewFilter","generated.go"],None,"map iteration order seam, added by an overlay at build time")
p("C17","A failed dictionary generation never passes for a good one",
 "If fetching any page or roster fails (connection error, timeout, truncated or malformed body, error status, API error, excessive backoff), the generator fails visibly and the existing generated file is left untouched, not emptied or shortened. It succeeds only if the whole new file has been written and closed without error, and then the file holds exactly the entries of every page served: each name and synonym, hyphens as spaces, mapped to its tag (a name that is another tag's synonym only as that), without moderator-only tags and the generator's listed exceptions; each player's name and its ASCII form.",
 ["fault_sequences","crash_points"],"all sequences of network and disk faults over the pages of a generation run",
 "The stackoverflow and nba generators have no tests; they need the network.",
 ["filters/stackoverflow/generate/main.go","filters/nba/generate/main.go","filters/contractions/generate/main.go"],[("every fetch error aborts before the file is created","filters/stackoverflow/generate/main.go:writeDictionary,fetchTags"),("status and API errors checked","filters/*/generate/main.go")],["generated.go","process outcome"],None,"network, clock and file-system seam, added by an overlay at build time")
p("C18","The generator paces itself and cannot hang",
 "The Stack Overflow generator requests the pages in order, each exactly once, stops when told there are no more, waits at least as long as the API asks it to back off (giving up if that exceeds ten seconds) and never exceeds the documented 30 requests per second. If the server stalls at any point, the generator gives up with an error within a bounded time per request.",
 ["schedules","fault_sequences","histories"],"all sequences of server latencies, stalls, backoff demands and page counts",
 "The generator has no tests; timing needs a controllable clock.",
 ["filters/stackoverflow/generate/main.go"],[("sleep for the backoff and between pages","filters/stackoverflow/generate/main.go:writeDictionary"),("client timeout","filters/stackoverflow/generate/main.go:client")],["requests and their times"],None,"network and clock seam, added by an overlay at build time")
# not applicable
p("C19","The token queue is a FIFO",
 "Any history of push, pop, drop, clear, move and flush operations on token queues behaves like the same history on plain lists.",
 ["histories"],"all operation histories","There is no test of the queue package.",["tokenqueue/queue.go"],[("in-place shifting","tokenqueue/queue.go:Drop")],["TokenQueue"])
p("C20","ASCII folding matches the Lucene table",
 "Folding a string replaces each character that has an ASCII equivalent by it and leaves every other character unchanged, and reports a change exactly when there was one.",
 ["inputs"],"all strings","Tests cover Latin-1 examples.",["filters/ascii/fold.go"],[("table switch","filters/ascii/fold.go:FoldString")],["FoldString"])
p("C21","Token classification follows the documented rules",
 "A token is space if all its characters are white space, punctuation if all are Unicode punctuation or line breaks and tabs, whether or not it is one of the precomputed common tokens.",
 ["inputs"],"all strings","Flags are not asserted by any test.",["token.go","punct.go"],[("NewToken","token.go:NewToken")],["NewToken"])
p("C22","Contraction and handle rules cover case and apostrophe variants",
 "Every listed contraction is expanded in lower, title and upper case and with straight and curly apostrophes; handles and hashtags are accepted exactly according to the documented character and length rules.",
 ["inputs"],"all tokens","One sentence is tested.",["filters/contractions/generated.go","filters/twitter/filter.go"],[("lookup table; legality predicates","filters/contractions/filter.go; filters/twitter/filter.go")],["Expand","Handles","Hashtags"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
