package main

// What runs for real and what is replaced, per property, for the evidence files

var libReal = []string{"the jargon library: tokenizers, TokenStream, token queue, filters, trie", "bufio.Scanner and the uax29 splitter, golang.org/x/net/html"}
var libStub = []string{"io.Reader and io.Writer at the edge of the library (simulated devices)"}

var about = map[string]struct{ real, stub, assume []string }{
	"C01": {libReal, libStub, []string{"readers keep to the io.Reader contract and give at most 20 empty reads in a row", "a word of 60,000 bytes or more may end in an error"}},
	"C02": {libReal, libStub, []string{"readers keep to the io.Reader contract", "the reference segmentation is uax29/words applied to the whole text"}},
	"C03": {libReal, libStub, []string{"markup is what golang.org/x/net/html's tokenizer takes for markup"}},
	"C04": {libReal, libStub, []string{"the error delivered is not io.EOF itself"}},
	"C05": {libReal, libStub, []string{"writers keep to the io.Writer contract"}},
	"C06": {libReal, libStub, []string{"Token and Err of a stream are not judged after tokens were taken through a stream derived from it"}},
	"C07": {libReal, libStub, []string{"bounded lookahead: 2 KB beyond the token, where words, nodes and synonyms are below 300 bytes", "bounded memory: live heap at 1/8 of 1 MB of input compared with that later on; a growth above 160 KB counts if it goes on beyond 3 MB"}},
	"C08": {libReal, append([]string{"package sync (simsync: same semantics, waiting is the scheduler's)", "goroutine scheduling (seeded, at every statement)"}, libStub...), []string{"preemption happens between statements, not within one; the race detector covers the rest", "the simulator's own hand-offs are hidden from the race detector"}},
	"C09": {libReal, libStub, nil},
	"C10": {libReal, libStub, []string{"the reference model normalises each token as documented (case, ignored characters); dictionaries without conflicting entries", "shipped dictionaries are read from their generated source"}},
	"C11": {libReal, libStub, []string{"what a filter yields for one token alone is taken from the filter itself; the property is about streams"}},
	"C14": {append([]string{"web (main, routes, handlers)", "net/http's mux, html/template escaping"}, libReal...), []string{"listener and connections (requests are handed to the handler main asked to serve)", "request bodies and response writers (simulated devices)", "package sync, goroutine scheduling (seeded)"}, []string{"any entity spelling of an escaped character is accepted"}},
	"C15": {libReal, append([]string{"package sync, goroutine scheduling (seeded)"}, libStub...), []string{"a dictionary is made unbuildable by an entry with an overlong word"}},
}

func fillAbout() {
	for id, a := range about {
		p := props[id]
		if p.Real == nil {
			p.Real = a.real
		}
		if p.Stub == nil {
			p.Stub = a.stub
		}
		if p.Assume == nil {
			p.Assume = a.assume
		}
	}
}
