package main

import (
	stdflag "flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/clipperhouse/flag"
	"github.com/clipperhouse/jargon"
	cli "github.com/clipperhouse/jargon/cmd/jargon"
	"verif.local/sim/simos"
	"verif.local/sim/simrt"
)

// What the CLI needs to start afresh in the same process: the flags known before main

var (
	flagsSaved  bool
	savedCH     []*flag.Flag
	savedStd    []*stdflag.Flag
	savedCHDef  map[string]string
	savedStdDef map[string]string
)

func bootFlags(name string) {
	if !flagsSaved {
		flagsSaved = true
		savedCHDef, savedStdDef = map[string]string{}, map[string]string{}
		flag.CommandLine.VisitAll(func(f *flag.Flag) { savedCH = append(savedCH, f); savedCHDef[f.Name] = f.DefValue })
		stdflag.CommandLine.VisitAll(func(f *stdflag.Flag) {
			if !strings.HasPrefix(f.Name, "test.") {
				savedStd = append(savedStd, f)
				savedStdDef[f.Name] = f.DefValue
			}
		})
	}
	flag.CommandLine = flag.NewFlagSet(name, flag.PanicOnError)
	for _, f := range savedCH {
		f.Value.Set(savedCHDef[f.Name])
		flag.CommandLine.Var(f.Value, f.Name, f.Usage)
	}
	stdflag.CommandLine = stdflag.NewFlagSet(name, stdflag.PanicOnError)
	for _, f := range savedStd {
		f.Value.Set(savedStdDef[f.Name])
		stdflag.CommandLine.Var(f.Value, f.Name, f.Usage)
	}
}

var cliLangs = []string{"english", "french", "norwegian", "russian", "spanish", "swedish"}
var cliBadLangs = []string{"klingon", "English", "german", "en", "stem-english", "englishx", " english"}
var cliFilterFlags = []string{"ascii", "contractions", "lemmas", "distinct", "stack", "stem"}

var siblingSuffixes = []string{".lock", ".tmp", ".bak", "~", ".new", ".old", ".part", ".orig", ".swp", ".jargon", ".1", ".out", ".lck", ".pid", ".temp", ".backup", ".partial", ".save", ".jargon.tmp", "-tmp", "_", ".txt", ".log"}

var cliErrs = []string{"EIO", "ENOSPC", "EACCES", "EROFS", "EDQUOT", "EMFILE", "EISDIR", "ESTALE", "unexpected EOF", "broken pipe"}

// cliPlan draws an invocation. reject: one that the command has to reject (or that has no input)
func genCLI(r *RNG, tier string, reject bool) *Plan {
	p := &Plan{CLI: &CLIPlan{Files: map[string]Bytes{}}}
	c := p.CLI
	html := r.p(1, 4)
	var ph []string
	stack := false

	type arg []string
	var args []arg
	boolFlag := func(n string) arg {
		switch r.n(12) {
		case 0:
			return arg{"--" + n}
		case 1:
			return arg{"-" + n + "=" + r.pick([]string{"true", "1", "T"})}
		}
		return arg{"-" + n}
	}
	strFlag := func(n, v string) arg {
		switch r.n(6) {
		case 0:
			return arg{"-" + n + "=" + v}
		case 1:
			return arg{"--" + n, v}
		}
		return arg{"-" + n, v}
	}
	for i := r.n(4); i > 0; i-- {
		f := r.pick(cliFilterFlags)
		if f == "stack" {
			stack = true
		}
		args = append(args, boolFlag(f))
	}
	// switched off explicitly, which is the same as not at all
	if r.p(1, 12) {
		f := r.pick(cliFilterFlags)
		given := false
		for _, a := range args {
			given = given || strings.Contains(a[0], "-"+f)
		}
		if !given {
			args = append(args, arg{r.pick([]string{"-", "--"}) + f + "=" + r.pick([]string{"false", "0", "F", "FALSE"})})
		}
	}
	if stack {
		ph = bigPhrases(r, "so")
	}
	if html {
		args = append(args, boolFlag("html"))
	}
	if r.p(1, 6) {
		args = append(args, boolFlag("count"))
	}
	if r.p(1, 4) {
		args = append(args, boolFlag("lines"))
	}
	if r.p(1, 3) {
		args = append(args, strFlag("lang", r.pick(cliLangs)))
	}

	// input
	g := newDocGen(r, html, ph)
	var doc []byte
	switch {
	case r.p(1, 150):
		doc = g.fill(r.between(1020000, 1100000))
	case r.p(1, 40):
		doc = g.fill([]int{65000, 65536, 66000, 131072, 140000}[r.n(5)] + r.between(-3, 3))
	case r.p(1, 10):
		doc = g.fill(4096 + r.between(-6, 6))
	case r.p(1, 8):
		doc = g.doc(9000)
	default:
		doc = g.fill(r.between(0, 400))
	}
	doc = overlong(r, doc, html, 200)
	in := r.pick([]string{"in.txt", "dir/in put.txt", "/data/in"})
	useFile := r.p(1, 2)
	c.StdinKind = "tty"
	if !useFile {
		c.StdinKind = r.pick([]string{"pipe", "pipe", "file"})
		c.Stdin = doc
		c.Files[in] = Bytes("not the input")
	} else {
		args = append(args, strFlag("file", in))
		c.Files[in] = doc
	}
	out := ""
	if r.p(1, 2) || reject {
		out = r.pick([]string{"out.txt", "dir/out put", "/data/out"})
		args = append(args, strFlag("out", out))
		if r.p(2, 3) {
			c.Files[out] = Bytes(strings.Repeat("precious old contents\n", r.between(0, 40)))
			if r.p(1, 10) {
				c.Files[out] = g.fill(len(doc) + 3000)
			}
		}
	}
	// files that are not what they seem
	if useFile && r.p(1, 6) {
		c.Kinds = map[string]string{in: r.pick([]string{"fifo", "proc", "proc", "grown", "shrunk"})}
	}
	// the output is the input, by the same or another name
	if out != "" && r.p(1, 15) {
		delete(c.Files, out)
		name := in
		switch r.n(3) {
		case 0:
			name = "x/../" + in
			if in[0] == '/' {
				name = "/x/.." + in
			}
		case 1:
			name = "link"
			c.Links = map[string]string{name: in}
		}
		for i, a := range args {
			for j := range a {
				args[i][j] = strings.Replace(a[j], out, name, 1)
			}
		}
		out = name
		if !useFile {
			c.StdinKind, c.StdinPath = "file", in
			c.Files[in] = doc
			c.Stdin = nil
		}
	}
	c.Files["other.txt"] = Bytes("other")
	c.Files["in.txt~"] = Bytes("backup")
	// what else may lie beside the input and the output
	if r.p(1, 2) {
		for i := r.between(1, 8); i > 0; i-- {
			n := in
			if out != "" && r.p(1, 2) {
				n = out
			}
			n = r.pick([]string{n + r.pick(siblingSuffixes), filepath.Join(filepath.Dir(n), r.pick([]string{".", "#", "~", "_", "tmp-", ".#"})+filepath.Base(n)+r.pick([]string{"", "", ".swp", ".tmp", "#"})), strings.TrimSuffix(n, filepath.Ext(n)) + r.pick(siblingSuffixes)})
			n = filepath.Clean(n)
			if _, ok := c.Files[n]; !ok && n != filepath.Clean(in) && n != filepath.Clean(out) && c.Links[n] == "" {
				c.Files[n] = Bytes(strings.Repeat("mine\n", []int{0, 0, 1, 300}[r.n(4)]))
			}
		}
	}

	if reject {
		for n := r.between(1, 2); n > 0; n-- {
			switch r.n(5) {
			case 0: // no such file
				if !useFile {
					args = append(args, strFlag("file", in))
					useFile = true
				}
				delete(c.Files, in)
			case 1: // cannot be opened
				if !useFile {
					args = append(args, strFlag("file", in))
					useFile = true
				}
				c.Faults = append(c.Faults, &simos.Fault{Op: "open", Path: in, Err: r.pick([]string{"EACCES", "EMFILE", "EIO", "EISDIR"})})
			case 2: // both
				if !useFile {
					args = append(args, strFlag("file", in))
					useFile = true
				}
				c.StdinKind = r.pick([]string{"pipe", "file"})
				if c.Stdin == nil {
					c.Stdin = g.fill(r.between(0, 100))
				}
			case 3: // none
				if !useFile && c.StdinKind != "tty" {
					c.StdinKind = "tty"
				} else {
					args = append(args, boolFlag("stem"), strFlag("lang", r.pick(cliBadLangs)))
				}
			case 4: // unknown language; the last -lang counts
				args = append(args, boolFlag("stem"), strFlag("lang", r.pick(cliBadLangs)))
			}
		}
	}
	// order matters for filters only
	for i := len(args) - 1; i > 0; i-- {
		j := r.n(i + 1)
		args[i], args[j] = args[j], args[i]
	}
	for _, a := range args {
		c.Args = append(c.Args, a...)
	}

	if r.p(2, 3) {
		for i := r.between(1, 4); i > 0; i-- {
			n := r.between(1, 5000)
			if r.p(1, 2) && len(doc) < 20000 {
				n = r.between(1, 40)
			}
			c.Reads = append(c.Reads, n)
		}
	}
	// faults
	nf := 0
	switch {
	case reject:
		if r.p(1, 5) {
			nf = 1
		}
	case r.p(2, 3):
		nf = r.between(1, 2)
	}
	inName := "stdin"
	if useFile {
		inName = in
	}
	outName := out
	if out == "" {
		outName = "stdout"
	}
	at := func(n int) int64 {
		switch r.n(6) {
		case 0:
			return 0
		case 1:
			return int64(n)
		case 2:
			return int64([]int{1, 2, 4095, 4096, 4097, 65535, 65536, 65537}[r.n(8)])
		}
		return int64(r.between(0, n+1))
	}
	for ; nf > 0; nf-- {
		f := &simos.Fault{Err: r.pick(cliErrs), Once: r.p(1, 4)}
		switch r.n(9) {
		case 0, 1, 2:
			f.Op, f.Path, f.At = "read", inName, at(len(doc))
		case 3, 4, 5:
			f.Op, f.Path, f.At = "write", outName, at(len(doc))
			f.Full = r.p(1, 2)
		case 6:
			f.Op, f.Path = "create", outName
		case 7:
			f.Op, f.Path = "close", outName
		case 8:
			switch r.n(5) {
			case 0:
				f.Op, f.Path = "open", inName
			case 1:
				f.Op, f.Path = "stat", r.pick([]string{"stdin", inName, outName})
			case 2:
				f.Op, f.Path = "close", inName
			case 3:
				f.Op, f.Path, f.At = "write", "stderr", 0
			case 4:
				f.Op, f.Path = "sync", outName
			}
		}
		c.Faults = append(c.Faults, f)
	}
	return p
}

// cliWant is what an invocation asks for
type cliWant struct {
	filters            []string
	html, count, lines bool
	lang, in, out      string
	stem               bool
}

func parseCLI(args []string) cliWant {
	w := cliWant{lang: "english"}
	for i := 0; i < len(args); i++ {
		n := strings.TrimPrefix(strings.TrimPrefix(args[i], "-"), "-")
		v, hasV := "", false
		if k := strings.IndexByte(n, '='); k >= 0 {
			n, v, hasV = n[:k], n[k+1:], true
		}
		str := func() string {
			if !hasV && i+1 < len(args) {
				i++
				v = args[i]
			}
			return v
		}
		if on, err := strconv.ParseBool(v); err == nil && !on && n != "lang" && n != "file" && n != "out" {
			continue
		}
		switch n {
		case "html":
			w.html = true
		case "count":
			w.count = true
		case "lines":
			w.lines = true
		case "lang":
			w.lang = str()
		case "file":
			w.in = str()
		case "out":
			w.out = str()
		case "stem":
			w.stem = true
			w.filters = append(w.filters, n)
		default:
			w.filters = append(w.filters, n)
		}
	}
	return w
}

func (w cliWant) knownLang() bool {
	for _, l := range cliLangs {
		if l == w.lang {
			return true
		}
	}
	return false
}

// expect gives the output of a valid invocation
func (w cliWant) expect(doc []byte) (out string, longestTok int, err error) {
	s := StreamPlan{HTML: w.html}
	longestTok = longest(s.modelBase(doc))
	var st *jargon.TokenStream
	if w.html {
		st = jargon.TokenizeHTML(strings.NewReader(string(doc)))
	} else {
		st = jargon.Tokenize(strings.NewReader(string(doc)))
	}
	for _, f := range w.filters {
		switch f {
		case "stem":
			st = named["stem-"+w.lang](st)
		case "contractions":
			st = named["contr"](st)
		case "stack":
			st = named["so"](st)
		default:
			st = named[f](st)
		}
	}
	toks, err := st.ToSlice()
	if err != nil {
		return "", longestTok, err
	}
	if w.count {
		return fmt.Sprintf("%d\n", len(toks)), longestTok, nil
	}
	var b strings.Builder
	for _, t := range toks {
		b.WriteString(t.String())
		if w.lines {
			b.WriteString("\n")
		}
	}
	return b.String(), longestTok, nil
}

func (c *CLIPlan) world() *simos.World {
	w := simos.NewWorld()
	for k, v := range c.Files {
		w.Files[filepath.Clean(k)] = &simos.Inode{Data: append([]byte(nil), v...)}
	}
	for k, v := range c.Kinds {
		if ino := w.Files[filepath.Clean(k)]; ino != nil {
			ino.Kind = v
		}
	}
	for k, v := range c.Links {
		if ino := w.Files[filepath.Clean(v)]; ino != nil {
			w.Files[filepath.Clean(k)] = ino
		}
	}
	w.Stdin = c.Stdin
	if c.StdinKind == "file" && c.StdinPath != "" {
		w.StdinPath = filepath.Clean(c.StdinPath)
	}
	switch c.StdinKind {
	case "pipe":
		w.StdinMode = os.ModeNamedPipe | 0600
	case "file":
		w.StdinMode = 0644
	}
	w.Reads = c.Reads
	for _, f := range c.Faults {
		g := *f
		g.Fired = 0
		g.Path = f.Path
		if g.Path != "stdin" && g.Path != "stdout" && g.Path != "stderr" && g.Path != "" {
			g.Path = filepath.Clean(g.Path)
		}
		w.Faults = append(w.Faults, &g)
	}
	return w
}

var cliWarm bool

type cliRun struct {
	w     *simos.World
	code  int
	crash string
	want  cliWant
	fired map[string]bool // op/role of the faults that struck for good
	once  map[string]bool // ... of those that struck once
}

func runCLI(p *Plan, o *Outcome) *cliRun {
	if !cliWarm {
		// Lazily built package-level dictionaries are not what these runs are about
		warm()
		cliWarm = true
	}
	c := p.CLI
	w := c.world()
	args := os.Args
	os.Args = append([]string{"jargon"}, c.Args...)
	defer func() { os.Args = args }()
	bootFlags("jargon")
	simos.Boot(w)
	flag.CommandLine.SetOutput(simos.Stderr)
	stdflag.CommandLine.SetOutput(simos.Stderr)
	n := len(c.Stdin)
	for _, f := range c.Files {
		n += len(f)
	}
	simrt.MapSeed = p.MapSeed
	r := &cliRun{w: w, want: parseCLI(c.Args), fired: map[string]bool{}, once: map[string]bool{}}
	var res simrt.Result
	r.code, r.crash, res = simos.MainBooted(w, simrt.Config{StepCap: 20e6 + 2000*uint64(n)}, cli.VerifMain)
	o.Steps += res.Steps
	if res.NoProgress {
		o.fail("no progress", fmt.Sprintf("no end after %d steps", res.Steps))
	}
	if res.Deadlock {
		o.fail("deadlock", "the command waits for itself")
	}
	for _, f := range w.Faults {
		if f.Fired == 0 {
			continue
		}
		role := "in"
		if f.Op == "write" || f.Op == "create" || f.Op == "sync" {
			role = "out"
		}
		if f.Path == "stderr" {
			role = "err"
		}
		if f.Op == "close" && r.want.out != "" && f.Path == filepath.Clean(r.want.out) {
			role = "out"
		}
		o.fault(f.Op + " " + role)
		if f.Once {
			r.once[f.Op+" "+role] = true
		} else {
			r.fired[f.Op+" "+role] = true
		}
	}
	o.log(strings.Join(c.Args, " "), c.StdinKind, fmt.Sprint(r.code), r.w.Stdout.String(), r.w.Stderr.String(), strings.Join(w.Events, "\n"))
	for _, n := range w.Names() {
		o.log(n, string(w.Files[n].Data))
	}
	return r
}

// input gives the document the invocation reads, or why it has to be refused
func (r *cliRun) input(c *CLIPlan) (doc []byte, refuse string, none bool) {
	w := r.want
	piped := c.StdinKind != "tty"
	if w.in != "" {
		f, ok := c.Files[w.in]
		if !ok {
			return nil, "the input file does not exist", false
		}
		if r.fired["open in"] {
			return nil, "the input file could not be opened", false
		}
		doc = f
	}
	switch {
	case w.in != "" && piped:
		return nil, "two inputs", false
	case w.in == "" && !piped:
		return nil, "", true
	case piped:
		doc = c.Stdin
		if c.StdinKind == "file" && c.StdinPath != "" {
			doc = c.Files[c.StdinPath]
		}
	}
	if w.stem && !w.knownLang() {
		return nil, "unknown language", false
	}
	return doc, "", false
}

// exists: there was a file by this name before
func (c *CLIPlan) exists(name string) bool {
	for k := range c.Files {
		if filepath.Clean(k) == name {
			return true
		}
	}
	for k := range c.Links {
		if filepath.Clean(k) == name {
			return true
		}
	}
	return false
}

// same: the output is the input file itself
func (r *cliRun) same(c *CLIPlan) bool {
	in := r.want.in
	if in == "" && c.StdinKind == "file" {
		in = c.StdinPath
	}
	if in == "" || r.want.out == "" {
		return false
	}
	if _, ok := c.Files[in]; !ok {
		return false
	}
	out := filepath.Clean(r.want.out)
	if t, ok := c.Links[out]; ok {
		out = filepath.Clean(t)
	}
	return out == filepath.Clean(in)
}

func (r *cliRun) describe(c *CLIPlan) string {
	return fmt.Sprintf("jargon %s, stdin %s: exit %d%s, stderr %q, faults %v", strings.Join(c.Args, " "), c.StdinKind, r.code, ifs(r.crash != "", " ("+r.crash+")"), clip(r.w.Stderr.String()), keysOf(r.fired, r.once))
}

func ifs(c bool, s string) string {
	if c {
		return s
	}
	return ""
}

func keysOf(ms ...map[string]bool) []string {
	var out []string
	for _, m := range ms {
		for k := range m {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func runC12(p *Plan, o *Outcome) {
	c := p.CLI
	r := runCLI(p, o)
	doc, refuse, none := r.input(c)
	what := r.describe(c)
	if none {
		o.probe("no input")
		return
	}
	if refuse != "" {
		o.probe("refused: " + refuse)
		if r.code == 0 {
			o.fail("success on a bad invocation", refuse+": "+what)
		} else if r.w.Stderr.Len() == 0 && !r.fired["write err"] && !r.once["write err"] {
			o.fail("silent failure", what)
		}
		return
	}
	want, long, err := r.want.expect(doc)
	if err != nil {
		if long < maxWord {
			o.fail("library error", fmt.Sprint(err))
		}
		o.probe("overlong word")
		if r.code == 0 {
			o.fail("success in spite of a failure", fmt.Sprintf("%v: %s", err, what))
		} else if r.w.Stderr.Len() == 0 && !r.fired["write err"] && !r.once["write err"] {
			o.fail("silent failure", what)
		}
		return
	}
	o.Nontrivial = len(doc) > 0
	got := r.w.Stdout.String()
	if r.want.out != "" {
		if r.w.Files[filepath.Clean(r.want.out)] != nil {
			got = string(r.w.Files[filepath.Clean(r.want.out)].Data)
		} else {
			got = "(no file)"
			if r.code == 0 {
				o.fail("success without the output file", what)
				return
			}
		}
	}
	if r.same(c) {
		o.probe("output is the input")
		in := c.StdinPath
		if r.want.in != "" {
			in = r.want.in
		}
		if c.Kinds[in] == "fifo" {
			return // writes to itself
		}
		switch {
		case r.code == 0 && got != want:
			o.fail("input lost", what+": "+firstDiff(got, want))
		case r.code != 0 && len(r.fired)+len(r.once) == 0 && got != string(doc):
			o.fail("input lost", what+": "+firstDiff(got, string(doc)))
		case r.code != 0 && r.w.Stderr.Len() == 0 && !r.fired["write err"] && !r.once["write err"]:
			o.fail("silent failure", what)
		}
		return
	}
	for k := range r.fired {
		switch k {
		case "open in", "read in", "create out", "write out", "close out":
			if r.code == 0 {
				o.fail("success in spite of a failure", k+" failed: "+what)
			} else if r.w.Stderr.Len() == 0 && !r.fired["write err"] && !r.once["write err"] {
				o.fail("silent failure", what)
			}
		}
	}
	if r.code == 0 {
		o.probe("exit 0")
		if got != want {
			o.fail("wrong output", what+": "+firstDiff(got, want))
		}
		if len(r.want.filters) == 0 && !r.want.count && !r.want.lines && got != string(doc) {
			o.fail("text changed without a filter", what+": "+firstDiff(got, string(doc)))
		}
		if r.want.out != "" && r.w.Stdout.Len() > 0 {
			o.fail("output on standard output besides the file", what)
		}
		return
	}
	o.probe("exit non-zero")
	if len(r.fired)+len(r.once) == 0 && long < maxWord {
		o.fail("failure without a cause", what)
	}
}

func runC13(p *Plan, o *Outcome) {
	c := p.CLI
	r := runCLI(p, o)
	_, refuse, none := r.input(c)
	what := r.describe(c)
	out := ""
	if r.want.out != "" {
		out = filepath.Clean(r.want.out)
	}
	if none {
		refuse = "no input"
	}
	if refuse != "" {
		o.probe("refused: " + refuse)
		o.Nontrivial = out != ""
	} else {
		o.probe("accepted")
	}
	if refuse == "" && r.same(c) {
		if r.code == 0 || len(r.fired)+len(r.once) > 0 {
			return // C12 judges the result
		}
		refuse = "the output is the input"
	}
	// Every path that was touched, not only those that differ in the end
	for _, k := range keysOfInt(r.w.Mutated) {
		if k != out && (c.exists(k) || r.w.Files[k] != nil || !strings.HasPrefix(k, "/tmp/")) {
			o.fail("another file was changed", k+": "+what)
		}
	}
	for k, v := range c.Files {
		k = filepath.Clean(k)
		if k == out && refuse == "" {
			continue
		}
		ino := r.w.Files[k]
		switch {
		case ino == nil:
			o.fail("a file is gone", k+": "+what)
		case string(ino.Data) != string(v):
			o.fail("contents lost", fmt.Sprintf("%s (%s) held %q, now %q: %s", k, refuse, clip(string(v)), clip(string(ino.Data)), what))
		}
	}
	if refuse != "" && out != "" {
		had := c.exists(out)
		if !had && r.w.Files[out] != nil {
			o.fail("output file created", refuse+": "+what)
		}
		if r.w.Mutated[out] > 0 {
			o.fail("output file touched", refuse+": "+what)
		}
	}
}

func keysOfInt(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var cliReal = []string{"cmd/jargon (main and everything it calls)", "the library packages", "github.com/clipperhouse/flag", "bufio"}
var cliStub = []string{"operating system under cmd/jargon: standard streams, files (afero.Fs), exit (package simos)"}

func init() {
	register(&Prop{
		ID: "C12", Quick: 30000, Thorough: 1200000, Process: true,
		Rule: "one run = one invocation of the command (flags in random order and spelling, text or HTML, file, pipe or redirected input, file or standard output, old contents in the output file), with reads of random sizes and up to two faults (open, read at any offset, create, write at any offset whole or torn, close, stat); non-trivial = accepted, non-empty input; distinct by hash of arguments, operations and results",
		Gen: func(r *RNG, tier string) *Plan {
			return genCLI(r, tier, r.p(1, 12))
		},
		Run: runC12, Real: cliReal, Stub: cliStub,
		Assume: []string{"if the output is the input file, the command may refuse or give the right result; a named pipe that is both is not judged", "filters themselves are judged by C10 and C11: the expected output is what the library's filters yield when fed the whole input at once"},
	})
	register(&Prop{
		ID: "C13", Quick: 200000, Thorough: 8000000, Process: true,
		Rule: "one run = one invocation, mostly one that has to be refused (missing or unreadable input, two inputs, none, unknown language), with an output path that may hold old contents, and faults; non-trivial = refused with an output path; distinct by hash of arguments, operations and results",
		Gen: func(r *RNG, tier string) *Plan {
			return genCLI(r, tier, !r.p(1, 6))
		},
		Run: runC13, Real: cliReal, Stub: cliStub,
		Assume: []string{"if the output is the input file and the command exits non-zero without a fault, it counts as refused"},
	})
}
