package main

// C15 (sharing one segmenter) and C16 (independence of objects). The harness
// is built with the race detector for both.

import (
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"encoding/json"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm"
	"github.com/go-ego/gse/hmm/idf"
	"github.com/go-ego/gse/hmm/pos"
)

// objs is a set of objects over one dictionary.
type objs struct {
	seg    *gse.Segmenter
	tagger pos.Segmenter
	te     idf.TagExtracter
	tr     idf.TextRanker
	stop   *idf.StopWord
}

// input is what the operations work on; it is shared by all goroutines.
type input struct {
	text  string
	bytes []byte
	words []string
	items []gse.SegPos
	segs  []gse.Segment
	toks  []gse.Text
	tags  []string
	lang  string
}

type readOp struct {
	name string
	run  func(o *objs, in *input) string
}

func qs(l []string) string     { return fmt.Sprintf("%d %q", len(l), l) }
func qp(l []gse.SegPos) string { return fmt.Sprintf("%d %q", len(l), l) }
func segsText(l []gse.Segment) string {
	var b strings.Builder
	for i := range l {
		fmt.Fprintf(&b, "%d-%d:%s ", l[i].Start(), l[i].End(), tokenTree(l[i].Token(), 0))
	}
	return b.String()
}

var (
	regLatin = regexp.MustCompile(`[a-z]+`)
	regHan2  = regexp.MustCompile(`\p{Han}{1,7}`)
)

// readOps are the reading operations of the library.
var readOps = []readOp{
	{"Segment", func(o *objs, in *input) string { return segsText(o.seg.Segment(in.bytes)) }},
	{"ModeSegment", func(o *objs, in *input) string { return segsText(o.seg.ModeSegment(in.bytes, true)) }},
	{"Slice", func(o *objs, in *input) string { return qs(o.seg.Slice(in.text)) }},
	{"Slice(true)", func(o *objs, in *input) string { return qs(o.seg.Slice(in.text, true)) }},
	{"String", func(o *objs, in *input) string { return o.seg.String(in.text) }},
	{"String(true)", func(o *objs, in *input) string { return o.seg.String(in.text, true) }},
	{"Pos", func(o *objs, in *input) string { return qp(o.seg.Pos(in.text)) }},
	{"Pos(true)", func(o *objs, in *input) string { return qp(o.seg.Pos(in.text, true)) }},
	{"Cut", func(o *objs, in *input) string { return qs(o.seg.Cut(in.text)) }},
	{"Cut(false)", func(o *objs, in *input) string { return qs(o.seg.Cut(in.text, false)) }},
	{"Cut(true)", func(o *objs, in *input) string { return qs(o.seg.Cut(in.text, true)) }},
	{"CutSearch", func(o *objs, in *input) string { return qs(o.seg.CutSearch(in.text)) }},
	{"CutSearch(false)", func(o *objs, in *input) string { return qs(o.seg.CutSearch(in.text, false)) }},
	{"CutSearch(true)", func(o *objs, in *input) string { return qs(o.seg.CutSearch(in.text, true)) }},
	{"CutAll", func(o *objs, in *input) string { return qs(o.seg.CutAll(in.text)) }},
	{"CutDAG(regs)", func(o *objs, in *input) string { return qs(o.seg.CutDAG(in.text, regLatin, regHan2)) }},
	{"CutDAGNoHMM", func(o *objs, in *input) string { return qs(o.seg.CutDAGNoHMM(in.text)) }},
	{"HMMCut", func(o *objs, in *input) string { return qs(o.seg.HMMCut(in.text)) }},
	{"HMMCut(regs)", func(o *objs, in *input) string { return qs(o.seg.HMMCut(in.text, regLatin)) }},
	{"hmm.Cut", func(o *objs, in *input) string { return qs(hmm.Cut(in.text)) }},
	{"hmm.Viterbi", func(o *objs, in *input) string {
		r := []rune(in.text)
		if len(r) == 0 {
			return ""
		}
		p, l := hmm.Viterbi(r, []byte("BMES"))
		return fmt.Sprint(p, l)
	}},
	{"Find", func(o *objs, in *input) string {
		var b strings.Builder
		for _, w := range in.words {
			f, p, ok := o.seg.Find(w)
			_, _, err := o.seg.Value(w)
			fmt.Fprint(&b, f, p, ok, err, ";")
		}
		return b.String()
	}},
	{"Dictionary", func(o *objs, in *input) string {
		d := o.seg.Dictionary()
		return fmt.Sprint(d.NumTokens(), d.TotalFreq(), d.MaxTokenLen())
	}},
	{"LookupTokens", func(o *objs, in *input) string {
		if o.seg.Dict == nil {
			return ""
		}
		toks := make([]*gse.Token, o.seg.Dict.MaxTokenLen()+len(in.toks)+1)
		n := o.seg.Dict.LookupTokens(in.toks, toks)
		var b strings.Builder
		for _, k := range toks[:n] {
			b.WriteString(tokenTree(k, 0) + fmt.Sprint(k.Equals(in.text)) + ";")
		}
		return b.String()
	}},
	{"SuggestFreq", func(o *objs, in *input) string {
		var b strings.Builder
		for i, w := range in.words {
			if w != "" {
				fmt.Fprint(&b, o.seg.SuggestFreq(w), ",", o.seg.SuggestFreq(w, in.words[(i+1)%len(in.words)]), ";")
			}
		}
		return b.String()
	}},
	{"Analyze", func(o *objs, in *input) string {
		return fmt.Sprintf("%+v %+v", o.seg.Analyze(in.words, in.text), o.seg.Analyze(in.words, "", true))
	}},
	{"FindAllOccs", func(o *objs, in *input) string { return fmt.Sprint(gse.FindAllOccs(in.bytes, in.words)) }},
	{"SplitTextToWords", func(o *objs, in *input) string { return fmt.Sprintf("%q", o.seg.SplitTextToWords(in.bytes)) }},
	{"SplitWords", func(o *objs, in *input) string { return fmt.Sprintf("%q", gse.SplitWords(in.bytes)) }},
	{"ToToken", func(o *objs, in *input) string {
		k := o.seg.ToToken(in.text, 3, "n")
		return tokenTree(&k, 0)
	}},
	{"renderers", func(o *objs, in *input) string {
		return gse.ToString(in.segs, true) + gse.ToString(in.segs) + qs(gse.ToSlice(in.segs, true)) + qp(gse.ToPos(in.segs, true))
	}},
	{"IsStop, Stop", func(o *objs, in *input) string {
		var b strings.Builder
		for _, w := range in.words {
			fmt.Fprint(&b, o.seg.IsStop(w))
		}
		return b.String() + qs(o.seg.Stop(in.words)) + qs(o.seg.CutStop(in.text)) + qs(o.seg.CutStop(in.text, true))
	}},
	{"Trim", func(o *objs, in *input) string {
		return qs(o.seg.Trim(in.words)) + qs(o.seg.TrimPunct(in.words)) + qs(o.seg.TrimSymbol(in.words)) + qs(o.seg.CutTrim(in.text, true))
	}},
	{"TrimPos", func(o *objs, in *input) string {
		return qp(o.seg.TrimPos(in.items)) + qp(o.seg.TrimPosPunct(in.items)) + qp(o.seg.TrimWithPos(in.items, in.tags...))
	}},
	{"PosTrim", func(o *objs, in *input) string {
		return qp(o.seg.PosTrim(in.text, true, in.tags...)) + qs(o.seg.PosTrimArr(in.text, false, in.tags...)) + o.seg.PosTrimStr(in.text, true)
	}},
	{"CutTrimHtml, CutUrl", func(o *objs, in *input) string {
		return qs(o.seg.CutTrimHtml(in.text, true)) + o.seg.CutTrimHtmls(in.text) + qs(o.seg.CutUrl(in.text)) + o.seg.CutUrls(in.text, true)
	}},
	{"CutStr, PosStr", func(o *objs, in *input) string {
		return o.seg.CutStr(in.words, "|") + o.seg.PosStr(in.items)
	}},
	{"text filters", func(o *objs, in *input) string {
		return qs(gse.SplitNum(in.text)) + gse.SplitNums(in.text) + gse.FilterEmoji(in.text) + gse.FilterSymbol(in.text) +
			gse.FilterHtml(in.text) + gse.FilterLang(in.text, in.lang) + qs(gse.Range(in.text)) + gse.RangeText(in.text) + fmt.Sprint(gse.IsJp(in.text))
	}},
	{"tagger.Cut(true)", func(o *objs, in *input) string { return qp(o.tagger.Cut(in.text, true)) }},
	{"tagger.Cut", func(o *objs, in *input) string { return qp(o.tagger.Cut(in.text)) }},
	{"tagger filters", func(o *objs, in *input) string {
		return qp(o.tagger.TrimWithPos(in.items, in.tags...)) + qp(o.tagger.TrimPunct(in.items)) + qp(o.tagger.Trim(in.items))
	}},
	{"ExtractTags", func(o *objs, in *input) string { return fmt.Sprint(o.te.ExtractTags(in.text, 10)) }},
	{"Idf", func(o *objs, in *input) string {
		var b strings.Builder
		if o.te.Idf != nil {
			for _, w := range in.words {
				f, p, ok := o.te.Idf.Freq(w)
				fmt.Fprint(&b, f, p, ok, ";")
			}
			fmt.Fprint(&b, o.te.Idf.NumTokens(), o.te.Idf.TotalFreq())
		}
		for _, w := range in.words {
			fmt.Fprint(&b, o.stop.IsStopWord(w))
		}
		return b.String()
	}},
	{"TextRank", func(o *objs, in *input) string {
		return fmt.Sprint(o.tr.TextRank(in.text, 0), o.tr.TextRankWithPOS(in.text, 5, in.tags))
	}},
	{"GetVersion, paths", func(o *objs, in *input) string {
		return gse.GetVersion() + fmt.Sprint(gse.DictPaths("d", "zh, ja, x.txt")) + o.seg.GetCurrentFilePath()
	}},
}

// recipe builds sets of objects that must behave alike.
type recipe struct {
	es    []Entry
	o     Opt
	idf   []Entry
	stops []string
	route int // how the dictionary is loaded; -1 not at all
	big   bool
	skip  bool
}

func (g *Gen) recipe() *recipe {
	t := g.t
	r := &recipe{o: t.opt(), route: t.Intn(4), skip: t.Intn(4) == 0}
	r.es = g.vocab(3+t.Intn(30), freqLog, plainWord)
	for i := range r.es {
		r.es[i].Freq += 2
		if t.Intn(3) == 0 {
			r.es[i].Pos = pick(t, []string{"n", "v", "vn", "ns"})
		}
		if t.Intn(2) == 0 {
			r.idf = append(r.idf, Entry{r.es[i].Word, 2 + float64(t.Intn(100))/8, ""})
		}
		if t.Intn(6) == 0 {
			r.stops = append(r.stops, r.es[i].Word)
		}
	}
	if t.Intn(12) == 0 {
		r.route = -1
	}
	if t.Intn(4) == 0 {
		r.stops = nil
	}
	return r
}

// build makes the objects; every step is one of a user's.
func (r *recipe) build() *objs {
	o := &objs{seg: newSeg(r.o)}
	var err error
	check := func(e error) {
		if e != nil && err == nil {
			err = e
		}
	}
	o.seg.NotLoadHMM = false
	switch {
	case r.big:
		seg := *bigDict.seg
		o.seg = &seg
	case r.route == 0:
		check(o.seg.LoadDictStr(dictText(r.es, "")))
	case r.route == 1:
		check(o.seg.LoadDictMap(dictMap(r.es)))
	case r.route == 2:
		f := writeScratch(dictText(r.es, ""))
		check(o.seg.LoadDict(f))
		os.Remove(f)
	case r.route == 3:
		for _, e := range r.es {
			check(o.seg.AddToken(e.Word, e.Freq, e.Pos))
		}
		o.seg.CalcToken()
	}
	if r.skip {
		o.seg.NotStop, o.seg.SkipPos = true, true
	}
	if len(r.stops) > 0 {
		o.seg.LoadStopArr(r.stops)
	}
	o.tagger.WithGse(*o.seg)
	o.te.WithGse(*o.seg)
	o.tr.WithGse(*o.seg)
	if len(r.idf) > 0 {
		check(o.te.LoadIdfStr(dictText(r.idf, "")))
	}
	o.stop = idf.NewStopWord()
	for _, w := range r.stops {
		o.stop.AddStop(w)
	}
	if err != nil {
		panic(libFault("an error while loading valid sources: " + err.Error()))
	}
	return o
}

func (g *Gen) input(o *objs, text string) *input {
	t := g.t
	in := &input{text: text, bytes: []byte(text), lang: pick(t, []string{"Han", "Latin", "Cyrillic", "Klingon"})}
	for i := 0; i < 6 && len(g.words) > 0; i++ {
		in.words = append(in.words, pick(t, g.words).Word)
	}
	in.words = append(in.words, "，", " ", "the", "，a", g.hanWord(2))
	for _, w := range in.words {
		in.items = append(in.items, gse.SegPos{Text: w, Pos: pick(t, posTags)})
	}
	for k := 1 + t.Intn(3); k > 0; k-- {
		in.tags = append(in.tags, pick(t, posTags))
	}
	in.toks = newSeg(o.seg2opt()).SplitTextToWords([]byte(text))
	in.bytes, in.words, in.items, in.tags, in.toks = spare(in.bytes), spare(in.words), spare(in.items), spare(in.tags), spare(in.toks)
	return in
}

// spare gives a slice capacity that it does not use.
func spare[E any](l []E) []E {
	m := make([]E, len(l), len(l)+3)
	copy(m, l)
	return m
}

// whole is a slice with the capacity behind it.
func whole[E any](l []E) []E { return l[:cap(l)] }

func (o *objs) seg2opt() Opt {
	return Opt{AlphaNum: o.seg.AlphaNum, Alpha: o.seg.Alpha, Num: o.seg.Num, Lower: true}
}

type call struct {
	op, in, gor int
	got         string
	panicked    string
}

// harnessMark marks the stack of a panic that is not the library's.
const harnessMark = "HARNESS PANIC\n"

// guard calls f and returns the value and stack of its panic, if any.
func guard(f func() string) (res, panicked string) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if _, ok := r.(libFault); !ok && !libPanic(st) {
				st = harnessMark + st
			}
			panicked = fmt.Sprint(r, "\n", st)
		}
	}()
	return f(), ""
}

// concurrently runs a plan of calls per goroutine after a common start.
func concurrently(o *objs, ins []*input, plan [][]call) (overlap int64) {
	var ready, done sync.WaitGroup
	start := make(chan struct{})
	var active, seen atomic.Int64
	for gi := range plan {
		ready.Add(1)
		done.Add(1)
		go func() {
			defer done.Done()
			ready.Done()
			<-start
			for i := range plan[gi] {
				c := &plan[gi][i]
				if active.Add(1) > 1 {
					seen.Add(1)
				}
				c.got, c.panicked = guard(func() string { return readOps[c.op].run(o, ins[c.in]) })
				active.Add(-1)
			}
		}()
	}
	ready.Wait()
	close(start)
	done.Wait()
	return seen.Load()
}

func makePlan(t *T, gor, each, ins int) [][]call {
	plan := make([][]call, gor)
	mode := t.Intn(3)
	first := t.Intn(len(readOps))
	for g := range plan {
		for i := 0; i < each; i++ {
			op := t.Intn(len(readOps))
			switch {
			case mode == 0 && i == 0: // all start with the same operation
				op = first
			case mode == 1: // all perform the same operations, in turn
				op = (first + i) % len(readOps)
			}
			plan[g] = append(plan[g], call{op: op, in: t.Intn(ins), gor: g})
		}
	}
	return plan
}

func c15text(t *T, g *Gen) string {
	switch t.Intn(4) {
	case 0:
		return hanText(t, 2+t.Intn(10)) + g.text(4)
	case 1:
		return posText(t, g)
	}
	return g.text(3 + t.Intn(8))
}

func c15run(t *T, g *Gen, r *recipe, gor, each int, texts []string) {
	o := r.build()
	var ins []*input
	for _, x := range texts {
		ins = append(ins, g.input(o, x))
	}
	// The segments that are rendered are made on a twin, so that the first
	// uses of the shared objects are the concurrent ones.
	twin := r.build()
	for _, in := range ins {
		in.segs = newInput(twin, in)
	}
	plan := makePlan(t, gor, each, len(ins))
	before := inputState(ins)
	t.Count("calls that began while another one ran", int(concurrently(o, ins, plan)))
	if after := inputState(ins); after != before {
		t.Fatalf("an argument that all goroutines share was changed: before %s after %s", clip2(before), clip2(after))
	}
	type key struct{ op, in int }
	alone := map[key]string{}
	for _, calls := range plan {
		for i := range calls {
			c := &calls[i]
			k := key{c.op, c.in}
			desc := func() string {
				return fmt.Sprintf("%s on text %q; options %+v; %d goroutines", readOps[c.op].name, clip(ins[c.in].text), r.o, gor)
			}
			if c.panicked != "" {
				t.panicked(c.panicked, "under concurrency in %s", desc())
			}
			want, ok := alone[k]
			if !ok {
				want = readOps[c.op].run(o, ins[c.in])
				if w2 := readOps[c.op].run(twin, ins[c.in]); w2 != want {
					t.Fatalf("after the concurrent calls %s gives %s, on a twin that was never shared %s", desc(), clip2(want), clip2(w2))
				}
				alone[k] = want
			}
			if c.got != want {
				t.Fatalf("%s gives %s under concurrency and %s alone", desc(), clip2(c.got), clip2(want))
			}
			t.Count("concurrent results compared", 1)
			t.Sig(c.op, ins[c.in].text, gor)
			if len(want) > 4 {
				t.Nontrivial()
			}
			t.Eval()
		}
	}
	t.Sample(map[string]any{"goroutines": gor, "calls each": each, "texts": texts[:min(2, len(texts))], "options": fmt.Sprintf("%+v", r.o), "words": len(r.es)})
}

// panicked reports a panic that guard caught: the library's is a violation, one
// of the harness an error of the check.
func (t *T) panicked(st, format string, args ...any) {
	if strings.Contains(st, harnessMark) {
		panic(st)
	}
	value, stack, _ := strings.Cut(st, "\n")
	t.Fatalf("panic %s: %s\n%s", fmt.Sprintf(format, args...), value, trimStack(stack))
}

func newInput(o *objs, in *input) []gse.Segment { return o.seg.Segment([]byte(in.text)) }

func inputState(ins []*input) string {
	var b strings.Builder
	for _, in := range ins {
		fmt.Fprintf(&b, "%q %q %q %q %q %s;", whole(in.bytes), whole(in.words), whole(in.items), whole(in.tags), whole(in.toks), segsText(in.segs))
	}
	return b.String()
}

func c15(t *T) {
	g := newGen(t, false)
	g.Invalid, g.NUL = t.Intn(4) == 0, t.Intn(5) == 0
	r := g.recipe()
	t.Base(r.es, r.o, r.stops)
	var texts []string
	for i := 1 + t.Intn(3); i > 0; i-- {
		texts = append(texts, c15text(t, g))
	}
	c15run(t, g, r, 2+t.Intn(15), 4+t.Intn(20), texts)
}

func c15big(t *T) {
	loadBig()
	g := newGen(t, false)
	g.words = bigDict.es[t.Intn(len(bigDict.es)-50):][:50]
	r := &recipe{big: true, o: Opt{Lower: true}, stops: []string{"的", "了"}, idf: []Entry{{"天空", 9, ""}, {"白鹿", 11, ""}}}
	var texts []string
	for i := 0; i < 4; i++ {
		texts = append(texts, bigText(t))
	}
	t.Base("shipped", texts)
	c15run(t, g, r, 16, 30, texts)
}

// c15first runs a case in a process of its own, so that package-level state is
// as after the start of a program.
const concurrentFirst = "processes whose first calls were concurrent"

func c15first(t *T) { t.child("first calls, child", concurrentFirst) }

// ownProcess is a kind that runs single cases of the property's other kinds in
// processes of their own, in which nothing was used, loaded or changed before.
func ownProcess(p *Prop) (k Kind, ok bool) {
	var names []string
	for _, k := range p.Kinds {
		if k.Quick >= 200 {
			names = append(names, k.Name)
		}
	}
	return Kind{Name: "processes of their own", Quick: 16, Thorough: 300, Run: func(t *T) {
		t.child(pick(t, names), "cases run in processes of their own")
	}}, len(names) > 0 && p.ID != "C17"
}

func (t *T) child(kind, what string) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	out := scratch(".json")
	defer os.Remove(out)
	cmd := exec.Command(exe, "-prop", res.Property, "-tier", tier, "-out", out, "-tmp", tmpDir, "-repo", repoDir,
		"-replay", kind+":"+seedText(t.seed))
	cmd.Stderr = os.Stderr // check.py reads the race reports
	err = cmd.Run()
	raw, e := os.ReadFile(out)
	var r Result
	if e != nil || json.Unmarshal(raw, &r) != nil {
		// the crash itself is on stderr, where check.py finds it
		t.Fatalf("a process that only made the first calls died: %v", err)
	}
	if len(r.Errors) > 0 {
		panic(strings.Join(r.Errors, "\n"))
	}
	for _, v := range r.Violations {
		t.Fatalf("in a process of its own: %s", v.Message)
	}
	for k, n := range r.Counters {
		if !strings.HasPrefix(k, "cases of") {
			t.Count(k, int(n))
		}
	}
	t.Count(what, 1)
	t.Sig(t.seed)
	t.Nontrivial()
	t.Eval()
}

// c15firstChild makes the first calls of the process concurrently: building
// needs no reading operation, the twin is built afterwards.
func c15firstChild(t *T) {
	g := newGen(t, false)
	r := g.recipe()
	t.Base(r.es, r.o, r.stops)
	texts := []string{c15text(t, g), c15text(t, g)}
	o := r.build()
	var ins []*input
	for _, x := range texts {
		in := &input{text: x, bytes: []byte(x), lang: "Han", words: []string{"a", "，", g.hanWord(2)}, tags: []string{"n", "v"}}
		in.items = []gse.SegPos{{Text: "a", Pos: "n"}, {Text: "，", Pos: "x"}}
		ins = append(ins, in)
	}
	plan := makePlan(t, 8, 12, len(ins))
	t.Count("calls that began while another one ran", int(concurrently(o, ins, plan)))
	for _, calls := range plan {
		for i := range calls {
			c := &calls[i]
			if c.panicked != "" {
				t.panicked(c.panicked, "in %s", readOps[c.op].name)
			}
			if want := readOps[c.op].run(o, ins[c.in]); c.got != want {
				t.Fatalf("%s of %q gives %s as one of the first calls of the process and %s later", readOps[c.op].name, ins[c.in].text, clip2(c.got), clip2(want))
			}
			t.Count("concurrent results compared", 1)
		}
	}
}

// ---- C16 ------------------------------------------------------------------

// others does things to objects of its own until stop is set.
func others(t *T, seed int64, stop *atomic.Bool, done *int64) (panicked string) {
	sub := &T{Rand: newRand(seed), counters: map[string]int64{}, kind: t.kind, seed: t.seed}
	g := newGen(sub, false)
	r := g.recipe()
	n := int64(0)
	_, panicked = guard(func() string {
		var o *objs
		for k := 0; k < 3 || !stop.Load(); k++ {
			if k > 400 {
				break
			}
			n++
			if o == nil || sub.Intn(8) == 0 {
				o = r.build()
			}
			w := pick(sub, g.words).Word
			switch sub.Intn(22) {
			case 0:
				o.seg.AddToken(g.hanWord(2), 5, "n")
			case 1:
				o.seg.AddTokenForce(g.hanWord(3), 5, "n")
			case 2:
				o.seg.RemoveToken(w)
			case 3:
				o.seg.Empty()
			case 4:
				o.seg.ReAddToken(w, 7, "v")
			case 5:
				o.seg.LoadDictStr(dictText(r.es, ""))
			case 6:
				f := writeScratch(dictText(r.es, ""))
				s, err := gse.New(f)
				if err == nil {
					s.Cut("中文", true)
				}
				os.Remove(f)
			case 7:
				o.seg.AddStop(w)
				o.seg.AddStopArr("x", "y")
				o.seg.RemoveStop(" ")
			case 8:
				o.seg.EmptyStop()
				o.seg.LoadStopStr("的\n了\n")
			case 9:
				f := writeScratch("stop1\nstop2\n")
				o.seg.LoadStop(f)
				var te idf.TagExtracter
				te.WithGse(*o.seg)
				te.LoadStopWords(f)
				os.Remove(f)
			case 10:
				o.stop.AddStop(w)
				o.stop.RemoveStop("the")
			case 11:
				o.te.LoadIdfStr(dictText(r.es, ""))
				o.te.Idf.AddToken(w, 3)
			case 12:
				var tr idf.TextRanker
				f := writeScratch(dictText(r.es, ""))
				tr.LoadDict(f)
				var te idf.TagExtracter
				te.LoadDict(f)
				te.LoadIdf(f)
				var tg pos.Segmenter
				tg.LoadDict(f)
				tg.Cut(g.text(2), true)
				os.Remove(f)
			case 13:
				s, err := gse.NewEmbed(dictText(r.es, ""), "en")
				if err == nil {
					s.Slice(g.text(2))
				}
			case 14:
				o.seg.LoadDictMap(dictMap(r.es))
			case 15:
				o.seg.Load = false
				f := writeScratch(dictText(r.es, ""))
				o.seg.LoadDict(f)
				os.Remove(f)
			case 16:
				o.seg.AlphaNum = !o.seg.AlphaNum
				o.seg.CalcToken()
			case 17:
				x := idf.NewStopWord()
				x.AddStop("zzz")
				x.RemoveStop("of")
				x.IsStopWord("is")
			default:
				in := g.input(o, g.text(3))
				readOps[sub.Intn(len(readOps))].run(o, in)
			}
		}
		return ""
	})
	*done = n
	return
}

func c16conc(t *T) {
	g := newGen(t, false)
	r := g.recipe()
	t.Base(r.es, r.o, r.stops)
	o := r.build()
	var ins []*input
	for i := 0; i < 2; i++ {
		ins = append(ins, g.input(o, c15text(t, g)))
	}
	want := map[int]string{}
	for op := range readOps {
		for i, in := range ins {
			want[op*10+i] = readOps[op].run(o, in)
		}
	}
	var stop atomic.Bool
	var wg sync.WaitGroup
	n := 1 + t.Intn(5)
	counts := make([]int64, n)
	panics := make([]string, n)
	for i := 0; i < n; i++ {
		seed := t.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			panics[i] = others(t, seed, &stop, &counts[i])
		}()
	}
	users := 1 + t.Intn(4)
	plan := make([][]call, users)
	for u := range plan {
		for k := 0; k < 40; k++ {
			plan[u] = append(plan[u], call{op: t.Intn(len(readOps)), in: t.Intn(len(ins))})
		}
	}
	concurrently(o, ins, plan)
	stop.Store(true)
	wg.Wait()
	for i, p := range panics {
		if p != "" {
			t.panicked(p, "while objects of their own were made, edited and used")
		}
		t.Count("edits and loads of other objects meanwhile", int(counts[i]))
	}
	for _, calls := range plan {
		for _, c := range calls {
			if c.panicked != "" {
				t.panicked(c.panicked, "in %s while others were edited", readOps[c.op].name)
			}
			if w := want[c.op*10+c.in]; c.got != w {
				t.Fatalf("%s of %q gives %s while other objects are edited and %s before", readOps[c.op].name, ins[c.in].text, clip2(c.got), clip2(w))
			}
			t.Count("results compared while others were edited", 1)
			t.Sig(c.op, ins[c.in].text)
			if len(want[c.op*10+c.in]) > 4 {
				t.Nontrivial()
			}
			t.Eval()
		}
	}
	t.Sample(map[string]any{"users": users, "editors": n, "options": fmt.Sprintf("%+v", r.o)})
}

// c16steps interleaves steps on several objects in one goroutine and compares
// every object with its own model after every step.
func c16steps(t *T) {
	type side struct {
		r     *recipe
		g     *Gen
		o     *objs
		text  string
		saw   string
		stops map[string]bool // stop words of seg
		kw    map[string]bool // of the StopWord
		probe []string
	}
	look := func(s *side) string {
		in := &input{text: s.text, bytes: []byte(s.text), words: s.probe, tags: []string{"n", "v", "vn"}, lang: "Han"}
		var b strings.Builder
		for _, op := range readOps {
			switch op.name {
			case "Segment", "Cut(true)", "CutAll", "CutSearch", "Find", "Dictionary", "tagger.Cut(true)", "ExtractTags", "TextRank", "Idf", "IsStop, Stop":
				b.WriteString(op.name + ": " + op.run(s.o, in) + "\n")
			}
		}
		return b.String()
	}
	defStop := map[string]bool{}
	for k := range idf.StopWordMap {
		defStop[k] = true
	}
	segDef := fmt.Sprint(sortedKeys(gse.StopWordMap))
	var sides []*side
	g := newGen(t, false)
	for i := 0; i < 3; i++ {
		gi := &Gen{t: t, han: g.han, classes: g.classes} // overlapping vocabularies
		s := &side{g: gi, r: gi.recipe(), kw: map[string]bool{}, stops: map[string]bool{}}
		for k := range defStop {
			s.kw[k] = true
		}
		for _, w := range s.r.stops {
			s.kw[w], s.stops[w] = true, true
		}
		s.o = s.r.build()
		s.text = gi.text(4) + "的"
		s.probe = []string{"the", "of", "的", " ", "stop1"}
		for k := 0; k < 4; k++ {
			s.probe = append(s.probe, pick(t, gi.words).Word)
		}
		sides = append(sides, s)
		t.Base(s.r.es, s.r.o, s.r.stops)
	}
	for _, s := range sides {
		s.saw = look(s)
	}
	var log []string
	for k := 4 + t.Intn(8); k > 0; k-- {
		i := t.Intn(len(sides))
		s := sides[i]
		w := pick(t, s.probe)
		what := ""
		switch t.Intn(13) {
		case 0:
			what = "AddTokenForce"
			s.o.seg.AddTokenForce(s.g.hanWord(2), 50, "n")
		case 1:
			what = "RemoveToken"
			s.o.seg.RemoveToken(w)
		case 2:
			what = "Empty"
			s.o.seg.Empty()
		case 3:
			what = "LoadDictStr"
			s.o.seg.LoadDictStr(dictText(s.r.es, ""))
		case 4:
			what = "AddStop"
			s.o.seg.AddStop(w)
			s.stops[w] = true
		case 5:
			what = "RemoveStop"
			s.o.seg.RemoveStop(w)
			delete(s.stops, w)
		case 6:
			what = "EmptyStop"
			s.o.seg.EmptyStop()
			s.stops = map[string]bool{}
		case 7:
			what = "StopWord.AddStop"
			s.o.stop.AddStop(w)
			s.kw[w] = true
		case 8:
			what = "StopWord.RemoveStop"
			s.o.stop.RemoveStop(w)
			delete(s.kw, w)
		case 9:
			what = "LoadIdfStr"
			s.o.te.LoadIdfStr(w + " 9 n\n")
		case 10:
			what = "new objects"
			var te idf.TagExtracter
			te.WithGse(*newSeg(Opt{}))
			te.LoadIdfStr(w + " 5 n\n")
			f := writeScratch(w + "\nthe\nstop1\n")
			te.LoadStopWords(f)
			var tr idf.TextRanker
			tr.LoadDict(f)
			seg := newSeg(Opt{AlphaNum: true})
			seg.LoadStop(f)
			seg.AddStop(w)
			os.Remove(f)
		case 11:
			what = "Idf.AddToken"
			if s.o.te.Idf != nil {
				s.o.te.Idf.AddToken(w, 77)
			}
		case 12:
			what = "StopWord.LoadDict"
			f := writeScratch("stop1\nof\n")
			s.o.stop.LoadDict(f)
			s.kw["stop1"], s.kw["of"] = true, true
			os.Remove(f)
		}
		log = append(log, fmt.Sprintf("%d.%s(%q)", i, what, w))
		for j, x := range sides {
			now := look(x)
			if j != i && now != x.saw {
				t.Fatalf("object %d changed although nothing was done to it: it answered\n%s\nand now\n%s\nhistory %v", j, x.saw, now, log)
			}
			x.saw = now
			for _, p := range x.probe {
				if got := x.o.seg.IsStop(p); got != x.stops[p] {
					t.Fatalf("segmenter %d: IsStop(%q) = %v, should be %v; history %v", j, p, got, x.stops[p], log)
				}
				if got := x.o.stop.IsStopWord(p); got != x.kw[p] {
					t.Fatalf("stop words %d: IsStopWord(%q) = %v, should be %v; history %v", j, p, got, x.kw[p], log)
				}
			}
			t.Count("objects compared after a step on another", b2i(j != i))
		}
		fresh := idf.NewStopWord()
		for _, p := range append([]string{"the", "of", "stop1"}, s.probe...) {
			if fresh.IsStopWord(p) != defStop[p] {
				t.Fatalf("a new StopWord says %v for %q; history %v", !defStop[p], p, log)
			}
		}
		if d := fmt.Sprint(sortedKeys(gse.StopWordMap)); d != segDef {
			t.Fatalf("gse.StopWordMap changed from %s to %s; history %v", segDef, d, log)
		}
		t.Sig(log)
		t.Nontrivial()
		t.Eval()
	}
	t.Sample(map[string]any{"history": log})
}

func sortedKeys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// c16model: a user's HMM model stays installed whatever is loaded.
func c16model(t *T) {
	defer hmm.LoadModel()
	g := newGen(t, false)
	alpha := append([]rune{}, g.han...)
	model := func() []map[rune]float64 {
		var ms []map[rune]float64
		for i := 0; i < 4; i++ {
			m := map[rune]float64{}
			for _, r := range alpha {
				m[r] = -12 * t.Float64()
			}
			ms = append(ms, m)
		}
		return ms
	}
	seg := newSeg(Opt{Lower: gse.ToLower})
	if t.Intn(2) == 0 {
		seg.LoadDictStr("甲乙 10 n\n")
	}
	ms := model()
	if t.Intn(2) == 0 {
		seg.LoadModel(ms...)
	} else {
		hmm.LoadModel(ms...)
	}
	var texts, want []string
	for i := 0; i < 5; i++ {
		x := g.hanWord(3 + t.Intn(8))
		texts = append(texts, x)
		want = append(want, qs(seg.HMMCut(x)))
	}
	f := writeScratch("甲乙 10 n\n丙 5 n\n")
	defer os.Remove(f)
	var log []string
	for k := 3; k > 0; k-- {
		other := newSeg(Opt{})
		what := t.Intn(9)
		log = append(log, fmt.Sprint(what))
		switch what {
		case 0:
			other.LoadDict(f)
		case 1:
			other.LoadDictStr("丙丁 9 n\n")
		case 2:
			other.LoadDictMap(dictMap([]Entry{{"丙丁", 9, "n"}}))
		case 3:
			other.AddToken("丙丁", 9, "n")
		case 4:
			other.Init()
		case 5:
			gse.New(f)
		case 6:
			gse.NewEmbed("丙丁 9 n\n")
		case 7:
			var te idf.TagExtracter
			te.LoadDict(f)
			te.LoadIdf(f)
		case 8:
			var tg pos.Segmenter
			tg.LoadDict(f)
			other.Empty()
			other.LoadDict(f)
		}
		for i, x := range texts {
			if got := qs(seg.HMMCut(x)); got != want[i] {
				t.Fatalf("with a user's model HMMCut(%q) gave %s; after a dictionary was loaded (steps %v) it gives %s", x, want[i], log, got)
			}
			t.Count("cuts under a user's model compared", 1)
			t.Sig(x, log, ms)
			t.Nontrivial()
			t.Eval()
		}
	}
	t.Sample(map[string]any{"texts": texts, "steps": log})
}

// c16swap changes the model while others cut: no race, and every cut is that
// of one of the models.
func c16swap(t *T) {
	defer hmm.LoadModel()
	g := newGen(t, false)
	var models [2][]map[rune]float64
	for k := range models {
		for i := 0; i < 4; i++ {
			m := map[rune]float64{}
			for _, r := range g.han {
				m[r] = -12 * t.Float64()
			}
			models[k] = append(models[k], m)
		}
	}
	seg := newSeg(Opt{Lower: gse.ToLower})
	var texts []string
	want := map[string][2]string{}
	for i := 0; i < 4; i++ {
		x := g.hanWord(2 + t.Intn(6))
		texts = append(texts, x)
		var w [2]string
		for k := range models {
			hmm.LoadModel(models[k]...)
			w[k] = qs(seg.HMMCut(x))
		}
		want[x] = w
	}
	var stop atomic.Bool
	var wg sync.WaitGroup
	bad := make(chan string, 8)
	var cuts, swaps atomic.Int64
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; !stop.Load(); k++ {
				x := texts[k%len(texts)]
				got := qs(seg.HMMCut(x))
				cuts.Add(1)
				if w := want[x]; got != w[0] && got != w[1] {
					select {
					case bad <- fmt.Sprintf("HMMCut(%q) = %s while the model is exchanged; the models give %v", x, got, w):
					default:
					}
					return
				}
			}
		}()
	}
	for k := 0; k < 60; k++ {
		hmm.LoadModel(models[k%2]...)
		swaps.Add(1)
		time.Sleep(20 * time.Microsecond)
	}
	stop.Store(true)
	wg.Wait()
	select {
	case m := <-bad:
		t.Fatalf("%s", m)
	default:
	}
	t.Count("cuts while the model was exchanged", int(cuts.Load()))
	t.Count("model exchanges", int(swaps.Load()))
	t.Sig(texts)
	t.Nontrivial()
}

func init() {
	register(&Prop{ID: "C15", Slow: 4,
		Rule: "built with the race detector: 2-16 goroutines start together on one segmenter, tagger, keyword extractor and text ranker (generated dictionaries by four loading routes, unloaded ones, the shipped dictionary) and make random, identical or same-first sequences of 45 groups of reading operations on shared argument slices, before anything else has used the objects, some in a new process so that package-level state is untouched; every result is compared with the same call made alone afterwards and on a twin that was never shared, and the arguments are compared before and after; " +
			"an evaluation is one concurrent call, non-trivial when its result is not empty, distinct by operation, text, dictionary and number of goroutines",
		Kinds: []Kind{
			{Name: "shared objects", Quick: 150, Thorough: 6000, Run: c15},
			{Name: "first calls", Quick: 24, Thorough: 400, Run: c15first},
			{Name: "first calls, child", Run: c15firstChild},
			{Name: "shipped dictionary", Quick: 3, Thorough: 60, Serial: true, Run: c15big},
		}})
	register(&Prop{ID: "C16", Slow: 4,
		Rule: "built with the race detector: up to 4 goroutines use one set of objects while up to 5 others build, load, edit, empty and use their own (all constructors, loaders, stop-word and IDF calls); every result is compared with the one before; histories of steps on three sets of objects with overlapping words, where after every step the untouched ones must answer as before and stop words follow a set model; two or three users who load, empty and edit the same files, strings and maps, where every dictionary, stop list and IDF must equal the model of its own history; a user's HMM model must survive every way of loading; models exchanged while others cut; " +
			"an evaluation is one result compared, one step or one cut, distinct by operation, text, dictionary and history",
		Kinds: []Kind{
			{Name: "use while others are edited", Quick: 120, Thorough: 5000, Run: c16conc},
			{Name: "steps", Quick: 250, Thorough: 10000, Run: c16steps},
			{Name: "shared sources", Quick: 250, Thorough: 15000, Run: c16sources},
			{Name: "user model", Quick: 60, Thorough: 2000, Serial: true, Run: c16model},
			{Name: "model exchange", Quick: 20, Thorough: 400, Serial: true, Run: c16swap},
			{Name: "first edits", Quick: 16, Thorough: 300, Run: func(t *T) { t.child("first edits, child", concurrentFirst) }},
			{Name: "first edits, child", Run: c16firstChild},
		}})
}

// c16firstChild: the first things a process does are done by goroutines that
// each build objects of their own.
func c16firstChild(t *T) {
	var wg sync.WaitGroup
	var stop atomic.Bool
	stop.Store(true)
	n := 6
	panics := make([]string, n)
	counts := make([]int64, n)
	for i := 0; i < n; i++ {
		seed := t.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			panics[i] = others(t, seed, &stop, &counts[i])
		}()
	}
	wg.Wait()
	for i, p := range panics {
		if p != "" {
			t.panicked(p, "while goroutines made the first objects of a process")
		}
		t.Count("edits and loads of other objects meanwhile", int(counts[i]))
	}
}
