package main

// C26: reading leaves no trace, and results are values of the caller.

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm"
)

type rawOp struct {
	name string
	run  func(o *objs, in *input) any
}

// rawOps are the reading operations whose results are slices or maps.
var rawOps = []rawOp{
	{"Segment", func(o *objs, in *input) any { return o.seg.Segment(in.bytes) }},
	{"ModeSegment", func(o *objs, in *input) any { return o.seg.ModeSegment(in.bytes, true) }},
	{"Slice", func(o *objs, in *input) any { return o.seg.Slice(in.text) }},
	{"Slice(true)", func(o *objs, in *input) any { return o.seg.Slice(in.text, true) }},
	{"Pos", func(o *objs, in *input) any { return o.seg.Pos(in.text) }},
	{"Pos(true)", func(o *objs, in *input) any { return o.seg.Pos(in.text, true) }},
	{"ToSlice", func(o *objs, in *input) any { return gse.ToSlice(in.segs, true) }},
	{"ToPos", func(o *objs, in *input) any { return gse.ToPos(in.segs) }},
	{"Cut", func(o *objs, in *input) any { return o.seg.Cut(in.text) }},
	{"Cut(false)", func(o *objs, in *input) any { return o.seg.Cut(in.text, false) }},
	{"Cut(true)", func(o *objs, in *input) any { return o.seg.Cut(in.text, true) }},
	{"CutSearch", func(o *objs, in *input) any { return o.seg.CutSearch(in.text) }},
	{"CutSearch(false)", func(o *objs, in *input) any { return o.seg.CutSearch(in.text, false) }},
	{"CutSearch(true)", func(o *objs, in *input) any { return o.seg.CutSearch(in.text, true) }},
	{"CutAll", func(o *objs, in *input) any { return o.seg.CutAll(in.text) }},
	{"CutDAG(regs)", func(o *objs, in *input) any { return o.seg.CutDAG(in.text, regLatin, regHan2) }},
	{"CutDAGNoHMM", func(o *objs, in *input) any { return o.seg.CutDAGNoHMM(in.text) }},
	{"HMMCut", func(o *objs, in *input) any { return o.seg.HMMCut(in.text) }},
	{"HMMCut(regs)", func(o *objs, in *input) any { return o.seg.HMMCut(in.text, regLatin) }},
	{"hmm.Cut", func(o *objs, in *input) any { return hmm.Cut(in.text) }},
	{"hmm.Viterbi", func(o *objs, in *input) any {
		r := []rune(in.text)
		if len(r) > 0 && len(r)%2 == 0 {
			r = r[:1+len(r)%7]
		}
		_, l := hmm.Viterbi(r, []byte("BMES"))
		return l
	}},
	{"Analyze", func(o *objs, in *input) any { return o.seg.Analyze(in.words, in.text) }},
	{"Analyze(by)", func(o *objs, in *input) any { return o.seg.Analyze(in.words, "", true) }},
	{"FindAllOccs", func(o *objs, in *input) any { return gse.FindAllOccs(in.bytes, in.words) }},
	{"SplitTextToWords", func(o *objs, in *input) any { return o.seg.SplitTextToWords(in.bytes) }},
	{"SplitWords", func(o *objs, in *input) any { return gse.SplitWords(in.bytes) }},
	{"Stop", func(o *objs, in *input) any { return o.seg.Stop(in.words) }},
	{"CutStop", func(o *objs, in *input) any { return o.seg.CutStop(in.text, true) }},
	{"Trim", func(o *objs, in *input) any { return o.seg.Trim(in.words) }},
	{"TrimPunct", func(o *objs, in *input) any { return o.seg.TrimPunct(in.words) }},
	{"TrimSymbol", func(o *objs, in *input) any { return o.seg.TrimSymbol(in.words) }},
	{"CutTrim", func(o *objs, in *input) any { return o.seg.CutTrim(in.text) }},
	{"TrimPos", func(o *objs, in *input) any { return o.seg.TrimPos(in.items) }},
	{"TrimPosPunct", func(o *objs, in *input) any { return o.seg.TrimPosPunct(in.items) }},
	{"TrimWithPos", func(o *objs, in *input) any { return o.seg.TrimWithPos(in.items, in.tags...) }},
	{"PosTrim", func(o *objs, in *input) any { return o.seg.PosTrim(in.text, true, in.tags...) }},
	{"PosTrimArr", func(o *objs, in *input) any { return o.seg.PosTrimArr(in.text, false, in.tags...) }},
	{"CutTrimHtml", func(o *objs, in *input) any { return o.seg.CutTrimHtml(in.text, true) }},
	{"CutUrl", func(o *objs, in *input) any { return o.seg.CutUrl(in.text) }},
	{"SplitNum", func(o *objs, in *input) any { return gse.SplitNum(in.text) }},
	{"Range", func(o *objs, in *input) any { return gse.Range(in.text) }},
	{"DictPaths", func(o *objs, in *input) any { return gse.DictPaths("d", "zh, ja, x.txt") }},
	{"tagger.Cut(true)", func(o *objs, in *input) any { return o.tagger.Cut(in.text, true) }},
	{"tagger.Cut", func(o *objs, in *input) any { return o.tagger.Cut(in.text) }},
	{"tagger.TrimWithPos", func(o *objs, in *input) any { return o.tagger.TrimWithPos(in.items, in.tags...) }},
	{"tagger.TrimPunct", func(o *objs, in *input) any { return o.tagger.TrimPunct(in.items) }},
	{"tagger.Trim", func(o *objs, in *input) any { return o.tagger.Trim(in.items) }},
	{"ExtractTags", func(o *objs, in *input) any { return o.te.ExtractTags(in.text, 0) }},
	{"TextRank", func(o *objs, in *input) any { return o.tr.TextRank(in.text, 6) }},
	{"TextRankWithPOS", func(o *objs, in *input) any { return o.tr.TextRankWithPOS(in.text, 0, in.tags) }},
}

// show writes a result out; with flat the sub-divisions of segments, which a
// later calculation of the dictionary may change, are left out.
func show(v any, flat bool) string {
	switch l := v.(type) {
	case []gse.Segment:
		if !flat {
			return segsText(l)
		}
		var b strings.Builder
		for i := range l {
			k := l[i].Token()
			fmt.Fprintf(&b, "%d-%d:%q/%s/%v ", l[i].Start(), l[i].End(), k.Text(), k.Pos(), k.Freq())
		}
		return b.String()
	case []string, []gse.SegPos, []gse.Text:
		return fmt.Sprintf("%q", l)
	}
	return fmt.Sprintf("%+v", v)
}

// scribble overwrites a result, with the capacity behind it.
func scribble(v any) {
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Slice:
		r = r.Slice(0, r.Cap())
		for i := 0; i < r.Len(); i++ {
			switch r.Index(i).Kind() {
			case reflect.String:
				r.Index(i).SetString("改\x00")
			default:
				r.Index(i).Set(reflect.Zero(r.Type().Elem()))
			}
		}
	case reflect.Map:
		for _, k := range r.MapKeys() {
			r.SetMapIndex(k, reflect.Value{})
		}
	}
}

// edit is a step that is meant to change something; it does the same to every
// set of objects.
type edit struct {
	name string
	run  func(o *objs)
}

func (g *Gen) edit(o *objs, ins []*input) edit {
	t := g.t
	w := pick(t, g.words).Word
	nw := g.hanWord(1 + t.Intn(4))
	switch t.Intn(3) {
	case 0:
		nw = w + pick(t, g.words).Word
	case 1: // a piece of a text that is read
		if l := o.seg.Cut(pick(t, ins).text, true); len(l) > 0 {
			nw = pick(t, l)
		}
	}
	f := float64(2 + t.Intn(500))
	p := pick(t, []string{"n", "v", "x"})
	more := dictText(g.vocab(1+t.Intn(6), freqLog, plainWord), "")
	switch t.Intn(17) {
	case 14, 15, 16:
		// one word goes, another one with its frequency comes: nothing that
		// counts or sums words sees it
		if g.added != "" && t.Intn(4) > 0 {
			w = g.added
		}
		g.added = nw
		return edit{fmt.Sprintf("RemoveToken(%q), AddToken(%q) with its frequency", w, nw), func(o *objs) {
			f, p, ok := o.seg.Find(w)
			if ok && f > 0 && o.seg.RemoveToken(w) == nil {
				o.seg.AddToken(nw, f, p)
			}
		}}
	case 12:
		return edit{fmt.Sprintf("Idf.AddToken(%q,%v)", nw, f), func(o *objs) {
			if o.te.Idf != nil {
				o.te.Idf.AddToken(nw, f)
			}
		}}
	case 13:
		return edit{fmt.Sprintf("Idf.AddToken(%q,%v)", w, f), func(o *objs) {
			if o.te.Idf != nil {
				o.te.Idf.AddToken(w, f)
			}
		}}
	case 0:
		g.added = nw
		return edit{fmt.Sprintf("AddToken(%q,%v)", nw, f), func(o *objs) { o.seg.AddToken(nw, f, p) }}
	case 1:
		g.added = nw
		return edit{fmt.Sprintf("AddTokenForce(%q,%v)", nw, f), func(o *objs) { o.seg.AddTokenForce(nw, f, p) }}
	case 2:
		return edit{fmt.Sprintf("RemoveToken(%q)", w), func(o *objs) { o.seg.RemoveToken(w) }}
	case 3:
		return edit{fmt.Sprintf("ReAddToken(%q,%v)", w, f), func(o *objs) { o.seg.ReAddToken(w, f, p) }}
	case 4:
		return edit{"CalcToken", func(o *objs) {
			if o.seg.Dict != nil {
				o.seg.CalcToken()
			}
		}}
	case 5:
		return edit{fmt.Sprintf("LoadDictStr(%q)", more), func(o *objs) { o.seg.LoadDictStr(more) }}
	case 6:
		return edit{fmt.Sprintf("AddStop(%q)", w), func(o *objs) { o.seg.AddStop(w); o.stop.AddStop(w) }}
	case 7:
		return edit{fmt.Sprintf("RemoveStop(%q)", w), func(o *objs) { o.seg.RemoveStop(w); o.stop.RemoveStop(w) }}
	case 8:
		a, b, c := t.Intn(2) == 0, t.Intn(2) == 0, t.Intn(2) == 0
		return edit{fmt.Sprint("AlphaNum, Alpha, Num = ", a, b, c), func(o *objs) { o.seg.AlphaNum, o.seg.Alpha, o.seg.Num = a, b, c }}
	case 9:
		a, b := t.Intn(2) == 0, t.Intn(2) == 0
		return edit{fmt.Sprint("NotStop, SkipPos = ", a, b), func(o *objs) { o.seg.NotStop, o.seg.SkipPos = a, b }}
	case 10:
		return edit{"LoadIdfStr, WithGse", func(o *objs) {
			o.te.LoadIdfStr(w + " 7.5\n")
			o.tagger.WithGse(*o.seg)
			o.te.WithGse(*o.seg)
			o.tr.WithGse(*o.seg)
		}}
	}
	if t.Intn(3) > 0 {
		return edit{"EmptyStop", func(o *objs) { o.seg.EmptyStop() }}
	}
	return edit{fmt.Sprintf("Empty, LoadDictStr(%q)", more), func(o *objs) { o.seg.Empty(); o.seg.LoadDictStr(more) }}
}

func c26(t *T) {
	g := newGen(t, false)
	g.Invalid, g.NUL = t.Intn(4) == 0, t.Intn(5) == 0
	r := g.recipe()
	t.Base(r.es, r.o, r.stops, r.route)
	c26run(t, g, r, 10+t.Intn(30), func() string { return c15text(t, g) })
}

// c26big does it with the shipped dictionary, which is not edited.
func c26big(t *T) {
	loadBig()
	g := newGen(t, false)
	g.words = bigDict.es[t.Intn(len(bigDict.es)-50):][:50]
	r := &recipe{big: true, o: Opt{Lower: true}, stops: []string{"的", "了"}, idf: []Entry{{"天空", 9, ""}, {"白鹿", 11, ""}}}
	t.Base("shipped")
	c26run(t, g, r, 60, func() string { return bigText(t) })
}

type held struct {
	what, want string
	v          any
}

func c26run(t *T, g *Gen, r *recipe, steps int, text func() string) {
	o := r.build()
	var edits []edit
	// fresh is a set of objects for which only the edits were made.
	fresh := func() *objs {
		w := r.build()
		for _, e := range edits {
			e.run(w)
		}
		return w
	}
	var ins []*input
	for k := 1 + t.Intn(3); k > 0; k-- {
		in := g.input(o, text())
		in.segs = newInput(r.build(), in)
		ins = append(ins, in)
	}
	var log []string
	note := func(format string, a ...any) {
		log = append(log, fmt.Sprintf(format, a...))
		if len(log) > 60 {
			log = log[1:]
		}
		t.Doing(format, a...)
	}
	fail := func(format string, a ...any) {
		var x []string
		for _, in := range ins {
			x = append(x, clip(in.text))
		}
		t.Fatalf("%s; texts %q; options %+v; words %s; history %s", fmt.Sprintf(format, a...), x, r.o, clip(fmt.Sprint(r.es)), strings.Join(log, "; "))
	}
	var kept []held
	args := inputState(ins)
	var prevR, prevRaw, prevIn int = -1, -1, -1
	for s := 0; s < steps; s++ {
		if !r.big && t.Intn(4) == 0 {
			e := g.edit(o, ins)
			note("%s", e.name)
			e.run(o)
			edits = append(edits, e)
			// what was read before is read again more often than by chance
			if t.Intn(2) == 0 {
				prevIn = -2 - prevIn
			}
		}
		ix := t.Intn(len(ins))
		again := prevIn <= -2 || t.Intn(5) == 0
		if prevIn <= -2 {
			prevIn = -2 - prevIn
		}
		if again && prevIn >= 0 {
			ix = prevIn
		}
		in := ins[ix]
		t.Sig(in.text, len(edits), s)
		if t.Intn(2) == 0 {
			k := t.Intn(len(readOps))
			if again && prevR >= 0 {
				k = prevR
			}
			prevR, prevIn = k, ix
			note("%s of text %d", readOps[k].name, ix)
			got := readOps[k].run(o, in)
			want := readOps[k].run(fresh(), in)
			if got != want {
				fail("%s gives %s; with only the edits made before it it gives %s", readOps[k].name, clip2(got), clip2(want))
			}
			t.Count("results compared with those of unread objects", 1)
			if len(want) > 4 {
				t.Nontrivial()
			}
			t.Sig(k)
		} else {
			k := t.Intn(len(rawOps))
			if again && prevRaw >= 0 {
				k = prevRaw
			}
			prevRaw, prevIn = k, ix
			note("%s of text %d", rawOps[k].name, ix)
			v := rawOps[k].run(o, in)
			got := show(v, false)
			want := show(rawOps[k].run(fresh(), in), false)
			if got != want {
				fail("%s gives %s; with only the edits made before it it gives %s", rawOps[k].name, clip2(got), clip2(want))
			}
			t.Count("results compared with those of unread objects", 1)
			if reflect.ValueOf(v).Len() > 0 {
				t.Nontrivial()
				if t.Intn(2) == 0 {
					kept = append(kept, held{fmt.Sprintf("%s of text %d", rawOps[k].name, ix), show(v, true), v})
				} else {
					note("the result is overwritten")
					scribble(v)
					if t.Intn(2) == 0 {
						if got := show(rawOps[k].run(o, in), false); got != want {
							fail("%s gave %s; after the caller overwrote that result it gives %s", rawOps[k].name, clip2(want), clip2(got))
						}
					}
					t.Count("results overwritten", 1)
				}
			}
			t.Sig(k, "raw")
		}
		if now := inputState(ins); now != args {
			fail("an argument was changed: before %s after %s", clip2(args), clip2(now))
		}
		if s%8 == 7 || s == steps-1 {
			for _, h := range kept {
				if now := show(h.v, true); now != h.want {
					fail("the result of %s was %s and has become %s", h.what, clip2(h.want), clip2(now))
				}
				t.Count("kept results looked at again", 1)
			}
		}
		t.Eval()
	}
	// Results do not live in the caller's buffers.
	for _, in := range ins {
		for i := range in.bytes {
			in.bytes[i] = '#'
		}
	}
	for _, h := range kept {
		if now := show(h.v, true); now != h.want {
			fail("the result of %s was %s and has become %s after the caller reused its buffer", h.what, clip2(h.want), clip2(now))
		}
		t.Count("kept results looked at again", 1)
	}
	t.Count("edits between reads", len(edits))
	t.Sample(map[string]any{"history": log[:min(12, len(log))], "options": fmt.Sprintf("%+v", r.o), "words": len(r.es)})
}

func init() {
	register(&Prop{ID: "C26",
		Rule: "histories of 10-60 steps on a segmenter, tagger, keyword extractor and text ranker: reading operations (45 groups and 49 single ones whose results are slices or maps) in random order on 1-3 texts, with edits of dictionary (words exchanged for others of the same frequency among them), stop words, IDF and options in between (none with the shipped dictionary); every result is compared with that of a newly built set of objects for which only the edits were made; results are kept and looked at again after every eighth step, at the end and after the caller's buffer was overwritten, or overwritten with the capacity behind them before the call is repeated; the arguments are compared after every step; " +
			"an evaluation is one reading operation, non-trivial when its result is not empty, distinct by operation, text, dictionary, number of edits and step",
		Kinds: []Kind{
			{Name: "histories", Quick: 1500, Thorough: 60000, Run: c26},
			lowerOff("histories", 150, 6000, c26),
			{Name: "shipped dictionary", Quick: 4, Thorough: 60, Serial: true, Run: c26big},
		}})
}
