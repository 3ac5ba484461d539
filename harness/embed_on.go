//go:build embedtest

package main

// Kinds of the second build of C14, C18 and C23: the library with its embedded
// dictionaries, in whose place the overlay of check.py puts small ones.

import (
	_ "embed"
	"fmt"
	"os"
	"strings"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm/idf"
)

var (
	//go:embed data/embed/s_1.txt
	embS string
	//go:embed data/embed/t_1.txt
	embT string
	//go:embed data/embed/jp.txt
	embJ string
	//go:embed data/embed/idf.txt
	embI string
	//go:embed data/embed/stop_tokens.txt
	embStop string
)

func parseLines(text string) (ls []Line) {
	for _, l := range strings.Split(text, "\n") {
		ls = append(ls, strings.Fields(l))
	}
	return
}

func embedGen(t *T) *Gen {
	g := newGen(t, false)
	g.han = []rune("天地人水火山中国大小上下学生车站电话T")
	for _, src := range []string{embS, embT, embJ} {
		ls := parseLines(src)
		for k := 0; k < 12; k++ {
			if l := pick(t, ls); len(l) > 0 {
				g.words = append(g.words, Entry{Word: l[0]})
			}
		}
	}
	return g
}

// c14embed: histories of loads of the embedded dictionaries.
func c14embed(t *T) {
	g := embedGen(t)
	o := loadOpt{Opt: Opt{Lower: gse.ToLower}}
	seg := o.seg()
	sources := map[string][][]Line{
		"zh":   {append(parseLines(embS), parseLines(embT)...), append(parseLines(embT), parseLines(embS)...)},
		"zh_s": {parseLines(embS)},
		"zh_t": {parseLines(embT)},
		"ja":   {parseLines(embJ)},
	}
	alts := [][]Line{nil}
	then := func(opts ...[]Line) {
		var out [][]Line
		for _, a := range alts {
			for _, o := range opts {
				out = append(out, append(append([]Line{}, a...), o...))
			}
		}
		alts = out
	}
	var log []string
	note := func(f string, a ...any) { log = append(log, fmt.Sprintf(f, a...)); t.Doing(f, a...) }
	own := func() ([]Line, string) {
		var ls []Line
		for k := 1 + t.Intn(4); k > 0; k-- {
			w := pick(t, g.words).Word
			if t.Intn(2) == 0 {
				w = g.hanWord(1 + t.Intn(3))
			}
			ls = append(ls, Line{w, fnum(float64(2 + t.Intn(300))), pick(t, []string{"n", "v", "ns"})})
		}
		return ls, o.text(ls, "\n", t.Intn(2) == 0)
	}
	for n := 1 + t.Intn(5); n > 0; n-- {
		var err error
		fresh := t.Intn(3) == 0
		load := func(args ...string) {
			if fresh {
				note("NewEmbed(%q)", args)
				var s gse.Segmenter
				if s, err = gse.NewEmbed(args...); err == nil {
					seg = &s
					alts = [][]Line{nil}
					o.AlphaNum = len(args) > 1
				}
				return
			}
			note("LoadDictEmbed(%q)", args)
			err = seg.LoadDictEmbed(args...)
		}
		var second []string
		if fresh && t.Intn(4) == 0 {
			second = []string{pick(t, []string{"en", "alpha"})}
		}
		name := pick(t, []string{"zh", "zh_s", "zh_t", "ja"})
		switch k := t.Intn(10); k {
		case 0, 1, 2, 3:
			load(append([]string{name}, second...)...)
			then(sources[name]...)
		case 4:
			load()
			then(sources["zh"]...)
		case 5, 6: // a name before words of the user's
			name = pick(t, []string{"zh", "zh_s", "zh_t"})
			ls, text := own()
			more := []Line(nil)
			arg := name + ", " + text
			if t.Intn(2) == 0 {
				m, mt := own()
				more, arg = m, arg+", "+mt
			}
			load(append([]string{arg}, second...)...)
			ls = append(ls, more...)
			var all [][]Line
			for _, s := range sources[name] {
				all = append(all, append(append([]Line{}, s...), ls...))
			}
			then(all...)
		case 7:
			ls, text := own()
			load(append([]string{text}, second...)...)
			then(ls)
		case 8:
			ls, text := own()
			note("LoadDictStr(%q)", text)
			err = seg.LoadDictStr(text)
			then(ls)
		case 9:
			note("Empty()")
			err = seg.Empty()
			alts = [][]Line{nil}
			continue
		}
		if err != nil {
			t.Fatalf("%v; history %q", err, log)
		}
		var errs []string
		var ok *RefDict
		for _, a := range alts {
			ref := o.model(a)
			if e := compareDict(seg, ref, nil); e != nil {
				errs = append(errs, e.Error())
				continue
			}
			ok = ref
			break
		}
		if ok == nil {
			t.Fatalf("%s; history %q", strings.Join(errs, " / "), log)
		}
		if len(alts) > 8 {
			return
		}
		text := g.text(6)
		if t.Intn(4) == 0 {
			other, _ := fresh2(ok)
			if diff := sameObservation(observe(seg, text), observe(other, text)); diff != "" {
				t.Fatalf("text %q: after the loads, and on a fresh segmenter with the same words: %s; history: %q", text, diff, log)
			}
		}
		t.Count("dictionaries compared word by word", 1)
		t.Sig(log, text)
		t.Nontrivial()
		t.Eval()
	}
	t.Sample(map[string]any{"history": log})
}

// fresh2 is a new segmenter with the words of a model.
func fresh2(ref *RefDict) (*gse.Segmenter, []Entry) {
	seg := newSeg(ref.opt)
	var es []Entry
	for c, e := range ref.m {
		es = append(es, Entry{c, e.Freq, e.Pos})
	}
	for _, e := range es {
		if err := seg.AddToken(e.Word, e.Freq, e.Pos); err != nil {
			panic(libFault(err.Error()))
		}
	}
	seg.CalcToken()
	return seg, es
}

// c18embed: the embedded stop words.
func c18embed(t *T) {
	g := embedGen(t)
	seg := newSeg(Opt{Lower: gse.ToLower})
	set := map[string]bool{}
	def := strings.Fields(embStop)
	universe := append([]string{"x", "y", "zh"}, def...)
	for k := 0; k < 6; k++ {
		universe = append(universe, g.hanWord(2))
	}
	var log []string
	note := func(f string, a ...any) { log = append(log, fmt.Sprintf(f, a...)) }
	for n := 1 + t.Intn(8); n > 0; n-- {
		w := pick(t, universe)
		switch t.Intn(6) {
		case 0:
			note("LoadStopEmbed()")
			if err := seg.LoadStopEmbed(); err != nil {
				t.Fatalf("%v; history %q", err, log)
			}
			for _, d := range def {
				set[d] = true
			}
		case 1:
			if strings.Contains(w, "zh") {
				continue
			}
			note("LoadStopEmbed(zh, %q)", w)
			if err := seg.LoadStopEmbed("zh, " + w + "\nq, r"); err != nil {
				t.Fatalf("%v; history %q", err, log)
			}
			for _, d := range append([]string{w, "q", "r"}, def...) {
				set[d] = true
			}
		case 2:
			note("LoadStopEmbed(%q)", w)
			if err := seg.LoadStopEmbed(w + "\n"); err != nil {
				t.Fatalf("%v; history %q", err, log)
			}
			set[w] = true
		case 3:
			note("RemoveStop(%q)", w)
			seg.RemoveStop(w)
			delete(set, w)
		case 4:
			note("AddStop(%q)", w)
			seg.AddStop(w)
			set[w] = true
		case 5:
			if t.Intn(3) == 0 {
				note("EmptyStop()")
				seg.EmptyStop()
				clear(set)
			}
		}
		for _, u := range append([]string{"q", "r", "", "q, r"}, universe...) {
			if got := seg.IsStop(u); got != set[u] {
				t.Fatalf("IsStop(%q) = %v; history %q", u, got, log)
			}
			t.Count("stop-word tests compared", 1)
		}
		t.Sig(log)
		t.Nontrivial()
		t.Eval()
	}
	t.Sample(map[string]any{"history": log})
}

// c23embed: the embedded IDF dictionary.
func c23embed(t *T) {
	g := embedGen(t)
	var es []Entry
	seen := map[string]bool{}
	for _, l := range parseLines(embI) {
		if len(l) > 1 && !seen[l[0]] {
			seen[l[0]] = true
			var f float64
			fmt.Sscan(l[1], &f)
			es = append(es, Entry{l[0], f, ""})
			if t.Intn(8) == 0 {
				g.words = append(g.words, Entry{Word: l[0]})
			}
		}
	}
	if strings.TrimSpace(gse.ZhIdf) != strings.TrimSpace(embI) {
		t.Fatalf("gse.ZhIdf is not the text of the file data/dict/zh/idf.txt")
	}
	model := newIdfModel()
	model.load(es)
	seg, err := gse.NewEmbed(pick(t, []string{"zh", "zh_s", "zh_t", "ja"}))
	if err != nil {
		t.Fatalf("%v", err)
	}
	seg.SkipLog = true
	var ex idf.TagExtracter
	ex.WithGse(seg)
	if err := ex.LoadIdfStr(gse.ZhIdf); err != nil {
		t.Fatalf("%v", err)
	}
	stops := stopSet{}
	for w := range idf.StopWordMap {
		stops[w] = true
	}
	if t.Intn(2) == 0 {
		f := writeScratch(embStop)
		if err := ex.LoadStopWords(f); err != nil {
			t.Fatalf("%v", err)
		}
		os.Remove(f)
		for _, w := range strings.Fields(embStop) {
			stops[w] = true
		}
	}
	for round := 0; round < 3; round++ {
		text := g.text(2 + t.Intn(15))
		k := t.Intn(12)
		got := ex.ExtractTags(text, k)
		want := refTags(seg.Cut(text, true), stops, model)
		if err := checkRanking(got, want, k); err != nil {
			t.Fatalf("ExtractTags(%q, %d): %v; got %v, want the top of %v", text, k, err, got, want)
		}
		t.Count("words weighed", len(want))
		t.Sig(text, k)
		if len(got) > 1 {
			t.Nontrivial()
		}
		t.Eval()
	}
}

func init() {
	embedKinds = map[string]Kind{
		"C14": {Name: "embedded", Quick: 4000, Thorough: 60000, Run: c14embed},
		"C18": {Name: "embedded", Quick: 4000, Thorough: 60000, Run: c18embed},
		"C23": {Name: "embedded", Quick: 3000, Thorough: 40000, Run: c23embed},
	}
}
