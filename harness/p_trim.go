package main

// C18 (stop words), C19 (filters), C20 (Analyze, FindAllOccs).

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm/idf"
	"github.com/go-ego/gse/hmm/pos"
)

// ---- reference rules ------------------------------------------------------

func spaceOrPunct(r rune) bool { return unicode.IsSpace(r) || unicode.IsPunct(r) }

func keepRunes(s string, keep func(rune) bool) string {
	var b strings.Builder
	for _, r := range s {
		if keep(r) {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// refKeepPunct is the rule of TrimPunct.
func refKeepPunct(s string) bool {
	if s == "" {
		return false
	}
	for _, r := range s {
		if !spaceOrPunct(r) {
			return true
		}
	}
	return false
}

func refHTML(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		if s[i] == '<' {
			j := strings.IndexByte(s[i:], '>')
			if j > 1 {
				c := s[i+j-1]
				if c == '_' || c == '|' || c == '=' || c == '"' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
					i += j + 1
					continue
				}
			}
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

func refSplitNum(s string) []string {
	var out []string
	last := -1
	for i := 0; i < len(s); i++ {
		d := b2i(s[i] >= '0' && s[i] <= '9')
		if d != last {
			out = append(out, "")
		}
		out[len(out)-1] += s[i : i+1]
		last = d
	}
	return out
}

func filterStrings(in []string, f func(string) string) (out []string) {
	for _, s := range in {
		if x := f(s); x != "" {
			out = append(out, x)
		}
	}
	return
}

func filterPos(in []gse.SegPos, keep func(gse.SegPos) bool) (out []gse.SegPos) {
	for _, p := range in {
		if keep(p) {
			out = append(out, p)
		}
	}
	return
}

// ---- C18 ------------------------------------------------------------------

// stopSet is the reference: the words put in and not taken out.
type stopSet map[string]bool

type stopper struct {
	file string // the name of the file that is rewritten
	seg  *gse.Segmenter
	set  stopSet
	log  []string
}

// defaultStops are the words of the two shipped files.
var defaultStops = sync.OnceValue(func() map[string]stopSet {
	m := map[string]stopSet{}
	for _, n := range []string{"stop_word.txt", "stop_tokens.txt"} {
		b, err := os.ReadFile(filepath.Join(repoDir, "data/dict/zh", n))
		if err != nil {
			panic(err)
		}
		m[n] = stopSet{}
		for _, l := range strings.Split(string(b), "\n") {
			if l = strings.TrimSuffix(l, "\r"); l != "" {
				m[n][l] = true
			}
		}
	}
	return m
})

func (st *stopper) note(f string, a ...any) { st.log = append(st.log, fmt.Sprintf(f, a...)) }

func (st *stopper) op(t *T, universe []string) {
	some := func(n int) []string {
		var l []string
		for k := t.Intn(n); k > 0; k-- {
			l = append(l, pick(t, universe))
		}
		return l
	}
	check := func(err error) {
		if err != nil {
			t.Fatalf("%v; history %q", err, st.log)
		}
	}
	lines := func(trim bool) (string, []string) {
		eol := pick(t, []string{"\n", "\n", "\r\n"})
		var in []string
		text := ""
		for _, w := range some(6) {
			if strings.ContainsAny(w, "\n\r") {
				continue
			}
			l := w
			if trim && t.Intn(3) == 0 {
				l = " " + w + "\t"
			}
			text += l + eol
			if trim {
				w = strings.TrimSpace(w)
			}
			if w != "" {
				in = append(in, w)
			}
			if t.Intn(6) == 0 {
				text += eol
			}
		}
		if t.Intn(2) == 0 {
			text = strings.TrimSuffix(text, eol)
		}
		return text, in
	}
	put := func(ws ...string) {
		for _, w := range ws {
			st.set[w] = true
		}
	}
	switch k := t.Intn(16); k {
	case 0, 1:
		w := pick(t, universe)
		st.note("AddStop(%q)", w)
		st.seg.AddStop(w)
		put(w)
	case 2:
		l := some(5)
		st.note("AddStopArr(%q)", l)
		st.seg.AddStopArr(l...)
		put(l...)
	case 3:
		l := some(6)
		st.note("LoadStopArr(%q)", l)
		st.seg.LoadStopArr(l)
		put(l...)
	case 4, 5:
		text, in := lines(true)
		st.note("LoadStopStr(%q)", text)
		check(st.seg.LoadStopStr(text))
		put(in...)
	case 6: // a text without ", "
		text, in := lines(true)
		if strings.Contains(text, ", ") || text == "" {
			return
		}
		for t.Intn(2) == 0 { // several texts in one call
			more, in2 := lines(true)
			if strings.Contains(more, ", ") || strings.HasSuffix(text, ",") {
				break
			}
			text += ", " + more
			in = append(in, in2...)
		}
		if strings.Contains(text, "zh,") {
			return
		}
		st.note("LoadStopEmbed(%q)", text)
		check(st.seg.LoadStopEmbed(text))
		put(in...)
	case 7: // several files in one call
		var names []string
		for k := 1 + t.Intn(3); k > 0; k-- {
			text, in := lines(false)
			f := ""
			if len(names) == 0 && t.Intn(2) == 0 { // a file of this history, rewritten
				if st.file == "" {
					st.file = scratch(".txt")
				}
				f = st.file
				if err := os.WriteFile(f, []byte(text), 0o644); err != nil {
					panic(err)
				}
				st.note("the same file:")
			} else {
				f = writeScratch(text)
			}
			names = append(names, f)
			st.note("file with %q:", text)
			put(in...)
		}
		st.note("LoadStop(them)")
		check(st.seg.LoadStop(strings.Join(names, ", ")))
		for _, n := range names {
			os.Remove(n)
		}
	case 8:
		if t.Intn(4) > 0 {
			return
		}
		st.note("LoadStop()")
		check(st.seg.LoadStop())
		for w := range defaultStops()["stop_word.txt"] {
			put(w)
		}
	case 9:
		if t.Intn(4) > 0 {
			return
		}
		text, in := lines(false)
		f := writeScratch(text)
		st.note("LoadStop(zh, file with %q)", text)
		check(st.seg.LoadStop("zh, " + f))
		os.Remove(f)
		put(in...)
		for w := range defaultStops()["stop_tokens.txt"] {
			put(w)
		}
	case 10, 11, 12:
		w := pick(t, universe)
		st.note("RemoveStop(%q)", w)
		st.seg.RemoveStop(w)
		delete(st.set, w)
	case 13:
		st.note("EmptyStop()")
		check(st.seg.EmptyStop())
		clear(st.set)
	case 14: // a source that is not there, after one that is
		text, in := lines(false)
		f := writeScratch(text)
		st.note("LoadStop(file with %q, missing file)", text)
		if st.seg.LoadStop(f+", "+f+".missing") == nil {
			t.Fatalf("LoadStop of a missing file reports success; history %q", st.log)
		}
		os.Remove(f)
		put(in...)
	default: // loading a dictionary or emptying it is about something else
		if t.Intn(2) == 0 {
			st.note("Empty()")
			check(st.seg.Empty())
		}
		st.note("LoadDictMap")
		check(st.seg.LoadDictMap([]map[string]string{{"text": "天气", "freq": "5"}}))
	}
	t.Count("stop-word operations", 1)
}

func (st *stopper) check(t *T, g *Gen, universe []string) {
	for _, w := range universe {
		if got := st.seg.IsStop(w); got != st.set[w] {
			t.Fatalf("IsStop(%q) = %v; history %q", w, got, st.log)
		}
		if got := st.seg.StopWordMap[w]; got != st.set[w] {
			t.Fatalf("StopWordMap[%q] = %v; history %q", w, got, st.log)
		}
		t.Count("stop-word tests compared", 1)
	}
	// lists
	var list []string
	for k := t.Intn(12); k > 0; k-- {
		w := pick(t, universe)
		switch t.Intn(6) {
		case 0:
			w = ""
		case 1:
			w += pick(t, []string{"，", " ", "!", "a"})
		case 2:
			w = pick(t, []string{"，", " ", "!", "a", "¥"})
		}
		list = append(list, w)
	}
	notStop := t.Intn(3) == 0
	st.seg.NotStop = notStop
	before := fmt.Sprintf("%q", list)
	var stopped []string
	for _, w := range list {
		if w != "" && !st.set[w] {
			stopped = append(stopped, w)
		}
	}
	same := func(name string, got, want any) {
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			t.Fatalf("%s(%q) = %q, want %q; NotStop %v; history %q", name, list, got, want, notStop, st.log)
		}
	}
	same("Stop", st.seg.Stop(list), stopped)
	same("Trim", st.seg.Trim(list), filterStrings(list, func(s string) string {
		if s = refFilterSymbol(s); !notStop && st.set[s] {
			return ""
		}
		return s
	}))
	var items []gse.SegPos
	for _, w := range list {
		items = append(items, gse.SegPos{Text: w, Pos: pick(t, posTags)})
	}
	keep := func(p gse.SegPos) bool {
		s := refFilterSymbol(p.Text)
		return s != "" && (notStop || !st.set[s])
	}
	same("TrimPos", st.seg.TrimPos(items), filterPos(items, keep))
	same("TrimPosPunct", st.seg.TrimPosPunct(items), filterPos(items, func(p gse.SegPos) bool {
		r, _ := utf8.DecodeRuneInString(p.Text)
		return p.Text != "" && !spaceOrPunct(r) && (notStop || !st.set[p.Text])
	}))
	var tagger pos.Segmenter
	tagger.WithGse(*st.seg)
	same("tagger.Trim", tagger.Trim(items), filterPos(items, keep))
	if s := fmt.Sprintf("%q", list); s != before {
		t.Fatalf("a filter changed its argument from %s to %s", before, s)
	}
	// cutting
	if st.seg.Dict != nil {
		text := g.text(4)
		for _, mode := range [][]bool{nil, {false}, {true}} {
			var want []string
			for _, w := range st.seg.Cut(text, mode...) {
				if w != "" && !st.set[w] {
					want = append(want, w)
				}
			}
			if got := st.seg.CutStop(text, mode...); !eqStrings(got, want) {
				t.Fatalf("CutStop(%q, %v) = %q, Cut without stop words is %q; history %q", text, mode, got, want, st.log)
			}
			t.Count("cuts filtered", 1)
		}
	}
	t.Sig(st.log, list, notStop)
	if len(st.set) > 0 && len(stopped) < len(list) {
		t.Nontrivial()
		t.Sample(map[string]any{"history": st.log, "list": list, "without stop words": stopped})
	}
	t.Eval()
}

func c18(t *T) {
	g := newGen(t, false)
	var universe []string
	for _, e := range g.vocab(4+t.Intn(10), freqSmall, nil) {
		universe = append(universe, e.Word)
	}
	universe = append(universe, " ", "，", "the", "The", ",", "是", "")
	universe = append(universe, pick(t, []string{"a, b", "zh", "0", "\u3000", "\xff", "x\x00"}))
	mk := func() *stopper {
		s := &stopper{seg: newSeg(t.opt()), set: stopSet{}}
		if t.Intn(2) == 0 {
			t.Base(1)
			fill(t, s.seg, g.words, Opt{Lower: gse.ToLower})
		}
		return s
	}
	// two segmenters, whose sets are independent
	sts := []*stopper{mk(), mk()}
	for k := 3 + t.Intn(20); k > 0; k-- {
		st := pick(t, sts)
		st.op(t, universe)
		if t.Intn(3) == 0 {
			pick(t, sts).check(t, g, universe)
		}
	}
	for _, st := range sts {
		st.check(t, g, universe)
	}
}

// c18idf: the stop words of the keyword extractor.
func c18idf(t *T) {
	g := newGen(t, false)
	var universe []string
	for _, e := range g.vocab(4+t.Intn(6), freqSmall, nil) {
		universe = append(universe, e.Word)
	}
	universe = append(universe, "the", "of", "which", "你", "")
	type obj struct {
		s   *idf.StopWord
		set stopSet
	}
	defaults := stopSet{}
	for _, w := range strings.Fields("the of is and to in that we for an are by be as on with can if from which you it this then at have all not one has or") {
		defaults[w] = true
	}
	mk := func() obj {
		o := obj{idf.NewStopWord(), stopSet{}}
		if t.Intn(4) == 0 {
			return obj{&idf.StopWord{}, o.set} // an empty one
		}
		for w := range defaults {
			o.set[w] = true
		}
		return o
	}
	objs := []obj{mk(), mk()}
	var log []string
	file := writeScratch("")
	defer os.Remove(file)
	for k := 5 + t.Intn(20); k > 0; k-- {
		i := t.Intn(len(objs))
		o := objs[i]
		w := pick(t, universe)
		switch t.Intn(6) {
		case 0, 1:
			o.s.AddStop(w)
			o.set[w] = true
			log = append(log, fmt.Sprintf("%d.AddStop(%q)", i, w))
		case 2, 3:
			o.s.RemoveStop(w)
			delete(o.set, w)
			log = append(log, fmt.Sprintf("%d.RemoveStop(%q)", i, w))
		case 4:
			if !plainWord(w) {
				continue
			}
			if os.WriteFile(file, []byte(w+"\n"), 0o644) != nil {
				panic(file)
			}
			if err := o.s.LoadDict(file); err != nil {
				t.Fatalf("LoadDict: %v", err)
			}
			o.set[w] = true
			log = append(log, fmt.Sprintf("%d.LoadDict(%q)", i, w))
		case 5:
			objs = append(objs, mk())
			log = append(log, "NewStopWord()")
		}
		for i, o := range objs {
			for _, w := range universe {
				if got := o.s.IsStopWord(w); got != o.set[w] {
					t.Fatalf("stop words %d: IsStopWord(%q) = %v; history %q", i, w, got, log)
				}
			}
			for w := range defaults {
				if got := o.s.IsStopWord(w); got != o.set[w] {
					t.Fatalf("stop words %d: IsStopWord(%q) = %v; history %q", i, w, got, log)
				}
			}
		}
	}
	t.Count("stop-word operations of extractors", len(log))
	t.Sig(log)
	t.Nontrivial()
	t.Sample(map[string]any{"history": log})
}

// ---- C19 ------------------------------------------------------------------

var scriptNames = func() []string {
	l := []string{"", "han", "Klingon", "Latin ", "L"}
	for _, n := range strings.Fields("Han Latin Cyrillic Greek Hiragana Katakana Hangul Thai Arabic Common Inherited Devanagari Hebrew") {
		l = append(l, n)
	}
	return l
}()

// noisyText mixes markup and numbers into a text.
func noisyText(t *T, g *Gen, n int) string {
	var b strings.Builder
	for ; n > 0; n-- {
		switch t.Intn(7) {
		case 0:
			b.WriteString(pick(t, []string{"<p>", "</p>", "<a href=\"x\">", "<br/>", "<br />", "<>", "< >", "<b", ">", "<<i>", "<td w=1|>", "<中>", "<!-- x -->", "<a\nb>", "<x='1'>", "<_>", "<é>", "&lt;", "a<b>c"}))
		case 1:
			b.WriteString(g.run("digit", 1+t.Intn(4)))
		case 2:
			b.WriteString(pick(t, []string{"https://a.com/x1?y=2&z=3", "12.5%", "v2", "２０", "٣", "1e5", "3D"}))
		default:
			b.WriteString(g.text(1))
		}
	}
	return b.String()
}

func c19text(t *T) {
	g := newGen(t, false)
	g.vocab(t.Intn(8), freqSmall, nil)
	g.Invalid, g.NUL = t.Intn(3) == 0, t.Intn(4) == 0
	n := t.Intn(14)
	if t.sweep != nil {
		n += 12
	}
	c19filters(t, noisyText(t, g, n))
}

// c19long: texts of up to 30000 characters, with long runs of one kind.
func c19long(t *T) {
	g := newGen(t, false)
	g.vocab(1+t.Intn(8), freqSmall, nil)
	var b strings.Builder
	for k := 1 + t.Intn(5); k > 0; k-- {
		switch t.Intn(5) {
		case 0:
			b.WriteString(noisyText(t, g, 20+t.Intn(400)))
		case 1:
			b.WriteString(g.hanWord(100 + t.Intn(4000)))
		case 2:
			b.WriteString("<" + g.run("latin", 1+t.Intn(3000)) + pick(t, []string{">", ""}))
		default:
			b.WriteString(g.run(pick(t, append([]string{"digit", "latin", "punct"}, g.classes...)), 500+t.Intn(4000)))
		}
	}
	c19filters(t, b.String())
}

func c19filters(t *T, text string) {
	same := func(name string, got, want any) {
		if a, b := fmt.Sprintf("%q", got), fmt.Sprintf("%q", want); a != b {
			t.Fatalf("%s(%q) = %s, want %s", name, text, a, b)
		}
		t.Count("results of text filters compared", 1)
	}
	same("FilterSymbol", gse.FilterSymbol(text), refFilterSymbol(text))
	same("FilterEmoji", gse.FilterEmoji(text), keepRunes(text, func(r rune) bool { return r < 0x10000 }))
	for k := 0; k < 3; k++ {
		lang := pick(t, scriptNames)
		same("FilterLang "+lang, gse.FilterLang(text, lang), keepRunes(text, func(r rune) bool {
			tab := unicode.Scripts[lang]
			return unicode.IsLetter(r) || tab != nil && unicode.Is(tab, r)
		}))
	}
	same("FilterHtml", gse.FilterHtml(text), refHTML(text))
	same("SplitNum", gse.SplitNum(text), refSplitNum(text))
	same("SplitNums", gse.SplitNums(text), strings.Join(refSplitNum(text), " "))
	var chars []string
	for _, r := range text {
		chars = append(chars, string(r))
	}
	same("Range", gse.Range(text), chars)
	want := strings.Join(chars, " ")
	if len(chars) > 0 {
		want += " "
	}
	same("RangeText", gse.RangeText(text), want)
	t.Sig(text)
	if refFilterSymbol(text) != text {
		t.Nontrivial()
		t.Sample(map[string]any{"text": text})
	}
}

func c19items(t *T) {
	g := newGen(t, false)
	g.Invalid, g.NUL = t.Intn(3) == 0, t.Intn(4) == 0
	o := t.opt()
	seg := newSeg(o)
	fill(t, seg, g.vocab(3+t.Intn(12), freqSmall, nil), o)
	stops := stopSet{}
	for k := t.Intn(6); k > 0; k-- {
		w := pick(t, g.words).Word
		seg.AddStop(w)
		stops[w] = true
	}
	for round := 0; round < 4; round++ {
		seg.NotStop, seg.SkipPos = t.Intn(2) == 0, t.Intn(3) == 0
		text := noisyText(t, g, t.Intn(10))
		search := t.Intn(2) == 0
		state := func() string {
			return fmt.Sprintf("NotStop %v, stop words %v; %s", seg.NotStop, stops, setting(o, g.words, text))
		}
		diff := func(name string, got, want any) {
			if a, b := fmt.Sprintf("%q", got), fmt.Sprintf("%q", want); a != b {
				t.Fatalf("%s: %s, want %s; %s", name, a, b, state())
			}
			t.Count("results of item filters compared", 1)
		}
		trim := func(s string) string {
			if s = refFilterSymbol(s); !seg.NotStop && stops[s] {
				return ""
			}
			return s
		}
		// items: made up, or cut from the text; in a larger array whose rest must not change
		var items []gse.SegPos
		if t.Intn(2) == 0 {
			items = seg.Pos(text, search)
		} else {
			for k := t.Intn(12); k > 0; k-- {
				items = append(items, gse.SegPos{Text: pick(t, []string{"", "，", "，a", "a，", " ", "  x", "¥", "中¥", "\u3000中", "…。", "!?", "🙂", "\xff", pick(t, g.words).Word}), Pos: pick(t, posTags)})
			}
		}
		rest := gse.SegPos{Text: "rest", Pos: "of the array"}
		arr := append(append([]gse.SegPos{}, items...), rest, rest)
		items = arr[:len(arr)-2]
		strs := make([]string, len(items), len(items)+2)
		for i, p := range items {
			strs[i] = p.Text
		}
		before, beforeS := fmt.Sprintf("%q", arr), fmt.Sprintf("%q", strs)
		diff("Trim", seg.Trim(strs), filterStrings(strs, trim))
		diff("TrimSymbol", seg.TrimSymbol(strs), filterStrings(strs, refFilterSymbol))
		diff("TrimPunct", seg.TrimPunct(strs), filterStrings(strs, func(s string) string {
			if refKeepPunct(s) {
				return s
			}
			return ""
		}))
		diff("Stop", seg.Stop(strs), filterStrings(strs, func(s string) string {
			if stops[s] {
				return ""
			}
			return s
		}))
		keepPos := func(p gse.SegPos) bool { return trim(p.Text) != "" }
		diff("TrimPos", seg.TrimPos(items), filterPos(items, keepPos))
		diff("TrimPosPunct", seg.TrimPosPunct(items), filterPos(items, func(p gse.SegPos) bool {
			r, _ := utf8.DecodeRuneInString(p.Text)
			return p.Text != "" && !spaceOrPunct(r) && (seg.NotStop || !stops[p.Text])
		}))
		var tags []string
		for k := t.Intn(4); k > 0; k-- {
			tags = append(tags, pick(t, posTags))
		}
		noTag := func(p gse.SegPos) bool {
			for _, x := range tags {
				if p.Pos == x {
					return false
				}
			}
			return true
		}
		diff(fmt.Sprintf("TrimWithPos %q", tags), seg.TrimWithPos(items, tags...), filterPos(items, noTag))
		// joins
		var seps []string
		sep := " "
		if t.Intn(3) > 0 {
			sep = pick(t, []string{"", ", ", "\x00", "/", "中", "  "})
			seps = []string{sep}
		}
		diff("CutStr", seg.CutStr(strs, seps...), strings.Join(strs, sep))
		withPos := make([]string, len(items))
		for i, p := range items {
			withPos[i] = p.Text + "/" + p.Pos
			if seg.SkipPos {
				withPos[i] = p.Text
			}
		}
		diff("PosStr", seg.PosStr(items, seps...), strings.Join(withPos, sep))
		if a := fmt.Sprintf("%q", arr); a != before {
			t.Fatalf("a filter changed its argument from %s to %s", before, a)
		}
		if a := fmt.Sprintf("%q", strs); a != beforeS {
			t.Fatalf("a filter changed its argument from %s to %s", beforeS, a)
		}
		// combinations
		for _, m := range [][]bool{nil, {false}, {true}} {
			diff(fmt.Sprintf("CutTrim %v", m), seg.CutTrim(text, m...), filterStrings(seg.Cut(text, m...), trim))
			html := filterStrings(seg.Cut(refHTML(text), m...), refFilterSymbol)
			diff(fmt.Sprintf("CutTrimHtml %v", m), seg.CutTrimHtml(text, m...), html)
			diff(fmt.Sprintf("CutTrimHtmls %v", m), seg.CutTrimHtmls(text, m...), strings.Join(html, " "))
		}
		url := filterStrings(seg.Cut(strings.Join(refSplitNum(text), " ")), refFilterSymbol)
		diff("CutUrl", seg.CutUrl(text), url)
		diff("CutUrls", seg.CutUrls(text), strings.Join(url, " "))
		url = filterStrings(seg.Cut(text), refFilterSymbol)
		diff("CutUrl(num)", seg.CutUrl(text, true), url)
		diff("CutUrls(num)", seg.CutUrls(text, true), strings.Join(url, " "))
		trimmed := filterPos(filterPos(seg.Pos(text, search), noTag), keepPos)
		diff("PosTrim", seg.PosTrim(text, search, tags...), trimmed)
		var texts []string
		for _, p := range trimmed {
			texts = append(texts, p.Text)
		}
		diff("PosTrimArr", seg.PosTrimArr(text, search, tags...), texts)
		diff("PosTrimStr", seg.PosTrimStr(text, search, tags...), strings.Join(texts, " "))
		t.Count("items filtered", len(items))
		t.Sig(round, text, before, tags, seg.NotStop, seg.SkipPos)
		if len(items) > len(filterPos(items, keepPos)) {
			t.Nontrivial()
			t.Sample(map[string]any{"items": before, "tags dropped": tags})
		}
		t.Eval()
	}
}

// ---- C20 ------------------------------------------------------------------

// occurrences counts the non-overlapping occurrences (the most there can be).
func occurrences(s, w string) int { return strings.Count(s, w) }

func c20(t *T, lower bool) {
	g := newGen(t, false)
	g.long /= 20 // every word of the list is searched for in the whole text
	g.Invalid, g.NUL = t.Intn(5) == 0, t.Intn(6) == 0
	o := t.opt()
	o.Lower = lower
	seg := newSeg(o)
	ref := fill(t, seg, g.vocab(3+t.Intn(12), freqSmall, nil), o)
	for round := 0; round < 5; round++ {
		text := g.text(1 + t.Intn(8))
		low := text
		if lower {
			low = strings.ToLower(text)
		}
		var words []string
		from, all := "", false
		switch t.Intn(7) {
		case 0:
			from, words = "Cut(false)", seg.Cut(text, false)
			all = true
		case 1:
			from, words = "Cut(true)", seg.Cut(text, true)
			all = true
		case 2:
			from, words = "Slice", seg.Slice(text)
			all = !lower || low == string(asciiLower([]byte(text)))
		case 3:
			from, words = "Slice(search)", seg.Slice(text, true)
			all = !lower || low == string(asciiLower([]byte(text)))
		case 4:
			from, words = "CutAll", seg.CutAll(text)
			all = true
		case 5:
			from, words = "CutSearch(true)", seg.CutSearch(text, true)
			all = true
		default:
			from = "made up"
			for k := t.Intn(10); k > 0; k-- {
				w := pick(t, g.words).Word
				switch t.Intn(5) {
				case 0:
					w = ""
				case 1:
					w = g.hanWord(1)
				case 2:
					if len(low) > 0 {
						i := t.Intn(len(low))
						w = low[i : i+1+t.Intn(min(len(low)-i, 6))]
					}
				}
				words = append(words, w)
			}
		}
		// invalid bytes are U+FFFD in the pieces of a DAG mode
		if !lower && !utf8.ValidString(text) {
			all = false
		}
		state := func() string {
			return fmt.Sprintf("words %q from %s; %s", words, from, setting(o, g.words, text))
		}
		before := fmt.Sprintf("%q", words)
		entries := func(az []gse.AnalyzeToken) {
			if len(az) != len(words) {
				t.Fatalf("Analyze returns %d entries; %s", len(az), state())
			}
			for i, a := range az {
				e, ok := ref.m[a.Text]
				if !ok {
					e = Entry{}
				}
				if a.Text != words[i] || a.Position != i || a.Freq != e.Freq || a.Pos != e.Pos {
					t.Fatalf("entry %d of Analyze is %+v, the word is %q with %v %q in the dictionary; %s", i, a, words[i], e.Freq, e.Pos, state())
				}
			}
		}
		// without a text
		az := seg.Analyze(words, "")
		entries(az)
		at := 0
		for i, a := range az {
			if a.Start != at || a.End != at+len(words[i]) {
				t.Fatalf("without a text, Analyze reports the span %d-%d for word %d, want %d-%d; %s", a.Start, a.End, i, at, at+len(words[i]), state())
			}
			at = a.End
		}
		az = seg.Analyze(words, "", true)
		entries(az)
		at = 0
		for i, a := range az {
			if n := utf8.RuneCountInString(words[i]); a.Start != at || a.End != at+n {
				t.Fatalf("without a text, in characters, Analyze reports the span %d-%d for word %d, want %d-%d; %s", a.Start, a.End, i, at, at+n, state())
			}
			at = a.End
		}
		t.Count("spans without a text compared", 2*len(words))
		// with the text
		if text != "" {
			az = seg.Analyze(words, text)
			entries(az)
			used := map[string]map[int]bool{}
			for i, a := range az {
				w := words[i]
				if w == "" {
					continue
				}
				n := occurrences(low, w)
				if n == 0 {
					if all {
						t.Fatalf("%q is a piece of the text and does not occur in it; %s", w, state())
					}
					t.Count("words that do not occur in the text", 1)
					continue
				}
				if a.Start < 0 || a.End > len(low) || a.Start > a.End || low[a.Start:a.End] != w {
					t.Fatalf("Analyze reports the span %d-%d for the word %q (entry %d), which is not there in %q; %s", a.Start, a.End, w, i, low, state())
				}
				if used[w] == nil {
					used[w] = map[int]bool{}
				}
				if len(used[w]) < n && used[w][a.Start] {
					t.Fatalf("Analyze reports the occurrence of %q at %d twice, while there are %d; %s", w, a.Start, n, state())
				}
				if used[w][a.Start] {
					t.Count("words listed more often than they occur", 1)
				}
				used[w][a.Start] = true
				t.Count("spans with a text compared", 1)
			}
		}
		if a := fmt.Sprintf("%q", words); a != before {
			t.Fatalf("Analyze changed its argument from %s to %s", before, a)
		}
		t.Sig(round, text, words)
		if len(words) > 1 {
			t.Nontrivial()
			t.Sample(map[string]any{"text": text, "words": words, "from": from})
		}
		t.Eval()
	}
}

func c20occs(t *T) {
	g := newGen(t, false)
	// few characters, so that words overlap themselves and each other
	alpha := pick(t, [][]string{{"a"}, {"a", "b"}, {"a", "b", "ab"}, {"中", "国"}, {"中", "国", "人", "a"}, {"\xe4", "中", "\xb8"}, {"\x00", "a"}})
	mk := func(n int) string {
		s := ""
		for ; n > 0; n-- {
			s += pick(t, alpha)
		}
		return s
	}
	for round := 0; round < 10; round++ {
		data := mk(t.Intn(30))
		if t.Intn(4) == 0 {
			data = g.text(8)
		}
		seen := map[string]bool{}
		var searches []string
		for k := t.Intn(8); k > 0; k-- {
			w := mk(t.Intn(5))
			if len(data) > 0 && t.Intn(3) == 0 {
				i := t.Intn(len(data))
				w = data[i : i+1+t.Intn(len(data)-i)]
			}
			if !seen[w] {
				seen[w] = true
				searches = append(searches, w)
			}
		}
		buf := []byte(data)
		got := gse.FindAllOccs(buf, searches)
		if string(buf) != data {
			t.Fatalf("FindAllOccs changed its data from %q to %q", data, buf)
		}
		for w := range got {
			if !seen[w] {
				t.Fatalf("FindAllOccs(%q, %q) has a result for %q", data, searches, w)
			}
		}
		n := 0
		for _, w := range searches {
			if w == "" {
				continue
			}
			hit := make([]bool, len(data)) // bytes that a returned occurrence covers
			for _, i := range got[w] {
				if i < 0 || i+len(w) > len(data) || data[i:i+len(w)] != w {
					t.Fatalf("FindAllOccs(%q, %q) returns %v for %q, which is not at %d", data, searches, got[w], w, i)
				}
				for k := i; k < i+len(w); k++ {
					if hit[k] {
						t.Fatalf("FindAllOccs(%q, %q) returns overlapping occurrences %v of %q", data, searches, got[w], w)
					}
					hit[k] = true
				}
				n++
			}
			for i := 0; i+len(w) <= len(data); i++ {
				if data[i:i+len(w)] != w {
					continue
				}
				free := true
				for k := i; k < i+len(w); k++ {
					free = free && !hit[k]
				}
				if free {
					t.Fatalf("FindAllOccs(%q, %q) returns %v for %q and misses the one at %d", data, searches, got[w], w, i)
				}
			}
		}
		t.Count("occurrences checked", n)
		t.Sig(data, searches)
		if n > 1 {
			t.Nontrivial()
			t.Sample(map[string]any{"data": data, "searches": searches, "occurrences": fmt.Sprint(got)})
		}
		t.Eval()
	}
}

func c20known(k *Knowns) {
	seg := newSeg(Opt{Lower: gse.ToLower})
	if err := seg.LoadDictStr("世界 10 n\nécole 5 n\n"); err != nil {
		panic(err)
	}
	text := "世界 École"
	words := seg.Slice(text)
	az := seg.Analyze(words, text)
	low := strings.ToLower(text)
	bad := ""
	for i, a := range az {
		if a.Start < 0 || a.End > len(low) || low[a.Start:a.End] != words[i] && !strings.EqualFold(low[a.Start:a.End], words[i]) {
			bad = fmt.Sprintf("%q gets the span %d-%d", words[i], a.Start, a.End)
		}
	}
	k.Add("C20-cased", bad != "", fmt.Sprintf("Analyze(Slice(%q), same text): %s, because the text is lower-cased with Unicode rules and the pieces only with ASCII rules", text, bad))
}

func init() {
	register(&Prop{ID: "C18",
		Rule: "histories: 3-22 stop-word operations (every way of loading, adding, removing, emptying, among them files with CRLF and blank lines, missing files, the shipped files) on two segmenters, new, emptied or loaded, whose sets must stay independent; after them IsStop of every word of the universe, Stop, Trim, TrimPos, TrimPosPunct, the tagger's Trim and CutStop in three modes against a set; extractor stop words: the same for idf.StopWord; " +
			"non-trivial when a list loses an item; distinct by history and list",
		Kinds: []Kind{
			{Name: "histories", Quick: 24000, Thorough: 300000, Run: c18},
			lowerOff("histories", 2500, 30000, c18),
			everyChar(func(t *T, _ bool) { c18(t) }),
			{Name: "extractor stop words", Quick: 6000, Thorough: 60000, Run: c18idf},
			lowerOff("extractor stop words", 800, 8000, c18idf),
		}})
	register(&Prop{ID: "C19",
		Rule: "texts of dictionary words, all character classes, markup, numbers, invalid UTF-8 and NUL against rules for every filter, character by character; texts with every character of Unicode, and of up to 30000 characters with long runs of one kind; items: made-up and cut items in a larger array against the rules of every item filter and join, the argument and the rest of the array compared afterwards; combinations compared with the rules applied to the library's own cut; " +
			"non-trivial when something is dropped; distinct by text or items",
		Kinds: []Kind{
			{Name: "texts", Quick: 80000, Thorough: 800000, Run: c19text},
			lowerOff("texts", 6000, 60000, c19text),
			everyChar(func(t *T, _ bool) { c19text(t) }),
			{Name: "long texts", Quick: 80, Thorough: 800, Run: c19long},
			{Name: "items", Quick: 20000, Thorough: 200000, Run: c19items},
			lowerOff("items", 2000, 20000, c19items),
		}})
	register(&Prop{ID: "C20", Known: c20known,
		Rule: "analyze: word lists that are the result of every cut mode on the text, or made up (words, parts of the text, empty words), against span rules, with and without the text, in bytes and characters; occurrences: data over one to four characters and searches that overlap themselves and each other; " +
			"non-trivial with two words or occurrences; distinct by text and words",
		Kinds: []Kind{
			{Name: "analyze", Quick: 48000, Thorough: 300000, Run: func(t *T) { c20(t, true) }},
			everyChar(c20),
			{Name: "analyze, ToLower off", Quick: 1500, Thorough: 10000, Serial: true, Run: func(t *T) { withoutLower(func() { c20(t, false) }) }},
			{Name: "occurrences", Quick: 48000, Thorough: 300000, Run: c20occs},
		}})
}
