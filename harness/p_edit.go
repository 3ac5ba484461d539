package main

// C10 (the dictionary as a map), C11 (edited equals freshly loaded).

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm/pos"
)

// query compares Find and Value of one string with the reference.
func query(seg *gse.Segmenter, ref *RefDict, w string, prefixes map[string]int) error {
	f, p, ok := seg.Find(w)
	val, _, err := seg.Value(w)
	e, present := ref.m[w]
	if seg.Dict != nil { // the dictionary itself, and as the tagger has it
		d := pos.Dict{Seg: *seg}
		for i, find := range []func() (float64, string, bool){
			func() (float64, string, bool) { return seg.Dict.Find([]byte(w)) },
			func() (float64, string, bool) { return d.Freq(w) },
		} {
			if f2, p2, ok2 := find(); f2 != f || p2 != p || ok2 != ok {
				return fmt.Errorf("%s of %q = %v, %q, %v; the segmenter's Find says %v, %q, %v", []string{"Dictionary.Find", "pos.Dict.Freq"}[i], w, f2, p2, ok2, f, p, ok)
			}
		}
		if p2, ok2 := d.Pos(w); ok2 != present || present && p2 != e.Pos {
			return fmt.Errorf("pos.Dict.Pos(%q) = %q, %v; the word is present: %v, with %q", w, p2, ok2, present, e.Pos)
		}
		val2, _, err2 := seg.Dict.Value([]byte(w))
		if val2 != val || (err2 == nil) != (err == nil) {
			return fmt.Errorf("Dictionary.Value(%q) = %d, %v; the segmenter's Value says %d, %v", w, val2, err2, val, err)
		}
	}
	switch {
	case present:
		if !ok || f != e.Freq || p != e.Pos {
			return fmt.Errorf("Find(%q) = %v, %q, %v; the word is present with %v, %q", w, f, p, ok, e.Freq, e.Pos)
		}
		if err != nil {
			return fmt.Errorf("Value(%q) fails for a present word: %v", w, err)
		}
		if val < 0 || val >= len(seg.Dict.Tokens) {
			return fmt.Errorf("Value(%q) = %d with %d tokens", w, val, len(seg.Dict.Tokens))
		}
		if tok := &seg.Dict.Tokens[val]; tok.Text() != w || tok.Freq() != e.Freq || tok.Pos() != e.Pos {
			return fmt.Errorf("Value(%q) = %d, which is the token %q %v %q", w, val, tok.Text(), tok.Freq(), tok.Pos())
		}
	case prefixes[w] > 0:
		if !ok || f != 0 || p != "" {
			return fmt.Errorf("Find(%q) = %v, %q, %v; it is a proper prefix of a word only", w, f, p, ok)
		}
		if err == nil {
			return fmt.Errorf("Value(%q) = %d without error; it is a proper prefix of a word only", w, val)
		}
	default:
		if ok || f != 0 || p != "" {
			return fmt.Errorf("Find(%q) = %v, %q, %v; it is not in the dictionary", w, f, p, ok)
		}
		if err == nil {
			return fmt.Errorf("Value(%q) = %d without error; it is not in the dictionary", w, val)
		}
	}
	return nil
}

// prefixCount counts the proper byte prefixes of words.
type prefixCount map[string]int

func (p prefixCount) add(w string, n int) {
	for i := 1; i < len(w); i++ {
		p[w[:i]] += n
		if p[w[:i]] == 0 {
			delete(p, w[:i])
		}
	}
}

type editor struct {
	seg      *gse.Segmenter
	ref      *RefDict
	prefixes prefixCount
	log      []string
}

func (ed *editor) note(format string, a ...any) {
	ed.log = append(ed.log, fmt.Sprintf(format, a...))
}

func (ed *editor) history() string {
	l := ed.log
	if len(l) > 80 {
		l = append([]string{fmt.Sprintf("… %d earlier operations", len(l)-80)}, l[len(l)-80:]...)
	}
	return strings.Join(l, "; ")
}

func (ed *editor) sizes() error {
	if n := ed.seg.Dict.NumTokens(); n != len(ed.ref.m) {
		return fmt.Errorf("NumTokens() = %d, %d words are present", n, len(ed.ref.m))
	}
	if f := ed.seg.Dict.TotalFreq(); f != ed.ref.total {
		return fmt.Errorf("TotalFreq() = %v, the words present sum to %v", f, ed.ref.total)
	}
	return nil
}

// edit makes one random edit and checks its answer.
func (ed *editor) edit(t *T, w string, freq float64, tag string) error {
	c := ed.ref.canon(w)
	_, present := ed.ref.m[c]
	dropTag := tag == "" && t.Intn(2) == 0
	poss := []string{tag}
	if dropTag {
		poss = nil
	}
	op := t.Intn(12)
	switch {
	case op < 5:
		var err error
		switch {
		case ed.seg.Dict == nil || op < 3:
			ed.note("AddToken(%q, %v, %q)", w, freq, poss)
			err = ed.seg.AddToken(w, freq, poss...)
		case op == 3:
			ed.note("AddTokenForce(%q, %v, %q)", w, freq, poss)
			err = ed.seg.AddTokenForce(w, freq, poss...)
		case t.Intn(2) == 0:
			ed.note("pos.Dict.AddToken(%q, %v, %q)", w, freq, poss)
			d := pos.Dict{Seg: *ed.seg}
			err = d.AddToken(w, freq, poss...)
		default:
			ed.note("Dict.AddToken(ToToken(%q, %v, %q))", w, freq, poss)
			err = ed.seg.Dict.AddToken(ed.seg.ToToken(w, freq, poss...))
		}
		if nul := strings.ContainsRune(w, 0); (err != nil) != nul {
			return fmt.Errorf("adding %q: error %v; it has a NUL byte: %v", w, err, nul)
		} else if nul {
			t.Count("words with NUL refused", 1)
			return nil
		}
		if ed.ref.Add(Entry{w, freq, tag}) {
			ed.prefixes.add(c, 1)
		}
		t.Count("words added", 1)
		if present {
			t.Count("words added while present", 1)
		}
	case op < 8:
		ed.note("ReAddToken(%q, %v, %q)", w, freq, poss)
		err := ed.seg.ReAddToken(w, freq, poss...)
		if (err == nil) != present {
			return fmt.Errorf("ReAddToken(%q) gives error %v, the word is present: %v", w, err, present)
		}
		if present {
			ed.ref.Remove(w)
			ed.ref.Add(Entry{w, freq, tag})
			t.Count("words re-added", 1)
		} else {
			t.Count("re-adds of absent words refused", 1)
		}
	default:
		var err error
		if ed.seg.Dict == nil || op < 11 {
			ed.note("RemoveToken(%q)", w)
			err = ed.seg.RemoveToken(w)
		} else if t.Intn(2) == 0 {
			ed.note("pos.Dict.RemoveToken(%q)", w)
			d := pos.Dict{Seg: *ed.seg}
			err = d.RemoveToken(w)
		} else {
			ed.note("Dict.RemoveToken(ToToken(%q))", w)
			err = ed.seg.Dict.RemoveToken(ed.seg.ToToken(w, freq))
		}
		if (err == nil) != present {
			return fmt.Errorf("removing %q gives error %v, the word is present: %v", w, err, present)
		}
		if present {
			ed.ref.Remove(w)
			ed.prefixes.add(c, -1)
			t.Count("words removed", 1)
		} else if ed.prefixes[c] > 0 {
			t.Count("removals of mere prefixes refused", 1)
		} else {
			t.Count("removals of absent words refused", 1)
		}
	}
	return nil
}

func newEditor(o Opt) *editor {
	return &editor{seg: newSeg(o), ref: newRef(o), prefixes: prefixCount{}}
}

func c10(t *T, lower bool) {
	g := newGen(t, false)
	o := t.opt()
	o.Lower = lower
	ed := newEditor(o)
	ed.seg.NotLoadHMM = true
	t.Base(o)
	var universe []string
	for _, e := range g.vocab(4+t.Intn(14), freqSmall, nil) {
		universe = append(universe, e.Word)
		r := []rune(e.Word)
		if len(r) > 1 && t.Intn(2) == 0 {
			universe = append(universe, string(r[:1+t.Intn(len(r)-1)]))
		}
		if t.Intn(4) == 0 {
			universe = append(universe, e.Word+g.hanWord(1))
		}
		if t.Intn(6) == 0 {
			universe = append(universe, strings.ToUpper(e.Word), strings.ToLower(e.Word))
		}
		if t.Intn(12) == 0 { // words need not be valid UTF-8
			universe = append(universe, e.Word[:len(e.Word)-1]+"\xff", "\xe4\xb8")
		}
		if t.Intn(12) == 0 { // words with NUL are refused
			universe = append(universe, e.Word+"\x00", "\x00"+e.Word, e.Word+"\x00"+e.Word, "\x00")
		}
	}
	var ok []string
	for _, w := range universe {
		if w != "" {
			ok = append(ok, w)
		}
	}
	universe = ok
	fail := func(err error) {
		if err != nil {
			t.Fatalf("%v; options %+v; history: %s", err, o, ed.history())
		}
	}
	if t.Intn(2) == 0 {
		ed.seg.Dict, ed.seg.Load = gse.NewDict(), true
	}
	queries := func(n int) {
		for ; n > 0; n-- {
			w := ed.ref.canon(pick(t, universe))
			switch t.Intn(6) {
			case 0:
				w = w[:1+t.Intn(len(w))]
			case 1:
				w += pick(t, []string{"a", "中", "\xff", "1", "\x00", "\x00\x00"})
			}
			fail(query(ed.seg, ed.ref, w, ed.prefixes))
			t.Count("lookups compared", 1)
		}
	}
	for n := 10 + t.Intn(50); n > 0; n-- {
		freq := float64(1 + t.Intn(1000)) // sums are exact
		switch t.Intn(8) {
		case 0:
			freq /= 8
		case 1:
			freq *= 1 << 32
		}
		fail(ed.edit(t, pick(t, universe), freq, pick(t, posTags)))
		if ed.seg.Dict == nil {
			continue
		}
		fail(ed.sizes())
		queries(3)
		if t.Intn(10) == 0 {
			ed.seg.CalcToken()
			ed.note("CalcToken()")
		}
	}
	if ed.seg.Dict != nil {
		for _, w := range universe {
			c := ed.ref.canon(w)
			for i := 1; i <= len(c); i++ {
				fail(query(ed.seg, ed.ref, c[:i], ed.prefixes))
			}
		}
	}
	t.Sig(ed.log)
	if len(ed.ref.m) > 0 {
		t.Nontrivial()
		t.Sample(map[string]any{"options": fmt.Sprintf("%+v", o), "history": ed.history(), "words left": len(ed.ref.m)})
	}
}

// c10large drives the trie through thousands of edits.
func c10large(t *T) {
	o := Opt{Lower: gse.ToLower}
	ed := newEditor(o)
	ed.seg.NotLoadHMM = true
	ed.seg.Dict, ed.seg.Load = gse.NewDict(), true
	n := 500 + t.Intn(2500)
	var universe []string
	chars := 10 + t.Intn(200)
	for i := 0; i < n; i++ {
		w := ""
		for k := 1 + t.Intn(5); k > 0; k-- {
			if t.Intn(10) == 0 {
				w += string(rune('a' + t.Intn(26)))
			} else {
				w += string(rune(0x4e00 + t.Intn(chars)*37))
			}
		}
		universe = append(universe, w)
	}
	fail := func(err error) {
		if err != nil {
			t.Fatalf("%v; history: %s", err, ed.history())
		}
	}
	for i := 0; i < 3*n; i++ {
		w := pick(t, universe)
		if t.Intn(3) == 0 && i < 2*n { // grow first
			c := ed.ref.canon(w)
			f := float64(1 + t.Intn(100))
			if err := ed.seg.AddToken(w, f, "n"); err != nil {
				t.Fatalf("AddToken(%q): %v", w, err)
			}
			ed.note("AddToken(%q, %v, n)", w, f)
			if ed.ref.Add(Entry{w, f, "n"}) {
				ed.prefixes.add(c, 1)
			}
		} else {
			op := float64(1 + t.Intn(100))
			// no AddTokenForce here: it recalculates the whole dictionary
			fail(ed.editQuick(t, w, op))
		}
		fail(query(ed.seg, ed.ref, ed.ref.canon(pick(t, universe)), ed.prefixes))
	}
	fail(ed.sizes())
	for _, w := range universe {
		for i := 1; i <= len(w); i++ {
			fail(query(ed.seg, ed.ref, w[:i], ed.prefixes))
		}
	}
	t.Count("edits in large histories", 3*n)
	t.Sig(n, ed.ref.total, universe[0])
	t.Nontrivial()
	t.Sample(map[string]any{"universe": n, "edits": 3 * n, "words left": len(ed.ref.m)})
}

func (ed *editor) editQuick(t *T, w string, freq float64) error {
	c := ed.ref.canon(w)
	_, present := ed.ref.m[c]
	if t.Intn(3) == 0 {
		ed.note("ReAddToken(%q, %v)", w, freq)
		if err := ed.seg.ReAddToken(w, freq); (err == nil) != present {
			return fmt.Errorf("ReAddToken(%q) gives error %v, the word is present: %v", w, err, present)
		}
		if present {
			ed.ref.Remove(w)
			ed.ref.Add(Entry{w, freq, ""})
		}
		return nil
	}
	ed.note("RemoveToken(%q)", w)
	if err := ed.seg.RemoveToken(w); (err == nil) != present {
		return fmt.Errorf("RemoveToken(%q) gives error %v, the word is present: %v", w, err, present)
	}
	if present {
		ed.ref.Remove(w)
		ed.prefixes.add(c, -1)
	}
	return nil
}

// swap removes a word and adds an absent one with its frequency.
func (ed *editor) swap(t *T, universe []string) {
	w, nw := pick(t, universe), pick(t, universe)
	e, ok := ed.ref.m[ed.ref.canon(w)]
	if _, has := ed.ref.m[ed.ref.canon(nw)]; !ok || has || strings.ContainsRune(nw, 0) || nw == "" {
		return
	}
	ed.note("RemoveToken(%q), AddToken(%q, %v)", w, nw, e.Freq)
	if err := ed.seg.RemoveToken(w); err != nil {
		t.Fatalf("RemoveToken(%q): %v; history: %s", w, err, ed.history())
	}
	ed.ref.Remove(w)
	ed.prefixes.add(ed.ref.canon(w), -1)
	if err := ed.seg.AddToken(nw, e.Freq, e.Pos); err != nil {
		t.Fatalf("AddToken(%q): %v; history: %s", nw, err, ed.history())
	}
	ed.ref.Add(Entry{nw, e.Freq, e.Pos})
	ed.prefixes.add(ed.ref.canon(nw), 1)
	t.Count("words exchanged for others of their frequency", 1)
}

// ---- C11 ------------------------------------------------------------------

func tokenTree(tok *gse.Token, depth int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s/%v/%s", tok.Text(), tok.Freq(), tok.Pos())
	if subs := tok.Segments(); len(subs) > 0 && depth < 50 {
		b.WriteString("(")
		for _, s := range subs {
			fmt.Fprintf(&b, "%d-%d:%s ", s.Start(), s.End(), tokenTree(s.Token(), depth+1))
		}
		b.WriteString(")")
	}
	return b.String()
}

// observe is everything the cutting modes say about a text.
func observe(seg *gse.Segmenter, text string) []string {
	var b strings.Builder
	segs := seg.Segment([]byte(text))
	for i := range segs {
		fmt.Fprintf(&b, "%d-%d:%s ", segs[i].Start(), segs[i].End(), tokenTree(segs[i].Token(), 0))
	}
	out := []string{"Segment: " + b.String()}
	add := func(name string, l []string) { out = append(out, name+": "+strings.Join(l, "|")) }
	add("Cut", seg.Cut(text))
	add("CutSearch", seg.CutSearch(text))
	add("Cut(false)", seg.Cut(text, false))
	add("Cut(true)", seg.Cut(text, true))
	add("CutSearch(false)", seg.CutSearch(text, false))
	add("CutSearch(true)", seg.CutSearch(text, true))
	add("CutAll", seg.CutAll(text))
	out = append(out, "String(true): "+seg.String(text, true), "Pos: "+fmt.Sprint(seg.Pos(text)))
	return out
}

func sameObservation(a, b []string) string {
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("%q, and %q", a[i], b[i])
		}
	}
	return ""
}

func sortedEntries(ref *RefDict) []Entry {
	var es []Entry
	for c, e := range ref.m {
		es = append(es, Entry{c, e.Freq, e.Pos})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].Word < es[j].Word })
	return es
}

// fresh loads the words into a new segmenter in a random order.
func fresh(t *T, ref *RefDict) (*gse.Segmenter, string) {
	es := sortedEntries(ref)
	t.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
	seg := newSeg(ref.opt)
	loadable := len(es) > 0
	for _, e := range es {
		if !plainWord(e.Word) || e.Freq < 2 || utf8.RuneCountInString(e.Word) == 1 && e.Freq != 2 {
			loadable = false
		}
	}
	var err error
	if loadable && t.Intn(2) == 0 {
		if t.Intn(2) == 0 {
			err = seg.LoadDictStr(dictText(es, ""))
		} else {
			err = seg.LoadDictMap(dictMap(es))
		}
		if err != nil {
			t.Fatalf("loading: %v", err)
		}
		return seg, "loaded"
	}
	seg.Dict, seg.Load = gse.NewDict(), true
	seg.Init()
	for _, e := range es {
		if err := seg.AddToken(e.Word, e.Freq, e.Pos); err != nil {
			t.Fatalf("AddToken: %v", err)
		}
	}
	seg.CalcToken()
	return seg, "added"
}

func c11(t *T) {
	g := newGen(t, false)
	g.Invalid, g.NUL = t.Intn(4) == 0, t.Intn(5) == 0
	o := t.opt()
	t.Base(o)
	ed := newEditor(o)
	es := g.vocab(4+t.Intn(24), freqSmall, plainWord)
	var universe []string
	for _, e := range es {
		universe = append(universe, e.Word)
	}
	freq := func() float64 { return float64(2 + t.Intn(200)) }
	loads := func() {
		var part []Entry
		for n := 1 + t.Intn(8); n > 0; n-- {
			e := Entry{pick(t, universe), freq(), pick(t, posTags)}
			if utf8.RuneCountInString(e.Word) < 2 {
				e.Freq = 2
			}
			part = append(part, e)
			if ed.ref.Add(e) {
				ed.prefixes.add(ed.ref.canon(e.Word), 1)
			}
		}
		var err error
		if t.Intn(2) == 0 {
			ed.note("LoadDictStr(%q)", dictText(part, ""))
			err = ed.seg.LoadDictStr(dictText(part, ""))
		} else {
			ed.note("LoadDictMap(%v)", dictMap(part))
			err = ed.seg.LoadDictMap(dictMap(part))
		}
		if err != nil {
			t.Fatalf("%v; history: %s", err, ed.history())
		}
	}
	if t.Intn(2) == 0 {
		loads()
	} else {
		ed.seg.Dict, ed.seg.Load = gse.NewDict(), true
		ed.seg.Init()
	}
	var texts []string
	for round := 0; round < 4; round++ {
		n := 1 + t.Intn(20)
		if round > 0 && t.Intn(3) == 0 {
			// only one word goes, and another one with its frequency comes
			n = 0
			ed.swap(t, universe)
		}
		for ; n > 0; n-- {
			if t.Intn(12) == 0 {
				loads()
			} else if t.Intn(10) == 0 {
				ed.swap(t, universe)
			} else if err := ed.edit(t, pick(t, universe), freq(), pick(t, posTags)); err != nil {
				t.Fatalf("%v; history: %s", err, ed.history())
			}
		}
		switch t.Intn(4) {
		case 0, 3:
			ed.note("CalcToken()")
			ed.seg.CalcToken()
		case 1:
			w, f := pick(t, universe), freq()
			ed.note("AddTokenForce(%q, %v)", w, f)
			if err := ed.seg.AddTokenForce(w, f); err != nil {
				t.Fatalf("%v; history: %s", err, ed.history())
			}
			if ed.ref.Add(Entry{w, f, ""}) {
				ed.prefixes.add(ed.ref.canon(w), 1)
			}
		default:
			loads()
		}
		if len(ed.ref.m) == 0 {
			continue
		}
		other, how := fresh(t, ed.ref)
		for i := 0; i < 4; i++ {
			text := g.text(1 + t.Intn(12))
			if len(texts) > 0 && t.Intn(2) == 0 {
				// a text that was cut before
				text = pick(t, texts)
			} else if len(text) < 2000 {
				texts = append(texts, text)
			}
			if diff := sameObservation(observe(ed.seg, text), observe(other, text)); diff != "" {
				t.Fatalf("text %q: after the history, and on a fresh segmenter (%s) with the same words: %s; words %v; history: %s",
					text, how, diff, sortedEntries(ed.ref), ed.history())
			}
			t.Sig(ed.log, text)
			if len(ed.log) > 3 && len(text) > 3 {
				t.Nontrivial()
				t.Sample(map[string]any{"history": ed.history(), "text": text, "result": observe(other, text)})
			}
			t.Count("texts compared in ten forms", 1)
			t.Eval()
		}
	}
}

func init() {
	register(&Prop{ID: "C10",
		Rule: "random histories of 10-60 AddToken/AddTokenForce/ReAddToken/RemoveToken (through the segmenter, the dictionary and a tagger's dictionary) over overlapping words, their prefixes, extensions and upper-case forms, and large ones of up to 9000 edits; after every edit its answer, the sizes and random Find/Value lookups through the three of them (words, byte prefixes, extensions) are compared with a plain map, at the end every prefix of every word; " +
			"an evaluation is one history, non-trivial when words are left, distinct by history",
		Kinds: []Kind{
			{Name: "history", Quick: 150000, Thorough: 2000000, Run: func(t *T) { c10(t, true) }},
			{Name: "history, ToLower off", Quick: 1500, Thorough: 10000, Serial: true, Run: func(t *T) { withoutLower(func() { c10(t, false) }) }},
			{Name: "large history", Quick: 1200, Thorough: 10000, Run: c10large},
			everyChar(c10),
		}})
	register(&Prop{ID: "C11",
		Rule: "random histories of edits (some exchange a word for another of the same frequency) and loads with four recalculation points (CalcToken, AddTokenForce or a load); at each, texts, new ones and ones cut before, are cut in ten forms (token trees with offsets included) by the edited segmenter and by a new one loaded with the words present in a random order; " +
			"an evaluation is one text at one point, non-trivial when the history has more than three steps, distinct by history and text",
		Kinds: []Kind{
			{Name: "history", Quick: 6000, Thorough: 80000, Run: c11},
			lowerOff("history", 800, 10000, c11),
		}})
}
