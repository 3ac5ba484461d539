package main

// C22: the part-of-speech tagger.

import (
	_ "embed"
	"fmt"
	"math"
	"os"
	"regexp"
	"slices"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm/pos"
	"github.com/go-ego/gse/hmm/util"
)

//go:embed data/pos.gob.gz
var posData []byte

// PosModel is the tag model: states are 100·(1 B, 2 E, 3 M, 4 S) + tag.
type PosModel struct {
	Start map[uint16]float64
	Trans map[uint16]map[uint16]float64
	Emit  map[uint16]map[rune]float64
	Tab   map[rune][]uint16
	Tags  []string

	all   []uint16
	index map[string]uint16
}

var posModel = sync.OnceValue(func() *PosModel {
	m := &PosModel{}
	ungob(posData, m)
	for s := range m.Trans {
		m.all = append(m.all, s)
	}
	m.index = map[string]uint16{}
	for i, t := range m.Tags {
		if _, ok := m.index[t]; !ok {
			m.index[t] = uint16(i)
		}
	}
	return m
})

var posRunes = sync.OnceValue(func() []rune {
	seen := map[rune]bool{}
	for r := range posModel().Tab {
		seen[r] = true
	}
	return sortedRunes(seen)
})

func (m *PosModel) states(r rune) []uint16 {
	if s, ok := m.Tab[r]; ok {
		return s
	}
	return m.all
}

func (m *PosModel) emit(s uint16, r rune) float64 {
	if v, ok := m.Emit[s][r]; ok {
		return v
	}
	return imposs
}

// best is the score of the most likely path among the states that the model
// lists for each character (where a previous state leads to one of them, else
// all that a previous state leads to). ok is false where no state leads on.
func (m *PosModel) best(obs []rune) (best score, ok bool) {
	cur := map[uint16]score{}
	for _, s := range m.states(obs[0]) {
		cur[s] = score{}.plus(m.Start[s]).plus(m.emit(s, obs[0]))
	}
	for _, r := range obs[1:] {
		reach := map[uint16]score{} // before the emission
		for s, sc := range cur {
			for y, p := range m.Trans[s] {
				c := sc.plus(p)
				if o, ok := reach[y]; !ok || c.better(o) {
					reach[y] = c
				}
			}
		}
		if len(reach) == 0 {
			return score{}, false
		}
		next := map[uint16]score{}
		for _, y := range m.states(r) {
			if sc, ok := reach[y]; ok {
				next[y] = sc.plus(m.emit(y, r))
			}
		}
		if len(next) == 0 {
			for y, sc := range reach {
				next[y] = sc.plus(m.emit(y, r))
			}
		}
		cur = next
	}
	first := true
	for _, sc := range cur {
		if first || sc.better(best) {
			best, first = sc, false
		}
	}
	return best, !first
}

// path is the score of a state sequence, impossible when a transition is not in the model.
func (m *PosModel) path(obs []rune, st []uint16) score {
	sc := score{}.plus(m.Start[st[0]]).plus(m.emit(st[0], obs[0]))
	for i := 1; i < len(obs); i++ {
		p, ok := m.Trans[st[i-1]][st[i]]
		if !ok {
			p = imposs
		}
		sc = sc.plus(p).plus(m.emit(st[i], obs[i]))
	}
	return sc
}

// posStates turns tagged pieces of a Han run back into states; the last piece
// may be an unfinished word.
func (m *PosModel) posStates(items []gse.SegPos, open bool) ([]uint16, error) {
	var st []uint16
	for k, it := range items {
		n := utf8.RuneCountInString(it.Text)
		tg, ok := m.index[it.Pos]
		if !ok {
			return nil, fmt.Errorf("%q is not a tag of the model", it.Pos)
		}
		last := open && k == len(items)-1
		if n == 1 && !last {
			st = append(st, 400+tg)
			continue
		}
		st = append(st, 100+tg)
		for i := 1; i < n; i++ {
			if i == n-1 && !last {
				st = append(st, 200+tg)
			} else {
				st = append(st, 300+tg)
			}
		}
	}
	return st, nil
}

// checkRun tells whether a Han run is cut and tagged along a most likely path.
func (m *PosModel) checkRun(run string, items []gse.SegPos) (exact bool, err error) {
	obs := []rune(run)
	best, ok := m.best(obs)
	if !ok {
		return false, nil
	}
	var got []score
	for _, open := range []bool{false, true} {
		st, err := m.posStates(items, open)
		if err != nil {
			if best.imp > 0 {
				return false, nil
			}
			return false, err
		}
		got = append(got, m.path(obs, st))
	}
	for _, g := range got {
		if g.imp <= best.imp && (g.imp > 0 || g.sum >= best.sum-1e-7-3e-16*float64(len(obs))*math.Abs(best.sum)) {
			return best.imp == 0, nil
		}
	}
	if best.imp > 0 {
		// the sums are absorbed by the impossible steps; nothing more is promised
		return false, nil
	}
	return false, fmt.Errorf("run %q is cut into %v (log probability %v), the most likely path has %v", run, items, got, best)
}

// ---- expected output -------------------------------------------------------

type posItem struct {
	seg gse.SegPos
	run bool // a Han run that the model cuts and tags
}

func inBlock(r rune) bool {
	return isHan(r) || r < 128 && isASCIIAN(byte(r)) || strings.ContainsRune("+#&._", r)
}

// splitRun is what the tagger makes of a run of single characters.
func splitRun(s string) (out []posItem) {
	kind := func(r rune) int {
		switch {
		case isHan(r):
			return 0
		case r == '.' || r >= '0' && r <= '9':
			return 1
		}
		return 2
	}
	for len(s) > 0 {
		r, _ := utf8.DecodeRuneInString(s)
		k := kind(r)
		n := strings.IndexFunc(s, func(r rune) bool { return kind(r) != k })
		if n < 0 {
			n = len(s)
		}
		p := s[:n]
		s = s[n:]
		switch {
		case k == 0:
			out = append(out, posItem{gse.SegPos{Text: p}, true})
		case k == 1:
			out = append(out, posItem{seg: gse.SegPos{Text: p, Pos: "m"}})
		case strings.IndexFunc(p, func(r rune) bool { return r < 128 && isASCIIAN(byte(r)) }) >= 0:
			out = append(out, posItem{seg: gse.SegPos{Text: p, Pos: "eng"}})
		default:
			out = append(out, posItem{seg: gse.SegPos{Text: p, Pos: "x"}})
		}
	}
	return
}

// posExpect builds the expected items of a text. unique is false when another
// route is as probable.
func posExpect(ref *RefDict, text string, useHMM bool, logTotal float64) (out []posItem, unique bool) {
	unique = true
	tagOf := func(w string) string {
		if e, ok := ref.m[w]; ok {
			return e.Pos
		}
		return "x"
	}
	plain := func(w, tag string) { out = append(out, posItem{seg: gse.SegPos{Text: w, Pos: tag}}) }
	runes := []rune(text)
	for i := 0; i < len(runes); {
		if !inBlock(runes[i]) {
			if runes[i] == '\r' && i+1 < len(runes) && runes[i+1] == '\n' {
				plain("\r\n", "x")
				i += 2
				continue
			}
			plain(string(runes[i]), "x")
			i++
			continue
		}
		j := i
		for j < len(runes) && inBlock(runes[j]) {
			j++
		}
		block := runes[i:j]
		i = j
		_, ends, u := ref.bestRoute(block, logTotal, 1e-7)
		unique = unique && u
		var buf []rune
		flush := func() {
			s := string(buf)
			switch {
			case len(buf) == 0:
			case !useHMM:
				plain(s, "eng")
			case len(buf) == 1:
				plain(s, tagOf(s))
			case ref.Freq(s) > 0:
				for _, r := range buf {
					plain(string(r), tagOf(string(r)))
				}
			default:
				out = append(out, splitRun(s)...)
			}
			buf = nil
		}
		at := 0
		for _, e := range ends {
			w := block[at:e]
			at = e
			if len(w) == 1 && (useHMM || w[0] < 128 && isASCIIAN(byte(w[0]))) {
				buf = append(buf, w[0])
				continue
			}
			flush()
			plain(string(w), tagOf(string(w)))
		}
		flush()
	}
	return
}

// matchPos compares the tagger's items with the expected ones.
func matchPos(want []posItem, got []gse.SegPos) (exactRuns int, err error) {
	k := 0
	for _, w := range want {
		if !w.run {
			if k >= len(got) || got[k] != w.seg {
				return exactRuns, fmt.Errorf("item %d should be %v", k, w.seg)
			}
			k++
			continue
		}
		from, l := k, 0
		for l < len(w.seg.Text) && k < len(got) {
			l += len(got[k].Text)
			k++
		}
		if l != len(w.seg.Text) {
			return exactRuns, fmt.Errorf("the run %q is not cut by itself", w.seg.Text)
		}
		exact, err := posModel().checkRun(w.seg.Text, got[from:k])
		if err != nil {
			return exactRuns, err
		}
		if exact {
			exactRuns++
		}
	}
	if k != len(got) {
		return exactRuns, fmt.Errorf("%d items more than expected", len(got)-k)
	}
	return exactRuns, nil
}

func joinPos(ps []gse.SegPos) string {
	var b strings.Builder
	for _, p := range ps {
		b.WriteString(p.Text)
	}
	return b.String()
}

// checkPos is the monitor of C22 over one tagging.
func checkPos(t *T, ref *RefDict, text string, useHMM bool, got []gse.SegPos, desc func() string) {
	if s := joinPos(got); s != string([]rune(text)) {
		t.Fatalf("hmm %v: the items are not the text: %q; items %v; %s", useHMM, s, got, desc())
	}
	t.Sig(text, useHMM)
	var errs []string
	// See known finding C22-route: the route may be the one for a total of 1.
	for _, lt := range []float64{0, math.Log(ref.total)} {
		want, unique := posExpect(ref, text, useHMM, lt)
		if !unique {
			t.Count("texts with several most probable routes (only losslessness checked)", 1)
			return
		}
		n, err := matchPos(want, got)
		if err == nil {
			words := 0
			for _, w := range want {
				if _, ok := ref.m[w.seg.Text]; ok && !w.run {
					words++
				}
			}
			t.Count("dictionary words whose tag was compared", words)
			t.Count("Han runs whose tags were compared with the most likely path", n)
			if words > 0 || n > 0 {
				t.Nontrivial()
				t.Sample(map[string]any{"setting": desc(), "hmm": useHMM, "items": fmt.Sprint(got)})
			}
			return
		}
		errs = append(errs, err.Error())
	}
	t.Fatalf("hmm %v: %s; items %v; %s", useHMM, strings.Join(errs, " / with the real total: "), got, desc())
}

// posText mixes characters of the tag model into the texts.
func posText(t *T, g *Gen) string {
	var b strings.Builder
	for i := 1 + t.Intn(4); i > 0; i-- {
		switch t.Intn(6) {
		case 0, 1, 2:
			b.WriteString(g.text(1 + t.Intn(4)))
		case 3:
			for l := 1 + t.Intn(8); l > 0; l-- {
				b.WriteRune(pick(t, posRunes()))
			}
		case 4:
			b.WriteString(pick(t, []string{"3.14", "1.2.3", "a1b2", "C++", "C#", "R&D", "a.b", "foo_bar", "...", "24口", "T恤", "x", "7", "_", "#", "\r\n", " \t", "\n\n", "１２", "é", "，"}))
		case 5:
			b.WriteString(hanText(t, 1+t.Intn(6)))
		}
	}
	return b.String()
}

// otherSeg is a segmenter over another dictionary, for objects that are
// given a second one.
func otherSeg(t *T, g *Gen) *gse.Segmenter {
	seg := newSeg(t.opt())
	var es []Entry
	have := newRef(Opt{Lower: gse.ToLower})
	for k := 1 + t.Intn(5); k > 0; k-- {
		e := Entry{g.hanWord(1 + t.Intn(3)), t.freq(freqSmall), "other"}
		if len(g.words) > 0 && t.Intn(2) == 0 {
			e.Word = pick(t, g.words).Word
		}
		if !strings.ContainsRune(e.Word, 0) && have.Add(e) {
			es = append(es, e)
		}
	}
	fill(t, seg, es, Opt{Lower: gse.ToLower})
	return seg
}

func c22case(t *T) {
	g := newGen(t, false)
	g.Invalid, g.NUL = t.Intn(4) == 0, t.Intn(5) == 0
	if t.sweep != nil {
		g.long, g.sweeps = 0, 1
		// rare characters are slow to tag: one in six of them
		g.sweep = nil
		for _, r := range g.han {
			if !isHan(r) || r >= 0x4e00 && r < 0xa000 && t.Intn(2) == 0 || t.Intn(6) == 0 {
				g.sweep = append(g.sweep, r)
			}
		}
	}
	o := t.opt()
	es := g.vocab(1+t.Intn(30), t.Intn(freqModes), utf8.ValidString)
	inner := newSeg(o)
	ref := fill(t, inner, es, o)
	var tagger pos.Segmenter
	if t.Intn(4) == 0 {
		tagger.WithGse(*otherSeg(t, g))
		tagger.Cut(posText(t, g), t.Intn(2) == 0)
		t.Count("taggers given a second dictionary", 1)
	}
	tagger.WithGse(*inner)
	for i := 0; i < 6; i++ {
		if t.Intn(6) == 0 { // the dictionary is edited between two cuts
			k := t.Intn(len(es))
			e := es[k]
			if e.Word != "" && !strings.ContainsRune(e.Word, 0) {
				if utf8.RuneCountInString(e.Word) > 1 {
					e.Freq = t.freq(t.Intn(freqModes))
				}
				e.Pos = pick(t, posTags)
				if err := inner.ReAddToken(e.Word, e.Freq, e.Pos); err != nil {
					t.Fatalf("ReAddToken(%q): %v; %s", e.Word, err, setting(o, es, ""))
				}
				es = append([]Entry{}, es...)
				es[k] = e
				ref.Remove(e.Word)
				ref.Add(e)
				t.Base("edit", e)
				t.Count("edits between cuts", 1)
			}
		}
		text := posText(t, g)
		useHMM := t.Intn(2) == 0
		var got []gse.SegPos
		if useHMM || t.Intn(2) == 0 {
			got = tagger.Cut(text, useHMM)
		} else {
			got = tagger.Cut(text)
		}
		checkPos(t, ref, text, useHMM, got, func() string { return setting(o, es, text) })
		posFilters(t, &tagger, inner, got)
		t.Eval()
	}
}

// posFilters checks the tagger's own filters.
func posFilters(t *T, tagger *pos.Segmenter, inner *gse.Segmenter, items []gse.SegPos) {
	before := fmt.Sprintf("%q", items)
	var tags []string
	for n := t.Intn(4); n > 0; n-- {
		tags = append(tags, pick(t, append([]string{"x", "eng", "m", "n", "zz"}, posTags...)))
	}
	checkItems(t, "tagger.TrimWithPos", items, tagger.TrimWithPos(items, tags...), func(p gse.SegPos) bool {
		for _, g := range tags {
			if p.Pos == g {
				return false
			}
		}
		return true
	})
	checkItems(t, "tagger.TrimPunct", items, tagger.TrimPunct(items), func(p gse.SegPos) bool {
		r, _ := utf8.DecodeRuneInString(p.Text)
		return p.Text != "" && !unicode.IsSpace(r) && !unicode.IsPunct(r)
	})
	checkItems(t, "tagger.Trim", items, tagger.Trim(items), func(p gse.SegPos) bool {
		s := refFilterSymbol(p.Text)
		return s != "" && (inner.NotStop || !inner.IsStop(s))
	})
	if s := fmt.Sprintf("%q", items); s != before {
		t.Fatalf("the tagger's filters changed their argument from %s to %s", before, s)
	}
}

// checkItems compares a filter's result with its rule, item by item.
func checkItems(t *T, name string, in, got []gse.SegPos, keep func(gse.SegPos) bool) {
	var want []gse.SegPos
	for _, p := range in {
		if keep(p) {
			want = append(want, p)
		}
	}
	if fmt.Sprintf("%q", want) != fmt.Sprintf("%q", got) {
		t.Fatalf("%s(%q) = %q, its rule keeps %q", name, in, got, want)
	}
	t.Count("items filtered by "+name, len(in))
}

// refFilterSymbol drops symbols, spaces and punctuation.
func refFilterSymbol(s string) string {
	var b strings.Builder
	for _, r := range s {
		if !unicode.IsSymbol(r) && !unicode.IsSpace(r) && !unicode.IsPunct(r) {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// c22model tags runs that no dictionary word covers, so that all of them go to the model.
func c22model(t *T) { c22runs(t, 8, false) }

// possibleRun is a run of about n characters for which the tag model has a
// possible path.
func possibleRun(t *T, n int) string {
	possible := func(r []rune) bool {
		best, ok := posModel().best(r)
		return ok && best.imp == 0
	}
	var blocks [][]rune // each may follow each
	for tries := 0; len(blocks) < 4 && tries < 40; tries++ {
		var b []rune
		for k := 200; len(b) < 12 && k > 0; k-- {
			r := append(slices.Clone(b), pick(t, posRunes()))
			if possible(r) {
				b = r
			}
		}
		ok := len(b) > 2 && possible(slices.Concat(b, b))
		for _, c := range blocks {
			ok = ok && possible(slices.Concat(b, c)) && possible(slices.Concat(c, b))
		}
		if ok {
			blocks = append(blocks, b)
		}
	}
	var run []rune
	for len(run) < n {
		if len(blocks) == 0 {
			run = append(run, pick(t, posRunes()))
		} else {
			run = append(run, pick(t, blocks)...)
		}
	}
	return string(run)
}

// c22long: runs of thousands of characters.
func c22long(t *T) { c22runs(t, 1, true) }

func c22runs(t *T, texts int, long bool) {
	var tagger pos.Segmenter
	inner := newSeg(Opt{Lower: gse.ToLower})
	if err := inner.LoadDictStr("qqqq 3 n\n"); err != nil {
		t.Fatalf("loading one word: %v", err)
	}
	tagger.WithGse(*inner)
	ref := newRef(Opt{Lower: gse.ToLower})
	ref.Add(Entry{"qqqq", 3, "n"})
	for i := 0; i < texts; i++ {
		var b strings.Builder
		l := 2 + t.Intn(8)
		if t.Intn(200) == 0 {
			l = 1 << (5 + t.Intn(5))
			l += t.Intn(l)
			t.Count("texts of 32 to 1023 characters given to the model whole", 1)
		}
		if long {
			l = 1 << (10 + t.Intn(2))
			l += t.Intn(l)
			b.WriteString(possibleRun(t, l))
			l = 0
			t.Count("texts of 1024 to 4095 characters given to the model whole", 1)
		}
		if !long && t.Intn(3) == 0 {
			b.WriteString(hanText(t, l))
		} else {
			for ; l > 0; l-- {
				b.WriteRune(pick(t, posRunes()))
			}
		}
		text := b.String()
		checkPos(t, ref, text, true, tagger.Cut(text, true), func() string { return fmt.Sprintf("one-word dictionary, text %q", text) })
		t.Eval()
	}
}

func c22big(t *T) {
	loadBig()
	var tagger pos.Segmenter
	tagger.WithGse(*bigDict.seg)
	for i := 0; i < 4; i++ {
		text := bigText(t)
		useHMM := t.Intn(2) == 0
		checkPos(t, bigDict.ref, text, useHMM, tagger.Cut(text, useHMM), func() string { return fmt.Sprintf("shipped dictionary, text %q", text) })
		t.Eval()
	}
}

// c22load uses the tagger's own LoadDict.
func c22load(t *T) {
	g := newGen(t, false)
	o := Opt{Lower: gse.ToLower}
	es := g.vocab(2+t.Intn(20), freqLog, func(w string) bool { return plainWord(w) && utf8.RuneCountInString(w) > 1 })
	for i := range es {
		es[i].Freq += 2
		if es[i].Pos == "" {
			es[i].Pos = "n"
		}
	}
	f := scratch(".txt")
	if err := os.WriteFile(f, []byte(dictText(es, "")), 0o644); err != nil {
		panic(err)
	}
	defer os.Remove(f)
	var tagger pos.Segmenter
	inner := newSeg(o)
	tagger.WithGse(*inner)
	if err := tagger.LoadDict(f); err != nil {
		t.Fatalf("tagger.LoadDict: %v", err)
	}
	ref := newRef(o)
	for _, e := range es {
		ref.Add(e)
	}
	t.Base(es)
	for i := 0; i < 4; i++ {
		text := posText(t, g)
		useHMM := t.Intn(2) == 0
		checkPos(t, ref, text, useHMM, tagger.Cut(text, useHMM), func() string { return setting(o, es, text) })
		t.Eval()
	}
}

func init() {
	register(&Prop{
		ID: "C22",
		Rule: "taggers over generated dictionaries (WithGse or LoadDict), a one-word dictionary that leaves every run to the model, and the shipped dictionary, with and without HMM; " +
			"the expected items are built from an independent route and rules, and every Han run left to the model is turned back into states whose score under a golden copy of the shipped tables is compared with the best of an independent dynamic programme; among them runs of 1024 to 4095 characters; then the tagger's filters are compared with their rules; the function that divides texts by expressions is compared with regexp.Split and the matches; " +
			"non-trivial: at least one dictionary word's tag or one run was compared; distinct by dictionary, text and mode",
		Kinds: []Kind{
			{Name: "generated dictionaries", Quick: 5000, Thorough: 40000, Run: c22case},
			lowerOff("generated dictionaries", 600, 5000, c22case),
			{Name: "tag model", Quick: 1600, Thorough: 12000, Run: c22model},
			{Name: "long runs", Quick: 16, Thorough: 200, Run: c22long},
			{Name: "tagger.LoadDict", Quick: 600, Thorough: 4000, Run: c22load},
			lowerOff("tagger.LoadDict", 100, 1000, c22load),
			everyChar(func(t *T, _ bool) { c22case(t) }),
			{Name: "shipped dictionary", Quick: 80, Thorough: 600, Run: c22big},
			{Name: "RegexpSplit", Quick: 4000, Thorough: 60000, Run: c22split},
		},
		Known: func(k *Knowns) {
			seg := &gse.Segmenter{SkipLog: true}
			if err := seg.LoadDictStr("甲乙 100 n\n甲 1000 n\n乙 1000 n\n丙丁 1000000 n\n"); err != nil {
				panic(err)
			}
			var tagger pos.Segmenter
			tagger.WithGse(*seg)
			// frequencies of single characters are 2 when loaded: add them
			seg.ReAddToken("甲", 1000, "n")
			seg.ReAddToken("乙", 1000, "n")
			got := tagger.Cut("甲乙", false)
			acc := seg.Cut("甲乙", false)
			k.Add("C22-route", len(got) != len(acc),
				fmt.Sprintf("with the dictionary 甲乙 100, 甲 1000, 乙 1000, 丙丁 1000000 the tagger divides 甲乙 into %v, accurate mode into %v", got, acc))
		},
	})
}

// ---- splitting by an expression ---------------------------------------------

var splitExprs = []string{`\p{Han}+`, `[a-zA-Z0-9]+`, `\r\n|\s`, `[0-9]`, `[中国人]`, `中|人`, `a|b`, `(?:ab)+`, `[^\p{Han}]+`, `.`, `x*`, `$`, `^`, `\b`, ``, `[\x{80}-\x{ffff}]{2}`}

// c22split: the function that divides the texts of the tagger by expressions.
func c22split(t *T) {
	g := newGen(t, false)
	g.Invalid = t.Intn(4) == 0
	for i := 0; i < 6; i++ {
		text := g.text(t.Intn(12))
		switch t.Intn(6) {
		case 0:
			text = ""
		case 1:
			text = pick(t, []string{"ab", "aab", "中", "中国a", "a中", "  ", "人12中"})
		}
		e := pick(t, splitExprs)
		n := -1
		if t.Intn(2) == 0 {
			n = t.Intn(6)
		}
		re := regexp.MustCompile(e)
		got := util.RegexpSplit(re, text, n)
		if want := re.Split(text, n); !slices.Equal(got, want) {
			t.Fatalf("RegexpSplit(%q, %q, %d) = %q, the texts between the matches are %q", e, text, n, got, want)
		}
		group := regexp.MustCompile("(" + e + ")")
		got = util.RegexpSplit(group, text, n)
		if n != 0 && strings.Join(got, "") != text {
			t.Fatalf("RegexpSplit(%q, %q, %d) = %q is not the text", group, text, n, got)
		}
		ms := re.FindAllStringIndex(text, -1)
		if n < 0 && text != "" && !slices.ContainsFunc(ms, func(m []int) bool { return m[0] == m[1] }) {
			var want []string
			at := 0
			for _, m := range ms {
				want = append(want, text[at:m[0]], text[m[0]:m[1]])
				at = m[1]
			}
			want = append(want, text[at:])
			if !slices.Equal(got, want) {
				t.Fatalf("RegexpSplit(%q, %q, -1) = %q, should be %q", group, text, got, want)
			}
		}
		t.Sig(e, text, n)
		if len(got) > 1 {
			t.Nontrivial()
		}
		t.Count("divisions by an expression", 1)
		t.Eval()
	}
}
