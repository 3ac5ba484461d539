package main

// C06: the HMM cut.

import (
	"bufio"
	"bytes"
	"compress/gzip"
	_ "embed"
	"encoding/gob"
	"fmt"
	"math"
	"os"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"unicode"
	"unicode/utf8"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm"
)

//go:embed data/hmm.gob.gz
var hmmData []byte

// HmmModel is the emission part of a model; the rest is fixed.
type HmmModel struct{ Emit map[byte]map[rune]float64 }

func ungob(data []byte, v any) {
	z, err := gzip.NewReader(bytes.NewReader(data))
	if err == nil {
		err = gob.NewDecoder(z).Decode(v)
	}
	if err != nil {
		panic(err)
	}
}

// defModel is the shipped model (a copy made at the pinned commit).
var defModel = sync.OnceValue(func() *HmmModel {
	m := &HmmModel{}
	ungob(hmmData, m)
	return m
})

var hmmRunes = sync.OnceValue(func() []rune {
	seen := map[rune]bool{}
	for _, m := range defModel().Emit {
		for r := range m {
			seen[r] = true
		}
	}
	return sortedRunes(seen)
})

// score is a sum of log probabilities in which impossible steps (the model's
// -3.14e100) are counted instead of added, so that they cannot absorb the rest.
type score struct {
	imp int
	sum float64
}

func (a score) plus(p float64) score {
	if p <= -1e100 {
		return score{a.imp + 1, a.sum}
	}
	return score{a.imp, a.sum + p}
}

func (a score) better(b score) bool {
	if a.imp != b.imp {
		return a.imp < b.imp
	}
	return a.sum > b.sum
}

const imposs = -3.14e100

var (
	hmmStart = map[byte]float64{'B': -0.26268660809250016, 'E': imposs, 'M': imposs, 'S': -1.4652633398537678}
	hmmTrans = map[string]float64{
		"BE": -0.510825623765990, "BM": -0.916290731874155,
		"EB": -0.5897149736854513, "ES": -0.8085250474669937,
		"ME": -0.33344856811948514, "MM": -1.2603623820268226,
		"SB": -0.7211965654669841, "SS": -0.6658631448798212,
	}
)

func (m *HmmModel) emit(s byte, r rune) float64 {
	if v, ok := m.Emit[s][r]; ok {
		return v
	}
	return imposs
}

// best is the score of the most likely state sequence.
func (m *HmmModel) best(obs []rune) score {
	cur := map[byte]score{}
	for _, s := range []byte("BMES") {
		cur[s] = score{}.plus(hmmStart[s]).plus(m.emit(s, obs[0]))
	}
	for _, r := range obs[1:] {
		next := map[byte]score{}
		for st, p := range hmmTrans {
			c := cur[st[0]].plus(p).plus(m.emit(st[1], r))
			if o, ok := next[st[1]]; !ok || c.better(o) {
				next[st[1]] = c
			}
		}
		cur = next
	}
	if cur['E'].better(cur['S']) {
		return cur['E']
	}
	return cur['S']
}

// path is the score of a given state sequence.
func (m *HmmModel) path(obs []rune, states []byte) (score, error) {
	sc := score{}.plus(hmmStart[states[0]]).plus(m.emit(states[0], obs[0]))
	for i := 1; i < len(obs); i++ {
		p, ok := hmmTrans[string(states[i-1:i+1])]
		if !ok {
			return sc, fmt.Errorf("state %c follows %c", states[i], states[i-1])
		}
		sc = sc.plus(p).plus(m.emit(states[i], obs[i]))
	}
	if l := states[len(obs)-1]; l != 'E' && l != 'S' {
		return sc, fmt.Errorf("the last state is %c", l)
	}
	return sc, nil
}

// checkPath tells whether states are a most likely sequence. When steps that
// the model calls impossible cannot be avoided, the finite part is lost in the
// sum (as in every implementation with these constants) and only the number of
// such steps counts.
func (m *HmmModel) checkPath(obs []rune, states []byte) (score, error) {
	if len(states) != len(obs) {
		return score{}, fmt.Errorf("%d states for %d characters", len(states), len(obs))
	}
	sc, err := m.path(obs, states)
	if err != nil {
		return sc, err
	}
	best := m.best(obs)
	if sc.imp > best.imp || sc.imp == 0 && sc.sum < best.sum-1e-7-3e-16*float64(len(obs))*math.Abs(best.sum) {
		return sc, fmt.Errorf("states %s have log probability %v, the most likely sequence has %v", states, sc, best)
	}
	return sc, nil
}

// hmmStates turns the pieces of a Han run back into states.
func hmmStates(pieces []string) []byte {
	var b []byte
	for _, p := range pieces {
		n := utf8.RuneCountInString(p)
		if n == 1 {
			b = append(b, 'S')
			continue
		}
		b = append(b, 'B')
		b = append(b, strings.Repeat("M", n-2)...)
		b = append(b, 'E')
	}
	return b
}

func isASCIIAN(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func isDig(c byte) bool { return c >= '0' && c <= '9' }

// checkCut is the monitor of C06 over one cut. han tells the characters of the
// runs the HMM cuts, skip is the length of the word or number a text starts with.
func (m *HmmModel) checkCut(text string, got []string, han func(rune) bool, skip func(string) int) (runs, words int, err error) {
	if s := strings.Join(got, ""); s != text {
		return 0, 0, fmt.Errorf("the result is not the text: %q", s)
	}
	hanAt := func(s string) bool {
		r, n := utf8.DecodeRuneInString(s)
		return !(r == utf8.RuneError && n == 1) && han(r)
	}
	k := 0
	for at := 0; at < len(text); {
		rest := text[at:]
		if hanAt(rest) {
			n := 0
			for n < len(rest) && hanAt(rest[n:]) {
				_, w := utf8.DecodeRuneInString(rest[n:])
				n += w
			}
			var ps []string
			for l := 0; l < n && k < len(got); k++ {
				ps = append(ps, got[k])
				l += len(got[k])
			}
			if strings.Join(ps, "") != rest[:n] {
				return runs, words, fmt.Errorf("the run %q is not cut by itself: %s", rest[:n], quoteList(ps))
			}
			if _, err := m.checkPath([]rune(rest[:n]), hmmStates(ps)); err != nil {
				return runs, words, fmt.Errorf("run %q cut into %s: %v", rest[:n], quoteList(ps), err)
			}
			runs++
			at += n
			continue
		}
		n := skip(rest)
		if n > 0 {
			words++
		} else {
			for n < len(rest) && !hanAt(rest[n:]) && skip(rest[n:]) == 0 {
				_, w := utf8.DecodeRuneInString(rest[n:])
				n += w
			}
		}
		if k >= len(got) || got[k] != rest[:n] {
			return runs, words, fmt.Errorf("piece %d is %q, not %q", k, append(got, "")[k], rest[:n])
		}
		k++
		at += n
	}
	if k != len(got) {
		return runs, words, fmt.Errorf("%d more pieces: %s", len(got)-k, quoteList(got[k:]))
	}
	return runs, words, nil
}

// skipDefault is the length of the ASCII word or (decimal) number s starts with.
func skipDefault(s string) int {
	d := 0
	for d < len(s) && isDig(s[d]) {
		d++
	}
	if d > 0 && d+1 < len(s) && s[d] == '.' && isDig(s[d+1]) {
		d++
		for d < len(s) && isDig(s[d]) {
			d++
		}
		return d
	}
	n := 0
	for n < len(s) && isASCIIAN(s[n]) {
		n++
	}
	return n
}

func isHan(r rune) bool { return unicode.Is(unicode.Han, r) }

// hanText is a run of Han characters: common, from the model, or any.
func hanText(t *T, n int) string {
	rs := hmmRunes()
	var b strings.Builder
	mode := t.Intn(4)
	for i := 0; i < n; i++ {
		switch {
		case mode == 0 || mode == 3 && t.Intn(2) == 0:
			b.WriteRune(pick(t, hanPool))
		case mode == 1 || t.Intn(8) > 0:
			b.WriteRune(pick(t, rs))
		default:
			b.WriteRune(rune(0x4e00 + t.Intn(0x51a5)))
		}
	}
	return b.String()
}

func hmmText(t *T, g *Gen) string {
	if t.Intn(6) == 0 {
		loadBig()
		return bigText(t)
	}
	var b strings.Builder
	for i := 1 + t.Intn(8); i > 0; i-- {
		switch t.Intn(8) {
		case 0, 1, 2:
			b.WriteString(hanText(t, 1+t.Intn(12)))
		case 3:
			b.WriteString(g.text(1 + t.Intn(3)))
		case 4:
			fmt.Fprintf(&b, "%d.%d", t.Intn(1000), t.Intn(1000))
		case 5:
			b.WriteString(pick(t, []string{"3.", ".5", "1.2.3", "v1.0", "1..2", "a.b", "9", "1.a", "Go1.21", "--", "０.５", "1,000", "3.14中", "٣.٤"}))
		case 6:
			b.WriteString(g.run(pick(t, g.classes), 1+t.Intn(4)))
		case 7:
			if t.Intn(2) == 0 {
				b.WriteString(pick(t, invalid))
			}
		}
	}
	return b.String()
}

var hmmQuiet = &gse.Segmenter{SkipLog: true}

func c06cut(t *T) {
	hmm.InitModel()
	g := newGen(t, false)
	g.Invalid, g.NUL = true, t.Intn(4) == 0
	g.vocab(5, freqSmall, nil)
	for i := 0; i < 6; i++ {
		text := hmmText(t, g)
		var got []string
		if t.Intn(2) == 0 {
			got = hmm.Cut(text)
		} else {
			got = hmmQuiet.HMMCut(text)
		}
		runs, words, err := defModel().checkCut(text, got, isHan, skipDefault)
		if err != nil {
			t.Fatalf("%v; text %q pieces %s", err, text, quoteList(got))
		}
		t.Sig(text)
		t.Count("Han runs whose cut was compared with the most likely sequence", runs)
		t.Count("ASCII words and numbers", words)
		if runs > 0 {
			t.Nontrivial()
			t.Sample(map[string]any{"text": text, "pieces": got})
		}
		t.Eval()
	}
}

// c06long: runs of thousands of characters.
func c06long(t *T) {
	hmm.InitModel()
	for i := 0; i < 2; i++ {
		n := 1 << (9 + t.Intn(5))
		n += t.Intn(n)
		var b strings.Builder
		for k := 0; k < n; {
			// characters that every state has: no step is impossible
			r, all := pick(t, hmmRunes()), true
			for _, m := range defModel().Emit {
				_, ok := m[r]
				all = all && ok
			}
			if all {
				b.WriteRune(r)
				k++
			}
		}
		text := pick(t, []string{"", "v1.0 ", "abc"}) + b.String() + pick(t, []string{"", "，", "3.14中"})
		got := hmm.Cut(text)
		runs, _, err := defModel().checkCut(text, got, isHan, skipDefault)
		if err != nil {
			t.Fatalf("%s; text of %d characters", clip2(err.Error()), n)
		}
		t.Sig(text)
		t.Count("Han runs of 512 to 16383 characters", runs)
		t.Nontrivial()
		t.Eval()
	}
}

// c06first: the first use of the HMM in a process, after a segmenter was set up
// in one of the ways that load the default model, or after a user's model.
func c06first(t *T) {
	g := newGen(t, false)
	g.vocab(5, freqSmall, plainWord)
	text := dictText(g.words, "")
	f := writeScratch(text)
	defer os.Remove(f)
	seg := &gse.Segmenter{SkipLog: true}
	m := defModel()
	var err error
	ways := []string{"LoadDict", "LoadDictStr", "LoadDictMap", "LoadDictEmbed", "AddToken", "AddTokenForce", "Reader", "Read", "Init", "New", "LoadModel()", "hmm.LoadModel()", "hmm.InitModel()", "LoadModel of a user's, then LoadDictStr", "HMMCutMod"}
	way := pick(t, ways)
	switch way {
	case "LoadDict":
		err = seg.LoadDict(f)
	case "LoadDictStr":
		err = seg.LoadDictStr(text)
	case "LoadDictMap":
		err = seg.LoadDictMap(dictMap(g.words))
	case "LoadDictEmbed":
		err = seg.LoadDictEmbed(strings.ReplaceAll(text, ", ", ""))
	case "AddToken":
		err = seg.AddToken("中国", 3)
	case "AddTokenForce":
		err = seg.AddTokenForce("中国", 3)
	case "Reader":
		err = seg.Reader(bufio.NewReader(strings.NewReader(text)))
	case "Read":
		err = seg.Read(f)
	case "Init":
		seg.Init()
	case "New":
		*seg, err = gse.New(f)
	case "LoadModel()":
		seg.NotLoadHMM = true
		seg.LoadModel()
	case "hmm.LoadModel()":
		hmm.LoadModel()
	case "hmm.InitModel()":
		hmm.InitModel()
	case "HMMCutMod", "LoadModel of a user's, then LoadDictStr":
		m = &HmmModel{map[byte]map[rune]float64{}}
		for _, s := range []byte("BEMS") {
			m.Emit[s] = map[rune]float64{}
			for _, r := range hmmRunes() {
				if t.Intn(8) > 0 {
					m.Emit[s][r] = -12 * t.Float64()
				}
			}
		}
		ms := []map[rune]float64{m.Emit['B'], m.Emit['E'], m.Emit['M'], m.Emit['S']}
		if way == "HMMCutMod" {
			seg.HMMCutMod("", ms...)
		} else {
			seg.LoadModel(ms...)
			err = seg.LoadDictStr(text)
		}
	}
	if err != nil {
		t.Fatalf("%s: %v", way, err)
	}
	for i := 0; i < 6; i++ {
		text := hmmText(t, g)
		got := seg.HMMCut(text)
		if _, _, err := m.checkCut(text, got, isHan, skipDefault); err != nil {
			t.Fatalf("the HMM was used for the first time after %s: %v; text %q pieces %s", way, err, text, quoteList(got))
		}
		t.Count("cuts in a process whose first step was "+way, 1)
		t.Eval()
	}
}

func c06table(t *T) {
	hmm.InitModel()
	rs := hmmRunes()
	c06viterbi(t, defModel(), rs, 40)
}

func c06viterbi(t *T, m *HmmModel, rs []rune, n int) {
	order := []byte("BMES")
	for i := 0; i < n; i++ {
		obs := make([]rune, 1+t.Intn(7))
		for j := range obs {
			obs[j] = pick(t, rs)
			if t.Intn(30) == 0 {
				obs[j] = rune(t.Intn(0x3000))
			}
		}
		t.Shuffle(4, func(i, j int) { order[i], order[j] = order[j], order[i] })
		keep := string(obs)
		p, states := hmm.Viterbi(obs, []byte(string(order)))
		if string(obs) != keep {
			t.Fatalf("Viterbi(%q) changed its argument", keep)
		}
		sc, err := m.checkPath(obs, states)
		if err != nil {
			t.Fatalf("Viterbi(%q): %v", keep, err)
		}
		ok := close9(p, sc.sum)
		if sc.imp > 0 {
			// a forbidden start, emission or both: the sum is about imp·(-3.14e100)
			ok = math.Abs(p-float64(sc.imp)*imposs) <= 1e95
		}
		if !ok {
			t.Fatalf("Viterbi(%q) returns log probability %v for %s, which has %v", keep, p, states, sc)
		}
		t.Sig(keep)
		t.Nontrivial()
		t.Count("state sequences compared", 1)
		if sc.imp > 0 {
			t.Count("of them with steps outside the model", 1)
		}
		t.Eval()
	}
}

var tableShare atomic.Int64

// c06all looks every emission of one state up through Viterbi: a character
// alone gives S, before and after a character it gives B and E, between M.
func c06all(t *T) {
	hmm.InitModel()
	rs := hmmRunes()
	states := []byte("BMES")
	share, step := int(tableShare.Add(1))%8, 8
	if t.replay {
		share, step = 0, 1
	}
	for i := share; i < len(rs); i += step {
		r := rs[i]
		for _, obs := range [][]rune{{r}, {r, '人'}, {'中', r}, {'中', r, '人'}, {'中', r, r, '人'}} {
			p, path := hmm.Viterbi(obs, states)
			sc, err := defModel().checkPath(obs, path)
			if err != nil {
				t.Fatalf("Viterbi(%q): %v", string(obs), err)
			}
			if sc.imp == 0 && !close9(p, sc.sum) {
				t.Fatalf("Viterbi(%q) returns log probability %v for %s, which has %v", string(obs), p, path, sc.sum)
			}
			t.evals++
		}
		t.Count("characters of the shipped model looked up in five contexts", 1)
	}
	t.Sig(share)
	t.Nontrivial()
	t.Eval()
}

// ---- user regular expressions ---------------------------------------------

type classRegs struct {
	regs []*regexp.Regexp
	han  func(rune) bool
	skip func(string) int
}

func runOf(ok func(r rune) bool) func(string) int {
	return func(s string) int {
		n := 0
		for n < len(s) {
			r, w := utf8.DecodeRuneInString(s[n:])
			if r == utf8.RuneError && w == 1 || !ok(r) {
				break
			}
			n += w
		}
		return n
	}
}

var userRegs = []classRegs{
	{[]*regexp.Regexp{regexp.MustCompile(`[a-z]+`)}, isHan,
		runOf(func(r rune) bool { return r >= 'a' && r <= 'z' })},
	{[]*regexp.Regexp{regexp.MustCompile(`\p{Latin}+`)}, isHan,
		runOf(func(r rune) bool { return unicode.Is(unicode.Latin, r) })},
	{[]*regexp.Regexp{regexp.MustCompile(`[0-9]*`), regexp.MustCompile(`[\p{Han}\p{Hiragana}]+`)},
		func(r rune) bool { return isHan(r) || unicode.Is(unicode.Hiragana, r) },
		runOf(func(r rune) bool { return r >= '0' && r <= '9' })},
	{[]*regexp.Regexp{regexp.MustCompile(`[\pL\pN]+`), regexp.MustCompile(`[一-龥]*`)},
		func(r rune) bool { return r >= '一' && r <= '龥' },
		runOf(func(r rune) bool { return unicode.IsLetter(r) || unicode.IsNumber(r) })},
	{[]*regexp.Regexp{regexp.MustCompile(`\s`), regexp.MustCompile(`\p{Hangul}+`)},
		func(r rune) bool { return unicode.Is(unicode.Hangul, r) },
		func(s string) int {
			if s != "" && strings.IndexByte("\t\n\f\r ", s[0]) >= 0 {
				return 1
			}
			return 0
		}},
}

// regular expressions that match nothing, the empty string, or at odd places
var oddRegs = []string{``, `a*`, `^`, `$`, `\b`, `\B`, `(?m)^`, `(?m)$`, `x*|^`, `\z`, `.*?`, `.*`, `.`, `(?s).`, `a|`,
	`[^\x00-\x7f]*`, `\p{Han}*`, `(\p{Han}{2})*`, `(a|b)*c?`, `\p{Han}{2}`, `(?i)[K]`, `\W*`, `[^a]`, `q+`, `\A中`, `国$`}

func c06reg(t *T) {
	hmm.InitModel()
	g := newGen(t, false)
	g.long = 0 // looking for expressions that match nothing takes quadratic time
	g.Invalid, g.NUL = true, t.Intn(4) == 0
	g.vocab(5, freqSmall, nil)
	for i := 0; i < 6; i++ {
		text := hmmText(t, g)
		if t.Intn(2) == 0 {
			u := pick(t, userRegs)
			got := hmmQuiet.HMMCut(text, u.regs...)
			runs, words, err := defModel().checkCut(text, got, u.han, u.skip)
			if err != nil {
				t.Fatalf("regular expressions %v: %v; text %q pieces %s", u.regs, err, text, quoteList(got))
			}
			t.Count("runs cut with user expressions", runs)
			t.Count("words found with user expressions", words)
			t.Sig(text, u.regs)
			if runs+words > 0 {
				t.Nontrivial()
				t.Sample(map[string]any{"text": text, "pieces": got, "regexps": fmt.Sprint(u.regs)})
			}
		} else {
			regs := []*regexp.Regexp{regexp.MustCompile(pick(t, oddRegs))}
			if t.Intn(2) == 0 {
				regs = append(regs, regexp.MustCompile(pick(t, oddRegs)))
			}
			got := hmm.Cut(text, regs...)
			if s := strings.Join(got, ""); s != text {
				t.Fatalf("regular expressions %q: the result is not the text %q: %s", regs, text, quoteList(got))
			}
			t.Count("texts cut with odd expressions", 1)
			t.Sig(text, regs)
			if text != "" {
				t.Nontrivial()
			}
		}
		t.Eval()
	}
}

// ---- user models ----------------------------------------------------------

func c06model(t *T) {
	defer hmm.LoadModel()
	seg := &gse.Segmenter{SkipLog: true}
	rs := hmmRunes()
	g := newGen(t, false)
	for i := 0; i < 4; i++ {
		m := &HmmModel{map[byte]map[rune]float64{}}
		alpha := append([]rune{}, g.han...)
		for len(alpha) < 12 {
			alpha = append(alpha, pick(t, rs))
		}
		for _, s := range []byte("BEMS") {
			m.Emit[s] = map[rune]float64{}
			for _, r := range alpha {
				if t.Intn(8) > 0 {
					m.Emit[s][r] = -12 * t.Float64()
				}
			}
		}
		ms := []map[rune]float64{m.Emit['B'], m.Emit['E'], m.Emit['M'], m.Emit['S']}
		text := ""
		for k := 0; k < 3; k++ {
			for l := 1 + t.Intn(9); l > 0; l-- {
				text += string(pick(t, alpha))
			}
			text += pick(t, []string{"", "，", "ab", " 1.5", "龘"})
		}
		route := t.Intn(3)
		var got []string
		switch route {
		case 0:
			seg.LoadModel(ms...)
			got = seg.HMMCut(text)
		case 1:
			got = seg.HMMCutMod(text, ms...)
		case 2:
			hmm.LoadModel(ms...)
			got = hmm.Cut(text)
		}
		runs, _, err := m.checkCut(text, got, isHan, skipDefault)
		if err != nil {
			t.Fatalf("user model (route %d): %v; text %q pieces %s", route, err, text, quoteList(got))
		}
		c06viterbi(t, m, alpha, 3)
		t.Sig(text, ms)
		t.Count("runs cut with a user model", runs)
		t.Nontrivial()
		t.Eval()
		// the default model comes back
		if t.Intn(2) == 0 {
			seg.LoadModel()
		} else {
			hmm.LoadModel()
		}
		c06viterbi(t, defModel(), alpha, 2)
	}
}

func init() {
	register(&Prop{
		ID: "C06",
		Rule: "texts mix Han runs (common characters, characters of the shipped tables, any), runs of 512 to 16383 characters, numbers, ASCII words, foreign scripts, symbols and invalid UTF-8, and real text; " +
			"every run's cut is turned back into begin/middle/end/single states and its score under a golden copy of the shipped tables (or the user's maps) compared with the best score of an independent dynamic programme; user regular expressions include empty-matching and anchored ones; " +
			"non-trivial: a Han run, a user match or a whole state sequence was compared; distinct by text, expressions and model",
		Kinds: []Kind{
			{Name: "default cut", Quick: 8000, Thorough: 60000, Run: c06cut},
			lowerOff("default cut", 1000, 10000, c06cut),
			everyChar(func(t *T, _ bool) { c06cut(t) }),
			{Name: "long runs", Quick: 24, Thorough: 400, Run: c06long},
			{Name: "viterbi", Quick: 3000, Thorough: 20000, Run: c06table},
			{Name: "table", Quick: 8, Thorough: 48, Run: c06all},
			{Name: "regexps", Quick: 6000, Thorough: 40000, Run: c06reg},
			{Name: "first use", Quick: 40, Thorough: 600, Run: func(t *T) { t.child("first use, child", "processes in which the HMM was used for the first time") }},
			{Name: "first use, child", Run: c06first},
			{Name: "user models", Quick: 800, Thorough: 5000, Serial: true, Run: c06model},
		},
	})
}
