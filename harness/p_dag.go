package main

// C04 (accurate mode), C05 (with HMM), C07 (full mode), C08 (search cut),
// C21 (suggested frequencies).

import (
	"fmt"
	"math"
	"os"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/go-ego/gse"
)

// lowered is the text the DAG modes divide.
func lowered(text string, lower bool) string {
	if lower {
		text = strings.ToLower(text)
	}
	return string([]rune(text))
}

// dagOK keeps words that the DAG modes and the dictionary spell alike.
func dagOK(w string) bool { return !hasCased(w) && utf8.ValidString(w) }

// checkAccurate is the monitor of C04 over one result.
func checkAccurate(ref *RefDict, text string, got []string, logTotal float64) (joined int, err error) {
	if s := strings.Join(got, ""); s != text {
		return 0, fmt.Errorf("the result is not the text: %q", s)
	}
	runes := []rune(text)
	best, _, _ := ref.bestRoute(runes, logTotal, 0)
	ps := pieces(runes)
	// a single character that is no word is a step only where no word starts
	step := func(i int) float64 {
		starts := false
		ref.each(ps, i, func(j int, e Entry) { starts = starts || j > i+1 && e.Freq > 0 })
		return ref.logP(ps[i], !starts, logTotal)
	}
	score, at := 0.0, 0
	prevSingles := false // the previous piece can only be joined single characters
	for _, p := range got {
		r := []rune(p)
		if len(r) == 0 {
			return 0, fmt.Errorf("an empty piece")
		}
		alnum := true
		single := 0.0
		for _, c := range r {
			if !isASCIIAlnum(c) {
				alnum = false
			}
			single += step(at)
			at++
		}
		asWord := ref.logP(p, false, logTotal)
		if math.IsInf(single, -1) && math.IsInf(asWord, -1) {
			return 0, fmt.Errorf("%q has a single character at which a dictionary word starts", p)
		}
		switch {
		case len(r) == 1:
			score += single
		case !alnum && math.IsInf(asWord, -1):
			return 0, fmt.Errorf("piece %q is not a dictionary word", p)
		case !alnum:
			score += asWord
		default: // a word, or joined characters
			if math.IsInf(asWord, -1) {
				joined++
			}
			score += math.Max(single, asWord)
		}
		singles := alnum && (len(r) == 1 || math.IsInf(asWord, -1))
		if singles && prevSingles {
			return 0, fmt.Errorf("consecutive single letters and digits are not joined at %q", p)
		}
		prevSingles = singles
	}
	// what float64 sums of this length may lose
	if tol := 1e-9 + 3e-16*float64(len(runes))*math.Abs(best); score < best-tol {
		return 0, fmt.Errorf("log probability %.9f, the most probable division has %.9f", score, best)
	}
	return joined, nil
}

func c04case(t *T, lower bool) {
	g := newGen(t, true)
	g.Invalid, g.NUL = t.Intn(4) == 0, t.Intn(5) == 0
	o := t.opt()
	o.Lower = lower
	es := g.vocab(1+t.Intn(35), t.Intn(freqModes), dagOK)
	seg := newSeg(o)
	seg.NotLoadHMM = true
	ref := fill(t, seg, es, o)
	for i := 0; i < 8; i++ {
		text := g.text(1 + t.Intn(14))
		if hasCased(text) {
			continue
		}
		want := lowered(text, lower)
		var got []string
		if t.Intn(2) == 0 {
			got = seg.Cut(text, false)
		} else {
			got = seg.CutDAGNoHMM(text)
		}
		joined, err := checkAccurate(ref, want, got, math.Log(ref.total))
		if err != nil {
			t.Fatalf("%v; pieces %s; %s", err, quoteList(got), setting(o, es, text))
		}
		t.Sig(text)
		multi := 0
		for _, p := range got {
			if ref.Freq(p) > 0 && utf8.RuneCountInString(p) > 1 {
				multi++
			}
		}
		t.Count("pieces checked", len(got))
		t.Count("dictionary words among them", multi)
		t.Count("joined letters and digits", joined)
		if multi > 0 && len(got) > 1 {
			t.Nontrivial()
			t.Sample(map[string]any{"setting": setting(o, es, text), "pieces": got})
		}
		t.Eval()
	}
}

// c04ties cuts long texts in which the most probable division is only slightly
// more probable than others.
func c04ties(t *T) {
	g := newGen(t, true)
	o := t.opt()
	o.Lower = true
	var es []Entry
	var mixes []string
	for i := 0; i < 1+t.Intn(4); i++ {
		// a+bc against ab+c
		a, b, c := g.hanWord(1+t.Intn(2)), g.hanWord(1+t.Intn(2)), g.hanWord(1+t.Intn(2))
		f1, f2 := math.Floor(math.Pow(10, 2+4*t.Float64())), math.Floor(math.Pow(10, 2+4*t.Float64()))
		d := 1 + math.Pow(10, -8+5*t.Float64())
		if t.Intn(2) == 0 {
			d = 1 / d
		}
		es = append(es, Entry{a, f1, "n"}, Entry{b + c, f2, "n"}, Entry{a + b, f2 * d, "n"}, Entry{c, f1, "n"})
		mixes = append(mixes, a+b+c)
	}
	es = append(es, Entry{"㐀㐁", math.Floor(math.Pow(10, 5+5*t.Float64())), "n"})
	have := newRef(o)
	uniq := es[:0:0]
	for _, e := range es {
		if have.Add(e) {
			uniq = append(uniq, e)
		}
	}
	es = uniq
	seg := newSeg(o)
	seg.NotLoadHMM = true
	ref := fill(t, seg, es, o)
	n := 50 + t.Intn(1500)
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch t.Intn(6) {
		case 0:
			b.WriteString(pick(t, mixes))
		case 1:
			b.WriteString(pick(t, es).Word)
		default:
			b.WriteRune(rune(0x5000 + t.Intn(0x3000)))
		}
	}
	text := b.String()
	got := seg.Cut(text, false)
	if _, err := checkAccurate(ref, text, got, math.Log(ref.total)); err != nil {
		t.Fatalf("%v; %s", err, setting(o, es, text))
	}
	t.Sig(text)
	t.Nontrivial()
	t.Count("pieces of long texts with near ties", len(got))
	t.Eval()
}

func c04big(t *T) {
	loadBig()
	for i := 0; i < 5; i++ {
		text := bigText(t)
		want := lowered(text, true)
		got := bigDict.seg.Cut(text, false)
		if _, err := checkAccurate(bigDict.ref, want, got, math.Log(bigDict.ref.total)); err != nil {
			t.Fatalf("shipped dictionary, text %q: %v; pieces %s", text, err, quoteList(got))
		}
		t.Sig(text)
		t.Nontrivial()
		t.Count("pieces of real text", len(got))
		t.Eval()
	}
}

// ---- C05 ------------------------------------------------------------------

// expectHMM builds the result C05 asks for from the (unique) best route; hmmCut
// cuts a run as the HMM does.
func expectHMM(ref *RefDict, runes []rune, ends []int, hmmCut func(string) []string) (out []string, runs, words int) {
	var buf []rune
	flush := func() {
		s := string(buf)
		switch {
		case len(buf) == 0:
		case len(buf) == 1:
			out = append(out, s)
		case ref.Freq(s) > 0:
			for _, r := range buf {
				out = append(out, string(r))
			}
		default:
			out = append(out, hmmCut(s)...)
			runs++
		}
		buf = nil
	}
	at := 0
	for _, e := range ends {
		if e-at == 1 {
			buf = append(buf, runes[at])
		} else {
			flush()
			out = append(out, string(runes[at:e]))
			words++
		}
		at = e
	}
	flush()
	return
}

var c05regs = [][]*regexp.Regexp{
	nil, nil, nil,
	{regexp.MustCompile(`(\d+年|\d+月|\d+日|[\p{Latin}]+|[\p{Hangul}]+|\d+\.\d+|[a-zA-Z0-9]+)`)},
	{regexp.MustCompile(`[a-z]+`), regexp.MustCompile(`\p{Han}+`)},
	{regexp.MustCompile(`[0-9]+`), regexp.MustCompile(`[\p{Han}\p{Hiragana}\p{Katakana}]+`)},
}

func c05case(t *T, lower bool) {
	g := newGen(t, true)
	g.Invalid, g.NUL = t.Intn(4) == 0, t.Intn(5) == 0
	o := t.opt()
	o.Lower = lower
	es := g.vocab(1+t.Intn(35), t.Intn(freqModes), dagOK)
	// one-character words whose joins are unlikely to be kept apart: a run of
	// single characters that is itself a word
	if t.Intn(3) == 0 {
		a, b := g.hanWord(1), g.hanWord(1)
		have := newRef(o)
		for _, e := range es {
			have.Add(e)
		}
		big := 1e6
		for _, e := range []Entry{{a, big, "n"}, {b, big + 1, "n"}, {a + b, 2, "v"}} {
			if have.Add(e) {
				es = append(es, e)
			}
		}
	}
	seg := newSeg(o)
	ref := fill(t, seg, es, o)
	for i := 0; i < 6; i++ {
		text := g.text(1 + t.Intn(14))
		if hasCased(text) {
			continue
		}
		c05check(t, seg, ref, text, lower, func() string { return setting(o, es, text) })
		t.Eval()
	}
}

func c05check(t *T, seg *gse.Segmenter, ref *RefDict, text string, lower bool, desc func() string) {
	want := lowered(text, lower)
	runes := []rune(want)
	regs := pick(t, c05regs)
	var got []string
	if regs == nil && t.Intn(2) == 0 {
		got = seg.Cut(text, true)
	} else {
		got = seg.CutDAG(text, regs...)
	}
	if s := strings.Join(got, ""); s != want {
		t.Fatalf("the result is not the text: %q; pieces %s; %s", s, quoteList(got), desc())
	}
	t.Sig(text)
	_, ends, unique := ref.bestRoute(runes, math.Log(ref.total), 1e-7)
	if !unique {
		t.Count("texts with several most probable routes (only losslessness checked)", 1)
		return
	}
	exp, runs, words := expectHMM(ref, runes, ends, func(s string) []string { return seg.HMMCut(s, regs...) })
	if strings.Join(exp, "\x00") != strings.Join(got, "\x00") || len(exp) != len(got) {
		t.Fatalf("pieces %s, the route and the HMM give %s; regular expressions %v; %s", quoteList(got), quoteList(exp), regs, desc())
	}
	t.Count("dictionary words of two or more characters kept", words)
	t.Count("runs cut by the HMM", runs)
	if words > 0 && runs > 0 {
		t.Nontrivial()
		t.Sample(map[string]any{"setting": desc(), "pieces": got})
	}
}

func c05big(t *T) {
	loadBig()
	for i := 0; i < 4; i++ {
		text := bigText(t)
		if hasCased(text) {
			continue
		}
		c05check(t, bigDict.seg, bigDict.ref, text, true, func() string { return fmt.Sprintf("shipped dictionary, text %q", text) })
		t.Eval()
	}
}

// ---- C07 ------------------------------------------------------------------

// checkFull is the monitor of C07 over one result.
func checkFull(ref *RefDict, text string, got []string) (multi int, err error) {
	runes := []rune(text)
	n := len(runes)
	at := make([][]string, n)
	covered := make([]bool, n)
	ps, end := pieces(runes), 0
	for i := 0; i < n; i++ {
		ref.each(ps, i, func(j int, e Entry) {
			if j > i+1 && e.Freq > 0 {
				at[i] = append(at[i], string(runes[i:j]))
				multi++
				end = max(end, j)
			}
		})
		covered[i] = i < end
	}
	// reach: the sets of output prefixes that explain the first i characters
	reach := map[int]bool{0: true}
	for i := 0; i < n; i++ {
		next := map[int]bool{}
		for j := range reach {
			if len(at[i]) > 0 {
				k := j
				for _, w := range at[i] {
					if k < len(got) && got[k] == w {
						k++
					} else {
						k = -1
						break
					}
				}
				if k >= 0 {
					next[k] = true
				}
				continue
			}
			if j < len(got) && got[j] == string(runes[i]) {
				next[j+1] = true
			}
			if covered[i] {
				next[j] = true
			}
		}
		if len(next) == 0 {
			return multi, fmt.Errorf("the words starting at character %d (%q) should be %s and are not what the result has there", i, string(runes[i]), quoteList(at[i]))
		}
		reach = next
	}
	if !reach[len(got)] {
		return multi, fmt.Errorf("the result has items that are neither dictionary words nor uncovered characters")
	}
	return multi, nil
}

func c07case(t *T, lower bool) {
	g := newGen(t, true)
	g.Invalid, g.NUL = t.Intn(4) == 0, t.Intn(5) == 0
	o := t.opt()
	o.Lower = lower
	es := g.vocab(1+t.Intn(40), t.Intn(freqModes), dagOK)
	seg := newSeg(o)
	seg.NotLoadHMM = true
	ref := fill(t, seg, es, o)
	for i := 0; i < 8; i++ {
		text := g.text(1 + t.Intn(12))
		if hasCased(text) {
			continue
		}
		got := seg.CutAll(text)
		multi, err := checkFull(ref, lowered(text, lower), got)
		if err != nil {
			t.Fatalf("%v; items %s; %s", err, quoteList(got), setting(o, es, text))
		}
		t.Sig(text)
		t.Count("word occurrences checked", multi)
		t.Count("items checked", len(got))
		if multi > 1 {
			t.Nontrivial()
			t.Sample(map[string]any{"setting": setting(o, es, text), "items": got})
		}
		t.Eval()
	}
}

func c07big(t *T) {
	loadBig()
	for i := 0; i < 5; i++ {
		text := bigText(t)
		got := bigDict.seg.CutAll(text)
		multi, err := checkFull(bigDict.ref, lowered(text, true), got)
		if err != nil {
			t.Fatalf("shipped dictionary, text %q: %v; items %s", text, err, quoteList(got))
		}
		t.Sig(text)
		t.Nontrivial()
		t.Count("word occurrences in real text", multi)
		t.Eval()
	}
}

// ---- C08 ------------------------------------------------------------------

func expectSearch(ref *RefDict, words []string) (out []string, extra int) {
	for _, w := range words {
		r := []rune(w)
		for n := 2; n <= 3; n++ {
			if len(r) <= n {
				continue
			}
			for i := 0; i+n <= len(r); i++ {
				if s := string(r[i : i+n]); ref.Freq(s) > 0 {
					out = append(out, s)
					extra++
				}
			}
		}
		out = append(out, w)
	}
	return
}

func c08check(t *T, seg *gse.Segmenter, ref *RefDict, text string, desc func() string) {
	hmm := t.Intn(2) == 0
	base := seg.Cut(text, hmm)
	got := seg.CutSearch(text, hmm)
	exp, extra := expectSearch(ref, base)
	if strings.Join(exp, "\x00") != strings.Join(got, "\x00") || len(exp) != len(got) {
		t.Fatalf("CutSearch(text, %v) gave %s, want %s; %s", hmm, quoteList(got), quoteList(exp), desc())
	}
	t.Sig(text, hmm)
	t.Count("sub-words listed", extra)
	t.Count("words listed", len(base))
	if extra > 0 {
		t.Nontrivial()
		t.Sample(map[string]any{"setting": desc(), "words": got})
	}
	t.Eval()
}

func c08case(t *T, lower bool) {
	g := newGen(t, true)
	g.Invalid, g.NUL = t.Intn(4) == 0, t.Intn(5) == 0
	o := t.opt()
	o.Lower = lower
	es := g.vocab(3+t.Intn(40), t.Intn(freqModes), dagOK)
	// long words whose parts are words
	for i := 0; i < 3; i++ {
		w := pick(t, es).Word + pick(t, es).Word
		if dagOK(w) {
			es = append(es, Entry{w, 1e7 + float64(i), "l"})
		}
	}
	have := newRef(o)
	uniq := es[:0:0]
	for _, e := range es {
		if have.Add(e) {
			uniq = append(uniq, e)
		}
	}
	es, g.words = uniq, uniq
	seg := newSeg(o)
	ref := fill(t, seg, es, o)
	for i := 0; i < 8; i++ {
		text := g.text(1 + t.Intn(10))
		c08check(t, seg, ref, text, func() string { return setting(o, es, text) })
	}
}

func c08big(t *T) {
	loadBig()
	for i := 0; i < 4; i++ {
		text := bigText(t)
		c08check(t, bigDict.seg, bigDict.ref, text, func() string { return fmt.Sprintf("shipped dictionary, text %q", text) })
	}
}

// ---- C21 ------------------------------------------------------------------

func c21case(t *T) {
	g := newGen(t, true)
	o := Opt{Lower: gse.ToLower}
	mode := pick(t, []int{freqSmall, freqLog, freqLog, freqFrac})
	es := g.vocab(3+t.Intn(30), mode, func(w string) bool {
		return dagOK(w) && !strings.ContainsAny(w, "\x00")
	})
	if t.Intn(2) == 0 { // a realistic total
		es = append(es, Entry{"㐀㐁㐂㐃", math.Floor(math.Pow(10, 4+4*t.Float64())), "n"})
	}
	seg := newSeg(o)
	seg.NotLoadHMM = true
	ref := fill(t, seg, es, o)
	total := ref.total
	for i := 0; i < 4; i++ {
		// a candidate: words and fragments in a row
		var w string
		switch t.Intn(4) {
		case 0:
			w = pick(t, es).Word + pick(t, es).Word
		case 1:
			w = g.hanWord(2 + t.Intn(3))
		case 2:
			w = pick(t, es).Word
		default:
			w = pick(t, es).Word + g.hanWord(1+t.Intn(2))
		}
		w = strings.ToLower(w)
		r := []rune(w)
		if len(r) < 2 || len(r) > 6 || !dagOK(w) {
			continue
		}
		if refUnitsAlnumRun(w) {
			continue // a single letter run can come out whole by joining
		}
		t.Sig(w)
		sug := seg.SuggestFreq(w)
		present := ref.Freq(w)
		if math.IsNaN(sug) || sug < 1 || sug < present {
			t.Fatalf("SuggestFreq(%q) = %v, the word has %v; %s", w, sug, present, setting(o, es, w))
		}
		// the route without the word, and the probability it needs
		best, _, _ := ref.bestRoute(r, math.Log(total), 0)
		needed := math.Exp(best + math.Log(total))
		t.Count("suggestions for one word", 1)
		if present > 0 && sug == present {
			t.Count("suggestions equal to the present frequency", 1)
		}
		if sug > 1e12 || needed > 1e12 {
			t.Eval()
			continue
		}
		// follow the suggestion
		var err error
		if present > 0 {
			err = seg.ReAddToken(w, sug, "n")
		} else {
			err = seg.AddToken(w, sug, "n")
		}
		if err != nil {
			t.Fatalf("adding %q with %v: %v; %s", w, sug, err, setting(o, es, w))
		}
		ref.Remove(w)
		ref.Add(Entry{w, sug, "n"})
		got := seg.Cut(w, false)
		if len(got) != 1 || got[0] != w {
			t.Fatalf("added with the suggested frequency %v, %q is cut into %s; %s", sug, w, quoteList(got), setting(o, es, w))
		}
		t.Nontrivial()
		t.Sample(map[string]any{"word": w, "suggested": sug, "probability needed times total": needed, "setting": setting(o, es, w)})
		es = append([]Entry{}, es...)
		for k := range es {
			if es[k].Word == w {
				es[k].Freq = sug
			}
		}
		if present == 0 {
			es = append(es, Entry{w, sug, "n"})
		}
		total = ref.total
		t.Eval()
	}
	// pairs
	for i := 0; i < 6; i++ {
		a, b := strings.ToLower(pick(t, es).Word), strings.ToLower(pick(t, es).Word)
		if t.Intn(3) == 0 {
			b = g.hanWord(1)
		}
		if ref.Freq(a+b) == 0 && t.Intn(3) > 0 {
			// take a word apart
			w := []rune(strings.ToLower(pick(t, es).Word))
			if len(w) < 2 {
				continue
			}
			k := 1 + t.Intn(len(w)-1)
			a, b = string(w[:k]), string(w[k:])
		}
		if !dagOK(a + b) {
			continue
		}
		sug := seg.SuggestFreq(a, b)
		present := ref.Freq(a + b)
		if math.IsNaN(sug) || sug < 0 || sug > present {
			t.Fatalf("SuggestFreq(%q, %q) = %v, the joined word has %v; %s", a, b, sug, present, setting(o, es, a+b))
		}
		// no longer outweighs the parts: p(joined) <= p(a) p(b)
		part := func(w string) float64 {
			f := ref.Freq(w)
			if f == 0 {
				f = 1
				if ref.isPrefix(w) {
					return -1 // counted as 0 by the lookup: any suggestion is below
				}
			}
			return f
		}
		fa, fb := part(a), part(b)
		if fa > 0 && fb > 0 && sug > fa*fb/ref.total*(1+1e-9) {
			t.Fatalf("SuggestFreq(%q, %q) = %v outweighs the parts (%v and %v of %v); %s", a, b, sug, fa, fb, ref.total, setting(o, es, a+b))
		}
		t.Sig(a, "+", b)
		t.Count("suggestions for a pair", 1)
		if present > 0 {
			t.Nontrivial()
			t.Count("suggestions for the parts of a present word", 1)
		}
		t.Eval()
	}
}

// refUnitsAlnumRun tells whether the word has two ASCII letters or digits in
// a row, which accurate mode joins anyway.
func refUnitsAlnumRun(w string) bool {
	prev := false
	for _, r := range w {
		a := isASCIIAlnum(r)
		if a && prev {
			return true
		}
		prev = a
	}
	return false
}

// ---- known findings of C04 and C07 ------------------------------------------

func knownCased(k *Knowns, id string) {
	seg := newSeg(Opt{Lower: gse.ToLower})
	seg.NotLoadHMM = true
	seg.LoadDictMap([]map[string]string{{"text": "Яблоко", "freq": "100", "pos": "n"}, {"text": "世界", "freq": "100", "pos": "n"}})
	switch id {
	case "C04":
		got := seg.Cut("Яблоко", false)
		k.Add("C04-cased", len(got) != 1,
			fmt.Sprintf("dictionary word %q (capital letter outside ASCII) is cut into %s by Cut(text, false)", "Яблоко", quoteList(got)))
	case "C07":
		got := seg.CutAll("Яблоко")
		found := false
		for _, w := range got {
			found = found || strings.EqualFold(w, "Яблоко")
		}
		k.Add("C07-cased", !found,
			fmt.Sprintf("dictionary word %q (capital letter outside ASCII) is not listed by CutAll: %s", "Яблоко", quoteList(got)))
	}
}

func init() {
	const voc = "a case is a vocabulary of overlapping words under a random frequency mode, loaded by a random route under random options, and several texts of its words, fragments, foreign characters and (in a quarter of the cases) invalid UTF-8; "
	register(&Prop{ID: "C04",
		Rule: voc + "the oracle finds the most probable division by dynamic programming over a plain map and compares log probabilities and joining; the shipped dictionary is checked on real text; an evaluation is one text, non-trivial when the result has at least two pieces, one a dictionary word of several characters, distinct by dictionary and text",
		Kinds: []Kind{
			{Name: "accurate", Quick: 16000, Thorough: 150000, Run: func(t *T) { c04case(t, true) }},
			hugeTexts(16, 400<<10, c04case),
			everyChar(c04case),
			{Name: "accurate, ToLower off", Quick: 1600, Thorough: 15000, Serial: true, Run: func(t *T) { withoutLower(func() { c04case(t, false) }) }},
			{Name: "near ties in long texts", Quick: 400, Thorough: 6000, Run: c04ties},
			{Name: "shipped dictionary", Quick: 480, Thorough: 5000, Run: c04big},
		},
		Known: func(k *Knowns) { knownCased(k, "C04") }})
	register(&Prop{ID: "C05",
		Rule: voc + "the oracle finds the unique most probable route (texts with near ties only check losslessness) and replays runs of single characters through the HMM cut, also with user regular expressions; an evaluation is one text, non-trivial when the route has both a dictionary word of several characters and a run for the HMM, distinct by dictionary and text",
		Kinds: []Kind{
			{Name: "route and HMM", Quick: 20000, Thorough: 120000, Run: func(t *T) { c05case(t, true) }},
			hugeTexts(16, 400<<10, c05case),
			everyChar(c05case),
			{Name: "route and HMM, ToLower off", Quick: 1500, Thorough: 10000, Serial: true, Run: func(t *T) { withoutLower(func() { c05case(t, false) }) }},
			{Name: "shipped dictionary", Quick: 600, Thorough: 5000, Run: c05big},
		}})
	register(&Prop{ID: "C07",
		Rule: voc + "the oracle lists every occurrence of every word by brute force and explains the output item by item; an evaluation is one text, non-trivial when at least two word occurrences are in it, distinct by dictionary and text",
		Kinds: []Kind{
			{Name: "full", Quick: 16000, Thorough: 150000, Run: func(t *T) { c07case(t, true) }},
			hugeTexts(16, 400<<10, c07case),
			everyChar(c07case),
			{Name: "full, ToLower off", Quick: 1600, Thorough: 15000, Serial: true, Run: func(t *T) { withoutLower(func() { c07case(t, false) }) }},
			{Name: "shipped dictionary", Quick: 480, Thorough: 5000, Run: c07big},
		},
		Known: func(k *Knowns) { knownCased(k, "C07") }})
	register(&Prop{ID: "C08",
		Rule: voc + "the oracle derives the list from the result of Cut(text, hmm) and a plain map; an evaluation is one text, non-trivial when at least one sub-word is due, distinct by dictionary, text and mode",
		Kinds: []Kind{
			{Name: "search cut", Quick: 12000, Thorough: 100000, Run: func(t *T) { c08case(t, true) }},
			hugeTexts(16, 400<<10, c08case),
			everyChar(c08case),
			{Name: "search cut, ToLower off", Quick: 1200, Thorough: 10000, Serial: true, Run: func(t *T) { withoutLower(func() { c08case(t, false) }) }},
			{Name: "shipped dictionary", Quick: 480, Thorough: 5000, Run: c08big},
		}})
	register(&Prop{ID: "C21",
		Rule: "a case is a vocabulary, up to four candidate words (concatenations, fragments, present words) for which the suggestion is taken, added or re-added, and cut, and six pairs of parts; an evaluation is one suggestion, non-trivial when the suggestion was followed and the cut checked, or the pair is the parts of a present word; distinct by dictionary and candidate",
		Kinds: []Kind{
			{Name: "suggest", Quick: 48000, Thorough: 150000, Run: c21case},
			everyChar(func(t *T, _ bool) { c21case(t) }),
		}})
	_ = os.Stdout
}
