package main

// C01 (segments tile the text), C02 (shortest path), C03 (units).

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/go-ego/gse"
)

// checkTiling is the monitor of C01 over one call.
func checkTiling(text []byte, segs []gse.Segment, lower bool) error {
	pos := 0
	for i := range segs {
		s := &segs[i]
		if s.Start() != pos {
			return fmt.Errorf("segment %d starts at %d, the previous one ended at %d", i, s.Start(), pos)
		}
		if s.End() <= s.Start() || s.End() > len(text) {
			return fmt.Errorf("segment %d is [%d,%d) in a text of %d bytes", i, s.Start(), s.End(), len(text))
		}
		want := text[s.Start():s.End()]
		if lower {
			want = asciiLower(want)
		}
		if got := s.Token().Text(); got != string(want) {
			return fmt.Errorf("segment %d [%d,%d) has text %q, the input there is %q", i, s.Start(), s.End(), got, want)
		}
		if err := checkEquals(s.Token(), string(want), i+s.Start()); err != nil {
			return fmt.Errorf("segment %d: %w", i, err)
		}
		pos = s.End()
	}
	if pos != len(text) {
		return fmt.Errorf("the last segment ends at %d, the text at %d", pos, len(text))
	}
	return nil
}

// checkEquals compares a token's Equals with the text it has; n chooses where
// the texts differ that it must tell apart.
func checkEquals(k *gse.Token, text string, n int) error {
	if !k.Equals(text) {
		return fmt.Errorf("token %q does not equal its own text", text)
	}
	others := []string{text + "\x00", text + text, "", "#" + text}
	if len(text) > 0 {
		i := n % len(text)
		b := []byte(text)
		b[i] ^= 1 << (n % 8)
		others = append(others, string(b), text[:i], text[i:][1:], text[:i]+text[i:i+1]+text[i:])
	}
	for _, x := range others {
		if x != text && k.Equals(x) {
			return fmt.Errorf("token %q is said to equal %q", text, x)
		}
	}
	return nil
}

func segTexts(segs []gse.Segment) []string {
	var out []string
	for i := range segs {
		out = append(out, segs[i].Token().Text()+"/"+segs[i].Token().Pos())
	}
	return out
}

// segmentBoth segments by both entry points and checks that the argument
// stays what it was.
func segmentBoth(t *T, seg *gse.Segmenter, text string) []gse.Segment {
	in := []byte(text)
	var segs []gse.Segment
	switch t.Intn(4) {
	case 0:
		segs = seg.ModeSegment(in)
	case 1:
		segs = seg.ModeSegment(in, false)
	case 2:
		segs = seg.ModeSegment(in, true)
	default:
		segs = seg.Segment(in)
	}
	if string(in) != text {
		t.Fatalf("the caller's bytes were changed: %q became %q", text, in)
	}
	return segs
}

func c01(t *T, lower bool) {
	g := newGen(t, false)
	g.Invalid, g.NUL = t.Intn(2) == 0, t.Intn(3) == 0
	o := t.opt()
	o.Lower = lower
	es := g.vocab(1+t.Intn(40), t.Intn(freqModes), nil)
	seg := newSeg(o)
	seg.NotLoadHMM = true
	fill(t, seg, es, o)
	for i := 0; i < 6; i++ {
		text := g.text(1 + t.Intn(30))
		if i == 0 {
			text = g.text(1)
		}
		toggled := false
		if t.Intn(3) == 0 { // options set after loading
			seg.AlphaNum, seg.Alpha, seg.Num = t.Intn(2) == 0, t.Intn(2) == 0, t.Intn(2) == 0
			toggled = true
			t.Count("texts segmented after the options changed", 1)
		}
		desc := func() string {
			return fmt.Sprintf("%s; options at the call: AlphaNum=%v Alpha=%v Num=%v (changed after loading: %v)",
				setting(o, es, text), seg.AlphaNum, seg.Alpha, seg.Num, toggled)
		}
		segs := segmentBoth(t, seg, text)
		if err := checkTiling([]byte(text), segs, lower); err != nil {
			t.Fatalf("%v; segments %s; %s", err, quoteList(segTexts(segs)), desc())
		}
		t.Sig(text, seg.AlphaNum, seg.Alpha, seg.Num)
		if len(segs) > 1 {
			t.Nontrivial()
			t.Sample(map[string]any{"setting": desc(), "segments": segTexts(segs)})
		}
		t.Count("segments checked", len(segs))
		if !validUTF8(text) {
			t.Count("texts with invalid UTF-8", 1)
		}
		t.Eval()
	}
}

func validUTF8(s string) bool { return strings.ToValidUTF8(s, "\x00") == s }

// withLower runs f with gse.ToLower off.
func withoutLower(f func()) {
	gse.ToLower = false
	defer func() { gse.ToLower = true }()
	f()
}

// lowerOff is a kind that runs with gse.ToLower off.
func lowerOff(name string, quick, thorough int, run func(t *T)) Kind {
	return Kind{Name: name + ", ToLower off", Quick: quick, Thorough: thorough, Serial: true,
		Run: func(t *T) { withoutLower(func() { run(t) }) }}
}

// ---- C02 ------------------------------------------------------------------

func sumDistance(ref *RefDict, segs []gse.Segment) (float64, error) {
	sum := 0.0
	for i := range segs {
		tok := segs[i].Token()
		w := tok.Text()
		if e, ok := ref.m[w]; ok {
			if tok.Freq() != e.Freq || tok.Pos() != e.Pos {
				return 0, fmt.Errorf("word %q is reported with %v/%q, the dictionary has %v/%q", w, tok.Freq(), tok.Pos(), e.Freq, e.Pos)
			}
			sum += math.Log2(ref.total) - math.Log2(e.Freq)
			continue
		}
		if len(refUnits([]byte(w), ref.opt)) != 1 {
			return 0, fmt.Errorf("%q is neither a dictionary word nor a single unit", w)
		}
		if tok.Pos() != "x" {
			return 0, fmt.Errorf("unknown unit %q has part of speech %q", w, tok.Pos())
		}
		if tok.Freq() != 1 {
			return 0, fmt.Errorf("unknown unit %q has frequency %v", w, tok.Freq())
		}
		sum += 32
	}
	return sum, nil
}

// checkShortest is the monitor of C02 over one call.
func checkShortest(ref *RefDict, text string, segs []gse.Segment) (got float64, err error) {
	var b bytes.Buffer
	for i := range segs {
		b.WriteString(segs[i].Token().Text())
	}
	if b.String() != ref.canon(text) {
		return 0, fmt.Errorf("the segments are not the text")
	}
	got, err = sumDistance(ref, segs)
	if err != nil {
		return
	}
	units := refUnits([]byte(text), ref.opt)
	want := ref.shortest(units)
	// path lengths are sums of 32-bit floats
	if tol := ref.tolerance(want, len(units)); got > want+min(tol, 0.005+2e-6*want*math.Sqrt(float64(len(segs)+1))) {
		return got, fmt.Errorf("path length %.6f, the shortest is %.6f", got, want)
	}
	if len(segs) > 200 {
		err = checkWindows(ref, segs, want)
	}
	return got, err
}

// tolerance bounds what 32-bit floats can make a path of at most n words
// and about the given length differ from the shortest.
func (d *RefDict) tolerance(length float64, n int) float64 {
	big := math.Abs(math.Log2(d.total))
	for _, e := range d.m {
		big = max(big, math.Abs(math.Log2(e.Freq)))
	}
	return 1e-6 + 2*float64(n)*(2e-7*big+1.2e-7*(length+big))
}

// checkWindows checks pieces of a long path, which are shortest too, as the
// tolerance for a whole long path is large.
func checkWindows(ref *RefDict, segs []gse.Segment, length float64) error {
	for i := 0; i+2 <= len(segs); i += 4 {
		w := segs[i:min(i+8, len(segs))]
		var b bytes.Buffer
		for j := range w {
			b.WriteString(w[j].Token().Text())
		}
		units := refUnits(b.Bytes(), ref.opt)
		got, err := sumDistance(ref, w)
		if err != nil {
			return err
		}
		// every addition rounds to 24 bits
		if want := ref.shortest(units); got > want+0.005+1.2e-7*length*float64(len(units)+1) {
			return fmt.Errorf("the path from segment %d to segment %d has the length %.5f, the shortest between them is %.5f: %s", i, i+len(w), got, want, quoteList(segTexts(w)))
		}
	}
	return nil
}

func c02(t *T, lower bool) {
	g := newGen(t, false)
	g.Invalid, g.NUL = t.Intn(4) == 0, t.Intn(5) == 0
	o := t.opt()
	o.Lower = lower
	n := 1 + t.Intn(30)
	if t.Intn(12) == 0 {
		n = 1
	}
	es := g.vocab(n, t.Intn(freqModes), nil)
	seg := newSeg(o)
	seg.NotLoadHMM = true
	ref := fill(t, seg, es, o)
	for i := 0; i < 8; i++ {
		text := g.text(1 + t.Intn(12))
		if i == 0 {
			text = pick(t, es).Word
		}
		if text == "" {
			continue
		}
		segs := segmentBoth(t, seg, text)
		if _, err := checkShortest(ref, text, segs); err != nil {
			t.Fatalf("%v; segments %s; %s", err, quoteList(segTexts(segs)), setting(o, es, text))
		}
		t.Sig(text)
		words, unknown, multi := 0, 0, 0
		for i := range segs {
			if e, ok := ref.m[segs[i].Token().Text()]; ok {
				words++
				if len(refUnits([]byte(ref.canon(e.Word)), o)) > 1 {
					multi++
				}
			} else {
				unknown++
			}
		}
		t.Count("dictionary words on the paths", words)
		t.Count("unknown units on the paths", unknown)
		if multi > 0 && len(segs) > 1 {
			t.Nontrivial()
			t.Sample(map[string]any{"setting": setting(o, es, text), "segments": segTexts(segs)})
		}
		t.Eval()
	}
}

// c02ties: paths that differ by very little, and long rows of nested words.
func c02ties(t *T) {
	g := newGen(t, false)
	o := t.opt()
	var es []Entry
	have := newRef(o)
	add := func(w string, f float64) {
		if e := (Entry{w, f, "n"}); utf8.RuneCountInString(w) > 1 && have.Add(e) {
			es = append(es, e)
		}
	}
	var pieces []string
	if t.Intn(40) == 0 {
		// one character over and over
		w := g.hanWord(1)
		n := 60 + t.Intn(120)
		for i := 2; i <= n; i++ {
			if t.Intn(10) > 0 {
				add(strings.Repeat(w, i), t.freq(freqLog))
			}
		}
		pieces = append(pieces, strings.Repeat(w, n+t.Intn(50)), strings.Repeat(w, n/2)+g.hanWord(1)+strings.Repeat(w, n/3))
		t.Count("vocabularies of many nested words", 1)
	} else {
		total := math.Floor(math.Exp2(18 + 6*t.Float64()))
		for i := 1 + t.Intn(4); i > 0; i-- {
			a, b := g.hanWord(2+t.Intn(2)), g.hanWord(2+t.Intn(2))
			d := math.Pow(10, -3.6+2.6*t.Float64())
			if t.Intn(2) == 0 {
				d = -d
			}
			if t.Intn(2) == 0 {
				// ab against a+b
				f1, f2 := math.Floor(math.Exp2(10+6*t.Float64())), math.Floor(math.Exp2(10+6*t.Float64()))
				add(a, f1)
				add(b, f2)
				add(a+b, f1*f2/total*math.Exp2(d))
				pieces = append(pieces, a+b)
				continue
			}
			// a+bc against ab+c
			c := g.hanWord(2)
			f1, f2 := math.Floor(math.Exp2(3+12*t.Float64())), math.Floor(math.Exp2(3+12*t.Float64()))
			add(a, f1)
			add(b+c, f2)
			add(a+b, f2)
			add(c, f1*math.Exp2(d))
			pieces = append(pieces, a+b+c)
		}
		// the total is as wanted above
		if have.total < total {
			add("㐀㐁", total-have.total)
		}
		pieces = append(pieces, "㐀㐁")
	}
	if len(es) == 0 {
		return
	}
	seg := newSeg(o)
	seg.NotLoadHMM = true
	ref := fill(t, seg, es, o)
	for i := 0; i < 6; i++ {
		text := pick(t, pieces)
		for k := t.Intn(3); k > 0; k-- {
			if t.Intn(2) == 0 {
				text += pick(t, pieces)
			} else {
				text = g.hanWord(1) + text
			}
		}
		segs := segmentBoth(t, seg, text)
		if _, err := checkShortest(ref, text, segs); err != nil {
			t.Fatalf("%v; segments %s; %s", err, quoteList(segTexts(segs)), setting(o, es, text))
		}
		t.Sig(text)
		t.Nontrivial()
		t.Count("texts with paths that differ by little", 1)
		t.Eval()
	}
}

// bigDict is the traditional Chinese dictionary that ships with gse.
var bigDict struct {
	once  sync.Once
	es    []Entry
	ref   *RefDict
	seg   *gse.Segmenter
	novel []string
}

func loadBig() {
	bigDict.once.Do(func() {
		path := filepath.Join(repoDir, "data/dict/zh/t_1.txt")
		raw, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		bigDict.ref = newRef(Opt{Lower: true})
		for _, l := range strings.Split(string(raw), "\n") {
			f := strings.Fields(l)
			if len(f) < 2 {
				continue
			}
			var fr float64
			if _, err := fmt.Sscan(f[1], &fr); err != nil || fr < 2 {
				continue
			}
			e := Entry{Word: f[0], Freq: fr}
			if len([]rune(f[0])) < 2 {
				e.Freq = 2
			}
			if len(f) > 2 {
				e.Pos = f[2]
			}
			bigDict.ref.Add(e)
			bigDict.es = append(bigDict.es, e)
		}
		bigDict.seg = &gse.Segmenter{SkipLog: true}
		if err := bigDict.seg.LoadDict(path); err != nil {
			panic(err)
		}
		raw, err = os.ReadFile(filepath.Join(repoDir, "testdata/zh/bailuyuan_zh.txt"))
		if err != nil {
			panic(err)
		}
		for _, l := range strings.Split(string(raw), "\n") {
			if l = strings.TrimSpace(l); len(l) > 20 {
				r := []rune(l)
				if len(r) > 150 {
					l = string(r[:150])
				}
				bigDict.novel = append(bigDict.novel, l)
			}
		}
		if len(bigDict.es) < 100000 || len(bigDict.novel) < 100 {
			panic("the shipped data is not there")
		}
	})
}

// bigText is a paragraph of the novel, or words of the dictionary in a row.
func bigText(t *T) string {
	if t.Intn(2) == 0 {
		return pick(t, bigDict.novel)
	}
	var b strings.Builder
	for i := 2 + t.Intn(12); i > 0; i-- {
		w := []rune(pick(t, bigDict.es).Word)
		switch t.Intn(4) {
		case 0:
			w = w[:1+t.Intn(len(w))]
		case 1:
			w = w[t.Intn(len(w)):]
		}
		b.WriteString(string(w))
	}
	return b.String()
}

func c02big(t *T) {
	loadBig()
	ref := bigDict.ref
	if f := bigDict.seg.Dict.TotalFreq(); !close9(f, ref.total) {
		t.Fatalf("total frequency of the shipped dictionary is %v, its lines sum to %v", f, ref.total)
	}
	if n := bigDict.seg.Dict.NumTokens(); n != len(ref.m) {
		t.Fatalf("the shipped dictionary has %d words, its lines %d", n, len(ref.m))
	}
	for i := 0; i < 5; i++ {
		text := bigText(t)
		segs := segmentBoth(t, bigDict.seg, text)
		if err := checkTiling([]byte(text), segs, true); err != nil {
			t.Fatalf("shipped dictionary, text %q: %v", text, err)
		}
		if _, err := checkShortest(ref, text, segs); err != nil {
			t.Fatalf("shipped dictionary, text %q: %v; segments %s", text, err, quoteList(segTexts(segs)))
		}
		t.Sig(text)
		t.Nontrivial()
		t.Count("segments of real text", len(segs))
		t.Eval()
	}
}

// ---- C03 ------------------------------------------------------------------

func c03(t *T, lower bool) {
	g := newGen(t, false)
	g.Invalid, g.NUL = true, true
	for i := 0; i < 20; i++ {
		o := Opt{Lower: lower, AlphaNum: t.Intn(4) == 0, Alpha: t.Intn(3) == 0, Num: t.Intn(3) == 0}
		var text string
		k := t.Intn(3)
		if t.sweep != nil {
			o.AlphaNum, o.Alpha, o.Num = i&1 > 0, i&2 > 0, i&4 > 0
			g.sweeps, k = 1, 0
		}
		switch k {
		case 0:
			text = g.text(1 + t.Intn(8))
		case 1: // short mixtures of the classes that matter
			for k := 1 + t.Intn(8); k > 0; k-- {
				c := pick(t, []string{"latin", "upper", "digit", "accent", "accentUp", "num2", "num3", "cyrUp", "punct", "kana", "full", "odd", "space", "comb"})
				l := 1 + t.Intn(3)
				if t.Intn(1000) == 0 {
					l = 1 << (6 + t.Intn(8))
					l += t.Intn(l)
					t.Count("runs of 64 to 16384 characters of one kind", 1)
				}
				text += g.run(c, l)
			}
		default:
			b := make([]byte, t.Intn(24))
			for k := range b {
				b[k] = byte(t.Intn(256))
			}
			text = string(b)
		}
		in := []byte(text)
		var got []gse.Text
		call := "SplitTextToWords"
		if o == (Opt{Lower: lower}) && t.Intn(2) == 0 {
			call = "SplitWords"
			got = gse.SplitWords(in)
		} else {
			seg := newSeg(o)
			got = seg.SplitTextToWords(in)
		}
		if string(in) != text {
			t.Fatalf("%s changed its argument %q to %q", call, text, in)
		}
		want := refUnits([]byte(text), o)
		gs := make([]string, len(got))
		for k := range got {
			gs[k] = string(got[k])
		}
		if strings.Join(gs, "\x01") != strings.Join(want, "\x01") || len(gs) != len(want) {
			t.Fatalf("%s(%q) with %+v gave units %s, want %s", call, text, o, quoteList(gs), quoteList(want))
		}
		t.Sig(text, o)
		t.Count("units compared", len(want))
		if len(want) > 2 {
			t.Nontrivial()
			t.Sample(map[string]any{"options": fmt.Sprintf("%+v", o), "text": fmt.Sprintf("%q", text), "units": gs})
		}
		// the units are what dictionary words are made of, too
		if tok := newSeg(o).ToToken(text, 3, "n"); tok.Text() != strings.Join(want, "") || tok.Freq() != 3 || tok.Pos() != "n" {
			t.Fatalf("ToToken(%q) with %+v has text %q", text, o, tok.Text())
		}
		t.Eval()
	}
}

func init() {
	register(&Prop{ID: "C01",
		Rule: "a case is a vocabulary of 1-40 overlapping words (Han, Latin, digits, kana, Hangul, emoji, punctuation, …) loaded by a random route under random options and six texts mixing its words, fragments and hostile bytes, with the options changed after loading in a third of them; an evaluation is one segmented text, non-trivial when it has at least two segments, distinct by text, dictionary size and options",
		Kinds: []Kind{
			{Name: "tiling", Quick: 18000, Thorough: 120000, Run: func(t *T) { c01(t, true) }},
			hugeTexts(40, 1<<20, c01),
			everyChar(c01),
			{Name: "tiling, ToLower off", Quick: 3000, Thorough: 15000, Serial: true, Run: func(t *T) { withoutLower(func() { c01(t, false) }) }},
		}})
	register(&Prop{ID: "C02",
		Rule: "a case is a vocabulary of 1-30 overlapping words with small, log-uniform, very wide or fractional frequencies and eight texts; the oracle computes the optimum by dynamic programming over a plain map and compares path lengths (ties are free), within what 32-bit floats can do; words whose frequencies make two divisions differ by 0.0002 to 0.1, and rows of up to 180 nested words; the shipped 236000-word dictionary is checked on real text; an evaluation is one text, non-trivial when its path has at least two segments, one of them a word of several units, distinct by text and dictionary size",
		Kinds: []Kind{
			{Name: "shortest", Quick: 18000, Thorough: 120000, Run: func(t *T) { c02(t, true) }},
			hugeTexts(40, 1<<20, c02),
			everyChar(c02),
			{Name: "paths of nearly the same length", Quick: 4000, Thorough: 60000, Run: c02ties},
			{Name: "shortest, ToLower off", Quick: 1800, Thorough: 15000, Serial: true, Run: func(t *T) { withoutLower(func() { c02(t, false) }) }},
			{Name: "shipped dictionary", Quick: 720, Thorough: 6000, Run: c02big},
		}})
	register(&Prop{ID: "C03",
		Rule: "an evaluation is one text (class mixtures, vocabulary texts, random bytes) split under one combination of AlphaNum, Alpha, Num and ToLower and compared unit by unit with a reference splitter written from the property; non-trivial when it has more than two units, distinct by text and options",
		Kinds: []Kind{
			{Name: "units", Quick: 24000, Thorough: 150000, Run: func(t *T) { c03(t, true) }},
			hugeTexts(40, 1<<20, c03),
			everyChar(c03),
			{Name: "units, ToLower off", Quick: 4000, Thorough: 20000, Serial: true, Run: func(t *T) { withoutLower(func() { c03(t, false) }) }},
		}})
}
