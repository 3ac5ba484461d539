package main

// C09: search mode and the output forms.

import (
	"fmt"
	"math"
	"strings"

	"github.com/go-ego/gse"
)

// refSub is the length of the shortest division of a word's units into shorter words.
func (d *RefDict) refSub(units []string) float64 {
	n := len(units)
	best := make([]float64, n+1)
	for i := 1; i <= n; i++ {
		best[i] = math.Inf(1)
		w := ""
		for j := i - 1; j >= 0; j-- {
			w = units[j] + w
			if j == 0 && i == n {
				continue
			}
			c := math.Inf(1)
			if e, ok := d.m[w]; ok {
				c = math.Log2(d.total) - math.Log2(e.Freq)
			} else if i-j == 1 {
				c = 32
			}
			if best[j]+c < best[i] {
				best[i] = best[j] + c
			}
		}
	}
	return best[n]
}

// checkSubs is the monitor over the sub-segments of one dictionary word.
func checkSubs(ref *RefDict, tok *gse.Token) (n, kana int, err error) {
	word := tok.Text()
	subs := tok.Segments()
	units := refUnits([]byte(word), ref.opt)
	if _, ok := ref.m[word]; !ok || len(units) < 2 {
		if len(subs) > 0 {
			return 0, 0, fmt.Errorf("%q, which is not a word of several units, has %d sub-segments", word, len(subs))
		}
		return 0, 0, nil
	}
	sum := 0.0
	single := func(from, to int) error { // the units in a gap
		at := 0
		for _, u := range units {
			if at >= from && at < to {
				if !isKana(u) || at+len(u) > to {
					return fmt.Errorf("%q leaves out %q", word, word[from:to])
				}
				kana++
				if e, ok := ref.m[u]; ok {
					sum += math.Log2(ref.total) - math.Log2(e.Freq)
				} else {
					sum += 32
				}
			}
			at += len(u)
		}
		return nil
	}
	at := 0
	for _, s := range subs {
		if s.Start() < at || s.End() <= s.Start() || s.End() > len(word) {
			return n, kana, fmt.Errorf("a sub-segment of %q is [%d,%d), the previous one ended at %d", word, s.Start(), s.End(), at)
		}
		if err := single(at, s.Start()); err != nil {
			return n, kana, err
		}
		at = s.End()
		w := s.Token().Text()
		if w != word[s.Start():s.End()] || w == word {
			return n, kana, fmt.Errorf("sub-segment [%d,%d) of %q is %q", s.Start(), s.End(), word, w)
		}
		if e, ok := ref.m[w]; ok {
			if s.Token().Freq() != e.Freq || s.Token().Pos() != e.Pos {
				return n, kana, fmt.Errorf("sub-word %q of %q has %v/%q, the dictionary has %v/%q", w, word, s.Token().Freq(), s.Token().Pos(), e.Freq, e.Pos)
			}
			sum += math.Log2(ref.total) - math.Log2(e.Freq)
		} else {
			if len(refUnits([]byte(w), ref.opt)) != 1 || s.Token().Pos() != "x" {
				return n, kana, fmt.Errorf("sub-segment %q/%q of %q is neither a word nor a single unknown unit", w, s.Token().Pos(), word)
			}
			sum += 32
		}
		n++
	}
	if err := single(at, len(word)); err != nil {
		return n, kana, err
	}
	if want := ref.refSub(units); sum > want+0.005+2e-6*want*math.Sqrt(float64(n+1)) {
		return n, kana, fmt.Errorf("the sub-segments of %q have length %.5f, its shortest division has %.5f", word, sum, want)
	}
	return n, kana, nil
}

// searchList is what search mode prints for one token: sub-words are printed
// from the first one on that has sub-words itself or starts with kana.
func searchList(tok *gse.Token, depth int) (out []gse.SegPos) {
	terminal := true
	for _, s := range tok.Segments() {
		sub := s.Token()
		first := refUnits([]byte(sub.Text()), Opt{Lower: gse.ToLower})
		if len(sub.Segments()) > 1 || len(first) > 0 && isKana(first[0]) {
			terminal = false
		}
		if !terminal && depth < 5000 {
			out = append(out, searchList(sub, depth+1)...)
		}
	}
	return append(out, gse.SegPos{Text: tok.Text(), Pos: tok.Pos()})
}

func posString(ps []gse.SegPos) string {
	var b strings.Builder
	for _, p := range ps {
		b.WriteString(p.Text + "/" + p.Pos + " ")
	}
	return b.String()
}

func posTexts(ps []gse.SegPos) []string {
	out := []string{}
	for _, p := range ps {
		out = append(out, p.Text)
	}
	return out
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// checkForms compares every output form of a text in both modes with the
// segments; it returns how many sub-words search mode added.
func checkForms(seg *gse.Segmenter, text string) (added int, err error) {
	segs := seg.Segment([]byte(text))
	var normal, search []gse.SegPos
	for i := range segs {
		tok := segs[i].Token()
		normal = append(normal, gse.SegPos{Text: tok.Text(), Pos: tok.Pos()})
		l := searchList(tok, 0)
		for _, sub := range l[:len(l)-1] {
			if !strings.Contains(tok.Text(), sub.Text) || sub.Text == tok.Text() {
				return 0, fmt.Errorf("search mode adds %q to %q", sub.Text, tok.Text())
			}
		}
		search = append(search, l...)
	}
	type form struct {
		name string
		got  any
	}
	for _, m := range []struct {
		want  []gse.SegPos
		forms []form
	}{
		{normal, []form{
			{"Slice(text)", seg.Slice(text)},
			{"Slice(text, false)", seg.Slice(text, false)},
			{"Cut(text)", seg.Cut(text)},
			{"String(text)", seg.String(text)},
			{"String(text, false)", seg.String(text, false)},
			{"Pos(text)", seg.Pos(text)},
			{"Pos(text, false)", seg.Pos(text, false)},
			{"ToSlice", gse.ToSlice(segs)},
			{"ToSlice(ModeSegment(false), false)", gse.ToSlice(seg.ModeSegment([]byte(text), false), false)},
			{"ToString", gse.ToString(segs, false)},
			{"ToPos", gse.ToPos(segs)},
		}},
		{search, []form{
			{"Slice(text, true)", seg.Slice(text, true)},
			{"CutSearch(text)", seg.CutSearch(text)},
			{"String(text, true)", seg.String(text, true)},
			{"Pos(text, true)", seg.Pos(text, true)},
			{"ToSlice(ModeSegment(true), true)", gse.ToSlice(seg.ModeSegment([]byte(text), true), true)},
			{"ToString(ModeSegment(true), true)", gse.ToString(seg.ModeSegment([]byte(text), true), true)},
			{"ToPos(segments, true)", gse.ToPos(segs, true)},
		}},
	} {
		for _, f := range m.forms {
			ok := false
			switch g := f.got.(type) {
			case []string:
				ok = eqStrings(g, posTexts(m.want))
			case string:
				ok = g == posString(m.want)
			case []gse.SegPos:
				ok = posString(g) == posString(m.want) && eqStrings(posTexts(g), posTexts(m.want))
			}
			if !ok {
				return 0, fmt.Errorf("%s gives %q, the segments are %q", f.name, f.got, m.want)
			}
		}
	}
	return len(search) - len(normal), nil
}

func c09(t *T, lower bool) {
	g := newGen(t, false)
	g.Invalid, g.NUL = t.Intn(4) == 0, t.Intn(5) == 0
	o := t.opt()
	o.Lower = lower
	if t.Intn(3) == 0 {
		g.classes = append(g.classes, "kana", "kana", "kana")
	}
	es := g.vocab(1+t.Intn(30), t.Intn(freqModes), nil)
	// words of words, so that sub-words have sub-words
	have := newRef(o)
	for _, e := range es {
		have.Add(e)
	}
	for k := t.Intn(6); k > 0; k-- {
		e := Entry{pick(t, es).Word + pick(t, es).Word + pick(t, append([]string{""}, classes["kana"]...)), t.freq(freqLog), "nz"}
		if have.Add(e) {
			es = append(es, e)
			g.words = es
		}
	}
	seg := newSeg(o)
	seg.NotLoadHMM = true
	ref := fill(t, seg, es, o)
	nested := 0
	for i := range seg.Dict.Tokens {
		v, _, err := seg.Value(seg.Dict.Tokens[i].Text())
		if (err != nil || v != i) && len(seg.Dict.Tokens) > len(ref.m) {
			continue // a word that was removed, or added again since
		}
		n, kana, err := checkSubs(ref, &seg.Dict.Tokens[i])
		if err != nil {
			t.Fatalf("%v; %s", err, setting(o, es, ""))
		}
		nested += n
		t.Count("sub-segments checked", n)
		t.Count("single kana left out", kana)
	}
	for i := 0; i < 6; i++ {
		text := g.text(1 + t.Intn(10))
		if i < 2 {
			text = pick(t, es).Word
		}
		added, err := checkForms(seg, text)
		if err != nil {
			t.Fatalf("%v; %s", err, setting(o, es, text))
		}
		t.Sig(text)
		t.Count("sub-words added by search mode", added)
		if added > 0 || nested > 0 && i < 2 {
			t.Nontrivial()
			t.Sample(map[string]any{"setting": setting(o, es, text), "search": seg.Slice(text, true), "normal": seg.Slice(text)})
		}
		t.Eval()
	}
}

func c09big(t *T) {
	loadBig()
	for i := 0; i < 5; i++ {
		text := bigText(t)
		added, err := checkForms(bigDict.seg, text)
		if err != nil {
			t.Fatalf("shipped dictionary, text %q: %v", text, err)
		}
		for _, s := range bigDict.seg.Segment([]byte(text)) {
			n, _, err := checkSubs(bigDict.ref, s.Token())
			if err != nil {
				t.Fatalf("shipped dictionary: %v", err)
			}
			t.Count("sub-segments of shipped words", n)
		}
		t.Sig(text)
		if added > 0 {
			t.Nontrivial()
		}
		t.Count("sub-words added in real text", added)
		t.Eval()
	}
}

func init() {
	register(&Prop{ID: "C09",
		Rule: "vocabularies of overlapping words and words made of words (with kana in a third), six texts each of which two are single words; the sub-segments of every dictionary word are checked against its text and the shortest division into shorter words, and eleven normal and seven search-mode forms of every text against the token tree; " +
			"an evaluation is one text, non-trivial when search mode added a sub-word or the text is a word in a dictionary with sub-segments, distinct by dictionary and text",
		Kinds: []Kind{
			{Name: "generated", Quick: 12000, Thorough: 100000, Run: func(t *T) { c09(t, true) }},
			hugeTexts(16, 160<<10, c09),
			everyChar(c09),
			{Name: "generated, ToLower off", Quick: 1200, Thorough: 10000, Serial: true, Run: func(t *T) { withoutLower(func() { c09(t, false) }) }},
			{Name: "shipped dictionary", Quick: 450, Thorough: 4000, Run: c09big},
		}})
}
