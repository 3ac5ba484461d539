package main

// C23 (keyword extraction), C24 (TextRank).

import (
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm/idf"
	"github.com/go-ego/gse/hmm/pos"
	"github.com/go-ego/gse/hmm/segment"
)

// idfModel is the reference IDF dictionary.
type idfModel struct{ ref *RefDict }

func newIdfModel() *idfModel { return &idfModel{newRef(Opt{Lower: gse.ToLower})} }

// median is the upper one of the middle values.
func (m *idfModel) median() float64 {
	var l []float64
	for _, e := range m.ref.m {
		l = append(l, e.Freq)
	}
	if len(l) == 0 {
		return 0
	}
	sort.Float64s(l)
	return l[len(l)/2]
}

func (m *idfModel) weight(w string) float64 {
	if e, ok := m.ref.m[w]; ok {
		return e.Freq
	}
	return m.median()
}

// tagRef is the weight of a word and what it comes from. Words of one
// occurrence count and IDF value weigh the same however the numbers are
// rounded; others may tie on paper only.
type tagRef struct {
	weight, idf float64
	n           int
}

// refTags are the weights of all candidates.
func refTags(cut []string, stops stopSet, m *idfModel) map[string]tagRef {
	count := map[string]int{}
	total := 0
	for _, w := range cut {
		w = strings.TrimFunc(w, unicode.IsSpace)
		if utf8.RuneCountInString(w) < 2 || stops[w] {
			continue
		}
		count[w]++
		total++
	}
	out := map[string]tagRef{}
	for w, n := range count {
		x := m.weight(w)
		out[w] = tagRef{x * float64(n) / float64(total), x, n}
	}
	return out
}

// checkRanking decides whether got is the top of the reference weights.
func checkRanking(got segment.Segments, want map[string]tagRef, k int) error {
	if n := min(k, len(want)); len(got) != n {
		return fmt.Errorf("%d words are returned, want %d of %d", len(got), n, len(want))
	}
	seen := map[string]bool{}
	low := math.Inf(1)
	for i, s := range got {
		w, ok := want[s.Text]
		if !ok {
			return fmt.Errorf("%q is returned and is not a candidate", s.Text)
		}
		if seen[s.Text] {
			return fmt.Errorf("%q is returned twice", s.Text)
		}
		seen[s.Text] = true
		if s.GetText() != s.Text || s.GetWeight() != s.Weight {
			return fmt.Errorf("the accessors of %+v give %q, %v", s, s.GetText(), s.GetWeight())
		}
		if !close9(s.Weight, w.weight) {
			return fmt.Errorf("%q has the weight %v, want %v", s.Text, s.Weight, w.weight)
		}
		if i > 0 {
			if p := got[i-1]; p.Weight < s.Weight || p.Weight == s.Weight && p.Text < s.Text {
				return fmt.Errorf("%+v comes before %+v", p, s)
			}
		}
		low = math.Min(low, s.Weight)
	}
	for w, x := range want {
		if len(got) > 0 && !seen[w] {
			if x.weight > low && !close9(x.weight, low) {
				return fmt.Errorf("%q has the weight %v and is left out, while %v is in", w, x.weight, low)
			}
			if last := got[len(got)-1]; x == want[last.Text] && w > last.Text {
				return fmt.Errorf("%q is left out, %q of the same weight is in", w, last.Text)
			}
		}
	}
	return nil
}

// idfSource makes lines of an IDF dictionary.
func idfSource(t *T, g *Gen) []Entry {
	var es []Entry
	k := t.Intn(14)
	if !raceBuild && t.Intn(60) == 0 {
		k = 60 + t.Intn(400)
	}
	for ; k > 0; k-- {
		w := pick(t, g.words).Word
		switch t.Intn(4) {
		case 0:
			w = g.word()
		case 1: // longer than a word of the text
			w += g.hanWord(1)
		}
		if !plainWord(w) || gse.ToLower && strings.ToLower(w) != w {
			continue
		}
		// multiples of 1/4: exact
		f := float64(8+t.Intn(50)) / 4
		if t.Intn(6) == 0 {
			f = math.Floor(math.Exp2(3+42*t.Float64())) / 4
		}
		es = append(es, Entry{w, f, ""})
	}
	return es
}

func idfText(es []Entry) string { return dictText(es, "") }

func (m *idfModel) load(es []Entry) {
	for _, e := range es {
		if utf8.RuneCountInString(e.Word) < 2 {
			e.Freq = 2
		}
		m.ref.Add(e)
	}
}

func c23(t *T) {
	g := newGen(t, false)
	g.Invalid, g.NUL = t.Intn(5) == 0, t.Intn(6) == 0
	o := Opt{Lower: gse.ToLower}
	g.vocab(4+t.Intn(14), freqSmall, func(w string) bool { return plainWord(w) && !strings.ContainsAny(w, ",") })
	var ex idf.TagExtracter
	seg := newSeg(o)
	var log []string
	if t.Intn(3) == 0 {
		f := writeScratch(dictText(g.words, ""))
		if err := ex.LoadDict(f); err != nil {
			t.Fatalf("LoadDict: %v", err)
		}
		if err := seg.LoadDict(f); err != nil {
			t.Fatalf("LoadDict: %v", err)
		}
		os.Remove(f)
		t.Base(g.words)
		log = append(log, "LoadDict")
	} else {
		fill(t, seg, g.words, o)
		if t.Intn(4) == 0 {
			ex.WithGse(*otherSeg(t, g))
			ex.ExtractTags(g.text(4), 3)
			t.Count("objects given a second dictionary", 1)
		}
		ex.WithGse(*seg)
		log = append(log, "WithGse")
	}
	stops := stopSet{}
	for _, w := range strings.Fields("the of is and to in that we for an are by be as on with can if from which you it this then at have all not one has or") {
		stops[w] = true
	}
	model := newIdfModel()
	for op := 1 + t.Intn(5); op > 0; op-- {
		switch t.Intn(5) {
		case 0:
			es := idfSource(t, g)
			log = append(log, fmt.Sprintf("LoadIdfStr(%q)", idfText(es)))
			model = newIdfModel()
			model.load(es)
			if err := ex.LoadIdfStr(idfText(es)); err != nil {
				t.Fatalf("LoadIdfStr: %v", err)
			}
		case 1:
			es := idfSource(t, g)
			log = append(log, fmt.Sprintf("LoadIdf(file with %q)", idfText(es)))
			model = newIdfModel()
			model.load(es)
			f := writeScratch(idfText(es))
			if err := ex.LoadIdf(f); err != nil {
				t.Fatalf("LoadIdf: %v", err)
			}
			os.Remove(f)
		case 2:
			if ex.Idf == nil {
				continue
			}
			n := 1
			if t.Intn(4) == 0 {
				n = 1 + t.Intn(8)
			}
			for ; n > 0; n-- {
				e := Entry{pick(t, g.words).Word, float64(1+t.Intn(80)) / 4, ""}
				if t.Intn(3) == 0 {
					e.Word += g.hanWord(1 + t.Intn(2))
				}
				if t.Intn(3) == 0 { // far from the others
					e.Freq = pick(t, []float64{0.25, 100, 1000, 0.5})
				}
				log = append(log, fmt.Sprintf("Idf.AddToken(%q, %v)", e.Word, e.Freq))
				model.ref.Add(e)
				if err := ex.Idf.AddToken(e.Word, e.Freq); err != nil {
					t.Fatalf("Idf.AddToken: %v", err)
				}
			}
		case 3:
			if ex.Idf == nil {
				continue
			}
			es := idfSource(t, g)
			log = append(log, fmt.Sprintf("Idf.LoadDict(file with %q)", idfText(es)))
			f := writeScratch(idfText(es))
			if err := ex.Idf.LoadDict(f); err != nil {
				t.Fatalf("Idf.LoadDict: %v", err)
			}
			os.Remove(f)
			model.load(es)
		case 4:
			text := ""
			stops = stopSet{}
			for _, w := range strings.Fields("the of is and to in that we for an are by be as on with can if from which you it this then at have all not one has or") {
				stops[w] = true
			}
			for k := t.Intn(5); k > 0; k-- {
				w := pick(t, g.words).Word
				text += w + "\n"
				stops[w] = true
			}
			log = append(log, fmt.Sprintf("LoadStopWords(file with %q)", text))
			f := writeScratch(text)
			if err := ex.LoadStopWords(f); err != nil {
				t.Fatalf("LoadStopWords: %v", err)
			}
			os.Remove(f)
		}
	}
	t.Base(log)
	// the values reported
	if ex.Idf != nil {
		for _, e := range g.words {
			c := model.ref.canon(e.Word)
			f, _, _ := ex.Idf.Freq(c)
			if want := model.ref.Freq(c); f != want {
				t.Fatalf("Idf.Freq(%q) = %v, want %v; %q", c, f, want, log)
			}
		}
		if n := ex.Idf.NumTokens(); n != len(model.ref.m) {
			t.Fatalf("Idf.NumTokens() = %d, %d were loaded; %q", n, len(model.ref.m), log)
		}
		if n := ex.Idf.TotalFreq(); !close9(n, model.ref.total) {
			t.Fatalf("Idf.TotalFreq() = %v, the loaded values sum to %v; %q", n, model.ref.total, log)
		}
	}
	for round := 0; round < 4; round++ {
		text := g.text(1 + t.Intn(20))
		if t.Intn(4) == 0 {
			text += " the which the " + text
		}
		k := t.Intn(12)
		if t.Intn(5) == 0 {
			k = 1000
		}
		got := ex.ExtractTags(text, k)
		want := refTags(seg.Cut(text, true), stops, model)
		if err := checkRanking(got, want, k); err != nil {
			t.Fatalf("ExtractTags(text, %d): %v; got %v, want the top of %v; %q; %s", k, err, got, want, log, setting(o, g.words, text))
		}
		again := ex.ExtractTags(text, k)
		if fmt.Sprint(again) != fmt.Sprint(got) {
			t.Fatalf("ExtractTags(text, %d) gives %v, then %v; %q; %s", k, got, again, log, setting(o, g.words, text))
		}
		known := 0
		for w := range want {
			if _, ok := model.ref.m[w]; ok {
				known++
			}
		}
		t.Count("words weighed", len(want))
		t.Count("words weighed by the median", len(want)-known)
		t.Count("words cut off by topK", len(want)-len(got))
		t.Sig(round, text, k)
		if len(got) > 1 {
			t.Nontrivial()
			t.Sample(map[string]any{"history": log, "text": text, "topK": k, "tags": fmt.Sprint(got)})
		}
		t.Eval()
	}
}

// ---- C24 ------------------------------------------------------------------

// refRank is ten rounds of weighted PageRank over co-occurrence counts. The
// words are visited in text order and see the ranks of this round.
func refRank(items []gse.SegPos, allow map[string]bool) map[string]float64 {
	weight := map[string]map[string]float64{}
	add := func(a, b string) {
		if weight[a] == nil {
			weight[a] = map[string]float64{}
		}
		weight[a][b]++
	}
	for i, a := range items {
		if !allow[a.Pos] {
			continue
		}
		for j := i + 1; j < len(items) && j <= i+4; j++ {
			if b := items[j]; allow[b.Pos] {
				add(a.Text, b.Text)
				add(b.Text, a.Text)
			}
		}
	}
	var words []string
	out := map[string]float64{}
	for w, m := range weight {
		words = append(words, w)
		for _, n := range m {
			out[w] += n
		}
	}
	sort.Strings(words)
	rank := map[string]float64{}
	for _, w := range words {
		rank[w] = 1 / float64(len(words))
	}
	for round := 0; round < 10; round++ {
		for _, w := range words {
			s := 0.0
			for v, n := range weight[w] {
				s += n / out[v] * rank[v]
			}
			rank[w] = 0.15 + 0.85*s
		}
	}
	lo, hi := math.Inf(1), 0.0
	for _, r := range rank {
		lo, hi = math.Min(lo, r), math.Max(hi, r)
	}
	for w, r := range rank {
		rank[w] = (r - lo/10) / (hi - lo/10)
	}
	return rank
}

func c24(t *T) {
	g := newGen(t, false)
	g.Invalid, g.NUL = t.Intn(5) == 0, t.Intn(6) == 0
	o := Opt{Lower: gse.ToLower}
	g.vocab(4+t.Intn(14), freqLog, func(w string) bool { return plainWord(w) && !strings.ContainsAny(w, ",") })
	for i := range g.words {
		if t.Intn(3) > 0 {
			g.words[i].Pos = pick(t, []string{"n", "v", "ns", "vn"})
		}
	}
	var ranker idf.TextRanker
	var tagger pos.Segmenter
	if t.Intn(3) == 0 {
		f := writeScratch(dictText(g.words, ""))
		if err := ranker.LoadDict(f); err != nil {
			t.Fatalf("LoadDict: %v", err)
		}
		if err := tagger.LoadDict(f); err != nil {
			t.Fatalf("LoadDict: %v", err)
		}
		os.Remove(f)
		t.Base(g.words)
	} else {
		seg := newSeg(o)
		fill(t, seg, g.words, o)
		if t.Intn(4) == 0 {
			ranker.WithGse(*otherSeg(t, g))
			ranker.TextRank(g.text(6), 3)
			t.Count("objects given a second dictionary", 1)
		}
		ranker.WithGse(*seg)
		tagger.WithGse(*seg)
	}
	for round := 0; round < 4; round++ {
		n := 1 + t.Intn(20)
		if t.Intn(10) == 0 {
			n = 40 + t.Intn(60)
		}
		text := g.text(n)
		tags := []string{"ns", "n", "vn", "v"}
		plain := t.Intn(2) == 0
		if !plain {
			tags = nil
			for k := t.Intn(7); k > 0; k-- {
				tags = append(tags, pick(t, append(posTags, "x", "m", "eng", "w")))
			}
		}
		allow := map[string]bool{}
		for _, x := range tags {
			allow[x] = true
		}
		rank := func(k int) segment.Segments {
			if plain {
				return ranker.TextRank(text, k)
			}
			return ranker.TextRankWithPOS(text, k, tags)
		}
		state := func() string { return fmt.Sprintf("tags %q; %s", tags, setting(o, g.words, text)) }
		all := rank(0)
		want := map[string]tagRef{}
		for w, x := range refRank(tagger.Cut(text, true), allow) {
			want[w] = tagRef{weight: x}
		}
		if err := checkRanking(all, want, len(want)); err != nil {
			t.Fatalf("TextRank(text, 0): %v; got %v, want %v; %s", err, all, want, state())
		}
		if len(all) > 0 && all[0].Weight != 1 {
			t.Fatalf("the top word has the weight %v; %v; %s", all[0].Weight, all, state())
		}
		for _, s := range all {
			if !(s.Weight > 0 && s.Weight <= 1) {
				t.Fatalf("%q has the weight %v; %s", s.Text, s.Weight, state())
			}
		}
		for _, k := range []int{1 + t.Intn(8), t.Intn(3) - 2, pick(t, []int{0, len(all), len(all) + 1})} {
			top := all
			if k > 0 && k < len(all) {
				top = all[:k]
			}
			// the same list on every call, bit for bit
			if got := rank(k); len(got) != len(top) || fmt.Sprint(got) != fmt.Sprint(top) {
				t.Fatalf("TextRank(text, %d) is %v, without a limit it was %v; %s", k, got, all, state())
			}
		}
		t.Count("words ranked", len(all))
		t.Count("ranked lists compared", 4)
		t.Sig(round, text, tags)
		if len(all) > 2 {
			t.Nontrivial()
			t.Sample(map[string]any{"text": clip2(text), "tags": tags, "ranking": clip2(fmt.Sprint(all))})
		}
		t.Eval()
	}
}

func init() {
	register(&Prop{ID: "C23",
		Rule: "an extractor with a generated dictionary (by LoadDict or WithGse), a history of IDF loads (file, string, additions, a second file into the same IDF store; values up to 2^43, dictionaries of up to 460 words) and stop-word loads, then ExtractTags of generated texts with topK 0-11 and 1000, compared with counts over the library's own HMM cut times the reference IDF or median; the same call twice; Freq, NumTokens and TotalFreq of the IDF store; " +
			"non-trivial when two tags are returned; distinct by history, text and topK",
		Kinds: []Kind{
			{Name: "extraction", Quick: 20000, Thorough: 200000, Run: c23},
			lowerOff("extraction", 3000, 40000, c23),
			everyChar(func(t *T, _ bool) { c23(t) }),
		}})
	register(&Prop{ID: "C24",
		Rule: "a ranker with a generated dictionary (by LoadDict or WithGse), texts of 1-20 and 40-100 pieces, the default and random tag lists, compared with an independent PageRank over the library's own tagging; three more calls with other limits, whose lists must be the same bit for bit; " +
			"non-trivial when three words are ranked; distinct by text and tags",
		Kinds: []Kind{
			{Name: "ranking", Quick: 1000, Thorough: 120000, Run: c24},
			lowerOff("ranking", 150, 15000, c24),
		}})
}
