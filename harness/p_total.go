package main

// C25: totality. Nothing here looks at results beyond the cheapest sanity;
// panics, endless loops and memory are watched by main.go.

import (
	"bufio"
	"fmt"
	"math"
	"os"
	"regexp"
	"strings"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm"
	"github.com/go-ego/gse/hmm/idf"
	"github.com/go-ego/gse/hmm/pos"
	"github.com/go-ego/gse/hmm/util"
)

// world holds objects in any state.
type anyWorld struct {
	t     *T
	g     *Gen
	seg   *gse.Segmenter
	tag   *pos.Segmenter
	ex    *idf.TagExtracter
	rank  *idf.TextRanker
	idf   *idf.Idf
	stops *idf.StopWord
	last  []string // a list of pieces from the latest cut
}

func newAnyWorld(t *T) *anyWorld {
	g := newGen(t, false)
	g.Invalid, g.NUL = true, true
	g.vocab(2+t.Intn(12), t.Intn(freqModes), nil)
	w := &anyWorld{t: t, g: g}
	w.reset()
	return w
}

func (w *anyWorld) reset() {
	w.seg = &gse.Segmenter{SkipLog: true}
	w.tag, w.ex, w.rank = &pos.Segmenter{}, &idf.TagExtracter{}, &idf.TextRanker{}
	w.idf, w.stops = idf.NewIdf(), idf.NewStopWord()
	if w.t.Intn(2) == 0 {
		w.idf, w.stops = &idf.Idf{}, &idf.StopWord{}
	}
}

// hostileFreq are frequencies at and beyond the edges.
var hostileFreq = []float64{0, 1, 2, -1, -1e300, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64, 1e-300, 1e18, 0.5, math.Copysign(0, -1)}

func (w *anyWorld) freq() float64 {
	if w.t.Intn(2) == 0 {
		return float64(1 + w.t.Intn(1000))
	}
	return pick(w.t, hostileFreq)
}

func (w *anyWorld) word() string {
	t := w.t
	switch t.Intn(10) {
	case 0:
		return ""
	case 1:
		return pick(t, invalid)
	case 2:
		return w.g.text(1 + t.Intn(3))
	case 3:
		if t.Intn(10) == 0 {
			return strings.Repeat(w.g.hanWord(1), 1+t.Intn(120))
		}
		return w.g.hanWord(1)
	case 4:
		return pick(t, []string{" ", "\n", "\x00", "a\x00", "\ufeff", "a b", "1", "İ", "，"})
	}
	return pick(t, w.g.words).Word
}

func (w *anyWorld) text() string {
	t := w.t
	switch t.Intn(14) {
	case 0:
		return ""
	case 1:
		return pick(t, invalid)
	case 2:
		return strings.Repeat(w.word(), t.Intn(60))
	case 3: // random bytes
		b := make([]byte, t.Intn(80))
		for i := range b {
			b[i] = byte(t.Intn(256))
		}
		return string(b)
	case 4: // random code points
		var b strings.Builder
		for k := t.Intn(40); k > 0; k-- {
			b.WriteRune(rune(t.Intn(0x110000)))
		}
		return b.String()
	case 5:
		return w.g.run(pick(t, classNames), t.Intn(60))
	case 6:
		return pick(t, []string{"\x00", " ", "\n", "\u3000", "\r\n\t", "a", "中", "0.", ".5", "1.2.3", "a.b", "%", "+", "#", "--", "\ufffd", "\u200d"})
	}
	return w.g.text(1 + t.Intn(12))
}

// some is the beginning of a text; a cut with an expression that rarely
// matches takes time quadratic in the length.
func some(x string) string {
	if len(x) > 6000 {
		x = x[:6000]
	}
	return x
}

func (w *anyWorld) texts() []string {
	var l []string
	for k := w.t.Intn(6); k > 0; k-- {
		l = append(l, w.word())
	}
	return l
}

func (w *anyWorld) dictText() string {
	t := w.t
	var b strings.Builder
	for k := t.Intn(8); k > 0; k-- {
		sep := pick(t, []string{" ", " ", " ", ", ", "  ", "\t", ""})
		b.WriteString(w.word())
		if t.Intn(6) > 0 {
			b.WriteString(sep + pick(t, []string{"5", "100", "2", "0", "-1", "NaN", "Inf", "1e999", "x", "", "1e308", "9007199254740993"}))
		}
		if t.Intn(2) == 0 {
			b.WriteString(sep + "n")
		}
		b.WriteString(pick(t, []string{"\n", "\n", "\n", "\r\n", "", "\n\n"}))
	}
	return b.String()
}

func (w *anyWorld) file(text string) string {
	t := w.t
	if t.Intn(8) == 0 {
		return pick(t, []string{"/nonexistent", "", ",", ", ", "zh_s", "jp", tmpDir, "a, b, c", "\x00"})
	}
	return writeScratch(text)
}

var someRegexps = []*regexp.Regexp{
	regexp.MustCompile(`([\d]+|[a-z]+)`), regexp.MustCompile(``), regexp.MustCompile(`x*`), regexp.MustCompile(`.`),
	regexp.MustCompile(`(?s).*`), regexp.MustCompile(`\p{Han}+`), regexp.MustCompile(`$`), regexp.MustCompile(`^`), regexp.MustCompile(`\b`),
	regexp.MustCompile(`(a)|(b)`), regexp.MustCompile(`[^\x00-\x7f]`), regexp.MustCompile(`\x00`),
}

func (w *anyWorld) regs() []*regexp.Regexp {
	var l []*regexp.Regexp
	for k := w.t.Intn(4); k > 0; k-- {
		l = append(l, pick(w.t, someRegexps))
	}
	return l
}

type totalOp struct {
	name string
	run  func(w *anyWorld)
}

func flagList(t *T) []bool {
	switch t.Intn(3) {
	case 0:
		return nil
	case 1:
		return []bool{t.Intn(2) == 0}
	}
	return []bool{t.Intn(2) == 0, true}
}

// operations that change objects
var edits = []totalOp{
	{"options", func(w *anyWorld) {
		t, s := w.t, w.seg
		for k := 1 + t.Intn(3); k > 0; k-- {
			switch t.Intn(10) {
			case 0:
				s.AlphaNum = !s.AlphaNum
			case 1:
				s.Alpha = !s.Alpha
			case 2:
				s.Num = !s.Num
			case 3:
				s.DictSep = pick(t, []string{"", ",", "\t", "|", " "})
			case 4:
				s.LoadNoFreq = !s.LoadNoFreq
			case 5:
				s.MinTokenFreq = pick(t, []float64{0, 1, -1, math.NaN(), math.Inf(1), 0.1})
			case 6:
				s.TextFreq = pick(t, []string{"", "1", "x", "NaN", "-3"})
			case 7:
				s.NotStop, s.SkipPos = t.Intn(2) == 0, t.Intn(2) == 0
			case 8:
				s.NotLoadHMM = !s.NotLoadHMM
			case 9:
				s.Load = t.Intn(2) == 0
			}
		}
		t.Doing("options %+v", optText(s))
	}},
	{"AddToken", func(w *anyWorld) {
		x, f := w.word(), w.freq()
		w.t.Doing("AddToken(%q, %v)", x, f)
		w.seg.AddToken(x, f, w.texts()...)
	}},
	{"AddToken", func(w *anyWorld) {
		x, f := w.word(), w.freq()
		w.t.Doing("AddToken(%q, %v)", x, f)
		w.seg.AddToken(x, f)
	}},
	{"AddTokenForce", func(w *anyWorld) {
		x, f := w.word(), w.freq()
		w.t.Doing("AddTokenForce(%q, %v)", x, f)
		w.seg.AddTokenForce(x, f, "n")
	}},
	{"ReAddToken", func(w *anyWorld) {
		x, f := w.word(), w.freq()
		w.t.Doing("ReAddToken(%q, %v)", x, f)
		w.seg.ReAddToken(x, f)
	}},
	{"RemoveToken", func(w *anyWorld) {
		x := w.word()
		w.t.Doing("RemoveToken(%q)", x)
		w.seg.RemoveToken(x)
	}},
	{"CalcToken", func(w *anyWorld) { w.t.Doing("CalcToken()"); w.seg.CalcToken() }},
	{"Empty", func(w *anyWorld) {
		if w.t.Intn(2) == 0 {
			w.t.Doing("Empty()")
			w.seg.Empty()
		}
	}},
	{"NewDict", func(w *anyWorld) {
		if w.t.Intn(3) == 0 {
			w.t.Doing("Dict = NewDict()")
			w.seg.Dict = gse.NewDict()
		}
	}},
	{"LoadDictStr", func(w *anyWorld) {
		x := w.dictText()
		w.t.Doing("LoadDictStr(%q)", x)
		w.seg.LoadDictStr(x)
	}},
	{"LoadDictEmbed", func(w *anyWorld) {
		x := w.dictText()
		if w.t.Intn(3) == 0 {
			x = pick(w.t, []string{"zh", "zh_s", "zh_t", "ja", "zh, ", "zh,", ", ", "zh, 词 3 n", "zh_s, zh_t, x"})
		}
		w.t.Doing("LoadDictEmbed(%q)", x)
		w.seg.LoadDictEmbed(x)
	}},
	{"LoadDictMap", func(w *anyWorld) {
		var m []map[string]string
		for k := w.t.Intn(5); k > 0; k-- {
			m = append(m, map[string]string{"text": w.word(), "freq": pick(w.t, []string{"5", "x", "", "NaN", "-1"}), "pos": "n"})
		}
		m = append(m, nil, map[string]string{})
		w.t.Doing("LoadDictMap(%q)", m)
		w.seg.LoadDictMap(m)
	}},
	{"LoadDict", func(w *anyWorld) {
		x := w.dictText()
		f := w.file(x)
		w.t.Doing("LoadDict(%q with %q)", f, x)
		w.seg.LoadDict(f)
		if strings.HasPrefix(f, tmpDir+"/") {
			os.Remove(f)
		}
	}},
	{"Reader", func(w *anyWorld) {
		x := w.dictText()
		w.t.Doing("Reader(%q) with a dictionary %v", x, w.seg.Dict != nil)
		w.seg.Reader(bufio.NewReader(strings.NewReader(x)), "test")
	}},
	{"Init", func(w *anyWorld) { w.t.Doing("Init()"); w.seg.Init() }},
	{"copy", func(w *anyWorld) {
		w.t.Doing("copy the segmenter")
		c := *w.seg
		w.seg = &c
	}},
	{"New", func(w *anyWorld) {
		x := w.dictText()
		args := append([]string{x}, pick(w.t, [][]string{nil, {"alpha"}, {"en"}, {"x", "y"}})...)
		if w.t.Intn(2) == 0 {
			w.t.Doing("NewEmbed(%q)", args)
			s, _ := gse.NewEmbed(args...)
			w.seg = &s
			w.seg.SkipLog = true
			return
		}
		args[0] = w.file(x)
		w.t.Doing("New(%q with %q)", args, x)
		s, _ := gse.New(args...)
		w.seg = &s
		w.seg.SkipLog = true
		if strings.HasPrefix(args[0], tmpDir+"/") {
			os.Remove(args[0])
		}
	}},
	{"new segmenter", func(w *anyWorld) {
		if w.t.Intn(4) == 0 {
			w.t.Doing("a new segmenter")
			w.seg = &gse.Segmenter{SkipLog: true}
		}
	}},
	{"stop words", func(w *anyWorld) {
		x := w.word()
		switch w.t.Intn(7) {
		case 0:
			w.t.Doing("AddStop(%q)", x)
			w.seg.AddStop(x)
		case 1:
			w.t.Doing("RemoveStop(%q)", x)
			w.seg.RemoveStop(x)
		case 2:
			w.t.Doing("EmptyStop()")
			w.seg.EmptyStop()
		case 3:
			x = w.dictText()
			w.t.Doing("LoadStopStr(%q)", x)
			w.seg.LoadStopStr(x)
		case 4:
			x = w.dictText()
			w.t.Doing("LoadStopEmbed(%q)", x)
			w.seg.LoadStopEmbed(x)
		case 5:
			f := w.file(x)
			w.t.Doing("LoadStop(%q)", f)
			w.seg.LoadStop(f)
			if strings.HasPrefix(f, tmpDir+"/") {
				os.Remove(f)
			}
		case 6:
			l := w.texts()
			w.t.Doing("AddStopArr(%q)", l)
			w.seg.AddStopArr(l...)
			w.seg.LoadStopArr(nil)
		}
	}},
	{"attach", func(w *anyWorld) {
		switch w.t.Intn(3) {
		case 0:
			w.t.Doing("tagger.WithGse")
			w.tag.WithGse(*w.seg)
		case 1:
			w.t.Doing("extractor.WithGse")
			w.ex.WithGse(*w.seg)
		case 2:
			w.t.Doing("ranker.WithGse")
			w.rank.WithGse(*w.seg)
		}
	}},
	{"load taggers", func(w *anyWorld) {
		x := w.dictText()
		f := w.file(x)
		w.t.Doing("tagger/extractor/ranker.LoadDict(%q with %q)", f, x)
		switch w.t.Intn(3) {
		case 0:
			w.tag.LoadDict(f)
		case 1:
			w.ex.LoadDict(f)
		case 2:
			w.rank.LoadDict(f)
		}
		if strings.HasPrefix(f, tmpDir+"/") {
			os.Remove(f)
		}
	}},
	{"idf", func(w *anyWorld) {
		x := w.dictText()
		f := w.file(x)
		w.t.Doing("LoadIdf/LoadIdfStr/LoadStopWords/AddToken (%q with %q)", f, x)
		switch w.t.Intn(7) {
		case 0:
			w.ex.LoadIdf(f)
		case 1:
			w.ex.LoadIdfStr(x)
		case 2:
			w.ex.LoadStopWords(f)
		case 3:
			w.idf.LoadDict(f)
		case 4:
			w.idf.AddToken(w.word(), w.freq())
			w.ex.Idf = w.idf
		case 5:
			w.stops.LoadDict(f)
			w.stops.AddStop(x)
			w.stops.RemoveStop(x)
			w.stops.IsStopWord(x)
		case 6:
			w.ex.LoadIdf() // not shipped
		}
		if strings.HasPrefix(f, tmpDir+"/") {
			os.Remove(f)
		}
	}},
}

func optText(s *gse.Segmenter) string {
	return fmt.Sprintf("AlphaNum %v Alpha %v Num %v DictSep %q LoadNoFreq %v Min %v TextFreq %q Load %v", s.AlphaNum, s.Alpha, s.Num, s.DictSep, s.LoadNoFreq, s.MinTokenFreq, s.TextFreq, s.Load)
}

// operations on texts
var uses = []totalOp{
	{"Segment", func(w *anyWorld) {
		x := w.text()
		w.t.Doing("Segment(%q)", x)
		segs := w.seg.Segment([]byte(x))
		w.segments(x, segs)
		segs = w.seg.ModeSegment([]byte(x), flagList(w.t)...)
		w.segments(x, segs)
	}},
	{"Cut", func(w *anyWorld) {
		x, f := w.text(), flagList(w.t)
		w.t.Doing("Cut(%q, %v)", x, f)
		w.last = w.seg.Cut(x, f...)
	}},
	{"CutSearch", func(w *anyWorld) {
		x, f := w.text(), flagList(w.t)
		w.t.Doing("CutSearch(%q, %v)", x, f)
		w.last = w.seg.CutSearch(x, f...)
	}},
	{"CutAll", func(w *anyWorld) {
		x := w.text()
		w.t.Doing("CutAll(%q)", x)
		w.last = w.seg.CutAll(x)
	}},
	{"CutDAG", func(w *anyWorld) {
		x, r := some(w.text()), w.regs()
		w.t.Doing("CutDAG(%q, %v)", x, r)
		w.last = w.seg.CutDAG(x, r...)
		w.seg.CutDAGNoHMM(x)
	}},
	{"HMMCut", func(w *anyWorld) {
		x, r := some(w.text()), w.regs()
		w.t.Doing("HMMCut(%q, %v)", x, r)
		w.last = w.seg.HMMCut(x, r...)
		hmm.Cut(x)
	}},
	{"Slice", func(w *anyWorld) {
		x, f := w.text(), flagList(w.t)
		w.t.Doing("Slice/String/Pos(%q, %v)", x, f)
		w.last = w.seg.Slice(x, f...)
		w.seg.String(x, f...)
		w.seg.PosStr(w.seg.Pos(x, f...))
	}},
	{"trims", func(w *anyWorld) {
		x, f := w.text(), flagList(w.t)
		w.t.Doing("CutTrim…(%q, %v)", x, f)
		w.seg.CutTrim(x, f...)
		w.seg.CutStop(x, f...)
		w.seg.CutTrimHtml(x, f...)
		w.seg.CutTrimHtmls(x, f...)
		w.seg.CutUrl(x, f...)
		w.seg.CutUrls(x, f...)
		w.seg.PosTrim(x, len(f) > 0, w.texts()...)
		w.seg.PosTrimArr(x, len(f) > 0, w.texts()...)
		w.seg.PosTrimStr(x, len(f) > 0, w.texts()...)
		w.seg.Trim(w.last)
		w.seg.TrimPunct(w.last)
		w.seg.TrimSymbol(w.last)
		w.seg.Stop(w.last)
		w.seg.CutStr(w.last, x)
	}},
	{"Find", func(w *anyWorld) {
		x := w.word()
		w.t.Doing("Find/Value(%q)", x)
		w.seg.Find(x)
		w.seg.Value(x)
		d := w.seg.Dictionary()
		d.Find([]byte(x))
		d.Value([]byte(x))
		d.NumTokens()
		d.TotalFreq()
		d.MaxTokenLen()
		w.seg.IsStop(x)
	}},
	{"SuggestFreq", func(w *anyWorld) {
		l := w.texts()
		w.t.Doing("SuggestFreq(%q)", l)
		w.seg.SuggestFreq(l...)
	}},
	{"Analyze", func(w *anyWorld) {
		x, f := w.text(), flagList(w.t)
		l := w.last
		if w.t.Intn(3) == 0 {
			l = w.texts()
		}
		w.t.Doing("Analyze(%q, %q, %v)", l, x, f)
		w.seg.Analyze(l, x, f...)
		gse.FindAllOccs([]byte(x), l)
	}},
	{"package functions", func(w *anyWorld) {
		x := w.text()
		w.t.Doing("package functions on %q", x)
		gse.FilterEmoji(x)
		gse.FilterSymbol(x)
		gse.FilterHtml(x)
		gse.FilterLang(x, w.word())
		gse.SplitNum(x)
		gse.SplitNums(x)
		gse.Range(x)
		gse.RangeText(x)
		gse.IsJp(x)
		gse.SplitWords([]byte(x))
		gse.Join(gse.SplitWords([]byte(x)))
		gse.ToString(nil, true)
		gse.ToSlice(nil)
		gse.ToPos(nil, true)
		gse.DictPaths("dir", x)
		util.RegexpSplit(pick(w.t, someRegexps), x, w.t.Intn(5)-2)
	}},
	{"Viterbi", func(w *anyWorld) {
		x := w.text()
		w.t.Doing("Viterbi(%q)", x)
		hmm.Viterbi([]rune(x), []byte{'B', 'M', 'E', 'S'})
	}},
	{"tagger", func(w *anyWorld) {
		x, f := w.text(), flagList(w.t)
		w.t.Doing("tagger.Cut(%q, %v)", x, f)
		l := w.tag.Cut(x, f...)
		w.tag.Trim(l)
		w.tag.TrimPunct(l)
		w.tag.TrimWithPos(l, w.texts()...)
		w.seg.TrimPos(l)
		w.seg.TrimPosPunct(l)
	}},
	{"own lists", func(w *anyWorld) {
		l, seps := w.texts(), w.texts()
		var ps []gse.SegPos
		for k := w.t.Intn(6); k > 0; k-- {
			ps = append(ps, gse.SegPos{Text: pick(w.t, []string{"", " ", w.word(), "，", w.text()}), Pos: pick(w.t, []string{"", "n", "x", w.word()})})
		}
		w.t.Doing("trims of own lists %q %q, %q", l, ps, seps)
		w.seg.Trim(l)
		w.seg.TrimPunct(l)
		w.seg.TrimSymbol(l)
		w.seg.Stop(l)
		w.seg.CutStr(l, seps...)
		w.seg.TrimPos(ps)
		w.seg.TrimPosPunct(ps)
		w.seg.TrimWithPos(ps, seps...)
		w.seg.PosStr(ps, seps...)
		w.tag.Trim(ps)
		w.tag.TrimPunct(ps)
		w.tag.TrimWithPos(ps, seps...)
		w.seg.GetIdfPath(l...)
		w.seg.GetCurrentFilePath()
		tk := w.seg.ToToken(w.word(), w.freq(), seps...)
		tk.Equals(w.word())
		tk.Text()
		tk.Segments()
	}},
	{"ExtractTags", func(w *anyWorld) {
		x, k := w.text(), pick(w.t, []int{-1, 0, 1, 5, 1 << 40})
		w.t.Doing("ExtractTags(%q, %d)", x, k)
		w.ex.ExtractTags(x, k)
		if w.ex.Idf != nil {
			w.ex.Idf.Freq(w.word())
			w.ex.Idf.NumTokens()
			w.ex.Idf.TotalFreq()
		}
		w.idf.Freq(x)
		w.idf.NumTokens()
		w.idf.TotalFreq()
	}},
	{"TextRank", func(w *anyWorld) {
		x, k := w.text(), pick(w.t, []int{-1, 0, 1, 5, 1 << 40})
		w.t.Doing("TextRank(%q, %d)", x, k)
		w.rank.TextRank(x, k)
		w.rank.TextRankWithPOS(x, k, w.texts())
		w.rank.TextRankWithPOS(x, k, []string{"x", "n", "eng", "m"})
	}},
}

// segments walks over what a segmentation refers to.
func (w *anyWorld) segments(x string, segs []gse.Segment) {
	if w.seg.Dict == nil {
		if len(segs) != 0 {
			w.t.Fatalf("without a dictionary %q has segments%s", x, w.t.steps())
		}
		return
	}
	end := 0
	for i := range segs {
		s := &segs[i]
		if s.Start() != end || s.Token() == nil {
			w.t.Fatalf("the segments of %q are not contiguous at byte %d%s", x, end, w.t.steps())
		}
		end = s.End()
		s.Token().Equals(x)
		for _, sub := range s.Token().Segments() {
			_ = sub.Token().Text() + sub.Token().Pos()
		}
	}
	if end != len(x) {
		w.t.Fatalf("the segments of %q end at byte %d%s", x, end, w.t.steps())
	}
	gse.ToString(segs, true)
	gse.ToSlice(segs, true)
	gse.ToPos(segs, true)
	gse.ToString(segs)
}

func c25history(t *T) {
	w := newAnyWorld(t)
	seen := map[string]bool{}
	prev := ""
	for k := 10 + t.Intn(40); k > 0; k-- {
		ops := uses
		if t.Intn(2) == 0 {
			ops = edits
		}
		op := pick(t, ops)
		op.run(w)
		t.Count("operations", 1)
		if !seen[prev+">"+op.name] {
			seen[prev+">"+op.name] = true
			t.Sig(prev, op.name)
		}
		prev = op.name
	}
	t.Sig(t.seed)
	t.Nontrivial()
	t.Sample(map[string]any{"last steps": t.doing})
}

// c25texts runs every text operation on many texts with one hostile dictionary.
func c25texts(t *T) {
	w := newAnyWorld(t)
	for k := 2 + t.Intn(10); k > 0; k-- {
		x, f := w.word(), w.freq()
		t.Doing("AddToken(%q, %v)", x, f)
		w.seg.AddToken(x, f, "n")
	}
	if t.Intn(4) > 0 {
		t.Doing("CalcToken()")
		w.seg.CalcToken()
	}
	w.seg.AlphaNum, w.seg.Alpha, w.seg.Num = t.Intn(3) == 0, t.Intn(3) == 0, t.Intn(3) == 0
	t.Doing("options %+v", optText(w.seg))
	w.tag.WithGse(*w.seg)
	w.ex.WithGse(*w.seg)
	w.rank.WithGse(*w.seg)
	for k := 0; k < 3; k++ {
		for _, op := range uses {
			op.run(w)
			t.Count("operations", 1)
		}
		t.Sig(t.seed, k)
		t.Nontrivial()
		t.Eval()
	}
	t.Sample(map[string]any{"last steps": t.doing})
}

// c25long: long runs of everything.
func c25long(t *T) {
	seg := newSeg(Opt{Lower: gse.ToLower})
	seg.LoadDictStr("中国 30 ns\n中国人 20 n\n人民 40 n\naa 5 n\n11 6 m\n" + strings.Repeat("中", 60) + " 3 n\n")
	n := 1000 + t.Intn(4000)
	unit := pick(t, []string{"a", "1", "é", "中", "国", "中国人", "龘", "あ", "한", " ", "\n", "，", ".", "😀", "\xff", "\x00", "a ", "1.", "a1", "中a", "<", "<b>", "A", "ß", "\u0301", "\u3000", "%", "a中1，"})
	text := strings.Repeat(unit, n)
	if t.Intn(4) == 0 {
		text += "中国"
	}
	t.Doing("%d times %q", n, unit)
	var tagger pos.Segmenter
	tagger.WithGse(*seg)
	var ex idf.TagExtracter
	ex.WithGse(*seg)
	join := func(name string, l []string) {
		if got := strings.Join(l, ""); len([]rune(got)) != len([]rune(text)) {
			t.Fatalf("%s of %d times %q has %d characters", name, n, unit, len([]rune(got)))
		}
	}
	join("Cut", seg.Cut(text))
	join("Cut(false)", seg.Cut(text, false))
	join("Cut(true)", seg.Cut(text, true))
	seg.CutAll(text)
	seg.CutSearch(text, true)
	seg.Slice(text, true)
	join("HMMCut", seg.HMMCut(text))
	seg.CutTrimHtml(text)
	seg.CutUrl(text)
	gse.FilterSymbol(text)
	gse.Range(text)
	if unit != "龘" && unit != "한" { // the tagger takes 65536 steps per unknown character
		tagger.Cut(text[:min(len(text), 3000)/len(unit)*len(unit)], true)
	}
	tagger.Cut(text, false)
	ex.ExtractTags(text, 5)
	t.Count("long texts", 1)
	t.Sig(unit, n)
	t.Nontrivial()
	t.Sample(map[string]any{"text": fmt.Sprintf("%d times %q", n, unit)})
}

// c25models: odd user models. The model is the process's own, so this is serial.
func c25models(t *T) {
	defer hmm.LoadModel()
	w := newAnyWorld(t)
	mk := func() map[rune]float64 {
		if t.Intn(4) == 0 {
			return nil
		}
		m := map[rune]float64{}
		for k := t.Intn(5); k > 0; k-- {
			m[pick(t, w.g.han)] = pick(t, []float64{0, -1, -5, 3, math.NaN(), math.Inf(1), math.Inf(-1), -3.14e100, -1e308})
		}
		return m
	}
	for k := 0; k < 5; k++ {
		var ms []map[rune]float64
		for n := t.Intn(6); n > 0; n-- {
			ms = append(ms, mk())
		}
		t.Doing("LoadModel(%v)", ms)
		w.seg.LoadModel(ms...)
		x := w.text()
		t.Doing("HMMCut(%q)", x)
		w.seg.HMMCut(x)
		w.seg.HMMCutMod(x, ms...)
		hmm.Viterbi([]rune(x), []byte{'B', 'M', 'E', 'S'})
		w.seg.LoadDictStr(w.dictText())
		w.seg.Cut(x, true)
		t.Sig(k, x)
		t.Nontrivial()
		t.Count("odd models used", 1)
		t.Eval()
	}
}

func init() {
	register(&Prop{ID: "C25",
		Rule: "histories: 10-49 random operations (loads of malformed sources, edits with every kind of word and frequency incl. 0, negative, NaN, infinite, option changes, emptying, stop words, attaching taggers and extractors; every text operation and package function) on one set of objects in any state, from the zero value on; texts: every text operation three times on a segmenter with 2-11 hostile words; long texts: thousands of repetitions of one unit through every cut; odd models: user HMM models with missing, NaN and infinite entries. " +
			"Any panic, or a case that takes many times the processor time or memory of the others, is a violation; distinct by history",
		Kinds: []Kind{
			{Name: "histories", Quick: 8000, Thorough: 400000, Run: c25history},
			lowerOff("histories", 500, 20000, c25history),
			everyChars(256, func(t *T, _ bool) { c25history(t) }),
			{Name: "texts", Quick: 2000, Thorough: 80000, Run: c25texts},
			{Name: "long texts", Quick: 60, Thorough: 1500, Run: c25long},
			{Name: "odd models", Quick: 100, Thorough: 4000, Serial: true, Run: c25models},
		}})
}
