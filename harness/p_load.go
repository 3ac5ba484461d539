package main

// C12 (loading routes), C13 (faults while loading), C14 (accumulation).

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"testing/iotest"
	"unicode/utf8"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm/pos"
)

// Line is a line of a dictionary source as a list of fields.
type Line []string

// loadOpt are the options that decide which lines count.
type loadOpt struct {
	Opt
	Sep      string
	NoFreq   bool
	Min      float64
	TextFreq string
	MoreLog  bool
}

func (o loadOpt) seg() *gse.Segmenter {
	s := newSeg(o.Opt)
	s.DictSep, s.LoadNoFreq, s.MinTokenFreq, s.TextFreq = o.Sep, o.NoFreq, o.Min, o.TextFreq
	s.NotLoadHMM = true
	// what is logged changes nothing
	s.MoreLog, s.SkipLog = o.MoreLog, !o.MoreLog
	return s
}

// use tells whether a line counts, and as which entry.
func (o loadOpt) use(l Line) (Entry, bool) {
	if len(l) == 0 || l[0] == "" {
		return Entry{}, false
	}
	freq := ""
	switch {
	case len(l) > 1:
		freq = l[1]
	case o.NoFreq:
		freq = o.TextFreq
		if freq == "" {
			freq = "2"
		}
	default:
		return Entry{}, false
	}
	f, err := strconv.ParseFloat(freq, 64)
	least := o.Min
	if least == 0 {
		least = 2
	}
	if err != nil || math.IsNaN(f) || math.IsInf(f, 0) || f < least {
		return Entry{}, false
	}
	if utf8.RuneCountInString(l[0]) < 2 {
		f = 2
	}
	e := Entry{Word: l[0], Freq: f}
	if len(l) > 2 {
		e.Pos = l[2]
	}
	return e, true
}

func (o loadOpt) model(ls []Line) *RefDict {
	ref := newRef(o.Opt)
	for _, l := range ls {
		if e, ok := o.use(l); ok {
			ref.Add(e)
		}
	}
	return ref
}

func (o loadOpt) text(ls []Line, eol string, final bool) string {
	var b strings.Builder
	for i, l := range ls {
		b.WriteString(strings.Join(l, o.Sep+" "))
		if i < len(ls)-1 || final {
			b.WriteString(eol)
		}
	}
	return b.String()
}

func (o loadOpt) maps(ls []Line) []map[string]string {
	var ms []map[string]string
	for _, l := range ls {
		m := map[string]string{}
		for i, k := range []string{"text", "freq", "pos"} {
			if i < len(l) {
				m[k] = l[i]
			}
		}
		ms = append(ms, m)
	}
	return ms
}

// compareDict checks a dictionary word by word.
func compareDict(seg *gse.Segmenter, ref *RefDict, probes []string) error {
	if n := seg.Dict.NumTokens(); n != len(ref.m) {
		var have []string
		if seg.Dict != nil {
			for i := range seg.Dict.Tokens {
				have = append(have, seg.Dict.Tokens[i].Text())
			}
		}
		if len(have) > 60 {
			have = have[:60]
		}
		return fmt.Errorf("the dictionary has %d words, the sources %d; it has %q", n, len(ref.m), have)
	}
	if f := seg.Dict.TotalFreq(); !close9(f, ref.total) {
		return fmt.Errorf("the total frequency is %v, the sources sum to %v", f, ref.total)
	}
	for c, e := range ref.m {
		f, p, ok := seg.Find(c)
		if !ok || f != e.Freq || p != e.Pos {
			return fmt.Errorf("Find(%q) = %v, %q, %v; the sources have %v, %q", clip(c), f, p, ok, e.Freq, e.Pos)
		}
	}
	for _, w := range probes {
		if _, ok := ref.m[w]; ok {
			continue
		}
		if f, p, _ := seg.Find(w); f != 0 || p != "" {
			return fmt.Errorf("Find(%q) = %v, %q; no source has it", clip(w), f, p)
		}
	}
	return nil
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "…"
	}
	return s
}

// anyReader wraps a source in readers that return bytes in odd portions.
func anyReader(t *T, r io.Reader) *bufio.Reader {
	switch t.Intn(6) {
	case 0:
		r = iotest.OneByteReader(r)
	case 1:
		r = iotest.HalfReader(r)
	case 2:
		r = iotest.DataErrReader(r)
	case 3:
		r = iotest.DataErrReader(iotest.OneByteReader(r))
	}
	return bufio.NewReaderSize(r, pick(t, []int{16, 64, 4096, 1 << 16}))
}

// routes by which a list of lines can be loaded
const (
	viaFile = iota
	viaReader
	viaStr
	viaMap
	viaEmbed
	viaRead
	viaRoutes
)

var routeNames = []string{"LoadDict(file)", "Reader", "LoadDictStr", "LoadDictMap", "LoadDictEmbed", "Read(file)"}

// writeScratch writes a file. Its name may be one that a removed file had.
func writeScratch(data string) string {
	n := <-fileCount
	fileCount <- n + 1
	f := filepath.Join(tmpDir, fmt.Sprintf("r%d-%d.txt", os.Getpid(), n%64))
	if w, err := os.OpenFile(f, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0o644); err == nil {
		if _, err := w.WriteString(data); err != nil {
			panic(err)
		}
		w.Close()
		return f
	}
	f = scratch(".txt")
	if err := os.WriteFile(f, []byte(data), 0o644); err != nil {
		panic(err)
	}
	return f
}

// load loads lines into seg by a route.
func (o loadOpt) load(t *T, seg *gse.Segmenter, ls []Line, route int, eol string, final bool) error {
	text := o.text(ls, eol, final)
	switch route {
	case viaFile, viaRead:
		f := writeScratch(text)
		defer os.Remove(f)
		if route == viaRead {
			return seg.Read(f)
		}
		return seg.LoadDict(f)
	case viaReader:
		if t.Intn(2) == 0 {
			return seg.Reader(anyReader(t, strings.NewReader(text)))
		}
		return seg.Reader(anyReader(t, strings.NewReader(text)), "test")
	case viaStr:
		return seg.LoadDictStr(text)
	case viaEmbed:
		return seg.LoadDictEmbed(text)
	}
	return seg.LoadDictMap(o.maps(ls))
}

func (t *T) loadOpt() loadOpt {
	o := loadOpt{Opt: t.opt()}
	if t.Intn(2) == 0 {
		o.Sep = pick(t, []string{",", ";", "|", "::", "\t"})
	}
	o.NoFreq = t.Intn(3) == 0
	if t.Intn(3) == 0 {
		o.Min = pick(t, []float64{0.5, 1, 3, 10, 100})
	}
	if t.Intn(3) == 0 {
		o.TextFreq = pick(t, []string{"1", "3", "7.5", "100"})
	}
	o.MoreLog = t.Intn(4) == 0
	return o
}

// lines makes a source. Its words hold no whitespace unless a separator allows it.
func (o loadOpt) lines(t *T, g *Gen, n int) []Line {
	var ls []Line
	word := func() string {
		for {
			w := pick(t, g.words).Word
			if t.Intn(5) == 0 {
				w = strings.ToUpper(w)
			}
			if o.Sep != "" && t.Intn(4) == 0 {
				w += " " + pick(t, g.words).Word
			}
			if o.Sep == "" || !strings.Contains(w, o.Sep) {
				return w
			}
		}
	}
	for ; n > 0; n-- {
		f := fnum(t.freq(t.Intn(freqModes)))
		switch t.Intn(20) {
		case 0:
			f = pick(t, []string{"1e3", "2", "1.99", "2.0000001", "0", "1", "0.5", "100", "+3", "3."})
		case 1:
			f = pick(t, []string{"abc", "-5", "NaN", "nan", "Inf", "+Inf", "-inf", "infinity", "1e999", "ten", "1,5", "５"})
		}
		w := word()
		if t.Intn(1500) == 0 {
			w = strings.Repeat(w, 1+20000/len(w))
		}
		if t.Intn(40) == 0 { // no word
			k := t.Intn(len(w) + 1)
			w = w[:k] + "\x00" + w[k:]
		}
		switch t.Intn(12) {
		case 0:
			ls = append(ls, Line{w})
		case 1:
			ls = append(ls, Line{w, f})
		case 2:
			if t.Intn(2) == 0 {
				ls = append(ls, Line{})
			} else {
				ls = append(ls, Line{w, f, "n", "extra"})
			}
		default:
			ls = append(ls, Line{w, f, pick(t, []string{"n", "v", "ns", "nz", "eng", "x1", "Ng", "VN", "名詞", "É", "ǅ", "a-b", "\xff", "n\x00", "%d"})})
		}
	}
	return ls
}

func (o loadOpt) String() string {
	return fmt.Sprintf("%+v separator %q LoadNoFreq %v MinTokenFreq %v TextFreq %q", o.Opt, o.Sep, o.NoFreq, o.Min, o.TextFreq)
}

// manyLines makes a source of n lines, nearly all of different words.
func (o loadOpt) manyLines(t *T, g *Gen, n int) []Line {
	ls := make([]Line, 0, n)
	for i := 0; i < n; i++ {
		switch t.Intn(200) {
		case 0:
			ls = append(ls, o.lines(t, g, 1)...)
		case 1:
			if i > 0 {
				ls = append(ls, ls[t.Intn(i)])
				continue
			}
		}
		// two or three characters that tell the number
		r := []rune{rune(0x4e00 + i%600), rune(0x5200 + i/600%600)}
		if i >= 360000 || i%7 == 0 {
			r = append(r, rune(0x5600+i/360000))
		}
		if i%11 == 0 {
			r = append([]rune(t.class("latin")), r...)
		}
		ls = append(ls, Line{string(r), fnum(float64(2 + t.Intn(9000))), pick(t, posTags[:9])})
	}
	return ls
}

func c12(t *T) { c12source(t, 0) }

// c12many: sources of more lines than any counter in between may hold.
func c12many(t *T) { c12source(t, pick(t, []int{70000, 140000, 270000})+t.Intn(5000)) }

func c12source(t *T, many int) {
	g := newGen(t, false)
	o := t.loadOpt()
	g.vocab(3+t.Intn(25), freqSmall, func(w string) bool {
		return plainWord(w) && !strings.ContainsAny(w, ",;|:")
	})
	ls := o.lines(t, g, 1+t.Intn(30))
	if t.Intn(40) == 0 { // longer than any buffer in between
		ls = append(ls, o.lines(t, g, 400+t.Intn(400))...)
	}
	if many > 0 {
		ls = o.manyLines(t, g, many)
	}
	ref := o.model(ls)
	var probes []string
	for _, l := range ls {
		if len(l) > 0 && l[0] != "" {
			probes = append(probes, ref.canon(l[0]))
		}
		for i := 1; i < len(l); i++ {
			probes = append(probes, l[i])
		}
	}
	probes = append(probes, "test", "\r", " ")
	t.Base(o, ls)
	var first *gse.Segmenter
	var firstName string
	text := g.text(8)
	routes := t.Perm(viaRoutes)[:4]
	if many > 0 {
		routes = routes[:2]
	}
	for _, r := range routes {
		if r == viaEmbed && strings.Contains(o.text(ls, "", false), ", ") {
			r = viaStr // would be split at ", "
		}
		eol, final := pick(t, []string{"\n", "\n", "\r\n"}), t.Intn(2) == 0
		seg := o.seg()
		name := fmt.Sprintf("%s (line ends %q, final %v)", routeNames[r], eol, final)
		if err := o.load(t, seg, ls, r, eol, final); err != nil {
			t.Fatalf("%s: %v; options %v; source %q", name, err, o, clip2(o.text(ls, eol, final)))
		}
		if err := compareDict(seg, ref, probes); err != nil {
			t.Fatalf("%s: %v; options %v; source %q", name, err, o, clip2(o.text(ls, eol, final)))
		}
		if r == viaReader || r == viaRead {
			seg.CalcToken()
		}
		if first == nil {
			first, firstName = seg, name
		} else if len(ref.m) > 0 {
			a, b := first.Slice(text, true), seg.Slice(text, true)
			if !eqStrings(a, b) {
				t.Fatalf("text %q: %s gives %q, %s gives %q; options %v; source %q", text, firstName, a, name, b, o, clip2(o.text(ls, eol, final)))
			}
		}
		t.Sig(r, eol, final)
		if len(ref.m) > 1 {
			t.Nontrivial()
			t.Sample(map[string]any{"route": name, "options": o.String(), "source": clip2(o.text(ls, eol, final)), "words": len(ref.m)})
		}
		t.Count("loads by "+routeNames[r], 1)
		t.Count("lines used", len(ref.m))
		t.Count("lines skipped", len(ls)-len(ref.m))
		t.Eval()
	}
}

func clip2(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "…"
	}
	return s
}

// ---- C13 ------------------------------------------------------------------

var errFault = errors.New("injected I/O error")

// faultReader returns the first n bytes of a text in portions, then an error.
type faultReader struct {
	text string
	n    int
	at   int
	step int
	err  error
	with bool // return the error together with the last bytes
}

func (f *faultReader) Read(p []byte) (int, error) {
	k := min(len(p), f.step, f.n-f.at)
	copy(p, f.text[f.at:f.at+k])
	f.at += k
	if f.at == f.n && (k == 0 || f.with) {
		return k, f.err
	}
	return k, nil
}

// stuckReader returns nothing for ever after n bytes.
type stuckReader struct {
	r io.Reader
}

func (s stuckReader) Read(p []byte) (int, error) {
	n, err := s.r.Read(p)
	if err != nil {
		return n, nil
	}
	return n, nil
}

func c13reader(t *T) {
	g := newGen(t, false)
	o := t.loadOpt()
	g.vocab(3+t.Intn(12), freqSmall, func(w string) bool {
		return plainWord(w) && !strings.ContainsAny(w, ",;|:")
	})
	ls := o.lines(t, g, 2+t.Intn(15))
	if t.Intn(150) == 0 {
		ls = o.manyLines(t, g, 300+t.Intn(6000))
	}
	eol := pick(t, []string{"\n", "\r\n"})
	text := o.text(ls, eol, true)
	n := t.Intn(len(text) + 1)
	if t.Intn(4) == 0 { // at a line end
		n = strings.Index(text[n:], "\n") + 1 + n
	}
	// the lines that were complete before the fault
	done := strings.Count(text[:n], "\n")
	ref := o.model(ls[:done])
	t.Base(o, ls)
	seg := o.seg()
	fr := &faultReader{text: text, n: n, step: pick(t, []int{1, 3, 17, 4096}), err: pick(t, []error{errFault, io.ErrUnexpectedEOF, os.ErrDeadlineExceeded, io.ErrClosedPipe}), with: t.Intn(2) == 0}
	var r io.Reader = fr
	want := fr.err
	if t.Intn(8) == 0 {
		r, want = stuckReader{fr}, io.ErrNoProgress
	}
	err := seg.Reader(bufio.NewReaderSize(r, pick(t, []int{16, 256, 4096})), "faulty")
	desc := func() string {
		return fmt.Sprintf("the source fails (%v) after %d of %d bytes; options %v; source up to the fault %q", want, n, len(text), o, text[:n])
	}
	if err == nil {
		t.Fatalf("Reader reports success although %s", desc())
	}
	if !errors.Is(err, want) {
		t.Count("errors that are not the source's own", 1)
	}
	var probes []string
	for _, l := range ls {
		if len(l) > 0 && l[0] != "" {
			probes = append(probes, ref.canon(l[0]))
		}
	}
	if e := compareDict(seg, ref, probes); e != nil {
		t.Fatalf("after a failed load: %v; %s", e, desc())
	}
	// again, now that the source can be read
	if e := seg.Reader(anyReader(t, strings.NewReader(text)), "repaired"); e != nil {
		t.Fatalf("loading again: %v; %s", e, desc())
	}
	if e := compareDict(seg, o.model(ls), probes); e != nil {
		t.Fatalf("after loading again: %v; %s", e, desc())
	}
	t.Sig(n, fr.step)
	if done > 0 && done < len(ls) {
		t.Nontrivial()
		t.Sample(map[string]any{"case": desc(), "words before the fault": len(ref.m)})
	}
	t.Count("faults injected inside a line", b2i(n > 0 && text[n-1] != '\n'))
	t.Count("faults injected between lines", b2i(n == 0 || text[n-1] == '\n'))
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// badPaths are names that cannot be read as a dictionary.
func badPath(t *T) (string, string) {
	switch t.Intn(4) {
	case 0:
		return scratch(".missing"), "missing"
	case 1:
		d := scratch(".dir")
		if err := os.Mkdir(d, 0o755); err != nil {
			panic(err)
		}
		return d, "a directory"
	case 2:
		return filepath.Join(scratch(".missing"), "dict.txt"), "below a missing directory"
	}
	f := writeScratch("x 10 n\n")
	return f + "/dict.txt", "below a file"
}

func c13files(t *T) {
	g := newGen(t, false)
	o := t.loadOpt()
	o.Sep = ""
	g.vocab(6+t.Intn(12), freqSmall, func(w string) bool { return plainWord(w) })
	// files, one of which is bad
	nf := 1 + t.Intn(3)
	bad := t.Intn(nf)
	var names []string
	var lists [][]Line
	badName, what := badPath(t)
	defer os.RemoveAll(badName)
	for i := 0; i < nf; i++ {
		if i == bad {
			names = append(names, badName)
			lists = append(lists, nil)
			continue
		}
		ls := o.lines(t, g, 1+t.Intn(10))
		f := writeScratch(o.text(ls, "\n", true))
		defer os.Remove(f)
		names, lists = append(names, f), append(lists, ls)
	}
	sep := pick(t, []string{",", ", "})
	seg := o.seg()
	var before []Line
	if t.Intn(2) == 0 { // there are words already
		before = o.lines(t, g, 1+t.Intn(5))
		if err := seg.LoadDictStr(o.text(before, "\n", true)); err != nil {
			t.Fatalf("LoadDictStr: %v", err)
		}
	}
	call := t.Intn(4)
	if nf > 1 {
		call = t.Intn(2)
	}
	desc := func() string {
		return fmt.Sprintf("files %q (number %d is %s) joined by %q; options %v", names, bad+1, what, sep, o)
	}
	var err error
	switch call {
	case 0:
		err = seg.LoadDict(strings.Join(names, sep))
	case 1:
		var tagger pos.Segmenter
		tagger.WithGse(*seg)
		if e := tagger.LoadDict(strings.Join(names, sep)); e == nil {
			t.Fatalf("the tagger's LoadDict reports success: %s", desc())
		}
		err = seg.LoadDict(strings.Join(names, sep))
	case 2:
		err = seg.Read(names[0])
	case 3:
		var s gse.Segmenter
		s, err = newQuiet(names[0])
		_ = s
		if err == nil {
			t.Fatalf("New reports success: %s", desc())
		}
		err = seg.LoadDict(names[0])
	}
	if err == nil {
		t.Fatalf("the load reports success: %s", desc())
	}
	all := append([]Line{}, before...)
	for _, l := range lists[:bad] {
		all = append(all, l...)
	}
	if e := compareDict(seg, o.model(all), nil); e != nil {
		t.Fatalf("after a failed load: %v; %s", e, desc())
	}
	// the file appears
	os.RemoveAll(badName)
	if what == "missing" || what == "a directory" {
		lists[bad] = o.lines(t, g, 1+t.Intn(6))
		if err := os.WriteFile(badName, []byte(o.text(lists[bad], "\n", true)), 0o644); err != nil {
			panic(err)
		}
		if err := seg.LoadDict(strings.Join(names, sep)); err != nil {
			t.Fatalf("loading again: %v; %s", err, desc())
		}
		all = append([]Line{}, before...)
		for _, l := range lists {
			all = append(all, l...)
		}
		ref := o.model(all)
		if e := compareDict(seg, ref, nil); e != nil {
			t.Fatalf("after loading again: %v; %s", e, desc())
		}
		if len(ref.m) > 0 {
			other, _ := fresh(t, ref)
			other.Init()
			text := g.text(10)
			if a, b := seg.Slice(text, true), other.Slice(text, true); !eqStrings(a, b) {
				t.Fatalf("after loading again %q is cut into %q, a fresh segmenter cuts it into %q; %s", text, a, b, desc())
			}
		}
	}
	t.Sig(names, lists, sep)
	t.Nontrivial()
	t.Count("loads with a source that is "+what, 1)
	t.Sample(map[string]any{"case": desc(), "error": err.Error()})
}

func newQuiet(file string) (gse.Segmenter, error) { return gse.New(file) }

func c13stop(t *T) {
	g := newGen(t, false)
	g.vocab(3+t.Intn(10), freqSmall, plainWord)
	var words []string
	for _, e := range g.words {
		words = append(words, e.Word)
	}
	good := writeScratch(strings.Join(words, "\n"))
	defer os.Remove(good)
	badName, what := badPath(t)
	defer os.RemoveAll(badName)
	seg := newSeg(Opt{Lower: gse.ToLower})
	list := badName
	first := t.Intn(2) == 0
	if first {
		list = good + ", " + badName
	} else if t.Intn(2) == 0 {
		list = badName + ", " + good
	}
	if t.Intn(3) == 0 {
		// a line no reader of lines can hold: whatever happens, no word of the
		// file may be missing without an error
		long := words[0] + "\n" + strings.Repeat("长", 1<<16) + "\n" + words[1]
		f := writeScratch(long)
		defer os.Remove(f)
		err := seg.LoadStop(f)
		if err == nil && !(seg.IsStop(words[0]) && seg.IsStop(words[1])) {
			t.Fatalf("LoadStop reports success for a file with a line of %d bytes; words before and after it are stop words: %v %v", 3<<16, seg.IsStop(words[0]), seg.IsStop(words[1]))
		}
		t.Count("stop-word files with an overlong line", 1)
	} else {
		if err := seg.LoadStop(list); err == nil {
			t.Fatalf("LoadStop(%q) reports success; %q is %s", list, badName, what)
		}
		for _, w := range words {
			if first && !seg.IsStop(w) {
				t.Fatalf("LoadStop(%q): %q of the file read before the fault is missing", list, w)
			}
		}
		t.Count("stop-word loads with a source that is "+what, 1)
	}
	if err := seg.LoadStop(good); err != nil {
		t.Fatalf("LoadStop of a good file: %v", err)
	}
	for _, w := range words {
		if !seg.IsStop(w) {
			t.Fatalf("%q is not a stop word after loading its file", w)
		}
	}
	t.Sig(words, what, first)
	t.Nontrivial()
	t.Sample(map[string]any{"list": list, "bad": what})
}

// c13world: the dictionaries and stop words that are loaded by name, or by
// default, when one of their files cannot be read.
func c13world(t *T) {
	g := newGen(t, false)
	o := t.loadOpt()
	o.Sep = ""
	g.vocab(6+t.Intn(12), freqSmall, func(w string) bool { return plainWord(w) })
	w := o.world(t, g)
	defer os.RemoveAll(w.dir)
	files := []string{"dict/zh/s_1.txt", "dict/zh/t_1.txt", "dict/jp/dict.txt", "dict/zh/stop_word.txt", "dict/zh/stop_tokens.txt"}
	stop := []string{}
	for _, e := range g.words {
		stop = append(stop, e.Word)
	}
	for _, f := range files[3:] {
		if err := os.WriteFile(filepath.Join(w.dir, "data", f), []byte(strings.Join(stop, "\n")), 0o644); err != nil {
			panic(err)
		}
	}
	bad := pick(t, files)
	badPath, what := filepath.Join(w.dir, "data", bad), "missing"
	if err := os.Remove(badPath); err != nil {
		panic(err)
	}
	if t.Intn(2) == 0 {
		what = "a directory"
		if err := os.Mkdir(badPath, 0o755); err != nil {
			panic(err)
		}
	}
	seg := o.seg()
	seg.DictPath = filepath.Join(w.dir, "here.go")
	t.Base(g.words, bad, what)
	t.Sample(map[string]any{"file": bad, "what": what})
	uses := map[string][]string{"": files[:2], "zh": files[:2], "zh_s": files[:1], "zh_t": files[1:2], "jp": files[2:3], "ja": files[2:3], "zh,jp": files[:3], "jp, zh_t": files[1:3]}
	for _, name := range []string{"", "zh", "zh_s", "zh_t", "jp", "ja", "zh,jp", "jp, zh_t"} {
		seg.Empty()
		load := func() error {
			if name == "" {
				return seg.LoadDict()
			}
			return seg.LoadDict(name)
		}
		if err, used := load(), slices.Contains(uses[name], bad); (err != nil) != used {
			t.Fatalf("LoadDict(%q) with %s %s gives the error %v; it needs %q", name, bad, what, err, uses[name])
		}
		t.Count("dictionaries loaded by name with a bad file among them", 1)
		t.Sig(name)
		t.Nontrivial()
		t.Eval()
	}
	for _, arg := range []string{"", "zh"} {
		need, l := files[3], []string{}
		if arg == "zh" {
			need, l = files[4], []string{"zh"}
		}
		seg.EmptyStop()
		err := seg.LoadStop(l...)
		if (err != nil) != (need == bad) {
			t.Fatalf("LoadStop(%q) with %s %s gives the error %v; it needs %s", l, bad, what, err, need)
		}
		for _, word := range stop {
			if err == nil && !seg.IsStop(word) {
				t.Fatalf("LoadStop(%q) reports success and %q of %s is not a stop word", l, word, need)
			}
		}
		t.Count("stop words loaded by name with a bad file among them", 1)
		t.Sig(arg)
		t.Nontrivial()
		t.Eval()
	}
}

// c13real uses files of the system that open but fail on reading.
func c13real(t *T) {
	f := pick(t, []string{"/proc/self/mem", "/proc/self/attr/current", "/proc/self/clear_refs"})
	fd, err := os.Open(f)
	if err != nil {
		return
	}
	_, err = fd.Read(make([]byte, 16))
	fd.Close()
	if err == nil || err == io.EOF {
		return
	}
	seg := newSeg(Opt{Lower: gse.ToLower})
	if e := seg.LoadDict(f); e == nil {
		t.Fatalf("LoadDict(%q) reports success; reading it gives %v", f, err)
	}
	if e := seg.LoadStop(f); e == nil {
		t.Fatalf("LoadStop(%q) reports success; reading it gives %v", f, err)
	}
	if seg.Dict.NumTokens() != 0 {
		t.Fatalf("words were read from %q", f)
	}
	t.Sig(f)
	t.Nontrivial()
	t.Count("system files whose reads fail", 1)
}

// ---- C14 ------------------------------------------------------------------

// world is a data directory of its own for the names zh, zh_s, zh_t, jp and ja.
type world struct {
	dir string
	src map[string][]Line // by name of the file
}

func (o loadOpt) world(t *T, g *Gen) *world {
	w := &world{dir: scratch(".world"), src: map[string][]Line{}}
	for _, f := range []string{"dict/zh/s_1.txt", "dict/zh/t_1.txt", "dict/jp/dict.txt"} {
		p := filepath.Join(w.dir, "data", f)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			panic(err)
		}
		w.src[f] = o.lines(t, g, 1+t.Intn(8))
		if err := os.WriteFile(p, []byte(o.text(w.src[f], "\n", true)), 0o644); err != nil {
			panic(err)
		}
	}
	return w
}

func c14(t *T) {
	g := newGen(t, false)
	o := t.loadOpt()
	o.Sep = pick(t, []string{"", "", "|"})
	g.vocab(4+t.Intn(20), freqSmall, func(w string) bool { return plainWord(w) && !strings.Contains(w, "|") })
	w := o.world(t, g)
	defer os.RemoveAll(w.dir)
	zs, zt, jp := w.src["dict/zh/s_1.txt"], w.src["dict/zh/t_1.txt"], w.src["dict/jp/dict.txt"]
	seg := o.seg()
	seg.DictPath = filepath.Join(w.dir, "here.go")
	seg.NotLoadHMM = false
	// the sources in order; alternatives where the property leaves an order open
	var alts [][]Line
	empty := func() { alts = [][]Line{nil} }
	empty()
	then := func(opts ...[]Line) {
		var out [][]Line
		for _, a := range alts {
			for _, o := range opts {
				out = append(out, append(append([]Line{}, a...), o...))
			}
		}
		alts = out
	}
	cat := func(a, b []Line) []Line { return append(append([]Line{}, a...), b...) }
	var log []string
	note := func(f string, a ...any) { log = append(log, fmt.Sprintf(f, a...)) }
	history := func() string { return strings.Join(log, "; ") }
	check := func() {
		var errs []string
		for _, a := range alts {
			ref := o.model(a)
			err := compareDict(seg, ref, nil)
			if err == nil {
				t.Count("dictionaries compared word by word", 1)
				text := g.text(8)
				if len(ref.m) == 0 {
					return
				}
				t.Sig(log, text)
				if len(log) > 2 {
					t.Nontrivial()
					t.Sample(map[string]any{"options": o.String(), "history": history(), "words": len(ref.m)})
				}
				other, _ := fresh(t, ref)
				if diff := sameObservation(observe(seg, text), observe(other, text)); diff != "" {
					t.Fatalf("text %q: after the loads, and on a fresh segmenter with the same words: %s; options %v; history: %s", text, diff, o, history())
				}
				return
			}
			errs = append(errs, err.Error())
		}
		t.Fatalf("%s; options %v; history: %s", strings.Join(errs, " / "), o, history())
	}
	clear := func() { // after Empty, or for a segmenter that was never loaded
		if seg.Dict != nil {
			return
		}
		for _, wd := range g.words {
			f, p, ok := seg.Find(wd.Word)
			if _, _, err := seg.Value(wd.Word); f != 0 || p != "" || ok || err == nil {
				t.Fatalf("a segmenter without a dictionary finds %q; history: %s", wd.Word, history())
			}
		}
		text := g.text(5)
		for name, l := range map[string][]string{"Cut": seg.Cut(text), "CutSearch": seg.CutSearch(text)} {
			for _, p := range l {
				if !strings.Contains(newRef(o.Opt).canon(text), p) {
					t.Fatalf("%s(%q) of a segmenter without a dictionary gives %q; history: %s", name, text, l, history())
				}
			}
		}
		want := text
		if gse.ToLower {
			want = strings.ToLower(text)
		}
		for name, l := range map[string][]string{"Cut(false)": seg.Cut(text, false), "Cut(true)": seg.Cut(text, true)} {
			if strings.Join(l, "") != string([]rune(want)) {
				t.Fatalf("%s(%q) of a segmenter without a dictionary gives %q; history: %s", name, text, l, history())
			}
		}
		seg.CutAll(text)
		seg.Pos(text, true)
		t.Count("segmenters without a dictionary used", 1)
	}
	clear()
	for n := 3 + t.Intn(8); n > 0; n-- {
		switch t.Intn(14) {
		case 0, 1, 2, 3: // one source by any route
			ls := o.lines(t, g, 1+t.Intn(8))
			r := t.Intn(viaRoutes)
			if r == viaEmbed && (o.Sep == "," || strings.Contains(o.text(ls, "", false), ", ")) {
				r = viaStr
			}
			note("%s %q", routeNames[r], ls)
			if err := o.load(t, seg, ls, r, "\n", t.Intn(2) == 0); err != nil {
				t.Fatalf("%v; history: %s", err, history())
			}
			then(ls)
			if r == viaReader || r == viaRead {
				seg.CalcToken()
			}
		case 4, 5: // several files in one call
			var names []string
			var all []Line
			for k := 2 + t.Intn(3); k > 0; k-- {
				ls := o.lines(t, g, 1+t.Intn(5))
				f := writeScratch(o.text(ls, "\n", t.Intn(2) == 0))
				defer os.Remove(f)
				names, all = append(names, f), append(all, ls...)
			}
			sep := pick(t, []string{",", ", "})
			if t.Intn(4) == 0 { // names that are left out
				k := t.Intn(len(names) + 1)
				names = append(names[:k:k], append([]string{""}, names[k:]...)...)
				t.Count("loads of several files with an empty name", 1)
			}
			note("LoadDict(%d files joined by %q, %q) %q", len(names), sep, names, all)
			if err := seg.LoadDict(strings.Join(names, sep)); err != nil {
				t.Fatalf("%v; history: %s", err, history())
			}
			then(all)
		case 12: // several names and files in one call
			var parts []string
			sep := pick(t, []string{",", ", "})
			var all []Line
			variants := [][]Line{nil}
			for k := 2 + t.Intn(3); k > 0; k-- {
				name := pick(t, []string{"zh", "zh_s", "zh_t", "jp", "ja", "file", "file"})
				var next [][]Line
				switch name {
				case "zh":
					next = [][]Line{cat(zs, zt), cat(zt, zs)}
				case "zh_s":
					next = [][]Line{zs}
				case "zh_t":
					next = [][]Line{zt}
				case "jp", "ja":
					next = [][]Line{jp}
				default:
					ls := o.lines(t, g, 1+t.Intn(4))
					name = writeScratch(o.text(ls, "\n", t.Intn(2) == 0))
					defer os.Remove(name)
					next = [][]Line{ls}
					all = append(all, ls...)
				}
				var out [][]Line
				for _, v := range variants {
					for _, x := range next {
						out = append(out, cat(v, x))
					}
				}
				variants = out
				parts = append(parts, name)
			}
			arg := strings.Join(parts, sep)
			note("LoadDict(%q) s_1 %q t_1 %q jp %q files %q", arg, zs, zt, jp, all)
			if err := seg.LoadDict(arg); err != nil {
				t.Fatalf("%v; history: %s", err, history())
			}
			then(variants...)
			t.Count("loads of several names and files", 1)
		case 13: // English needs no dictionary
			note("LoadDict(en)")
			if err := seg.LoadDict("en"); err != nil {
				t.Fatalf("%v; history: %s", err, history())
			}
			then(nil)
		case 6, 7: // by name, with a file after it in some
			name := pick(t, []string{"zh", "zh_s", "zh_t", "jp", "ja", ""})
			arg := name
			var extra []Line
			if name != "" && t.Intn(2) == 0 {
				extra = o.lines(t, g, 1+t.Intn(4))
				f := writeScratch(o.text(extra, "\n", true))
				defer os.Remove(f)
				arg += pick(t, []string{",", ", "}) + f
			}
			note("LoadDict(%q) s_1 %q t_1 %q jp %q extra %q", arg, zs, zt, jp, extra)
			var err error
			if name == "" {
				err = seg.LoadDict()
			} else {
				err = seg.LoadDict(arg)
			}
			if err != nil {
				t.Fatalf("%v; history: %s", err, history())
			}
			switch name {
			case "zh", "":
				then(cat(cat(zs, zt), extra), cat(cat(zt, zs), extra))
			case "zh_s":
				then(cat(zs, extra))
			case "zh_t":
				then(cat(zt, extra))
			default:
				then(cat(jp, extra))
			}
			t.Count("loads by name", 1)
		case 8, 9:
			note("Empty()")
			if err := seg.Empty(); err != nil {
				t.Fatalf("%v; history: %s", err, history())
			}
			empty()
			clear()
			continue
		case 10: // the load flag is reset before a load of files
			ls := o.lines(t, g, 1+t.Intn(6))
			f := writeScratch(o.text(ls, "\n", true))
			defer os.Remove(f)
			note("Load = false; LoadDict %q", ls)
			seg.Load = false
			if err := seg.LoadDict(f); err != nil {
				t.Fatalf("%v; history: %s", err, history())
			}
			empty()
			then(ls)
		case 11: // several strings in one call
			if o.Sep != "" {
				continue
			}
			a, b := o.lines(t, g, 1+t.Intn(4)), o.lines(t, g, 1+t.Intn(4))
			at, bt := o.text(a, "\n", true), o.text(b, "\n", true)
			if strings.Contains(at+bt, ", ") || strings.Contains(at+bt, "zh") {
				continue
			}
			note("LoadDictEmbed(%q, %q)", at, bt)
			if err := seg.LoadDictEmbed(at + ", " + bt); err != nil {
				t.Fatalf("%v; history: %s", err, history())
			}
			then(cat(a, b))
		}
		if len(alts) > 64 {
			alts = alts[:64]
			return
		}
		check()
		t.Eval()
	}
}

// c14new: the constructors.
func c14new(t *T) {
	g := newGen(t, false)
	g.vocab(4+t.Intn(20), freqSmall, plainWord)
	var o loadOpt
	o.Lower = gse.ToLower
	var names []string
	var all []Line
	for k := 1 + t.Intn(3); k > 0; k-- {
		ls := o.lines(t, g, 1+t.Intn(8))
		f := writeScratch(o.text(ls, "\n", t.Intn(2) == 0))
		defer os.Remove(f)
		names, all = append(names, f), append(all, ls...)
	}
	var seg gse.Segmenter
	var err error
	what := ""
	if t.Intn(2) == 0 {
		args := []string{strings.Join(names, pick(t, []string{",", ", "}))}
		if o.AlphaNum = t.Intn(2) == 0; o.AlphaNum {
			args = append(args, "alpha")
		}
		what = fmt.Sprintf("New(%q)", args)
		seg, err = gse.New(args...)
	} else {
		ls := o.lines(t, g, 1+t.Intn(12))
		text := o.text(ls, "\n", true)
		if strings.Contains(text, ", ") {
			return
		}
		all = ls
		args := []string{text}
		if o.AlphaNum = t.Intn(2) == 0; o.AlphaNum {
			args = append(args, pick(t, []string{"alpha", "en"}))
		}
		what = fmt.Sprintf("NewEmbed(%q)", args)
		seg, err = gse.NewEmbed(args...)
	}
	if err != nil {
		t.Fatalf("%s: %v; lines %q", what, err, all)
	}
	if seg.AlphaNum != o.AlphaNum {
		t.Fatalf("%s gives AlphaNum %v", what, seg.AlphaNum)
	}
	ref := o.model(all)
	if err := compareDict(&seg, ref, nil); err != nil {
		t.Fatalf("%s: %v; lines %q", what, err, all)
	}
	t.Base(what, all)
	for i := 0; i < 3 && len(ref.m) > 0; i++ {
		text := g.text(8)
		other, how := fresh(t, ref)
		if diff := sameObservation(observe(&seg, text), observe(other, text)); diff != "" {
			t.Fatalf("text %q: after %s, and on a fresh segmenter with the same words (%s): %s; lines %q", text, what, how, diff, all)
		}
		t.Sig(text)
		t.Nontrivial()
		t.Count("cuts after a constructor compared", 1)
		t.Eval()
	}
}

func init() {
	register(&Prop{ID: "C12",
		Rule: "a source is a list of lines (words, duplicates, case variants, words of several words under a separator, missing, unparsable, negative, infinite, too small and fractional frequencies, blank and overlong lines) under random separator, LoadNoFreq, MinTokenFreq and TextFreq; it is loaded by four of six routes with LF or CRLF, with or without a final line end, through readers that deliver odd portions, and every resulting dictionary is compared word by word with a model of the documented rules; sources of 70000 to 275000 lines; " +
			"an evaluation is one load, non-trivial when at least two lines count, distinct by source, options, route and line ends",
		Kinds: []Kind{
			{Name: "routes", Quick: 10000, Thorough: 120000, Run: c12},
			lowerOff("routes", 1000, 10000, c12),
			everyChar(func(t *T, _ bool) { c12(t) }),
			{Name: "many lines", Quick: 8, Thorough: 40, Run: c12many},
		}})
	register(&Prop{ID: "C13",
		Rule: "readers that fail with different errors (or get stuck) after every kind of byte count, with the fault inside and between lines and with or after the last bytes; lists of files one of which is missing, a directory or below one, before or after good ones, for LoadDict, Read, New, the tagger and LoadStop; system files whose reads fail; sources of up to 6300 lines; each load must return an error, leave exactly the words of the lines before the fault and work when repeated; " +
			"an evaluation is one faulty load, non-trivial when some but not all lines came before the fault or a file was bad, distinct by source and fault position",
		Kinds: []Kind{
			{Name: "reader faults", Quick: 32000, Thorough: 200000, Run: c13reader},
			{Name: "bad files", Quick: 10000, Thorough: 40000, Run: c13files},
			{Name: "stop words", Quick: 4000, Thorough: 20000, Run: c13stop},
			{Name: "files loaded by name", Quick: 1500, Thorough: 12000, Run: c13world},
			{Name: "system files", Quick: 6, Thorough: 12, Run: c13real},
		}})
	register(&Prop{ID: "C14",
		Rule: "histories of 3-10 loads by every route (files, several files in a call, readers, strings, maps, the names zh, zh_s, zh_t, jp, ja and the default in a data directory of the case's own), Empty and resets of the load flag; after every step the dictionary is compared word by word with a first-wins model and cut in ten forms against a freshly filled segmenter; segmenters without a dictionary are used as well; New and NewEmbed with and without the option \"alpha\"; " +
			"an evaluation is one step, non-trivial when it was not the first and the dictionary is not empty, distinct by history and text",
		Kinds: []Kind{
			{Name: "history", Quick: 5000, Thorough: 60000, Run: c14},
			lowerOff("history", 300, 8000, c14),
			{Name: "constructors", Quick: 2000, Thorough: 20000, Run: c14new},
			lowerOff("constructors", 300, 3000, c14new),
		}})
}
