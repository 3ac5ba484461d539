package main

// Workload generation: overlapping vocabularies and hostile texts.

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/go-ego/gse"
)

var hanPool = []rune("中国人民上海大学生世界你好分词器自然语言处理的一是在不了有和北京市长江桥研究生命起源")

// kinds of characters that are mixed into words and texts
var classes = map[string][]string{
	"latin":    strings.Split("abcdefghijklmnopqrstuvwxyz", ""),
	"upper":    strings.Split("ABCDEFGHIJKLMNOPQRSTUVWXYZ", ""),
	"digit":    strings.Split("0123456789", ""),
	"accent":   strings.Split("éüßñàôçœøåþ", ""),
	"accentUp": strings.Split("ÉÜÑÀÔÇŒØÅÞİ", ""),
	"cyr":      strings.Split("абвгдежзиклмнопрстуя", ""),
	"cyrUp":    strings.Split("АБВГДЕЖЗИКЛМНЯ", ""),
	"greek":    strings.Split("αβγδεζηθικλμνξο", ""),
	"num2":     strings.Split("²³¹½¼¾٠١٢٣", ""),
	"num3":     strings.Split("①②Ⅷ५७", ""),
	"full":     strings.Split("ａｂｃＡＢＣ０１２３", ""),
	"kana":     strings.Split("あいうえおかきくけこさしすせそのアイウエオカキクケコンー", ""),
	"hangul":   strings.Split("한국어가나다라마바사서울", ""),
	"thai":     strings.Split("ภาษาไทย", ""),
	"arabic":   strings.Split("العربية", ""),
	"punct":    strings.Split(",.!?;:'\"()-_/@#%&*，。！？；：「」『』（）、…—“”《》¿¡", ""),
	"sym":      strings.Split("+=<>$^`|~￥€™©°", ""),
	"space":    {" ", " ", " ", "\t", "\n", "\r\n", "\u3000", "\u00a0", "\u2028", "\v", "\u0085"},
	"emoji":    {"😀", "👍🏽", "👨‍👩‍👧", "🇨🇳", "❤️", "☃", "🀄"},
	"extb":     {"𠀀", "𠮷", "𪚥", "𩸽"},
	"comb":     {"é", "ñ", "क्ष", "\u200d", "\ufe0f"},
	"odd":      {"\ufeff", "\ufffd", "K", "ﬁ", "ẞ", "ǅ", "\u200b", "\u00ad", "\u0130"},
	"rare":     {"龘", "靐", "齉", "㐀", "㗂", "〇", "々", "〆"},
}

var classNames = func() []string {
	var n []string
	for _, k := range strings.Fields("latin upper digit accent accentUp cyr cyrUp greek num2 num3 full kana hangul thai arabic punct sym space emoji extb comb odd rare") {
		n = append(n, k)
	}
	return n
}()

var invalid = []string{"\xff", "\xc0", "\x80", "\xe4\xb8", "\xed\xa0\x80", "\xc0\x80", "\xf5\x80\x80\x80", "\xf0\x9f\x98", "\xe4", "\xfe\xff", "\xc3", "\xe0\x80\xaf"}

func pick[E any](t *T, s []E) E { return s[t.Intn(len(s))] }

func (t *T) class(name string) string { return pick(t, classes[name]) }

// Gen is the setting of one case: an alphabet, a vocabulary, options.
type Gen struct {
	added   string // the word last added by an edit
	t       *T
	han     []rune
	words   []Entry
	classes []string // classes used for foreign words and noise
	Invalid bool     // invalid UTF-8 in texts
	NUL     bool     // NUL bytes in texts
	long    int      // pieces of the next text of several pieces, if not 0
	more    int      // texts of the same size that follow it
	sweep   []rune   // characters that stand in each of the next sweeps texts
	sweeps  int
}

// newGen makes a setting. noCased excludes non-ASCII letters that have case.
func newGen(t *T, noCased bool) *Gen {
	g := &Gen{t: t}
	if !raceBuild && t.Intn(1000) == 0 {
		g.long = 2000 + t.Intn(10000)
		if t.Intn(2) == 0 {
			g.long = 2500 + t.Intn(3500)
			g.more = 1 + t.Intn(3)
		}
	}
	if t.huge > 0 {
		g.long = 20000 + t.Intn(20000)
		if t.Intn(4) == 0 {
			g.long *= 4
		}
	}
	n := 3 + t.Intn(5)
	for _, i := range t.Perm(len(hanPool))[:n] {
		g.han = append(g.han, hanPool[i])
	}
	if t.sweep != nil {
		g.han = g.han[:1]
		for _, r := range t.sweep {
			if !noCased || !hasCased(string(r)) {
				g.han = append(g.han, r)
			}
		}
		g.sweep, g.sweeps = g.han, 3
	}
	for _, c := range classNames {
		if noCased && (c == "accentUp" || c == "cyrUp" || c == "full" || c == "odd") {
			continue
		}
		if t.Intn(3) == 0 {
			g.classes = append(g.classes, c)
		}
	}
	if len(g.classes) == 0 {
		g.classes = []string{"latin", "punct"}
	}
	if t.Intn(3) > 0 {
		g.classes = append(g.classes, "latin", "upper", "digit")
	}
	return g
}

func (g *Gen) hanWord(n int) string {
	r := make([]rune, n)
	for i := range r {
		r[i] = pick(g.t, g.han)
	}
	return string(r)
}

func (g *Gen) run(class string, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(g.t.class(class))
	}
	return b.String()
}

// word makes a new dictionary word.
func (g *Gen) word() string {
	t := g.t
	switch t.Intn(12) {
	case 0:
		return g.run(pick(t, g.classes), 1+t.Intn(4))
	case 1: // foreign and Han mixed, e.g. T恤
		return g.run(pick(t, g.classes), 1+t.Intn(2)) + g.hanWord(1+t.Intn(2))
	case 2:
		return g.hanWord(1+t.Intn(2)) + g.run(pick(t, g.classes), 1+t.Intn(2))
	case 3: // two classes
		return g.run(pick(t, g.classes), 1+t.Intn(2)) + g.run(pick(t, g.classes), 1+t.Intn(2))
	case 4: // a concatenation of words, or a word and a character
		if len(g.words) > 1 {
			a := pick(t, g.words).Word
			if t.Intn(2) == 0 {
				return a + pick(t, g.words).Word
			}
			return a + g.hanWord(1)
		}
	case 5: // a prefix or suffix of a word
		if len(g.words) > 0 {
			r := []rune(pick(t, g.words).Word)
			if len(r) > 1 {
				k := 1 + t.Intn(len(r)-1)
				if t.Intn(2) == 0 {
					return string(r[:k])
				}
				return string(r[k:])
			}
		}
	case 6:
		if t.Intn(20) == 0 {
			if g.long == 0 && t.Intn(4) == 0 {
				return g.hanWord(60 + t.Intn(300))
			}
			return g.hanWord(10 + t.Intn(50))
		}
		return g.hanWord(4 + t.Intn(4))
	case 7:
		return g.hanWord(1)
	}
	return g.hanWord(2 + t.Intn(2))
}

// freq modes
const (
	freqSmall = iota // 1..50, many equal
	freqLog          // log-uniform up to 1e6
	freqWide         // log-uniform up to 2^45: path lengths around and above 32
	freqFrac         // multiples of 1/8
	freqTiny         // sums below 1
	freqModes
)

func (t *T) freq(mode int) float64 {
	switch mode {
	case freqSmall:
		return float64(1 + t.Intn(50))
	case freqWide:
		return math.Floor(math.Exp2(t.Float64() * 45))
	case freqFrac:
		return float64(1+t.Intn(400)) / 8
	case freqTiny:
		return float64(1+t.Intn(400)) / 65536
	}
	return math.Floor(math.Pow(10, t.Float64()*6))
}

var posTags = []string{"n", "v", "a", "ns", "nr", "vn", "x", "m", "eng", "", "l", "i", "nz", "Ng", "VN", "N", "名詞", "É"}

// vocab fills the vocabulary with n distinct words (canonical under asciiLower).
// ok filters words (nil accepts all).
func (g *Gen) vocab(n, mode int, ok func(string) bool) []Entry {
	t := g.t
	seen := map[string]bool{}
	key := func(w string) string {
		if !gse.ToLower {
			return w
		}
		return string(asciiLower([]byte(w)))
	}
	for _, e := range g.words {
		seen[key(e.Word)] = true
	}
	add := func(w string) {
		k := key(w)
		if seen[k] || strings.ContainsRune(w, 0) || (ok != nil && !ok(w)) {
			return
		}
		seen[k] = true
		g.words = append(g.words, Entry{w, t.freq(mode), pick(t, posTags)})
	}
	if n >= 3 && t.Intn(7) == 0 {
		for _, w := range g.nest() {
			add(w)
		}
	}
	if len(g.sweep) > 0 && t.Intn(2) == 0 { // words with all characters of the case
		for i, p := 0, t.Perm(len(g.sweep)); i < len(p); {
			var w []rune
			for k := 1 + t.Intn(3); k > 0 && i < len(p); k-- {
				w = append(w, g.sweep[p[i]])
				i++
			}
			add(string(w))
		}
		n = max(n, len(g.words)+1)
	}
	for tries := 0; len(g.words) < n && tries < 20*n; tries++ {
		w := g.word()
		if !gse.ToLower && len(g.words) > 0 && t.Intn(5) == 0 {
			// the same word in other letters is another word
			w = pick(t, g.words).Word
			if t.Intn(2) == 0 {
				w = strings.ToUpper(w)
			} else {
				w = strings.ToLower(w)
			}
		}
		add(w)
	}
	return g.words
}

// nest is a family of words that lie in each other: many words start, or end,
// at one place of a text.
func (g *Gen) nest() []string {
	t := g.t
	n := 9 + t.Intn(12)
	if t.Intn(6) == 0 {
		n = 20 + t.Intn(60)
		if g.long == 0 && t.Intn(10) == 0 {
			n = 80 + t.Intn(250)
		}
	}
	r := []rune(g.hanWord(n))
	switch t.Intn(5) {
	case 0: // one character over and over
		for i := range r {
			r[i] = r[0]
		}
	case 1: // foreign characters among them
		for k := 1 + t.Intn(4); k > 0; k-- {
			r[t.Intn(n)] = []rune(g.run(pick(t, g.classes), 1))[0]
		}
	}
	var l []string
	prefixes, suffixes := t.Intn(3) > 0, t.Intn(3) == 0
	for i := 1; i <= n; i++ {
		if i == n || prefixes && t.Intn(8) > 0 {
			l = append(l, string(r[:i]))
		}
		if suffixes && t.Intn(8) > 0 {
			l = append(l, string(r[n-i:]))
		}
	}
	t.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l
}

// text makes a text of about n pieces.
func (g *Gen) text(n int) string {
	t := g.t
	if n > 1 && g.long > 0 {
		n = g.long
		if g.more--; g.more < 0 {
			g.long = 0
		} else {
			g.long = max(2, g.long*(50+t.Intn(55))/100)
		}
		t.Count("texts of thousands of words", 1)
	} else if n > 1 && t.Intn(80) == 0 {
		n = 60 + t.Intn(240)
	}
	size := 300 << 10
	switch {
	case t.huge > 0:
		size = t.huge
	case raceBuild:
		size = 8 << 10
	}
	var b strings.Builder
	for i := 0; i < n && b.Len() < size; i++ {
		w := ""
		if len(g.words) > 0 {
			w = pick(t, g.words).Word
		}
		switch t.Intn(16) {
		case 0, 1, 2, 3, 4, 5:
			b.WriteString(w)
		case 6: // upper-case it
			b.WriteString(strings.ToUpper(w))
		case 7: // cut it
			r := []rune(w)
			if len(r) > 0 {
				k := t.Intn(len(r) + 1)
				b.WriteString(string(r[:k]))
			}
		case 8: // change a character
			r := []rune(w)
			if len(r) > 0 {
				r[t.Intn(len(r))] = pick(t, g.han)
			}
			b.WriteString(string(r))
		case 9, 10:
			b.WriteString(g.hanWord(1 + t.Intn(4)))
		case 11: // unknown Han
			for k := 1 + t.Intn(4); k > 0; k-- {
				b.WriteRune(rune(0x4e00 + t.Intn(0x51a5)))
			}
		case 12:
			b.WriteString(g.run(pick(t, g.classes), 1+t.Intn(5)))
		case 13:
			b.WriteString(g.run("latin", 1+t.Intn(3)))
			b.WriteString(g.run(pick(t, []string{"digit", "upper", "space", "punct"}), 1))
		case 14:
			b.WriteString(g.run("space", 1))
			b.WriteString(w)
			b.WriteString(g.run("punct", 1))
		case 15:
			switch {
			case g.Invalid && t.Intn(2) == 0:
				b.WriteString(pick(t, invalid))
			case g.NUL && t.Intn(2) == 0:
				b.WriteByte(0)
			default:
				b.WriteString(g.run(pick(t, g.classes), 1))
			}
		}
		if g.NUL && t.Intn(6) == 0 {
			b.WriteByte(0)
		}
	}
	if g.sweeps > 0 {
		g.sweeps--
		for _, i := range t.Perm(len(g.sweep)) {
			switch t.Intn(8) {
			case 0:
				b.WriteString(g.run("latin", 1))
			case 1:
				b.WriteString(g.run("digit", 1))
			case 2:
				b.WriteString(" ")
			case 3:
				b.WriteRune(pick(t, hanPool))
			case 4:
				b.WriteString(g.run("latin", 1))
				b.WriteRune(g.sweep[i])
				b.WriteString(g.run("digit", 1))
				continue
			}
			b.WriteRune(g.sweep[i])
		}
		return b.String()
	}
	s := b.String()
	if g.Invalid && len(s) > 0 && t.Intn(4) == 0 {
		// cut the text in the middle of a character
		k := t.Intn(len(s) + 1)
		if t.Intn(2) == 0 {
			s = s[:k]
		} else {
			s = s[k:]
		}
	}
	return s
}

// ---- segmenters -----------------------------------------------------------

// newSeg makes a quiet segmenter with the options.
func newSeg(o Opt) *gse.Segmenter {
	return &gse.Segmenter{AlphaNum: o.AlphaNum, Alpha: o.Alpha, Num: o.Num, SkipLog: true}
}

var fileCount = make(chan int, 1)

func init() { fileCount <- 0 }

// scratch returns a new file name in the scratch directory, which processes
// started by the harness share.
func scratch(suffix string) string {
	n := <-fileCount
	fileCount <- n + 1
	return filepath.Join(tmpDir, fmt.Sprintf("f%d-%d%s", os.Getpid(), n, suffix))
}

func fnum(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

// dictText writes entries in the documented format.
func dictText(es []Entry, sep string) string {
	var b strings.Builder
	for _, e := range es {
		b.WriteString(e.Word + sep + " " + fnum(e.Freq))
		if e.Pos != "" {
			b.WriteString(sep + " " + e.Pos)
		}
		b.WriteString("\n")
	}
	return b.String()
}

func dictMap(es []Entry) []map[string]string {
	var m []map[string]string
	for _, e := range es {
		m = append(m, map[string]string{"text": e.Word, "freq": fnum(e.Freq), "pos": e.Pos})
	}
	return m
}

// plainWord tells whether the word survives every file format unchanged.
func plainWord(w string) bool {
	if !utf8.ValidString(w) {
		return false
	}
	for _, r := range w {
		if unicode.IsSpace(r) || r == ',' || r == 0 {
			return false
		}
	}
	return w != ""
}

// fill puts the entries into the segmenter by one of several routes and
// returns the reference dictionary. Loading routes change one-character
// words to frequency 2 and need plain words and frequencies of at least 2.
func fill(t *T, seg *gse.Segmenter, es []Entry, o Opt) *RefDict {
	ref := newRef(o)
	t.Base(es, o)
	plain := true
	for _, e := range es {
		if !plainWord(e.Word) || e.Freq < 2 || strings.ContainsAny(e.Pos, " ,\n") {
			plain = false
		}
	}
	route := 0
	if plain {
		route = t.Intn(5)
	}
	for _, e := range es {
		if route != 0 && utf8.RuneCountInString(e.Word) < 2 {
			e.Freq = 2
		}
		ref.Add(e)
	}
	var err error
	switch route {
	case 0:
		seg.Dict = gse.NewDict()
		seg.Load = true
		seg.Init()
		churn := t.Intn(3) == 0 // reach the dictionary by edits
		if churn {
			t.Count("dictionaries built with edits", 1)
		}
		var gone []string
		for _, e := range es {
			if churn && t.Intn(3) == 0 {
				// a word that goes again
				w := pick(t, es).Word + pick(t, es).Word
				if _, ok := ref.m[ref.canon(w)]; !ok && validUTF8(w) && !strings.ContainsRune(w, 0) {
					seg.AddToken(w, 50, "gone")
					gone = append(gone, w)
				}
			}
			if churn && t.Intn(4) == 0 { // added with other values first
				seg.AddToken(e.Word, e.Freq+7, "old")
				if t.Intn(3) == 0 {
					seg.CalcToken()
				}
				if err = seg.ReAddToken(e.Word, e.Freq, e.Pos); err == nil || ref.canon(e.Word) == "" || strings.ContainsRune(e.Word, 0) {
					err = nil
					continue
				}
				break
			}
			if err = seg.AddToken(e.Word, e.Freq, e.Pos); err != nil {
				break
			}
		}
		if churn && t.Intn(2) == 0 {
			seg.CalcToken()
		}
		for _, w := range gone {
			seg.RemoveToken(w)
		}
		seg.CalcToken()
	case 1:
		err = seg.LoadDictMap(dictMap(es))
	case 2:
		err = seg.LoadDictStr(dictText(es, ""))
	case 3:
		f := writeScratch(dictText(es, ""))
		err = seg.LoadDict(f)
		os.Remove(f)
	case 4:
		seg.DictSep = ","
		err = seg.LoadDictStr(dictText(es, ","))
	}
	if err != nil {
		t.Fatalf("loading %d words by route %d failed: %v", len(es), route, err)
	}
	t.Count(fmt.Sprintf("dictionaries built by route %d", route), 1)
	return ref
}

// setting is a compact description of a case for messages and samples.
func setting(o Opt, es []Entry, text string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "options %+v; dictionary [", o)
	for i, e := range es {
		if i > 0 {
			b.WriteString(", ")
		}
		fmt.Fprintf(&b, "%q %s %s", e.Word, fnum(e.Freq), e.Pos)
		if i == 60 {
			fmt.Fprintf(&b, " … %d more", len(es)-i-1)
			break
		}
	}
	fmt.Fprintf(&b, "]; text %q", text)
	return b.String()
}

func (t *T) opt() Opt {
	o := Opt{Lower: gse.ToLower}
	if t.Intn(3) == 0 {
		o.AlphaNum, o.Alpha, o.Num = t.Intn(2) == 0, t.Intn(2) == 0, t.Intn(2) == 0
	}
	return o
}

func quoteList(s []string) string {
	var b bytes.Buffer
	for i, x := range s {
		if i > 0 {
			b.WriteString(" ")
		}
		fmt.Fprintf(&b, "%q", x)
		if i > 300 {
			b.WriteString(" …")
			break
		}
	}
	return b.String()
}

// hasCased tells whether the string has a letter outside ASCII that lower-casing changes.
func hasCased(s string) bool {
	for _, r := range s {
		if r >= 128 && unicode.ToLower(r) != r {
			return true
		}
	}
	return false
}

func sortedRunes(m map[rune]bool) []rune {
	var l []rune
	for r := range m {
		l = append(l, r)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}
