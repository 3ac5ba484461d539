package main

// Reference models, written from the properties over plain maps and dynamic
// programming. Nothing here calls the library.

import (
	"math"
	"strings"
	"sync/atomic"
	"unicode"
	"unicode/utf8"
)

// Opt are the options that decide how a text is split into units.
type Opt struct{ AlphaNum, Alpha, Num, Lower bool }

func asciiLower(b []byte) []byte {
	o := make([]byte, len(b))
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			c += 'a' - 'A'
		}
		o[i] = c
	}
	return o
}

// refUnits splits a text into units.
func refUnits(text []byte, o Opt) []string {
	if o.Lower {
		text = asciiLower(text)
	}
	var out []string
	open := false // the last unit is a run that may grow
	for i := 0; i < len(text); {
		r, n := utf8.DecodeRune(text[i:])
		letter, num := unicode.IsLetter(r), unicode.IsNumber(r)
		piece := string(text[i : i+n])
		grows := n <= 2 && (letter || num) && !o.AlphaNum && !(letter && o.Alpha) && !(num && o.Num)
		if grows && open {
			out[len(out)-1] += piece
		} else {
			out = append(out, piece)
		}
		open = grows
		i += n
	}
	return out
}

// Entry is a word of the reference dictionary.
type Entry struct {
	Word string // as given
	Freq float64
	Pos  string
}

// RefDict is the reference dictionary: canonical text to entry.
type RefDict struct {
	m       map[string]Entry
	total   float64
	maxRune int
	opt     Opt
	tree    atomic.Pointer[tree]
}

// tree holds the words byte by byte.
type tree struct {
	next map[uint64]uint32 // number of the node and byte, to the next node
	word map[uint32]Entry
}

func (d *RefDict) newTree() *tree {
	r := &tree{next: map[uint64]uint32{}, word: map[uint32]Entry{}}
	last := uint32(0)
	for w, e := range d.m {
		at := uint32(0)
		for i := 0; i < len(w); i++ {
			k := uint64(at)<<8 | uint64(w[i])
			if _, ok := r.next[k]; !ok {
				last++
				r.next[k] = last
			}
			at = r.next[k]
		}
		r.word[at] = e
	}
	return r
}

// each calls f with the words that the pieces make from i on, the shortest
// first, and with the places where they end.
func (d *RefDict) each(pieces []string, i int, f func(j int, e Entry)) {
	if d.maxRune <= 24 {
		w := ""
		for j := i + 1; j <= len(pieces) && j-i <= d.maxRune; j++ {
			w += pieces[j-1]
			if e, ok := d.m[w]; ok {
				f(j, e)
			}
		}
		return
	}
	r := d.tree.Load()
	if r == nil {
		r = d.newTree()
		d.tree.Store(r)
	}
	at := uint32(0)
	for j := i; j < len(pieces); j++ {
		p := pieces[j]
		for k := 0; k < len(p); k++ {
			to, ok := r.next[uint64(at)<<8|uint64(p[k])]
			if !ok {
				return
			}
			at = to
		}
		if e, ok := r.word[at]; ok {
			f(j+1, e)
		}
	}
}

func pieces(runes []rune) []string {
	l := make([]string, len(runes))
	for i, r := range runes {
		l[i] = string(r)
	}
	return l
}

func newRef(o Opt) *RefDict { return &RefDict{m: map[string]Entry{}, opt: o} }

// canon is the text under which a word is stored.
func (d *RefDict) canon(w string) string {
	if d.opt.Lower {
		return string(asciiLower([]byte(w)))
	}
	return w
}

// Add adds a word unless it is present.
func (d *RefDict) Add(e Entry) bool {
	c := d.canon(e.Word)
	if c == "" || strings.ContainsRune(c, 0) {
		return false // no words
	}
	if _, ok := d.m[c]; ok {
		return false
	}
	d.m[c] = e
	d.tree.Store(nil)
	d.total += e.Freq
	d.maxRune = max(d.maxRune, utf8.RuneCountInString(c))
	return true
}

// Remove removes a word.
func (d *RefDict) Remove(w string) bool {
	c := d.canon(w)
	e, ok := d.m[c]
	if ok {
		delete(d.m, c)
		d.tree.Store(nil)
		d.total -= e.Freq
	}
	return ok
}

// Freq is the frequency of a canonical text, 0 if it is not a word.
func (d *RefDict) Freq(c string) float64 { return d.m[c].Freq }

// isPrefix tells whether c is a proper byte prefix of a word.
func (d *RefDict) isPrefix(c string) bool {
	for w := range d.m {
		if len(w) > len(c) && strings.HasPrefix(w, c) {
			return true
		}
	}
	return false
}

// shortest is the length of a shortest path through units.
func (d *RefDict) shortest(units []string) float64 {
	n := len(units)
	best := make([]float64, n+1)
	for i := 1; i <= n; i++ {
		best[i] = math.Inf(1)
	}
	for i := range units {
		one := false
		d.each(units, i, func(j int, e Entry) {
			one = one || j == i+1
			best[j] = math.Min(best[j], best[i]+math.Log2(d.total)-math.Log2(e.Freq))
		})
		if !one {
			best[i+1] = math.Min(best[i+1], best[i]+32)
		}
	}
	return best[n]
}

// logP is the log probability of a rune word on a DAG route: 1/total for a
// single character that is no word, impossible for any other non-word.
func (d *RefDict) logP(w string, single bool, logTotal float64) float64 {
	f := d.m[w].Freq
	if f > 0 {
		return math.Log(f) - logTotal
	}
	if single {
		return -logTotal
	}
	return math.Inf(-1)
}

// bestRoute is the most probable division of runes into words and, where no
// word starts, single characters: its log probability, one such division as end indexes, and
// whether every other division is less probable by more than margin.
func (d *RefDict) bestRoute(runes []rune, logTotal, margin float64) (score float64, ends []int, unique bool) {
	n := len(runes)
	ps := pieces(runes)
	best := make([]float64, n+1)
	next := make([]int, n+1)
	tie := make([]bool, n+1)
	for i := n - 1; i >= 0; i-- {
		best[i] = math.Inf(-1)
		second := math.Inf(-1)
		starts := false
		step := func(j int, p float64) {
			s := p + best[j]
			if s > best[i] {
				second = best[i]
				best[i], next[i] = s, j
			} else if s > second {
				second = s
			}
		}
		d.each(ps, i, func(j int, e Entry) {
			if e.Freq > 0 {
				starts = true
				step(j, math.Log(e.Freq)-logTotal)
			}
		})
		if !starts {
			step(i+1, -logTotal)
		}
		tie[i] = best[i]-second <= margin
	}
	unique = true
	for i := 0; i < n; i = next[i] {
		ends = append(ends, next[i])
		// tie[] is only about the next step; a tie further on is seen there
		if tie[i] {
			unique = false
		}
	}
	return best[0], ends, unique
}

func isASCIIAlnum(r rune) bool {
	return r < 128 && (unicode.IsLetter(r) || unicode.IsDigit(r))
}

func isKana(s string) bool {
	for _, r := range s {
		if unicode.Is(unicode.Hiragana, r) || unicode.Is(unicode.Katakana, r) {
			return true
		}
	}
	return false
}

func close9(a, b float64) bool {
	if a == b {
		return true
	}
	return math.Abs(a-b) <= 1e-9*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}
