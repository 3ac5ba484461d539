package main

// C16: objects that load the same sources stay independent.

import (
	"fmt"
	"os"
	"reflect"
	"strings"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm/idf"
	"github.com/go-ego/gse/hmm/pos"
)

// sharedSide is a user's objects and a model of each.
type sharedSide struct {
	seg    *gse.Segmenter
	ref    *RefDict
	stops  map[string]bool
	te     *idf.TagExtracter
	idf    *idfModel
	stop   *idf.StopWord
	kw     map[string]bool
	tagger *pos.Segmenter
	tagRef string // what the tagger answers
	loaded bool   // the tagger has a dictionary
}

// c16sources: several users load the same files, strings and maps and edit
// what they have got; each one's objects follow their own history.
func c16sources(t *T) {
	g := newGen(t, true)
	g.vocab(6+t.Intn(20), freqSmall, plainWord)
	// Every entry stands in about half of the sources, with a frequency of the
	// source's own.
	type source struct {
		es         []Entry
		text, file string
		maps       []map[string]string
		words      []string // stop words
		wordFile   string
		idf        []Entry
		idfFile    string
	}
	var srcs []*source
	for i := 0; i < 2; i++ {
		s := &source{}
		for _, e := range g.words {
			if t.Intn(2) == 0 {
				s.es = append(s.es, Entry{e.Word, float64(3 + t.Intn(200)), pick(t, []string{"n", "v", ""})})
			}
			if t.Intn(3) == 0 {
				s.words = append(s.words, e.Word)
			}
			if t.Intn(3) == 0 {
				s.idf = append(s.idf, Entry{e.Word, 2 + float64(t.Intn(60))/4, ""})
			}
		}
		s.text, s.maps = dictText(s.es, ""), dictMap(s.es)
		s.file = writeScratch(s.text)
		s.wordFile = writeScratch(strings.Join(s.words, "\n") + "\n")
		s.idfFile = writeScratch(dictText(s.idf, ""))
		defer os.Remove(s.file)
		defer os.Remove(s.wordFile)
		defer os.Remove(s.idfFile)
		srcs = append(srcs, s)
		t.Base(s.es, s.words, s.idf)
	}
	keep := []string{fmt.Sprint(srcs[0]), fmt.Sprint(srcs[1])}

	var log []string
	note := func(f string, a ...any) { log = append(log, fmt.Sprintf(f, a...)); t.Doing(f, a...) }
	must := func(err error) {
		if err != nil {
			t.Fatalf("a valid step fails: %v; history %q", err, log)
		}
	}
	// entry is what loading keeps of an entry.
	entry := func(e Entry) Entry {
		if len([]rune(e.Word)) < 2 {
			e.Freq = 2
		}
		return e
	}
	text := g.text(4)
	sides := make([]*sharedSide, 2+t.Intn(2))
	for i := range sides {
		s := &sharedSide{seg: newSeg(Opt{Lower: gse.ToLower}), ref: newRef(Opt{Lower: gse.ToLower}), stops: map[string]bool{},
			te: &idf.TagExtracter{}, idf: newIdfModel(), stop: idf.NewStopWord(), kw: map[string]bool{}, tagger: &pos.Segmenter{}}
		for k := range idf.StopWordMap {
			s.kw[k] = true
		}
		sides[i] = s
	}
	load := func(i int, how int) {
		s, src := sides[i], srcs[t.Intn(len(srcs))]
		n := 0
		if src == srcs[1] {
			n = 1
		}
		switch how {
		case 0:
			note("%d.LoadDict(file %d)", i, n)
			must(s.seg.LoadDict(src.file))
		case 1:
			note("%d.LoadDictStr(source %d)", i, n)
			must(s.seg.LoadDictStr(src.text))
		case 2:
			note("%d.LoadDictMap(source %d)", i, n)
			must(s.seg.LoadDictMap(src.maps))
		case 3:
			note("%d = New(file %d)", i, n)
			seg, err := gse.New(src.file)
			must(err)
			seg.SkipLog = true
			s.seg, s.ref, s.stops = &seg, newRef(Opt{Lower: gse.ToLower}), map[string]bool{}
		case 4:
			note("%d = NewEmbed(source %d)", i, n)
			seg, err := gse.NewEmbed(src.text)
			must(err)
			seg.SkipLog = true
			s.seg, s.ref, s.stops = &seg, newRef(Opt{Lower: gse.ToLower}), map[string]bool{}
		case 5:
			note("%d.Read(file %d)", i, n)
			must(s.seg.Read(src.file))
			s.seg.CalcToken()
		}
		for _, e := range src.es {
			s.ref.Add(entry(e))
		}
		// the constructors may bring stop words of their own
		if how == 3 || how == 4 {
			for _, e := range g.words {
				s.stops[e.Word] = s.seg.IsStop(e.Word)
			}
		}
	}
	verify := func(j int) {
		s := sides[j]
		var probes []string
		for _, e := range g.words {
			probes = append(probes, e.Word)
		}
		if s.seg.Dict != nil || len(s.ref.m) > 0 {
			if s.seg.Dict == nil {
				t.Fatalf("segmenter %d has no dictionary; history %q", j, log)
			}
			if err := compareDict(s.seg, s.ref, probes); err != nil {
				t.Fatalf("segmenter %d: %v; history %q", j, err, log)
			}
		}
		for _, w := range probes {
			if got := s.seg.IsStop(w); got != s.stops[w] {
				t.Fatalf("segmenter %d: IsStop(%q) = %v; history %q", j, w, got, log)
			}
			if got := s.stop.IsStopWord(w); got != s.kw[w] {
				t.Fatalf("stop words %d: IsStopWord(%q) = %v; history %q", j, w, got, log)
			}
			if s.te.Idf == nil {
				continue
			}
			f, _, ok := s.te.Idf.Freq(s.idf.ref.canon(w))
			if e, has := s.idf.ref.m[s.idf.ref.canon(w)]; has && (!ok || f != e.Freq) || !has && f != 0 {
				t.Fatalf("IDF %d: Freq(%q) = %v, %v, should be %v, %v; history %q", j, w, f, ok, e.Freq, has, log)
			}
		}
		if s.loaded {
			if now := qp(s.tagger.Cut(text)); now != s.tagRef {
				t.Fatalf("tagger %d: Cut(%q) gave %s and now %s; history %q", j, text, s.tagRef, now, log)
			}
		}
		t.Count("objects compared with their models", 1)
	}
	// the same source at first, so that anything shared is shared
	first := t.Intn(6)
	for i := range sides {
		if t.Intn(3) > 0 {
			load(i, first)
		}
	}
	for k := 6 + t.Intn(16); k > 0; k-- {
		i := t.Intn(len(sides))
		s := sides[i]
		w := pick(t, g.words).Word
		src := srcs[t.Intn(len(srcs))]
		switch t.Intn(20) {
		case 0, 1, 2, 3:
			load(i, t.Intn(6))
		case 4, 5:
			note("%d.AddTokenForce(%q)", i, w)
			if s.seg.Dict == nil {
				break
			}
			must(s.seg.AddTokenForce(w, 7, "ns"))
			s.ref.Add(Entry{w, 7, "ns"})
		case 6, 7:
			note("%d.RemoveToken(%q)", i, w)
			if s.seg.Dict == nil {
				break
			}
			if err := s.seg.RemoveToken(w); (err == nil) != s.ref.Remove(w) {
				t.Fatalf("RemoveToken(%q) = %v; history %q", w, err, log)
			}
		case 8:
			note("%d.ReAddToken(%q)", i, w)
			if s.seg.Dict == nil {
				break
			}
			err := s.seg.ReAddToken(w, 9, "vn")
			if had := s.ref.Remove(w); had {
				must(err)
				s.ref.Add(Entry{w, 9, "vn"})
			} else if err == nil {
				t.Fatalf("ReAddToken of the missing word %q succeeds; history %q", w, log)
			}
		case 9, 10:
			note("%d.Empty()", i)
			must(s.seg.Empty())
			s.ref = newRef(Opt{Lower: gse.ToLower})
			if t.Intn(3) > 0 {
				load(i, t.Intn(3))
			}
		case 11:
			note("%d.LoadStop(%q)", i, src.words)
			must(s.seg.LoadStop(src.wordFile))
			for _, x := range src.words {
				s.stops[x] = true
			}
		case 12:
			note("%d.LoadStopArr(%q)", i, src.words)
			s.seg.LoadStopArr(src.words)
			for _, x := range src.words {
				s.stops[x] = true
			}
		case 13:
			note("%d.RemoveStop(%q)", i, w)
			s.seg.RemoveStop(w)
			delete(s.stops, w)
			s.stop.RemoveStop(w)
			delete(s.kw, w)
		case 14:
			note("%d.EmptyStop()", i)
			must(s.seg.EmptyStop())
			s.stops = map[string]bool{}
		case 15:
			note("%d.stop.LoadDict(%q)", i, src.words)
			must(s.stop.LoadDict(src.wordFile))
			for _, x := range src.words {
				s.kw[x] = true
			}
		case 16:
			note("%d.LoadIdf(%v)", i, src.idf)
			must(s.te.LoadIdf(src.idfFile))
			s.idf = newIdfModel()
			s.idf.load(src.idf)
		case 17:
			note("%d.LoadIdfStr(%v)", i, src.idf)
			must(s.te.LoadIdfStr(dictText(src.idf, "")))
			s.idf = newIdfModel()
			s.idf.load(src.idf)
		case 18:
			note("%d.Idf.AddToken(%q)", i, w)
			if s.te.Idf != nil {
				must(s.te.Idf.AddToken(w, 33))
				s.idf.ref.Add(Entry{w, 33, ""})
			}
		case 19:
			note("%d.tagger.LoadDict(%v)", i, src.es)
			must(s.tagger.LoadDict(src.file))
			s.loaded = true
			s.tagRef = qp(s.tagger.Cut(text))
		}
		for j := range sides {
			verify(j)
		}
		t.Sig(log)
		t.Nontrivial()
		t.Eval()
	}
	for i, s := range srcs {
		if fmt.Sprint(s) != keep[i] || !reflect.DeepEqual(s.maps, dictMap(s.es)) {
			t.Fatalf("the maps of source %d have changed; history %q", i, log)
		}
		if raw, err := os.ReadFile(s.file); err != nil || string(raw) != s.text {
			t.Fatalf("the file of source %d has changed; history %q", i, log)
		}
	}
	t.Sample(map[string]any{"history": log})
}
