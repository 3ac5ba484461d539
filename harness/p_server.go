package main

// C17: the HTTP service, run as a process built with the race detector.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var serverExe = sync.OnceValues(func() (string, error) {
	exe := filepath.Join(tmpDir, "gse-server")
	cmd := exec.Command("go", "build", "-race", "-tags", "ne", "-o", exe, "./tools/server")
	cmd.Dir = repoDir
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("the server does not build: %v\n%s", err, out)
	}
	return exe, nil
})

// service is one running server.
type service struct {
	cmd    *exec.Cmd
	base   string
	client *http.Client
	errs   *lockedBuffer
	exited chan struct{}
}

type lockedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (l *lockedBuffer) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

var startMu sync.Mutex

func startServer(dict string, useHMM bool) (*service, error) {
	exe, err := serverExe()
	if err != nil {
		panic(err)
	}
	// One at a time, so that no two servers are given the same port: it is
	// free between Close and the server's own Listen.
	startMu.Lock()
	defer startMu.Unlock()
	for try := 0; ; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		s := &service{base: fmt.Sprintf("http://127.0.0.1:%d", port), errs: &lockedBuffer{}, exited: make(chan struct{})}
		s.cmd = exec.Command(exe, "-host", "127.0.0.1", "-port", fmt.Sprint(port), "-dict", dict, fmt.Sprintf("-hmm=%v", useHMM))
		s.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=3")
		s.cmd.Dir = tmpDir
		s.cmd.Stderr = s.errs
		s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := s.cmd.Start(); err != nil {
			panic(err)
		}
		go func() { s.cmd.Wait(); close(s.exited) }()
		s.client = &http.Client{Timeout: 150 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 64}}
		for k := 0; k < 3000; k++ {
			select {
			case <-s.exited:
			default:
				c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
				if err == nil {
					c.Close()
					return s, nil
				}
				time.Sleep(20 * time.Millisecond)
				continue
			}
			break
		}
		s.stop()
		if try > 4 || strings.Contains(s.errs.String(), "goroutine ") {
			return nil, errors.New("the server does not start: " + s.errs.String())
		}
	}
}

func (s *service) stop() {
	s.client.CloseIdleConnections()
	s.cmd.Process.Kill()
	<-s.exited
}

// dead tells whether the server's process ended.
func (s *service) dead() bool {
	select {
	case <-s.exited:
		return true
	default:
		return false
	}
}

// gone is thrown when a server's process was killed from outside, which says
// nothing about the server.
type gone struct{}

// notKilled throws gone if the server was killed by a signal that it does not
// send itself. After a failed request it waits for the process to end.
func (s *service) notKilled(failed bool) {
	if failed {
		select {
		case <-s.exited:
		case <-time.After(time.Second):
		}
	}
	if s.dead() {
		if w, ok := s.cmd.ProcessState.Sys().(syscall.WaitStatus); ok && w.Signaled() && w.Signal() == syscall.SIGKILL {
			panic(gone{})
		}
	}
}

// unlessKilled runs a case again when its server was killed from outside.
func unlessKilled(run func(*T)) func(*T) {
	return func(t *T) {
		for try := 0; ; try++ {
			again := func() (again bool) {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(gone); !ok {
							panic(r)
						}
						again = true
					}
				}()
				run(t)
				return false
			}()
			if !again {
				return
			}
			if try == 3 {
				t.Fatalf("the server was killed four times, for want of memory or from outside")
			}
			time.Sleep(time.Second)
		}
	}
}

type answer struct {
	Segments []struct{ Text, Pos string } `json:"segments"`
	Seg      []string
	status   int
	body     string
}

// ask sends a segmentation request.
func (s *service) ask(text string, post bool) (a answer, err error) {
	var r *http.Response
	if post {
		r, err = s.client.PostForm(s.base+"/json", url.Values{"text": {text}})
	} else {
		r, err = s.client.Get(s.base + "/json?text=" + url.QueryEscape(text))
	}
	if err != nil {
		return a, err
	}
	defer r.Body.Close()
	raw, err := io.ReadAll(r.Body)
	if err != nil {
		return a, err
	}
	a.status, a.body = r.StatusCode, string(raw)
	if r.StatusCode != 200 {
		return a, fmt.Errorf("status %s", r.Status)
	}
	if err := json.Unmarshal(raw, &a); err != nil {
		return a, fmt.Errorf("the answer is not JSON: %v: %q", err, clip(a.body))
	}
	return a, nil
}

func (a *answer) texts() []string {
	if a.Seg != nil {
		return a.Seg
	}
	var l []string
	for _, s := range a.Segments {
		l = append(l, s.Text)
	}
	return l
}

// add sends an add-word request.
func (s *service) add(word string, freq string, tag string) error {
	v := url.Values{"text": {word}, "freq": {freq}, "pos": {tag}}
	r, err := s.client.Get(s.base + "/add?" + v.Encode())
	if err != nil {
		return err
	}
	defer r.Body.Close()
	raw, err := io.ReadAll(r.Body)
	if err != nil {
		return err
	}
	var ok struct {
		Code int
		Text string
	}
	if err := json.Unmarshal(raw, &ok); err != nil || ok.Code != 200 || ok.Text != "ok" {
		return fmt.Errorf("the answer to an add-word request is %q", clip(string(raw)))
	}
	return nil
}

// event is one request about a word, in the recorded history.
type event struct {
	word     int
	add      bool
	tag      string // added, or seen ("" is the old state)
	from, to time.Duration
}

func (e event) String() string {
	if e.add {
		return fmt.Sprintf("add %s [%v,%v]", e.tag, e.from, e.to)
	}
	return fmt.Sprintf("read %q [%v,%v]", e.tag, e.from, e.to)
}

// checkWord decides whether the history of one word is linearizable for a
// register that keeps the first value written.
func checkWord(ev []event) error {
	sort.Slice(ev, func(i, j int) bool { return ev[i].from < ev[j].from })
	winner := ""
	for _, r := range ev {
		if !r.add && r.tag != "" {
			if winner != "" && winner != r.tag {
				return fmt.Errorf("the word was seen as %s and as %s", winner, r.tag)
			}
			winner = r.tag
		}
	}
	if winner == "" {
		// never seen: some add could only be answered after every read began
		for _, a := range ev {
			for _, r := range ev {
				if a.add && !r.add && r.from > a.to {
					return fmt.Errorf("a request sent after the word was added (%v) does not know it (%v)", a, r)
				}
			}
		}
		return nil
	}
	// The winning add takes effect at one moment: after it began and before it
	// was answered, not after any other add was answered, before every read that saw the word
	// ended, after every read that did not see it began.
	best := errors.New("nothing added it")
	for _, a := range ev {
		if !a.add || a.tag != winner {
			continue
		}
		lo, hi := a.from, a.to
		low, high := a, a
		for _, x := range ev {
			switch {
			case x.add && x.to < hi, !x.add && x.tag != "" && x.to < hi:
				hi, high = x.to, x
			case !x.add && x.tag == "" && x.from > lo:
				lo, low = x.from, x
			}
		}
		if lo <= hi {
			return nil
		}
		best = fmt.Errorf("it took effect before %v ended, and after %v began", high, low)
	}
	return fmt.Errorf("the word %s: %v", winner, best)
}

func c17(t *T, useHMM, big bool) {
	g := newGen(t, false)
	base := []Entry{{"天气", 50, "n"}, {"今天", 80, "t"}, {"中国人", 30, "n"}, {"中国", 90, "ns"}, {"人民", 70, "n"}, {"hello", 20, "eng"}}
	dict := ""
	if big {
		dict = filepath.Join(repoDir, "data/dict/zh/t_1.txt")
	} else {
		// added words are made of characters that no word of the dictionary has
		for i := 0; i < 200+t.Intn(1500); i++ {
			base = append(base, Entry{string([]rune{rune(0x5000 + t.Intn(400)), rune(0x5000 + t.Intn(400)), rune(0x5000 + t.Intn(400))}[:2+t.Intn(2)]), float64(2 + t.Intn(500)), "n"})
		}
		dict = writeScratch(dictText(base, ""))
		defer os.Remove(dict)
	}
	s, err := startServer(dict, useHMM)
	if err != nil {
		t.Fatalf("%v", err)
	}
	defer s.stop()
	// characters of their own for every word
	var words []string
	next := 0x3400
	for i := 0; i < 6+t.Intn(12); i++ {
		n := 2 + t.Intn(3)
		var r []rune
		for k := 0; k < n; k++ {
			r = append(r, rune(next))
			next++
		}
		if t.Intn(3) == 0 {
			r[1] = pick(t, []rune("é1ж-、한"))
		}
		words = append(words, string(r))
	}
	tags := []string{"nz", "vv", "adj", "t7"}
	// the frequency with which a word is added is given by its tag
	freqs := map[string]string{}
	for w := range words {
		for _, tag := range tags {
			freqs[fmt.Sprint(w, tag)] = pick(t, []string{fmt.Sprint(1 + t.Intn(3000)), fmt.Sprint(1 + t.Intn(3000)), "0.5", "2.5", "1e3", "100000", "+7", "1"})
		}
	}
	freqOf := func(w int, tag string) string { return freqs[fmt.Sprint(w, tag)] }
	t0 := time.Now()
	since := func() time.Duration { return time.Since(t0) }
	clients := 3 + t.Intn(10)
	each := 25 + t.Intn(40)
	if big {
		clients, each = 6, 12
	}
	events := make([][]event, clients)
	problems := make(chan string, clients)
	var reqs, mixed atomic.Int64
	var wg sync.WaitGroup
	for c := 0; c < clients; c++ {
		sub := &T{Rand: newRand(t.Int63()), counters: map[string]int64{}}
		gc := &Gen{t: sub, han: g.han, classes: g.classes, words: base, Invalid: true, NUL: true}
		wg.Add(1)
		go func() {
			defer wg.Done()
			fail := func(f string, a ...any) {
				select {
				case problems <- fmt.Sprintf(f, a...):
				default:
				}
			}
			for k := 0; k < each; k++ {
				// words become interesting one after another
				w := min(len(words)-1, (k*len(words))/each+sub.Intn(3))
				from := since()
				if sub.Intn(5) == 0 {
					tag := pick(sub, tags)
					if err := s.add(words[w], freqOf(w, tag), tag); err != nil {
						fail("adding %q: %v", words[w], err)
						return
					}
					events[c] = append(events[c], event{w, true, tag, from, since()})
					reqs.Add(1)
					continue
				}
				// a text with the word between others
				text := gc.text(sub.Intn(3)) + "，" + words[w] + "，" + gc.text(sub.Intn(3))
				if sub.Intn(10) == 0 {
					text = gc.text(30)
				}
				if sub.Intn(40) == 0 {
					text = ""
				}
				a, err := s.ask(text, sub.Intn(3) == 0)
				to := since()
				if err != nil {
					fail("segmenting %q: %v", clip(text), err)
					return
				}
				reqs.Add(1)
				if member := map[bool]string{true: `"Seg"`, false: `"segments"`}[useHMM]; !strings.Contains(a.body, member) {
					fail("the answer for the text %q has no member %s: %q", clip(text), member, clip(a.body))
					return
				}
				list := a.texts()
				// JSON has U+FFFD in place of bytes that are not UTF-8
				want := string([]rune(string(asciiLower([]byte(text)))))
				if useHMM {
					want = string([]rune(strings.ToLower(text)))
				}
				if got := strings.Join(list, ""); got != want {
					fail("the pieces of %q are not the text: %s", text, quoteList(list))
					return
				}
				if !strings.Contains(text, "，"+words[w]+"，") {
					continue
				}
				seen, n := "", 0
				for i, p := range list {
					if p == string(asciiLower([]byte(words[w]))) {
						seen = "seen"
						if !useHMM {
							seen = a.Segments[i].Pos
						}
						n++
					}
				}
				if n > 1 || seen != "" && useHMM {
					// with HMM the model may join the characters by itself
					if useHMM {
						continue
					}
				}
				events[c] = append(events[c], event{w, false, seen, from, to})
				if n == 1 {
					mixed.Add(1)
				}
			}
		}()
	}
	wg.Wait()
	s.notKilled(len(problems) > 0)
	state := func() string {
		return fmt.Sprintf("%d clients, %d requests each, -hmm=%v, dictionary of %d words; added words %q", clients, each, useHMM, len(base), words)
	}
	log := s.errs.String()
	if i := strings.Index(log, "WARNING: DATA RACE"); i >= 0 {
		t.Fatalf("data race in the server; %s\n%s", state(), clip2(log[i:]))
	}
	if s.dead() {
		t.Fatalf("the server died; %s\n%s", state(), clip2(log))
	}
	if i := strings.Index(log, "panic serving"); i >= 0 {
		t.Fatalf("a handler panicked; %s\n%s", state(), clip2(log[i:]))
	}
	select {
	case p := <-problems:
		t.Fatalf("%s; %s", p, state())
	default:
	}
	per := make([][]event, len(words))
	for _, l := range events {
		for _, e := range l {
			per[e.word] = append(per[e.word], e)
		}
	}
	t.Base(words, useHMM)
	for i, ev := range per {
		if useHMM {
			// only: what was added is known
			for j := range ev {
				if ev[j].add {
					ev[j].tag = "seen"
				}
			}
		}
		if err := checkWord(ev); err != nil {
			t.Fatalf("the history of %q is not that of a word that appears once: %v; history %v; %s", words[i], err, ev, state())
		}
		adds, reads, seen := 0, 0, 0
		for _, e := range ev {
			adds += b2i(e.add)
			reads += b2i(!e.add)
			seen += b2i(!e.add && e.tag != "")
		}
		t.Count("word histories checked for linearizability", 1)
		t.Count("word histories in which the word appears", b2i(seen > 0 && seen < reads))
		t.Count("add-word requests", adds)
		t.Sig(i, len(ev), adds)
		if adds > 0 && reads > 0 {
			t.Nontrivial()
			t.Sample(map[string]any{"word": words[i], "history": fmt.Sprint(ev[:min(len(ev), 12)]), "setting": state()})
		}
		t.Eval()
	}
	// everything added is known at the end
	final := map[int]string{} // the tag each added word has
	for i, ev := range per {
		added := false
		for _, e := range ev {
			added = added || e.add
		}
		if !added {
			continue
		}
		a, err := s.ask("，"+words[i]+"，", false)
		if err != nil {
			s.notKilled(true)
			t.Fatalf("segmenting %q at the end: %v; %s", words[i], err, state())
		}
		found := false
		for _, p := range a.texts() {
			found = found || p == words[i]
		}
		if !found {
			t.Fatalf("%q was added and is cut into %q at the end; %s", words[i], a.texts(), state())
		}
		for _, p := range a.Segments {
			if p.Text == words[i] {
				final[i] = p.Pos
			}
		}
	}
	t.Count("requests answered", int(reqs.Load()))

	// Now that nothing is added any more, long texts: nothing of them is lost,
	// and every word in them is still a word with its part of speech.
	for k := 0; k < 3; k++ {
		gc := &Gen{t: t, han: g.han, classes: g.classes, words: base}
		var b strings.Builder
		size := 1 << (10 + t.Intn(10))
		count := map[int]int{}
		n := 0
		for b.Len() < size {
			b.WriteString(gc.text(1 + t.Intn(60)))
			w := t.Intn(len(words))
			b.WriteString("，" + words[w] + "，")
			count[w]++
			n++
		}
		text := b.String()
		post := b.Len() > 100000 || t.Intn(2) == 0 // the query string is limited by net/http
		a, err := s.ask(text, post)
		if err != nil {
			s.notKilled(true)
			t.Fatalf("segmenting a text of %d bytes (POST %v): %v; %s", len(text), post, err, state())
		}
		want := string(asciiLower([]byte(text)))
		if useHMM {
			want = strings.ToLower(text)
		}
		if got := strings.Join(a.texts(), ""); got != want {
			i := 0
			for i < len(got) && i < len(want) && got[i] == want[i] {
				i++
			}
			t.Fatalf("the pieces of a text of %d bytes (POST %v) are not the text: %d bytes, different from byte %d on: %q; %s", len(text), post, len(got), i, clip(got[i:]), state())
		}
		t.Count("bytes of long texts answered", len(text))
		if useHMM {
			continue
		}
		for _, p := range a.Segments {
			for w, tag := range final {
				if p.Text == words[w] {
					if p.Pos != tag {
						t.Fatalf("%q is %q in a short text and %q in a long one; %s", words[w], tag, p.Pos, state())
					}
					count[w]--
				}
			}
		}
		for w := range final {
			if count[w] > 0 {
				t.Fatalf("%q was added and is %d times not a word in a text of %d bytes; %s", words[w], count[w], len(text), state())
			}
		}
		t.Count("occurrences of added words in long texts", n)
	}
	if useHMM || big {
		return
	}
	// and every answer is what the library gives with that dictionary
	o := Opt{Lower: true}
	ref := newRef(o)
	for _, e := range base {
		ref.Add(e)
	}
	for w, tag := range final {
		f, _ := strconv.ParseFloat(freqOf(w, tag), 64)
		ref.Add(Entry{words[w], f, tag})
	}
	for k := 0; k < 20; k++ {
		gc := &Gen{t: t, han: g.han, classes: g.classes, words: base}
		text := gc.text(1+t.Intn(6)) + pick(t, words) + gc.text(t.Intn(3)) + pick(t, words)[:3]
		a, err := s.ask(text, t.Intn(2) == 0)
		if err != nil {
			s.notKilled(true)
			t.Fatalf("segmenting %q: %v; %s", text, err, state())
		}
		cost := 0.0
		for _, p := range a.Segments {
			e, ok := ref.m[p.Text]
			switch {
			case ok && e.Pos == p.Pos:
				cost += math.Log2(ref.total) - math.Log2(e.Freq)
			case !ok && p.Pos == "x" && len(refUnits([]byte(p.Text), o)) == 1:
				cost += 32
			default:
				t.Fatalf("the answer for %q has %q with part of speech %q, the dictionary has %+v; %s", text, p.Text, p.Pos, e, state())
			}
		}
		if best := ref.shortest(refUnits([]byte(text), o)); cost > best*(1+1e-5)+1e-5 {
			t.Fatalf("the answer for %q, %q, has length %v, the shortest division of the final dictionary %v; %s", text, a.texts(), cost, best, state())
		}
		t.Count("answers compared with the final dictionary", 1)
	}
}

// c17hostile sends requests that are broken in many ways between good ones.
func c17hostile(t *T) {
	dict := writeScratch("天气 50 n\n今天 80 t\n")
	defer os.Remove(dict)
	useHMM := t.Intn(3) == 0
	s, err := startServer(dict, useHMM)
	if err != nil {
		t.Fatalf("%v", err)
	}
	defer s.stop()
	var wg sync.WaitGroup
	var sent atomic.Int64
	for c := 0; c < 6; c++ {
		sub := &T{Rand: newRand(t.Int63()), counters: map[string]int64{}}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 25; k++ {
				sent.Add(1)
				path := pick(sub, []string{"/json", "/add", "/json", "/add", "/", "/nothing"})
				q := pick(sub, []string{"", "?text=", "?text=%ff%c0", "?text=%zz", "?text=a;b", "?text=" + strings.Repeat("%E4%BB%8A%E5%A4%A9", 1+sub.Intn(30)),
					"?text=%00x", "?pos=n", "?freq=abc&text=ab", "?freq=&text=%E4%B8%AD%E6%96%87", "?text=" + url.QueryEscape(string(rune(0x3400+sub.Intn(50)))+"词") + "&freq=5&pos=n",
					"?text=" + url.QueryEscape(pick(sub, invalid)) + "&freq=3&pos=x", "?text=%20%20&freq=1", "?text=今天&freq=1"})
				if path != "/add" && sub.Intn(6) == 0 { // too long for a word: full words of n characters cost n³
					q = "?text=" + strings.Repeat("%E4%BB%8A%E5%A4%A9", 1+sub.Intn(900))
				}
				switch sub.Intn(5) {
				case 0: // the client goes away
					ctx, cancel := context.WithTimeout(context.Background(), time.Duration(sub.Intn(3000))*time.Microsecond)
					r, _ := http.NewRequestWithContext(ctx, "GET", s.base+path+q, nil)
					if r != nil {
						if rs, err := s.client.Do(r); err == nil {
							rs.Body.Close()
						}
					}
					cancel()
				case 1: // half a request
					c, err := net.Dial("tcp", strings.TrimPrefix(s.base, "http://"))
					if err == nil {
						fmt.Fprintf(c, "%s %s%s HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\nContent-Type: application/x-www-form-urlencoded\r\n\r\ntext=abc", pick(sub, []string{"POST", "GET", "PUT", "HEAD"}), path, strings.ReplaceAll(q, " ", ""))
						if sub.Intn(2) == 0 {
							c.SetReadDeadline(time.Now().Add(5 * time.Millisecond))
							bufio.NewReader(c).ReadByte()
						}
						c.Close()
					}
				case 2:
					r, err := s.client.Post(s.base+path+q, pick(sub, []string{"application/x-www-form-urlencoded", "multipart/form-data; boundary=x", "text/plain", ""}), strings.NewReader(pick(sub, []string{"text=%ff", "text=今天天气", "--x\r\n", "%%%", ""})))
					if err == nil {
						io.Copy(io.Discard, r.Body)
						r.Body.Close()
					}
				default:
					r, err := s.client.Get(s.base + path + q)
					if err == nil {
						io.Copy(io.Discard, r.Body)
						r.Body.Close()
					}
				}
			}
		}()
	}
	wg.Wait()
	s.notKilled(false)
	log := s.errs.String()
	if i := strings.Index(log, "WARNING: DATA RACE"); i >= 0 {
		t.Fatalf("data race in the server\n%s", clip2(log[i:]))
	}
	if s.dead() {
		t.Fatalf("the server died\n%s", clip2(log))
	}
	if i := strings.Index(log, "panic serving"); i >= 0 {
		t.Fatalf("a handler panicked\n%s", clip2(log[i:]))
	}
	a, err := s.ask("今天天气hello", false)
	if err != nil {
		s.notKilled(true)
		t.Fatalf("after hostile requests the server does not answer: %v", err)
	}
	if got := strings.Join(a.texts(), ""); got != "今天天气hello" {
		t.Fatalf("after hostile requests the answer is %q", a.texts())
	}
	t.Count("hostile requests sent", int(sent.Load()))
	t.Sig(t.seed)
	t.Nontrivial()
	t.Eval()
}

// c17same: many clients ask for one and the same text while its words are
// added one after another. An answer shows every word whose adding was
// answered before the request was sent, however much a server remembers.
func c17same(t *T) {
	dict := writeScratch("天气 50 n\n今天 80 t\n")
	defer os.Remove(dict)
	useHMM := t.Intn(4) == 0
	s, err := startServer(dict, useHMM)
	if err != nil {
		t.Fatalf("%v", err)
	}
	defer s.stop()
	next := 0x3400
	for round := 0; round < 8; round++ {
		var words []string
		for i := 10 + t.Intn(30); i > 0; i-- {
			words = append(words, string([]rune{rune(next), rune(next + 1)}))
			next += 2
		}
		text := strings.Join(words, "，")
		if t.Intn(2) == 0 {
			text = strings.Repeat("今天天气hello", 1+t.Intn(40)) + "，" + text
		}
		var done atomic.Int64 // the words whose adding was answered
		stop := make(chan struct{})
		problems := make(chan string, 20)
		var answers, partial atomic.Int64
		check := func(post bool) bool {
			n := int(done.Load())
			a, err := s.ask(text, post)
			if err != nil {
				problems <- fmt.Sprintf("segmenting %q: %v", clip(text), err)
				return false
			}
			have := map[string]bool{}
			for _, p := range a.texts() {
				have[p] = true
			}
			answers.Add(1)
			for i, w := range words {
				if i < n && !have[w] {
					problems <- fmt.Sprintf("a request sent after %d words were added does not know word %d, %q; the text %q; the answer %s", n, i, w, clip(text), clip2(quoteList(a.texts())))
					return false
				}
				if !useHMM && i > n && have[w] {
					partial.Add(1)
				}
			}
			return true
		}
		clients := 3 + t.Intn(6)
		var wg sync.WaitGroup
		for c := 0; c < clients; c++ {
			post := t.Intn(2) == 0
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					if !check(post) {
						return
					}
				}
			}()
		}
		for i, w := range words {
			if err := s.add(w, "100", "nz"); err != nil {
				problems <- fmt.Sprintf("adding %q: %v", w, err)
				break
			}
			done.Store(int64(i + 1))
			if !check(false) {
				break
			}
		}
		close(stop)
		wg.Wait()
		s.notKilled(len(problems) > 0)
		log := s.errs.String()
		if i := strings.Index(log, "WARNING: DATA RACE"); i >= 0 {
			t.Fatalf("data race in the server\n%s", clip2(log[i:]))
		}
		if i := strings.Index(log, "panic serving"); i >= 0 {
			t.Fatalf("a handler panicked\n%s", clip2(log[i:]))
		}
		select {
		case p := <-problems:
			t.Fatalf("%s; %d clients, -hmm=%v", p, clients, useHMM)
		default:
		}
		if s.dead() {
			t.Fatalf("the server died; %d clients, -hmm=%v\n%s", clients, useHMM, clip2(log))
		}
		t.Count("answers for a text whose words are being added", int(answers.Load()))
		t.Count("add-word requests", len(words))
		t.Count("words seen that were added during the request", int(partial.Load()))
		t.Sig(round, text, useHMM)
		if int(answers.Load()) > len(words) {
			t.Nontrivial()
		}
		t.Eval()
	}
}

func init() {
	register(&Prop{ID: "C17", Slow: 2,
		Rule: "the server of tools/server, built with the race detector and run as a process of its own on the loopback interface: 3-12 clients send add-word requests (several clients add the same word with different tags) and segmentation requests for texts that contain the words, GET and POST, without and with -hmm; the recorded history of every word is checked for linearizability against a register that keeps the first value, every answer for being JSON whose texts are the requested text; 3-8 clients ask for one and the same text while its words are added one after another, and no answer may lack a word whose adding was answered before the request; hostile requests (bad escapes, empty or invalid words and frequencies, broken off requests) must leave the server alive; at the end long texts (up to a megabyte) are requested and answers compared with the shortest division of the final dictionary; race reports, handler panics and exits of the process are violations; " +
			"an evaluation is the history of one word, or of one text whose words are added, non-trivial when it has adds and reads, distinct by word and shape",
		Kinds: []Kind{
			{Name: "histories", Quick: 40, Thorough: 900, Run: unlessKilled(func(t *T) { c17(t, false, false) })},
			{Name: "histories, -hmm", Quick: 16, Thorough: 300, Run: unlessKilled(func(t *T) { c17(t, true, false) })},
			{Name: "one text, many additions", Quick: 24, Thorough: 400, Run: unlessKilled(c17same)},
			{Name: "hostile requests", Quick: 16, Thorough: 200, Run: unlessKilled(c17hostile)},
			{Name: "shipped dictionary", Quick: 0, Thorough: 6, Run: unlessKilled(func(t *T) { c17(t, false, true) })},
		}})
}
