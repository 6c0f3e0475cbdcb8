package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"github.com/go-ego/gse"
	"pgregory.net/rapid"
)

// Raw is a string that survives JSON even when it is not valid UTF-8.
type Raw string

// MarshalJSON writes valid UTF-8 as a JSON string and anything else as {"hex": ...}.
func (r Raw) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(r)) {
		return json.Marshal(string(r))
	}
	return json.Marshal(map[string]string{"hex": hex.EncodeToString([]byte(r))})
}

// UnmarshalJSON reads both forms.
func (r *Raw) UnmarshalJSON(b []byte) error {
	var s string
	if json.Unmarshal(b, &s) == nil {
		*r = Raw(s)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	d, err := hex.DecodeString(m["hex"])
	*r = Raw(d)
	return err
}

// Rec collects what one case exercised.
type Rec struct {
	nontrivial bool
	labels     map[string]bool
	scratch    string // a directory this worker may write in
	root       string // the harness directory
}

// Hit marks the case as non-trivial by the property's rule and labels it.
func (r *Rec) Hit(label string) { r.nontrivial = true; r.labels[label] = true }

// Label classifies the case without making it count.
func (r *Rec) Label(label string) { r.labels[label] = true }

// LabelIf labels when cond holds.
func (r *Rec) LabelIf(cond bool, label string) {
	if cond {
		r.labels[label] = true
	}
}

// HitIf hits when cond holds.
func (r *Rec) HitIf(cond bool, label string) {
	if cond {
		r.Hit(label)
	}
}

// Prop is one executable property.
type Prop struct {
	ID       string
	Rule     string
	Quick    int // cases in all, over all workers
	Thorough int
	Workers  int // 0: as many as there are cores, at most 8
	Race     bool
	Heavy    bool // writes the case to disk before it runs (a crash of the process is a finding)
	Assume   []string

	draw   func(t *rapid.T) any
	decode func(b []byte) (any, error)
	run    func(c any, r *Rec) error
}

var props = map[string]*Prop{}

// reg registers a property over cases of type C.
func reg[C any](p Prop, gen func(t *rapid.T) C, run func(c C, r *Rec) error) {
	q := p
	q.draw = func(t *rapid.T) any { return gen(t) }
	q.decode = func(b []byte) (any, error) {
		var c C
		d := json.NewDecoder(bytes.NewReader(b))
		d.DisallowUnknownFields()
		err := d.Decode(&c)
		return c, err
	}
	q.run = func(c any, r *Rec) error { return run(c.(C), r) }
	if _, dup := props[p.ID]; dup {
		panic("duplicate property " + p.ID)
	}
	props[p.ID] = &q
}

// thorough is true in the thorough tier; generators may widen their ranges with it.
var thorough bool

type failure struct {
	Message string          `json:"message"`
	Case    json.RawMessage `json:"case"`
	Source  string          `json:"source"`
}

type workerResult struct {
	Evals      int            `json:"evals"`
	NonTrivial int            `json:"nontrivial"`
	Corpus     int            `json:"corpus"`
	Labels     map[string]int `json:"labels"`
	Samples    []string       `json:"samples"`
	Failure    *failure       `json:"failure"`
	Harness    string         `json:"harness"`
	SlowestMs  int64          `json:"slowest_ms"`
	Hashes     []uint64       `json:"-"`
}

// miniTB is the rapid.TB of a run outside go test.
type miniTB struct {
	name   string
	failed bool
	mu     sync.Mutex
	lines  []string
}

func (m *miniTB) add(s string) {
	m.mu.Lock()
	if len(m.lines) < 200 {
		m.lines = append(m.lines, s)
	}
	m.mu.Unlock()
}
func (m *miniTB) Helper()                   {}
func (m *miniTB) Name() string              { return m.name }
func (m *miniTB) Logf(f string, a ...any)   { m.add(fmt.Sprintf(f, a...)) }
func (m *miniTB) Log(a ...any)              { m.add(fmt.Sprint(a...)) }
func (m *miniTB) Skipf(f string, a ...any)  { panic("skip") }
func (m *miniTB) Skip(a ...any)             { panic("skip") }
func (m *miniTB) SkipNow()                  { panic("skip") }
func (m *miniTB) Errorf(f string, a ...any) { m.failed = true; m.add(fmt.Sprintf(f, a...)) }
func (m *miniTB) Error(a ...any)            { m.failed = true; m.add(fmt.Sprint(a...)) }
func (m *miniTB) Fatalf(f string, a ...any) { m.Errorf(f, a...); runtime.Goexit() }
func (m *miniTB) Fatal(a ...any)            { m.Error(a...); runtime.Goexit() }
func (m *miniTB) FailNow()                  { m.failed = true; runtime.Goexit() }
func (m *miniTB) Fail()                     { m.failed = true }
func (m *miniTB) Failed() bool              { return m.failed }

// harnessError is a fault of the harness, never of the code under test.
type harnessError struct{ msg string }

func hErr(format string, a ...any) { panic(harnessError{fmt.Sprintf(format, a...)}) }

// blame says whose panic a stack trace is: the code under test's or the harness's.
func blame(stack string) string {
	// skip up to the line of the panic itself
	if i := strings.Index(stack, "\npanic("); i >= 0 {
		stack = stack[i+1:]
	}
	for _, l := range strings.Split(stack, "\n") {
		switch {
		case strings.HasPrefix(l, "github.com/go-ego/gse"), strings.HasPrefix(l, "github.com/vcaesar/cedar"):
			return "gse"
		case strings.HasPrefix(l, "main."), strings.HasPrefix(l, "pgregory.net/"):
			return "harness"
		}
	}
	return "harness"
}

func resetGlobals() {
	gse.ToLower = true
}

// runCase runs one case; an error is a violation. Faults of the harness panic with harnessError.
func runCase(p *Prop, c any, r *Rec) (err error) {
	resetGlobals()
	defer func() {
		resetGlobals()
		if e := recover(); e != nil {
			if h, ok := e.(harnessError); ok {
				panic(h)
			}
			st := string(debug.Stack())
			if blame(st) == "gse" {
				lines := strings.Split(st, "\n")
				var keep []string
				for _, l := range lines {
					if strings.Contains(l, "go-ego/gse") || strings.Contains(l, "/repo/") {
						keep = append(keep, strings.TrimSpace(l))
					}
				}
				if len(keep) > 6 {
					keep = keep[:6]
				}
				err = fmt.Errorf("the code under test panicked: %v [%s]", e, strings.Join(keep, " | "))
				return
			}
			panic(harnessError{fmt.Sprintf("%v\n%s", e, st)})
		}
	}()
	return p.run(c, r)
}

type watch struct {
	start atomic.Int64
	cur   atomic.Pointer[[]byte]
}

// budget bounds the time a worker generates cases for, on slow machines.
func budget() time.Duration {
	if thorough {
		return 700 * time.Second
	}
	return 300 * time.Second
}

const (
	caseDeadline = 120 * time.Second
	caseHeap     = 3 << 29
)

func caseJSON(c any) []byte {
	b, err := json.Marshal(c)
	if err != nil {
		hErr("cannot encode a case: %v", err)
	}
	return b
}

func worker(p *Prop, seed uint64, checks int, withCorpus bool, outDir string, shard int, root string) {
	res := &workerResult{Labels: map[string]int{}}
	seen := map[uint64]bool{}
	base := filepath.Join(outDir, fmt.Sprintf("w%d", shard))
	scratch := base + ".scratch"
	if err := os.MkdirAll(scratch, 0o777); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(2)
	}
	var once sync.Once
	finish := func(code int) {
		once.Do(func() {
			hb := make([]byte, 0, 8*len(seen))
			for h := range seen {
				hb = binary.LittleEndian.AppendUint64(hb, h)
			}
			os.WriteFile(base+".hashes", hb, 0o666)
			b, _ := json.Marshal(res)
			if err := os.WriteFile(base+".json", b, 0o666); err != nil {
				os.Exit(2)
			}
			os.Exit(code)
		})
		select {}
	}

	var w watch
	go func() {
		var ms runtime.MemStats
		for {
			time.Sleep(250 * time.Millisecond)
			st := w.start.Load()
			if st == 0 {
				continue
			}
			age := time.Since(time.Unix(0, st))
			why := ""
			if age > caseDeadline {
				why = fmt.Sprintf("a call did not return within %v", caseDeadline)
			} else if age > 2*time.Second {
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > caseHeap {
					runtime.GC()
					runtime.ReadMemStats(&ms)
				}
				if ms.HeapAlloc > caseHeap {
					why = "a call does not return and its memory grows without bound"
				}
			}
			if why == "" || w.start.Load() != st {
				continue
			}
			b := w.cur.Load()
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			if !bytes.Contains(buf, []byte("github.com/go-ego/gse")) {
				fmt.Fprintf(os.Stderr, "harness: case too slow outside the code under test\n%s\n", buf)
				res.Harness = "slow case outside the code under test"
				finish(2)
			}
			res.Failure = &failure{Message: why, Case: *b, Source: "watchdog"}
			finish(1)
		}
	}()

	exec := func(c any, b []byte) (err error, r *Rec) {
		r = &Rec{labels: map[string]bool{}, scratch: scratch, root: root}
		if p.Heavy || p.Race {
			os.WriteFile(base+".case", b, 0o666)
		}
		w.cur.Store(&b)
		w.start.Store(time.Now().UnixNano())
		err = runCase(p, c, r)
		if d := time.Since(time.Unix(0, w.start.Swap(0))); d.Milliseconds() > res.SlowestMs {
			res.SlowestMs = d.Milliseconds()
			if f := os.Getenv("PBT_SLOW"); f != "" && d > 3*time.Second {
				os.WriteFile(fmt.Sprintf("%s.%d", f, d.Milliseconds()), *w.cur.Load(), 0o666)
			}
		}
		return
	}

	account := func(b []byte, r *Rec) {
		res.Evals++
		for l := range r.labels {
			res.Labels[l]++
		}
		if r.nontrivial {
			res.NonTrivial++
			s := sha256.Sum256(b)
			h := binary.LittleEndian.Uint64(s[:8])
			if !seen[h] {
				seen[h] = true
				n := len(seen)
				if n == 5 || n == 50 || n == 500 {
					t := string(b)
					if len(t) > 900 {
						t = t[:900] + "…"
					}
					res.Samples = append(res.Samples, t)
				}
			}
		}
	}

	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if e := recover(); e != nil {
				res.Harness = fmt.Sprint(e)
			}
		}()
		if withCorpus {
			files, _ := filepath.Glob(filepath.Join(root, "corpus", p.ID, "*.json"))
			sort.Strings(files)
			for _, f := range files {
				b, err := os.ReadFile(f)
				if err != nil {
					hErr("%v", err)
				}
				c, err := p.decode(b)
				if err != nil {
					hErr("corpus file %s: %v", f, err)
				}
				bc := caseJSON(c)
				err, r := exec(c, bc)
				account(bc, r)
				res.Corpus++
				if err != nil {
					res.Failure = &failure{Message: err.Error(), Case: bc, Source: "corpus " + filepath.Base(f)}
					return
				}
			}
		}
		tb := &miniTB{name: p.ID}
		failing := false
		tbDone := make(chan struct{})
		go func() {
			defer close(tbDone)
			end := time.Now().Add(budget())
			rapid.Check(tb, func(t *rapid.T) {
				if !failing && time.Now().After(end) {
					return // out of time: the cases counted are those that ran
				}
				c := p.draw(t)
				b := caseJSON(c)
				var err error
				var r *Rec
				func() {
					defer func() {
						if e := recover(); e != nil {
							if h, ok := e.(harnessError); ok {
								res.Harness = h.msg
								finish(2)
							}
							panic(e)
						}
					}()
					err, r = exec(c, b)
				}()
				if !failing {
					account(b, r)
				}
				if err != nil {
					failing = true
					res.Failure = &failure{Message: err.Error(), Case: b, Source: "generated"}
					t.Fatalf("violated")
				}
			})
		}()
		<-tbDone
		if tb.failed && res.Failure == nil {
			res.Harness = "rapid: " + strings.Join(tb.lines, "\n")
		}
	}()
	<-done
	switch {
	case res.Harness != "":
		fmt.Fprintln(os.Stderr, "harness:", res.Harness)
		finish(2)
	case res.Failure != nil:
		finish(1)
	}
	finish(0)
}

func stackNow() string { return string(debug.Stack()) }
