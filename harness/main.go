package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness error: "+format+"\n", a...)
	os.Exit(2)
}

func workerSeed(seed int64, id string, shard int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, shard)
	s := h.Sum64()
	if s == 0 {
		s = 1
	}
	return s
}

func main() {
	testing.Init()
	var (
		mode   = flag.String("mode", "run", "run | worker | replay | list")
		id     = flag.String("prop", "", "property")
		tier   = flag.String("tier", "quick", "quick | thorough")
		seed   = flag.Int64("seed", 1, "seed")
		shard  = flag.Int("shard", 0, "worker number")
		checks = flag.Int("checks", 0, "cases of this worker")
		out    = flag.String("out", "", "scratch directory")
		root   = flag.String("root", "", "the harness directory")
		file   = flag.String("file", "", "replay file")
		scale  = flag.Float64("scale", 1, "multiply the number of cases")
	)
	flag.Parse()
	log.SetOutput(io.Discard)
	debug.SetMaxStack(256 << 20)
	thorough = *tier == "thorough"

	if *mode == "list" {
		var ids []string
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		for _, k := range ids {
			fmt.Println(k, props[k].Race)
		}
		return
	}
	p := props[*id]
	if *mode == "replay" {
		replay(*file, *root)
		return
	}
	if p == nil {
		fatal("no such property %q", *id)
	}
	switch *mode {
	case "worker":
		s := workerSeed(*seed, p.ID, *shard)
		flag.Set("rapid.seed", strconv.FormatUint(s, 10))
		flag.Set("rapid.checks", strconv.Itoa(*checks))
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.shrinktime", "20s")
		restoreModel()
		worker(p, s, *checks, *shard == 0, *out, *shard, *root)
	case "run":
		os.Exit(drive(p, *tier, *seed, *root, *scale))
	}
}

type replayFile struct {
	Property string          `json:"property"`
	Tier     string          `json:"tier"`
	Seed     int64           `json:"seed"`
	Message  string          `json:"message"`
	Source   string          `json:"source"`
	Case     json.RawMessage `json:"case"`
}

func replay(file, root string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal("%v", err)
	}
	p := props[rf.Property]
	if p == nil {
		fatal("no such property %q", rf.Property)
	}
	c, err := p.decode(rf.Case)
	if err != nil {
		fatal("%v", err)
	}
	restoreModel()
	dir, _ := os.MkdirTemp("", "pbt-replay-")
	defer os.RemoveAll(dir)
	done := make(chan error, 1)
	go func() {
		done <- runCase(p, c, &Rec{labels: map[string]bool{}, scratch: dir, root: root})
	}()
	select {
	case err = <-done:
	case <-time.After(caseDeadline):
		err = fmt.Errorf("a call did not return within %v", caseDeadline)
	}
	if err != nil {
		fmt.Printf("REPRODUCED property=%s: %v\n", rf.Property, err)
		os.RemoveAll(dir)
		os.Exit(1)
	}
	fmt.Printf("NOT REPRODUCED property=%s\n", rf.Property)
}

func drive(p *Prop, tier string, seed int64, root string, scale float64) int {
	start := time.Now()
	total := p.Quick
	if tier == "thorough" {
		total = p.Thorough
	}
	total = int(float64(total) * scale)
	n := p.Workers
	if n == 0 {
		n = 8
	}
	if total < n {
		n = total
	}
	out, err := os.MkdirTemp("", "pbt-"+p.ID+"-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(out)

	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	type ended struct {
		code   int
		stderr string
	}
	ends := make([]ended, n)
	par := runtime.NumCPU()
	if par > 8 {
		par = 8
	}
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			k := total/n + b2i(i < total%n)
			cmd := exec.Command(self, "-mode", "worker", "-prop", p.ID, "-tier", tier,
				"-seed", fmt.Sprint(seed), "-shard", fmt.Sprint(i), "-checks", fmt.Sprint(k),
				"-out", out, "-root", root)
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all", "GOMAXPROCS="+maxprocs(p))
			var sb strings.Builder
			cmd.Stderr = &limitWriter{w: &sb, n: 1 << 20}
			cmd.Stdout = cmd.Stderr
			err := cmd.Run()
			code := 0
			if err != nil {
				code = -1
				if ee, ok := err.(*exec.ExitError); ok {
					code = ee.ExitCode()
				}
			}
			ends[i] = ended{code, sb.String()}
		}(i)
	}
	wg.Wait()

	sum := workerResult{Labels: map[string]int{}}
	distinct := map[uint64]struct{}{}
	var fail *failure
	broken := ""
	for i := 0; i < n; i++ {
		base := filepath.Join(out, fmt.Sprintf("w%d", i))
		var r workerResult
		b, rerr := os.ReadFile(base + ".json")
		if rerr == nil {
			rerr = json.Unmarshal(b, &r)
		}
		if rerr != nil || (ends[i].code != 0 && ends[i].code != 1) {
			// The worker died. A crash inside the code under test is a finding.
			msg := crashOf(ends[i].stderr, ends[i].code)
			if msg != "" && fail == nil {
				cb, _ := os.ReadFile(base + ".case")
				if !json.Valid(cb) {
					cb = []byte("null")
				}
				fail = &failure{Message: msg, Case: cb, Source: "crash of the worker process"}
			} else if msg == "" {
				broken = fmt.Sprintf("worker %d ended with %d: %s", i, ends[i].code, tail(ends[i].stderr, 4000))
			}
			continue
		}
		sum.Evals += r.Evals
		sum.NonTrivial += r.NonTrivial
		sum.Corpus += r.Corpus
		sum.SlowestMs = max(sum.SlowestMs, r.SlowestMs)
		for k, v := range r.Labels {
			sum.Labels[k] += v
		}
		if len(sum.Samples) < 6 {
			for _, s := range r.Samples {
				if len(sum.Samples) < 6 {
					sum.Samples = append(sum.Samples, s)
				}
			}
		}
		hb, _ := os.ReadFile(base + ".hashes")
		for len(hb) >= 8 {
			distinct[binary.LittleEndian.Uint64(hb)] = struct{}{}
			hb = hb[8:]
		}
		if r.Failure != nil && fail == nil {
			fail = r.Failure
		}
	}
	if fail == nil && broken != "" {
		fmt.Fprintln(os.Stderr, "harness error:", broken)
		return 2
	}

	verif := filepath.Dir(root)
	if d := os.Getenv("PBT_OUT"); d != "" {
		verif = d
	}
	samples := make([]any, 0, len(sum.Samples))
	for _, s := range sum.Samples {
		samples = append(samples, s)
	}
	violations := 0
	if fail != nil {
		violations = 1
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": sum.Evals, "distinct_nontrivial": len(distinct),
			"rule": p.Rule, "samples": samples,
			"corpus_cases": sum.Corpus, "classes": sum.Labels, "workers": n, "slowest_case_ms": sum.SlowestMs,
		},
		"wall_s": time.Since(start).Seconds(), "violations": violations,
	}
	if len(p.Assume) > 0 {
		ev["assumptions"] = p.Assume
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o777)
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(eb, '\n'), 0o666); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("property=%s tier=%s seed=%d cases=%d distinct_nontrivial=%d corpus=%d slowest=%dms wall=%.1fs\n",
		p.ID, tier, seed, sum.Evals, len(distinct), sum.Corpus, sum.SlowestMs, time.Since(start).Seconds())
	var ls []string
	for k, v := range sum.Labels {
		ls = append(ls, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ls)
	fmt.Println("classes:", strings.Join(ls, " "))
	if fail == nil {
		return 0
	}
	rf := replayFile{Property: p.ID, Tier: tier, Seed: seed, Message: fail.Message, Source: fail.Source, Case: fail.Case}
	rb, _ := json.MarshalIndent(rf, "", " ")
	rdir := filepath.Join(verif, "replays")
	os.MkdirAll(rdir, 0o777)
	rp := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.json", p.ID, tier, seed))
	if err := os.WriteFile(rp, append(rb, '\n'), 0o666); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("%s\ncase: %s\n", fail.Message, tail(string(fail.Case), 3000))
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rp)
	return 1
}

func maxprocs(p *Prop) string {
	if p.Race {
		return "8"
	}
	return "2"
}

// crashOf recognises a worker that the code under test killed: a data race the
// detector reported, or a fatal error of the Go runtime below a frame of gse.
func crashOf(stderr string, code int) string {
	if !strings.Contains(stderr, "github.com/go-ego/gse") {
		return ""
	}
	if strings.Contains(stderr, "WARNING: DATA RACE") {
		i := strings.Index(stderr, "WARNING: DATA RACE")
		// one of the two accesses is below a call of gse
		if stacks, _, _ := strings.Cut(stderr[i:], "created at:"); !strings.Contains(stacks, "github.com/go-ego/gse") {
			return ""
		}
		return "data race in the code under test: " + head(stderr[i:], 2500)
	}
	for _, f := range []string{"fatal error: stack overflow", "fatal error: concurrent map", "fatal error: all goroutines are asleep", "runtime: goroutine stack exceeds"} {
		if i := strings.Index(stderr, f); i >= 0 {
			return "the code under test crashed the process: " + head(stderr[i:], 2500)
		}
	}
	// a panic on a goroutine the harness could not guard (one the code under test started)
	if code == 2 && strings.Contains(stderr, "\ngoroutine ") && !strings.Contains(stderr, "harness:") {
		if i := strings.Index(stderr, "panic: "); i >= 0 && blame(stderr[i:]) == "gse" {
			return "the code under test crashed the process: " + head(stderr[i:], 2500)
		}
	}
	return ""
}

type limitWriter struct {
	w io.Writer
	n int
}

func (l *limitWriter) Write(b []byte) (int, error) {
	if l.n > 0 {
		k := len(b)
		if k > l.n {
			k = l.n
		}
		l.w.Write(b[:k])
		l.n -= k
	}
	return len(b), nil
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return "…" + s[len(s)-n:]
	}
	return s
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
