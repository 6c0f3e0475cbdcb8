package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/go-ego/gse"
)

// refAtoms is the reference of the atom split.
func refAtoms(s string, o Opts) []string {
	var out []string
	run := ""
	flush := func() {
		if run != "" {
			out = append(out, run)
			run = ""
		}
	}
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		c := s[:n]
		s = s[n:]
		joins := n <= 2 && ((unicode.IsLetter(r) && !o.Alpha) || (unicode.IsNumber(r) && !o.Num))
		if !joins {
			flush()
			out = append(out, c)
			continue
		}
		if !o.NoLower {
			c = asciiLower(c)
		}
		if o.AlphaNum {
			out = append(out, c)
		} else {
			run += c
		}
	}
	flush()
	return out
}

func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func normText(s string, o Opts) string { return strings.Join(refAtoms(s, o), "") }

// Entry is a word of the model dictionary.
type Entry struct {
	F     float64
	P     string
	Atoms int
}

// Model is the reference dictionary: a map.
type Model struct {
	W map[string]Entry

	fixedMax  int // set for big dictionaries that do not change
	fixedLens []bool
}

func newModel() *Model { return &Model{W: map[string]Entry{}} }

// add adds a word unless it is there already; it reports whether it was new.
func (m *Model) add(w string, f float64, p string, o Opts) bool {
	at := refAtoms(w, o)
	k := strings.Join(at, "")
	if k == "" || strings.IndexByte(k, 0) >= 0 {
		return false
	}
	if _, ok := m.W[k]; ok {
		return false
	}
	m.W[k] = Entry{f, p, len(at)}
	return true
}

func (m *Model) isPrefix(s string) bool {
	if s == "" {
		return false
	}
	for k := range m.W {
		if len(k) > len(s) && strings.HasPrefix(k, s) {
			return true
		}
	}
	return false
}

func (m *Model) keys() []string {
	r := make([]string, 0, len(m.W))
	for k := range m.W {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (m *Model) maxBytes() int {
	if m.fixedMax > 0 {
		return m.fixedMax
	}
	n := 0
	for k := range m.W {
		if len(k) > n {
			n = len(k)
		}
	}
	return n
}

// lengths says which lengths in bytes the words have.
func (m *Model) lengths() []bool {
	if m.fixedLens != nil {
		return m.fixedLens
	}
	l := make([]bool, m.maxBytes()+1)
	for k := range m.W {
		l[len(k)] = true
	}
	if m.fixedMax > 0 {
		m.fixedLens = l
	}
	return l
}

// posArgs gives the part of speech as an optional argument: none at all for half of the words without one.
func posArgs(w, p string) []string {
	sum := 0
	for i := 0; i < len(w); i++ {
		sum += int(w[i])
	}
	if p == "" && sum%2 == 1 {
		return nil
	}
	return []string{p}
}

// load builds a model and a segmenter of the rows, by AddToken.
func load(rows []Row, o Opts) (*gse.Segmenter, *Model, error) {
	seg := newSeg(o)
	m := newModel()
	for _, r := range rows {
		if err := seg.AddToken(string(r.W), r.F, posArgs(string(r.W), string(r.P))...); err != nil {
			if strings.IndexByte(string(r.W), 0) >= 0 {
				continue
			}
			return nil, nil, fmt.Errorf("AddToken(%q): %v", string(r.W), err)
		}
		m.add(string(r.W), r.F, string(r.P), o)
	}
	seg.CalcToken()
	return seg, m, nil
}

const oovCost = 32

// atomCosts gives the least cost of segmenting atoms[i:] for every i.
// With noWhole the single step over all atoms is not allowed.
func (m *Model) leastCost(atoms []string, logT float64, noWhole bool) float64 {
	n := len(atoms)
	mb := m.maxBytes()
	lens := m.lengths()
	all := strings.Join(atoms, "")
	at := make([]int, n+1)
	for i, x := range atoms {
		at[i+1] = at[i] + len(x)
	}
	best := make([]float64, n+1)
	for i := n - 1; i >= 0; i-- {
		best[i] = math.Inf(1)
		for j := i; j < n; j++ {
			k := at[j+1] - at[i]
			if k > mb && j > i {
				break
			}
			if noWhole && i == 0 && j == n-1 {
				continue
			}
			var e Entry
			ok := false
			if k <= mb && lens[k] {
				e, ok = m.W[all[at[i]:at[j+1]]]
			}
			switch {
			case ok:
				best[i] = math.Min(best[i], logT-math.Log2(e.F)+best[j+1])
			case j == i:
				best[i] = math.Min(best[i], oovCost+best[j+1])
			}
		}
	}
	return best[0]
}

// costEps bounds the rounding of sums of n costs, up to the given one.
func costEps(cost float64, n int) float64 {
	return 1e-9 + 1e-15*float64(n+2)*(math.Abs(cost)+64)
}

// --- reference of the DAG cuts ---

// dag holds, for every character, the ends (exclusive) of the steps that start there.
type dag struct {
	runes []rune
	ends  [][]int
	score [][]float64
	best  []float64
	words []bool // whether some word starts there
}

// cutNorm is the text the dictionary cuts work on.
func cutNorm(s string, lower bool) string {
	if lower {
		s = strings.ToLower(s)
	}
	return string([]rune(s))
}

func (m *Model) dag(s string, logT float64) *dag {
	d := &dag{runes: []rune(s)}
	n := len(d.runes)
	d.ends = make([][]int, n)
	d.score = make([][]float64, n)
	d.best = make([]float64, n+1)
	d.words = make([]bool, n)
	mb := m.maxBytes()
	lens := m.lengths()
	all := string(d.runes)
	at := make([]int, n+1)
	for i, x := range d.runes {
		at[i+1] = at[i] + len(string(x))
	}
	for i := n - 1; i >= 0; i-- {
		for j := i; j < n; j++ {
			k := at[j+1] - at[i]
			if k > mb {
				break
			}
			if !lens[k] {
				continue
			}
			if e, ok := m.W[all[at[i]:at[j+1]]]; ok && e.F > 0 {
				d.ends[i] = append(d.ends[i], j+1)
				d.score[i] = append(d.score[i], math.Log(e.F)-logT)
				d.words[i] = true
			}
		}
		if !d.words[i] {
			d.ends[i] = []int{i + 1}
			d.score[i] = []float64{-logT}
		}
		d.best[i] = math.Inf(-1)
		for k, e := range d.ends[i] {
			if v := d.score[i][k] + d.best[e]; v > d.best[i] || k == 0 {
				d.best[i] = v
			}
		}
	}
	return d
}

func scoreEps(x float64) float64 { return 1e-9 * (1 + math.Abs(x)) }

func (d *dag) has(i, e int) (float64, bool) {
	for k, x := range d.ends[i] {
		if x == e {
			return d.score[i][k], true
		}
	}
	return 0, false
}

// paths enumerates the best paths as lists of step ends, up to max+1 of them.
func (d *dag) paths(max int) [][]int {
	var out [][]int
	n := len(d.runes)
	var rec func(i int, acc float64, p []int)
	total := d.best[0]
	rec = func(i int, acc float64, p []int) {
		if len(out) > max {
			return
		}
		if i == n {
			out = append(out, append([]int(nil), p...))
			return
		}
		for k, e := range d.ends[i] {
			v := acc + d.score[i][k] + d.best[e]
			if v >= total-scoreEps(total) || math.IsInf(total, 0) || math.IsNaN(total) {
				rec(e, acc+d.score[i][k], append(p, e))
			}
		}
	}
	if n > 0 {
		rec(0, 0, nil)
	} else {
		out = [][]int{nil}
	}
	return out
}

func asciiAlnum(r rune) bool {
	return r < 128 && (r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z')
}

// --- comparing ---

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func q(a []string) string { return fmt.Sprintf("%q", a) }

func close64(a, b float64) bool {
	if a == b {
		return true
	}
	return math.Abs(a-b) <= 1e-9*(math.Abs(a)+math.Abs(b)+1e-300)
}

func isKana(r rune) bool {
	return unicode.Is(unicode.Hiragana, r) || unicode.Is(unicode.Katakana, r)
}
