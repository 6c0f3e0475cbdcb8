package main

import (
	"bufio"
	"compress/gzip"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm"
	"pgregory.net/rapid"
)

// --- reference of the character HMM ---

const noProb = -3.14e100

// hmmModel gives the emission log probabilities of B, E, M and S.
type hmmModel struct{ B, E, M, S map[rune]float64 }

var (
	startP = map[byte]float64{'B': -0.26268660809250016, 'E': noProb, 'M': noProb, 'S': -1.4652633398537678}
	transP = map[[2]byte]float64{
		{'B', 'E'}: -0.510825623765990, {'B', 'M'}: -0.916290731874155,
		{'E', 'B'}: -0.5897149736854513, {'E', 'S'}: -0.8085250474669937,
		{'M', 'E'}: -0.33344856811948514, {'M', 'M'}: -1.2603623820268226,
		{'S', 'B'}: -0.7211965654669841, {'S', 'S'}: -0.6658631448798212,
	}
)

func (m *hmmModel) emitOf(t map[rune]float64, r rune) float64 {
	if v, ok := t[r]; ok {
		return v
	}
	return noProb
}

func (m *hmmModel) emit(s byte, r rune) float64 {
	switch s {
	case 'B':
		return m.emitOf(m.B, r)
	case 'E':
		return m.emitOf(m.E, r)
	case 'M':
		return m.emitOf(m.M, r)
	}
	return m.emitOf(m.S, r)
}

var (
	defModelOnce sync.Once
	defModel     *hmmModel
)

// defaultModel reads the harness's own copy of the shipped emission tables.
func defaultModel(root string) *hmmModel {
	defModelOnce.Do(func() {
		f, err := os.Open(filepath.Join(root, "data", "hmm_emit.txt.gz"))
		if err != nil {
			hErr("%v", err)
		}
		defer f.Close()
		z, err := gzip.NewReader(f)
		if err != nil {
			hErr("%v", err)
		}
		m := &hmmModel{map[rune]float64{}, map[rune]float64{}, map[rune]float64{}, map[rune]float64{}}
		tab := map[string]map[rune]float64{"B": m.B, "E": m.E, "M": m.M, "S": m.S}
		sc := bufio.NewScanner(z)
		for sc.Scan() {
			x := strings.Fields(sc.Text())
			c, e1 := strconv.ParseInt(x[1], 16, 32)
			v, e2 := strconv.ParseFloat(x[2], 64)
			if e1 != nil || e2 != nil {
				hErr("%v %v", e1, e2)
			}
			tab[x[0]][rune(c)] = v
		}
		if err := sc.Err(); err != nil || len(m.S) < 10000 {
			hErr("bad model file: %v", err)
		}
		defModel = m
	})
	return defModel
}

// bestWords gives the greatest score of cutting the characters into words S and B M* E.
func (m *hmmModel) bestWords(rs []rune) float64 {
	tr := func(a, b byte) float64 { return transP[[2]byte{a, b}] }
	// the best scores of what is left from a character on, when it begins a
	// word after one of one (S) or of more characters (E), and when it goes
	// on with one whose last character so far is the first (B) or not (M)
	afterS, afterE := 0.0, 0.0
	inB, inM := math.Inf(-1), math.Inf(-1)
	for i := len(rs) - 1; i >= 0; i-- {
		one, first := m.emitOf(m.S, rs[i])+afterS, m.emitOf(m.B, rs[i])+inB
		end, mid := m.emitOf(m.E, rs[i])+afterE, m.emitOf(m.M, rs[i])+inM
		if i == 0 {
			return math.Max(startP['S']+one, startP['B']+first)
		}
		afterS = math.Max(tr('S', 'S')+one, tr('S', 'B')+first)
		afterE = math.Max(tr('E', 'S')+one, tr('E', 'B')+first)
		inB = math.Max(tr('B', 'E')+end, tr('B', 'M')+mid)
		inM = math.Max(tr('M', 'E')+end, tr('M', 'M')+mid)
	}
	return 0
}

func statesOf(ws []string) []byte {
	var st []byte
	for _, w := range ws {
		n := len([]rune(w))
		if n == 1 {
			st = append(st, 'S')
			continue
		}
		st = append(st, 'B')
		for i := 2; i < n; i++ {
			st = append(st, 'M')
		}
		st = append(st, 'E')
	}
	return st
}

func (m *hmmModel) score(rs []rune, st []byte) float64 {
	v := 0.0
	for i, s := range st {
		if i == 0 {
			v = startP[s]
		} else if t, ok := transP[[2]byte{st[i-1], s}]; ok {
			v += t
		} else {
			return math.Inf(-1)
		}
		v += m.emit(s, rs[i])
	}
	return v
}

// checkViterbi judges a cut of Han text; decided tells whether the model settles it.
func (m *hmmModel) checkViterbi(name, text string, ws []string) (decided bool, err error) {
	if err := sameText(name, ws, text); err != nil {
		return false, err
	}
	rs := []rune(text)
	if len(rs) == 0 {
		return false, nil
	}
	best := m.bestWords(rs)
	if best < -1e90 {
		return false, nil // the model rules out every cut
	}
	if got := m.score(rs, statesOf(ws)); !(got >= best-scoreEps(best)) {
		return true, fmt.Errorf("%s cuts %q to %q: score %.9f, the best state sequence has %.9f", name, text, ws, got, best)
	}
	return true, nil
}

// --- C17 ---

// HStep is one step of a history of models and cuts.
type HStep struct {
	Op    string       // cut | cutmod | load | loaddef | loadfew | loaddict | viterbi | probe
	Model [][4]float64 `json:",omitempty"` // emissions of Chars, in the order B E M S; > 0: none
	Text  Raw          `json:",omitempty"`
}

type caseHMM struct {
	Chars Raw
	Steps []HStep
}

func (c caseHMM) model(s HStep) *hmmModel {
	m := &hmmModel{map[rune]float64{}, map[rune]float64{}, map[rune]float64{}, map[rune]float64{}}
	for i, r := range []rune(string(c.Chars)) {
		if i >= len(s.Model) {
			break
		}
		for k, t := range []map[rune]float64{m.B, m.E, m.M, m.S} {
			if v := s.Model[i][k]; v <= 0 {
				t[r] = v
			}
		}
	}
	for _, t := range []*map[rune]float64{&m.B, &m.E, &m.M, &m.S} {
		if len(*t) == 0 {
			*t = nil // a table without entries
		}
	}
	return m
}

// Han characters: common ones, ones missing from some tables, and rare ones.
var hanPool = []rune("的一是不了人我在有他这为之大来以个中上们到说国和地也子时道出而要于就下得可你年生自会那后能对着事其里所去行过家十用发天如然作方成者多日都三小军二无同么经法当起与好看学进种将还分此心前面又定见只主没公从動說國學會時〇々㐀龘鿿豈")

func genHMMModel(t *rapid.T, n int) [][4]float64 {
	style := pick(t, "style", 40, 30, 30)
	m := make([][4]float64, n)
	without := -1
	if chance(t, "without", 6) {
		without = even(t, "withoutTable", 4)
	}
	for i := range m {
		for k := range m[i] {
			switch style {
			case 0:
				m[i][k] = -rapid.Float64Range(0, 20).Draw(t, "e")
			case 1: // ties and extremes
				m[i][k] = rapid.SampledFrom([]float64{0, -1, -2, -0.5, -30, -600}).Draw(t, "e")
			case 2: // some characters have no emission in some state
				m[i][k] = rapid.SampledFrom([]float64{1, -1, -3, -5.5, -9}).Draw(t, "e")
			}
			if k == without {
				m[i][k] = 1
			}
		}
	}
	return m
}

func genC17(t *rapid.T) caseHMM {
	n := rapid.IntRange(1, 6).Draw(t, "chars")
	var cs []rune
	for len(cs) < n {
		r := rapid.SampledFrom(hanPool).Draw(t, "c")
		dup := false
		for _, x := range cs {
			dup = dup || x == r
		}
		if !dup {
			cs = append(cs, r)
		}
	}
	c := caseHMM{Chars: Raw(string(cs))}
	user := false // whether a model of the case's characters is loaded
	text := func(user bool) Raw {
		max := 12
		if chance(t, "long", 5) {
			max = 120
			if even(t, "veryLong", 12) == 11 {
				max = 2500
				if even(t, "huge", 6) == 5 {
					max = 6000
				}
			}
		}
		k := rapid.IntRange(1, max).Draw(t, "len")
		r := make([]rune, k)
		for i := range r {
			if max > 120 && user {
				r[i] = rapid.SampledFrom(cs).Draw(t, "c")
			} else if max > 120 { // one character that the model does not have leaves all of it undecided
				r[i] = rapid.SampledFrom(commonHan).Draw(t, "o")
			} else if chance(t, "other", 10) {
				r[i] = rapid.SampledFrom(hanPool).Draw(t, "o")
			} else {
				r[i] = rapid.SampledFrom(cs).Draw(t, "c")
			}
		}
		return Raw(string(r))
	}
	ns := rapid.IntRange(1, 5).Draw(t, "steps")
	for i := 0; i < ns; i++ {
		var s HStep
		switch pick(t, "op", 30, 25, 15, 8, 4, 6, 12, 15) {
		case 0:
			s = HStep{Op: "cut", Text: text(user)}
		case 1:
			user = true
			s = HStep{Op: "cutmod", Text: text(true), Model: genHMMModel(t, n)}
		case 2:
			user = true
			s = HStep{Op: "load", Model: genHMMModel(t, n)}
		case 3:
			user = false
			s = HStep{Op: "loaddef"}
		case 4:
			user = false
			s = HStep{Op: "loadfew", Model: genHMMModel(t, n)}
		case 5:
			user = false
			s = HStep{Op: "loaddict"}
		case 6:
			s = HStep{Op: "viterbi", Text: text(user)}
		case 7: // any characters: many short texts, to see all of the tables
			k := rapid.IntRange(2, 30).Draw(t, "len")
			r := make([]rune, k)
			for i := range r {
				r[i] = rune(rapid.IntRange(0x4e00, 0x9fa5).Draw(t, "any"))
				if chance(t, "common", 30) {
					r[i] = rapid.SampledFrom(hanPool).Draw(t, "c")
				}
			}
			s = HStep{Op: "probe", Text: Raw(string(r))}
		}
		c.Steps = append(c.Steps, s)
	}
	c.Steps = append(c.Steps, HStep{Op: "cut", Text: text(user)})
	return c
}

func restoreModel() { (&gse.Segmenter{}).LoadModel() }

func runC17(c caseHMM, r *Rec) error {
	restoreModel()
	defer restoreModel()
	def := defaultModel(r.root)
	cur := def
	seg := newSeg(Opts{})
	for i, s := range c.Steps {
		name := fmt.Sprintf("step %d: HMMCut", i)
		var ws []string
		switch s.Op {
		case "load":
			cur = c.model(s)
			seg.LoadModel(cur.B, cur.E, cur.M, cur.S)
			r.Label("user-model")
			continue
		case "loaddef":
			cur = def
			seg.LoadModel()
			r.Label("default-again")
			continue
		case "loadfew":
			m := c.model(s)
			seg.LoadModel(m.B, m.E)
			cur = def
			continue
		case "loaddict":
			// the first dictionary of a segmenter that may load the model loads the default one
			o := &gse.Segmenter{SkipLog: true}
			if err := o.LoadDictStr("人口 10 n"); err != nil {
				return err
			}
			cur = def
			r.Label("default-by-dictionary")
			continue
		case "cut":
			ws = seg.HMMCut(string(s.Text))
		case "cutmod":
			cur = c.model(s)
			name = fmt.Sprintf("step %d: HMMCutMod", i)
			ws = seg.HMMCutMod(string(s.Text), cur.B, cur.E, cur.M, cur.S)
			r.Label("cutmod")
		case "probe":
			rs := []rune(string(s.Text))
			for k := range rs {
				for n := 1; n <= 3 && k+n <= len(rs); n++ {
					best := cur.bestWords(rs[k : k+n])
					p, st := hmm.Viterbi(rs[k:k+n], []byte{'B', 'M', 'E', 'S'})
					if best < -1e90 {
						continue
					}
					if math.Abs(p-best) > scoreEps(best) || math.Abs(cur.score(rs[k:k+n], st)-best) > scoreEps(best) {
						return fmt.Errorf("step %d: Viterbi(%q) gives %s with probability %.9f, the best state sequence has %.9f", i, string(rs[k:k+n]), st, p, best)
					}
					r.HitIf(n > 1, "probe")
				}
			}
			continue
		case "viterbi":
			rs := []rune(string(s.Text))
			p, st := hmm.Viterbi(rs, []byte{'B', 'M', 'E', 'S'})
			best := cur.bestWords(rs)
			if best < -1e90 {
				continue
			}
			if got := cur.score(rs, st); len(st) != len(rs) || !(got >= best-scoreEps(best)) {
				return fmt.Errorf("step %d: Viterbi(%q) gives %s with score %.9f, the best state sequence has %.9f", i, string(s.Text), st, got, best)
			}
			if math.Abs(p-best) > scoreEps(best) {
				return fmt.Errorf("step %d: Viterbi(%q) gives probability %.9f, the best state sequence has %.9f", i, string(s.Text), p, best)
			}
			r.Hit("viterbi")
			continue
		default:
			hErr("unknown step %q", s.Op)
		}
		d, err := cur.checkViterbi(name, string(s.Text), ws)
		if err != nil {
			return err
		}
		if d && len([]rune(string(s.Text))) > 1 {
			r.HitIf(cur == def, "default-model")
			r.HitIf(cur != def, "user-model-cut")
		} else {
			r.LabelIf(!d, "undecided-by-model")
		}
	}
	return nil
}

// --- C18 ---

type caseBlocks struct {
	Text Raw
	Regs []string `json:",omitempty"`
}

// expressions that look at nothing but the text they match
var plainRegs = []string{
	``, `a*`, `\d*`, `[a-z]+`, `[a-zA-Z0-9]+`, `(\d+\.\d+|[a-zA-Z0-9]+)`, `\p{Han}+`, `\p{Han}*`, `\p{Han}`, `\p{Han}{2}`,
	`[世界]+`, `人?`, `\s+`, `\s*`, `.`, `(?s).+`, `[^a-z]+`, `世界|好`, `(a|b)c?`, `[\p{Hiragana}\p{Katakana}]+`,
	`x`, `你|你好`, `你好|你`, `(?i)A+`, `\d+(?:\.\d+)?%?`, `[a-z]+?`, `\p{Han}+\d`, `[\p{Han}a-z]+`, `\pL+`, `[,。、.!]+`,
}

func genC18(t *rapid.T) caseBlocks {
	a := genAlphabet(t, true)
	var c caseBlocks
	if !chance(t, "default", 35) {
		n := rapid.IntRange(1, 2).Draw(t, "regs")
		for i := 0; i < n; i++ {
			c.Regs = append(c.Regs, rapid.SampledFrom(plainRegs).Draw(t, "reg"))
		}
	}
	pieces := []string{"3.14", "1.", "abc", "12a", "a1.5", "世界", "你好", "中国人口", "こんにちは", "  ", ".", "x.y", "99%", "A", "1.2.3", "你", "々", "大学a", "。", "é"}
	k := rapid.IntRange(0, 14).Draw(t, "n")
	s := ""
	long := -1
	if permille(t, "run", 15) {
		long = even(t, "at", k+1)
	}
	for i := 0; i < k || i == long; i++ {
		if i == long {
			s += genRun(t, cat(pieces, a.units, a.extra), 520)
			continue
		}
		if chance(t, "fixed", 60) {
			s += rapid.SampledFrom(pieces).Draw(t, "p")
		} else {
			s += rapid.SampledFrom(cat(a.units, a.extra, uHan)).Draw(t, "u")
		}
	}
	c.Text = Raw(s)
	if len(c.Regs) == 0 { // (an expression that matches the empty string takes quadratic time)
		c.Text = genHugeWords(t, c.Text, nil)
	}
	return c
}

// firstNonEmpty is the first match that is not empty.
func firstNonEmpty(re *regexp.Regexp, s string) (int, int) {
	for n := 1; ; n *= 2 {
		all := re.FindAllStringIndex(s, n)
		for _, l := range all {
			if l[0] < l[1] {
				return l[0], l[1]
			}
		}
		if len(all) < n {
			break
		}
	}
	return -1, -1
}

func runC18(c caseBlocks, r *Rec) error {
	seg := newSeg(Opts{})
	regs := compileRegs(c.Regs)
	text := string(c.Text)
	got := seg.HMMCut(text, regs...)
	direct := hmm.Cut(text, regs...)
	if !eqStrings(got, direct) {
		return fmt.Errorf("HMMCut(%q) gives %q, hmm.Cut gives %q", text, got, direct)
	}
	blk := regexp.MustCompile(`\p{Han}+`)
	skip := regexp.MustCompile(`(\d+\.\d+|[a-zA-Z0-9]+)`)
	if len(regs) > 0 {
		skip = regs[0]
	}
	if len(regs) > 1 {
		blk = regs[1]
	}
	m := defaultModel(r.root)
	var want []string
	blocks, skips, gaps := 0, 0, 0
	for s := text; s != ""; {
		if b0, b1 := firstNonEmpty(blk, s); b0 == 0 {
			alone := seg.HMMCut(s[:b1], regs...)
			// the block alone is cut by the model
			if _, err := m.checkViterbi("HMMCut", string([]rune(s[:b1])), alone); err != nil {
				return err
			}
			want = append(want, alone...)
			s = s[b1:]
			blocks++
			continue
		}
		if k0, k1 := firstNonEmpty(skip, s); k0 == 0 {
			want = append(want, s[:k1])
			s = s[k1:]
			skips++
			continue
		}
		b0, _ := firstNonEmpty(blk, s)
		k0, _ := firstNonEmpty(skip, s)
		end := len(s)
		if b0 > 0 && b0 < end {
			end = b0
		}
		if k0 > 0 && k0 < end {
			end = k0
		}
		want = append(want, s[:end])
		s = s[end:]
		gaps++
	}
	if !eqStrings(got, want) {
		return fmt.Errorf("HMMCut(%q) with %q gives %q, block by block it is %q", text, c.Regs, got, want)
	}
	if len(c.Regs) == 0 {
		// every maximal run of Han characters stands apart
		i := 0
		cuts := map[int]bool{0: true}
		for _, p := range got {
			i += len(p)
			cuts[i] = true
		}
		if i == len(text) {
			for _, l := range blk.FindAllStringIndex(text, -1) {
				if !cuts[l[0]] || !cuts[l[1]] {
					return fmt.Errorf("HMMCut(%q) gives %q: a piece crosses the border of the Han run %q", text, got, text[l[0]:l[1]])
				}
			}
		} else {
			return fmt.Errorf("HMMCut(%q) gives %q", text, got)
		}
	}
	if blocks > 0 && skips+gaps > 0 {
		r.Hit(fmt.Sprintf("regs-%d", len(regs)))
	}
	r.LabelIf(skips > 0, "skip")
	r.LabelIf(gaps > 0, "gap")
	return nil
}

func init() {
	reg(Prop{ID: "C17", Quick: 40000, Thorough: 720000,
		Rule: "a text of two or more Han characters was cut (or decoded) under a model that allows some cut, and compared with the optimum over all words"}, genC17, runC17)
	reg(Prop{ID: "C18", Quick: 300000, Thorough: 12000000,
		Rule: "the text has a block for the model and something outside it"}, genC18, runC18)
}
