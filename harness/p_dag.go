package main

import (
	"fmt"
	"math"
	"regexp"
	"strings"

	"github.com/go-ego/gse"
	"pgregory.net/rapid"
)

// caseCut is a dictionary with a history, and one text to cut.
type caseCut struct {
	O    Opts
	Rows []Row
	Ops  []DOp `json:",omitempty"`
	Text Raw
	Regs []string `json:",omitempty"` // regular expressions of the HMM cut: skip, block
	HMM  bool     `json:",omitempty"`
	Each bool     `json:",omitempty"` // check before the history and after each of its operations too
}

func (c caseCut) words() []string {
	w := rowWords(c.Rows)
	for _, o := range c.Ops {
		if o.W != "" {
			w = append(w, string(o.W))
		}
		w = append(w, rowWords(o.R)...)
	}
	return w
}

// build makes the segmenter and its model, and recalculates the weights at the end.
func (c caseCut) build(r *Rec) (*gse.Segmenter, *Model, Opts, error) {
	cur := c.O
	seg, m, err := load(c.Rows, cur)
	if err != nil {
		return nil, nil, cur, err
	}
	for i, op := range c.Ops {
		if err := applyDOp(seg, m, op, &cur); err != nil {
			return nil, nil, cur, fmt.Errorf("operation %d: %v", i, err)
		}
	}
	if len(c.Ops) > 0 {
		r.Label("history")
		seg.CalcToken()
	}
	return seg, m, cur, nil
}

// each builds the segmenter and runs the check on it: at the end or, with Each, also after
// the first load and after each operation, when nobody recalculated the weights unless calc
// says that the check relies on them.
func (c caseCut) each(r *Rec, calc bool, check func(seg *gse.Segmenter, m *Model, cur Opts) error) error {
	if !c.Each || len(c.Ops) == 0 {
		seg, m, cur, err := c.build(r)
		if err != nil {
			return err
		}
		return check(seg, m, cur)
	}
	cur := c.O
	seg, m, err := load(c.Rows, cur)
	if err != nil {
		return err
	}
	if err := check(seg, m, cur); err != nil {
		return fmt.Errorf("before the history: %v", err)
	}
	for i, op := range c.Ops {
		if err := applyDOp(seg, m, op, &cur); err != nil {
			return fmt.Errorf("operation %d: %v", i, err)
		}
		if calc {
			seg.CalcToken()
		}
		if err := check(seg, m, cur); err != nil {
			return fmt.Errorf("after operation %d (%s): %v", i, op.K, err)
		}
	}
	r.Label("checked along the history")
	return nil
}

var regPool = []string{
	``, `a*`, `\d*`, `[a-z]+`, `[a-zA-Z0-9]+`, `(\d+\.\d+|[a-zA-Z0-9]+)`, `\p{Han}+`, `\p{Han}*`, `\p{Han}`,
	`[世界]+`, `人?`, `\s+`, `\s*`, `.`, `(?s).+`, `\b`, `[^a-z]+`, `世界|好`, `(a|b)c?`, `$`, `^`, `[\p{Hiragana}\p{Katakana}]+`,
	`x`, `你|你好`, `(?i)A+`, `^a`, `a$`, `\B.`,
}

func genCut(t *rapid.T, hist int, regs bool) caseCut {
	a := genAlphabet(t, true)
	c := caseCut{O: genOpts(t), Rows: genRows(t, a, 0, 12)}
	if chance(t, "lowfreq", 10) {
		for i := range c.Rows {
			if chance(t, "low", 40) {
				c.Rows[i].F = rapid.SampledFrom([]float64{1, 0.5, 0.125, 1e-6}).Draw(t, "f")
			}
		}
	}
	if chance(t, "history", hist) {
		c.Ops = genDOps(t, a, rowWords(c.Rows), 5, false)
		c.Each = rapid.Bool().Draw(t, "each") && len(c.words()) < 1500
	}
	c.Text = genText(t, a, c.words(), 12)
	c.Rows, c.Text = genColossal(t, a, c.Rows, c.Text)
	if regs {
		n := rapid.IntRange(0, 2).Draw(t, "regs")
		for i := 0; i < n; i++ {
			c.Regs = append(c.Regs, rapid.SampledFrom(regPool).Draw(t, "reg"))
		}
		c.HMM = rapid.Bool().Draw(t, "hmm")
	}
	return c
}

func compileRegs(l []string) []*regexp.Regexp {
	var r []*regexp.Regexp
	for _, x := range l {
		re, err := regexp.Compile(x)
		if err != nil {
			hErr("%v", err)
		}
		r = append(r, re)
	}
	return r
}

func noEmpty(name string, p []string) error {
	for i, x := range p {
		if x == "" {
			return fmt.Errorf("%s: piece %d of %q is empty", name, i, p)
		}
	}
	return nil
}

// sameText tells whether the pieces concatenate to the text, invalid bytes aside.
func sameText(name string, p []string, text string) error {
	if err := noEmpty(name, p); err != nil {
		return err
	}
	got := string([]rune(strings.Join(p, "")))
	if want := string([]rune(text)); got != want {
		return fmt.Errorf("%s gives %q: %q of the text %q", name, p, got, want)
	}
	return nil
}

func (m *Model) logTotal(seg *gse.Segmenter) float64 {
	t := seg.Dictionary().TotalFreq()
	if t <= 0 || len(m.W) == 0 {
		return 0
	}
	return math.Log(t)
}

// checkCutPath is C05 on one output.
func checkCutPath(d *dag, out []string) error {
	if err := noEmpty("Cut(s, false)", out); err != nil {
		return err
	}
	if j := strings.Join(out, ""); j != string(d.runes) {
		return fmt.Errorf("Cut(s, false) gives %q: %q of the text %q", out, j, string(d.runes))
	}
	no := math.Inf(-1)
	// the best score of reading the pieces so far; [1]: the last was a run of single letters and digits
	st := [2]float64{0, no}
	ok := [2]bool{true, false}
	at := 0
	for k, p := range out {
		n := len([]rune(p))
		ns, nok := [2]float64{no, no}, [2]bool{}
		put := func(i int, v float64) {
			if !nok[i] || v > ns[i] {
				ns[i], nok[i] = v, true
			}
		}
		// as one step
		if sc, has := d.has(at, at+n); has && !(n == 1 && asciiAlnum(d.runes[at])) {
			for i := range st {
				if ok[i] {
					put(0, st[i]+sc)
				}
			}
		}
		// as a run of single steps
		if ok[0] {
			sum, good := 0.0, true
			for i := at; i < at+n; i++ {
				sc, has := d.has(i, i+1)
				if !has || !asciiAlnum(d.runes[i]) {
					good = false
					break
				}
				sum += sc
			}
			if good {
				put(1, st[0]+sum)
			}
		}
		if !nok[0] && !nok[1] {
			return fmt.Errorf("Cut(s, false) gives %q of %q: piece %d (%q) is no step of the text there", out, string(d.runes), k, p)
		}
		st, ok = ns, nok
		at += n
	}
	score := math.Max(st[0], st[1])
	if best := d.best[0]; score < best-scoreEps(best) {
		return fmt.Errorf("Cut(s, false) gives %q of %q: log probability %.9f, the best path has %.9f", out, string(d.runes), score, best)
	}
	return nil
}

// hmmOf is what Cut(s, true) must give for one path.
func (m *Model) hmmOf(d *dag, path []int, cut func(string) []string) []string {
	var out []string
	var buf []rune
	flush := func() {
		switch {
		case len(buf) == 0:
		case len(buf) == 1:
			out = append(out, string(buf))
		case m.W[string(buf)].F > 0:
			for _, x := range buf {
				out = append(out, string(x))
			}
		default:
			out = append(out, cut(string(buf))...)
		}
		buf = nil
	}
	at := 0
	for _, e := range path {
		if e-at == 1 {
			buf = append(buf, d.runes[at])
		} else {
			flush()
			out = append(out, string(d.runes[at:e]))
		}
		at = e
	}
	flush()
	return out
}

func refCutAll(d *dag) []string {
	var out []string
	last := -1
	for k := range d.runes {
		multi := false
		if d.words[k] {
			for _, e := range d.ends[k] {
				if e > k+1 {
					multi = true
					out = append(out, string(d.runes[k:e]))
					last = e - 1
				}
			}
		}
		if !multi && k > last {
			out = append(out, string(d.runes[k]))
			last = k
		}
	}
	return out
}

func refSearch(m *Model, ws []string) []string {
	var out []string
	for _, w := range ws {
		r := []rune(w)
		for _, n := range []int{2, 3} {
			for i := 0; i+n <= len(r) && n < len(r); i++ {
				if g := string(r[i : i+n]); m.W[g].F > 0 {
					out = append(out, g)
				}
			}
		}
		out = append(out, w)
	}
	return out
}

func startsKana(s string) bool {
	for _, r := range s {
		return isKana(r)
	}
	return false
}

// expand lists a token the way the search mode does.
func expand(tok *gse.Token, visit func(*gse.Token)) {
	on := false
	for _, s := range tok.Segments() {
		if len(s.Token().Segments()) > 1 || startsKana(s.Token().Text()) {
			on = true
		}
		if on {
			expand(s.Token(), visit)
		}
	}
	visit(tok)
}

// checkTree is C09 on one dictionary word.
func checkTree(seg *gse.Segmenter, m *Model, o Opts, w string, tok *gse.Token, logT float64) (parts int, err error) {
	atoms := refAtoms(w, o)
	segs := tok.Segments()
	if len(atoms) == 1 {
		if len(segs) != 0 {
			return 0, fmt.Errorf("the one-atom word %q has %d sub-segments", w, len(segs))
		}
		return 0, nil
	}
	step := func(tx string, single bool) (float64, bool) {
		if e, ok := m.W[tx]; ok {
			return logT - math.Log2(e.F), true
		}
		return oovCost, single
	}
	list := func() string {
		s := ""
		for _, x := range segs {
			s += fmt.Sprintf("%q[%d,%d) ", x.Token().Text(), x.Start(), x.End())
		}
		return s
	}
	ai, at := 0, 0
	cost := 0.0
	gap := func(to int) error {
		for at < to {
			if ai >= len(atoms) || len([]rune(atoms[ai])) != 1 || !startsKana(atoms[ai]) {
				return fmt.Errorf("the sub-segments of %q leave out more than single kana: %s", w, list())
			}
			c, _ := step(atoms[ai], true)
			cost += c
			at += len(atoms[ai])
			ai++
			parts++
		}
		return nil
	}
	for _, s := range segs {
		tx := s.Token().Text()
		if err := gap(s.Start()); err != nil {
			return 0, err
		}
		if s.Start() != at || s.End() != at+len(tx) || s.End() > len(w) || w[s.Start():s.End()] != tx {
			return 0, fmt.Errorf("sub-segments of %q: %s", w, list())
		}
		n, rest := 0, len(tx)
		for rest > 0 && ai+n < len(atoms) {
			rest -= len(atoms[ai+n])
			n++
		}
		if rest != 0 {
			return 0, fmt.Errorf("sub-segments of %q do not consist of whole atoms: %s", w, list())
		}
		if n == 1 && startsKana(tx) {
			return 0, fmt.Errorf("sub-segments of %q include a single kana: %s", w, list())
		}
		c, ok := step(tx, n == 1)
		if !ok {
			return 0, fmt.Errorf("sub-segment %q of %q is neither a word nor an atom", tx, w)
		}
		cost += c
		at += len(tx)
		ai += n
		parts++
	}
	if err := gap(len(w)); err != nil {
		return 0, err
	}
	if parts < 2 {
		return 0, fmt.Errorf("the word %q has %d parts: %s", w, parts, list())
	}
	best := m.leastCost(atoms, logT, true)
	if cost > best+costEps(best, len(atoms)) {
		return 0, fmt.Errorf("sub-segments of %q cost %.6f, the least is %.6f: %s", w, cost, best, list())
	}
	return parts, nil
}

func init() {
	reg(Prop{
		ID:    "C04",
		Rule:  "random dictionary, options and text (invalid UTF-8 included) and up to two regular expressions, some matching the empty string; non-trivial: one of the cuts gives two or more pieces",
		Quick: 150000, Thorough: 7500000,
	}, func(t *rapid.T) caseCut {
		c := genCut(t, 15, true)
		genWild(t, c.Rows, c.Ops)
		if len(c.Regs) == 0 { // (an expression that matches the empty string takes quadratic time)
			c.Text = genHugeWords(t, c.Text, nil)
		}
		return c
	},
		func(c caseCut, r *Rec) error {
			return c.each(r, false, func(seg *gse.Segmenter, _ *Model, cur Opts) error {
				text := string(c.Text)
				norm := cutNorm(text, !cur.NoLower)
				res := compileRegs(c.Regs)
				outs := []struct {
					name string
					out  []string
					text string
				}{
					{"Cut(s, false)", seg.Cut(text, false), norm},
					{"Cut(s, true)", seg.Cut(text, true), norm},
					{"CutDAGNoHMM", seg.CutDAGNoHMM(text), norm},
					{"CutDAG", seg.CutDAG(text, res...), norm},
					{"CutDAG without expressions", seg.CutDAG(text), norm},
					{"HMMCut", seg.HMMCut(text, res...), text},
					{"HMMCut without expressions", seg.HMMCut(text), text},
				}
				for _, o := range outs {
					if err := sameText(o.name, o.out, o.text); err != nil {
						return fmt.Errorf("%v (expressions %q)", err, c.Regs)
					}
					r.HitIf(len(o.out) > 1, "several pieces")
				}
				r.LabelIf(len(c.Regs) > 0, "expressions")
				r.LabelIf(strings.ToValidUTF8(text, "") != text, "invalid UTF-8")
				return nil
			})
		})

	reg(Prop{
		ID:    "C05",
		Rule:  "random dictionary (ties and overlaps, frequencies below 1, histories) and text; non-trivial: the text has more than one path and the result has a piece of several characters",
		Quick: 400000, Thorough: 12000000,
	}, func(t *rapid.T) caseCut {
		c := genCut(t, 30, false)
		c.Text = genHuge(t, c.Text, c.words())
		return c
	},
		func(c caseCut, r *Rec) error {
			return c.each(r, false, func(seg *gse.Segmenter, m *Model, cur Opts) error {
				d := m.dag(cutNorm(string(c.Text), !cur.NoLower), m.logTotal(seg))
				out := seg.Cut(string(c.Text), false)
				if err := checkCutPath(d, out); err != nil {
					return err
				}
				if o2 := seg.CutDAGNoHMM(string(c.Text)); !eqStrings(out, o2) {
					return fmt.Errorf("CutDAGNoHMM gives %q, Cut(s, false) %q", o2, out)
				}
				multi, choice := false, false
				for _, p := range out {
					multi = multi || len([]rune(p)) > 1
				}
				for _, e := range d.ends {
					choice = choice || len(e) > 1
				}
				r.HitIf(multi && choice, "choices")
				return nil
			})
		})

	reg(Prop{
		ID:    "C06",
		Rule:  "random dictionary, options, text and regular expressions; non-trivial: the best path has a word of several characters and a run of two or more single characters",
		Quick: 250000, Thorough: 12000000,
		Assume: []string{"texts with more than 32 equally probable paths are only checked for losing nothing", "HMMCut itself is the subject of C17 and C18"},
	}, func(t *rapid.T) caseCut {
		c := genCut(t, 25, true)
		if len(c.Regs) == 0 {
			c.Text = genHugeWords(t, c.Text, c.words())
		}
		return c
	},
		func(c caseCut, r *Rec) error {
			return c.each(r, false, func(seg *gse.Segmenter, m *Model, cur Opts) error {
				norm := cutNorm(string(c.Text), !cur.NoLower)
				d := m.dag(norm, m.logTotal(seg))
				res := compileRegs(c.Regs)
				out := seg.CutDAG(string(c.Text), res...)
				paths := d.paths(32)
				if len(paths) > 32 {
					r.Label("too many ties")
					return sameText("CutDAG", out, norm)
				}
				check := func(name string, out []string, res []*regexp.Regexp) error {
					var first []string
					for i, p := range paths {
						want := m.hmmOf(d, p, func(s string) []string { return seg.HMMCut(s, res...) })
						if eqStrings(out, want) {
							return nil
						}
						if i == 0 {
							first = want
						}
					}
					return fmt.Errorf("%s gives %q of %q, none of the %d best paths gives it (one gives %q)", name, out, norm, len(paths), first)
				}
				if err := check("CutDAG", out, res); err != nil {
					return err
				}
				if err := check("Cut(s, true)", seg.Cut(string(c.Text), true), nil); err != nil {
					return err
				}
				for _, p := range paths {
					multi, run, best := false, 0, 0
					at := 0
					for _, e := range p {
						if e-at == 1 {
							run++
						} else {
							run = 0
							multi = true
						}
						if run > best {
							best = run
						}
						at = e
					}
					r.HitIf(multi && best > 1, "words and runs")
					r.LabelIf(best > 1, "run")
				}
				r.LabelIf(len(paths) > 1, "ties")
				return nil
			})
		})

	reg(Prop{
		ID:    "C07",
		Rule:  "random dictionary and text; non-trivial: a word of several characters is listed",
		Quick: 400000, Thorough: 12000000,
	}, func(t *rapid.T) caseCut {
		c := genCut(t, 25, false)
		c.Text = genHuge(t, c.Text, c.words())
		genWild(t, c.Rows, c.Ops)
		return c
	},
		func(c caseCut, r *Rec) error {
			return c.each(r, false, func(seg *gse.Segmenter, m *Model, cur Opts) error {
				d := m.dag(cutNorm(string(c.Text), !cur.NoLower), m.logTotal(seg))
				want := refCutAll(d)
				got := seg.CutAll(string(c.Text))
				if !eqStrings(got, want) {
					return fmt.Errorf("CutAll(%q) gives %q, want %q (words %q)", string(c.Text), got, want, m.keys())
				}
				for _, x := range got {
					r.HitIf(len([]rune(x)) > 1, "words")
				}
				return nil
			})
		})

	reg(Prop{
		ID:    "C08",
		Rule:  "random dictionary and text, with and without HMM; non-trivial: a two- or three-character substring is added",
		Quick: 400000, Thorough: 12000000,
	}, func(t *rapid.T) caseCut {
		c := genCut(t, 25, false)
		c.Text = genHuge(t, c.Text, c.words())
		genWild(t, c.Rows, c.Ops)
		c.HMM = len(c.Text) < 6000 && rapid.Bool().Draw(t, "hmm")
		return c
	}, func(c caseCut, r *Rec) error {
		return c.each(r, false, func(seg *gse.Segmenter, m *Model, _ Opts) error {
			ws := seg.Cut(string(c.Text), c.HMM)
			want := refSearch(m, ws)
			got := seg.CutSearch(string(c.Text), c.HMM)
			if !eqStrings(got, want) {
				return fmt.Errorf("CutSearch(%q, %v) gives %q, want %q", string(c.Text), c.HMM, got, want)
			}
			r.HitIf(len(got) > len(ws), "substrings")
			r.LabelIf(c.HMM, "hmm")
			return nil
		})
	})

	reg(Prop{
		ID:    "C09",
		Rule:  "random dictionary with words made of words, a history, and a text; non-trivial: some word of the dictionary has sub-segments and the text gives more items in search mode than in normal mode",
		Quick: 160000, Thorough: 8900000,
	}, func(t *rapid.T) caseCut {
		c := genCut(t, 30, false)
		if len(c.Ops) == 0 && len(c.Rows) < 500 { // (ToString takes quadratic time)
			c.Text = genHugeWords(t, c.Text, nil)
		}
		// words made of two and three other words
		n := rapid.IntRange(0, 3).Draw(t, "compounds")
		for i := 0; i < n && len(c.Rows) > 0; i++ {
			w := ""
			k := rapid.IntRange(2, 3).Draw(t, "parts")
			for j := 0; j < k; j++ {
				w += string(rapid.SampledFrom(c.Rows).Draw(t, "part").W)
			}
			if len(w) < 200 {
				c.Rows = append(c.Rows, Row{Raw(w), genFreq(t), genPos(t)})
				c.Text = c.Text + Raw(w)
			}
		}
		return c
	}, func(c caseCut, r *Rec) error {
		return c.each(r, true, func(seg *gse.Segmenter, m *Model, cur Opts) error {
			logT := math.Log2(seg.Dictionary().TotalFreq())
			dict := seg.Dictionary()
			for _, w := range m.keys() {
				if w == "" {
					continue
				}
				v, _, err := seg.Value(w)
				if err != nil || v < 0 || v >= len(dict.Tokens) {
					return fmt.Errorf("Value(%q) gives %v, %v", w, v, err)
				}
				tok := &dict.Tokens[v]
				if tok.Text() != w {
					return fmt.Errorf("Value(%q) points at the token %q", w, tok.Text())
				}
				n, err := checkTree(seg, m, cur, w, tok, logT)
				if err != nil {
					return err
				}
				r.LabelIf(n > 2, "three or more parts")
			}
			text := string(c.Text)
			segs := seg.Segment([]byte(text))
			var all, plain []gse.SegPos
			for i := range segs {
				tok := segs[i].Token()
				plain = append(plain, gse.SegPos{Text: tok.Text(), Pos: tok.Pos()})
				expand(tok, func(x *gse.Token) { all = append(all, gse.SegPos{Text: x.Text(), Pos: x.Pos()}) })
			}
			for _, mode := range []bool{true, false} {
				want := plain
				if mode {
					want = all
				}
				var texts []string
				var sb strings.Builder
				for _, x := range want {
					texts = append(texts, x.Text)
					sb.WriteString(x.Text + "/" + x.Pos + " ")
				}
				str := sb.String()
				if got := seg.Slice(text, mode); !eqStrings(got, texts) {
					return fmt.Errorf("Slice(%q, %v) gives %q, want %q", text, mode, got, texts)
				}
				if got := gse.ToSlice(segs, mode); !eqStrings(got, texts) {
					return fmt.Errorf("ToSlice(%q, %v) gives %q, want %q", text, mode, got, texts)
				}
				if got := seg.String(text, mode); got != str {
					return fmt.Errorf("String(%q, %v) gives %q, want %q", text, mode, got, str)
				}
				if got := gse.ToString(segs, mode); got != str {
					return fmt.Errorf("ToString(%q, %v) gives %q, want %q", text, mode, got, str)
				}
				for _, got := range [][]gse.SegPos{seg.Pos(text, mode), gse.ToPos(segs, mode)} {
					if len(got) != len(want) {
						return fmt.Errorf("Pos(%q, %v) gives %v, want %v", text, mode, got, want)
					}
					for i := range got {
						if got[i] != want[i] {
							return fmt.Errorf("Pos(%q, %v) gives %v, want %v", text, mode, got, want)
						}
					}
				}
				if mode {
					if got := seg.CutSearch(text); !eqStrings(got, texts) {
						return fmt.Errorf("CutSearch(%q) gives %q, want %q", text, got, texts)
					}
				}
			}
			r.HitIf(len(all) > len(plain), "expanded")
			return nil
		})
	})
}
