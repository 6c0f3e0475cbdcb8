package main

import (
	"fmt"
	"math"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm/pos"
	"pgregory.net/rapid"
)

func posSeg(seg *gse.Segmenter) *pos.Segmenter {
	var p pos.Segmenter
	p.WithGse(*seg)
	return &p
}

func spTexts(sp []gse.SegPos) []string {
	r := make([]string, len(sp))
	for i, x := range sp {
		r[i] = x.Text
	}
	return r
}

func genC19(t *rapid.T) caseCut {
	c := genCut(t, 25, true)
	genWild(t, c.Rows, c.Ops)
	c.Text = clip(c.Text, 600)
	c.HMM = rapid.Bool().Draw(t, "hmm")
	s := string(c.Text)
	// runs of Han characters the dictionary does not know
	if chance(t, "han", 50) {
		n := rapid.IntRange(1, 10).Draw(t, "n")
		x := ""
		for i := 0; i < n; i++ {
			x += string(anyHan(t))
		}
		if rapid.Bool().Draw(t, "front") {
			s = x + s
		} else {
			s += x
		}
	}
	c.Text = Raw(s)
	return c
}

func runC19(c caseCut, r *Rec) error {
	return c.each(r, false, func(seg *gse.Segmenter, m *Model, _ Opts) error { return checkC19(c, seg, m, r) })
}

func checkC19(c caseCut, seg *gse.Segmenter, m *Model, r *Rec) error {
	text := string(c.Text)
	got := posSeg(seg).Cut(text, c.HMM)
	name := fmt.Sprintf("pos Cut(%q, %v)", text, c.HMM)
	ps := spTexts(got)
	if err := noEmpty(name, ps); err != nil {
		return err
	}
	if j := strings.Join(ps, ""); j != cutNorm(text, false) {
		return fmt.Errorf("%s gives %q: %q", name, ps, j)
	}
	r.LabelIf(!utf8.ValidString(text), "invalid UTF-8")
	if c.HMM {
		for _, x := range got {
			if e, ok := m.W[x.Text]; x.Pos == "" && !(ok && e.P == "") {
				return fmt.Errorf("%s gives %q: the piece %q has no tag", name, got, x.Text)
			}
		}
	} else if again := posSeg(seg).Cut(text); fmt.Sprint(again) != fmt.Sprint(got) {
		return fmt.Errorf("pos Cut(%q) gives %q, with HMM off it is %q", text, again, got)
	}
	r.HitIf(len(got) > 1, fmt.Sprintf("hmm-%v", c.HMM))
	return nil
}

// --- C20 ---

func genC20(t *rapid.T) caseCut {
	a := alphabet{units: uHan[:rapid.IntRange(1, 6).Draw(t, "han")]}
	if chance(t, "latin", 60) {
		a.units = cat(a.units, uLower[:rapid.IntRange(1, 3).Draw(t, "lower")], uUpper[:1], uDigit[:2])
	}
	a.extra = []string{" ", ",", "。", "!", "的", "是"}
	if chance(t, "signs", 10) {
		a.extra = append(a.extra, "_", "+", "#", "&", ".", "-", "%")
	}
	a.limit = 900
	c := caseCut{O: genOpts(t), Rows: genRows(t, a, 1, 10)}
	if chance(t, "lowfreq", 10) {
		for i := range c.Rows {
			if chance(t, "low", 40) {
				c.Rows[i].F = rapid.SampledFrom([]float64{1, 0.5, 0.125, 1e-6}).Draw(t, "f")
			}
		}
	}
	if chance(t, "runs", 25) {
		// frequent single characters and a rare word made of them
		w := ""
		n := rapid.IntRange(2, 3).Draw(t, "chars")
		for i := 0; i < n; i++ {
			x := rapid.SampledFrom(a.units).Draw(t, "char")
			w += x
			if i > 0 && chance(t, "unknown", 20) {
				continue
			}
			c.Rows = append(c.Rows, Row{Raw(x), 50000, genPos(t)})
		}
		c.Rows = append(c.Rows, Row{Raw(w), 2, genPos(t)})
	}
	if chance(t, "history", 30) {
		c.Ops = genDOps(t, a, rowWords(c.Rows), 5, false)
		c.Each = rapid.Bool().Draw(t, "each")
	}
	c.Text = genText(t, a, c.words(), 10)
	if permille(t, "manyWords", 1) && len(c.Ops) == 0 {
		if x := repeatWords(t, c.words()); x != "" {
			c.Text = x
			return c
		}
	}
	if permille(t, "longRun", 5) && len(a.units) > 6 {
		// (such a run is passed over quickly)
		x := genRun(t, a.units[len(a.units)-3:], 4097)
		if rapid.Bool().Draw(t, "front") {
			c.Text = Raw(x) + c.Text
		} else {
			c.Text += Raw(x)
		}
	}
	return c
}

func hanOrAlnum(s string) bool {
	for _, x := range s {
		if !unicode.Is(unicode.Han, x) && !asciiAlnum(x) {
			return false
		}
	}
	return true
}

func allAlnum(s string) bool {
	for _, x := range s {
		if !asciiAlnum(x) {
			return false
		}
	}
	return s != ""
}

func runC20(c caseCut, r *Rec) error {
	return c.each(r, false, func(seg *gse.Segmenter, m *Model, _ Opts) error { return checkC20(c, seg, m, r) })
}

func checkC20(c caseCut, seg *gse.Segmenter, m *Model, r *Rec) error {
	for w := range m.W {
		if !hanOrAlnum(w) {
			return nil // out of the domain of this check
		}
	}
	text := string(c.Text)
	if !utf8.ValidString(text) {
		return nil
	}
	// such signs belong to the blocks but are no words
	signs := strings.ContainsAny(text, "+#&._")
	r.LabelIf(signs, "signs in the blocks")
	p := posSeg(seg)
	got := p.Cut(text, false)
	name := fmt.Sprintf("pos Cut(%q, false) gives %q", text, got)
	d := m.dag(text, 0)

	// what each piece may be: a step of the dictionary, a run of letters and digits, or other text
	type span struct {
		from, to int
		tag      string
	}
	var words []span // pieces of two or more characters that are steps
	first := true
	at := 0
	lastRun := false

	kinds := make([]byte, len(got))
	for i, g := range got {
		n := utf8.RuneCountInString(g.Text)
		if n == 0 || at+n > len(d.runes) || string(d.runes[at:at+n]) != g.Text {
			return fmt.Errorf("%s: not the text", name)
		}
		if !hanOrAlnum(g.Text) {
			if strings.IndexFunc(g.Text, func(x rune) bool { return hanOrAlnum(string(x)) }) >= 0 {
				return fmt.Errorf("%s: piece %d (%q) joins letters, digits or Han characters with others", name, i, g.Text)
			}
			kinds[i] = 'o'
			lastRun = false
			at += n
			continue
		}
		_, step := d.has(at, at+n)
		e, word := m.W[g.Text]
		run := allAlnum(g.Text)
		for k := at; k < at+n && run; k++ {
			_, run = d.has(k, k+1)
		}
		if lastRun {
			run = false // the runs are maximal
		}
		asStep := step && !(n == 1 && allAlnum(g.Text))
		switch {
		case asStep && word && g.Pos == e.P:
			kinds[i] = 's'
			if n > 1 {
				kinds[i] = 'w'
				if !run {
					words = append(words, span{at, at + n, g.Pos})
				} else {
					kinds[i] = '?'
				}
			}
			r.LabelIf(first, "first-word")
			r.Hit("word")
		case asStep && !word && n == 1 && g.Pos == "x":
			kinds[i] = 's'
		case run && g.Pos == "eng":
			kinds[i] = 'r'
			r.Hit("run")
		case !step && !run:
			return fmt.Errorf("%s: piece %d (%q) is neither a word of the dictionary nor a single character", name, i, g.Text)
		default:
			return fmt.Errorf("%s: piece %d (%q) is tagged %q, the dictionary has %q (a word: %v)", name, i, g.Text, g.Pos, e.P, word)
		}
		lastRun = kinds[i] == 'r'
		at += n
		first = false
	}
	if at != len(d.runes) {
		return fmt.Errorf("%s: not the whole text", name)
	}

	hm := p.Cut(text, true)
	hn := fmt.Sprintf("pos Cut(%q, true) gives %q", text, hm)
	have := map[[2]int]string{}
	at = 0
	for _, g := range hm {
		n := utf8.RuneCountInString(g.Text)
		have[[2]int{at, at + n}] = g.Pos
		at += n
	}
	for _, w := range words {
		if tag, ok := have[[2]int{w.from, w.to}]; !ok || tag != w.tag {
			return fmt.Errorf("%s: without HMM the word %q at %d is taken with the tag %q", hn, string(d.runes[w.from:w.to]), w.from, w.tag)
		}
		r.Label("hmm-word")
	}
	// a run of single characters between such words is taken from the dictionary too if it is one
	// character or if the run as a whole is a word of the dictionary
	at = 0
	for i := 0; i < len(got); {
		from := at
		k := i
		for k < len(got) && (kinds[k] == 's' || kinds[k] == 'r') {
			at += utf8.RuneCountInString(got[k].Text)
			k++
		}
		if k == i {
			at += utf8.RuneCountInString(got[k].Text)
			i++
			continue
		}
		sure := (i == 0 || kinds[i-1] != '?') && (k == len(got) || kinds[k] != '?')
		i = k
		runW := string(d.runes[from:at])
		if !sure || signs || at-from > 1 && m.W[runW].F <= 0 {
			continue
		}
		for j := from; j < at; j++ {
			x := string(d.runes[j])
			want := "x"
			if e, ok := m.W[x]; ok {
				want = e.P
			}
			if tag, ok := have[[2]int{j, j + 1}]; !ok || tag != want {
				return fmt.Errorf("%s: the character %q at %d of the run %q is to be there with the tag %q", hn, x, j, runW, want)
			}
		}
		if at-from > 1 {
			r.Label("hmm-run-word")
		} else {
			r.Label("hmm-single")
		}
	}
	return nil
}

func init() {
	reg(Prop{ID: "C19", Quick: 60000, Thorough: 2700000,
		Rule: "the text was cut into two or more pieces"}, genC19, runC19)
	reg(Prop{ID: "C20", Quick: 80000, Thorough: 2600000,
		Rule: "the cut took a dictionary word or a run of letters and digits"}, genC20, runC20)
}

// --- C35: which words the part-of-speech cut takes ---

var posBreaks = []string{" ", "。", ",", "!", "\n", "，", "  "}

func genC35(t *rapid.T) caseCut {
	a := alphabet{units: uHan[:rapid.IntRange(1, 6).Draw(t, "han")]}
	a.limit = 900
	c := caseCut{O: genOpts(t), Rows: genRows(t, a, 1, 12)}
	if chance(t, "lowfreq", 25) {
		for i := range c.Rows {
			if chance(t, "low", 50) {
				c.Rows[i].F = rapid.SampledFrom([]float64{1, 0.5, 0.125, 0.01, 1e-6}).Draw(t, "f")
			}
		}
	}
	if chance(t, "history", 20) {
		c.Ops = genDOps(t, a, rowWords(c.Rows), 5, false)
		c.Each = rapid.Bool().Draw(t, "each")
	}
	a.extra = append([]string{"的", "是"}, posBreaks...)
	c.Text = genText(t, a, c.words(), 12)
	if permille(t, "manyWords", 1) && len(c.Ops) == 0 {
		if x := repeatWords(t, c.words()); x != "" {
			c.Text = x
		}
	}
	return c
}

func runC35(c caseCut, r *Rec) error {
	return c.each(r, false, func(seg *gse.Segmenter, m *Model, _ Opts) error { return checkC35(c, seg, m, r) })
}

func checkC35(c caseCut, seg *gse.Segmenter, m *Model, r *Rec) error {
	text := string(c.Text)
	isHan := func(x rune) bool { return unicode.Is(unicode.Han, x) }
	for _, x := range text {
		if !isHan(x) && !strings.ContainsRune(" 。,!\n，", x) {
			return nil // out of the domain of this check
		}
	}
	for w := range m.W {
		if strings.IndexFunc(w, func(x rune) bool { return !isHan(x) }) >= 0 {
			return nil
		}
	}
	got := posSeg(seg).Cut(text, false)
	name := fmt.Sprintf("pos Cut(%q, false) gives %q", text, got)
	rest := got
	for _, run := range strings.FieldsFunc(text, func(x rune) bool { return !isHan(x) }) {
		for len(rest) > 0 && !isHan([]rune(rest[0].Text + " ")[0]) {
			rest = rest[1:]
		}
		// the pieces of this run
		var ends []int
		n, long := utf8.RuneCountInString(run), 0
		for at := 0; at < n; {
			if len(rest) == 0 {
				return fmt.Errorf("%s: no pieces for the rest of %q", name, run)
			}
			k := utf8.RuneCountInString(rest[0].Text)
			if k == 0 || at+k > n {
				return fmt.Errorf("%s: the piece %q is not within the run %q", name, rest[0].Text, run)
			}
			if k > 1 {
				long++
			}
			at += k
			ends = append(ends, at)
			rest = rest[1:]
		}
		// best by the frequencies, or by their shares in the total
		logTs := []float64{0}
		if total := seg.Dictionary().TotalFreq(); total > 0 && !math.IsInf(total, 0) {
			logTs = append(logTs, math.Log(total))
		}
		fault := ""
		for _, logT := range logTs {
			d := m.dag(run, logT)
			score, at, why := 0.0, 0, ""
			for _, e := range ends {
				s, ok := d.has(at, e)
				if !ok {
					why = fmt.Sprintf("%q is no word, nor a character no word begins at", string(d.runes[at:e]))
					break
				}
				score += s
				at = e
			}
			if why == "" && score < d.best[0]-scoreEps(d.best[0])-1e-12*float64(n)*(1+math.Abs(logT)) {
				why = fmt.Sprintf("the logarithm of the product of its frequencies is %f, the best is %f", score, d.best[0])
			}
			if why == "" {
				fault = ""
				break
			}
			if fault == "" {
				fault = why
			}
		}
		if fault != "" {
			return fmt.Errorf("%s: the run %q: %s", name, run, fault)
		}
		choice := false
		d := m.dag(run, 0)
		for i := range d.ends {
			choice = choice || len(d.ends[i]) > 1
		}
		r.HitIf(long > 0 && choice, "words chosen")
		r.LabelIf(long == 0 && choice, "single characters chosen")
	}
	return nil
}

func init() {
	reg(Prop{ID: "C35", Quick: 200000, Thorough: 8000000,
		Rule: "a run of Han characters with several ways to split it, cut with some word of two or more characters"}, genC35, runC35)
}
