package main

import (
	"fmt"
	"math"
	"path/filepath"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm/idf"
	"github.com/go-ego/gse/hmm/segment"
	"pgregory.net/rapid"
)

// --- C22: keywords ---

type caseTags struct {
	Miss  bool `json:",omitempty"` // a missing file is asked for after the last, with How "file" and "files"
	Cut   caseCut
	Texts []Raw
	Idf   []Row
	How   string // add | str | file | files: how the IDF dictionary is loaded
	Stops []Raw  `json:",omitempty"`
	K     int
}

func genC22(t *rapid.T) caseTags {
	a := genAlphabet(t, false)
	a.limit = 1500
	c := caseTags{How: rapid.SampledFrom([]string{"add", "add", "str", "file", "files"}).Draw(t, "how")}
	c.Cut = caseCut{O: genOpts(t), Rows: genRows(t, a, 1, 10)}
	ws := c.Cut.words()
	// a few more dictionary words with the default stop words
	if chance(t, "english", 30) {
		for _, w := range []string{"the", "and", "that"} {
			c.Cut.Rows = append(c.Cut.Rows, Row{Raw(w), genFreq(t), "x"})
			ws = append(ws, w+" ")
		}
	}
	n := rapid.IntRange(1, 3).Draw(t, "texts")
	for i := 0; i < n; i++ {
		s := genText(t, a, ws, 14)
		if chance(t, "empty", 3) {
			s = ""
		}
		c.Texts = append(c.Texts, s)
	}
	if permille(t, "manyWords", 1) {
		if x := repeatWords(t, ws); x != "" {
			c.Texts = []Raw{x}
		}
	}
	if permille(t, "vast", 2) {
		// one keyword of thousands of letters
		c.Texts = append(c.Texts, Raw(strings.Repeat("ab", genLen(t, 3000)))+" "+c.Texts[0])
	}
	ni := rapid.IntRange(0, 8).Draw(t, "idf")
	for i := 0; i < ni; i++ {
		w := ""
		if chance(t, "idfword", 70) {
			w = rapid.SampledFrom(ws).Draw(t, "w")
		} else {
			w = genWord(t, a, ws)
		}
		w = strings.TrimSpace(w)
		if w == "" || c.How != "add" && (strings.ContainsAny(w, " \t\r\n\u3000,") || len(strings.Fields(w)) != 1) {
			continue
		}
		f := genFreq(t)
		if chance(t, "same", 40) {
			f = rapid.SampledFrom([]float64{2, 3, 4, 6, 12}).Draw(t, "f")
		}
		if chance(t, "common", 15) {
			f = rapid.SampledFrom([]float64{1.5, 0.75, 1, 0.01, 1.9999}).Draw(t, "f")
		}
		c.Idf = append(c.Idf, Row{Raw(w), f, rapid.SampledFrom([]Raw{"n", "x"}).Draw(t, "pos")})
	}
	for _, w := range ws {
		if chance(t, "stop", 12) && !strings.ContainsAny(w, "\r\n") && w != "" {
			c.Stops = append(c.Stops, Raw(w))
		}
	}
	c.K = rapid.IntRange(0, 12).Draw(t, "k")
	c.Miss = chance(t, "missing", 20)
	return c
}

var defaultIdfStops = []string{"the", "of", "is", "and", "to", "in", "that", "we", "for", "an", "are", "by", "be", "as", "on", "with", "can", "if", "from", "which", "you", "it", "this", "then", "at", "have", "all", "not", "one", "has", "or"}

func sameSegs(a, b segment.Segments) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Text != b[i].Text || a[i].Weight != b[i].Weight && !(math.IsNaN(a[i].Weight) && math.IsNaN(b[i].Weight)) {
			return false
		}
	}
	return true
}

func near(a, b float64) bool { return a == b || math.Abs(a-b) <= 1e-11*(math.Abs(a)+math.Abs(b)) }

func (c caseTags) extracter(seg *gse.Segmenter, scratch string) (*idf.TagExtracter, map[string]float64, error) {
	te := &idf.TagExtracter{}
	te.WithGse(*seg)
	weights := map[string]float64{}
	var err error
	text := ""
	for _, x := range c.Idf {
		text += fmt.Sprintf("%s %s %s\n", string(x.W), fmtFreq(x.F), string(x.P))
	}
	switch c.How {
	case "add":
		te.Idf = idf.NewIdf()
		for _, x := range c.Idf {
			if err := te.Idf.AddToken(string(x.W), x.F, posArgs(string(x.W), string(x.P))...); err != nil {
				return nil, nil, err
			}
		}
	case "str":
		err = te.LoadIdfStr(text)
	case "file":
		p := filepath.Join(scratch, "idf.txt")
		writeFile(p, text)
		if c.Miss {
			p += ", " + filepath.Join(scratch, "missing.txt")
		}
		err = te.LoadIdf(p)
		if c.Miss {
			if err == nil {
				return nil, nil, fmt.Errorf("a missing dictionary gives no error")
			}
			err = nil
		}
	case "files":
		// one dictionary in two files, the last words added one by one
		te.Idf = idf.NewIdf()
		n := len(c.Idf)
		var parts [2]string
		for i, l := range strings.SplitAfter(text, "\n") {
			if i < n*2/3 {
				parts[i*2/max(n, 1)] += l
			}
		}
		for i, s := range parts {
			p := filepath.Join(scratch, fmt.Sprintf("idf%d.txt", i))
			writeFile(p, s)
			if c.Miss && i == 1 {
				if err = te.Idf.LoadDict(p + ", " + filepath.Join(scratch, "missing.txt")); err == nil {
					return nil, nil, fmt.Errorf("a missing dictionary gives no error")
				}
				err = nil
			} else if err = te.Idf.LoadDict(p); err != nil {
				return nil, nil, err
			}
		}
		for _, x := range c.Idf[n*2/3:] {
			if err := te.Idf.AddToken(string(x.W), x.F, posArgs(string(x.W), string(x.P))...); err != nil {
				return nil, nil, err
			}
		}
	}
	if err != nil {
		return nil, nil, err
	}
	o := c.Cut.O
	for i, x := range c.Idf {
		k := normText(string(x.W), o)
		if _, ok := weights[k]; !ok && k != "" {
			weights[k] = x.F
			if c.How != "add" && !(c.How == "files" && i >= len(c.Idf)*2/3) && utf8.RuneCountInString(string(x.W)) < 2 {
				weights[k] = 2 // what loading a text makes of single characters
			}
		}
	}
	return te, weights, nil
}

func runC22(c caseTags, r *Rec) error {
	seg, _, cur, err := c.Cut.build(r)
	if err != nil {
		return err
	}
	cur.AlphaNum, cur.Alpha, cur.Num = false, false, false // the IDF dictionary's options are the defaults; lower-casing is shared
	cc := c
	cc.Cut.O = cur
	te, weights, err := cc.extracter(seg, r.scratch)
	if err != nil {
		return err
	}
	if got := te.Idf.NumTokens(); got != len(weights) {
		return fmt.Errorf("the IDF dictionary has %d words, want %d", got, len(weights))
	}
	stops := map[string]bool{}
	for _, w := range defaultIdfStops {
		stops[w] = true
	}
	if len(c.Stops) > 0 {
		p := filepath.Join(r.scratch, "stops.txt")
		s := ""
		for _, w := range c.Stops {
			s += string(w) + "\n"
			stops[string(w)] = true
		}
		writeFile(p, s)
		if err := te.LoadStopWords(p); err != nil {
			return err
		}
		r.Label("stop words loaded")
	}
	var ws []float64
	for _, f := range weights {
		ws = append(ws, f)
	}
	sort.Float64s(ws)
	fallback := 0.0
	if len(ws) > 0 {
		fallback = ws[len(ws)/2]
	}
	for _, tx := range c.Texts {
		text := string(tx)
		count := map[string]float64{}
		total := 0.0
		for _, w := range seg.Cut(text, true) {
			w = strings.TrimSpace(w)
			if utf8.RuneCountInString(w) < 2 || stops[w] {
				continue
			}
			count[w]++
			total++
		}
		full := te.ExtractTags(text, 1<<30)
		name := fmt.Sprintf("ExtractTags(%q) gives %v", text, full)
		if len(full) != len(count) {
			return fmt.Errorf("%s: want %d tags of %v", name, len(full), count)
		}
		seen := map[string]bool{}
		for i, s := range full {
			n, ok := count[s.Text]
			if !ok || seen[s.Text] {
				return fmt.Errorf("%s: %q is no piece that counts, or is there twice", name, s.Text)
			}
			seen[s.Text] = true
			if s.GetText() != s.Text || s.GetWeight() != s.Weight {
				return fmt.Errorf("%s: accessors of %v", name, s)
			}
			share := n / total
			if f, ok := weights[s.Text]; ok {
				if !near(s.Weight, f*share) {
					return fmt.Errorf("%s: %q has the share %v and the IDF weight %v", name, s.Text, share, f)
				}
				r.Label("in the IDF dictionary")
			} else {
				if !near(s.Weight, fallback*share) {
					return fmt.Errorf("%s: %q has the share %v, want the fallback weight %v of the IDF weights %v", name, s.Text, share, fallback, ws)
				}
				r.LabelIf(fallback > 0, "fallback")
			}
			if i > 0 {
				p := full[i-1]
				if p.Weight < s.Weight || p.Weight == s.Weight && p.Text <= s.Text {
					return fmt.Errorf("%s: not ordered by decreasing weight, then decreasing text", name)
				}
				r.LabelIf(p.Weight == s.Weight, "ties")
			}
		}
		for rep := 0; rep < 3; rep++ {
			if again := te.ExtractTags(text, 1<<30); !sameSegs(again, full) {
				return fmt.Errorf("%s, and %v when asked again", name, again)
			}
		}
		for _, k := range []int{c.K, 0, 1, len(full), len(full) + 1} {
			top := te.ExtractTags(text, k)
			want := full
			if k < len(full) {
				want = full[:k]
			}
			if !sameSegs(top, want) {
				return fmt.Errorf("%s; the top %d are %v", name, k, top)
			}
		}
		r.HitIf(len(full) > 1, "several tags")
	}
	return nil
}

// --- C23: TextRank ---

type caseRank struct {
	Cut   caseCut
	Texts []Raw
	Allow []Raw
	Def   bool // use TextRank and its default parts of speech
	K     int
}

func genC23(t *rapid.T) caseRank {
	a := alphabet{units: uHan[:rapid.IntRange(3, 10).Draw(t, "han")], extra: []string{" ", "。", "a", "1"}}
	if chance(t, "any", 20) {
		a = genAlphabet(t, false)
	}
	a.limit = 150
	c := caseRank{Cut: caseCut{O: genOpts(t), Rows: genRows(t, a, 3, 12)}}
	tags := []Raw{"n", "v", "ns", "vn", "a", "x", "nr"}
	if chance(t, "untagged", 20) {
		tags = append(tags, "", "", " ")
	}
	for i := range c.Cut.Rows {
		c.Cut.Rows[i].P = rapid.SampledFrom(tags).Draw(t, "pos")
	}
	n := rapid.IntRange(1, 2).Draw(t, "texts")
	for i := 0; i < n; i++ {
		c.Texts = append(c.Texts, Raw(strings.ToValidUTF8(string(genText(t, a, c.Cut.words(), 20)), "")))
	}
	if permille(t, "manyWords", 5) {
		// a graph of many words
		words := c.Cut.words()
		for i, k := 0, rapid.IntRange(20, 200).Draw(t, "vocabulary"); i < k; i++ {
			w := string([]rune{rune(0x5000 + i), rune(0x6000 + i%37)})
			words = append(words, w)
			c.Cut.Rows = append(c.Cut.Rows, Row{Raw(w), genFreq(t), rapid.SampledFrom(tags).Draw(t, "pos")})
		}
		s := ""
		for k := 40<<even(t, "words", 7) + even(t, "moreWords", 40); k > 0; k-- {
			s += words[len(words)-1-even(t, "word", len(words))]
		}
		c.Texts = []Raw{Raw(s)}
	}
	c.Def = rapid.Bool().Draw(t, "default")
	if !c.Def {
		for _, x := range append(tags, "m", "eng", "r") {
			if chance(t, "allow", 60) {
				c.Allow = append(c.Allow, x)
			}
		}
	}
	c.K = rapid.IntRange(-2, 12).Draw(t, "k")
	return c
}

// refRank is the reference of the word graph and its ranks.
func refRank(pieces []gse.SegPos, allow map[string]bool) map[string]float64 {
	idx := map[string]int{}
	w := map[[2]int]float64{}
	var names []string
	id := func(s string) int {
		if i, ok := idx[s]; ok {
			return i
		}
		idx[s] = len(names)
		names = append(names, s)
		return idx[s]
	}
	for i := range pieces {
		for j := i + 1; j < len(pieces) && j-i < 5; j++ {
			if allow[pieces[i].Pos] && allow[pieces[j].Pos] {
				a, b := id(pieces[i].Text), id(pieces[j].Text)
				w[[2]int{a, b}]++
				w[[2]int{b, a}]++
			}
		}
	}
	n := len(names)
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	sort.Slice(order, func(i, j int) bool { return names[order[i]] < names[order[j]] })
	out := make([]float64, n)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			out[i] += w[[2]int{i, j}]
		}
	}
	ws := make([]float64, n)
	for i := range ws {
		ws[i] = 1 / float64(n)
	}
	for round := 0; round < 10; round++ {
		for _, i := range order {
			s := 0.0
			for j := 0; j < n; j++ {
				if x := w[[2]int{i, j}]; x > 0 {
					s += x / out[j] * ws[j]
				}
			}
			ws[i] = 0.15 + 0.85*s
		}
	}
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, x := range ws {
		lo, hi = math.Min(lo, x), math.Max(hi, x)
	}
	r := map[string]float64{}
	for i, x := range ws {
		r[names[i]] = (x - lo/10) / (hi - lo/10)
	}
	return r
}

func runC23(c caseRank, r *Rec) error {
	seg, _, _, err := c.Cut.build(r)
	if err != nil {
		return err
	}
	var tr idf.TextRanker
	tr.WithGse(*seg)
	allow := map[string]bool{}
	var al []string
	for _, x := range c.Allow {
		allow[string(x)] = true
		al = append(al, string(x))
	}
	if c.Def {
		for _, x := range []string{"ns", "n", "vn", "v"} {
			allow[x] = true
		}
	}
	rank := func(text string, k int) segment.Segments {
		if c.Def {
			return tr.TextRank(text, k)
		}
		return tr.TextRankWithPOS(text, k, al)
	}
	for _, tx := range c.Texts {
		text := string(tx)
		want := refRank(posSeg(seg).Cut(text, true), allow)
		full := rank(text, 0)
		name := fmt.Sprintf("TextRank(%q) of %v gives %v", text, allow, full)
		if len(full) != len(want) {
			return fmt.Errorf("%s: want %d words %v", name, len(want), want)
		}
		seen := map[string]bool{}
		for i, s := range full {
			w, ok := want[s.Text]
			if !ok || seen[s.Text] {
				return fmt.Errorf("%s: %q is not in the graph, or is there twice", name, s.Text)
			}
			seen[s.Text] = true
			if !(math.Abs(s.Weight-w) <= 1e-9) {
				return fmt.Errorf("%s: %q has weight %v, want %v", name, s.Text, s.Weight, w)
			}
			if i > 0 {
				p := full[i-1]
				if p.Weight < s.Weight || p.Weight == s.Weight && p.Text <= s.Text {
					return fmt.Errorf("%s: not ordered by decreasing weight", name)
				}
			}
		}
		for rep := 0; rep < 2; rep++ {
			if again := rank(text, 0); !sameSegs(again, full) {
				return fmt.Errorf("%s, and %v when asked again", name, again)
			}
		}
		for _, k := range []int{c.K, -1} {
			top := rank(text, k)
			w := full
			if k > 0 && k < len(full) {
				w = full[:k]
			}
			if !sameSegs(top, w) {
				return fmt.Errorf("%s; the top %d are %v", name, k, top)
			}
		}
		r.HitIf(len(full) > 2, "graph of three or more words")
		r.LabelIf(len(full) > 6, "graph of seven or more words")
	}
	return nil
}

func init() {
	reg(Prop{ID: "C22", Quick: 30000, Thorough: 1000000,
		Rule: "a text had two or more keywords"}, genC22, runC22)
	reg(Prop{ID: "C23", Quick: 12000, Thorough: 130000,
		Rule: "the word graph of a text has three or more words"}, genC23, runC23)
}
