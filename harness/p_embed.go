//go:build !ne

package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm/idf"
	"pgregory.net/rapid"
)

// --- C32: the embedded dictionaries (built without the tag ne, the data files laid over by build.sh) ---

var embedded = map[string][][]Raw{}

func embedText(root, name string) string {
	b, err := os.ReadFile(filepath.Join(root, "data/embed", name+".txt"))
	if err != nil {
		hErr("%v", err)
	}
	return string(b)
}

func embedLines(root, name string) [][]Raw {
	if l, ok := embedded[name]; ok {
		return l
	}
	var ls [][]Raw
	for _, l := range strings.Split(embedText(root, name), "\n") {
		var cols []Raw
		for _, c := range strings.Fields(l) {
			cols = append(cols, Raw(c))
		}
		ls = append(ls, cols)
	}
	embedded[name] = ls
	return ls
}

type stepC32 struct {
	K    string   // load: LoadDictEmbed; new: NewEmbed; str; empty; stop: LoadStopEmbed
	Arg  bool     `json:",omitempty"` // with an argument
	Name []string `json:",omitempty"` // the embedded dictionaries named in it
	Rows [][]Row  `json:",omitempty"` // and the texts in it
	Sec  string   `json:",omitempty"` // second argument
}

type caseC32 struct {
	O     Opts
	L     LOpts
	Steps []stepC32
	Text  Raw
}

func genC32(t *rapid.T) caseC32 {
	a := alphabet{units: []string{"世", "界", "人", "口", "大", "学", "學", "國", "的", "の", "一"}, extra: []string{"Hello", "go", "x86", "1", " ", "，"}}
	if chance(t, "any", 25) {
		a = genAlphabet(t, false)
	}
	c := caseC32{O: genOpts(t)}
	c.L.NoFreq = chance(t, "nofreq", 25)
	if chance(t, "min", 25) {
		c.L.Min = rapid.SampledFrom([]float64{1, 3, 10, 100}).Draw(t, "minfreq")
	}
	rows := func() []Row {
		var l []Row
		for _, x := range genRows(t, a, 1, 4) {
			if trimmed(string(x.W), false) && !strings.Contains(string(x.W), ",") && len(strings.Fields(string(x.P))) == 1 {
				l = append(l, x)
			}
		}
		return l
	}
	var words []string
	n := rapid.IntRange(1, 4).Draw(t, "steps")
	for i := 0; i < n; i++ {
		s := stepC32{K: []string{"load", "new", "str", "empty", "stop"}[pick(t, "kind", 50, 20, 10, 8, 12)]}
		switch s.K {
		case "load", "new", "stop":
			s.Arg = chance(t, "argument", 80)
			if !s.Arg {
				break
			}
			switch pick(t, "names", 35, 45, 20) {
			case 0: // one name
				s.Name = []string{rapid.SampledFrom([]string{"zh", "zh_s", "zh_t", "ja"}).Draw(t, "name")}
			case 1: // a name and texts
				s.Name = []string{rapid.SampledFrom([]string{"zh", "zh_s", "zh_t"}).Draw(t, "name")}
				fallthrough
			case 2:
				k := rapid.IntRange(1, 3).Draw(t, "texts")
				if chance(t, "manyTexts", 3) {
					k = rapid.IntRange(4, 40).Draw(t, "manyTextsOf")
				}
				for j := 0; j < k; j++ {
					s.Rows = append(s.Rows, rows())
				}
			}
			if s.K == "new" {
				s.Sec = rapid.SampledFrom([]string{"", "alpha", "en", "num", "ALPHA"}).Draw(t, "second")
			}
		case "str":
			s.Rows = [][]Row{rows()}
		}
		for _, x := range s.Rows {
			words = append(words, rowWords(x)...)
		}
		c.Steps = append(c.Steps, s)
	}
	c.Text = genText(t, a, append(words, "世界", "人口", "大学", "大學人口", "中国人民银行", "こんにちは", "Hello"), 12)
	return c
}

func runC32(c caseC32, r *Rec) error {
	seg := c.L.seg(c.O)
	cur, lo := c.O, c.L
	m := newModel()
	stops := map[string]bool{}
	loaded, used := false, map[string]bool{}
	embed := func(names ...string) {
		for _, n := range names {
			used[n] = true
			for _, cols := range embedLines(r.root, n) {
				if w, f, p, ok := lo.parse(cols); ok {
					m.add(w, f, p, cur)
				}
			}
		}
	}
	str := func(rows []Row) string {
		s := ""
		for _, x := range rows {
			s += fmt.Sprintf("%s %s %s\n", string(x.W), fmtFreq(x.F), string(x.P))
		}
		return s
	}
	for i, s := range c.Steps {
		var parts []string
		parts = append(parts, s.Name...)
		for _, x := range s.Rows {
			parts = append(parts, str(x))
		}
		arg := strings.Join(parts, ", ")
		var args []string
		if s.Arg {
			args = []string{arg}
			if s.Sec != "" {
				args = append(args, s.Sec)
			}
		}
		if s.K == "stop" {
			if len(s.Name) > 0 && s.Name[0] != "zh" { // only this list is embedded
				continue
			}
			if s.Arg && len(s.Name) > 0 && len(s.Rows) == 0 {
				args = nil // "zh" on its own is a word
			}
			for _, l := range s.Rows {
				for _, x := range l {
					if strings.Contains(string(x.W), "zh") {
						return nil
					}
				}
			}
			if err := seg.LoadStopEmbed(args...); err != nil {
				return fmt.Errorf("step %d LoadStopEmbed(%q): %v", i, args, err)
			}
			text := ""
			if len(args) == 0 || len(s.Name) > 0 {
				text = embedText(r.root, "stop")
				r.Label("embedded stop words")
			}
			if len(args) > 0 {
				for _, x := range s.Rows {
					text += "\n" + str(x)
				}
			}
			for _, l := range strings.Split(text, "\n") {
				if l = strings.TrimSpace(l); l != "" {
					stops[l] = true
				}
			}
			continue
		}
		var err error
		switch s.K {
		case "load":
			err = seg.LoadDictEmbed(args...)
		case "new":
			var sg gse.Segmenter
			sg, err = gse.NewEmbed(args...)
			seg = &sg
			seg.SkipLog = true
			m, stops, lo, used = newModel(), map[string]bool{}, LOpts{}, map[string]bool{}
			cur.AlphaNum, cur.Alpha, cur.Num = s.Arg && (s.Sec == "alpha" || s.Sec == "en"), false, false
		case "str":
			err = seg.LoadDictStr(arg)
		case "empty":
			err = seg.Empty()
			m, loaded = newModel(), false
		}
		if err != nil {
			return fmt.Errorf("step %d %s(%q): %v", i, s.K, args, err)
		}
		if s.K == "empty" {
			continue
		}
		loaded = true
		if s.K != "str" && !s.Arg {
			embed("zh_s", "zh_t")
		}
		for _, n := range s.Name {
			if n == "zh" {
				embed("zh_s", "zh_t")
			} else {
				embed(n)
			}
		}
		for _, rows := range s.Rows {
			for _, x := range rows {
				if w, f, p, ok := lo.parse([]Raw{x.W, Raw(fmtFreq(x.F)), x.P}); ok {
					m.add(w, f, p, cur)
				}
			}
		}
		if err := dictEquals(fmt.Sprintf("step %d %s(%q)", i, s.K, args), seg, m, nil); err != nil {
			return err
		}
	}
	if len(seg.StopWordMap) != len(stops) {
		return fmt.Errorf("the stop words are %q, want %q", seg.StopWordMap, stops)
	}
	for w := range stops {
		if !seg.IsStop(w) {
			return fmt.Errorf("%q is no stop word; the stop words are %q", w, seg.StopWordMap)
		}
	}
	if !loaded {
		return nil
	}
	r.HitIf(len(used) > 0, "embedded dictionary")
	for n := range used {
		r.Label(n)
	}
	r.LabelIf(len(used) > 1, "several embedded dictionaries")

	// the same words given as rows segment alike
	same := newSeg(cur)
	if err := same.LoadDictStr(""); err != nil {
		return err
	}
	d := seg.Dictionary()
	for i := range d.Tokens {
		x := &d.Tokens[i]
		if err := same.AddToken(x.Text(), x.Freq(), x.Pos()); err != nil {
			return fmt.Errorf("AddToken(%q): %v", x.Text(), err)
		}
	}
	same.CalcToken()
	text := string(c.Text)
	if a, b := seg.Cut(text), same.Cut(text); !eqStrings(a, b) {
		return fmt.Errorf("Cut(%q) is %q, with the same words added one by one %q", text, a, b)
	}
	if a, b := gse.ToString(seg.Segment([]byte(text)), true), gse.ToString(same.Segment([]byte(text)), true); a != b {
		return fmt.Errorf("Segment(%q) is %q, with the same words added one by one %q", text, a, b)
	}

	// the embedded IDF dictionary
	var te idf.TagExtracter
	te.WithGse(*seg)
	if err := te.LoadIdfStr(gse.ZhIdf); err != nil {
		return err
	}
	weights := map[string]float64{}
	var ws []float64
	for _, cols := range embedLines(r.root, "idf") {
		if w, f, _, ok := (LOpts{Min: math.SmallestNonzeroFloat64}).parse(cols); ok {
			weights[w] = f
			ws = append(ws, f)
		}
	}
	sort.Float64s(ws)
	if te.Idf.NumTokens() != len(ws) {
		return fmt.Errorf("the embedded IDF dictionary has %d words, want %d", te.Idf.NumTokens(), len(ws))
	}
	tags := te.ExtractTags(text, 1000)
	count, total := map[string]float64{}, 0.0
	for _, w := range seg.Cut(text, true) {
		count[strings.TrimSpace(w)]++
	}
	for _, x := range tags {
		total += count[x.Text]
	}
	for _, x := range tags {
		f, ok := weights[x.Text]
		if !ok {
			f = ws[len(ws)/2]
		}
		if want := f * count[x.Text] / total; !(math.Abs(x.Weight-want) <= 1e-9*want) {
			return fmt.Errorf("ExtractTags(%q) with the embedded IDF dictionary gives %v: %q should weigh %v", text, tags, x.Text, want)
		}
		r.LabelIf(ok, "embedded IDF weight")
	}
	return nil
}

func init() {
	reg(Prop{ID: "C32", Quick: 30000, Thorough: 1500000,
		Rule: "an embedded dictionary was loaded"}, genC32, runC32)
}
