package main

import (
	"bufio"
	"fmt"
	"io"
	"path"
	"reflect"
	"strings"
	"testing/iotest"
	"unicode/utf8"

	"github.com/go-ego/gse"
	"pgregory.net/rapid"
)

// --- C34: the parts used by themselves ---

// DictOp is one operation on a dictionary without a segmenter.
type DictOp struct {
	K string // add remove look
	N int    `json:",omitempty"` // the row whose token is added or removed
	C []Raw  `json:",omitempty"` // the pieces to look up
}

type caseC34 struct {
	O    Opts
	Rows []Row
	Ops  []DictOp
	Txt  Raw
	L    LOpts
	Cols [][]Raw // rows of one to three columns
	NL   bool    // the last row ends with a newline
	List []string
}

func genC34(t *rapid.T) caseC34 {
	a := genAlphabet(t, chance(t, "broken", 20))
	c := caseC34{O: genOpts(t), Rows: genRows(t, a, 1, 10)}
	if len(c.Rows) > 40 {
		c.Rows = c.Rows[:40]
	}
	words := rowWords(c.Rows)
	if chance(t, "all", 60) {
		for i := range c.Rows {
			c.Ops = append(c.Ops, DictOp{K: "add", N: i})
		}
	}
	for i := rapid.IntRange(1, 14).Draw(t, "ops"); i > 0; i-- {
		o := DictOp{K: []string{"add", "remove", "look"}[pick(t, "op", 45, 15, 40)]}
		if o.K == "look" {
			s := string(clip(genText(t, a, words, 6), 400))
			if chance(t, "word", 70) {
				s = normText(rapid.SampledFrom(words).Draw(t, "start"), c.O) + s
			}
			chars := chance(t, "characters", 80)
			for s != "" {
				var k int
				if chars {
					_, k = utf8.DecodeRuneInString(s)
				} else {
					k = 1 + rapid.IntRange(0, 4).Draw(t, "piece")*rapid.SampledFrom([]int{1, 1, 1, 20}).Draw(t, "times")
				}
				if k > len(s) {
					k = len(s)
				}
				o.C = append(o.C, Raw(s[:k]))
				s = s[k:]
			}
		} else {
			o.N = even(t, "row", len(c.Rows))
		}
		c.Ops = append(c.Ops, o)
	}
	if permille(t, "vast", 2) {
		// one word of some thousand letters, and a row of pieces with it and on from it
		w := strings.Repeat(rapid.SampledFrom([]string{"ab", "xyz", "q"}).Draw(t, "period"), 5000)[:2+genLen(t, 4200)]
		c.Rows = append(c.Rows, Row{Raw(w), genFreq(t), genPos(t)})
		k := 1 + even(t, "cut", len(w)-1)
		look := DictOp{K: "look", C: []Raw{Raw(w[:k]), Raw(w[k:]), "x", "yz"}}
		if chance(t, "whole", 50) {
			look.C = []Raw{Raw(w), "x"}
		}
		add := DictOp{K: "add", N: len(c.Rows) - 1}
		c.Ops = append(c.Ops, add, look, DictOp{K: "remove", N: len(c.Rows) - 1}, look, add, look)
	}
	c.Txt = clip(genText(t, a, words, 8), 400)
	if chance(t, "odd", 30) {
		c.Txt += Raw(rapid.SampledFrom([]string{"ｱ", "ﾝ", "・", "ー", "゠", "\U0001b000", "ゟ", "ヿ", "ㇰ", "㋐", "゛", "々", "〱"}).Draw(t, "oddChar"))
	}
	c.L.Sep = rapid.SampledFrom([]string{",", ";", "|", "::", ", "}).Draw(t, "sep")
	c.L.NoFreq = chance(t, "nofreq", 25)
	c.L.Min = rapid.SampledFrom([]float64{2, 1, 0.5, 5, 1000}).Draw(t, "min")
	c.L.Text = rapid.SampledFrom([]string{"7", "1", "x", "3.5"}).Draw(t, "textfreq")
	for i := rapid.IntRange(0, 5).Draw(t, "lines"); i > 0; i-- {
		var cols []Raw
		for k := rapid.IntRange(1, 3).Draw(t, "columns"); k > 0; k-- {
			w := genWord(t, a, words)
			switch {
			case len(cols) == 1:
				w = rapid.SampledFrom(freqTexts).Draw(t, "freq")
			case len(cols) == 2:
				w = string(genPos(t))
			}
			if !trimmed(w, true) || strings.Contains(w, c.L.Sep) {
				w = "y"
			}
			cols = append(cols, Raw(w))
		}
		c.Cols = append(c.Cols, cols)
	}
	c.NL = rapid.Bool().Draw(t, "final")
	c.List = rapid.SliceOfN(rapid.SampledFrom([]string{"zh", "zh_s", "zh_t", "ja", "jp", "a.txt", "/x/b", "dir/zh", "zh.txt", "世界", "c d", "x,y.txt"}), 1, 4).Draw(t, "list")
	return c
}

func runC34(c caseC34, r *Rec) error {
	// tokens can only be had from a segmenter
	src := newSeg(c.O)
	for _, x := range c.Rows {
		src.AddToken(string(x.W), x.F, posArgs(string(x.W), string(x.P))...)
	}
	srcM := newModel()
	for _, x := range c.Rows {
		srcM.add(string(x.W), x.F, string(x.P), c.O)
	}
	tokens := map[string]gse.Token{}
	for _, x := range src.Dictionary().Tokens {
		tokens[x.Text()] = x
	}
	if len(tokens) != len(srcM.W) {
		return fmt.Errorf("%d tokens for %d words", len(tokens), len(srcM.W))
	}

	d, m := gse.NewDict(), newModel()
	removed := false
	total, max, num := 0.0, 0, 0
	for n, o := range c.Ops {
		name := fmt.Sprintf("operation %d (%s)", n, o.K)
		switch o.K {
		case "add", "remove":
			w := normText(string(c.Rows[o.N].W), c.O)
			tok, ok := tokens[w]
			if !ok {
				continue
			}
			e := srcM.W[w]
			_, in := m.W[w]
			if o.K == "add" {
				if err := d.AddToken(tok); err != nil {
					return fmt.Errorf("%s: adding %q gives %v", name, w, err)
				}
				if !in {
					m.W[w] = e
					num++
					total += e.F
				}
				if e.Atoms > max {
					max = e.Atoms
				}
			} else {
				if err := d.RemoveToken(tok); (err == nil) != in {
					return fmt.Errorf("%s: removing %q, in the dictionary: %v, gives %v", name, w, in, err)
				}
				removed = removed || in
				delete(m.W, w)
			}
			if !removed && (d.NumTokens() != num || d.NumTokens() != len(d.Tokens) || !close64(d.TotalFreq(), total)) {
				return fmt.Errorf("%s: %d tokens of total frequency %v, want %d, %v", name, d.NumTokens(), d.TotalFreq(), num, total)
			}
			if d.MaxTokenLen() < max && !removed {
				return fmt.Errorf("%s: the longest token has %d pieces, want %d", name, d.MaxTokenLen(), max)
			}
		case "look":
			var pieces []gse.Text
			var want []string
			s, nul := "", false
			for _, x := range o.C {
				pieces = append(pieces, gse.Text(x))
				s += string(x)
				nul = nul || strings.IndexByte(string(x), 0) >= 0
				if _, ok := m.W[s]; ok && !nul {
					want = append(want, s)
				}
			}
			got := make([]*gse.Token, len(pieces)+1)
			k := d.LookupTokens(pieces, got)
			if k != len(want) {
				return fmt.Errorf("%s of %q finds %d words, want %q", name, o.C, k, want)
			}
			for i, w := range want {
				if e := m.W[w]; got[i].Text() != w || got[i].Freq() != e.F || got[i].Pos() != e.P {
					return fmt.Errorf("%s of %q: word %d is %q %v %q, want %q %v %q", name, o.C, i, got[i].Text(), got[i].Freq(), got[i].Pos(), w, e.F, e.P)
				}
				if !got[i].Equals(w) || got[i].Equals(w+"x") || got[i].Equals("x"+w) || got[i].Equals("") {
					return fmt.Errorf("%s: the token %q equals others", name, w)
				}
			}
			for _, x := range got[k:] {
				if x != nil {
					return fmt.Errorf("%s of %q: a token after the last", name, o.C)
				}
			}
			if join := gse.Join(pieces); join != s {
				return fmt.Errorf("Join(%q) gives %q", o.C, join)
			}
			r.HitIf(len(want) > 1, "several words at one place")
			r.HitIf(removed, "looked up after a removal")
		}
		prefixes := m.prefixSet()
		for w, e := range srcM.W {
			_, in := m.W[w]
			f, p, ok := d.Find([]byte(w))
			if in && (!ok || f != e.F || p != e.P) || !in && (f != 0 || p != "" || ok && !prefixes[w]) {
				return fmt.Errorf("%s: Find(%q) gives %v %q %v; in the dictionary: %v", name, w, f, p, ok, in)
			}
			v, _, err := d.Value([]byte(w))
			if (err == nil) != in || in && d.Tokens[v].Text() != w {
				return fmt.Errorf("%s: Value(%q) gives %d %v; in the dictionary: %v", name, w, v, err, in)
			}
		}
	}
	r.Label("Dictionary")

	jp := false
	for _, x := range string(c.Txt) {
		jp = jp || isKana(x)
	}
	if gse.IsJp(string(c.Txt)) != jp {
		return fmt.Errorf("IsJp(%q) is not %v", string(c.Txt), jp)
	}
	r.LabelIf(jp, "kana")

	// rows, read one by one
	seg := c.L.newSeg(c.O)
	txt := c.L.text(c.Cols, "\n", c.NL)
	rd := bufio.NewReaderSize(iotest.HalfReader(strings.NewReader(txt)), 16)
	for i := 0; i <= len(c.Cols); i++ {
		size, w, f, p, err := seg.ReadN(rd)
		if i == len(c.Cols) {
			if err != io.EOF || w != "" || f != "" || p != "" {
				return fmt.Errorf("ReadN after the last row of %q gives %q %q %q %v", txt, w, f, p, err)
			}
			break
		}
		if (err != nil) != (i == len(c.Cols)-1 && !c.NL) || err != nil && err != io.EOF {
			return fmt.Errorf("ReadN of row %d of %q gives the error %v", i, txt, err)
		}
		cols := append(append([]Raw(nil), c.Cols[i]...), "", "")[:3]
		if size != len(c.Cols[i]) || w != string(cols[0]) || f != string(cols[1]) || p != string(cols[2]) {
			return fmt.Errorf("ReadN of row %d of %q gives %d columns %q %q %q, want %q", i, txt, size, w, f, p, c.Cols[i])
		}
		_, want, _, ok := c.L.parse(c.Cols[i])
		if got := seg.Size(size, w, f); ok && got != want || !ok && got != 0 {
			return fmt.Errorf("Size(%d, %q, %q) with %+v gives %v, want %v %v", size, w, f, c.L, got, want, ok)
		}
		r.LabelIf(!ok, "row left out")
	}

	// the files a list of dictionaries stands for
	for i, sep := range []string{", ", ","} {
		for _, dir := range []string{"/d", "/other/dir", "rel"} {
			dir := dir
			if i == 1 { // a directory nobody has asked for yet
				dir = fmt.Sprintf("%s%d", dir, len(c.List))
			}
			var want []string
			list := strings.Join(c.List, sep)
			by := ","
			if strings.Contains(list, ", ") {
				by = ", "
			}
			for _, n := range strings.Split(list, by) {
				switch n {
				case "zh":
					want = append(want, dir+"/dict/zh/t_1.txt", dir+"/dict/zh/s_1.txt")
				case "zh_s":
					want = append(want, dir+"/dict/zh/s_1.txt")
				case "zh_t":
					want = append(want, dir+"/dict/zh/t_1.txt")
				case "ja", "jp":
					want = append(want, dir+"/dict/jp/dict.txt")
				default:
					want = append(want, n)
				}
			}
			if got := gse.DictPaths(dir, list); !reflect.DeepEqual(got, want) {
				return fmt.Errorf("DictPaths of %q in %q gives %q, want %q", list, dir, got, want)
			}
		}
	}
	if got := gse.DictPaths("/d", "en"); len(got) != 0 {
		return fmt.Errorf("DictPaths of en gives %q", got)
	}
	seg.DictPath = "/e/f.go"
	if got := seg.GetCurrentFilePath(); got != "/e/f.go" {
		return fmt.Errorf("GetCurrentFilePath gives %q", got)
	}
	if got, want := seg.GetIdfPath(c.List...), append(append([]string(nil), c.List...), path.Join("/e", "data/dict/zh/idf.txt")); !reflect.DeepEqual(got, want) {
		return fmt.Errorf("GetIdfPath gives %q, want %q", got, want)
	}
	return nil
}

func init() {
	reg(Prop{
		ID:    "C34",
		Rule:  "a random history of additions, removals and lookups on a Dictionary without a segmenter, rows, a text and a list of dictionary names; non-trivial: a lookup finds several words, or comes after a removal",
		Quick: 300000, Thorough: 12000000,
		Assume: []string{"the pieces looked up are not empty", "rows of one to three trimmed columns"},
	}, genC34, runC34)
}
