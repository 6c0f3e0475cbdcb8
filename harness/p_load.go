package main

import (
	"bufio"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing/iotest"
	"unicode"

	"github.com/go-ego/gse"
	"pgregory.net/rapid"
)

// LOpts are the options of the loaders.
type LOpts struct {
	Sep    string  `json:",omitempty"`
	NoFreq bool    `json:",omitempty"`
	Min    float64 `json:",omitempty"`
	Text   string  `json:",omitempty"`
}

func (l LOpts) seg(o Opts) *gse.Segmenter {
	o.apply(&gse.Segmenter{})
	return l.newSeg(o)
}

// newSeg leaves the lower-casing alone, which all segmenters share.
func (l LOpts) newSeg(o Opts) *gse.Segmenter {
	return &gse.Segmenter{SkipLog: true, NotLoadHMM: true, DictSep: l.Sep, LoadNoFreq: l.NoFreq, MinTokenFreq: l.Min, TextFreq: l.Text,
		AlphaNum: o.AlphaNum, Alpha: o.Alpha, Num: o.Num}
}

// parse is the reference reading of one row.
func (l LOpts) parse(cols []Raw) (w string, f float64, p string, ok bool) {
	if len(cols) == 0 || cols[0] == "" {
		return
	}
	w = string(cols[0])
	ft := ""
	switch {
	case len(cols) > 1:
		ft = string(cols[1])
	case l.NoFreq:
		ft = l.Text
		if ft == "" {
			ft = "2.0"
		}
	default:
		return
	}
	f, err := strconv.ParseFloat(ft, 64)
	if err != nil || math.IsNaN(f) || math.IsInf(f, 0) {
		return
	}
	min := l.Min
	if min == 0 {
		min = 2
	}
	if f < min {
		return
	}
	if len([]rune(w)) < 2 {
		f = 2
	}
	if len(cols) > 2 {
		p = string(cols[2])
	}
	return w, f, p, true
}

// text gives the rows as the text of a file. gaps are the blanks before, between and after the columns, in turn (none, one
// and none if there are no gaps).
func (l LOpts) text(lines [][]Raw, nl string, final bool, gaps ...Raw) string {
	var sb strings.Builder
	n := 0
	gap := func() string {
		if len(gaps) == 0 {
			return ""
		}
		n++
		return string(gaps[n%len(gaps)])
	}
	for i, cols := range lines {
		sb.WriteString(gap())
		for j, c := range cols {
			if j > 0 {
				if g := gap(); l.Sep != "" || g == "" {
					sb.WriteString(l.Sep + " " + g)
				} else {
					sb.WriteString(g)
				}
			}
			sb.WriteString(string(c))
		}
		sb.WriteString(gap())
		if i < len(lines)-1 || final {
			sb.WriteString(nl)
		}
	}
	return sb.String()
}

type caseC11 struct {
	O     Opts
	L     LOpts
	Lines [][]Raw
	CRLF  bool  `json:",omitempty"`
	Gaps  []Raw `json:",omitempty"`
	Final bool
	Again string `json:",omitempty"`
}

var freqTexts = []string{"2", "3", "10", "2.0", "2.5", "1e3", "1000000", "1", "1.999", "0", "-5", "", "x", "12x", "NaN", "Inf", "-Inf", "+Inf",
	"1e400", "0x1p4", "٣", "5,", "1_0", ".5e1", "+7", "007", "4.9", "5", "2000000000", "nan", "infinity", "1e-400", "1__0", "1e19", "9223372036854775808", "123456789012345678901234567890", "1e300", "16777217", "_1", "1_", "3_", "0_8", "0b11", "1_000"}

func writeFile(path, s string) {
	if err := os.MkdirAll(filepath.Dir(path), 0o777); err != nil {
		hErr("%v", err)
	}
	if err := os.WriteFile(path, []byte(s), 0o666); err != nil {
		hErr("%v", err)
	}
}

// dictEquals compares the whole dictionary with the model.
func dictEquals(name string, seg *gse.Segmenter, m *Model, probes []string) error {
	d := seg.Dictionary()
	if d == nil {
		return fmt.Errorf("%s: there is no dictionary", name)
	}
	if err := checkMap(seg, m, Opts{}, probes, m.prefixSet()); err != nil {
		return fmt.Errorf("%s: %v", name, err)
	}
	if d.NumTokens() != len(m.W) {
		var l []string
		for i := range d.Tokens {
			l = append(l, d.Tokens[i].Text())
		}
		return fmt.Errorf("%s: the tokens are %q, want %q", name, l, m.keys())
	}
	total := 0.0
	for _, e := range m.W {
		total += e.F
	}
	if !close64(d.TotalFreq(), total) {
		return fmt.Errorf("%s: the total frequency is %v, want %v", name, d.TotalFreq(), total)
	}
	return nil
}

// trimmed tells whether a column is read as it stands by every loader.
func trimmed(w string, blanks bool) bool {
	if w == "" || strings.TrimSpace(w) != w || strings.ContainsAny(w, "\n\r\x00") || strings.ToValidUTF8(w, "") != w {
		return false
	}
	if !blanks && strings.IndexFunc(w, unicode.IsSpace) >= 0 {
		return false
	}
	return true
}

type stepC12 struct {
	K     string // load default str map embed empty new newembed
	Names []string
	Comma bool    `json:",omitempty"` // "," instead of ", "
	Rows  []Row   `json:",omitempty"`
	More  [][]Row `json:",omitempty"`
	Sec   string  `json:",omitempty"` // the second argument of New
}

type caseC12 struct {
	O     Opts
	Files map[string][]Row // s t j u0 u1 u2; absent: missing
	Steps []stepC12
	Text  Raw
	Sep   string `json:",omitempty"` // DictSep: "" or another one than a comma
}

type opC13 struct {
	Seg   int     `json:",omitempty"`
	K     string  // file str arr add addarr remove empty embed default zh dict nodict
	Lines [][]Raw `json:",omitempty"`
	Miss  bool    `json:",omitempty"` // the last file of the list is missing
	CRLF  bool    `json:",omitempty"`
}

type caseC13 struct {
	Ops []opC13
}

func init() {
	reg(Prop{
		ID:    "C11",
		Rule:  "random rows (missing columns, malformed, low and non-finite frequencies, blank lines), separators and loader options, loaded by every loader; non-trivial: some row is accepted and some row is not, or rows with and without part of speech are mixed",
		Quick: 100000, Thorough: 6500000,
		Assume: []string{"columns are valid UTF-8 without surrounding blanks and, with blank-separated columns, without blanks inside"},
	}, func(t *rapid.T) caseC11 {
		a := genAlphabet(t, false)
		c := caseC11{O: genOpts(t), Final: rapid.Bool().Draw(t, "final"), CRLF: chance(t, "crlf", 10)}
		c.L.Sep = rapid.SampledFrom([]string{"", "", ",", ";", "|"}).Draw(t, "sep")
		c.L.NoFreq = chance(t, "nofreq", 25)
		c.L.Min = rapid.SampledFrom([]float64{0, 0, 0, 1, 0.5, 5, 1000}).Draw(t, "min")
		c.L.Text = rapid.SampledFrom([]string{"", "", "7", "1", "x", "3.5"}).Draw(t, "textfreq")
		c.Again = rapid.SampledFrom([]string{"", "", "LoadDict", "Reader", "LoadDictStr", "LoadDictMap"}).Draw(t, "again after Empty")
		n := rapid.IntRange(0, 10).Draw(t, "lines")
		var words []string
		for i := 0; i < n; i++ {
			w := ""
			switch pick(t, "line", 80, 15, 5) {
			case 0:
				w = genWord(t, a, words)
			case 1:
				if len(words) > 0 {
					w = rapid.SampledFrom(words).Draw(t, "again")
				}
			}
			if w != "" && chance(t, "mark", 4) {
				// what other formats give a meaning: here these are a part of the word
				w = rapid.SampledFrom([]string{"\ufeff", "\ufeff", "#", "//", ";", "\"", "-"}).Draw(t, "mark") + w
			}
			if !trimmed(w, c.L.Sep != "") || (c.L.Sep != "" && strings.Contains(w, c.L.Sep)) {
				c.Lines = append(c.Lines, nil)
				continue
			}
			words = append(words, w)
			cols := []Raw{Raw(w)}
			k := pick(t, "columns", 15, 35, 50)
			if k > 0 {
				f := fmtFreq(genFreq(t))
				if chance(t, "oddfreq", 45) {
					f = rapid.SampledFrom(freqTexts).Draw(t, "freq")
				}
				if f == "" && c.L.Sep == "" || c.L.Sep != "" && strings.Contains(f, c.L.Sep) {
					f = "?"
				}
				cols = append(cols, Raw(f))
				if k > 1 {
					p := genPos(t)
					if p == "" && (c.L.Sep == "" || chance(t, "somePos", 80)) {
						p = "n"
					}
					cols = append(cols, p)
					for chance(t, "further", 8) {
						// a column that means nothing, and might be taken for a part of another row
						x := genWord(t, a, words)
						if chance(t, "furtherFreq", 50) {
							x = fmtFreq(genFreq(t))
						}
						if !trimmed(x, false) || (c.L.Sep != "" && strings.Contains(x, c.L.Sep)) {
							break
						}
						cols = append(cols, Raw(x))
					}
				}
			}
			c.Lines = append(c.Lines, cols)
		}
		if chance(t, "gaps", 25) {
			for i := 1 + even(t, "gapKinds", 5); i > 0; i-- {
				c.Gaps = append(c.Gaps, Raw(rapid.SampledFrom([]string{"", " ", "  ", "\t", " \t ", "\u3000", "\u00a0", "\v", "\t\t"}).Draw(t, "gap")))
			}
		}
		return c
	}, func(c caseC11, r *Rec) error {
		m := newModel()
		acc, rej, pos, nopos := false, false, false, false
		var probes []string
		var maps []map[string]string
		for _, cols := range c.Lines {
			mp := map[string]string{}
			for i, k := range []string{"text", "freq", "pos"} {
				if i < len(cols) {
					mp[k] = string(cols[i])
				}
			}
			maps = append(maps, mp)
			w, f, p, ok := c.L.parse(cols)
			if ok {
				acc = true
				m.add(w, f, p, c.O)
				pos = pos || p != ""
				nopos = nopos || p == ""
			} else {
				rej = true
			}
			if len(cols) > 0 {
				k := normText(string(cols[0]), c.O)
				probes = append(probes, k, k+"a", string(cols[0])+"\n", k+"\r")
				for i := 1; i < len(k); i++ {
					probes = append(probes, k[:i])
				}
			}
			for _, x := range cols {
				probes = append(probes, string(x))
			}
		}
		probes = append(probes, "", "\n")
		nl := "\n"
		if c.CRLF {
			nl = "\r\n"
		}
		txt := c.L.text(c.Lines, nl, c.Final, c.Gaps...)
		file := filepath.Join(r.scratch, "rows.txt")
		writeFile(file, txt)
		for _, how := range []string{"LoadDict", "Read", "Reader", "slow Reader", "LoadDictStr", "LoadDictMap", "LoadDictEmbed"} {
			seg := c.L.seg(c.O)
			var err error
			switch how {
			case "LoadDict":
				err = seg.LoadDict(file)
			case "Read", "Reader", "slow Reader":
				if err := seg.LoadDictStr(""); err != nil {
					return err
				}
				switch how {
				case "Read":
					err = seg.Read(file)
				case "Reader":
					err = seg.Reader(bufio.NewReader(strings.NewReader(txt)))
				default:
					err = seg.Reader(bufio.NewReaderSize(iotest.OneByteReader(strings.NewReader(txt)), 16), "name")
				}
				seg.CalcToken()
			case "LoadDictStr":
				err = seg.LoadDictStr(txt)
			case "LoadDictMap":
				err = seg.LoadDictMap(maps)
			case "LoadDictEmbed":
				if strings.Contains(txt, ", ") && c.L.Sep != "," {
					continue
				}
				err = seg.LoadDictEmbed(txt)
			}
			if err != nil {
				return fmt.Errorf("%s of %q: %v", how, txt, err)
			}
			if err := dictEquals(how, seg, m, probes); err != nil {
				return fmt.Errorf("%v (rows %q)", err, txt)
			}
			if how == c.Again {
				// the options of the loaders stay after Empty
				if err := seg.Empty(); err != nil {
					return fmt.Errorf("Empty: %v", err)
				}
				if err := seg.LoadDictStr(txt); err != nil {
					return fmt.Errorf("LoadDictStr of %q after Empty: %v", txt, err)
				}
				if err := dictEquals("LoadDictStr after "+how+" and Empty", seg, m, probes); err != nil {
					return fmt.Errorf("%v (rows %q)", err, txt)
				}
				r.Label("again after Empty")
			}
		}
		r.HitIf(acc && rej, "some accepted")
		r.HitIf(pos && nopos, "with and without part of speech")
		r.LabelIf(c.L.Sep != "", "separator")
		r.LabelIf(len(c.Gaps) > 0, "odd blanks")
		for _, cols := range c.Lines {
			r.LabelIf(len(cols) > 3, "more than three columns")
		}
		r.LabelIf(c.L.NoFreq, "no frequencies")
		return nil
	})

	fileName := func(r *Rec, n string) string {
		d := filepath.Join(r.scratch, "c12")
		switch n {
		case "s":
			return filepath.Join(d, "data/dict/zh/s_1.txt")
		case "t":
			return filepath.Join(d, "data/dict/zh/t_1.txt")
		case "j":
			return filepath.Join(d, "data/dict/jp/dict.txt")
		}
		return filepath.Join(d, n+".txt")
	}
	// the files a name of a list stands for
	expandName := func(n string) []string {
		switch n {
		case "en":
			return nil
		case "zh":
			return []string{"t", "s"}
		case "zh_s":
			return []string{"s"}
		case "zh_t":
			return []string{"t"}
		case "ja", "jp":
			return []string{"j"}
		}
		return []string{n}
	}
	reg(Prop{
		ID:    "C12",
		Rule:  "random dictionary files (some missing) under a scratch data directory and a history of load calls with lists of them, string, map and embedded loads, and Empty; non-trivial: a word occurs in two sources with different entries",
		Quick: 24000, Thorough: 1400000,
	}, func(t *rapid.T) caseC12 {
		a := genAlphabet(t, false)
		clean := func(rows []Row) (out []Row) {
			for _, x := range rows {
				if trimmed(string(x.W), false) && !strings.ContainsAny(string(x.W), ",;|") {
					if x.P == "" {
						x.P = "q"
					}
					out = append(out, x)
				}
			}
			return
		}
		c := caseC12{O: genOpts(t), Files: map[string][]Row{}}
		if chance(t, "dictSep", 15) {
			c.Sep = rapid.SampledFrom([]string{";", "|", "\t"}).Draw(t, "sep")
		}
		var words []string
		more := func(rows []Row) []Row {
			// words of the other sources, with other entries
			for i := 0; i < 2 && len(words) > 0; i++ {
				if rapid.Bool().Draw(t, "shared") {
					rows = append(rows, Row{Raw(rapid.SampledFrom(words).Draw(t, "w")), genFreq(t), "o"})
				}
			}
			words = append(words, rowWords(rows)...)
			return rows
		}
		for _, n := range []string{"s", "t", "j", "u0", "u1", "u2"} {
			if chance(t, "missing", 15) {
				continue
			}
			rows := more(clean(genRows(t, a, 0, 4)))
			if rows == nil {
				rows = []Row{}
			}
			c.Files[n] = rows
		}
		k := rapid.IntRange(1, 5).Draw(t, "steps")
		for i := 0; i < k; i++ {
			var s stepC12
			list := func() {
				n := rapid.IntRange(1, 4).Draw(t, "names")
				if chance(t, "longList", 3) {
					n = rapid.IntRange(5, 40).Draw(t, "manyNames")
				}
				for j := 0; j < n; j++ {
					s.Names = append(s.Names, rapid.SampledFrom([]string{"u0", "u1", "u2", "u0", "u1", "zh", "zh_s", "zh_t", "ja", "jp", "en"}).Draw(t, "name"))
				}
				s.Comma = rapid.Bool().Draw(t, "comma")
			}
			switch pick(t, "step", 45, 6, 14, 10, 9, 10, 3, 3) {
			case 0:
				s.K = "load"
				list()
			case 1:
				s.K = "default"
			case 2:
				s.K = "str"
				s.Rows = more(clean(genRows(t, a, 0, 3)))
			case 3:
				s.K = "map"
				s.Rows = more(clean(genRows(t, a, 0, 3)))
			case 4:
				s.K = "embed"
				n := rapid.IntRange(1, 3).Draw(t, "pieces")
				for j := 0; j < n; j++ {
					s.More = append(s.More, more(clean(genRows(t, a, 1, 3))))
				}
			case 5:
				s.K = "empty"
			case 6:
				s.K = "new"
				if c.Sep != "" {
					s.K = "default"
					break
				}
				s.Sec = rapid.SampledFrom([]string{"alpha", "", "alpha", "u1", "Alpha"}).Draw(t, "second")
				for j := 0; j < 2; j++ {
					s.Names = append(s.Names, rapid.SampledFrom([]string{"u0", "u1", "u2", "en"}).Draw(t, "name"))
				}
			case 7:
				s.K = "newembed"
				if c.Sep != "" {
					s.K = "embed"
				}
				s.More = append(s.More, more(clean(genRows(t, a, 1, 3))), more(clean(genRows(t, a, 1, 3))))
			}
			c.Steps = append(c.Steps, s)
		}
		c.Text = genText(t, a, words, 8)
		return c
	}, func(c caseC12, r *Rec) error {
		dir := filepath.Join(r.scratch, "c12")
		os.RemoveAll(dir)
		str := func(rows []Row) string {
			var sb strings.Builder
			for _, x := range rows {
				sb.WriteString(string(x.W) + c.Sep + " " + fmtFreq(x.F) + c.Sep + " " + string(x.P) + "\n")
			}
			return sb.String()
		}
		for n, rows := range c.Files {
			writeFile(fileName(r, n), str(rows))
		}
		cur := c.O
		fresh := func() *gse.Segmenter {
			return &gse.Segmenter{SkipLog: true, NotLoadHMM: true, DictPath: filepath.Join(dir, "x"), DictSep: c.Sep,
				AlphaNum: cur.AlphaNum, Alpha: cur.Alpha, Num: cur.Num}
		}
		cur.apply(&gse.Segmenter{})
		seg := fresh()
		m := newModel()
		conflict := false
		addRow := func(x Row) {
			if f, ok := mapFreq(x); ok {
				if e, was := m.W[normText(string(x.W), cur)]; was && e.F != f {
					conflict = true
				}
				m.add(string(x.W), f, string(x.P), cur)
			}
		}
		probes := func() []string {
			out := []string{""}
			all := func(rows []Row) {
				for _, x := range rows {
					out = append(out, normText(string(x.W), cur))
				}
			}
			for _, rows := range c.Files {
				all(rows)
			}
			for _, s := range c.Steps {
				all(s.Rows)
				for _, x := range s.More {
					all(x)
				}
			}
			return out
		}
		loaded := false
		for i, s := range c.Steps {
			var err error
			wantErr := false
			r.Label("step " + s.K)
			readFiles := func(names []string) {
				for _, n := range names {
					rows, ok := c.Files[n]
					if !ok {
						wantErr = true
						return
					}
					for _, x := range rows {
						addRow(x)
					}
				}
			}
			switch s.K {
			case "load", "new":
				sep := ", "
				if s.Comma {
					sep = ","
				}
				var l, files []string
				for _, n := range s.Names {
					if strings.HasPrefix(n, "u") {
						l = append(l, fileName(r, n))
					} else {
						l = append(l, n)
					}
					files = append(files, expandName(n)...)
				}
				if s.K == "new" {
					m = newModel()
					cur.AlphaNum = s.Sec == "alpha"
					cur.Alpha, cur.Num = false, false
					var sg gse.Segmenter
					args := []string{strings.Join(l, sep)}
					if s.Sec != "" {
						args = append(args, s.Sec)
					}
					sg, err = gse.New(args...)
					seg = &sg
					seg.SkipLog, seg.NotLoadHMM, seg.DictPath = true, true, filepath.Join(dir, "x")
				} else {
					err = seg.LoadDict(strings.Join(l, sep))
				}
				readFiles(files)
			case "default":
				err = seg.LoadDict()
				readFiles([]string{"s", "t"})
			case "str":
				err = seg.LoadDictStr(str(s.Rows))
				for _, x := range s.Rows {
					addRow(x)
				}
			case "map":
				err = seg.LoadDictMap(rowMaps(s.Rows))
				for _, x := range s.Rows {
					addRow(x)
				}
			case "embed", "newembed":
				var l []string
				if s.K == "newembed" {
					l = append(l, "zh")
				}
				for _, rows := range s.More {
					l = append(l, str(rows))
				}
				if s.K == "newembed" {
					m = newModel()
					cur.AlphaNum = true
					cur.Alpha, cur.Num = false, false
					var sg gse.Segmenter
					sg, err = gse.NewEmbed(strings.Join(l, ", "), "alpha")
					seg = &sg
					seg.SkipLog, seg.NotLoadHMM, seg.DictPath = true, true, filepath.Join(dir, "x")
				} else {
					err = seg.LoadDictEmbed(strings.Join(l, ", "))
				}
				for _, rows := range s.More {
					for _, x := range rows {
						addRow(x)
					}
				}
			case "empty":
				err = seg.Empty()
				m = newModel()
				loaded = false
				if err != nil {
					return fmt.Errorf("Empty: %v", err)
				}
				continue
			}
			loaded = true
			if (err != nil) != wantErr {
				return fmt.Errorf("step %d (%s %q) gives error %v; a file is missing: %v", i, s.K, s.Names, err, wantErr)
			}
			r.LabelIf(wantErr, "missing file")
			if err := dictEquals(fmt.Sprintf("after step %d (%s %q)", i, s.K, s.Names), seg, m, probes()); err != nil {
				return err
			}
		}
		r.HitIf(conflict, "conflicting entries")
		if loaded {
			return checkShortest(seg, m, cur, string(c.Text), &Rec{labels: map[string]bool{}})
		}
		return nil
	})

	reg(Prop{
		ID:    "C13",
		Rule:  "random history of stop-word loads from files, strings, arrays and the language files, additions, removals and Empty on two segmenters, compared with two sets after each step; non-trivial: a stop word was taken out, and another source put words in",
		Quick: 24000, Thorough: 1500000,
	}, func(t *rapid.T) caseC13 {
		a := genAlphabet(t, false)
		var c caseC13
		var words []string
		n := rapid.IntRange(1, 12).Draw(t, "ops")
		word := func() Raw {
			if len(words) > 0 && chance(t, "known", 40) {
				return Raw(rapid.SampledFrom(words).Draw(t, "w"))
			}
			var w string
			switch pick(t, "kind", 80, 5, 10, 5) {
			case 0:
				w = genWord(t, a, words)
			case 1:
				w = ""
			case 2:
				w = rapid.SampledFrom([]string{" ", "  ", " a", "the ", "\t", "。", "　", ",", "#", "# a", "#a", "//", ";", "\"a\"", "a,b", "-"}).Draw(t, "odd")
			case 3:
				w = "\ufeff" + genWord(t, a, words)
			}
			w = strings.NewReplacer("\n", "", "\r", "", ", ", "").Replace(w)
			words = append(words, w)
			return Raw(w)
		}
		lines := func() []Raw {
			k := rapid.IntRange(0, 5).Draw(t, "lines")
			var l []Raw
			for i := 0; i < k; i++ {
				l = append(l, word())
			}
			return l
		}
		for i := 0; i < n; i++ {
			o := opC13{Seg: rapid.IntRange(0, 1).Draw(t, "seg")}
			switch pick(t, "op", 20, 12, 8, 15, 6, 25, 8, 6, 5, 5, 4, 4) {
			case 10:
				o.K = "dict"
				o.Lines = [][]Raw{lines()}
			case 11:
				o.K = "nodict"
			case 0:
				o.K = "file"
				k := rapid.IntRange(1, 3).Draw(t, "files")
				for j := 0; j < k; j++ {
					o.Lines = append(o.Lines, lines())
				}
				o.Miss = chance(t, "missing", 20)
			case 1:
				o.K = "str"
				o.Lines = [][]Raw{lines()}
			case 2:
				o.K = "arr"
				o.Lines = [][]Raw{lines()}
			case 3:
				o.K = "add"
				o.Lines = [][]Raw{{word()}}
			case 4:
				o.K = "addarr"
				o.Lines = [][]Raw{lines()}
			case 5:
				o.K = "remove"
				o.Lines = [][]Raw{{word()}}
			case 6:
				o.K = "empty"
			case 7:
				o.K = "embed"
				k := rapid.IntRange(1, 3).Draw(t, "pieces")
				for j := 0; j < k; j++ {
					o.Lines = append(o.Lines, lines())
				}
			case 8:
				o.K = "default"
				o.Lines = [][]Raw{lines()}
				o.Miss = chance(t, "missing", 20)
			case 9:
				o.K = "zh"
				o.Lines = [][]Raw{lines(), lines()}
				o.Miss = chance(t, "missing", 20)
			}
			o.CRLF = chance(t, "crlf", 15)
			c.Ops = append(c.Ops, o)
		}
		return c
	}, func(c caseC13, r *Rec) error {
		dir := filepath.Join(r.scratch, "c13")
		segs := []*gse.Segmenter{{SkipLog: true, DictPath: filepath.Join(dir, "x")}, {SkipLog: true, DictPath: filepath.Join(dir, "x")}}
		sets := []map[string]bool{{}, {}}
		probes := map[string]bool{"": true, " ": true, "zzz": true}
		for _, o := range c.Ops {
			for _, l := range o.Lines {
				for _, w := range l {
					probes[string(w)] = true
					probes[string(w)+"\r"] = true
					probes[strings.TrimSpace(string(w))] = true
					probes[string(w)+"x"] = true
				}
			}
		}
		took, kinds := false, map[string]bool{}
		nl := "\n"
		body := func(l []Raw) string {
			s := ""
			for _, w := range l {
				s += string(w) + nl
			}
			return s
		}
		for i, o := range c.Ops {
			os.RemoveAll(dir)
			seg, set := segs[o.Seg], sets[o.Seg]
			var err error
			wantErr := false
			nl = "\n"
			if o.CRLF {
				nl = "\r\n"
			}
			exact := func(l []Raw) {
				for _, w := range l {
					if w != "" {
						set[string(w)] = true
						kinds[o.K] = true
					}
				}
			}
			trim := func(l []Raw) {
				for _, w := range l {
					if x := strings.TrimSpace(string(w)); x != "" {
						set[x] = true
						kinds[o.K] = true
					}
				}
			}
			switch o.K {
			case "file":
				var names []string
				for j, l := range o.Lines {
					f := filepath.Join(dir, fmt.Sprintf([]string{"f%d.txt", "f%d", "f,%d.txt", "f %d.dic"}[(i+j)%4], j))
					names = append(names, f)
					if o.Miss && j == len(o.Lines)-1 {
						wantErr = true
						continue
					}
					b := body(l)
					if j%2 == 1 {
						b = strings.TrimSuffix(b, nl)
					}
					writeFile(f, b)
					exact(l)
				}
				err = seg.LoadStop(strings.Join(names, ", "))
			case "default", "zh":
				f := filepath.Join(dir, "data/dict/zh/stop_word.txt")
				if o.K == "zh" {
					f = filepath.Join(dir, "data/dict/zh/stop_tokens.txt")
				}
				if o.Miss {
					wantErr = true
				} else {
					writeFile(f, body(o.Lines[0]))
					exact(o.Lines[0])
				}
				if o.K == "default" {
					err = seg.LoadStop()
				} else {
					g := filepath.Join(dir, "more.txt")
					writeFile(g, body(o.Lines[1]))
					if !o.Miss {
						exact(o.Lines[1])
					}
					err = seg.LoadStop("zh, " + g)
				}
			case "str":
				err = seg.LoadStopStr(body(o.Lines[0]))
				trim(o.Lines[0])
			case "embed":
				var l []string
				for _, x := range o.Lines {
					l = append(l, body(x))
					trim(x)
				}
				if j := strings.Join(l, ", "); strings.Contains(j, "zh,") {
					continue
				} else {
					err = seg.LoadStopEmbed(j)
				}
			case "arr", "addarr":
				var l []string
				for _, w := range o.Lines[0] {
					l = append(l, string(w))
					set[string(w)] = true
					kinds[o.K] = true
				}
				if o.K == "arr" {
					seg.LoadStopArr(l)
				} else {
					seg.AddStopArr(l...)
				}
			case "add":
				seg.AddStop(string(o.Lines[0][0]))
				set[string(o.Lines[0][0])] = true
				kinds[o.K] = true
			case "remove":
				w := string(o.Lines[0][0])
				took = took || set[w]
				seg.RemoveStop(w)
				delete(set, w)
			case "empty":
				took = took || len(set) > 0
				err = seg.EmptyStop()
				sets[o.Seg] = map[string]bool{}
			case "dict": // the dictionary is another matter
				s := ""
				for _, w := range o.Lines[0] {
					s += string(w) + " 7 n\n"
				}
				err = seg.LoadDictStr(s)
			case "nodict":
				err = seg.Empty()
			default:
				hErr("unknown op %q", o.K)
			}
			if (err != nil) != wantErr {
				return fmt.Errorf("operation %d (%s) gives error %v; a file is missing: %v", i, o.K, err, wantErr)
			}
			for w := range probes {
				for k := range segs {
					if got := segs[k].IsStop(w); got != sets[k][w] {
						return fmt.Errorf("after operation %d (%s on segmenter %d): IsStop(%q) of segmenter %d is %v, want %v", i, o.K, o.Seg, w, k, got, sets[k][w])
					}
				}
			}
		}
		r.HitIf(took && len(kinds) > 1, "took out")
		return nil
	})
}
