package main

import (
	"bufio"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	"github.com/go-ego/gse"
	"pgregory.net/rapid"
)

// repoDir is the tree under test.
func repoDir() string {
	if d := os.Getenv("PBT_REPO"); d != "" {
		return d
	}
	return "/repo"
}

type shipped struct {
	once  sync.Once
	rows  []Row // every row of the file, in order
	m     *Model
	total float64
	err   error
}

var ship shipped

// get reads the shipped dictionary the way its format is documented.
func (s *shipped) get() {
	s.once.Do(func() {
		f, err := os.Open(filepath.Join(repoDir(), "data/dict/zh/t_1.txt"))
		if err != nil {
			hErr("%v", err)
		}
		defer f.Close()
		s.m = newModel()
		sc := bufio.NewScanner(f)
		mb := 0
		for sc.Scan() {
			cols := strings.Fields(sc.Text())
			if len(cols) != 3 {
				hErr("shipped dictionary: row %q", sc.Text())
			}
			v, err := strconv.ParseFloat(cols[1], 64)
			if err != nil {
				hErr("shipped dictionary: row %q", sc.Text())
			}
			r := Row{Raw(cols[0]), v, Raw(cols[2])}
			s.rows = append(s.rows, r)
			if fr, ok := mapFreq(r); ok && s.m.add(cols[0], fr, cols[2], Opts{}) {
				s.total += fr
			}
		}
		for k := range s.m.W {
			if len(k) > mb {
				mb = len(k)
			}
		}
		s.m.fixedMax = mb
	})
}

var shipVias = []string{"LoadDict(zh_t)", "LoadDict(path)", "Reader", "LoadDictStr", "LoadDictMap"}

var shipSegs [5]*gse.Segmenter

// load loads the shipped dictionary in one of the ways and compares every row, once per way.
func (s *shipped) load(via int) (*gse.Segmenter, error) {
	s.get()
	if shipSegs[via] != nil {
		return shipSegs[via], nil
	}
	file := filepath.Join(repoDir(), "data/dict/zh/t_1.txt")
	seg := &gse.Segmenter{SkipLog: true, NotLoadHMM: true}
	var err error
	switch via {
	case 0:
		err = seg.LoadDict("zh_t")
	case 1:
		err = seg.LoadDict(file)
	case 2:
		seg = newSeg(Opts{})
		f, e := os.Open(file)
		if e != nil {
			hErr("%v", e)
		}
		err = seg.Reader(bufio.NewReader(f), file)
		f.Close()
		seg.CalcToken()
	case 3:
		b, e := os.ReadFile(file)
		if e != nil {
			hErr("%v", e)
		}
		seg.DictSep = ""
		err = seg.LoadDictStr(string(b))
	case 4:
		err = seg.LoadDictMap(rowMaps(s.rows))
	}
	name := shipVias[via]
	if err != nil {
		return nil, fmt.Errorf("%s: %v", name, err)
	}
	d := seg.Dictionary()
	if d.NumTokens() != len(s.m.W) {
		return nil, fmt.Errorf("%s: %d words, the file has %d", name, d.NumTokens(), len(s.m.W))
	}
	if !close64(d.TotalFreq(), s.total) {
		return nil, fmt.Errorf("%s: total frequency %v, the file adds up to %v", name, d.TotalFreq(), s.total)
	}
	maxAtoms := 0
	for w, e := range s.m.W {
		if err := s.word(seg, w); err != nil {
			return nil, fmt.Errorf("%s: %v", name, err)
		}
		if e.Atoms > maxAtoms {
			maxAtoms = e.Atoms
		}
	}
	if d.MaxTokenLen() < maxAtoms {
		return nil, fmt.Errorf("%s: MaxTokenLen is %d, the longest word has %d atoms", name, d.MaxTokenLen(), maxAtoms)
	}
	shipSegs[via] = seg
	return seg, nil
}

func (s *shipped) word(seg *gse.Segmenter, w string) error {
	f, p, ok := seg.Find(w)
	e, is := s.m.W[w]
	if is {
		if !ok || f != e.F || p != e.P {
			return fmt.Errorf("the word %q is found as %v/%q (%v), its row says %v/%q", w, f, p, ok, e.F, e.P)
		}
		return nil
	}
	// what is no word is not found as one (a prefix of words may be reported with no frequency)
	if f != 0 || p != "" {
		return fmt.Errorf("%q is no row of the dictionary but is found as %v/%q", w, f, p)
	}
	return nil
}

type caseC28 struct {
	Via   int
	Pos   []int // positions in the file: the words the text is made of
	Glue  []Raw // what follows each word
	Part  []int // 0: the whole word, n > 0: its first n characters, n < 0: without its first -n characters
	Text  Raw   `json:",omitempty"` // a piece of real text instead
	Probe []Raw // strings that need not be words
}

var realTexts struct {
	once sync.Once
	r    []rune
}

func genC28(t *rapid.T) caseC28 {
	ship.get()
	c := caseC28{Via: pick(t, "via", 50, 5, 5, 20, 20)}
	n := rapid.IntRange(1, 10).Draw(t, "n")
	at := 0
	for i := 0; i < n; i++ {
		// words near each other in the file overlap more
		if i == 0 || chance(t, "far", 60) {
			at = rapid.IntRange(0, len(ship.rows)-1).Draw(t, "row")
		} else {
			at = (at + rapid.IntRange(1, 40).Draw(t, "step")) % len(ship.rows)
		}
		c.Pos = append(c.Pos, at)
		l := len([]rune(string(ship.rows[at].W)))
		part := 0
		if chance(t, "part", 25) && l > 1 {
			part = rapid.IntRange(-(l-1), l-1).Draw(t, "k")
		}
		c.Part = append(c.Part, part)
		g := ""
		if chance(t, "glue", 20) {
			g = rapid.SampledFrom([]string{"，", "。", " ", "a", "B2", "1", "\n", "は", "的", "一", "é", "3.5", "/"}).Draw(t, "g")
		}
		c.Glue = append(c.Glue, Raw(g))
	}
	if chance(t, "real", 20) {
		realTexts.once.Do(func() {
			b, err := os.ReadFile(filepath.Join(repoDir(), "testdata/zh/bailuyuan_zh.txt"))
			if err != nil {
				hErr("%v", err)
			}
			realTexts.r = []rune(string(b))
		})
		from := rapid.IntRange(0, len(realTexts.r)-1).Draw(t, "from")
		to := from + rapid.IntRange(1, 400).Draw(t, "len")
		if to > len(realTexts.r) {
			to = len(realTexts.r)
		}
		c.Text = Raw(realTexts.r[from:to])
	}
	for i := rapid.IntRange(0, 4).Draw(t, "probes"); i > 0; i-- {
		a := ship.rows[rapid.IntRange(0, len(ship.rows)-1).Draw(t, "a")].W
		b := ship.rows[rapid.IntRange(0, len(ship.rows)-1).Draw(t, "b")].W
		r := []rune(string(a + b))
		c.Probe = append(c.Probe, Raw(r[:rapid.IntRange(1, len(r)).Draw(t, "cut")]))
	}
	return c
}

func (c caseC28) text() string {
	if c.Text != "" {
		return string(c.Text)
	}
	s := ""
	for i, p := range c.Pos {
		w := []rune(string(ship.rows[p%len(ship.rows)].W))
		k := c.Part[i]
		switch {
		case k > 0 && k < len(w):
			w = w[:k]
		case k < 0 && -k < len(w):
			w = w[-k:]
		}
		s += string(w) + string(c.Glue[i])
	}
	return s
}

func runC28(c caseC28, r *Rec) error {
	ship.get()
	seg, err := ship.load(c.Via)
	if err != nil {
		return err
	}
	r.Label(shipVias[c.Via])
	text := c.text()
	r.LabelIf(c.Text != "", "real text")
	for _, p := range c.Pos {
		if err := ship.word(seg, normText(string(ship.rows[p%len(ship.rows)].W), Opts{})); err != nil {
			return err
		}
	}
	for _, w := range c.Probe {
		k := normText(string(w), Opts{})
		if err := ship.word(seg, k); err != nil {
			return err
		}
		_, is := ship.m.W[k]
		r.LabelIf(!is, "probe that is no word")
	}
	if err := checkLossless(seg, text, Opts{}); err != nil {
		return err
	}
	if err := checkShortest(seg, ship.m, Opts{}, text, r); err != nil {
		return err
	}
	d := ship.m.dag(cutNorm(text, true), math.Log(seg.Dictionary().TotalFreq()))
	if err := checkCutPath(d, seg.Cut(text, false)); err != nil {
		return err
	}
	p := posSeg(seg)
	if err := sameText("pos Cut(s, false)", spTexts(p.Cut(text, false)), text); err != nil {
		return err
	}
	return sameText("Cut(s, true)", seg.Cut(text, true), cutNorm(text, true))
}

func init() {
	reg(Prop{ID: "C28", Quick: 24000, Thorough: 730000,
		Rule: "every row of the file is looked up once per worker and way of loading; each case cuts a text made of words, parts of words (or a piece of a novel) over the full dictionary; non-trivial: several segments, one of them a word of two or more atoms"},
		genC28, runC28)
}
