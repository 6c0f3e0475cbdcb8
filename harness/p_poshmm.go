package main

import (
	"bufio"
	"compress/gzip"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"unicode"

	"github.com/go-ego/gse"
	"pgregory.net/rapid"
)

// posModel is the harness's own copy of the shipped part-of-speech model.
// A state is its position (1 B, 2 E, 3 M, 4 S) times 100 plus its tag.
type posModel struct {
	tags   []string
	tagNo  map[string]int
	states map[rune][]int
	start  map[int]float64
	trans  map[int]map[int]float64
	emit   map[int]map[rune]float64
	all    []int
}

var (
	posModelOnce sync.Once
	posModelV    *posModel
)

func loadPosModel(root string) *posModel {
	posModelOnce.Do(func() {
		f, err := os.Open(filepath.Join(root, "data", "pos_model.txt.gz"))
		if err != nil {
			hErr("%v", err)
		}
		defer f.Close()
		z, err := gzip.NewReader(f)
		if err != nil {
			hErr("%v", err)
		}
		num := func(s string, base int) int {
			n, err := strconv.ParseInt(s, base, 32)
			if err != nil {
				hErr("%v", err)
			}
			return int(n)
		}
		fl := func(s string) float64 {
			v, err := strconv.ParseFloat(s, 64)
			if err != nil {
				hErr("%v", err)
			}
			return v
		}
		m := &posModel{tagNo: map[string]int{}, states: map[rune][]int{}, start: map[int]float64{}, trans: map[int]map[int]float64{}, emit: map[int]map[rune]float64{}}
		sc := bufio.NewScanner(z)
		sc.Buffer(nil, 1<<24)
		for sc.Scan() {
			x := strings.Fields(sc.Text())
			switch x[0] {
			case "tags":
				m.tags = x[1:]
				for i, t := range m.tags {
					m.tagNo[t] = i
				}
			case "states":
				r := rune(num(x[1], 16))
				for _, s := range x[2:] {
					m.states[r] = append(m.states[r], num(s, 10))
				}
			case "start":
				m.start[num(x[1], 10)] = fl(x[2])
			case "trans":
				s := num(x[1], 10)
				m.trans[s] = map[int]float64{}
				m.all = append(m.all, s)
				for _, y := range x[2:] {
					a, b, _ := strings.Cut(y, ":")
					m.trans[s][num(a, 10)] = fl(b)
				}
			case "emit":
				s := num(x[1], 10)
				m.emit[s] = map[rune]float64{}
				for _, y := range x[2:] {
					a, b, _ := strings.Cut(y, ":")
					m.emit[s][rune(num(a, 16))] = fl(b)
				}
			}
		}
		if err := sc.Err(); err != nil || len(m.emit) != 256 || len(m.tags) != 64 {
			hErr("bad part-of-speech model file: %v", err)
		}
		posModelV = m
	})
	return posModelV
}

func (m *posModel) em(s int, r rune) float64 {
	if v, ok := m.emit[s][r]; ok {
		return v
	}
	return noProb
}

func (m *posModel) tr(a, b int) float64 {
	if v, ok := m.trans[a][b]; ok {
		return v
	}
	return math.Inf(-1)
}

// lattice lists the states the model considers for every character.
func (m *posModel) lattice(rs []rune) [][]int {
	out := make([][]int, len(rs))
	for t, r := range rs {
		cand, known := m.states[r]
		if !known {
			cand = m.all
		}
		if t == 0 {
			out[t] = cand
			continue
		}
		next := map[int]bool{}
		for _, x := range out[t-1] {
			for y := range m.trans[x] {
				next[y] = true
			}
		}
		for _, y := range cand {
			if next[y] {
				out[t] = append(out[t], y)
			}
		}
		if len(out[t]) == 0 {
			for y := range next {
				out[t] = append(out[t], y)
			}
		}
		if len(out[t]) == 0 {
			out[t] = m.all
		}
	}
	return out
}

// best gives the greatest score of a state sequence in the lattice.
func (m *posModel) best(rs []rune, lat [][]int) float64 {
	v := map[int]float64{}
	for _, s := range lat[0] {
		v[s] = m.start[s] + m.em(s, rs[0])
	}
	for t := 1; t < len(rs); t++ {
		nv := map[int]float64{}
		for _, y := range lat[t] {
			b := math.Inf(-1)
			for x, p := range v {
				b = math.Max(b, p+m.tr(x, y))
			}
			nv[y] = b + m.em(y, rs[t])
		}
		v = nv
	}
	b := math.Inf(-1)
	for _, p := range v {
		b = math.Max(b, p)
	}
	return b
}

// score gives the greatest score of the state sequences that read as these pieces:
// a piece of one character is S, a longer one B M* E; the last piece may be unfinished.
func (m *posModel) score(rs []rune, ps []gse.SegPos) (float64, error) {

	total := math.Inf(-1)
	try := func(unfinished bool) error {
		var st []int
		for i, p := range ps {
			tg, ok := m.tagNo[p.Pos]
			if !ok {
				return fmt.Errorf("the tag %q is not one of the model's", p.Pos)
			}
			n := len([]rune(p.Text))
			last := unfinished && i == len(ps)-1
			switch {
			case n == 1 && last:
				st = append(st, 100+tg)
			case n == 1:
				st = append(st, 400+tg)
			default:
				st = append(st, 100+tg)
				for k := 2; k < n; k++ {
					st = append(st, 300+tg)
				}
				if last {
					st = append(st, 300+tg)
				} else {
					st = append(st, 200+tg)
				}
			}
		}
		v := 0.0
		for i, s := range st {
			if i == 0 {
				v = m.start[s]
			} else {
				v += m.tr(st[i-1], s)
			}
			v += m.em(s, rs[i])
		}
		total = math.Max(total, v)
		return nil
	}
	if err := try(false); err != nil {
		return 0, err
	}
	if err := try(true); err != nil {
		return 0, err
	}
	return total, nil
}

type casePosHMM struct {
	Pre  Raw `json:",omitempty"` // other text before and after the run
	Text Raw
	Post Raw `json:",omitempty"`
}

func genC30(t *rapid.T) casePosHMM {
	n := 2 + pick(t, "len", 10, 20, 20, 15, 10, 10, 5)
	if chance(t, "long", 5) {
		n = rapid.IntRange(10, 40).Draw(t, "n")
		if chance(t, "veryLong", 25) {
			n *= 1 + even(t, "times", 16)
		}
	}
	r := make([]rune, n)
	for i := range r {
		if n > 40 { // a single character that the model does not have leaves the whole run undecided
			r[i] = rapid.SampledFrom(commonHan).Draw(t, "han")
		} else {
			r[i] = anyHan(t)
		}
		if i > 0 && chance(t, "again", 10) {
			r[i] = r[rapid.IntRange(0, i-1).Draw(t, "which")]
		}
	}
	c := casePosHMM{Text: Raw(string(r))}
	if chance(t, "around", 20) {
		c.Pre = Raw(rapid.SampledFrom([]string{" ", "，", "\n", "人口 "}).Draw(t, "pre"))
		c.Post = Raw(rapid.SampledFrom([]string{" ", "。", "! 人口"}).Draw(t, "post"))
	}
	return c
}

var commonHan = []rune("的一是不了我在有他这为之大来以个中上们到说国和地也子时道出而要于就下得可你年生自会那后能对着事其里所去行过家十用发天如然作方成者多日都三小军二无同么经法当起与好看学进种将还分此心前面又定见只主没公从")

// anyHan draws a Han character: mostly common ones, sometimes any.
func anyHan(t *rapid.T) rune {
	switch pick(t, "hanKind", 70, 25, 5) {
	case 0:
		return rapid.SampledFrom(hanPool).Draw(t, "han")
	case 1:
		return rune(rapid.IntRange(0x4e00, 0x9fa5).Draw(t, "cjk"))
	}
	for {
		r := rune(rapid.SampledFrom([]int{0x3400, 0x20000, 0xf900, 0x2e80, 0x3005, 0x3007, 0x3021}).Draw(t, "block") + rapid.IntRange(0, 20).Draw(t, "off"))
		if unicode.Is(unicode.Han, r) {
			return r
		}
		return '㐀'
	}
}

func runC30(c casePosHMM, r *Rec) error {
	m := loadPosModel(r.root)
	seg := newSeg(Opts{})
	if err := seg.AddToken("人口", 10, "n"); err != nil {
		return err
	}
	for _, w := range []string{"人", "口"} {
		if strings.Contains(string(c.Text), w) {
			return nil // a word of the dictionary begins here
		}
	}
	p := posSeg(seg)
	pre, text, post := string(c.Pre), string(c.Text), string(c.Post)
	all := p.Cut(pre+text+post, true)
	i, j := 0, len(all)
	at := 0
	for i < len(all) && at < len(pre) {
		at += len(all[i].Text)
		i++
	}
	at2 := 0
	for j > i && at2 < len(post) {
		j--
		at2 += len(all[j].Text)
	}
	got := all[i:j]
	name := fmt.Sprintf("pos Cut(%q, true) gives %q", pre+text+post, all)
	if at != len(pre) || at2 != len(post) || strings.Join(spTexts(got), "") != text {
		return fmt.Errorf("%s: the run %q does not stand apart", name, text)
	}
	rs := []rune(text)
	lat := m.lattice(rs)
	best := m.best(rs, lat)
	if !(best > -1e90) {
		r.Label("undecided-by-model")
		return nil
	}
	sc, err := m.score(rs, got)
	if err != nil {
		return fmt.Errorf("%s: %v", name, err)
	}
	if !(sc >= best-scoreEps(best)) {
		return fmt.Errorf("%s: score %.9f, the best state sequence has %.9f", name, sc, best)
	}
	r.Hit("decided")
	r.LabelIf(len(rs) > 40, "long run")
	r.LabelIf(len(got) > 1, "several pieces")
	return nil
}

func init() {
	reg(Prop{ID: "C30", Quick: 30000, Thorough: 1100000,
		Rule: "the model allows a cut of the run, and the cut made was compared with the optimum over all state sequences"}, genC30, runC30)
}
