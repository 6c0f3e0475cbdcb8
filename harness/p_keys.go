package main

import (
	"fmt"
	"maps"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/go-ego/gse/hmm/idf"
	"github.com/go-ego/gse/hmm/pos"
	"github.com/go-ego/gse/hmm/segment"
	"pgregory.net/rapid"
)

// --- C33: the dictionaries behind keywords and parts of speech ---

// KeyOp is one operation on the I-th of the stop lists, IDF dictionaries or part-of-speech dictionaries.
type KeyOp struct {
	I    int
	K    string  // sadd sremove sload sship (the shipped list W) snew | iadd iload inew | padd premove pload
	W    Raw     `json:",omitempty"`
	F    float64 `json:",omitempty"`
	P    Raw     `json:",omitempty"`
	Ws   [][]Raw `json:",omitempty"` // the lines of the stop files
	R    [][]Row `json:",omitempty"` // the rows of the dictionary files
	Miss bool    `json:",omitempty"` // the last file of the list is missing
}

type caseC33 struct {
	Ops  []KeyOp
	Segs []Row // results to sort
}

func genC33(t *rapid.T) caseC33 {
	a := genAlphabet(t, false)
	var c caseC33
	words := []string{"the", "of", "one"}
	word := func() Raw {
		if chance(t, "known", 60) {
			return Raw(rapid.SampledFrom(words).Draw(t, "w"))
		}
		w := genWord(t, a, words)
		words = append(words, w)
		return Raw(w)
	}
	lines := func() []Raw {
		var l []Raw
		for i := rapid.IntRange(0, 4).Draw(t, "lines"); i > 0; i-- {
			l = append(l, Raw(strings.NewReplacer("\n", "", "\r", "").Replace(string(word()))))
		}
		return l
	}
	rows := func() []Row {
		var l []Row
		for i := rapid.IntRange(0, 4).Draw(t, "rows"); i > 0; i-- {
			if w := word(); plainWord(w) {
				l = append(l, Row{w, weight(t), rapid.SampledFrom([]Raw{"n", "v", "x"}).Draw(t, "p")})
			}
		}
		return l
	}
	n := rapid.IntRange(1, 14).Draw(t, "ops")
	for i := 0; i < n; i++ {
		o := KeyOp{I: rapid.IntRange(0, 1).Draw(t, "which")}
		o.K = []string{"sadd", "sremove", "sload", "snew", "iadd", "iload", "inew", "padd", "premove", "pload", "sship"}[pick(t, "op", 12, 18, 18, 2, 15, 15, 2, 8, 8, 4, 4)]
		switch o.K {
		case "sadd", "sremove", "premove":
			o.W = word()
		case "iadd", "padd":
			o.W, o.F, o.P = word(), weight(t), genPos(t)
			if o.K == "padd" && chance(t, "odd", 15) {
				o.F = rapid.SampledFrom([]float64{0, -1, -3}).Draw(t, "oddF")
			}
		case "sship":
			o.W = rapid.SampledFrom([]Raw{"", "zh"}).Draw(t, "list")
			words = append(words, "啊", ",", "哎呀")
		case "sload":
			for k := rapid.IntRange(1, 3).Draw(t, "files"); k > 0; k-- {
				o.Ws = append(o.Ws, lines())
			}
			o.Miss = chance(t, "missing", 15)
		case "iload", "pload":
			o.Miss = chance(t, "missing", 15)
			for k := rapid.IntRange(1, 3).Draw(t, "files"); k > 0; k-- {
				o.R = append(o.R, rows())
			}
		}
		c.Ops = append(c.Ops, o)
	}
	for k := rapid.IntRange(0, 6).Draw(t, "segs"); k > 0; k-- {
		c.Segs = append(c.Segs, Row{W: word(), F: rapid.SampledFrom([]float64{0, 0.5, 1, 1, 2, 1e-9, -1}).Draw(t, "weight")})
	}
	return c
}

// weight draws an IDF: the logarithm of a ratio, which may be small.
func weight(t *rapid.T) float64 {
	if chance(t, "small", 30) {
		return rapid.SampledFrom([]float64{0.01, 0.5, 1, 1.5, 1.99}).Draw(t, "weight")
	}
	return genFreq(t)
}

var shippedStopLists sync.Map

// shippedStops gives the lines of a stop-word list of the tree.
func shippedStops(lang string) []string {
	if l, ok := shippedStopLists.Load(lang); ok {
		return l.([]string)
	}
	name := "stop_word.txt"
	if lang == "zh" {
		name = "stop_tokens.txt"
	}
	b, err := os.ReadFile(filepath.Join(repoDir(), "data/dict/zh", name))
	if err != nil {
		hErr("%v", err)
	}
	var l []string
	for _, x := range strings.Split(string(b), "\n") {
		if x = strings.TrimSuffix(x, "\r"); x != "" {
			l = append(l, x)
		}
	}
	shippedStopLists.Store(lang, l)
	return l
}

func runC33(c caseC33, r *Rec) error {
	defer maps.Copy(idf.StopWordMap, maps.Clone(idf.StopWordMap))
	dir := filepath.Join(r.scratch, "c33")
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0o777); err != nil {
		hErr("%v", err)
	}
	probes := map[string]bool{"": true, "zzz": true}
	for _, w := range defaultIdfStops {
		probes[w] = true
	}
	see := func(w Raw) {
		probes[string(w)] = true
		probes[string(w)+"x"] = true
		k := normText(string(w), Opts{})
		probes[k] = true
		if rs := []rune(k); len(rs) > 1 {
			probes[string(rs[:len(rs)-1])] = true
		}
	}
	for _, o := range c.Ops {
		see(o.W)
		if o.K == "sship" {
			see("啊")
			see(",")
			see("哎呀")
		}
		for _, l := range o.Ws {
			for _, w := range l {
				see(w)
			}
		}
		for _, l := range o.R {
			for _, x := range l {
				see(x.W)
			}
		}
	}

	defaults := func() map[string]bool {
		m := map[string]bool{}
		for _, w := range defaultIdfStops {
			m[w] = true
		}
		return m
	}
	var stops [2]*idf.StopWord
	var stopM [2]map[string]bool
	var idfs [2]*idf.Idf
	var idfM [2]*Model
	var dicts [2]*pos.Dict
	var dictM [2]*Model
	for i := range stops {
		stops[i], stopM[i] = idf.NewStopWord(), defaults()
		idfs[i], idfM[i] = idf.NewIdf(), newModel()
		dicts[i], dictM[i] = &pos.Dict{Seg: *newSeg(Opts{})}, newModel()
	}
	// files writes the files and gives the list of their names
	nth := 0
	files := func(texts []string, miss bool) string {
		var names []string
		for i, s := range texts {
			nth++
			f := filepath.Join(dir, fmt.Sprintf("f%d.txt", nth))
			names = append(names, f)
			if !miss || i < len(texts)-1 {
				writeFile(f, s)
			}
		}
		return strings.Join(names, ", ")
	}
	rowTexts := func(l [][]Row) (r []string) {
		for _, rows := range l {
			r = append(r, LOpts{}.rows(rows))
		}
		return
	}
	loadRows := func(m *Model, l [][]Row, min float64) {
		for _, rows := range l {
			for _, x := range rows {
				if w, f, p, ok := (LOpts{Min: min}).parse((LOpts{}).cols(x)); ok {
					m.add(w, f, p, Opts{})
				}
			}
		}
	}
	removed, loadedAfter := false, false
	for n, o := range c.Ops {
		w := string(o.W)
		switch o.K {
		case "sadd":
			stops[o.I].AddStop(w)
			stopM[o.I][w] = true
		case "sremove":
			removed = removed || stopM[o.I][w]
			stops[o.I].RemoveStop(w)
			delete(stopM[o.I], w)
		case "sload":
			var texts []string
			for i, l := range o.Ws {
				s := ""
				for _, w := range l {
					s += string(w) + "\n"
					if w != "" && !o.Miss {
						stopM[o.I][string(w)] = true
					}
				}
				if i%2 == 1 {
					s = strings.TrimSuffix(s, "\n")
				}
				texts = append(texts, s)
			}
			err := stops[o.I].LoadDict(files(texts, o.Miss))
			if (err != nil) != o.Miss {
				return fmt.Errorf("operation %d: loading stop words gives %v; a file is missing: %v", n, err, o.Miss)
			}
			loadedAfter = loadedAfter || removed
		case "sship":
			list, args := shippedStops(""), []string(nil)
			if w != "" {
				list, args = shippedStops(w), []string{w}
			}
			if err := stops[o.I].LoadDict(args...); err != nil {
				return fmt.Errorf("operation %d: loading the shipped stop words %q gives %v", n, args, err)
			}
			for _, x := range list {
				stopM[o.I][x] = true
			}
			loadedAfter = loadedAfter || removed
		case "snew":
			stops[o.I], stopM[o.I] = idf.NewStopWord(), defaults()
		case "iadd":
			// an error tells that a word cannot be added
			if err := idfs[o.I].AddToken(w, o.F, posArgs(w, string(o.P))...); (err != nil) != (w == "") {
				return fmt.Errorf("operation %d: AddToken(%q) gives %v", n, w, err)
			}
			if w != "" {
				idfM[o.I].add(w, o.F, string(o.P), Opts{})
			}
		case "iload":
			if err := idfs[o.I].LoadDict(files(rowTexts(o.R), o.Miss)); (err != nil) != o.Miss {
				return fmt.Errorf("operation %d: LoadDict gives %v; a file is missing: %v", n, err, o.Miss)
			}
			if o.Miss { // the files before it are loaded
				o.R = o.R[:len(o.R)-1]
			}
			loadRows(idfM[o.I], o.R, math.SmallestNonzeroFloat64)
		case "inew":
			idfs[o.I], idfM[o.I] = idf.NewIdf(), newModel()
		case "padd":
			if err := dicts[o.I].AddToken(w, o.F, posArgs(w, string(o.P))...); (err != nil) != (w == "") {
				return fmt.Errorf("operation %d: AddToken(%q) gives %v", n, w, err)
			}
			if w != "" {
				dictM[o.I].add(w, o.F, string(o.P), Opts{})
			}
		case "premove":
			k := normText(w, Opts{})
			if _, ok := dictM[o.I].W[k]; ok {
				if err := dicts[o.I].RemoveToken(w); err != nil {
					return fmt.Errorf("operation %d: RemoveToken(%q) gives %v", n, w, err)
				}
				delete(dictM[o.I].W, k)
				removed = true
			} else {
				dicts[o.I].RemoveToken(w)
			}
		case "pload":
			if err := dicts[o.I].Seg.LoadDict(files(rowTexts(o.R), o.Miss)); (err != nil) != o.Miss {
				return fmt.Errorf("operation %d: LoadDict gives %v; a file is missing: %v", n, err, o.Miss)
			}
			if o.Miss {
				o.R = o.R[:len(o.R)-1]
			}
			loadRows(dictM[o.I], o.R, 0)
		default:
			hErr("unknown operation %q", o.K)
		}
		r.Label(o.K)
		for i := range stops {
			for x := range probes {
				if got := stops[i].IsStopWord(x); got != stopM[i][x] {
					return fmt.Errorf("after operation %d (%s on %d) IsStopWord(%q) of the list %d is %v, want %v", n, o.K, o.I, x, i, got, stopM[i][x])
				}
			}
			if err := freqsAre(fmt.Sprintf("after operation %d (%s on %d): IDF dictionary %d", n, o.K, o.I, i), idfs[i].Freq, idfM[i], probes); err != nil {
				return err
			}
			total := 0.0
			for _, e := range idfM[i].W {
				total += e.F
			}
			if idfs[i].NumTokens() != len(idfM[i].W) || !close64(idfs[i].TotalFreq(), total) {
				return fmt.Errorf("after operation %d (%s on %d): IDF dictionary %d has %d words of total weight %v, want %d, %v", n, o.K, o.I, i,
					idfs[i].NumTokens(), idfs[i].TotalFreq(), len(idfM[i].W), total)
			}
			name := fmt.Sprintf("after operation %d (%s on %d): part-of-speech dictionary %d", n, o.K, o.I, i)
			if err := freqsAre(name, dicts[i].Freq, dictM[i], probes); err != nil {
				return err
			}
			for x := range probes {
				if x == "" {
					continue
				}
				p, ok := dicts[i].Pos(x)
				if e, is := dictM[i].W[x]; ok != is || p != e.P {
					return fmt.Errorf("%s: Pos(%q) gives %q %v, want %q %v", name, x, p, ok, e.P, is)
				}
			}
		}
		if d := defaults(); !reflect.DeepEqual(idf.StopWordMap, d) {
			return fmt.Errorf("after operation %d (%s) the default stop words are %v", n, o.K, idf.StopWordMap)
		}
	}

	var segs segment.Segments
	for _, x := range c.Segs {
		segs = append(segs, segment.Segment{Text: string(x.W), Weight: x.F})
	}
	want := append([]Row(nil), c.Segs...)
	sort.SliceStable(want, func(i, j int) bool {
		return want[i].F < want[j].F || want[i].F == want[j].F && want[i].W < want[j].W
	})
	sort.Sort(segs)
	for i, x := range want {
		if segs[i].GetText() != string(x.W) || segs[i].GetWeight() != x.F {
			return fmt.Errorf("sorted by weight and text: %v, want %v", segs, want)
		}
	}
	r.HitIf(removed && loadedAfter, "loads after a removal")
	r.LabelIf(len(idfM[0].W) > 0 && len(idfM[1].W) > 0, "two IDF dictionaries")
	return nil
}

// freqsAre compares the lookups of a dictionary with the model.
func freqsAre(name string, find func(string) (float64, string, bool), m *Model, probes map[string]bool) error {
	prefixes := m.prefixSet()
	for w := range probes {
		f, p, ok := find(w)
		e, is := m.W[w]
		if w == "" || !is && prefixes[w] {
			is = ok // found without a weight, or not at all
		}
		if ok != is || f != e.F || p != e.P {
			return fmt.Errorf("%s: Freq(%q) gives %v %q %v, want %v %q %v", name, w, f, p, ok, e.F, e.P, is)
		}
	}
	return nil
}

func init() {
	reg(Prop{
		ID:    "C33",
		Rule:  "a random history of adding, removing and loading on two keyword stop lists, two IDF dictionaries and two part-of-speech dictionaries; non-trivial: a word was taken out and stop words were loaded afterwards",
		Quick: 60000, Thorough: 3000000,
		Assume: []string{"words have no zero byte; rows as for C11"},
	}, genC33, runC33)
}
