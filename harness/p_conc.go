package main

import (
	"fmt"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"unicode"

	"github.com/go-ego/gse"
	"pgregory.net/rapid"
)

// --- C24: concurrent queries ---

type caseConc struct {
	O     Opts
	Rows  []Row
	Stops []Raw     `json:",omitempty"`
	IDF   []Row     `json:",omitempty"` // words added to the IDF dictionary
	Lists [][]Query // one list per goroutine
	Reps  int
}

func genTexts(t *rapid.T, a alphabet, words []string, n, pieces int) []Raw {
	var r []Raw
	for i := 0; i < n; i++ {
		if i > 0 && chance(t, "twin", 30) {
			r = append(r, genTwin(t, a, r[even(t, "twinOf", i)]))
			continue
		}
		r = append(r, genText(t, a, words, pieces))
	}
	return r
}

// genTwin makes a text that is nearly the same: one character differs, often the last, or the case of the letters.
func genTwin(t *rapid.T, a alphabet, s Raw) Raw {
	if s == "" || chance(t, "case", 20) {
		return Raw(strings.ToUpper(string(s)))
	}
	r := []rune(string(s))
	i := len(r) - 1
	if rapid.Bool().Draw(t, "anywhere") {
		i = even(t, "where", len(r))
	}
	return Raw(string(r[:i])) + Raw(rapid.SampledFrom(cat(a.units, a.extra)).Draw(t, "instead")) + Raw(string(r[i+1:]))
}

func genConc(t *rapid.T) caseConc {
	a := genAlphabet(t, true)
	a.limit = 900
	c := caseConc{O: genOpts(t), Rows: genRows(t, a, 1, 8)}
	ws := rowWords(c.Rows)
	for _, w := range ws {
		if chance(t, "stop", 15) {
			c.Stops = append(c.Stops, Raw(w))
		}
	}
	if chance(t, "idf", 40) {
		c.IDF = genRows(t, a, 1, 4)
	}
	texts := append(genTexts(t, a, ws, rapid.IntRange(1, 3).Draw(t, "texts"), 8), Raw("世界人口大学, ab 12"))
	if chance(t, "rare", 30) {
		// characters the models know little or nothing of
		texts[0] += Raw(rapid.SampledFrom([]string{"龘", "㐀", "𠀀", "〇", "鿿", "丂丄"}).Draw(t, "rareOne")) + "人"
	}
	g := rapid.IntRange(2, 8).Draw(t, "goroutines")
	c.Reps = rapid.IntRange(1, 4).Draw(t, "reps")
	if chance(t, "hammer", 10) {
		// the same question about short texts, again and again: state that is shared without a data race shows rarely
		c.Reps = 50 + even(t, "hammerReps", 200)
		q := rapid.SampledFrom(queryNames).Draw(t, "hammered")
		for i := range texts {
			texts[i] = clip(texts[i], 45)
		}
		texts = append(texts, "大学生", "人民银行", "他不知道")
		for i := 0; i < g; i++ {
			n := rapid.IntRange(0, 2).Draw(t, "n")
			c.Lists = append(c.Lists, []Query{{q, texts[even(t, "one", len(texts))], n}, {q, texts[even(t, "two", len(texts))], n}})
		}
		return c
	}
	same := chance(t, "same", 40) // all goroutines ask the same questions
	for i := 0; i < g; i++ {
		if same && i > 0 {
			c.Lists = append(c.Lists, c.Lists[0])
			continue
		}
		var l []Query
		n := rapid.IntRange(1, 6).Draw(t, "queries")
		for k := 0; k < n; k++ {
			l = append(l, genQuery(t, texts))
		}
		c.Lists = append(c.Lists, l)
	}
	return c
}

// together runs the functions at once and hands on the first error and any panic.
func together(fs []func() error) error {
	var wg sync.WaitGroup
	start := make(chan struct{})
	errs := make([]error, len(fs))
	pan := make([]any, len(fs))
	for i := range fs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					if h, ok := e.(harnessError); ok {
						pan[i] = h
						return
					}
					st := stackNow()
					if blame(st) != "gse" {
						pan[i] = harnessError{fmt.Sprintf("%v\n%s", e, st)}
						return
					}
					errs[i] = fmt.Errorf("the code under test panicked: %v", e)
				}
			}()
			<-start
			errs[i] = fs[i]()
		}(i)
	}
	close(start)
	wg.Wait()
	for i := range fs {
		if pan[i] != nil {
			panic(pan[i])
		}
		if errs[i] != nil {
			return errs[i]
		}
	}
	return nil
}

// env is the segmenter of the case, with all that is made from it.
func (c caseConc) env() (*env, error) {
	e, err := newEnv(c.Rows, c.O, c.Stops)
	for _, x := range c.IDF {
		if err == nil && x.W != "" {
			e.te.Idf.AddToken(string(x.W), x.F, posArgs(string(x.W), string(x.P))...)
		}
	}
	return e, err
}

func runC24(c caseConc, r *Rec) error {
	shared, err := c.env()
	if err != nil {
		return err
	}
	got := make([][]string, len(c.Lists))
	var fs []func() error
	kinds := map[string]bool{}
	for g := range c.Lists {
		g := g
		for _, qu := range c.Lists[g] {
			kinds[qu.Q] = true
		}
		fs = append(fs, func() error {
			for rep := 0; rep < c.Reps; rep++ {
				for i, qu := range c.Lists[g] {
					a, err := shared.ask(qu)
					if err != nil {
						return err
					}
					s := a()
					if rep == 0 {
						got[g] = append(got[g], s)
					} else if got[g][i] != s {
						return fmt.Errorf("goroutine %d: %s(%q, %d) gives %s, and %s when asked again", g, qu.Q, string(qu.T), qu.N, got[g][i], s)
					}
				}
			}
			return nil
		})
	}
	if err := together(fs); err != nil {
		return err
	}
	alone, err := c.env()
	if err != nil {
		return err
	}
	for g, l := range c.Lists {
		for i, qu := range l {
			a, err := alone.ask(qu)
			if err != nil {
				return err
			}
			if want := a(); want != got[g][i] {
				return fmt.Errorf("goroutine %d: %s(%q, %d) gives %s among other queries, and %s alone", g, qu.Q, string(qu.T), qu.N, got[g][i], want)
			}
		}
	}
	m, stops := newModel(), map[string]bool{}
	for _, x := range c.Rows {
		m.add(string(x.W), x.F, string(x.P), c.O)
	}
	for _, x := range c.Stops {
		stops[string(x)] = true
	}
	var texts []Raw
	for _, l := range c.Lists {
		texts = asked(l, texts)
	}
	if err := modelAgrees(shared.seg, m, stops, c.O, texts); err != nil {
		return fmt.Errorf("after the queries: %v", err)
	}
	for k := range kinds {
		r.Label(k)
	}
	r.HitIf(len(c.Lists) > 1, "concurrent")
	r.LabelIf(c.Reps > 4, "asked again and again")
	return nil
}

// townRow is at the end of every file.
var townRow = Row{"人口", 3, "n"}

// model follows the operation on a model of the dictionary and the stop words.
func (o SOp) model(m *Model, stops map[string]bool, op Opts, lo LOpts) {
	w := string(o.W)
	rows := func(l []Row, filed bool) {
		for _, x := range l {
			if filed && !lo.fits(x) {
				continue
			}
			if w, f, p, ok := lo.parse(lo.cols(x)); ok {
				m.add(w, f, p, op)
			}
		}
	}
	switch o.K {
	case "add", "force":
		m.add(w, o.F, string(o.P), op)
	case "readd":
		if k := normText(w, op); m.W[k] != (Entry{}) {
			delete(m.W, k)
			m.add(w, o.F, string(o.P), op)
		}
	case "remove":
		delete(m.W, normText(w, op))
	case "map":
		rows(o.R, false)
	case "empty":
		m.W = map[string]Entry{}
		rows(o.R, false)
	case "load":
		rows(append(append([]Row(nil), o.R...), townRow), true)
	case "loadstr":
		rows(o.R, true)
	case "stop":
		stops[w] = true
	case "unstop":
		delete(stops, w)
	case "emptystop":
		for k := range stops {
			delete(stops, k)
		}
	case "stopstr", "stoparr", "addstops":
		for _, x := range stopWords(o.W) {
			stops[x] = true
		}
	case "loadstop":
		stops["的"] = true
		if w != "" {
			stops[w] = true
		}
	}
}

// stopWords are the stop words of the operations that load a list of them.
func stopWords(w Raw) []string { return []string{"了", "大学", string(w)} }

// modelAgrees compares the segmenter with the model: what state that is shared in
// secret by all segmenters of the process would spoil for every one of them alike.
func modelAgrees(seg *gse.Segmenter, m *Model, stops map[string]bool, o Opts, texts []Raw) error {
	o.apply(seg)
	words := m.keys()
	for _, x := range texts {
		words = append(words, string(x))
	}
	if err := checkMap(seg, m, o, words, m.prefixSet()); err != nil {
		return err
	}
	for w := range stops {
		if !seg.IsStop(w) {
			return fmt.Errorf("%q is no stop word, but was made one", w)
		}
	}
	for _, w := range words {
		if seg.IsStop(w) != stops[w] {
			return fmt.Errorf("IsStop(%q) is %v", w, seg.IsStop(w))
		}
	}
	positive := true
	for _, e := range m.W {
		positive = positive && e.F > 0
	}
	if !positive {
		return nil
	}
	seg.CalcToken()
	for _, x := range texts {
		if err := checkLossless(seg, string(x), o); err != nil {
			return err
		}
		if len(m.W) > 0 {
			if err := checkShortest(seg, m, o, string(x), &Rec{labels: map[string]bool{}}); err != nil {
				return err
			}
		}
		d := m.dag(cutNorm(string(x), !o.NoLower), m.logTotal(seg))
		if err := checkCutPath(d, seg.Cut(string(x), false)); err != nil {
			return err
		}
		if got, want := seg.CutAll(string(x)), refCutAll(d); !eqStrings(got, want) {
			return fmt.Errorf("CutAll(%q) gives %q, want %q", string(x), got, want)
		}
	}
	return nil
}

// asked lists the distinct texts of the queries, the first few of them.
func asked(l []Query, r []Raw) []Raw {
	for _, qu := range l {
		has := len(r) >= 4
		for _, x := range r {
			has = has || x == qu.T
		}
		if !has {
			r = append(r, qu.T)
		}
	}
	return r
}

// --- C25: independent segmenters; C29: queries change nothing ---

// SOp is one operation on a segmenter or a query.
type SOp struct {
	K  string  // a kind of DOp, or: stop unstop emptystop loadstop stopstr stoparr addstops load loadstr attach idf idfstop model query
	W  Raw     `json:",omitempty"`
	F  float64 `json:",omitempty"`
	P  Raw     `json:",omitempty"`
	R  []Row   `json:",omitempty"`
	Qu *Query  `json:",omitempty"`
	N  int     `json:",omitempty"` // how many questions about other texts go before the query
}

func genSOps(t *rapid.T, a alphabet, words []string, texts []Raw, n int, queryShare int) []SOp {
	var ops []SOp
	for i := 0; i < n; i++ {
		if chance(t, "query", queryShare) {
			qu := genQuery(t, texts)
			o := SOp{K: "query", Qu: &qu}
			if permille(t, "flood", 25) {
				o.N = 1 + even(t, "times", 300)
			}
			ops = append(ops, o)
			continue
		}
		word := func() Raw {
			if len(words) > 0 && !chance(t, "fresh", 40) {
				return Raw(rapid.SampledFrom(words).Draw(t, "known"))
			}
			return Raw(genWord(t, a, words))
		}
		k := rapid.SampledFrom([]string{"add", "force", "readd", "remove", "calc", "map", "empty", "stop", "unstop", "emptystop",
			"loadstop", "load", "loadstr", "attach", "idf", "idfstop", "stopstr", "stoparr", "addstops"}).Draw(t, "op")
		o := SOp{K: k}
		switch k {
		case "add", "force", "readd", "idf":
			o.W, o.F, o.P = word(), genFreq(t), genPos(t)
		case "remove", "stop", "unstop", "loadstop", "idfstop":
			o.W = word()
		case "stopstr", "stoparr", "addstops":
			o.W = word()
			if !plainWord(o.W) {
				o.W = "人"
			}
		case "map", "empty", "load", "loadstr":
			o.R = genLowRows(t, genRows(t, a, 1, 3))
		}
		ops = append(ops, o)
	}
	return ops
}

func plainWord(w Raw) bool {
	for _, r := range string(w) {
		if r <= ' ' || r == 0xfffd || r == ',' || unicode.IsSpace(r) {
			return false
		}
	}
	return w != ""
}

// cols are the columns of a row: with LoadNoFreq rows without part of speech have no frequency.
func (l LOpts) cols(x Row) []Raw {
	if l.NoFreq && x.P == "" {
		return []Raw{x.W}
	}
	return []Raw{x.W, Raw(fmtFreq(x.F)), x.P}
}

// fits tells whether the row can stand in a file.
func (l LOpts) fits(x Row) bool {
	return plainWord(x.W) && (l.Sep == "" || !strings.Contains(string(x.W), l.Sep)) && (x.P != "" || l.NoFreq)
}

// rows is the text of a dictionary file.
func (l LOpts) rows(rows []Row) string {
	var lines [][]Raw
	for _, x := range rows {
		if l.fits(x) {
			lines = append(lines, l.cols(x))
		}
	}
	return l.text(lines, "\n", true)
}

// maps are the rows for LoadDictMap.
func (l LOpts) maps(rows []Row) []map[string]string {
	r := rowMaps(rows)
	for i, x := range rows {
		if len(l.cols(x)) == 1 {
			r[i] = map[string]string{"text": string(x.W)}
		}
	}
	return r
}

// genLOpts draws the loader settings of a segmenter: the defaults half of the time.
func genLOpts(t *rapid.T) LOpts {
	var l LOpts
	if chance(t, "loader", 50) {
		l.Sep = rapid.SampledFrom([]string{"", "", ",", ";", "|"}).Draw(t, "sep")
		l.NoFreq = chance(t, "nofreq", 40)
		if l.NoFreq && chance(t, "textfreq", 40) {
			l.Text = rapid.SampledFrom([]string{"7", "1", "50.5"}).Draw(t, "text")
		}
		l.Min = rapid.SampledFrom([]float64{0, 0, 1, 0.5, 5, 1000}).Draw(t, "min")
	}
	return l
}

// genLowRows makes some of the rows rarer than the loaders accept by default.
func genLowRows(t *rapid.T, rows []Row) []Row {
	if chance(t, "lowrows", 40) {
		for i := range rows {
			if chance(t, "low", 40) {
				rows[i].F = rapid.SampledFrom([]float64{1, 0.5, 1.75, 3}).Draw(t, "f")
			}
		}
	}
	return rows
}

// do runs one operation; queries return their answer.
func (e *env) do(o SOp, dir string) (answer, error) {
	w := string(o.W)
	switch o.K {
	case "query":
		// many questions about other texts first
		for i := 0; i < o.N; i++ {
			qu := *o.Qu
			qu.T += Raw(strconv.Itoa(i))
			if len(qu.T) > 60 {
				qu.T = qu.T[len(qu.T)-60:]
			}
			if _, err := e.ask(qu); err != nil {
				return nil, err
			}
		}
		return e.ask(*o.Qu)
	case "add":
		e.seg.AddToken(w, o.F, posArgs(w, string(o.P))...)
	case "force":
		e.seg.AddTokenForce(w, o.F, posArgs(w, string(o.P))...)
	case "readd":
		e.seg.ReAddToken(w, o.F, posArgs(w, string(o.P))...)
	case "remove":
		e.seg.RemoveToken(w)
	case "calc":
		e.seg.CalcToken()
	case "map":
		return nil, e.seg.LoadDictMap(e.lo.maps(o.R))
	case "empty":
		e.seg.Empty()
		return nil, e.seg.LoadDictMap(e.lo.maps(o.R))
	case "load":
		f := filepath.Join(dir, "dict.txt")
		writeFile(f, e.lo.rows(append(append([]Row(nil), o.R...), townRow)))
		return nil, e.seg.LoadDict(f)
	case "loadstr":
		return nil, e.seg.LoadDictStr(e.lo.rows(o.R))
	case "stop":
		e.seg.AddStop(w)
	case "unstop":
		e.seg.RemoveStop(w)
	case "emptystop":
		return nil, e.seg.EmptyStop()
	case "loadstop":
		f := filepath.Join(dir, "stop.txt")
		writeFile(f, "的\n"+w+"\n")
		return nil, e.seg.LoadStop(f)
	case "stopstr":
		return nil, e.seg.LoadStopStr(strings.Join(stopWords(o.W), "\n"))
	case "stoparr":
		e.seg.LoadStopArr(stopWords(o.W))
	case "addstops":
		e.seg.AddStopArr(stopWords(o.W)...)
	case "attach":
		_, err := e.attach()
		return nil, err
	case "idf":
		if w != "" {
			e.te.Idf.AddToken(w, o.F, posArgs(w, string(o.P))...)
		}
	case "idfstop":
		f := filepath.Join(dir, "idfstop.txt")
		writeFile(f, "的\n"+w+"\n")
		return nil, e.te.LoadStopWords(f)
	default:
		hErr("unknown operation %q", o.K)
	}
	return nil, nil
}

type caseIndep struct {
	Rows  [][]Row
	Loads []string `json:",omitempty"` // how the rows get loaded: as maps ("" too), from a file (one file for the segmenters with the same rows), from a string
	L     []LOpts  `json:",omitempty"` // the settings of the loaders, which are a segmenter's own too
	Opts  []Opts   // lower-casing is shared by design and stays on
	Hist  [][]SOp
	Order []int `json:",omitempty"` // sequential: which segmenter goes next
	Conc  bool  `json:",omitempty"`
	HMM   bool  `json:",omitempty"` // the segmenters load the default HMM model with their first dictionary
}

func genC25(t *rapid.T) caseIndep {
	a := genAlphabet(t, false)
	a.limit = 900
	n := rapid.IntRange(2, 4).Draw(t, "segmenters")
	c := caseIndep{Conc: rapid.Bool().Draw(t, "concurrent"), HMM: rapid.Bool().Draw(t, "model")}
	total := 0
	for i := 0; i < n; i++ {
		o := genOpts(t)
		o.NoLower = false
		c.Opts = append(c.Opts, o)
		c.L = append(c.L, genLOpts(t))
		rows := genLowRows(t, genRows(t, a, 1, 5))
		if i > 0 && chance(t, "sameRows", 40) {
			rows = c.Rows[0]
			if rapid.Bool().Draw(t, "sameOpts") {
				c.Opts[i], c.L[i] = c.Opts[0], c.L[0]
			}
		}
		c.Loads = append(c.Loads, rapid.SampledFrom([]string{"", "file", "file", "str"}).Draw(t, "load"))
		c.Rows = append(c.Rows, rows)
		ws := rowWords(rows)
		texts := append(genTexts(t, a, ws, 2, 6), "世界人口大学的ab")
		if chance(t, "long", 20) {
			// long runs of Han characters
			texts[2] = Raw(strings.Repeat("世界人口大学的", 10+even(t, "longer", 20)))
		}
		h := genSOps(t, a, ws, texts, rapid.IntRange(1, 6).Draw(t, "ops"), 50)
		qu := genQuery(t, texts)
		h = append(h, SOp{K: "query", Qu: &qu})
		c.Hist = append(c.Hist, h)
		total += len(h)
	}
	if !c.Conc {
		for i := 0; i < total+n; i++ {
			c.Order = append(c.Order, rapid.IntRange(0, n-1).Draw(t, "next"))
		}
	}
	return c
}

func (c caseIndep) load(i int) string {
	if i < len(c.Loads) {
		return c.Loads[i]
	}
	return ""
}

func (c caseIndep) lo(i int) LOpts {
	if i < len(c.L) {
		return c.L[i]
	}
	return LOpts{}
}

// indepRun is one segmenter's history in progress.
type indepRun struct {
	c    caseIndep
	i    int
	dir  string
	file string // with the rows of the segmenter
	e    *env
	at   int
	seen []string
}

// made asks the values that were made from the segmenter.
func (e *env) made() (r []string, err error) {
	for _, q := range []string{"poscut", "tags", "rankdef"} {
		a, err := e.ask(Query{Q: q, T: "世界人口大学的ab, 人民银行", N: 2})
		if err != nil {
			return nil, err
		}
		r = append(r, a())
	}
	return r, nil
}

func (x *indepRun) step() (more bool, err error) {
	if x.e == nil {
		lo := x.c.lo(x.i)
		seg := lo.newSeg(x.c.Opts[x.i])
		seg.NotLoadHMM = !x.c.HMM
		var err error
		switch x.c.load(x.i) {
		case "file":
			err = seg.LoadDict(x.file)
		case "str":
			err = seg.LoadDictStr(lo.rows(x.c.Rows[x.i]))
		default:
			err = seg.LoadDictMap(lo.maps(x.c.Rows[x.i]))
		}
		if err != nil {
			return false, err
		}
		x.e, err = (&env{seg: seg, lo: lo}).attach()
		return true, err
	}
	if x.at == len(x.c.Hist[x.i]) {
		return false, nil
	}
	o := x.c.Hist[x.i][x.at]
	var before []string
	if o.K == "empty" {
		if before, err = x.e.made(); err != nil {
			return false, err
		}
		if err := x.e.seg.Empty(); err != nil {
			return false, err
		}
		after, err := x.e.made()
		if err != nil {
			return false, err
		}
		for i := range after {
			if before[i] != after[i] {
				return false, fmt.Errorf("a value made from segmenter %d gives %s, and %s once the segmenter was emptied", x.i, before[i], after[i])
			}
		}
	}
	a, err := x.e.do(o, x.dir)
	x.at++
	if err != nil {
		return false, err
	}
	if a != nil {
		x.seen = append(x.seen, a())
	}
	return true, nil
}

func (x *indepRun) rest() error {
	for {
		more, err := x.step()
		if err != nil || !more {
			return err
		}
	}
}

func runC25(c caseIndep, r *Rec) error {
	gse.ToLower = true
	n := len(c.Hist)
	files := make([]string, n)
	for i := range files {
		for k := 0; k <= i && files[i] == ""; k++ {
			if reflect.DeepEqual(c.Rows[k], c.Rows[i]) && c.lo(k) == c.lo(i) {
				files[i] = filepath.Join(r.scratch, fmt.Sprintf("rows%d.txt", k))
			}
		}
		if c.load(i) == "file" {
			writeFile(files[i], c.lo(i).rows(append(append([]Row(nil), c.Rows[i]...), townRow)))
			r.Label("loaded from a file")
		}
	}
	mk := func(kind string) []*indepRun {
		var l []*indepRun
		for i := 0; i < n; i++ {
			l = append(l, &indepRun{c: c, i: i, file: files[i], dir: filepath.Join(r.scratch, fmt.Sprintf("%s%d", kind, i))})
		}
		return l
	}
	mixed := mk("m")
	if c.Conc {
		var fs []func() error
		for _, x := range mixed {
			fs = append(fs, x.rest)
		}
		if err := together(fs); err != nil {
			return err
		}
		r.Hit("concurrent")
	} else {
		for _, i := range c.Order {
			if _, err := mixed[i].step(); err != nil {
				return err
			}
		}
		for _, x := range mixed {
			if err := x.rest(); err != nil {
				return err
			}
		}
		r.Hit("interleaved")
	}
	for i, x := range mk("a") {
		if err := x.rest(); err != nil {
			return err
		}
		for k := range x.seen {
			if x.seen[k] != mixed[i].seen[k] {
				return fmt.Errorf("segmenter %d, answer %d: %s next to other segmenters, and %s without them", i, k, mixed[i].seen[k], x.seen[k])
			}
		}
	}
	for i, x := range mixed {
		m, stops := newModel(), map[string]bool{}
		var texts []Raw
		SOp{K: map[string]string{"": "map", "file": "load", "str": "loadstr"}[c.load(i)], R: c.Rows[i]}.model(m, stops, c.Opts[i], c.lo(i))
		for _, o := range c.Hist[i] {
			o.model(m, stops, c.Opts[i], c.lo(i))
			if o.Qu != nil {
				texts = asked([]Query{*o.Qu}, texts)
			}
		}
		if err := modelAgrees(x.e.seg, m, stops, c.Opts[i], texts); err != nil {
			return fmt.Errorf("segmenter %d in the end: %v", i, err)
		}
	}
	for _, h := range c.Hist {
		for _, o := range h {
			r.Label(o.K)
		}
	}
	return nil
}

// --- C29 ---

type casePure struct {
	O     Opts
	L     LOpts // of the loads of the history
	Rows  []Row
	Hist  []SOp
	Final []Query
}

func genC29(t *rapid.T) casePure {
	a := genAlphabet(t, true)
	a.limit = 900
	c := casePure{O: genOpts(t), L: genLOpts(t), Rows: genRows(t, a, 1, 6)}
	ws := rowWords(c.Rows)
	texts := append(genTexts(t, a, ws, 3, 8), "世界人口大学的ab")
	c.Hist = genSOps(t, a, ws, texts, rapid.IntRange(1, 10).Draw(t, "ops"), 65)
	n := rapid.IntRange(1, 5).Draw(t, "final")
	for i := 0; i < n; i++ {
		c.Final = append(c.Final, genQuery(t, texts))
	}
	return c
}

func runC29(c casePure, r *Rec) error {
	type old struct {
		qu   Query
		a    answer
		then string
	}
	e, err := newEnv(c.Rows, c.O, nil)
	if err != nil {
		return err
	}
	bare, err := newEnv(c.Rows, c.O, nil) // the same without the queries
	if err != nil {
		return err
	}
	e.loader(c.L)
	bare.loader(c.L)
	var olds []old
	changed := false
	afterQuery := false
	for _, o := range c.Hist {
		a, err := e.do(o, r.scratch)
		if err != nil {
			return err
		}
		if o.K == "query" {
			if a != nil {
				olds = append(olds, old{*o.Qu, a, a()})
			}
			afterQuery = true
			continue
		}
		changed = changed || len(olds) > 0
		if _, err := bare.do(o, r.scratch); err != nil {
			return err
		}
	}
	for i, qu := range c.Final {
		a, err := e.ask(qu)
		if err != nil {
			return err
		}
		// asked on a segmenter that was asked nothing but the earlier of the final queries
		b, err := bare.ask(qu)
		if err != nil {
			return err
		}
		sa, sb := a(), b()
		if sa != sb {
			return fmt.Errorf("%s(%q, %d) gives %s after other queries (final query %d), and %s without them", qu.Q, string(qu.T), qu.N, sa, i, sb)
		}
		olds = append(olds, old{qu, a, sa})
	}
	for _, o := range olds {
		if now := o.a(); now != o.then {
			return fmt.Errorf("the answer of %s(%q, %d) was %s when given and is %s later", o.qu.Q, string(o.qu.T), o.qu.N, o.then, now)
		}
		r.Label(o.qu.Q)
	}
	m, stops := newModel(), map[string]bool{}
	for _, x := range c.Rows {
		m.add(string(x.W), x.F, string(x.P), c.O)
	}
	for _, o := range c.Hist {
		o.model(m, stops, c.O, c.L)
	}
	if err := modelAgrees(e.seg, m, stops, c.O, asked(c.Final, nil)); err != nil {
		return fmt.Errorf("in the end: %v", err)
	}
	r.HitIf(changed, "results held over a dictionary change")
	r.HitIf(afterQuery, "query after queries")
	return nil
}

func init() {
	reg(Prop{ID: "C24", Quick: 2400, Thorough: 68000, Workers: 4, Race: true,
		Rule: "two or more goroutines queried the segmenter at once"}, genConc, runC24)
	reg(Prop{ID: "C25", Quick: 1600, Thorough: 37000, Workers: 4, Race: true,
		Rule: "two or more segmenters were used at once or in turns"}, genC25, runC25)
	reg(Prop{ID: "C29", Quick: 20000, Thorough: 600000,
		Rule: "a query followed other queries, or a result was held over a change of the dictionary"}, genC29, runC29)
}
