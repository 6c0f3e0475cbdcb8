package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"github.com/go-ego/gse"
	"pgregory.net/rapid"
)

// DOp is one change of the dictionary or of the splitting options.
type DOp struct {
	K string  // add force readd remove calc str map opts empty
	W Raw     `json:",omitempty"`
	F float64 `json:",omitempty"`
	P Raw     `json:",omitempty"`
	O *Opts   `json:",omitempty"`
	R []Row   `json:",omitempty"`
}

func genDOps(t *rapid.T, a alphabet, words []string, max int, withOpts bool) []DOp {
	n := rapid.IntRange(0, max).Draw(t, "ops")
	var ops []DOp
	for i := 0; i < n; i++ {
		known := func() Raw {
			if len(words) > 0 && !chance(t, "fresh", 25) {
				return Raw(rapid.SampledFrom(words).Draw(t, "known"))
			}
			w := genWord(t, a, words)
			words = append(words, w)
			return Raw(w)
		}
		o := DOp{}
		switch pick(t, "op", 25, 10, 15, 25, 10, 5, b2i(withOpts)*10, 2) {
		case 0:
			w := genWord(t, a, words)
			words = append(words, w)
			o = DOp{K: "add", W: Raw(w), F: genFreq(t), P: genPos(t)}
		case 1:
			o = DOp{K: "force", W: known(), F: genFreq(t), P: genPos(t)}
		case 2:
			o = DOp{K: "readd", W: known(), F: genFreq(t), P: genPos(t)}
		case 3:
			o = DOp{K: "remove", W: known()}
		case 4:
			o = DOp{K: "calc"}
		case 5:
			o = DOp{K: "map", R: genRows(t, a, 1, 3)}
		case 6:
			op := genOpts(t)
			o = DOp{K: "opts", O: &op}
		case 7:
			o = DOp{K: "empty", R: genRows(t, a, 0, 3)}
		}
		ops = append(ops, o)
	}
	return ops
}

// genWild gives some of the words frequencies no corpus has.
func genWild(t *rapid.T, rows []Row, ops []DOp) {
	if !chance(t, "wild", 8) {
		return
	}
	wild := func(f *float64) {
		if chance(t, "wildF", 50) {
			*f = rapid.SampledFrom([]float64{0, -3, 1, 0.001, 1e300, 1e-300, 5e-324, -1e-9, 1.7e308}).Draw(t, "f")
		}
	}
	for i := range rows {
		wild(&rows[i].F)
	}
	for i := range ops {
		wild(&ops[i].F)
	}
}

func rowMaps(rows []Row) []map[string]string {
	var l []map[string]string
	for _, r := range rows {
		l = append(l, map[string]string{"text": string(r.W), "freq": fmtFreq(r.F), "pos": string(r.P)})
	}
	return l
}

// mapFreq is the frequency a loader gives a row (minimum frequency 2).
func mapFreq(r Row) (float64, bool) {
	if r.W == "" || r.F < 2 || math.IsNaN(r.F) || math.IsInf(r.F, 0) {
		return 0, false
	}
	if len([]rune(string(r.W))) < 2 {
		return 2, true
	}
	return r.F, true
}

// applyDOp does one operation on the segmenter and on the model.
func applyDOp(seg *gse.Segmenter, m *Model, o DOp, cur *Opts) error {
	w := string(o.W)
	switch o.K {
	case "add":
		seg.AddToken(w, o.F, posArgs(w, string(o.P))...)
		m.add(w, o.F, string(o.P), *cur)
	case "force":
		seg.AddTokenForce(w, o.F, posArgs(w, string(o.P))...)
		m.add(w, o.F, string(o.P), *cur)
	case "readd":
		k := normText(w, *cur)
		err := seg.ReAddToken(w, o.F, posArgs(w, string(o.P))...)
		_, was := m.W[k]
		if (err == nil) != was {
			return fmt.Errorf("ReAddToken(%q) gave error %v; the word was in the dictionary: %v", w, err, was)
		}
		if was {
			delete(m.W, k)
			m.add(w, o.F, string(o.P), *cur)
		}
	case "remove":
		k := normText(w, *cur)
		err := seg.RemoveToken(w)
		_, was := m.W[k]
		if (err == nil) != was {
			return fmt.Errorf("RemoveToken(%q) gave error %v; the word was in the dictionary: %v", w, err, was)
		}
		delete(m.W, k)
	case "calc":
		seg.CalcToken()
	case "map", "empty":
		if o.K == "empty" {
			seg.Empty()
			m.W = map[string]Entry{}
		}
		if err := seg.LoadDictMap(rowMaps(o.R)); err != nil {
			return fmt.Errorf("LoadDictMap: %v", err)
		}
		for _, r := range o.R {
			if f, ok := mapFreq(r); ok {
				m.add(string(r.W), f, string(r.P), *cur)
			}
		}
	case "opts":
		*cur = *o.O
		cur.apply(seg)
	default:
		hErr("unknown op %q", o.K)
	}
	return nil
}

// checkLossless is C01 on one text.
func checkLossless(seg *gse.Segmenter, text string, o Opts) error {
	want := normText(text, o)
	in := []byte(text)
	var segs []gse.Segment
	for mode := 0; mode < 3; mode++ {
		name := "Segment"
		switch mode {
		case 0:
			segs = seg.Segment(in)
		case 1:
			name = "ModeSegment(true)"
			segs = seg.ModeSegment(in, true)
		case 2:
			name = "ModeSegment(false)"
			segs = seg.ModeSegment(in, false)
		}
		if !bytes.Equal(in, []byte(text)) {
			return fmt.Errorf("%s changed its input to %q", name, in)
		}
		at := 0
		for i := range segs {
			s := &segs[i]
			if s.Start() != at || s.End() <= s.Start() || s.End() > len(want) {
				return fmt.Errorf("%s: segment %d covers [%d,%d) after %d of %d bytes of %q", name, i, s.Start(), s.End(), at, len(want), text)
			}
			if tx := s.Token().Text(); tx != want[s.Start():s.End()] {
				return fmt.Errorf("%s: segment %d [%d,%d) has the text %q, the text there is %q", name, i, s.Start(), s.End(), tx, want[s.Start():s.End()])
			}
			at = s.End()
		}
		if at != len(want) {
			return fmt.Errorf("%s covers %d of the %d bytes of %q", name, at, len(want), text)
		}
	}
	var texts []string
	for i := range segs {
		texts = append(texts, segs[i].Token().Text())
	}
	if got := seg.Slice(text); !eqStrings(got, texts) {
		return fmt.Errorf("Slice gives %q, Segment %q", got, texts)
	}
	if got := seg.Cut(text); !eqStrings(got, texts) {
		return fmt.Errorf("Cut gives %q, Segment %q", got, texts)
	}
	return nil
}

type caseC01 struct {
	O     Opts
	Rows  []Row
	Ops   []DOp
	Texts []Raw
}

type caseC02 struct {
	O    Opts
	Rows []Row
	Ops  []DOp
	Via  int  // how the weights get calculated
	Each bool `json:",omitempty"` // check after every operation
	Text Raw
}

// checkShortest is C02 on one text.
func checkShortest(seg *gse.Segmenter, m *Model, o Opts, text string, r *Rec) error {
	atoms := refAtoms(text, o)
	logT := math.Log2(seg.Dictionary().TotalFreq())
	best := m.leastCost(atoms, logT, false)
	segs := seg.Segment([]byte(text))
	cost := 0.0
	at, oov, multi := 0, 0, 0
	// the atoms before every segment and what they cost
	starts, costs := make([]int, 0, len(segs)+1), make([]float64, 0, len(segs)+1)
	for i := range segs {
		starts, costs = append(starts, at), append(costs, cost)
		tok := segs[i].Token()
		tx := tok.Text()
		// the atoms this segment covers
		n, rest := 0, len(tx)
		for rest > 0 && at+n < len(atoms) {
			rest -= len(atoms[at+n])
			n++
		}
		if rest != 0 || strings.Join(atoms[at:at+n], "") != tx {
			return fmt.Errorf("segment %d (%q) does not consist of atoms of %q", i, tx, atoms)
		}
		e, ok := m.W[tx]
		switch {
		case ok:
			if tok.Freq() != e.F || tok.Pos() != e.P {
				return fmt.Errorf("segment %q carries %v/%q, the dictionary has %v/%q", tx, tok.Freq(), tok.Pos(), e.F, e.P)
			}
			cost += logT - math.Log2(e.F)
			if n > 1 {
				multi++
			}
		case n == 1:
			if tok.Freq() != 1 || tok.Pos() != "x" {
				return fmt.Errorf("segment %q is no word but carries %v/%q", tx, tok.Freq(), tok.Pos())
			}
			cost += oovCost
			oov++
		default:
			return fmt.Errorf("segment %q is neither a word nor a single atom", tx)
		}
		at += n
	}
	if at != len(atoms) {
		return fmt.Errorf("the segments cover %d of %d atoms", at, len(atoms))
	}
	if cost > best+costEps(best, len(atoms)) {
		return fmt.Errorf("the segments %q cost %.6f, the least cost of %q is %.6f", seg.Slice(text), cost, text, best)
	}
	if len(atoms) > 100 {
		// The sum over a long text is less exact. Each part of a least-cost path is one too.
		starts, costs = append(starts, at), append(costs, cost)
		width := 20
		for _, e := range m.W {
			width = max(width, 2*e.Atoms)
		}
		for i := 0; i < len(segs); {
			j := i + 1
			for j < len(segs) && starts[j]-starts[i] < width {
				j++
			}
			part := atoms[starts[i]:starts[j]]
			best := m.leastCost(part, logT, false)
			// each step is rounded to the precision of the cost up to there
			if cost := costs[j] - costs[i]; cost > best+costEps(costs[j], len(part)) {
				return fmt.Errorf("the segments %d to %d, %q, cost %.6f, the least cost is %.6f", i, j-1, part, cost, best)
			}
			i += max(1, (j-i)/2)
		}
		r.Label("parts of a long text")
	}
	if cost < best-costEps(best, len(atoms)) {
		hErr("reference cost too high: %v > %v", best, cost)
	}
	r.HitIf(multi > 0 && len(segs) > 1, "multi-atom words")
	r.LabelIf(oov > 0, "unknown atoms")
	r.LabelIf(len(atoms) > 200, "long text")
	return nil
}

func init() {
	reg(Prop{
		ID:    "C01",
		Rule:  "random dictionary, options, a history of dictionary and option changes, then several texts (invalid UTF-8 included); non-trivial: at least one text gives two or more segments after at least one dictionary row",
		Quick: 150000, Thorough: 7600000,
		Assume: []string{"the dictionary is loaded (not emptied) when texts are cut"},
	}, func(t *rapid.T) caseC01 {
		a := genAlphabet(t, true)
		c := caseC01{O: genOpts(t), Rows: genRows(t, a, 0, 10)}
		words := rowWords(c.Rows)
		c.Ops = genDOps(t, a, words, 6, true)
		genWild(t, c.Rows, c.Ops)
		for _, o := range c.Ops {
			if o.W != "" {
				words = append(words, string(o.W))
			}
			words = append(words, rowWords(o.R)...)
		}
		n := rapid.IntRange(1, 3).Draw(t, "texts")
		for i := 0; i < n; i++ {
			c.Texts = append(c.Texts, genText(t, a, words, 12))
		}
		c.Texts[0] = genHuge(t, c.Texts[0], words)
		return c
	}, func(c caseC01, r *Rec) error {
		cur := c.O
		seg := newSeg(cur)
		m := newModel()
		for _, row := range c.Rows {
			seg.AddToken(string(row.W), row.F, posArgs(string(row.W), string(row.P))...)
			m.add(string(row.W), row.F, string(row.P), cur)
		}
		seg.CalcToken()
		check := func() error {
			for _, tx := range c.Texts {
				if err := checkLossless(seg, string(tx), cur); err != nil {
					return err
				}
			}
			return nil
		}
		if err := check(); err != nil {
			return err
		}
		for i, op := range c.Ops {
			if err := applyDOp(seg, m, op, &cur); err != nil {
				return err
			}
			r.Label("op " + op.K)
			if err := check(); err != nil {
				return fmt.Errorf("after operation %d (%s): %v", i, op.K, err)
			}
		}
		for _, tx := range c.Texts {
			n := len(seg.Slice(string(tx)))
			r.HitIf(n > 1 && len(m.W) > 0, "segmented")
			r.LabelIf(len(tx) > 500, "long text")
			r.LabelIf(strings.ToValidUTF8(string(tx), "") != string(tx), "invalid UTF-8")
		}
		r.LabelIf(len(m.W) == 1, "one-word dictionary")
		return nil
	})

	reg(Prop{
		ID:    "C02",
		Rule:  "random dictionary of positive frequencies with many ties and overlaps, dictionary changes, weights recalculated, one text; non-trivial: the result has several segments, one of them a word of two or more atoms",
		Quick: 400000, Thorough: 12000000,
		Assume: []string{"costs are compared with the tolerance of double-precision sums"},
	}, func(t *rapid.T) caseC02 {
		a := genAlphabet(t, true)
		c := caseC02{O: genOpts(t), Rows: genRows(t, a, 1, 14), Via: pick(t, "via", 6, 2, 2, 2)}
		if c.Via == 2 && len(c.Rows) > 1500 {
			c.Via = 0 // one calculation for each word of thousands takes seconds
		}
		words := rowWords(c.Rows)
		tiny := c.Via != 1 && chance(t, "tiny", 4)
		if tiny {
			// frequencies with a total below one
			for i := range c.Rows {
				c.Rows[i].F /= math.Ldexp(1, 44)
			}
		}
		if !tiny && chance(t, "history", 30) {
			c.Ops = genDOps(t, a, words, 5, false)
			c.Each = rapid.Bool().Draw(t, "each")
			for _, o := range c.Ops {
				if o.W != "" {
					words = append(words, string(o.W))
				}
				words = append(words, rowWords(o.R)...)
			}
		}
		c.Text = genHuge(t, genText(t, a, words, 14), words)
		if !tiny {
			c.Rows, c.Text = genColossal(t, a, c.Rows, c.Text)
		}
		return c
	}, func(c caseC02, r *Rec) error {
		cur := c.O
		seg := newSeg(cur)
		m := newModel()
		switch c.Via {
		case 1:
			if err := seg.LoadDictMap(rowMaps(c.Rows)); err != nil {
				return err
			}
			for _, row := range c.Rows {
				if f, ok := mapFreq(row); ok {
					m.add(string(row.W), f, string(row.P), cur)
				}
			}
			r.Label("loaded as maps")
		default:
			for _, row := range c.Rows {
				if c.Via == 2 {
					seg.AddTokenForce(string(row.W), row.F, posArgs(string(row.W), string(row.P))...)
				} else {
					seg.AddToken(string(row.W), row.F, posArgs(string(row.W), string(row.P))...)
				}
				m.add(string(row.W), row.F, string(row.P), cur)
			}
			switch c.Via {
			case 0:
				seg.CalcToken()
			case 3:
				// a word that is there already: nothing is added, but the weights are in order afterwards
				row := c.Rows[len(c.Text)%len(c.Rows)]
				seg.AddTokenForce(string(row.W), row.F+1, posArgs(string(row.W), string(row.P))...)
				m.add(string(row.W), row.F+1, string(row.P), cur)
				r.Label("weights by a forced word that was there")
			}
		}
		for i, op := range c.Ops {
			if c.Each && len(m.W) > 0 {
				seg.CalcToken()
				if err := checkShortest(seg, m, cur, string(c.Text), r); err != nil {
					return fmt.Errorf("before operation %d (%s): %v", i, op.K, err)
				}
			}
			if err := applyDOp(seg, m, op, &cur); err != nil {
				return err
			}
		}
		if len(c.Ops) > 0 {
			r.Label("history")
			seg.CalcToken()
		}
		return checkShortest(seg, m, cur, string(c.Text), r)
	})

	type caseC03 struct {
		O Opts
		T Raw
	}
	reg(Prop{
		ID:    "C03",
		Rule:  "random text over all character classes and random options; non-trivial: at least two atoms",
		Quick: 600000, Thorough: 12000000,
	}, func(t *rapid.T) caseC03 {
		c := caseC03{O: genOpts(t)}
		if chance(t, "unicode", 20) {
			c.T = Raw(rapid.String().Draw(t, "s"))
		} else {
			a := genAlphabet(t, true)
			c.T = genHuge(t, genText(t, a, nil, 30), nil)
		}
		return c
	}, func(c caseC03, r *Rec) error {
		seg := &gse.Segmenter{}
		c.O.apply(seg)
		in := []byte(c.T)
		got := seg.SplitTextToWords(in)
		if string(in) != string(c.T) {
			return fmt.Errorf("the split changed its input to %q", in)
		}
		want := refAtoms(string(c.T), c.O)
		if len(got) != len(want) {
			return fmt.Errorf("%q splits into %q, want %q", string(c.T), got, want)
		}
		for i := range got {
			if string(got[i]) != want[i] {
				return fmt.Errorf("%q splits into %q, want %q", string(c.T), got, want)
			}
		}
		if (c.O == Opts{NoLower: c.O.NoLower}) {
			g2 := gse.SplitWords(gse.Text(c.T))
			if len(g2) != len(want) {
				return fmt.Errorf("SplitWords gives %q, want %q", g2, want)
			}
			for i := range g2 {
				if string(g2[i]) != want[i] {
					return fmt.Errorf("SplitWords gives %q, want %q", g2, want)
				}
			}
		}
		r.HitIf(len(got) > 1, "split")
		r.LabelIf(c.O.AlphaNum, "alphanum")
		r.LabelIf(c.O.Alpha || c.O.Num, "alpha or num")
		return nil
	})
}
