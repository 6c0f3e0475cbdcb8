package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/go-ego/gse"
	"pgregory.net/rapid"
)

// KOp is one operation on the dictionary as a map.
type KOp struct {
	K string  // add force readd remove dadd dremove calc bulk bulkremove removeall
	W Raw     `json:",omitempty"`
	F float64 `json:",omitempty"`
	P Raw     `json:",omitempty"`
	N int     `json:",omitempty"` // bulk: how many words
	U []Raw   `json:",omitempty"` // bulk: the units the words are numbered with
}

// bulkWords numbers words in the base of the units.
func bulkWords(base string, units []Raw, n int) []string {
	out := make([]string, 0, n)
	for i := 0; i < n; i++ {
		w := base
		for x := i + 1; x > 0; x /= len(units) {
			w += string(units[x%len(units)])
		}
		out = append(out, w)
	}
	return out
}

type caseC10 struct {
	O     Opts
	Ops   []KOp
	Probe []Raw // further strings to look up
}

func genKOps(t *rapid.T, a alphabet, n int) (ops []KOp, words []string) {
	wild := chance(t, "wild", 8)
	freq := func() float64 {
		if wild && chance(t, "wildF", 30) {
			return rapid.SampledFrom([]float64{0, -3, 1, 0.001, 1e300, 1e-300, 5e-324, -1e-9}).Draw(t, "f")
		}
		return genFreq(t)
	}
	for i := 0; i < n; i++ {
		known := func() Raw {
			if len(words) > 0 && !chance(t, "fresh", 15) {
				return Raw(rapid.SampledFrom(words).Draw(t, "known"))
			}
			w := genWord(t, a, words)
			if chance(t, "nul", 2) {
				w += "\x00" + w
			}
			return Raw(w)
		}
		var o KOp
		switch pick(t, "op", 35, 5, 14, 30, 5, 3, 3, 3, 2, 3) {
		case 0:
			w := genWord(t, a, words)
			if chance(t, "empty", 1) {
				w = ""
			}
			o = KOp{K: "add", W: Raw(w), F: freq(), P: genPos(t)}
		case 1:
			o = KOp{K: "force", W: known(), F: freq(), P: genPos(t)}
		case 2:
			o = KOp{K: "readd", W: known(), F: freq(), P: genPos(t)}
		case 3:
			o = KOp{K: "remove", W: known()}
		case 4:
			o = KOp{K: "dadd", W: known(), F: freq(), P: genPos(t)}
		case 5:
			o = KOp{K: "dremove", W: known()}
		case 6:
			o = KOp{K: "calc"}
		case 7, 8:
			o = KOp{K: "bulk", F: freq(), N: rapid.IntRange(2, 300).Draw(t, "n")}
			if thorough {
				o.N = rapid.IntRange(2, 3000).Draw(t, "n2")
			}
			if chance(t, "bulkbase", 50) {
				o.W = known()
			}
			k := rapid.IntRange(2, 10).Draw(t, "k")
			for j := 0; j < k; j++ {
				if chance(t, "anyrune", 40) {
					o.U = append(o.U, Raw(string(rapid.Rune().Filter(func(r rune) bool { return r > 0 }).Draw(t, "r"))))
				} else {
					o.U = append(o.U, Raw(rapid.SampledFrom(a.units).Draw(t, "u")))
				}
			}
			if chance(t, "bulkremove", 40) {
				ops = append(ops, o)
				o.K = "bulkremove"
				o.N = rapid.IntRange(1, o.N).Draw(t, "m")
			}
		case 9:
			o = KOp{K: "removeall"}
		}
		ops = append(ops, o)
		if o.W != "" {
			words = append(words, string(o.W))
		}
	}
	return
}

// checkMap compares every lookup with the model.
func checkMap(seg *gse.Segmenter, m *Model, o Opts, probes []string, prefixes map[string]bool) error {
	dict := seg.Dictionary()
	for _, w := range probes {
		f, p, ok := seg.Find(w)
		e, is := m.W[w]
		switch {
		case is:
			if !ok || f != e.F || p != e.P {
				return fmt.Errorf("Find(%q) gives %v %q %v, the dictionary has %v %q", w, f, p, ok, e.F, e.P)
			}
		case prefixes[w]:
			if !ok || f != 0 || p != "" {
				return fmt.Errorf("Find(%q) of a prefix gives %v %q %v", w, f, p, ok)
			}
		default:
			if ok || f != 0 {
				return fmt.Errorf("Find(%q) of an unknown string gives %v %q %v", w, f, p, ok)
			}
		}
		v, _, err := seg.Value(w)
		if (err == nil) != is {
			return fmt.Errorf("Value(%q) gives error %v; the word is there: %v", w, err, is)
		}
		if is {
			if v < 0 || v >= len(dict.Tokens) || !dict.Tokens[v].Equals(w) || dict.Tokens[v].Text() != w {
				return fmt.Errorf("Value(%q) gives %d, which is not that word's token", w, v)
			}
			if dict.Tokens[v].Freq() != e.F || dict.Tokens[v].Pos() != e.P {
				return fmt.Errorf("the token of %q has %v %q, want %v %q", w, dict.Tokens[v].Freq(), dict.Tokens[v].Pos(), e.F, e.P)
			}
			if dict.Tokens[v].Equals(w+"a") || w != "" && (dict.Tokens[v].Equals("") || dict.Tokens[v].Equals(w[1:])) {
				return fmt.Errorf("the token of %q equals another string", w)
			}
			if e.Atoms > dict.MaxTokenLen() {
				return fmt.Errorf("%q has %d atoms, the maximum token length is %d", w, e.Atoms, dict.MaxTokenLen())
			}
		}
	}
	return nil
}

func (m *Model) prefixSet() map[string]bool {
	s := map[string]bool{}
	for k := range m.W {
		for i := 1; i < len(k); i++ {
			s[k[:i]] = true
		}
	}
	return s
}

type caseC21 struct {
	Cut   caseCut
	Words []Raw
	Parts []Raw
}

func init() {
	reg(Prop{
		ID:    "C10",
		Rule:  "a random history of adding, removing and re-adding words one at a time and by hundreds, every lookup compared with a map after each step; non-trivial: a word was removed or re-added while words extending it or prefixes of it were there, or it came back after its removal",
		Quick: 100000, Thorough: 5100000,
	}, func(t *rapid.T) caseC10 {
		a := genAlphabet(t, true)
		c := caseC10{O: genOpts(t)}
		n := rapid.IntRange(1, 25).Draw(t, "n")
		var words []string
		c.Ops, words = genKOps(t, a, n)
		for i := 0; i < 4; i++ {
			c.Probe = append(c.Probe, genText(t, a, words, 3))
		}
		if big, _ := genColossal(t, a, nil, ""); len(big) > 0 {
			i := even(t, "when", len(c.Ops)+1)
			for _, w := range big {
				x := KOp{K: rapid.SampledFrom([]string{"add", "force", "dadd"}).Draw(t, "bigHow"), W: w.W, F: w.F, P: w.P}
				c.Ops = append(c.Ops[:i:i], append([]KOp{x}, c.Ops[i:]...)...)
			}
		}
		return c
	}, func(c caseC10, r *Rec) error {
		o := c.O
		seg := newSeg(o)
		m := newModel()
		seen := map[string]bool{"": true}
		see := func(w string) {
			for i := 0; i <= len(w); i++ {
				seen[w[:i]] = true
			}
			seen[w+"a"] = true
			seen[w+"界"] = true
			if strings.IndexByte(w, 0) >= 0 {
				seen[w] = true
			}
		}
		for _, p := range c.Probe {
			see(string(p))
		}
		removedOnce := map[string]bool{}
		removals := 0
		total := 0.0
		full := func() error {
			probes := make([]string, 0, len(seen))
			for w := range seen {
				probes = append(probes, w)
			}
			return checkMap(seg, m, o, probes, m.prefixSet())
		}
		add := func(w string, f float64, p string, how string) error {
			k := normText(w, o)
			_, was := m.W[k]
			var err error
			switch how {
			case "add":
				err = seg.AddToken(w, f, posArgs(w, p)...)
			case "force":
				err = seg.AddTokenForce(w, f, posArgs(w, p)...)
			case "dadd":
				err = seg.Dictionary().AddToken(seg.ToToken(w, f, posArgs(w, p)...))
			}
			bad := k == "" || strings.IndexByte(k, 0) >= 0
			if bad {
				// no word: it must not get in, with or without an error
				return nil
			}
			if err != nil {
				return fmt.Errorf("adding %q: %v", w, err)
			}
			m.add(w, f, p, o)
			if !was {
				total += f
				if removedOnce[k] {
					r.Hit("back again")
				}
			}
			see(k)
			return nil
		}
		remove := func(w string, f float64, p string, how string) error {
			k := normText(w, o)
			_, was := m.W[k]
			var err error
			switch how {
			case "remove":
				err = seg.RemoveToken(w)
			case "dremove":
				err = seg.Dictionary().RemoveToken(seg.ToToken(w, 3))
			case "readd":
				err = seg.ReAddToken(w, f, posArgs(w, p)...)
			}
			if (err == nil) != was {
				return fmt.Errorf("%s %q gives error %v; the word was there: %v", how, w, err, was)
			}
			if was {
				removals++
				removedOnce[k] = true
				if how == "readd" {
					delete(m.W, k)
					m.add(w, f, p, o)
				}
			} else {
				r.Label("removal of no word")
			}
			delete2 := how != "readd"
			if delete2 {
				delete(m.W, k)
			}
			if k != "" {
				see(k)
			}
			return nil
		}
		for i, op := range c.Ops {
			w := string(op.W)
			k := normText(w, o)
			if op.K == "remove" || op.K == "readd" || op.K == "dremove" {
				if _, was := m.W[k]; was && len(m.W) < 2000 {
					for x := range m.W {
						if x != k && (strings.HasPrefix(x, k) || strings.HasPrefix(k, x)) {
							r.Hit("related words")
							break
						}
					}
				}
			}
			var err error
			switch op.K {
			case "add", "force", "dadd":
				err = add(w, op.F, string(op.P), op.K)
			case "remove", "dremove", "readd":
				err = remove(w, op.F, string(op.P), op.K)
			case "calc":
				seg.CalcToken()
			case "bulk":
				r.Label("bulk")
				for _, x := range bulkWords(w, op.U, op.N) {
					if err = add(x, op.F, "b", "add"); err != nil {
						break
					}
				}
			case "bulkremove":
				r.Label("bulk removal")
				for _, x := range bulkWords(w, op.U, op.N) {
					if err = remove(x, 0, "", "remove"); err != nil {
						break
					}
				}
			case "removeall":
				r.LabelIf(len(m.W) > 0, "all removed")
				for _, x := range m.keys() {
					// a word is removed by its own text, which splits into the same atoms
					if normText(x, o) != x {
						continue
					}
					if err = remove(x, 0, "", "remove"); err != nil {
						break
					}
				}
			default:
				hErr("unknown op %q", op.K)
			}
			if err == nil && (len(seen) < 400 || i == len(c.Ops)-1) {
				err = full()
			}
			if err != nil {
				return fmt.Errorf("after operation %d (%s %q): %v", i, op.K, w, err)
			}
			if removals == 0 {
				d := seg.Dictionary()
				if d.NumTokens() != len(m.W) {
					return fmt.Errorf("after operation %d: %d tokens for %d words", i, d.NumTokens(), len(m.W))
				}
				if !close64(d.TotalFreq(), total) {
					return fmt.Errorf("after operation %d: total frequency %v, the words have %v", i, d.TotalFreq(), total)
				}
			}
		}
		return nil
	})

	reg(Prop{
		ID:    "C21",
		Rule:  "random dictionary and history, a string without ASCII letters and digits to keep whole, and parts to split; non-trivial: without the suggestion the string is cut into several pieces",
		Quick: 400000, Thorough: 12000000,
	}, func(t *rapid.T) caseC21 {
		a := genAlphabet(t, false)
		c := caseC21{Cut: caseCut{O: genOpts(t), Rows: genRows(t, a, 0, 12)}}
		if chance(t, "low", 10) {
			// also below 1, alone or all of them
			n := 1 + even(t, "every", 3)
			for i := range c.Cut.Rows {
				if i%n == 0 {
					c.Cut.Rows[i].F /= 1000
				}
			}
		}
		if chance(t, "history", 30) {
			c.Cut.Ops = genDOps(t, a, rowWords(c.Cut.Rows), 5, false)
		}
		words := c.Cut.words()
		n := rapid.IntRange(1, 3).Draw(t, "n")
		for i := 0; i < n; i++ {
			var w string
			if len(words) > 0 && chance(t, "compound", 60) {
				w = rapid.SampledFrom(words).Draw(t, "w1") + rapid.SampledFrom(words).Draw(t, "w2")
			} else {
				w = genWord(t, a, words)
			}
			c.Words = append(c.Words, Raw(w))
		}
		k := rapid.IntRange(2, 4).Draw(t, "parts")
		for i := 0; i < k; i++ {
			if len(words) > 0 && chance(t, "known", 75) {
				c.Parts = append(c.Parts, Raw(rapid.SampledFrom(words).Draw(t, "p")))
			} else {
				c.Parts = append(c.Parts, Raw(genWord(t, a, words)))
			}
		}
		return c
	}, func(c caseC21, r *Rec) error {
		seg, m, cur, err := c.Cut.build(r)
		if err != nil {
			return err
		}
		total := seg.Dictionary().TotalFreq()
		r.LabelIf(total == 0, "empty dictionary")
		// the suggestion to split
		joined := ""
		if total == 0 {
			total = 1
		}
		product := total
		var parts []string
		for _, p := range c.Parts {
			joined += string(p)
			parts = append(parts, string(p))
			f := m.W[string(p)].F
			if f == 0 {
				f = 1
			}
			product *= f / total
		}
		{
			got := seg.SuggestFreq(parts...)
			have := m.W[joined].F
			if got > have || got < 0 || got != got {
				return fmt.Errorf("SuggestFreq(%q) gives %v, the joined word has %v", parts, got, have)
			}
			lo, hi := min(have, math.Floor(product*(1-1e-9))), min(have, math.Floor(product*(1+1e-9)))
			if got < lo || got > hi {
				return fmt.Errorf("SuggestFreq(%q) gives %v, the parts give %v, the joined word has %v", parts, got, product, have)
			}
			r.LabelIf(0 < got && got < have, "split by a lower frequency")
			r.LabelIf(have > 0, "joined word known")
		}
		for _, raw := range c.Words {
			w := string(raw)
			if f, have := seg.SuggestFreq(w), m.W[w].F; !(f >= 1) || f < have {
				return fmt.Errorf("SuggestFreq(%q) gives %v, the word has %v", w, f, have)
			}
			usable := true
			n := 0
			for _, x := range w {
				n++
				// the string must be a key of the dictionary as it stands
				if asciiAlnum(x) || x == '\ufffd' {
					usable = false
				}
			}
			if n < 2 || !usable || cutNorm(w, !cur.NoLower) != w || normText(w, cur) != w {
				continue
			}
			before := seg.Cut(w, false)
			f := seg.SuggestFreq(w)
			have := m.W[w].F
			if have > 0 {
				err = seg.ReAddToken(w, f, "n")
			} else {
				err = seg.AddToken(w, f, "n")
			}
			if err != nil {
				return fmt.Errorf("adding %q: %v", w, err)
			}
			delete(m.W, w)
			m.add(w, f, "n", cur)
			if got := seg.Cut(w, false); len(got) != 1 || got[0] != w {
				return fmt.Errorf("%q added with the suggested frequency %v is cut into %q (before: %q)", w, f, got, before)
			}
			r.HitIf(len(before) > 1, "was cut")
			r.LabelIf(have > 0, "was a word")
		}
		return nil
	})
}
