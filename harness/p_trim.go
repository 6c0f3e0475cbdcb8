package main

import (
	"fmt"
	"regexp"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm/pos"
	"github.com/go-ego/gse/hmm/util"
	"pgregory.net/rapid"
)

func isJunk(r rune) bool   { return unicode.IsSymbol(r) || unicode.IsSpace(r) || unicode.IsPunct(r) }
func isBlankP(r rune) bool { return unicode.IsSpace(r) || unicode.IsPunct(r) }

// keepRunes is the text without the characters that do not pass.
func keepRunes(s string, keep func(r rune) bool) string {
	var sb strings.Builder
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		if keep(r) {
			sb.WriteRune(r)
		}
		s = s[n:]
	}
	return sb.String()
}

func refSymbol(s string) string { return keepRunes(s, func(r rune) bool { return !isJunk(r) }) }

type htmlPiece struct {
	T   Raw
	Tag bool `json:",omitempty"`
}

type caseC14 struct {
	Text    Raw
	Lang    string
	Html    []htmlPiece
	Items   []Raw
	Tags    []Raw // part of speech of each item
	Stop    []Raw
	NotStop bool  `json:",omitempty"`
	Drop    []Raw // parts of speech to drop
}

func filterPos(se []gse.SegPos, keep func(s gse.SegPos) bool) (out []gse.SegPos) {
	for _, s := range se {
		if keep(s) {
			out = append(out, s)
		}
	}
	return
}

func eqPos(a, b []gse.SegPos) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var langs = []string{"Han", "Latin", "Hiragana", "Common", "Cyrillic", "Inherited", "", "han", "Klingon", "Greek", "L", "Lu", "Nd", "P", "So", "Zs", "White_Space", "Any", "Arabic"}

func genHTML(t *rapid.T, a alphabet) []htmlPiece {
	n := rapid.IntRange(0, 6).Draw(t, "html")
	var out []htmlPiece
	free := strings.NewReplacer("<", "", ">", "")
	for i := 0; i < n; i++ {
		if chance(t, "tag", 60) {
			name := rapid.SampledFrom([]string{"p", "br", "a", "div", "h1", "x-y", "i"}).Draw(t, "name")
			tag := ""
			switch pick(t, "kind", 25, 20, 15, 20, 10, 10) {
			case 0:
				tag = "<" + name + ">"
			case 1:
				tag = "</" + name + ">"
			case 2:
				tag = rapid.SampledFrom([]string{"<br/>", "<br />", "<img src=\"x\"/>", "<hr\n/>", "<p\tid=1/>"}).Draw(t, "self")
			default:
				tag = "<" + name
				k := rapid.IntRange(1, 3).Draw(t, "attrs")
				for j := 0; j < k; j++ {
					v := free.Replace(string(genText(t, a, nil, 3)))
					v = strings.NewReplacer("\"", "", "'", "").Replace(v)
					switch pick(t, "quote", 40, 40, 20) {
					case 0:
						tag += " href=\"" + v + "\""
					case 1:
						tag += " class='" + v + "'"
					case 2:
						tag += " id=a1"
					}
				}
				tag += ">"
			}
			out = append(out, htmlPiece{Raw(tag), true})
		} else {
			s := free.Replace(string(genText(t, a, nil, 4)))
			if chance(t, "entity", 15) {
				// text to this filter, which removes tags and nothing else
				s += rapid.SampledFrom([]string{"&nbsp;", "&lt;", "&amp;", "&#60;", "&gt;b", "&"}).Draw(t, "entityOf")
			}
			out = append(out, htmlPiece{Raw(s), false})
		}
	}
	return out
}

func genItems(t *rapid.T, a alphabet, max int) []Raw {
	n := rapid.IntRange(0, max).Draw(t, "items")
	var out []Raw
	for i := 0; i < n; i++ {
		switch pick(t, "item", 50, 15, 15, 5, 15) {
		case 0:
			out = append(out, genText(t, a, nil, 3))
		case 1:
			out = append(out, Raw(rapid.SampledFrom(cat(uPunct, uSymbol, uSpace)).Draw(t, "junk")+rapid.SampledFrom(cat(a.units, uPunct)).Draw(t, "u")))
		case 2:
			out = append(out, Raw(rapid.SampledFrom(cat(uPunct, uSymbol, uSpace)).Draw(t, "junk")))
		case 3:
			out = append(out, "")
		case 4:
			if len(out) > 0 {
				out = append(out, rapid.SampledFrom(out).Draw(t, "again"))
			} else {
				out = append(out, Raw(rapid.SampledFrom(a.units).Draw(t, "u")))
			}
		}
	}
	return out
}

type caseC15 struct {
	Cut              caseCut
	Stop             []Raw
	NotStop, SkipPos bool
	Mode             int // 0: no argument, 1: false, 2: true
	Search           bool
	Drop             []Raw
	Sep              Raw
	List             []Raw `json:",omitempty"` // for CutStr and PosStr, with
	Tags             []Raw `json:",omitempty"`
}

type caseC16 struct {
	Cut    caseCut
	Find   []Raw
	From   int // where the pieces come from
	ByChar bool
}

type caseC27 struct {
	Re string
	S  Raw
	N  int
}

var splitPool = []string{
	`a`, `a+`, `a*`, `,`, `\s+`, `世`, `世|界`, `[世界]+`, `.`, `(a)`, `(a+)`, `(a*)`, `(\p{Han}+)`, `(a|b)(c)?`, `(\r\n|\s)`, ``, `()`, `\b`, `(\b)`,
	`$`, `^`, `(^)`, `($)`, `(?:a|b)`, `(?:世界)+`, `[^a]`, `([[:alnum:]]+)`, `x`, `(x)`, `(?P<n>a)b?`, `\d*`, `(\d*)`, `a?`, `界$`, `(界)$`,
}

func init() {
	reg(Prop{
		ID:    "C14",
		Rule:  "random texts, tag soups and lists of items (blanks, punctuation, symbols, empty and invalid items), stop words and parts of speech; non-trivial: some filter keeps a part of its list and drops another",
		Quick: 300000, Thorough: 12000000,
		Assume: []string{"tags end in an ASCII letter or digit, a quote or a slash, and have no angle brackets inside"},
	}, func(t *rapid.T) caseC14 {
		a := genAlphabet(t, true)
		a.extra = cat(a.extra, uPunct, uSymbol[:3], uSpace, uWide[:1], uKana[:2], []string{"\ufe0f", "\u200d", "\u20e3", "\u0663"})
		c := caseC14{Text: genHuge(t, genText(t, a, nil, 12), nil), Lang: rapid.SampledFrom(langs).Draw(t, "lang")}
		if chance(t, "range", 2) {
			// a range of characters one after the other
			lo := even(t, "from", 0x33500)
			if chance(t, "low", 30) {
				lo = even(t, "lowFrom", 0x3100)
			}
			var sb strings.Builder
			for r := lo; r < lo+300; r++ {
				sb.WriteRune(rune(r))
			}
			c.Text = Raw(sb.String())
		}
		c.Html = genHTML(t, a)
		c.Items = genItems(t, a, 8)
		for range c.Items {
			c.Tags = append(c.Tags, genPos(t))
		}
		if len(c.Items) > 0 {
			n := rapid.IntRange(0, 2).Draw(t, "stops")
			for i := 0; i < n; i++ {
				w := string(rapid.SampledFrom(c.Items).Draw(t, "stop"))
				if rapid.Bool().Draw(t, "bare") {
					w = refSymbol(w)
				}
				c.Stop = append(c.Stop, Raw(w))
			}
		}
		c.NotStop = chance(t, "notstop", 25)
		n := rapid.IntRange(0, 3).Draw(t, "drops")
		for i := 0; i < n; i++ {
			c.Drop = append(c.Drop, genPos(t))
		}
		return c
	}, func(c caseC14, r *Rec) error {
		text := string(c.Text)
		if got, want := gse.FilterSymbol(text), refSymbol(text); got != want {
			return fmt.Errorf("FilterSymbol(%q) gives %q, want %q", text, got, want)
		}
		if got, want := gse.FilterEmoji(text), keepRunes(text, func(r rune) bool { return utf8.RuneLen(r) <= 3 }); got != want {
			return fmt.Errorf("FilterEmoji(%q) gives %q, want %q", text, got, want)
		}
		tab := unicode.Scripts[c.Lang]
		if got, want := gse.FilterLang(text, c.Lang), keepRunes(text, func(r rune) bool { return unicode.IsLetter(r) || (tab != nil && unicode.Is(tab, r)) }); got != want {
			return fmt.Errorf("FilterLang(%q, %q) gives %q, want %q", text, c.Lang, got, want)
		}
		html, bare := "", ""
		for _, p := range c.Html {
			html += string(p.T)
			if !p.Tag {
				bare += string(p.T)
			} else {
				r.Label("tag")
			}
		}
		// (joining two invalid pieces may make a valid character: the filter works on the bytes, so this is exact)
		if got := gse.FilterHtml(html); got != bare {
			return fmt.Errorf("FilterHtml(%q) gives %q, want %q", html, got, bare)
		}
		seg := &gse.Segmenter{NotStop: c.NotStop}
		stop := map[string]bool{}
		for _, w := range c.Stop {
			seg.AddStop(string(w))
			stop[string(w)] = true
		}
		var items []string
		var se []gse.SegPos
		for i, w := range c.Items {
			items = append(items, string(w))
			se = append(se, gse.SegPos{Text: string(w), Pos: string(c.Tags[i])})
		}
		items0, se0 := append([]string(nil), items...), append([]gse.SegPos(nil), se...)
		var wTrim, wSym, wPunct, wStop []string
		for _, w := range items {
			f := refSymbol(w)
			if f != "" {
				wSym = append(wSym, f)
				if c.NotStop || !stop[f] {
					wTrim = append(wTrim, f)
				}
			}
			if w != "" && !stop[w] {
				wStop = append(wStop, w)
			}
			if keepRunes(w, func(r rune) bool { return !isBlankP(r) }) != "" {
				wPunct = append(wPunct, w)
			}
		}
		for _, x := range []struct {
			name      string
			got, want []string
		}{
			{"Trim", seg.Trim(items), wTrim}, {"TrimSymbol", seg.TrimSymbol(items), wSym},
			{"TrimPunct", seg.TrimPunct(items), wPunct}, {"Stop", seg.Stop(items), wStop},
		} {
			if !eqStrings(x.got, x.want) {
				return fmt.Errorf("%s(%q) gives %q, want %q (stop words %q)", x.name, items0, x.got, x.want, c.Stop)
			}
			r.HitIf(len(x.want) > 0 && len(x.want) < len(items), "kept a part")
		}
		begins := func(s gse.SegPos) bool {
			x, n := utf8.DecodeRuneInString(s.Text)
			return n > 0 && !isBlankP(x)
		}
		notStop := func(w string) bool { return c.NotStop || !stop[w] }
		drop := map[string]bool{}
		var drops []string
		for _, p := range c.Drop {
			drop[string(p)] = true
			drops = append(drops, string(p))
		}
		var ps pos.Segmenter
		ps.WithGse(*seg)
		wTP := filterPos(se, func(s gse.SegPos) bool { f := refSymbol(s.Text); return f != "" && notStop(f) })
		wWP := filterPos(se, func(s gse.SegPos) bool { return !drop[s.Pos] })
		for _, x := range []struct {
			name      string
			got, want []gse.SegPos
		}{
			{"TrimPos", seg.TrimPos(se), wTP},
			{"pos Trim", ps.Trim(se), wTP},
			{"TrimPosPunct", seg.TrimPosPunct(se), filterPos(se, func(s gse.SegPos) bool { return begins(s) && notStop(s.Text) })},
			{"pos TrimPunct", ps.TrimPunct(se), filterPos(se, begins)},
			{"TrimWithPos", seg.TrimWithPos(se, drops...), wWP},
			{"pos TrimWithPos", ps.TrimWithPos(se, drops...), wWP},
		} {
			if !eqPos(x.got, x.want) {
				return fmt.Errorf("%s(%q) gives %q, want %q (stop words %q, parts of speech %q)", x.name, se0, x.got, x.want, c.Stop, drops)
			}
			r.HitIf(len(x.want) > 0 && len(x.want) < len(se), "kept a part")
			// what is done with the result must not reach the argument
			for i := range x.got {
				x.got[i].Text = "\x01"
			}
			if !eqPos(se, se0) {
				return fmt.Errorf("%s shares its result with its argument", x.name)
			}
			for i := range drops {
				if drops[i] != string(c.Drop[i]) {
					return fmt.Errorf("%s changes the list of parts of speech %q to %q", x.name, c.Drop, drops)
				}
			}
		}
		if !eqStrings(items, items0) || !eqPos(se, se0) {
			return fmt.Errorf("a trim function changed its argument to %q, %q", items, se)
		}
		return nil
	})

	reg(Prop{
		ID:    "C15",
		Rule:  "random dictionary, stop words, modes, separators and text with tags, numbers and punctuation; non-trivial: at least two pieces, and the trim drops one",
		Quick: 120000, Thorough: 6300000,
		Assume: []string{"the parts (Cut, Trim, …) are the subject of the other properties"},
	}, func(t *rapid.T) caseC15 {
		a := genAlphabet(t, true)
		a.limit = 2000
		a.extra = cat(a.extra, uPunct, uDigit, uSymbol[:2], uSpace[:2], []string{"<b>", "</b>", "https://"})
		c := caseC15{Cut: caseCut{O: genOpts(t), Rows: genRows(t, a, 0, 8)}}
		words := rowWords(c.Cut.Rows)
		c.Cut.Text = genText(t, a, words, 12)
		if permille(t, "manyWords", 1) {
			if x := repeatWords(t, words); x != "" {
				c.Cut.Text = clip(x, 9000)
			}
		}
		n := rapid.IntRange(0, 3).Draw(t, "stops")
		for i := 0; i < n; i++ {
			c.Stop = append(c.Stop, Raw(genWord(t, a, words)))
		}
		c.NotStop = chance(t, "notstop", 25)
		c.SkipPos = chance(t, "skippos", 30)
		c.Mode = rapid.IntRange(0, 2).Draw(t, "mode")
		c.Search = rapid.Bool().Draw(t, "search")
		k := pick(t, "drops", 30, 30, 20, 10, 10)
		for i := 0; i < k; i++ {
			c.Drop = append(c.Drop, genPos(t))
		}
		c.Sep = Raw(rapid.SampledFrom([]string{" ", "", ", ", "|", "世"}).Draw(t, "sep"))
		c.List = genItems(t, a, 6)
		for range c.List {
			p := genPos(t)
			if chance(t, "oddTag", 10) {
				p = Raw(rapid.SampledFrom([]string{" ", " n", "n ", "a/b", "/", "N", "，", "\n", "\xff"}).Draw(t, "tag"))
			}
			c.Tags = append(c.Tags, p)
		}
		return c
	}, func(c caseC15, r *Rec) error {
		seg, _, _, err := c.Cut.build(r)
		if err != nil {
			return err
		}
		for _, w := range c.Stop {
			seg.AddStop(string(w))
		}
		seg.NotStop, seg.SkipPos = c.NotStop, c.SkipPos
		text := string(c.Cut.Text)
		var mode []bool
		if c.Mode > 0 {
			mode = []bool{c.Mode == 2}
		}
		var drops []string
		for _, p := range c.Drop {
			drops = append(drops, string(p))
		}
		join := func(l []string, sep string) string { return strings.Join(l, sep) }
		cut := seg.Cut(text, mode...)
		strs := func(name string, got, want []string) error {
			if !eqStrings(got, want) {
				return fmt.Errorf("%s(%q) gives %q, want %q", name, text, got, want)
			}
			return nil
		}
		str := func(name string, got, want string) error {
			if got != want {
				return fmt.Errorf("%s(%q) gives %q, want %q", name, text, got, want)
			}
			return nil
		}
		trimmed := seg.Trim(cut)
		r.HitIf(len(cut) > 1 && len(trimmed) < len(cut) && len(trimmed) > 0, "trimmed")
		noHTML := gse.FilterHtml(text)
		htmlCut := seg.TrimSymbol(seg.Cut(noHTML, mode...))
		// the text with a blank between numbers and the rest
		var runs []string
		last := -1
		for _, x := range text {
			d := b2i(x >= '0' && x <= '9')
			if d != last {
				runs = append(runs, "")
				last = d
			}
			runs[len(runs)-1] += string(x)
		}
		split := join(runs, " ")
		if text == strings.ToValidUTF8(text, "") {
			if err := strs("SplitNum", gse.SplitNum(text), runs); err != nil {
				return err
			}
			if err := str("SplitNums", gse.SplitNums(text), split); err != nil {
				return err
			}
		}
		if got := join(gse.SplitNum(text), ""); got != text {
			return fmt.Errorf("SplitNum(%q) loses text: %q", text, got)
		}
		url := seg.TrimSymbol(seg.Cut(gse.SplitNums(text)))
		urlNum := seg.TrimSymbol(seg.Cut(text))
		var chars []string
		spaced := ""
		for _, x := range text {
			chars = append(chars, string(x))
			spaced += string(x) + " "
		}
		p := seg.TrimPos(seg.TrimWithPos(seg.Pos(text, c.Search), drops...))
		var pt []string
		for _, x := range p {
			pt = append(pt, x.Text)
		}
		full := seg.Pos(text, c.Search)
		var ptexts, pstrs []string
		for _, x := range full {
			ptexts = append(ptexts, x.Text)
			if c.SkipPos {
				pstrs = append(pstrs, x.Text)
			} else {
				pstrs = append(pstrs, x.Text+"/"+x.Pos)
			}
		}
		var list, pairs []string
		var both []gse.SegPos
		for i, x := range c.List {
			list = append(list, string(x))
			both = append(both, gse.SegPos{Text: string(x), Pos: string(c.Tags[i])})
			if c.SkipPos {
				pairs = append(pairs, string(x))
			} else {
				pairs = append(pairs, string(x)+"/"+string(c.Tags[i]))
			}
		}
		for _, e := range []error{
			str(fmt.Sprintf("CutStr(%q): ", list), seg.CutStr(list), join(list, " ")),
			str(fmt.Sprintf("CutStr(%q, %q): ", list, c.Sep), seg.CutStr(list, string(c.Sep)), join(list, string(c.Sep))),
			str(fmt.Sprintf("PosStr(%q): ", both), seg.PosStr(both), join(pairs, " ")),
			str(fmt.Sprintf("PosStr(%q, %q): ", both, c.Sep), seg.PosStr(both, string(c.Sep)), join(pairs, string(c.Sep))),
			strs("CutStop", seg.CutStop(text, mode...), seg.Stop(cut)),
			strs("CutTrim", seg.CutTrim(text, mode...), trimmed),
			strs("CutTrimHtml", seg.CutTrimHtml(text, mode...), htmlCut),
			str("CutTrimHtmls", seg.CutTrimHtmls(text, mode...), join(htmlCut, " ")),
			strs("CutUrl", seg.CutUrl(text), url),
			strs("CutUrl with num", seg.CutUrl(text, true), urlNum),
			str("CutUrls", seg.CutUrls(text), join(url, " ")),
			str("CutUrls with num", seg.CutUrls(text, c.Search), join(urlNum, " ")),
			strs("Range", gse.Range(text), chars),
			str("RangeText", gse.RangeText(text), spaced),
			strs("PosTrimArr", seg.PosTrimArr(text, c.Search, drops...), pt),
			str("PosTrimStr", seg.PosTrimStr(text, c.Search, drops...), join(pt, " ")),
			str("CutStr", seg.CutStr(cut), join(cut, " ")),
			str("CutStr with separator", seg.CutStr(cut, string(c.Sep)), join(cut, string(c.Sep))),
			str("PosStr", seg.PosStr(full), join(pstrs, " ")),
			str("PosStr with separator", seg.PosStr(full, string(c.Sep)), join(pstrs, string(c.Sep))),
			strs("Slice and Pos", seg.Slice(text, c.Search), ptexts),
		} {
			if e != nil {
				return e
			}
		}
		if got := seg.PosTrim(text, c.Search, drops...); !eqPos(got, p) {
			return fmt.Errorf("PosTrim(%q, %v, %q) gives %q, want %q", text, c.Search, drops, got, p)
		}
		return nil
	})

	// refOccs lists the non-overlapping occurrences from the end.
	refOccs := func(data, s string) (out []int) {
		limit := len(data)
		for i := len(data) - len(s); i >= 0 && s != ""; i-- {
			if i+len(s) <= limit && data[i:i+len(s)] == s {
				out = append(out, i)
				limit = i
			}
		}
		return
	}
	reg(Prop{
		ID:    "C16",
		Rule:  "random dictionary, text with repeated pieces and searched strings; non-trivial: a piece occurs twice among the pieces that are analysed with a text",
		Quick: 200000, Thorough: 11000000,
		Assume: []string{"with a text, Analyze is given pieces that occur in the lower-cased text"},
	}, func(t *rapid.T) caseC16 {
		a := genAlphabet(t, true)
		c := caseC16{Cut: caseCut{O: genOpts(t), Rows: genRows(t, a, 0, 8)}}
		words := rowWords(c.Cut.Rows)
		c.Cut.Text = genHuge(t, genText(t, a, words, 12), words)
		n := rapid.IntRange(0, 4).Draw(t, "finds")
		for i := 0; i < n; i++ {
			var f Raw
			if len(c.Cut.Text) > 0 && rapid.Bool().Draw(t, "part") {
				i := rapid.IntRange(0, len(c.Cut.Text)-1).Draw(t, "from")
				j := rapid.IntRange(i, min(len(c.Cut.Text), i+6)).Draw(t, "to")
				f = c.Cut.Text[i:j]
			} else {
				f = genText(t, a, words, 2)
			}
			c.Find = append(c.Find, f)
			if chance(t, "again", 15) {
				c.Find = append(c.Find, c.Find[even(t, "which", len(c.Find))])
			}
		}
		c.From = rapid.IntRange(0, 3).Draw(t, "from")
		c.ByChar = rapid.Bool().Draw(t, "bychar")
		return c
	}, func(c caseC16, r *Rec) error {
		seg, m, cur, err := c.Cut.build(r)
		if err != nil {
			return err
		}
		text := string(c.Cut.Text)
		var finds []string
		for _, f := range c.Find {
			finds = append(finds, string(f))
		}
		got := gse.FindAllOccs([]byte(text), finds)
		n := 0
		seen := map[string]bool{}
		for _, f := range finds {
			want := refOccs(text, f)
			if len(want) > 0 && !seen[f] {
				n++
			}
			r.LabelIf(seen[f], "searched for twice")
			seen[f] = true
			if fmt.Sprint(got[f]) != fmt.Sprint(want) {
				return fmt.Errorf("FindAllOccs(%q) gives %v for %q, want %v", text, got[f], f, want)
			}
			r.LabelIf(len(want) > 1, "several occurrences")
		}
		if len(got) != n {
			return fmt.Errorf("FindAllOccs(%q, %q) has %d keys, want %d: %v", text, finds, len(got), n, got)
		}
		var pieces []string
		switch c.From {
		case 0:
			pieces = seg.Cut(text)
		case 1:
			pieces = seg.Cut(text, false)
		case 2:
			pieces = seg.Cut(text, true)
		case 3:
			pieces = seg.CutSearch(text, false)
		}
		keep := append([]string(nil), pieces...)
		same := func(name string, az []gse.AnalyzeToken, start []int, end []int) error {
			if len(az) != len(pieces) {
				return fmt.Errorf("%s(%q) gives %d items", name, pieces, len(az))
			}
			for i, x := range az {
				f, p := 0.0, ""
				if e, ok := m.W[pieces[i]]; ok {
					f, p = e.F, e.P
				}
				if x.Position != i || x.Text != pieces[i] || x.Freq != f || x.Pos != p || x.Start != start[i] || x.End != end[i] {
					return fmt.Errorf("%s(%q, %q) gives item %d as %+v, want offsets [%d,%d) and %v %q", name, pieces, text, i, x, start[i], end[i], f, p)
				}
			}
			return nil
		}
		var start, end []int
		at := 0
		for _, p := range pieces {
			start = append(start, at)
			if c.ByChar {
				at += len([]rune(p))
			} else {
				at += len(p)
			}
			end = append(end, at)
		}
		var az []gse.AnalyzeToken
		if c.ByChar {
			az = seg.Analyze(pieces, "", true)
		} else {
			az = seg.Analyze(pieces, "")
		}
		if err := same("Analyze without a text", az, start, end); err != nil {
			return err
		}
		if text != "" {
			low := text
			if !cur.NoLower {
				low = strings.ToLower(text)
			}
			start, end = nil, nil
			used := map[string]int{}
			occs := map[string][]int{}
			fits := true
			for _, p := range pieces {
				occ, ok := occs[p]
				if !ok {
					occ = refOccs(low, p)
					occs[p] = occ
				}
				k := used[p]
				used[p]++
				if len(occ) == 0 {
					fits = false
					break
				}
				if k >= len(occ) {
					// the occurrences overlap
					k = len(occ) - 1
					r.Label("pieces that overlap")
				}
				start = append(start, occ[k])
				end = append(end, occ[k]+len(p))
			}
			r.LabelIf(!fits, "pieces that do not occur")
			if fits {
				if err := same("Analyze", seg.Analyze(pieces, text), start, end); err != nil {
					return err
				}
				r.HitIf(len(used) < len(pieces), "repeated")
			}
		}
		if !eqStrings(pieces, keep) {
			return fmt.Errorf("Analyze changed the pieces to %q", pieces)
		}
		return nil
	})

	reg(Prop{
		ID:    "C27",
		Rule:  "random expression (with and without groups, matching the empty string, anchored), text and limit; non-trivial: the expression matches the text at least once",
		Quick: 600000, Thorough: 12000000,
	}, func(t *rapid.T) caseC27 {
		a := genAlphabet(t, true)
		if rapid.Bool().Draw(t, "simple") {
			a = alphabet{units: []string{"a", "b", "c", "世", "界", " ", ",", "\r\n", "1"}}
		}
		c := caseC27{S: genHuge(t, genText(t, a, nil, 10), nil), N: rapid.IntRange(-2, 6).Draw(t, "n")}
		c.Re = rapid.SampledFrom(splitPool).Draw(t, "re")
		return c
	}, func(c caseC27, r *Rec) error {
		re, err := regexp.Compile(c.Re)
		if err != nil {
			hErr("%v", err)
		}
		s := string(c.S)
		got := util.RegexpSplit(re, s, c.N)
		locs := re.FindAllStringIndex(s, -1)
		r.HitIf(len(locs) > 0 && s != "", "matches")
		groups := re.NumSubexp() > 0
		r.LabelIf(groups, "groups")
		r.LabelIf(c.N > 0, "limit")
		if c.N == 0 {
			if len(got) != 0 {
				return fmt.Errorf("RegexpSplit(%q, %q, 0) gives %q", c.Re, s, got)
			}
			return nil
		}
		if !groups {
			want := re.Split(s, c.N)
			if !eqStrings(got, want) {
				return fmt.Errorf("RegexpSplit(%q, %q, %d) gives %q, the standard split %q", c.Re, s, c.N, got, want)
			}
			if c.N > 0 && len(got) > c.N {
				return fmt.Errorf("RegexpSplit(%q, %q, %d) gives %d parts", c.Re, s, c.N, len(got))
			}
			return nil
		}
		if c.N > 0 {
			return nil
		}
		if j := strings.Join(got, ""); j != s {
			return fmt.Errorf("RegexpSplit(%q, %q, %d) gives %q: %q of the text", c.Re, s, c.N, got, j)
		}
		// the matches and the text between them, empty parts aside
		var want []string
		put := func(x string) {
			if x != "" {
				want = append(want, x)
			}
		}
		at := 0
		for _, l := range locs {
			put(s[at:l[0]])
			put(s[l[0]:l[1]])
			at = l[1]
		}
		put(s[at:])
		var parts []string
		for _, x := range got {
			if x != "" {
				parts = append(parts, x)
			}
		}
		if !eqStrings(parts, want) {
			return fmt.Errorf("RegexpSplit(%q, %q, %d) gives %q, the matches and the text between are %q", c.Re, s, c.N, got, want)
		}
		return nil
	})
}
