package main

import (
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/go-ego/gse"
	"pgregory.net/rapid"
)

// Opts are the options that decide how a text is split into atoms.
type Opts struct {
	AlphaNum bool `json:",omitempty"`
	Alpha    bool `json:",omitempty"`
	Num      bool `json:",omitempty"`
	NoLower  bool `json:",omitempty"`
}

func (o Opts) apply(seg *gse.Segmenter) {
	seg.AlphaNum, seg.Alpha, seg.Num = o.AlphaNum, o.Alpha, o.Num
	gse.ToLower = !o.NoLower
}

// Row is one dictionary entry.
type Row struct {
	W Raw
	F float64
	P Raw `json:",omitempty"`
}

// Alphabets: each unit is one character (or one broken byte sequence).
var (
	uHan     = []string{"世", "界", "人", "口", "你", "好", "中", "国", "大", "学"}
	uLower   = []string{"a", "b", "c", "t", "o"}
	uUpper   = []string{"A", "B", "T"}
	uDigit   = []string{"0", "1", "9"}
	uTwoByte = []string{"é", "É", "ß", "ж", "Ж", "σ", "Σ", "²", "½", "٣"}
	uKana    = []string{"こ", "ん", "に", "ち", "は", "ア", "カ", "ー"}
	uHangul  = []string{"한", "글"}
	uWide    = []string{"😀", "𠀀", "𝟘"}
	uSpace   = []string{" ", "\t", "\n", "　", "\r\n"}
	uPunct   = []string{",", ".", "!", "。", "、", "-", "/", "'", "_", "《"}
	uSymbol  = []string{"+", "=", "$", "€", "™", "|", "<", ">", "%", "&", "\\", "\"", "#", "*", "(", "]", "{", "?", ";", ":", "@", "^", "`", "~"}
	uOdd     = []string{"İ", "ı", "K", "ſ", "\u0301", "\u200d", "\ufffd", "①", "Ⅷ", "〇", "々"}
	uBroken  = []string{"\xff", "\xc3", "\xe4\xb8", "\x96", "\x80", "\xf0\x9f"}
	uNul     = []string{"\x00"}
)

func cat(ls ...[]string) (r []string) {
	for _, l := range ls {
		r = append(r, l...)
	}
	return
}

// pick chooses one of several weighted alternatives.
func pick(t *rapid.T, label string, weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	x := even(t, label, sum)
	for i, w := range weights {
		if x < w {
			return i
		}
		x -= w
	}
	return len(weights) - 1
}

// even draws from 0..n-1 with nearly equal chances, where IntRange prefers small numbers.
// The simplest draw is still 0.
func even(t *rapid.T, label string, n int) int {
	x := rapid.Uint16().Draw(t, label)
	return int(x*40503) * n >> 16
}

func chance(t *rapid.T, label string, percent int) bool {
	return even(t, label, 100) >= 100-percent
}

// Alpha is the set of characters a case is made of.
type alphabet struct {
	units   []string // of the words
	extra   []string // only in texts
	isHan   bool
	hasKana bool
	// limit bounds the length of the texts in bytes, 0 is no bound. The segmentation with parts
	// of speech takes milliseconds for every character the dictionary does not have.
	limit int
}

// genAlphabet draws the characters of a case. broken allows invalid UTF-8 and zero bytes.
func genAlphabet(t *rapid.T, broken bool) alphabet {
	var a alphabet
	switch pick(t, "alphabet", 24, 14, 15, 10, 13, 9, 9, 6) {
	case 0: // a few Han characters: many overlaps
		n := rapid.IntRange(1, 5).Draw(t, "han")
		a.units = uHan[:n]
		a.isHan = true
		if chance(t, "mixtext", 40) {
			a.extra = cat(uPunct[:3], uLower[:2], uDigit[:2], uSpace[:1])
		}
	case 1: // letters only: words per letter with AlphaNum, long runs without
		a.units = cat(uLower[:rapid.IntRange(1, 3).Draw(t, "letters")], uUpper[:rapid.IntRange(0, 2).Draw(t, "upper")])
		a.extra = cat(uSpace[:1], uPunct[:2], uDigit[:1])
	case 2: // Han, Latin and digits
		a.units = cat(uHan[:3], uLower[:2], uUpper[:1], uDigit[:2])
		a.extra = cat(uSpace[:2], uPunct[:4])
	case 3: // Japanese
		a.units = cat(uKana[:rapid.IntRange(2, 8).Draw(t, "kana")], uHan[:2])
		a.extra = cat(uPunct[2:5], uLower[:1])
		a.hasKana = true
	case 4: // everything
		a.units = cat(uHan[:4], uLower[:3], uUpper[:2], uDigit, uTwoByte, uKana[:2], uHangul, uWide)
		a.extra = cat(uSpace, uPunct, uSymbol, uOdd)
		a.hasKana = true
	case 5: // two-byte letters and numbers, wide characters
		a.units = cat(uTwoByte[:rapid.IntRange(2, 10).Draw(t, "two")], uWide, uLower[:1])
		a.extra = cat(uSpace[:2], uOdd, uPunct[:2])
	case 7: // characters from anywhere in Unicode
		n := rapid.IntRange(1, 6).Draw(t, "any")
		for i := 0; i < n; i++ {
			a.units = append(a.units, genRune(t))
		}
		if chance(t, "anyextra", 50) {
			a.extra = []string{genRune(t), genRune(t), uLower[0], uDigit[0], uSpace[0]}
		}
		for _, u := range cat(a.units, a.extra) {
			for _, c := range u {
				a.hasKana = a.hasKana || isKana(c)
			}
		}
	case 6: // words with blanks, punctuation and symbols in them
		a.units = cat(uLower[:3], uSpace[:1], uPunct[:6], uHan[:2], uSymbol[:3])
		a.extra = cat(uUpper, uDigit)
	}
	if broken && chance(t, "broken", 25) {
		a.extra = cat(a.extra, uBroken, uNul)
		if chance(t, "brokenWords", 30) {
			a.units = cat(a.units, uBroken)
		}
	}
	return a
}

// runeRanges are places of Unicode that code is likely to treat alike, or to tell apart at their ends.
var runeRanges = [][2]rune{{0x4e00, 0x9fff}, {0x4e00, 0x4e01}, {0x9fa0, 0x9fff}, {0x3400, 0x4dbf}, {0xf900, 0xfaff}, {0x20000, 0x323af},
	{0xff01, 0xff5e}, {0xff61, 0xffdc}, {0x3040, 0x30ff}, {0x31f0, 0x31ff}, {0x2e80, 0x303f}, {0xac00, 0xd7a3}, {0x1100, 0x11ff},
	{0xa0, 0x24f}, {0x250, 0x36f}, {0x370, 0x52f}, {0x531, 0x6ff}, {0x900, 0xeff}, {0x1e00, 0x1fff}, {0x2000, 0x2bff}, {0x2150, 0x218b}, {0x2460, 0x24ff},
	{0x3200, 0x33ff}, {0xe000, 0xf8ff}, {0xfb00, 0xfeff}, {0x10000, 0x10fff}, {0x1d400, 0x1d7ff}, {0x1f000, 0x1faff}, {0xe0000, 0xe01ef}, {0x1, 0x7f}, {0x80, 0x9f}, {0xfff0, 0xfffd}, {0x10fffe, 0x10ffff}}

// genRune draws a character (no zero byte, no end of line).
func genRune(t *rapid.T) string {
	r := runeRanges[even(t, "range", len(runeRanges))]
	c := r[0] + rune(even(t, "rune", int(r[1]-r[0])+1))
	if c == '\n' || c == '\r' {
		c = 'j' // the rows of a file end there
	}
	return string(c)
}

// genLen draws a length at or near the sizes at which buffers and small integers end.
func genLen(t *rapid.T, max int) int {
	ls := []int{16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 2000, 2047, 2049, 4095, 4096, 4097}
	for ls[len(ls)-1] > max {
		ls = ls[:len(ls)-1]
	}
	return ls[even(t, "length", len(ls))]
}

// permille is true in n of 1000 draws.
func permille(t *rapid.T, label string, n int) bool { return even(t, label, 1000) >= 1000-n }

// genRun draws a long repetition of a few characters.
func genRun(t *rapid.T, units []string, max int) string {
	n := 1 + pick(t, "period", 60, 20, 20)
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, rapid.SampledFrom(units).Draw(t, "u"))
	}
	w := strings.Join(l, "")
	return strings.Repeat(w, min((genLen(t, max)+n-1)/n, 1+20000/len(w)))
}

// genWord draws one word over the alphabet, often related to the words before it.
func genWord(t *rapid.T, a alphabet, words []string) string {
	k := 0
	if len(words) > 0 {
		k = pick(t, "word", 50, 20, 10, 10, 10)
	}
	w := ""
	if permille(t, "giant", 3) {
		k = 9
	}
	switch k {
	case 9: // a very long word
		w = genRun(t, a.units, 300)
		for len(w) > 320 {
			_, n := utf8.DecodeRuneInString(w)
			w = w[n:]
		}
		if chance(t, "tail", 50) {
			w += rapid.SampledFrom(a.units).Draw(t, "u")
		}
	case 0:
		n := 1 + pick(t, "len", 25, 35, 20, 12, 5, 3)
		if n == 6 {
			n = rapid.IntRange(6, 14).Draw(t, "long")
		}
		for i := 0; i < n; i++ {
			w += rapid.SampledFrom(a.units).Draw(t, "u")
		}
	case 1: // extend a word
		w = rapid.SampledFrom(words).Draw(t, "base") + rapid.SampledFrom(a.units).Draw(t, "u")
	case 2: // prepend to a word
		w = rapid.SampledFrom(a.units).Draw(t, "u") + rapid.SampledFrom(words).Draw(t, "base")
	case 3: // two words
		w = rapid.SampledFrom(words).Draw(t, "w1") + rapid.SampledFrom(words).Draw(t, "w2")
	case 4: // a proper prefix of a word
		r := []rune(rapid.SampledFrom(words).Draw(t, "base"))
		if len(r) == 0 {
			return rapid.SampledFrom(a.units).Draw(t, "u")
		}
		w = string(r[:rapid.IntRange(1, len(r)).Draw(t, "cut")])
	}
	if len(w) > 330 {
		w = string([]rune(w)[:20])
	}
	return w
}

// genFreq draws a positive frequency; powers of two make ties likely.
func genFreq(t *rapid.T) float64 {
	switch pick(t, "freq", 35, 25, 25, 10, 5) {
	case 0:
		return float64(rapid.IntRange(2, 12).Draw(t, "f"))
	case 1:
		return math.Ldexp(1, rapid.IntRange(1, 20).Draw(t, "f2"))
	case 2:
		m := rapid.IntRange(1, 999).Draw(t, "fm")
		e := rapid.IntRange(0, 7).Draw(t, "fe")
		v := float64(m) * math.Pow(10, float64(e))
		if v < 2 {
			v = 2
		}
		return v
	case 3:
		return 2 + float64(rapid.IntRange(1, 4000).Draw(t, "ff"))/16
	}
	return float64(rapid.IntRange(1000000, 2000000000).Draw(t, "fl"))
}

var posTags = []string{"n", "v", "x", "ns", "vn", "a", "nr", "", "感動詞", "eng", "m"}

func genPos(t *rapid.T) Raw { return Raw(rapid.SampledFrom(posTags).Draw(t, "pos")) }

// genRows draws a dictionary of between lo and hi rows.
func genRows(t *rapid.T, a alphabet, lo, hi int) []Row {
	n := rapid.IntRange(lo, hi).Draw(t, "rows")
	rows := make([]Row, 0, n)
	var words []string
	freq := func() float64 { return genFreq(t) }
	if chance(t, "near", 6) {
		// frequencies that differ by little: paths that are nearly as good as the best
		base, step := 2+genFreq(t), rapid.SampledFrom([]float64{1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7}).Draw(t, "step")
		freq = func() float64 { return base * (1 + step*float64(even(t, "nearFreq", 16))) }
	}
	for i := 0; i < n; i++ {
		w := genWord(t, a, words)
		words = append(words, w)
		rows = append(rows, Row{Raw(w), freq(), genPos(t)})
	}
	if permille(t, "manyRows", 4) {
		// many words of a few characters, in counting order
		f := genFreq(t)
		k := genLen(t, 1100)
		if chance(t, "thousands", 20) {
			k = 2500 + even(t, "thousandsOf", 6000)
		}
		for i := 0; i < k; i++ {
			w := ""
			for x := i + len(a.units); x > 0; x /= len(a.units) + 1 {
				w += a.units[x%len(a.units)]
			}
			rows = append(rows, Row{Raw(w), f + float64(i%7), "n"})
		}
	}
	return rows
}

func rowWords(rows []Row) []string {
	var r []string
	for _, x := range rows {
		r = append(r, string(x.W))
	}
	return r
}

// clip cuts a text to at most n bytes at the start of a character.
func clip(s Raw, n int) Raw {
	if len(s) <= n {
		return s
	}
	for n > 0 && !utf8.RuneStart(s[n]) {
		n--
	}
	return s[:n]
}

// genText draws a text of words, parts of words and other characters.
func genText(t *rapid.T, a alphabet, words []string, maxPieces int) Raw {
	n := rapid.IntRange(0, maxPieces).Draw(t, "pieces")
	if chance(t, "bigText", 1) {
		n = maxPieces * (1 + even(t, "manyPieces", 40))
	}
	// the cuts try every prefix of a word from every place: bound the length of the text times the square of the longest word
	long := 1
	for _, w := range words {
		long = max(long, len(w))
	}
	room := max(5000000/(long*long), long+64)
	if a.limit > 0 {
		room = min(room, a.limit)
	}
	s, run := "", -1
	if permille(t, "run", 15) {
		run = even(t, "at", n+1)
	}
	all := cat(a.units, a.extra)
	oneOf := func() string {
		if n := len(words); n > 500 && chance(t, "ends", 50) {
			// the first and the last ones of many
			return words[(n-4+even(t, "end", 6))%n]
		}
		return rapid.SampledFrom(words).Draw(t, "w")
	}
	if len(words) > 500 && n > 0 {
		n += 8
	}
	for i := 0; (i < n || i == run) && len(s) <= room; i++ {
		if i == run {
			if len(words) > 0 && room/long >= 16 && chance(t, "runOfWords", 40) {
				s += genRun(t, words, min(300, room/long))
			} else {
				s += genRun(t, all, max(16, min(4100, room)))
			}
			continue
		}
		k := 1
		if len(words) > 0 {
			k = pick(t, "piece", 45, 35, 10, 10)
		}
		switch k {
		case 0:
			s += oneOf()
		case 1:
			s += rapid.SampledFrom(all).Draw(t, "u")
		case 2: // a part of a word
			r := []rune(oneOf())
			if len(r) > 0 {
				i := rapid.IntRange(0, len(r)-1).Draw(t, "from")
				j := rapid.IntRange(i, len(r)).Draw(t, "to")
				s += string(r[i:j])
			}
		case 3:
			if len(a.extra) > 0 {
				s += rapid.SampledFrom(a.extra).Draw(t, "e")
			} else {
				s += rapid.SampledFrom(a.units).Draw(t, "u")
			}
		}
	}
	return Raw(s)
}

// genHuge makes one text in a thousand up to 70000 bytes long, for checks that take linear time.
func genHuge(t *rapid.T, s Raw, words []string) Raw {
	if s == "" || even(t, "huge", 1000) < 999 {
		return s
	}
	long := 8
	for _, w := range words {
		long = max(long, len(w))
	}
	n := min(5000000/(long*long), 70000)
	n -= even(t, "short", n/2+1)
	return Raw(strings.Repeat(string(s), n/len(s)+1))
}

// genHugeWords is genHuge for checks that take quadratic time over runs of unknown characters: the text becomes a
// repetition of some words, or one of itself that is not as long.
func genHugeWords(t *rapid.T, s Raw, words []string) Raw {
	if s == "" || even(t, "huge", 1000) < 998 {
		return s
	}
	if even(t, "ofWords", 2) == 1 {
		if x := repeatWords(t, words); x != "" {
			return x
		}
	}
	long := 8
	for _, w := range words {
		long = max(long, len(w))
	}
	n := min(1000000/(long*long), 9000)
	n -= even(t, "short", n/2+1)
	return Raw(strings.Repeat(string(s), n/len(s)+1))
}

// repeatWords is a text of more than 65530 bytes of a few of the words of several characters, or nothing if there is
// a long word.
func repeatWords(t *rapid.T, words []string) Raw {
	var l []string
	long := 8
	for _, w := range words {
		if utf8.RuneCountInString(w) > 1 {
			l = append(l, w)
		}
		long = max(long, len(w))
	}
	if len(l) == 0 || long >= 16 {
		return ""
	}
	x := ""
	for i := 1 + even(t, "words", 6); i > 0; i-- {
		x += rapid.SampledFrom(l).Draw(t, "w")
	}
	return Raw(strings.Repeat(x, (65530+even(t, "over", 3000))/len(x)+1))
}

// genColossal gives one case in a thousand a word of up to some thousand characters, without much
// repetition (the cuts would take minutes): a row of it for the dictionary, and a text with it, with the word but its end, and the rest.
func genColossal(t *rapid.T, a alphabet, rows []Row, text Raw) ([]Row, Raw) {
	kinds := map[string]bool{}
	for _, u := range a.units {
		kinds[u] = true
	}
	if len(kinds) < 3 || !permille(t, "colossal", 1) {
		return rows, text
	}
	n := genLen(t, 4097)
	x := uint32(even(t, "mix", 1<<16))*2654435761 + 12345
	units := a.units
	if chance(t, "letters", 25) {
		units = []string{"a", "b", "c", "i", "j", "k", "x", "y", "z"} // one single atom
	}
	var w []string
	for b := 0; len(w) < n && b < 12000; {
		x = x*1664525 + 1013904223
		u := units[int(x>>10)%len(units)]
		w = append(w, u)
		b += len(u)
	}
	all := strings.Join(w, "")
	short := strings.Join(w[:len(w)-1], "")
	rows = rows[:len(rows):len(rows)]
	for even(t, "beginning", 2) == 1 && len(rows) < 1000 {
		// words that the long one begins with
		rows = append(rows, Row{Raw(strings.Join(w[:1+even(t, "part", len(w))], "")), genFreq(t), genPos(t)})
	}
	rows = append(rows, Row{Raw(all), genFreq(t), genPos(t)})
	text = clip(text, 300)
	switch even(t, "place", 4) {
	case 0:
		text += Raw(all)
	case 1:
		text = Raw(all) + text
	case 2:
		text += Raw(short) + text + Raw(all) + text
	case 3:
		text += Raw(all) + Raw(all) + Raw(w[0]) + text
	}
	return rows, text
}

// genOpts draws splitting options: the defaults half of the time.
func genOpts(t *rapid.T) Opts {
	if !chance(t, "opts", 50) {
		return Opts{}
	}
	return Opts{
		AlphaNum: rapid.Bool().Draw(t, "alphanum"),
		Alpha:    chance(t, "alpha", 25),
		Num:      chance(t, "num", 25),
		NoLower:  chance(t, "nolower", 25),
	}
}

func fmtFreq(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

// newSeg returns a segmenter with an empty dictionary and the given options.
// It leaves the shared HMM model alone.
func newSeg(o Opts) *gse.Segmenter {
	seg := &gse.Segmenter{SkipLog: true, NotLoadHMM: true}
	o.apply(seg)
	if err := seg.LoadDictStr(""); err != nil {
		hErr("LoadDictStr of nothing: %v", err)
	}
	return seg
}
