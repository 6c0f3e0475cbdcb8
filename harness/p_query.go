package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm/idf"
	"github.com/go-ego/gse/hmm/pos"
	"pgregory.net/rapid"
)

// env is a segmenter with everything made of it.
type env struct {
	seg *gse.Segmenter
	pos *pos.Segmenter
	te  *idf.TagExtracter
	tr  *idf.TextRanker
	lo  LOpts // the settings of the loaders
}

// loader sets the loaders of the segmenter.
func (e *env) loader(l LOpts) {
	e.lo = l
	e.seg.DictSep, e.seg.LoadNoFreq, e.seg.TextFreq = l.Sep, l.NoFreq, l.Text
	e.seg.MinTokenFreq = l.Min
	e.seg.Init()
}

// newEnv loads the rows; every tag extracter gets the same small IDF dictionary.
func newEnv(rows []Row, o Opts, stops []Raw) (*env, error) {
	seg, _, err := load(rows, o)
	if err != nil {
		return nil, err
	}
	for _, s := range stops {
		seg.AddStop(string(s))
	}
	return (&env{seg: seg}).attach()
}

func (e *env) attach() (*env, error) {
	e.pos = posSeg(e.seg)
	e.te = &idf.TagExtracter{}
	e.te.WithGse(*e.seg)
	e.te.Idf = idf.NewIdf()
	if err := e.te.LoadIdfStr("人口 7 n\n世界 5 n\nab 3 n"); err != nil {
		return nil, err
	}
	e.tr = &idf.TextRanker{}
	e.tr.WithGse(*e.seg)
	return e, nil
}

// Query is one question: which, about what text, with which variation.
type Query struct {
	Q string
	T Raw
	N int `json:",omitempty"`
}

// answer renders a result that is kept; it may be asked again later.
type answer func() string

func plain(v any) answer { return func() string { return fmt.Sprintf("%#v", v) } }

func strs(v []string) answer { return func() string { return fmt.Sprintf("%q", v) } }

func showTok(k *gse.Token) string {
	return fmt.Sprintf("%q %v %q", k.Text(), k.Freq(), k.Pos())
}

func segsAnswer(v []gse.Segment) answer {
	return func() string {
		var b strings.Builder
		for i := range v {
			fmt.Fprintf(&b, "[%d,%d) %s; ", v[i].Start(), v[i].End(), showTok(v[i].Token()))
		}
		return b.String()
	}
}

// kept runs f on a list that f must not change.
func kept[T any](name string, in []T, f func([]T) answer) (answer, error) {
	room := append(make([]T, 0, len(in)+3), in...)
	var zero T
	spare := append(room[:len(in):len(in)], zero, zero)
	_ = spare
	before := append([]T(nil), room...)
	a := f(room)
	if !reflect.DeepEqual(append([]T(nil), room...), before) {
		return nil, fmt.Errorf("%s changed the list %v passed in: now %v", name, before, room)
	}
	return a, nil
}

type queryFn func(e *env, s string, n int) (answer, error)

func ok(a answer) (answer, error) { return a, nil }

var queryRegs = compileRegs([]string{`(\d+\.\d+|[a-zA-Z0-9]+)`, `\p{Han}+`, `[a-c]+`, `\s+`})

func sp(s string) []gse.SegPos {
	var r []gse.SegPos
	for i, x := range strings.Split(s, "") {
		r = append(r, gse.SegPos{Text: x, Pos: []string{"n", "x", "v"}[i%3]})
	}
	return r
}

// valid is the text without invalid UTF-8: the part-of-speech segmenter is specified for that only.
func valid(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	return strings.ToValidUTF8(s, "")
}

var queries = map[string]queryFn{
	"segment": func(e *env, s string, n int) (answer, error) {
		b := []byte(s)
		r := e.seg.Segment(b)
		if !bytes.Equal(b, []byte(s)) {
			return nil, fmt.Errorf("Segment(%q) changed the bytes passed in", s)
		}
		return ok(segsAnswer(r))
	},
	"modesegment": func(e *env, s string, n int) (answer, error) {
		b := []byte(s)
		r := e.seg.ModeSegment(b, n%2 == 0)
		if !bytes.Equal(b, []byte(s)) {
			return nil, fmt.Errorf("ModeSegment(%q) changed the bytes passed in", s)
		}
		return ok(segsAnswer(r))
	},
	"slice":     func(e *env, s string, n int) (answer, error) { return ok(strs(e.seg.Slice(s, n%2 == 0))) },
	"string":    func(e *env, s string, n int) (answer, error) { return ok(plain(e.seg.String(s, n%2 == 0))) },
	"segpos":    func(e *env, s string, n int) (answer, error) { return ok(plain(e.seg.Pos(s, n%2 == 0))) },
	"cut":       func(e *env, s string, n int) (answer, error) { return ok(strs(e.seg.Cut(s))) },
	"cuthmm":    func(e *env, s string, n int) (answer, error) { return ok(strs(e.seg.Cut(s, n%2 == 0))) },
	"cutsearch": func(e *env, s string, n int) (answer, error) { return ok(strs(e.seg.CutSearch(s, n%2 == 0))) },
	"cutall":    func(e *env, s string, n int) (answer, error) { return ok(strs(e.seg.CutAll(s))) },
	"cutdag":    func(e *env, s string, n int) (answer, error) { return ok(strs(e.seg.CutDAG(s, queryRegs[:n%3]...))) },
	"cutdagno":  func(e *env, s string, n int) (answer, error) { return ok(strs(e.seg.CutDAGNoHMM(s))) },
	"hmmcut":    func(e *env, s string, n int) (answer, error) { return ok(strs(e.seg.HMMCut(s, queryRegs[:n%3]...))) },
	"find": func(e *env, s string, n int) (answer, error) {
		f, p, k := e.seg.Find(s)
		return ok(plain([]any{f, p, k}))
	},
	"value": func(e *env, s string, n int) (answer, error) {
		_, _, err := e.seg.Value(s)
		return ok(plain(err == nil))
	},
	"isstop":  func(e *env, s string, n int) (answer, error) { return ok(plain(e.seg.IsStop(s))) },
	"suggest": func(e *env, s string, n int) (answer, error) { return ok(plain(e.seg.SuggestFreq(s))) },
	"suggest2": func(e *env, s string, n int) (answer, error) {
		return kept("SuggestFreq", strings.SplitAfter(s, "人"), func(l []string) answer { return plain(e.seg.SuggestFreq(l...)) })
	},
	"split": func(e *env, s string, n int) (answer, error) {
		b := []byte(s)
		r := e.seg.SplitTextToWords(b)
		return ok(func() string { return fmt.Sprintf("%q", r) })
	},
	"cutstop": func(e *env, s string, n int) (answer, error) { return ok(strs(e.seg.CutStop(s, n%2 == 0))) },
	"cuttrim": func(e *env, s string, n int) (answer, error) { return ok(strs(e.seg.CutTrim(s, n%2 == 0))) },
	"cuthtml": func(e *env, s string, n int) (answer, error) { return ok(strs(e.seg.CutTrimHtml(s, n%2 == 0))) },
	"cuturl":  func(e *env, s string, n int) (answer, error) { return ok(strs(e.seg.CutUrl(s, n%2 == 0))) },
	"postrim": func(e *env, s string, n int) (answer, error) {
		return kept("PosTrim", []string{"x", "v", "n"}[:n%4], func(l []string) answer { return plain(e.seg.PosTrim(s, n%2 == 0, l...)) })
	},
	"postrimstr": func(e *env, s string, n int) (answer, error) {
		return kept("PosTrimStr", []string{"x", "v", "n"}[:n%4], func(l []string) answer {
			return plain([]any{e.seg.PosTrimStr(s, n%2 == 0, l...), e.seg.PosTrimArr(s, n%2 == 0, l...)})
		})
	},
	"trim": func(e *env, s string, n int) (answer, error) {
		return kept("Trim", strings.Split(s, ""), func(l []string) answer { return strs(e.seg.Trim(l)) })
	},
	"trimpunct": func(e *env, s string, n int) (answer, error) {
		return kept("TrimPunct", strings.Split(s, ""), func(l []string) answer { return strs(e.seg.TrimPunct(l)) })
	},
	"trimsymbol": func(e *env, s string, n int) (answer, error) {
		return kept("TrimSymbol", strings.Split(s, ""), func(l []string) answer { return strs(e.seg.TrimSymbol(l)) })
	},
	"stop": func(e *env, s string, n int) (answer, error) {
		return kept("Stop", strings.Split(s, ""), func(l []string) answer { return strs(e.seg.Stop(l)) })
	},
	"trimpos": func(e *env, s string, n int) (answer, error) {
		return kept("TrimPos", sp(s), func(l []gse.SegPos) answer { return plain(e.seg.TrimPos(l)) })
	},
	"trimpp": func(e *env, s string, n int) (answer, error) {
		return kept("TrimPosPunct", sp(s), func(l []gse.SegPos) answer { return plain(e.seg.TrimPosPunct(l)) })
	},
	"trimwith": func(e *env, s string, n int) (answer, error) {
		if n%2 == 1 {
			return kept("TrimWithPos", []string{"x", "v", "n"}[:n%4], func(l []string) answer {
				return plain([]any{e.seg.TrimWithPos(sp(s), l...), e.pos.TrimWithPos(sp(s), l...)})
			})
		}
		return kept("TrimWithPos", sp(s), func(l []gse.SegPos) answer { return plain(e.seg.TrimWithPos(l, []string{"n", "v"}[:n%3]...)) })
	},
	"cutstr": func(e *env, s string, n int) (answer, error) {
		return kept("CutStr", strings.Split(s, ""), func(l []string) answer { return plain(e.seg.CutStr(l, "/")) })
	},
	"posstr": func(e *env, s string, n int) (answer, error) {
		return kept("PosStr", sp(s), func(l []gse.SegPos) answer { return plain(e.seg.PosStr(l, "/")) })
	},
	"analyze": func(e *env, s string, n int) (answer, error) {
		return kept("Analyze", e.seg.Cut(valid(s), n%2 == 0), func(l []string) answer {
			if n%3 == 0 {
				return plain(e.seg.Analyze(l, ""))
			}
			return plain(e.seg.Analyze(l, strings.ToLower(valid(s))))
		})
	},
	"findall": func(e *env, s string, n int) (answer, error) {
		return kept("FindAllOccs", []string{"人", "a", s, ""}, func(l []string) answer {
			m := gse.FindAllOccs([]byte(s), l)
			return func() string { return fmt.Sprint(m) }
		})
	},
	"filter": func(e *env, s string, n int) (answer, error) {
		return ok(strs([]string{gse.FilterSymbol(s), gse.FilterEmoji(s), gse.FilterHtml(s), gse.FilterLang(s, "Han"), gse.RangeText(s), gse.SplitNums(s)}))
	},
	"splitwords": func(e *env, s string, n int) (answer, error) {
		b := []byte(s)
		r := gse.SplitWords(b)
		return ok(func() string { return fmt.Sprintf("%q", r) })
	},
	"dictinfo": func(e *env, s string, n int) (answer, error) {
		d := e.seg.Dictionary()
		return ok(plain([]any{d.NumTokens(), d.TotalFreq(), d.MaxTokenLen()}))
	},
	"poscut": func(e *env, s string, n int) (answer, error) { return ok(plain(e.pos.Cut(valid(s), n%2 == 0))) },
	"postrm": func(e *env, s string, n int) (answer, error) {
		return kept("pos Trim", sp(s), func(l []gse.SegPos) answer {
			return plain([]any{e.pos.Trim(l), e.pos.TrimPunct(l), e.pos.TrimWithPos(l, "x")})
		})
	},
	"tags": func(e *env, s string, n int) (answer, error) { return ok(plain(e.te.ExtractTags(valid(s), n%5+1))) },
	"idffreq": func(e *env, s string, n int) (answer, error) {
		f, p, k := e.te.Idf.Freq(s)
		return ok(plain([]any{f, p, k, e.te.Idf.NumTokens()}))
	},
	"rank": func(e *env, s string, n int) (answer, error) {
		return kept("TextRankWithPOS", []string{"v", "x", "n"}, func(l []string) answer { return plain(e.tr.TextRankWithPOS(valid(s), n%5, l)) })
	},
	"rankdef": func(e *env, s string, n int) (answer, error) { return ok(plain(e.tr.TextRank(valid(s), n%5))) },
}

var queryNames = func() []string {
	var r []string
	for k := range queries {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}()

func genQuery(t *rapid.T, texts []Raw) Query {
	return Query{rapid.SampledFrom(queryNames).Draw(t, "q"), rapid.SampledFrom(texts).Draw(t, "about"), rapid.IntRange(0, 5).Draw(t, "n")}
}

func (e *env) ask(qu Query) (answer, error) {
	f, ok := queries[qu.Q]
	if !ok {
		hErr("no such query %q", qu.Q)
	}
	return f(e, string(qu.T), qu.N)
}
