package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing/iotest"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm/idf"
	"pgregory.net/rapid"
)

// --- C31: inputs that cannot be read ---

type caseC31 struct {
	O     Opts
	L     LOpts
	Lines [][]Raw
	Final bool
	Chunk int  // how the reader delivers: 0 all at once, 1 single bytes, 2 halves, 3 the last bytes together with the end
	Fault int  // -1: none, otherwise the per mille of the text after which the reader fails
	With  bool `json:",omitempty"` // the error comes together with the last bytes
	Err   int  `json:",omitempty"` // which error
	Then  int  `json:",omitempty"` // after the error: 0 it again and again, 1 the end, 2 the rest of the text
	Buf   int  // size of the buffered reader

	Stops []Raw  `json:",omitempty"` // lines of a stop file
	Long  int    `json:",omitempty"` // length of one more line of it
	LongL int    `json:",omitempty"` // length of one more dictionary row's part of speech
	Dir   string `json:",omitempty"` // which loader gets a directory: dict read list stop stoplist idf idflist idfstop idfstoplist
}

var errFault = errors.New("injected fault")

// faults are the errors a reader fails with, none of which is the end of the input.
var faults = []error{errFault, io.ErrUnexpectedEOF, os.ErrClosed, io.ErrClosedPipe, io.ErrNoProgress, context.Canceled, os.ErrDeadlineExceeded,
	&fs.PathError{Op: "read", Path: "dict.txt", Err: syscall.EIO}, errors.New("EOF"), os.ErrNotExist, bufio.ErrTooLong}

// faulty delivers the text and then fails, for ever unless there is something to follow.
type faulty struct {
	s    string
	with bool
	err  error
	then io.Reader
	over bool
}

func (f *faulty) Read(p []byte) (int, error) {
	if f.over && f.then != nil {
		return f.then.Read(p)
	}
	n := copy(p, f.s)
	f.s = f.s[n:]
	if n == 0 || (f.with && f.s == "") {
		f.over = true
		return n, f.err
	}
	return n, nil
}

// lazy delivers nothing now and then, as a reader may.
type lazy struct {
	r io.Reader
	n int
}

func (l *lazy) Read(p []byte) (int, error) {
	l.n++
	if l.n%3 != 0 || len(p) == 0 {
		return 0, nil
	}
	return l.r.Read(p[:min(len(p), 5)])
}

func chunked(r io.Reader, how int) io.Reader {
	switch how {
	case 1:
		return iotest.OneByteReader(r)
	case 2:
		return iotest.HalfReader(r)
	case 3:
		return iotest.DataErrReader(r)
	case 4:
		return &lazy{r: r}
	}
	return r
}

func genC31(t *rapid.T) caseC31 {
	a := genAlphabet(t, false)
	c := caseC31{O: genOpts(t), Final: rapid.Bool().Draw(t, "final"), Fault: -1}
	c.L.Sep = rapid.SampledFrom([]string{"", "", ",", ";"}).Draw(t, "sep")
	c.L.NoFreq = chance(t, "nofreq", 20)
	var words []string
	n := rapid.IntRange(0, 8).Draw(t, "lines")
	for i := 0; i < n; i++ {
		w := genWord(t, a, words)
		if !trimmed(w, c.L.Sep != "") || (c.L.Sep != "" && strings.Contains(w, c.L.Sep)) {
			c.Lines = append(c.Lines, nil)
			continue
		}
		words = append(words, w)
		cols := []Raw{Raw(w)}
		k := pick(t, "columns", 20, 30, 50)
		if k > 0 {
			f := fmtFreq(genFreq(t))
			if chance(t, "oddfreq", 20) {
				f = rapid.SampledFrom([]string{"1", "x", "12345", "2.5", "1e3"}).Draw(t, "freq")
			}
			cols = append(cols, Raw(f))
			if k > 1 {
				p := genPos(t)
				if p == "" {
					p = "n"
				}
				cols = append(cols, p)
				if chance(t, "further", 10) {
					// columns that mean nothing
					cols = append(cols, "oo", "9", "more")
				}
			}
		}
		c.Lines = append(c.Lines, cols)
	}
	c.Chunk = rapid.IntRange(0, 4).Draw(t, "chunk")
	c.Buf = rapid.SampledFrom([]int{16, 64, 4096}).Draw(t, "buf")
	if chance(t, "fault", 70) {
		c.Fault = even(t, "at", 1001)
		c.With = rapid.Bool().Draw(t, "with")
		c.Err = even(t, "error", len(faults))
		c.Then = pick(t, "then", 60, 20, 20)
	}
	if chance(t, "long", 3) {
		c.LongL = rapid.SampledFrom([]int{4000, 65535, 65536, 70000}).Draw(t, "longrow")
	}
	if chance(t, "stops", 30) {
		k := rapid.IntRange(1, 4).Draw(t, "k")
		for i := 0; i < k; i++ {
			c.Stops = append(c.Stops, Raw(genWord(t, a, words)))
		}
		if chance(t, "longstop", 30) {
			c.Long = rapid.SampledFrom([]int{4095, 4096, 65535, 65536, 65537, 131072, 200000}).Draw(t, "length")
		}
	}
	if chance(t, "dir", 15) {
		c.Dir = rapid.SampledFrom([]string{"dict", "read", "list", "stop", "stoplist", "idf", "idflist", "idfstop", "idfstoplist"}).Draw(t, "which")
	}
	return c
}

func sameDict(name string, a, b *gse.Segmenter) error {
	x, y := a.Dictionary(), b.Dictionary()
	if len(x.Tokens) != len(y.Tokens) || x.TotalFreq() != y.TotalFreq() || x.MaxTokenLen() != y.MaxTokenLen() {
		return fmt.Errorf("%s: %d words of total frequency %v, at most %d long; want %d, %v, %d", name,
			len(x.Tokens), x.TotalFreq(), x.MaxTokenLen(), len(y.Tokens), y.TotalFreq(), y.MaxTokenLen())
	}
	for i := range x.Tokens {
		p, q := &x.Tokens[i], &y.Tokens[i]
		if p.Text() != q.Text() || p.Freq() != q.Freq() || p.Pos() != q.Pos() {
			return fmt.Errorf("%s: word %d is %s, want %s", name, i, showTok(p), showTok(q))
		}
		if f, pos, ok := a.Find(q.Text()); !ok || f != q.Freq() || pos != q.Pos() {
			return fmt.Errorf("%s: Find(%q) gives %v %q %v", name, q.Text(), f, pos, ok)
		}
	}
	return nil
}

func runC31(c caseC31, r *Rec) error {
	lines := c.Lines
	if c.LongL > 0 {
		lines = append(append([][]Raw(nil), lines...), []Raw{"世人世", "7", Raw(strings.Repeat("n", c.LongL))}, []Raw{"人世人", "8", "v"})
	}
	txt := c.L.text(lines, "\n", c.Final)
	fresh := func() (*gse.Segmenter, error) {
		seg := c.L.seg(c.O)
		return seg, seg.LoadDictStr("")
	}

	seg, err := fresh()
	if err != nil {
		return err
	}
	given := txt
	var rd io.Reader = strings.NewReader(txt)
	if c.Fault >= 0 {
		given = txt[:len(txt)*c.Fault/1000]
		f := &faulty{s: given, with: c.With, err: faults[c.Err]}
		switch c.Then {
		case 1:
			f.then = strings.NewReader("")
		case 2:
			f.then = strings.NewReader(txt[len(given):])
		}
		r.LabelIf(c.Then > 0, "fault that passes")
		rd = f
	}
	how := c.Chunk
	if c.With && how == 3 {
		how = 0 // that reader expects data and errors apart
	}
	err = seg.Reader(bufio.NewReaderSize(chunked(rd, how), c.Buf), "name")
	want, err2 := fresh()
	if err2 != nil {
		return err2
	}
	whole := given
	if c.Fault >= 0 {
		if !errors.Is(err, faults[c.Err]) {
			return fmt.Errorf("the reader failed with %q after %q, the error is %v", faults[c.Err], given, err)
		}
		whole = given[:strings.LastIndex(given, "\n")+1]
		r.Hit("fault")
		r.LabelIf(whole != given, "fault inside a row")
	} else {
		if err != nil {
			return fmt.Errorf("reading %q: %v", given, err)
		}
		r.HitIf(c.Chunk > 0, "chunked")
	}
	m := newModel()
	rows := lines
	if c.Fault >= 0 {
		rows = lines[:strings.Count(whole, "\n")]
	}
	for _, cols := range rows {
		if w, f, p, ok := c.L.parse(cols); ok {
			m.add(w, f, p, c.O)
		}
	}
	want.LoadDictStr(whole)
	name := fmt.Sprintf("reading %.300q in pieces (%d), failing after %d bytes (%v)", txt, c.Chunk, len(given), c.Fault >= 0)
	seg.CalcToken()
	if err := sameDict(name, seg, want); err != nil {
		return err
	}
	if err := dictEquals(name, seg, m, nil); err != nil {
		return err
	}

	dir := filepath.Join(r.scratch, "c31")
	os.RemoveAll(dir)
	if len(c.Stops) > 0 {
		set := map[string]bool{}
		body := ""
		for _, w := range c.Stops {
			w := strings.NewReplacer("\n", "", "\r", "").Replace(string(w))
			body += w + "\n"
			if w != "" {
				set[w] = true
			}
		}
		if c.Long > 0 {
			l := strings.Repeat("世", c.Long/3) + strings.Repeat("x", c.Long%3)
			body = l + "\n" + body + l + "x"
			set[l], set[l+"x"] = true, true
			r.Hit("long stop word")
		}
		f := filepath.Join(dir, "stop.txt")
		writeFile(f, body)
		s := c.L.seg(c.O)
		if err := s.LoadStop(f); err != nil {
			return fmt.Errorf("LoadStop of lines of %d bytes: %v", c.Long, err)
		}
		if len(s.StopWordMap) != len(set) {
			return fmt.Errorf("LoadStop of lines of %d bytes: %d stop words, want %d", c.Long, len(s.StopWordMap), len(set))
		}
		for w := range set {
			if !s.IsStop(w) {
				return fmt.Errorf("LoadStop: %.100q (%d bytes) is no stop word", w, len(w))
			}
		}
	}
	if c.Dir != "" {
		d := filepath.Join(dir, "directory")
		if err := os.MkdirAll(d, 0o777); err != nil {
			hErr("%v", err)
		}
		f := filepath.Join(dir, "first.txt")
		first := "人口" + c.L.Sep + " 3" + c.L.Sep + " n\n"
		writeFile(f, first)
		s := c.L.seg(c.O)
		var err error
		switch c.Dir {
		case "dict":
			err = s.LoadDict(d)
		case "read":
			if err := s.LoadDictStr(""); err != nil {
				return err
			}
			err = s.Read(d)
		case "list":
			err = s.LoadDict(f + ", " + d)
			if _, _, ok := s.Find("人口"); !ok {
				return fmt.Errorf("LoadDict(%q, directory) has lost the words of the first file", first)
			}
		case "stop":
			err = s.LoadStop(d)
		case "stoplist":
			err = s.LoadStop(f + ", " + d)
			if !s.IsStop(strings.TrimSuffix(first, "\n")) {
				return fmt.Errorf("LoadStop of a list with a directory has lost the words of the first file")
			}
		}
		te := &idf.TagExtracter{}
		te.WithGse(*s)
		switch c.Dir {
		case "idf":
			err = te.LoadIdf(d)
		case "idflist":
			err = te.LoadIdf(f + ", " + d)
		case "idfstop":
			err = te.LoadStopWords(d)
		case "idfstoplist":
			err = te.LoadStopWords(f + ", " + d)
		}
		if err == nil {
			return fmt.Errorf("loading a directory (%s) gives no error", c.Dir)
		}
		r.Hit("directory")
	}
	return nil
}

func init() {
	reg(Prop{ID: "C31", Quick: 300000, Thorough: 9000000,
		Rule:   "random rows through readers that deliver in pieces or fail after a random number of bytes, stop files with long lines, directories in place of files; non-trivial: the reader failed or delivered in pieces, a stop word was very long, or a directory was given",
		Assume: []string{"columns as for C11"},
	}, genC31, runC31)
}
