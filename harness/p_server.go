package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/go-ego/gse"
	"pgregory.net/rapid"
)

// RStep is one request to the server.
type RStep struct {
	K string // get | post | add
	T Raw
	F float64 `json:",omitempty"`
	P Raw     `json:",omitempty"`
}

type caseServer struct {
	Rows []Row
	HMM  bool
	Big  int `json:",omitempty"` // so many further words, which no text has: an /add takes noticeable time then
	Seq  []RStep
	Conc [][]RStep `json:",omitempty"`
	Tail []RStep   // after the concurrent part
}

func genC26(t *rapid.T) caseServer {
	a := genAlphabet(t, true)
	a.extra = cat(a.extra, uSymbol)
	c := caseServer{HMM: chance(t, "hmm", 30)}
	for _, x := range genRows(t, a, 1, 8) {
		if plainWord(x.W) {
			if x.P == "" {
				x.P = "n"
			}
			c.Rows = append(c.Rows, x)
		}
	}
	c.Rows = append(c.Rows, Row{"人口", 5, "n"})
	ws := append(rowWords(c.Rows), "世界", "你好世界")
	texts := append(genTexts(t, a, ws, 4, 8), "", "人口大学 ab, 12 世界")
	if chance(t, "long", 5) {
		// texts longer than buffers, and answers of many segments
		x := string(genText(t, a, ws, 5)) + rapid.SampledFrom(ws).Draw(t, "of")
		n := rapid.SampledFrom([]int{1000, 4096, 4200, 9000, 33000, 66000}).Draw(t, "bytes")
		texts = append(texts, Raw(strings.Repeat(x, n/len(x)+1)))
		texts = append(texts, texts[len(texts)-1])
	}
	if chance(t, "big", 25) {
		c.Big = 3000
	}
	ask := func() RStep {
		return RStep{K: rapid.SampledFrom([]string{"get", "post"}).Draw(t, "method"), T: rapid.SampledFrom(texts).Draw(t, "text")}
	}
	for i, n := 0, rapid.IntRange(1, 8).Draw(t, "steps"); i < n; i++ {
		if chance(t, "add", 35) {
			w := genWord(t, a, ws)
			if chance(t, "emptyword", 5) {
				w = ""
			}
			if chance(t, "again", 15) {
				w = rapid.SampledFrom(ws).Draw(t, "known")
			}
			ws = append(ws, w)
			c.Seq = append(c.Seq, RStep{"add", Raw(w), genFreq(t), genPos(t)})
			texts = append(texts, Raw(w), texts[0]+Raw(w))
			if chance(t, "asknow", 50) {
				c.Seq = append(c.Seq, RStep{K: "get", T: Raw(w)})
			}
			continue
		}
		c.Seq = append(c.Seq, ask())
	}
	if chance(t, "concurrent", 70) {
		adds := rapid.IntRange(0, 4).Draw(t, "adds")
		var fresh []RStep
		seen := map[string]bool{}
		for _, w := range ws {
			seen[normText(w, Opts{})] = true
		}
		for i := 0; i < adds; i++ {
			w := genWord(t, a, ws)
			if k := normText(w, Opts{}); !seen[k] && strings.IndexByte(k, 0) < 0 && k != "" {
				seen[k] = true
				fresh = append(fresh, RStep{"add", Raw(w), float64(rapid.IntRange(2, 1000).Draw(t, "f")), genPos(t)})
				texts = append(texts, Raw(w))
			}
		}
		n := rapid.IntRange(2, 6).Draw(t, "clients")
		for i := 0; i < n; i++ {
			var l []RStep
			for k, m := 0, rapid.IntRange(1, 6).Draw(t, "requests"); k < m; k++ {
				l = append(l, ask())
			}
			c.Conc = append(c.Conc, l)
		}
		for _, x := range fresh {
			i := rapid.IntRange(0, n-1).Draw(t, "client")
			k := rapid.IntRange(0, len(c.Conc[i])).Draw(t, "where")
			c.Conc[i] = append(c.Conc[i][:k:k], append([]RStep{x}, c.Conc[i][k:]...)...)
		}
	}
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "tail"); i < n; i++ {
		c.Tail = append(c.Tail, ask())
	}
	return c
}

type server struct {
	cmd    *exec.Cmd
	base   string
	stderr string
	done   chan struct{}
	client *http.Client
}

var serverNo int

// startServer starts the server binary and waits until it answers for itself.
func startServer(dir, dict string, hmm bool) (*server, error) {
	bin := os.Getenv("PBT_SERVER")
	if bin == "" {
		hErr("PBT_SERVER is not set: run this check by check.sh or replay.sh")
	}
	last := ""
	for try := 0; try < 6; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			hErr("%v", err)
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		serverNo++
		static := filepath.Join(dir, "static")
		id := fmt.Sprintf("%d-%d-%d", os.Getpid(), serverNo, time.Now().UnixNano())
		writeFile(filepath.Join(static, "id.txt"), id)
		errFile := filepath.Join(dir, "server.err")
		ef, err := os.Create(errFile)
		if err != nil {
			hErr("%v", err)
		}
		s := &server{stderr: errFile, done: make(chan struct{}), base: fmt.Sprintf("http://127.0.0.1:%d", port),
			client: &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 16}}}
		s.cmd = exec.Command(bin, "-host", "127.0.0.1", "-port", fmt.Sprint(port), "-dict", dict, fmt.Sprintf("-hmm=%v", hmm), "-static_folder", static)
		s.cmd.Stdout, s.cmd.Stderr = ef, ef
		s.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=4")
		if err := s.cmd.Start(); err != nil {
			hErr("%v", err)
		}
		ef.Close()
		go func() { s.cmd.Wait(); close(s.done) }()
		until := time.Now().Add(30 * time.Second)
		for time.Now().Before(until) {
			if r, err := s.client.Get(s.base + "/id.txt"); err == nil {
				b, _ := io.ReadAll(r.Body)
				r.Body.Close()
				if string(b) == id {
					return s, nil
				}
			}
			if s.dead() {
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		last = s.errText()
		s.stop()
	}
	return nil, fmt.Errorf("the server does not come up: %s", last)
}

func (s *server) dead() bool {
	select {
	case <-s.done:
		return true
	default:
		return false
	}
}

func (s *server) errText() string {
	b, _ := os.ReadFile(s.stderr)
	return head(string(b), 2500)
}

func (s *server) stop() {
	s.client.CloseIdleConnections()
	s.cmd.Process.Kill()
	<-s.done
}

func (s *server) trouble(what string, err error) error {
	time.Sleep(200 * time.Millisecond) // let the server finish its report
	state := "the server is still running"
	if s.dead() {
		state = "the server has ended"
	}
	return fmt.Errorf("%s: %v; %s: %s", what, err, state, s.errText())
}

// send sends one request and returns the answer's body.
func (s *server) send(x RStep) (string, error) {
	var r *http.Response
	var err error
	switch x.K {
	case "get":
		r, err = s.client.Get(s.base + "/json?text=" + url.QueryEscape(string(x.T)))
	case "post":
		r, err = s.client.PostForm(s.base+"/json", url.Values{"text": {string(x.T)}})
	case "add":
		r, err = s.client.Get(s.base + "/add?" + url.Values{"text": {string(x.T)}, "freq": {fmtFreq(x.F)}, "pos": {string(x.P)}}.Encode())
	default:
		hErr("unknown request %q", x.K)
	}
	if err != nil {
		var ue *url.Error
		if errors.As(err, &ue) {
			err = ue.Err
		}
		return "", s.trouble(fmt.Sprintf("%s %q", x.K, string(x.T)), err)
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return "", s.trouble(fmt.Sprintf("%s %q", x.K, string(x.T)), err)
	}
	if r.StatusCode != 200 || !strings.HasPrefix(r.Header.Get("Content-Type"), "application/json") {
		return "", fmt.Errorf("%s %q: status %d, type %q", x.K, string(x.T), r.StatusCode, r.Header.Get("Content-Type"))
	}
	return string(b), nil
}

func okAdd(body string) error {
	var v struct {
		Code int
		Text string
	}
	if err := json.Unmarshal([]byte(body), &v); err != nil || v.Code != 200 || v.Text != "ok" || !hasKeys(body, "code", "text") {
		return fmt.Errorf("/add answered %q", body)
	}
	return nil
}

// hasKeys says whether a JSON object has the keys exactly as documented: the
// decoder of Go takes them in any case, other clients do not.
func hasKeys(obj string, keys ...string) bool {
	var m map[string]json.RawMessage
	if json.Unmarshal([]byte(obj), &m) != nil {
		return false
	}
	for _, k := range keys {
		if _, ok := m[k]; !ok {
			return false
		}
	}
	return true
}

func asJSON(s string) string {
	b, _ := json.Marshal(s)
	json.Unmarshal(b, &s)
	return s
}

// canon reads an answer of /json.
func canon(body string, hmm bool) (string, error) {
	if hmm {
		var v struct{ Seg []string }
		if err := json.Unmarshal([]byte(body), &v); err != nil || !hasKeys(body, "Seg") {
			return "", fmt.Errorf("/json answered %q: %v", body, err)
		}
		return fmt.Sprintf("%q", v.Seg), nil
	}
	var v struct {
		Segments *[]json.RawMessage
		Err      any
	}
	if err := json.Unmarshal([]byte(body), &v); err != nil || v.Segments == nil || v.Err != nil || !hasKeys(body, "segments") {
		return "", fmt.Errorf("/json answered %q: %v", body, err)
	}
	s := ""
	for _, raw := range *v.Segments {
		var x struct{ Text, Pos *string }
		if json.Unmarshal(raw, &x) != nil || x.Text == nil || x.Pos == nil || !hasKeys(string(raw), "text", "pos") {
			return "", fmt.Errorf("/json answered %q", body)
		}
		s += fmt.Sprintf("%q %q; ", *x.Text, *x.Pos)
	}
	return s, nil
}

// expect is what the library says.
func expect(seg *gse.Segmenter, text string, hmm bool) string {
	if hmm {
		var l []string
		for _, x := range seg.Cut(text, true) {
			l = append(l, asJSON(x))
		}
		return fmt.Sprintf("%q", l)
	}
	s := ""
	for _, x := range seg.Segment([]byte(text)) {
		s += fmt.Sprintf("%q %q; ", asJSON(x.Token().Text()), asJSON(x.Token().Pos()))
	}
	return s
}

func runC26(c caseServer, r *Rec) error {
	dict := filepath.Join(r.scratch, "server-dict.txt")
	text := ""
	for _, x := range c.Rows {
		text += fmt.Sprintf("%s %s %s\n", string(x.W), fmtFreq(x.F), string(x.P))
	}
	rows := text
	for i := 0; i < c.Big; i++ {
		rows += fmt.Sprintf("%c%c 2 x\n", 0xAC00+i/100, 0xAD00+i%100)
	}
	writeFile(dict, rows)
	r.LabelIf(c.Big > 0, "big dictionary")
	var adds []RStep // in effect
	lib := func(more ...RStep) (*gse.Segmenter, error) {
		seg := &gse.Segmenter{SkipLog: true, NotLoadHMM: true}
		if err := seg.LoadDict(dict); err != nil {
			return nil, err
		}
		for _, x := range append(append([]RStep(nil), adds...), more...) {
			seg.AddTokenForce(string(x.T), x.F, string(x.P))
		}
		return seg, nil
	}
	seg, err := lib()
	if err != nil {
		return err
	}
	s, err := startServer(r.scratch, dict, c.HMM)
	if err != nil {
		return err
	}
	defer s.stop()
	one := func(x RStep) error {
		body, err := s.send(x)
		if err != nil {
			return err
		}
		if x.K == "add" {
			adds = append(adds, x)
			seg.AddTokenForce(string(x.T), x.F, string(x.P))
			r.Label("add")
			return okAdd(body)
		}
		got, err := canon(body, c.HMM)
		if err != nil {
			return err
		}
		if want := expect(seg, string(x.T), c.HMM); got != want {
			return fmt.Errorf("%s %q answers %s, the library %s; the dictionary has %q, added %v", x.K, string(x.T), got, want, text, adds)
		}
		return nil
	}
	for _, x := range c.Seq {
		if err := one(x); err != nil {
			return err
		}
		r.HitIf(x.K != "add" && x.T != "", "asked")
	}

	if len(c.Conc) > 0 {
		type sent struct {
			x        RStep
			from, to time.Time
			got      string
			err      error
		}
		logs := make([][]sent, len(c.Conc))
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := range c.Conc {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				for _, x := range c.Conc[i] {
					e := sent{x: x, from: time.Now()}
					e.got, e.err = s.send(x)
					e.to = time.Now()
					logs[i] = append(logs[i], e)
					if e.err != nil {
						return
					}
				}
			}(i)
		}
		close(start)
		wg.Wait()
		var cadds []sent
		for _, l := range logs {
			for _, e := range l {
				if e.err != nil {
					return e.err
				}
				if e.x.K == "add" {
					if err := okAdd(e.got); err != nil {
						return err
					}
					cadds = append(cadds, e)
				}
			}
		}
		libs := map[int]*gse.Segmenter{}
		for _, l := range logs {
			for _, e := range l {
				if e.x.K == "add" {
					continue
				}
				got, err := canon(e.got, c.HMM)
				if err != nil {
					return err
				}
				good := false
				var wants []string
				for set := 0; set < 1<<len(cadds) && !good; set++ {
					fits := true
					for k, ad := range cadds {
						in := set>>k&1 == 1
						if !in && ad.to.Before(e.from) || in && ad.from.After(e.to) {
							fits = false
						}
					}
					if !fits {
						continue
					}
					if libs[set] == nil {
						var more []RStep
						for k, ad := range cadds {
							if set>>k&1 == 1 {
								more = append(more, ad.x)
							}
						}
						if libs[set], err = lib(more...); err != nil {
							return err
						}
					}
					w := expect(libs[set], string(e.x.T), c.HMM)
					wants = append(wants, w)
					good = got == w
				}
				if !good {
					return fmt.Errorf("among concurrent requests, %s %q answers %s; the library could answer %q", e.x.K, string(e.x.T), got, wants)
				}
			}
		}
		for _, ad := range cadds {
			adds = append(adds, ad.x)
			seg.AddTokenForce(string(ad.x.T), ad.x.F, string(ad.x.P))
		}
		r.Hit("concurrent")
		r.LabelIf(len(cadds) > 0, "concurrent add")
	}
	for _, x := range c.Tail {
		if err := one(x); err != nil {
			return err
		}
	}
	if s.dead() {
		return s.trouble("at the end", errors.New("no server"))
	}
	r.LabelIf(c.HMM, "hmm")
	return nil
}

func init() {
	reg(Prop{ID: "C26", Quick: 480, Thorough: 23000, Workers: 4,
		Rule:   "the server answered for a text that is not empty, or concurrent requests",
		Assume: []string{"the server runs on the loopback network, built with the race detector; interleavings are those the scheduler produces"}}, genC26, runC26)
}
