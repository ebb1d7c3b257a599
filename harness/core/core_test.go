// Package zzverif holds the bounded checks. It is compiled into the module through an overlay
// and only uses what other packages of the module can see.
package zzverif

import (
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/stephen/cssc"
	"github.com/stephen/cssc/internal/ast"
	"github.com/stephen/cssc/internal/sources"
	"github.com/stephen/cssc/transforms"
)

type failure struct {
	What   string `json:"what"`
	Input  string `json:"input"`
	Detail string `json:"detail"`
}

// H collects what a check did.
type H struct {
	ID          string
	rng         *rand.Rand
	deadline    time.Time
	thorough    bool
	dir         string
	out         string
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"distinct_nontrivial"`
	Rule        string         `json:"rule"`
	Samples     []string       `json:"samples"`
	Failures    []failure      `json:"failures"`
	Known       []string       `json:"known"`
	Counts      map[string]int `json:"counts"`
	seen        map[[20]byte]bool
	cur         string
	beat        int64
	nfile       int
}

var checks = map[string]func(*H){}

func TestVerif(t *testing.T) {
	id := os.Getenv("VERIF_ID")
	if id == "" {
		t.Skip("not a check")
	}
	f := checks[id]
	if f == nil {
		t.Fatalf("no such check: %s", id)
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	secs, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	if secs == 0 {
		secs = 15
	}
	h := &H{
		ID: id, rng: rand.New(rand.NewSource(seed)), deadline: time.Now().Add(time.Duration(secs) * time.Second),
		thorough: os.Getenv("VERIF_TIER") == "thorough", out: os.Getenv("VERIF_OUT"), seen: map[[20]byte]bool{}, Counts: map[string]int{},
	}
	dir, err := os.MkdirTemp("", "zzverif")
	if err != nil {
		t.Fatal(err)
	}
	h.dir, _ = filepath.EvalSymlinks(dir)
	defer os.RemoveAll(h.dir)
	h.save() // so that a crash leaves something
	tick := make(chan int)
	go h.watch(tick)
	f(h)
	close(tick)
	h.save()
}

// watch ends the process when a single case takes too long.
func (h *H) watch(stop chan int) {
	last, since := int64(-1), time.Now()
	for {
		select {
		case <-stop:
			return
		case <-time.After(200 * time.Millisecond):
			if n := atomic.LoadInt64(&h.beat); n != last {
				last, since = n, time.Now()
			} else if time.Since(since) > 20*time.Second && n > 0 {
				h.Failures = append(h.Failures, failure{"does not terminate", h.cur, "no result within 20 s"})
				h.save()
				os.Exit(3)
			}
		}
	}
}

func (h *H) save() {
	if h.out == "" {
		return
	}
	b, _ := json.MarshalIndent(h, "", " ")
	os.WriteFile(h.out, b, 0o644)
}

// more holds until the time is used up or enough has failed.
func (h *H) more() bool {
	return time.Now().Before(h.deadline) && len(h.Failures) < 5
}

func (h *H) fail(what, input, format string, args ...interface{}) {
	if len(h.Failures) >= 20 {
		return
	}
	d := fmt.Sprintf(format, args...)
	if len(d) > 4000 {
		d = d[:4000]
	}
	h.Failures = append(h.Failures, failure{what, input, d})
	h.save()
}

func (h *H) known(what string) {
	for _, k := range h.Known {
		if k == what {
			return
		}
	}
	h.Known = append(h.Known, what)
}

// begin counts a case; it is recorded before it runs, so that a crash can be traced to it.
func (h *H) begin(input string) {
	h.Evaluations++
	atomic.AddInt64(&h.beat, 1)
	h.cur = input
	if h.out != "" {
		os.WriteFile(h.out+".cur", []byte(input), 0o644)
	}
}

// nontrivial counts a case that did what the rule asks for, once for each input.
func (h *H) nontrivial(input string) {
	k := sha1.Sum([]byte(input))
	if h.seen[k] {
		return
	}
	if len(h.seen) < 3000000 {
		h.seen[k] = true
	}
	h.Nontrivial++
	if len(h.Samples) < 6 || (len(h.Samples) < 12 && h.rng.Intn(2000) == 0) {
		if len(input) > 600 {
			input = input[:600] + "..."
		}
		h.Samples = append(h.Samples, input)
	}
}

func (h *H) pick(n int) bool { return h.rng.Intn(n) == 0 }

func (h *H) one(xs ...string) string { return xs[h.rng.Intn(len(xs))] }

type located interface {
	Location() (*sources.Source, ast.Span)
}

type reports struct{ errs []error }

func (r *reports) AddError(err error) { r.errs = append(r.errs, err) }

func (r *reports) texts() []string {
	var out []string
	for _, e := range r.errs {
		out = append(out, e.Error())
	}
	return out
}

// compiled is the result of compiling one text.
type compiled struct {
	out  string // without the source map
	smap string // the source map comment
	ok   bool   // there is an output
	errs []error
	path string
}

func (c *compiled) texts() []string {
	var out []string
	for _, e := range c.errs {
		out = append(out, e.Error())
	}
	return out
}

const mapMark = "\n/*# sourceMappingURL=data:application/json;base64,"

func splitMap(out string) (string, string) {
	if i := strings.LastIndex(out, mapMark); i >= 0 {
		return out[:i], out[i:]
	}
	return out, ""
}

// compile compiles one text.
func (h *H) compile(text string, opts transforms.Options) *compiled {
	path := filepath.Join(h.dir, "in.css")
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		panic(err)
	}
	var r reports
	res := cssc.Compile(cssc.Options{Entry: []string{path}, Reporter: &r, Transforms: opts})
	c := &compiled{errs: r.errs, path: path}
	if out, ok := res.Files[path]; ok {
		c.ok = true
		c.out, c.smap = splitMap(out)
	}
	if len(res.Files) > 1 || len(res.Files) == 1 && !c.ok {
		h.fail("output under another path", text, "%v", keys(res.Files))
	}
	return c
}

func keys(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// guarded runs f and gives what it panicked with.
func guarded(f func()) (p interface{}, stack string) {
	defer func() {
		if r := recover(); r != nil {
			p = r
			stack = string(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

func q(s string) string { return strconv.Quote(s) }

func lines(s string) string {
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}
