package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Result is the verdict on one function or lemma.
type Result struct {
	Name     string   `json:"name"`
	Kind     string   `json:"kind"` // function, lemma, trusted
	Obls     []*Obl   `json:"obligations"`
	Error    string   `json:"error,omitempty"`
	Notes    []string `json:"notes,omitempty"`
	Secs     float64  `json:"secs"`
	Queries  int      `json:"queries"`
	Solver   float64  `json:"solver_secs"`
	Used     []string `json:"relies_on,omitempty"`
	Inlined  []string `json:"inlined,omitempty"`
	Trusted  string   `json:"trusted,omitempty"`
	Paths    int      `json:"paths"`
	PropTags []string `json:"-"`
}

func (r *Result) failed() []*Obl {
	var out []*Obl
	for _, o := range r.Obls {
		if o.Status != "proved" {
			out = append(out, o)
		}
	}
	return out
}

func main() {
	repo := flag.String("repo", "/repo", "")
	dir := flag.String("contracts", "/verif/contracts", "")
	only := flag.String("only", "", "regular expression of names to verify")
	verbose := flag.Bool("v", false, "")
	debug := flag.Bool("debug", false, "")
	budget := flag.Int("budget", 120, "seconds per function")
	total := flag.Int("total", 3600, "seconds in all")
	jobs := flag.Int("j", runtime.NumCPU(), "")
	jsonOut := flag.String("json", "", "write results here")
	flag.Parse()
	t0 := time.Now()
	p, err := load(*repo, *dir, []string{"./..."})
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load:", err)
		os.Exit(2)
	}
	if *verbose {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", time.Since(t0).Seconds())
	}
	re := regexp.MustCompile(*only)
	p.end = t0.Add(time.Duration(*total) * time.Second)
	results := p.verify(func(n string) bool { return re.MatchString(n) }, *jobs, time.Duration(*budget)*time.Second, *debug)
	bad := 0
	for _, r := range results {
		f := r.failed()
		ok := "ok"
		if len(f) > 0 || r.Error != "" {
			ok = "FAIL"
			bad++
		}
		fmt.Printf("%-4s %-50s %3d obligations, %d paths, %d queries, %.1fs %s\n", ok, r.Name, len(r.Obls), r.Paths, r.Queries, r.Secs, r.Error)
		for _, o := range f {
			fmt.Printf("     failed: %s at %s\n", o.Name, o.Pos)
			if *verbose {
				fmt.Println("       " + strings.ReplaceAll(o.Detail, "\n", "\n       "))
			}
		}
		if *verbose {
			for _, n := range r.Notes {
				fmt.Println("     note:", n)
			}
		}
	}
	if *jsonOut != "" {
		writeJSON(*jsonOut, results)
	}
	if bad > 0 {
		os.Exit(1)
	}
}

// verify checks every contract and lemma that want selects.
func (p *Program) verify(want func(string) bool, jobs int, budget time.Duration, debug bool) []*Result {
	type job struct {
		name  string
		fn    *ssa.Function
		cfn   *ssa.Function
		lemma bool
	}
	var js []job
	for k, cfn := range p.contracts {
		n := shortKey(k)
		if want(n) {
			js = append(js, job{n, p.lookup(k), cfn, false})
		}
	}
	for _, l := range p.lemmas {
		n := shortKey(key(l))
		if want(n) {
			js = append(js, job{n, l, nil, true})
		}
	}
	// the largest functions first: they take the longest
	size := func(f *ssa.Function) int {
		n := 0
		if f != nil {
			for _, b := range f.Blocks {
				n += len(b.Instrs)
			}
		}
		return n
	}
	sort.Slice(js, func(i, j int) bool {
		if a, b := size(js[i].fn), size(js[j].fn); a != b {
			return a > b
		}
		return js[i].name < js[j].name
	})
	out := make([]*Result, len(js))
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < jobs; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				out[i] = p.verifyOne(js[i].name, js[i].fn, js[i].cfn, js[i].lemma, budget, debug)
			}
		}()
	}
	for i := range js {
		ch <- i
	}
	close(ch)
	wg.Wait()
	sort.SliceStable(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	var names []string
	for n := range p.dropped {
		if want(n) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		out = append(out, &Result{Name: n, Kind: "function", Error: "the contract does not fit the code: " + p.dropped[n]})
	}
	return out
}

func (p *Program) verifyOne(name string, fn, cfn *ssa.Function, lemma bool, budget time.Duration, debug bool) *Result {
	r := &Result{Name: name, Kind: "function"}
	t0 := time.Now()
	if left := p.end.Sub(t0); left < budget {
		budget = left
	}
	sol := newSolver("z3-new")
	defer sol.close()
	x := newExec(p, sol)
	x.debug = debug
	var err error
	switch {
	case lemma:
		r.Kind = "lemma"
		x.deadline = t0.Add(budget)
		err = x.verifyLemma(fn)
		if x.ct != nil && x.ct.trusted != "" {
			r.Kind = "trusted"
			r.Trusted = x.ct.trusted
		}
	case fn == nil:
		if isInterfaceContract(p, name) {
			r.Kind = "trusted"
			r.Trusted = "contract of an interface method"
		} else {
			err = fmt.Errorf("no such function in the repository")
		}
	default:
		err = x.verifyFn(fn, cfn, budget)
		if x.ct != nil && x.ct.trusted != "" {
			r.Kind = "trusted"
			r.Trusted = x.ct.trusted
		}
	}
	if err != nil {
		r.Error = err.Error()
	}
	r.Obls = x.obls
	r.Notes = x.notes
	r.Secs = time.Since(t0).Seconds()
	r.Queries = sol.queries
	r.Solver = sol.dur.Seconds()
	r.Paths = x.paths
	for k := range x.used {
		r.Used = append(r.Used, k)
	}
	for k := range x.inlined {
		r.Inlined = append(r.Inlined, k)
	}
	sort.Strings(r.Used)
	sort.Strings(r.Inlined)
	return r
}

func isInterfaceContract(p *Program, name string) bool {
	for k := range p.contracts {
		if shortKey(k) != name {
			continue
		}
		i := strings.LastIndex(k, ".")
		pk := p.pkgs[k[:i]]
		n := k[i+1:]
		if j := strings.Index(n, "_"); j > 0 && pk != nil {
			if t := pk.Type(n[:j]); t != nil {
				return isIface(t)
			}
		}
	}
	return false
}
