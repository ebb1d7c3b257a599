package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Solver is one persistent z3 process.
type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	bin     string
	queries int
	dur     time.Duration
}

func newSolver(bin string) *Solver {
	s := &Solver{bin: bin}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2", "auto_config=false", "smt.mbqi=false")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<16)
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start solver:", err)
		os.Exit(3)
	}
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// run sends a script ending in (check-sat) and returns the answer. A hung solver is restarted.
var slow, _ = time.ParseDuration(os.Getenv("GOCV_SLOW"))

func (s *Solver) run(script string, timeout time.Duration) string {
	t0 := time.Now()
	ret := ""
	defer func() {
		d := time.Since(t0)
		s.dur += d
		s.queries++
		if slow > 0 && d > slow {
			if dd := os.Getenv("GOCV_DUMP"); dd != "" {
				os.WriteFile(fmt.Sprintf("%s/slow%d.smt2", dd, s.queries), []byte(script+"(check-sat)\n"), 0o644)
			}
			fmt.Fprintf(os.Stderr, "slow query: %.1fs (limit %.1fs) %s, %d bytes\n", d.Seconds(), float64(timeout.Seconds()-2)/4, ret, len(script))
		}
	}()
	type res struct{ line string }
	ch := make(chan res, 1)
	// The limit is on the solver's work, so that the answer does not depend on the machine's load;
	// the time is only a backstop.
	rlimit := int64(timeout.Seconds() * 1.5e6)
	timeout = timeout*4 + 2*time.Second
	full := fmt.Sprintf("(reset)\n(set-option :rlimit %d)\n(set-option :timeout %d)\n%s\n(check-sat)\n(get-info :reason-unknown)\n(echo \"done\")\n", rlimit, timeout.Milliseconds(), script)
	go io.WriteString(s.in, full)
	out := s.out
	go func() {
		ans := ""
		for {
			l, err := out.ReadString('\n')
			if err != nil {
				ch <- res{"died"}
				return
			}
			l = strings.TrimSpace(l)
			if l == "done" || l == `"done"` {
				ch <- res{ans}
				return
			}
			if strings.HasPrefix(l, "(:reason-unknown") {
				if ans == "unknown" && !strings.Contains(l, "resource") && !strings.Contains(l, "cancel") && !strings.Contains(l, "timeout") {
					ans = "saturated"
				}
				continue
			}
			if strings.HasPrefix(l, "(error") {
				if strings.Contains(l, "reason-unknown") || strings.Contains(l, "reason unknown") {
					continue
				}
				ch <- res{l}
				// drain until done
				for {
					l, err := out.ReadString('\n')
					if err != nil || strings.Contains(l, "done") {
						return
					}
				}
			}
			ans = l
		}
	}()
	select {
	case r := <-ch:
		ret = r.line
		if strings.HasPrefix(r.line, "(error") {
			if d := os.Getenv("GOCV_DUMP"); d != "" {
				os.WriteFile(filepath.Join(d, "error.smt2"), []byte(full), 0o644)
			}
			fmt.Fprintln(os.Stderr, "solver error:", r.line)
			s.close()
			s.start()
			return "error"
		}
		if r.line == "died" {
			s.close()
			s.start()
			return "unknown"
		}
		if r.line == "unknown" {
			// a cancelled query can spoil the next
			s.close()
			s.start()
		}
		return r.line
	case <-time.After(timeout + 5*time.Second):
		s.close()
		s.start()
		return "unknown"
	}
}

// query renders the assertions with everything they need.
type query struct {
	c       *Ctx
	names   map[int]string
	defs    strings.Builder
	decl    map[string]bool
	decls   strings.Builder
	axioms  map[string]string
	pend    []*Term // asserted facts to render
	seen    map[int]bool
	recs    []*Term
	strs    []*Term
	pendCat [][3]string
	abs     bool
	catAt   map[string]func()
	subSnoc map[string]func()
	lens    map[string]bool // ground terms whose length matters
	slens   map[string]bool
	nil2    bool
	slen0   bool
}

func smtSort(s Sort) string {
	switch s {
	case SStr, SSeq, SFlt:
		return "G" + string(s)
	}
	return string(s)
}

func q(n string) string { return "|" + n + "|" }

func (c *Ctx) script(asserts []*Term, fuel int) string {
	abs := fuel < 0
	if abs {
		fuel = -fuel
	}
	qy := &query{c: c, abs: abs, catAt: map[string]func(){}, subSnoc: map[string]func(){}, lens: map[string]bool{}, slens: map[string]bool{}, names: map[int]string{}, decl: map[string]bool{}, axioms: map[string]string{}, seen: map[int]bool{}}
	var all []*Term
	work := append([]*Term{}, asserts...)
	inAll := map[int]bool{}
	recSeen := map[int]bool{}
	add := func(ts []*Term) {
		for len(ts) > 0 {
			t := ts[len(ts)-1]
			ts = ts[:len(ts)-1]
			if inAll[t.id] {
				continue
			}
			inAll[t.id] = true
			all = append(all, t)
			ts = append(ts, qy.collect(t)...)
		}
	}
	add(work)
	// the types that are known
	tags := map[int]int64{}
	notTags := map[int]map[int64]bool{}
	known := map[int]*Term{}
	for _, t := range asserts {
		if t.op == "=" && t.args[0].sort == SInt {
			for i, a := range t.args {
				if b := t.args[1-i]; b.isInt() && !a.isInt() {
					known[a.id] = b
				}
			}
		}
	}
	norms := map[int]*Term{}
	var norm func(t *Term) *Term
	norm = func(t *Term) *Term {
		if len(known) == 0 || len(t.args) == 0 {
			return t
		}
		if k := known[t.id]; k != nil {
			return k
		}
		if n := norms[t.id]; n != nil {
			return n
		}
		var as []*Term
		same := true
		for _, a := range t.args {
			as = append(as, norm(a))
			same = same && as[len(as)-1] == a
		}
		n := t
		switch {
		case same:
		case t.op == "+":
			n = as[0]
			for _, a := range as[1:] {
				n = c.Add(n, a)
			}
		default:
			n = c.mk(t.op, t.sort, t.name, t.n, as...)
		}
		norms[t.id] = n
		return n
	}
	tagKey := func(t *Term) int { // t is the tag of a reference
		return norm(t.args[0]).id
	}
	// what is known: conjuncts, and disjuncts that are left when the others are known to be false
	var facts []*Term
	have := map[int]bool{}
	var learn func(t *Term)
	learn = func(t *Term) {
		if have[t.id] {
			return
		}
		have[t.id] = true
		if t.op == "and" {
			for _, a := range t.args {
				learn(a)
			}
			return
		}
		facts = append(facts, t)
	}
	for _, t := range asserts {
		learn(t)
	}
	for grew := true; grew; {
		grew = false
		for _, t := range facts {
			if t.op != "or" {
				continue
			}
			var left []*Term
			for _, a := range t.args {
				if !have[c.Not(a).id] {
					left = append(left, a)
				}
			}
			if len(left) == 1 && !have[left[0].id] {
				learn(left[0])
				grew = true
			}
		}
	}
	for _, t := range facts {
		if t.op == "or" && len(t.args) == 2 {
			// a type assertion failed
			if t.args[0].op == "=" && t.args[0].args[0].isInt() {
				t = t.args[1]
			} else if t.args[1].op == "=" && t.args[1].args[0].isInt() {
				t = t.args[0]
			}
		}
		if t.op == "not" && t.args[0].op == "=" {
			for i, a := range t.args[0].args {
				if b := t.args[0].args[1-i]; a.op == "uf" && a.name == "tag" && b.isInt() {
					if notTags[tagKey(a)] == nil {
						notTags[tagKey(a)] = map[int64]bool{}
					}
					notTags[tagKey(a)][b.i64()] = true
				}
			}
		}
		if t.op == "=" {
			for i, a := range t.args {
				if b := t.args[1-i]; a.op == "uf" && a.name == "tag" && b.isInt() {
					tags[tagKey(a)] = b.i64()
				}
			}
		}
	}
	for r := 0; r < fuel; r++ {
		var more []*Term
		recs := qy.recs
		qy.recs = nil
		for _, t := range recs {
			if recSeen[t.id] {
				continue
			}
			recSeen[t.id] = true
			if t.rec.subject != nil {
				k, known := tags[tagKey(t.rec.subject)]
				if known {
					if t.rec.defT[k] == nil {
						t.rec.defT[k] = t.rec.unfoldT(k)
					}
					more = append(more, t.rec.defT[k])
				} else if no := notTags[tagKey(t.rec.subject)]; no != nil {
					if !t.rec.doneN {
						t.rec.doneN = true
						t.rec.defN, t.rec.other = t.rec.unfoldN()
					}
					other := t.rec.defN != nil
					for _, k := range t.rec.other {
						other = other && no[k]
					}
					if other {
						more = append(more, t.rec.defN)
						continue
					}
				}
				if !known && t.rec.lemma != nil {
					if t.rec.lemmaT == nil {
						t.rec.lemmaT = t.rec.lemma()
					}
					more = append(more, t.rec.lemmaT)
				}
				continue
			}
			if !t.rec.done {
				t.rec.def = t.rec.unfold()
				t.rec.done = t.rec.def != nil
			}
			if t.rec.def != nil {
				more = append(more, t.rec.def)
			}
		}
		if len(more) == 0 {
			break
		}
		add(more)
	}
	var body strings.Builder
	for _, t := range all {
		body.WriteString("(assert " + qy.render(t) + ")\n")
	}
	qy.finish()
	var b strings.Builder
	b.WriteString("(declare-sort GStr 0)(declare-sort GSeq 0)(declare-sort GFlt 0)\n")
	b.WriteString(qy.decls.String())
	var ks []string
	for k := range qy.axioms {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	b.WriteString(qy.defs.String())
	for _, k := range ks {
		b.WriteString(qy.axioms[k] + "\n")
	}
	b.WriteString(body.String())
	return b.String()
}

// collect walks t once and returns the facts of the terms in it.
func (qy *query) collect(t *Term) []*Term {
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if qy.seen[t.id] {
			return
		}
		qy.seen[t.id] = true
		if !t.bound {
			out = append(out, t.facts...)
			if t.rec != nil {
				qy.recs = append(qy.recs, t)
			}
			if t.op == "str" {
				out = append(out, qy.c.strFacts(t)...)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return out
}

func (c *Ctx) strFacts(t *Term) []*Term {
	fs := []*Term{c.mk("=", SBool, "", nil, c.slenRaw(t), c.Int(int64(len(t.name))))}
	for i := 0; i < len(t.name) && i < 64; i++ {
		c.declare("sat", []Sort{SStr, SInt}, SInt)
		fs = append(fs, c.mk("=", SBool, "", nil, c.mk("uf", SInt, "sat", nil, t, c.Int(int64(i))), c.Int(int64(t.name[i]))))
	}
	if len(t.name) >= 2 {
		x := c.Str(t.name[:1])
		for i := 1; i < len(t.name); i++ {
			x = c.mk("scat", SStr, "", nil, x, c.Str(t.name[i:i+1]))
		}
		fs = append(fs, c.mk("=", SBool, "", nil, t, x))
	}
	if len(t.name) == 1 && t.name[0] < 128 {
		fs = append(fs, c.mk("=", SBool, "", nil, t, c.mk("chr", SStr, "", nil, c.Int(int64(t.name[0])))))
	}
	return fs
}

func (qy *query) declFun(name string, args []Sort, res Sort) {
	if qy.decl[name] {
		return
	}
	qy.decl[name] = true
	var as []string
	for _, a := range args {
		as = append(as, smtSort(a))
	}
	fmt.Fprintf(&qy.decls, "(declare-fun %s (%s) %s)\n", q(name), strings.Join(as, " "), smtSort(res))
}

func (qy *query) axiom(k, text string) { qy.axioms[k] = "(assert " + text + ")" }

func (qy *query) render(t *Term) string {
	if n, ok := qy.names[t.id]; ok {
		return n
	}
	if qy.abs && t.op == "ite" && t.sort == SInt && !t.bound {
		if lo, hi, n := tableRange(t); n >= 12 {
			nm := fmt.Sprintf("abs!%d", t.id)
			qy.declFun(nm, nil, SInt)
			qy.axiom(nm, fmt.Sprintf("(and (<= %s %s) (<= %s %s))", num(lo), q(nm), q(nm), num(hi)))
			qy.names[t.id] = q(nm)
			return q(nm)
		}
	}
	s := qy.render1(t)
	if len(t.args) > 0 && !t.bound && t.op != "forall" {
		n := fmt.Sprintf("t%d", t.id)
		fmt.Fprintf(&qy.defs, "(define-fun %s () %s %s)\n", n, smtSort(t.sort), s)
		qy.names[t.id] = n
		return n
	}
	if !t.bound {
		qy.names[t.id] = s
	}
	return s
}

func sortsOf(ts []*Term) []Sort {
	var out []Sort
	for _, t := range ts {
		out = append(out, t.sort)
	}
	return out
}

func leafSig(ts []*Term) string {
	var b strings.Builder
	for _, t := range ts {
		b.WriteString("_" + string(t.sort))
	}
	return b.String()
}

func (qy *query) render1(t *Term) string {
	var as []string
	if t.op != "forall" {
		for _, a := range t.args {
			as = append(as, qy.render(a))
		}
	}
	app := func(op string) string { return "(" + op + " " + strings.Join(as, " ") + ")" }
	switch t.op {
	case "int":
		if t.n.Sign() < 0 {
			return "(- " + strings.TrimPrefix(t.n.String(), "-") + ")"
		}
		return t.n.String()
	case "true", "false":
		return t.op
	case "sym":
		qy.declFun(t.name, nil, t.sort)
		return q(t.name)
	case "bvar":
		return q(t.name)
	case "str":
		n := fmt.Sprintf("str!%x", t.name)
		qy.declFun(n, nil, SStr)
		return q(n)
	case "not", "and", "or", "ite", "=", "+", "*", "div", "mod", "<=", ">=":
		return app(t.op)
	case "uf":
		qy.declFun(t.name, sortsOf(t.args), t.sort)
		qy.ufAxioms(t.name)
		if !t.bound {
			switch t.name {
			case "len":
				qy.lens[as[0]] = true
			case "slen":
				qy.slens[as[0]] = true
			}
		}
		return app(q(t.name))
	case "scat":
		qy.declFun("scat", []Sort{SStr, SStr}, SStr)
		qy.declFun("slen", []Sort{SStr}, SInt)
		qy.axiom("scat1", "(forall ((a GStr)(b GStr)(c GStr)) (! (= (|scat| a (|scat| b c)) (|scat| (|scat| a b) c)) :pattern ((|scat| a (|scat| b c)))))")
		qy.declFun("str!", nil, SStr)
		qy.axiom("scat2", "(forall ((a GStr)) (! (and (= (|scat| a |str!|) a)) :pattern ((|scat| a |str!|))))")
		qy.axiom("scat3", "(forall ((a GStr)) (! (and (= (|scat| |str!| a) a)) :pattern ((|scat| |str!| a))))")
		qy.axiom("scat4", "(forall ((a GStr)(b GStr)) (! (= (|slen| (|scat| a b)) (+ (|slen| a) (|slen| b))) :pattern ((|scat| a b))))")
		qy.slen0 = true
		return app("|scat|")
	case "chr":
		qy.declFun("chr", []Sort{SInt}, SStr)
		qy.declFun("chrinv", []Sort{SStr}, SInt)
		qy.axiom("chr", "(forall ((a Int)) (! (= (|chrinv| (|chr| a)) a) :pattern ((|chr| a))))")
		return app("|chr|")
	case "ssub":
		qy.declFun("ssub", []Sort{SStr, SInt, SInt}, SStr)
		qy.declFun("slen", []Sort{SStr}, SInt)
		qy.declFun("sat", []Sort{SStr, SInt}, SInt)
		qy.axiom("ssub1", "(forall ((a GStr)(i Int)(j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (|slen| a))) (= (|slen| (|ssub| a i j)) (- j i))) :pattern ((|ssub| a i j))))")
		qy.axiom("ssub2", "(forall ((a GStr)(i Int)(j Int)(k Int)) (! (=> (and (<= 0 k) (< k (- j i))) (= (|sat| (|ssub| a i j) k) (|sat| a (+ i k)))) :pattern ((|sat| (|ssub| a i j) k))))")
		return app("|ssub|")
	case "lit":
		qy.declFun("nil", nil, SSeq)
		qy.declFun("len", []Sort{SSeq}, SInt)
		qy.axiom("nil", "(= (|len| |nil|) 0)")
		qy.nil2 = true
		return "|nil|"
	case "snoc":
		sig := leafSig(t.args[1:])
		n := "snoc" + sig
		qy.declFun(n, sortsOf(t.args), SSeq)
		qy.declFun("len", []Sort{SSeq}, SInt)
		qs, vs := "", ""
		for i, a := range t.args[1:] {
			qs += fmt.Sprintf("(x%d %s)", i, smtSort(a.sort))
			vs += fmt.Sprintf(" x%d", i)
		}
		qy.axiom(n, fmt.Sprintf("(forall ((a GSeq)%s) (! (= (|len| (%s a%s)) (+ 1 (|len| a))) :pattern ((%s a%s))))", qs, q(n), vs, q(n), vs))
		ats := ""
		for k, a := range t.args[1:] {
			ats += fmt.Sprintf(" (= x%d (%s a i))", k, q(fmt.Sprintf("at%d%s", k, a.sort)))
		}
		qy.subSnoc[n] = func() {
			qy.axiom("sub"+n, fmt.Sprintf("(forall ((a GSeq)(i Int)%s) (! (=> (and (<= 0 i) (< i (|len| a))%s) (= (%s (|sub| a 0 i)%s) (ite (= (+ i 1) (|len| a)) a (|sub| a 0 (+ i 1))))) :pattern ((%s (|sub| a 0 i)%s))))", qs, ats, q(n), vs, q(n), vs))
		}
		for k, a := range t.args[1:] {
			at := fmt.Sprintf("at%d%s", k, a.sort)
			qy.declFun(at, []Sort{SSeq, SInt}, a.sort)
			qy.axiom(n+at, fmt.Sprintf("(forall ((a GSeq)%s(i Int)) (! (= (%s (%s a%s) i) (ite (= i (|len| a)) x%d (%s a i))) :pattern ((%s (%s a%s) i))))", qs, q(at), q(n), vs, k, q(at), q(at), q(n), vs))
		}
		if qy.axioms["cat1"] != "" {
			qy.catSnoc(n, qs, vs)
		} else {
			qy.pendCat = append(qy.pendCat, [3]string{n, qs, vs})
		}
		return app(q(n))
	case "cat":
		if qy.axioms["cat1"] == "" {
			qy.declFun("cat", []Sort{SSeq, SSeq}, SSeq)
			qy.declFun("len", []Sort{SSeq}, SInt)
			qy.declFun("nil", nil, SSeq)
			qy.axiom("nil", "(= (|len| |nil|) 0)")
			qy.axiom("cat1", "(forall ((a GSeq)(b GSeq)(c GSeq)) (! (= (|cat| a (|cat| b c)) (|cat| (|cat| a b) c)) :pattern ((|cat| a (|cat| b c)))))")
			qy.axiom("cat2", "(forall ((a GSeq)(b GSeq)) (! (= (|len| (|cat| a b)) (+ (|len| a) (|len| b))) :pattern ((|cat| a b))))")
			qy.axiom("cat3", "(forall ((a GSeq)) (! (= (|cat| a |nil|) a) :pattern ((|cat| a |nil|))))")
			qy.axiom("cat4", "(forall ((a GSeq)) (! (= (|cat| |nil| a) a) :pattern ((|cat| |nil| a))))")
			for _, p := range qy.pendCat {
				qy.catSnoc(p[0], p[1], p[2])
			}
			qy.pendCat = nil
		}
		return app("|cat|")
	case "sub":
		qy.declFun("sub", []Sort{SSeq, SInt, SInt}, SSeq)
		qy.declFun("len", []Sort{SSeq}, SInt)
		qy.axiom("sub", "(forall ((a GSeq)(i Int)(j Int)) (! (=> (and (<= 0 i) (<= i j)) (= (|len| (|sub| a i j)) (- j i))) :pattern ((|sub| a i j))))")
		for k := range qy.decl {
			if strings.HasPrefix(k, "at") && len(qy.c.decls[k].args) == 2 && qy.c.decls[k].args[0] == SSeq {
				qy.subAt(k)
			}
		}
		return app("|sub|")
	case "upd", "fill":
		n := t.op + leafSig(t.args)
		qy.declFun(n, sortsOf(t.args), SSeq)
		return app(q(n))
	case "bytes":
		qy.declFun("bytes", []Sort{SStr}, SSeq)
		return app("|bytes|")
	case "forall": // args: guard and body as one term; name: variables
		body := qy.render(t.args[0])
		return fmt.Sprintf("(forall ((%s Int)) %s)", q(t.name), body)
	}
	panic("render " + t.op)
}

// finish adds the axioms that depend on what else is in the query.
func (qy *query) finish() {
	seqs := qy.decl["cat"] || qy.decl["sub"] || qy.decl["bytes"]
	for k := range qy.decl {
		if strings.HasPrefix(k, "snoc") || strings.HasPrefix(k, "upd") || strings.HasPrefix(k, "fill") {
			seqs = true
		}
	}
	if qy.decl["cat"] {
		for _, f := range qy.catAt {
			f()
		}
	}
	if qy.decl["sub"] {
		for _, f := range qy.subSnoc {
			f()
		}
	}
	if qy.nil2 {
		if seqs {
			qy.axiom("nil2", "(forall ((a GSeq)) (! (and (>= (|len| a) 0) (= (= (|len| a) 0) (= a |nil|))) :pattern ((|len| a))))")
		} else {
			for a := range qy.lens {
				qy.axiom("nil2"+a, fmt.Sprintf("(and (>= (|len| %s) 0) (= (= (|len| %s) 0) (= %s |nil|)))", a, a, a))
			}
		}
	}
	if qy.slen0 {
		if qy.decl["scat"] || qy.decl["ssub"] {
			qy.axiom("slen0", "(forall ((a GStr)) (! (and (>= (|slen| a) 0) (= (= (|slen| a) 0) (= a |str!|))) :pattern ((|slen| a))))")
		} else {
			for a := range qy.slens {
				qy.axiom("slen0"+a, fmt.Sprintf("(and (>= (|slen| %s) 0) (= (= (|slen| %s) 0) (= %s |str!|)))", a, a, a))
			}
		}
	}
}

func (qy *query) catSnoc(n, qs, vs string) {
	qy.axiom("cat"+n, fmt.Sprintf("(forall ((a GSeq)(b GSeq)%s) (! (= (|cat| a (%s b%s)) (%s (|cat| a b)%s)) :pattern ((|cat| a (%s b%s)))))", qs, q(n), vs, q(n), vs, q(n), vs))
}

func (qy *query) ufAxioms(name string) {
	if strings.HasPrefix(name, "at") && qy.c.decls[name].args != nil && len(qy.c.decls[name].args) == 2 && qy.c.decls[name].args[0] == SSeq {
		n := q(name)
		qy.catAt[name] = func() {
			qy.declFun("len", []Sort{SSeq}, SInt)
			qy.axiom("cat"+name, fmt.Sprintf("(forall ((a GSeq)(b GSeq)(i Int)) (! (= (%s (|cat| a b) i) (ite (< i (|len| a)) (%s a i) (%s b (- i (|len| a))))) :pattern ((%s (|cat| a b) i))))", n, n, n, n))
		}
		if qy.decl["sub"] {
			qy.subAt(name)
		}
	}
	switch name {
	case "slen":
		qy.declFun("str!", nil, SStr)
		qy.slen0 = true
	case "len":
		qy.declFun("nil", nil, SSeq)
		qy.axiom("nil", "(= (|len| |nil|) 0)")
		qy.nil2 = true
	}
}

func (qy *query) subAt(name string) {
	n := q(name)
	qy.axiom("sub"+name, fmt.Sprintf("(forall ((a GSeq)(i Int)(j Int)(k Int)) (! (=> (and (<= 0 k) (< k (- j i))) (= (%s (|sub| a i j) k) (%s a (+ i k)))) :pattern ((%s (|sub| a i j) k))))", n, n, n))
}

// tableRange gives the bounds and the number of leaves of a nest of ites over constants.
func tableRange(t *Term) (lo, hi int64, n int) {
	if t.isInt() {
		return t.i64(), t.i64(), 1
	}
	if t.op != "ite" {
		return 0, 0, -1 << 20
	}
	l1, h1, n1 := tableRange(t.args[1])
	l2, h2, n2 := tableRange(t.args[2])
	if l2 < l1 {
		l1 = l2
	}
	if h2 > h1 {
		h1 = h2
	}
	return l1, h1, n1 + n2
}

func num(n int64) string {
	if n < 0 {
		return fmt.Sprintf("(- %d)", -n)
	}
	return fmt.Sprint(n)
}
