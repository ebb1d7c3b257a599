package zzverif

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/stephen/cssc"
	"github.com/stephen/cssc/internal/sources"
	"github.com/stephen/cssc/resolver"
	"github.com/stephen/cssc/transforms"
)

// world is a set of stylesheets that import each other.
type world struct {
	dir   string
	names []string
	files map[string]*wfile
}

type witem struct {
	text   string // anything but an import
	spec   string // the specifier of an import
	target string // the path of what it resolves to, or ""
	cond   string
}

type wfile struct {
	path    string
	items   []witem
	broken  bool // cannot be parsed
	missing bool
}

func (f *wfile) text() string {
	s := ""
	for _, it := range f.items {
		if it.spec != "" {
			s += "@import " + it.spec + it.cond + ";\n"
		} else {
			s += it.text + "\n"
		}
	}
	if f.broken {
		s += "a{b:c"
	}
	return s
}

func (h *H) world(maxFiles int) *world {
	h.nfile++
	w := &world{dir: filepath.Join(h.dir, fmt.Sprintf("w%d", h.nfile)), files: map[string]*wfile{}}
	n := 1 + h.rng.Intn(maxFiles)
	dirs := []string{".", "sub", "sub/deep"}
	for i := 0; i < n; i++ {
		p := filepath.Join(w.dir, dirs[h.rng.Intn(len(dirs))], fmt.Sprintf("f%d.css", i))
		w.names = append(w.names, p)
		w.files[p] = &wfile{path: p, broken: h.pick(10), missing: i > 0 && h.pick(12)}
	}
	k := 0
	for _, p := range w.names {
		f := w.files[p]
		for i := h.rng.Intn(5); i > 0; i-- {
			k++
			if h.pick(2) {
				f.items = append(f.items, witem{text: fmt.Sprintf(h.one(".r%d{a:b}", "@media screen{.r%d{c:d}}", "@font-face{e:f%d}", ".r%d{a:url(x.png)}"), k)})
				continue
			}
			t := w.names[h.rng.Intn(len(w.names))]
			rel, _ := filepath.Rel(filepath.Dir(p), t)
			if !strings.HasPrefix(rel, "../") {
				rel = "./" + rel
			}
			if h.pick(4) {
				rel = strings.TrimSuffix(rel, ".css")
			}
			if h.pick(15) {
				rel, t = h.one("./nothing", "nowhere", "../../../../../../../../../../nowhere-at-all"), ""
			}
			if t != "" && w.files[t].missing {
				t = ""
			}
			it := witem{spec: h.one("'"+rel+"'", "\""+rel+"\"", "url("+rel+")", "url('"+rel+"')"), target: t}
			if h.pick(5) {
				it.cond = h.one(" screen", " (min-width:1px)", " print,screen")
			}
			f.items = append(f.items, it)
		}
	}
	for _, p := range w.names {
		f := w.files[p]
		os.MkdirAll(filepath.Dir(p), 0o755)
		if !f.missing {
			os.WriteFile(p, []byte(f.text()), 0o644)
		}
	}
	return w
}

func (w *world) remove() { os.RemoveAll(w.dir) }

func (w *world) String() string {
	s := ""
	for _, p := range w.names {
		rel, _ := filepath.Rel(w.dir, p)
		if w.files[p].missing {
			s += "== " + rel + " (missing)\n"
		} else {
			s += "== " + rel + "\n" + w.files[p].text() + "\n"
		}
	}
	return s
}

// inline is the text of a file with its imports replaced. warned counts conditions that are ignored.
func (w *world) inline(p string, parents []string, warned, n *int) string {
	s := ""
	*n++
	if *n > 400 {
		return "too big"
	}
	parents = append(parents[:len(parents):len(parents)], p)
	for _, it := range w.files[p].items {
		if it.spec == "" {
			s += it.text + "\n"
			continue
		}
		in := it.target != "" && !w.files[it.target].broken
		for _, q := range parents {
			if q == it.target {
				in = false
			}
		}
		if !in {
			s += "@import " + it.spec + it.cond + ";\n"
			continue
		}
		if it.cond != "" {
			*warned++
		}
		s += w.inline(it.target, parents, warned, n)
	}
	return s
}

// reach is everything reachable through imports, from files that can be parsed.
func (w *world) reach(from []string) map[string]bool {
	seen := map[string]bool{}
	var visit func(p string)
	visit = func(p string) {
		if p == "" || seen[p] {
			return
		}
		seen[p] = true
		if w.files[p].broken {
			return
		}
		for _, it := range w.files[p].items {
			visit(it.target)
		}
	}
	for _, p := range from {
		visit(p)
	}
	return seen
}

// problems counts what must be reported: files that cannot be parsed and imports that resolve to nothing.
func (w *world) problems(seen map[string]bool) (broken, unresolved int) {
	for p := range seen {
		f := w.files[p]
		if f.broken {
			broken++
			continue
		}
		for _, it := range f.items {
			if it.spec != "" && it.target == "" {
				unresolved++
			}
		}
	}
	return
}

func (h *H) timed(input string, f func()) bool {
	done := make(chan bool)
	go func() {
		f()
		done <- true
	}()
	select {
	case <-done:
		return true
	case <-time.After(15 * time.Second):
		h.fail("does not terminate", input, "no result within 15 s")
		return false
	}
}

// overlap is a reporter that notices calls that overlap.
type overlap struct {
	errs   []error
	inside int32
	bad    int32
	slow   bool
}

func (o *overlap) AddError(err error) {
	if atomic.AddInt32(&o.inside, 1) != 1 {
		atomic.StoreInt32(&o.bad, 1)
	}
	if o.slow {
		runtime.Gosched()
		time.Sleep(50 * time.Microsecond)
	}
	atomic.AddInt32(&o.inside, -1)
	if o.slow && atomic.LoadInt32(&o.bad) == 1 {
		return
	}
	o.errs = append(o.errs, err)
}

func (o *overlap) texts() []string {
	r := reports{o.errs}
	return r.texts()
}

func init() {
	checks["C13"] = func(h *H) {
		h.Rule = "at least one import resolves to a file; outputs in all three modes were compared with the files' texts"
		for h.more() {
			w := h.world(5)
			desc := w.String()
			h.begin(desc)
			entry := w.names[0]
			ok := !w.files[entry].broken
			resolved := 0
			for p := range w.reach([]string{entry}) {
				for _, it := range w.files[p].items {
					if it.target != "" {
						resolved++
					}
				}
			}
			warned, n := 0, 0
			inlined := ""
			if ok {
				inlined = w.inline(entry, nil, &warned, &n)
			}
			for mode := 0; mode < 3 && n <= 400; mode++ {
				input := fmt.Sprintf("ImportRules=%d\n%s", mode, desc)
				var res *cssc.Result
				r := &overlap{}
				if !h.timed(input, func() {
					res = cssc.Compile(cssc.Options{Entry: []string{entry}, Reporter: r, Transforms: transforms.Options{ImportRules: transforms.ImportRules(mode)}})
				}) {
					return
				}
				seen := w.reach([]string{entry})
				out := map[string]string{}
				if mode == 2 {
					if ok {
						out[entry] = inlined
					}
				} else {
					for p := range seen {
						if (p == entry || mode == 1) && !w.files[p].broken {
							out[p] = w.files[p].text()
						}
					}
				}
				for p, want := range out {
					got, found := res.Files[p]
					if !found {
						h.fail("no output", input, "%s: %v", p, r.texts())
						continue
					}
					got, _ = splitMap(got)
					if d := differ(want, got); d != "" {
						h.fail("imports are handled wrongly", input, "%s: %s\nwant: %s\noutput: %s", p, d, want, got)
					}
				}
				if len(res.Files) > len(out) {
					h.fail("unexpected output", input, "%v", keys(res.Files))
				}
				broken, unresolved := w.problems(seen)
				want := broken + unresolved
				if mode == 2 {
					want += warned
				}
				if len(r.errs) != want {
					h.fail("reports are wrong", input, "want %d (%d files that cannot be parsed, %d imports that resolve to nothing, %d conditions ignored), got %d: %v", want, broken, unresolved, warned, len(r.errs), r.texts())
				}
			}
			if resolved > 0 {
				h.nontrivial(desc)
			}
			w.remove()
		}
	}

	checks["C16"] = func(h *H) {
		h.Rule = "at least two entries, or an entry that cannot be compiled; outputs and errors were compared with what the files contain"
		wd, _ := os.Getwd()
		defer os.Chdir(wd)
		os.Chdir(h.dir)
		for h.more() {
			w := h.world(6)
			var entries, paths []string
			missing := 0
			for i := h.rng.Intn(5); i >= 0; i-- {
				if h.pick(8) {
					entries = append(entries, filepath.Join(w.dir, "no", fmt.Sprintf("such%d.css", i)))
					missing++
					continue
				}
				p := w.names[h.rng.Intn(len(w.names))]
				e := p
				switch h.rng.Intn(4) {
				case 0:
					e, _ = filepath.Rel(h.dir, p)
				case 1:
					e = filepath.Dir(p) + "/./x/../" + filepath.Base(p)
				}
				entries = append(entries, e)
				if w.files[p].missing {
					missing++
					continue
				}
				paths = append(paths, p)
			}
			if h.pick(20) {
				entries = append(entries, w.dir) // a directory
				missing++
			}
			mode := h.rng.Intn(3)
			input := fmt.Sprintf("ImportRules=%d entries %v\n%s", mode, entries, w.String())
			h.begin(input)
			var res *cssc.Result
			r := &overlap{}
			if !h.timed(input, func() {
				res = cssc.Compile(cssc.Options{Entry: entries, Reporter: r, Transforms: transforms.Options{ImportRules: transforms.ImportRules(mode)}})
			}) {
				return
			}
			seen := w.reach(paths)
			want := map[string]bool{}
			for _, p := range paths {
				want[p] = true
			}
			if mode == 1 {
				for p := range seen {
					want[p] = true
				}
			}
			failed := missing
			n := 0
			for p := range want {
				if w.files[p].broken {
					found := false
					for _, e := range r.errs {
						if l, ok := e.(interface{ Error() string }); ok && strings.Contains(l.Error(), p+":") {
							found = true
						}
					}
					if !found {
						h.fail("no error for a file that cannot be parsed", input, "%s: %v", p, r.texts())
					}
					failed++
					delete(want, p)
				}
			}
			for p := range want {
				got, found := res.Files[p]
				if !found {
					h.fail("no output for a file", input, "%s: %v", p, r.texts())
					continue
				}
				text := w.files[p].text()
				if mode == 2 {
					k, m := 0, 0
					text = w.inline(p, nil, &k, &m)
					if m > 400 {
						continue
					}
				}
				body, sm := splitMap(got)
				if d := differ(text, body); d != "" {
					h.fail("the output is not of that file", input, "%s: %s\nwant: %s\noutput: %s", p, d, text, body)
				}
				if m, bad := mapping(&compiled{smap: sm}); bad != "" || m.file != p || m.content != w.files[p].text() {
					h.fail("the output's source map is not of that file", input, "%s: %s", p, bad)
				}
				n++
			}
			for p := range res.Files {
				if !want[p] {
					h.fail("unexpected output", input, "%s", p)
				}
			}
			if missing > 0 {
				k := 0
				for _, e := range r.errs {
					if strings.Contains(e.Error(), "failed to read") {
						k++
					}
				}
				if k < missing {
					h.fail("no error for an entry that cannot be read", input, "%d of %d: %v", k, missing, r.texts())
				}
			}
			if len(entries) > 1 || failed > 0 {
				h.nontrivial(input)
			}
			w.remove()
		}
	}

	checks["C15"] = func(h *H) {
		h.Rule = "at least three files were compiled together, with reports from more than one of them or imports between them"
		slowResolver := slow{&resolver.NodeResolver{}}
		for h.more() {
			w := h.world(12)
			var entries []string
			for i := 2 + h.rng.Intn(8); i > 0; i-- {
				entries = append(entries, w.names[h.rng.Intn(len(w.names))])
			}
			if h.pick(3) {
				entries = append(entries, filepath.Join(w.dir, "missing1.css"), filepath.Join(w.dir, "missing2.css"))
			}
			// things that the transformation reports
			for i, p := range w.names {
				if i%2 == 0 && !w.files[p].missing {
					os.WriteFile(p, []byte(w.files[p].text()+"a{b:calc(1px + 2);c:var(--undefined);d:calc(1/0)}@media (width<f(x)){a{b:c}}:any-link{a:b}"), 0o644)
				}
			}
			o := h.options()
			o.CalcReduction, o.CustomProperties, o.MediaFeatureRanges = 1, 1, 1
			input := fmt.Sprintf("%s entries %v\n%s", optString(o), entries, w.String())
			h.begin(input)
			m := 0
			big := false
			for _, e := range entries {
				if f := w.files[e]; f != nil && !f.broken && !f.missing {
					k := 0
					w.inline(e, nil, &k, &m)
					big = big || m > 300
				}
			}
			if big && o.ImportRules == 2 {
				w.remove()
				continue
			}
			for round := 0; round < 3; round++ {
				r := &overlap{slow: round < 2}
				opts := cssc.Options{Entry: entries, Reporter: r, Transforms: o}
				if h.pick(2) {
					opts.Resolver = slowResolver
				}
				if !h.timed(input, func() { cssc.Compile(opts) }) {
					return
				}
				if r.bad != 0 {
					h.fail("the reporter is called by two parts at once", input, "")
				}
			}
			if len(w.names) > 2 {
				h.nontrivial(input)
			}
			w.remove()
		}
	}

	checks["C14"] = func(h *H) {
		h.Rule = "the specifier was resolved in a directory tree of at least three files, and compared with the documented order"
		for h.more() {
			h.nfile++
			root := filepath.Join(h.dir, fmt.Sprintf("t%d", h.nfile))
			dirs := []string{root}
			os.MkdirAll(root, 0o755)
			names := []string{"a", "a.css", "b", "b.css", "index.css", "node_modules", "pkg", "c", "style.css", "package.json", "a.css.css", "@s", "index", "main"}
			desc := ""
			count := 0
			var fill func(d string, depth int)
			fill = func(d string, depth int) {
				dirs = append(dirs, d)
				for _, n := range names {
					if !h.pick(3) && !(n == "node_modules" && h.pick(2)) {
						continue
					}
					p := filepath.Join(d, n)
					rel, _ := filepath.Rel(root, p)
					count++
					switch {
					case n == "package.json" && !h.pick(8):
						b := h.one(`{"style":"style.css"}`, `{"style":"./a"}`, `{}`, `{"style":""}`, `{"style":"c"}`, `not json`, `{"style":3}`, `{"style":"../b.css"}`, `{"style":"missing.css"}`, `{"main":"a.css"}`, `{"style":"/style.css"}`, `{"Style":"a.css"}`)
						os.WriteFile(p, []byte(b), 0o644)
						desc += rel + " " + b + "\n"
					case depth < 4 && (n == "node_modules" || n == "pkg" || n == "c" || n == "@s" || h.pick(5)):
						os.Mkdir(p, 0o755)
						desc += rel + "/\n"
						fill(p, depth+1)
					default:
						os.WriteFile(p, []byte("/* "+p+" */"), 0o644)
						desc += rel + "\n"
					}
				}
			}
			fill(root, 0)
			for i := 0; i < 12; i++ {
				from := dirs[h.rng.Intn(len(dirs))]
				base := ""
				if h.pick(3) {
					base = dirs[h.rng.Intn(len(dirs))]
				}
				spec := h.one("", "./", "../", "", "./../", "/") + h.one("a", "a.css", "b", "pkg", "c", "pkg/a", "@s/pkg", "index", "style", "missing", "c/", "pkg/../a", "", ".", "..", "a.css/b", "b/a", "@s", "node_modules/a")
				relFrom := from
				if h.pick(6) {
					wd, _ := os.Getwd()
					if r, err := filepath.Rel(wd, from); err == nil {
						relFrom = r
					}
				}
				input := fmt.Sprintf("Resolve(%q, %q) BaseURL %q in %s\n%s", spec, relFrom, base, root, desc)
				h.begin(input)
				r := &resolver.NodeResolver{BaseURL: base}
				var got string
				var err error
				if !h.timed(input, func() { got, err = r.Resolve(spec, relFrom) }) {
					return
				}
				want := resolveRef(spec, relFrom, base)
				if err != nil && got != "" {
					h.fail("an error and a path", input, "%s, %v", got, err)
				}
				if want == "" && err == nil {
					h.fail("resolved to something although nothing is there", input, "got %s", got)
				} else if want != "" && (err != nil || got != want) {
					h.fail("resolved to something else", input, "want %s, got %q, %v", want, got, err)
				}
				if count > 2 {
					h.nontrivial(input)
				}
			}
			os.RemoveAll(root)
		}
	}
	_ = ioutil.ReadFile
	_ = sort.Strings
	_ = sources.Source{}
}

type slow struct{ r cssc.Resolver }

func (s slow) Resolve(spec, from string) (string, error) {
	for i := 0; i < 3; i++ {
		runtime.Gosched()
	}
	return s.r.Resolve(spec, from)
}

func isFile(p string) bool {
	i, err := os.Stat(p)
	return err == nil && !i.IsDir()
}

func isDir(p string) bool {
	i, err := os.Stat(p)
	return err == nil && i.IsDir()
}

func exists(p string) bool {
	_, err := os.Stat(p)
	return err == nil
}

// tryPath is: the path, with .css if there is nothing, the package or index of a directory.
func tryPath(p string) string {
	if isFile(p) {
		return p
	}
	if !isDir(p) {
		if _, err := os.Stat(p); os.IsNotExist(err) && isFile(p+".css") {
			return p + ".css"
		}
		return ""
	}
	b, err := os.ReadFile(filepath.Join(p, "package.json"))
	if err != nil {
		if i := filepath.Join(p, "index.css"); isFile(i) {
			return i
		}
		return ""
	}
	var pkg struct {
		Style string `json:"style"`
	}
	if json.Unmarshal(b, &pkg) != nil || pkg.Style == "" {
		return ""
	}
	if s := filepath.Join(p, pkg.Style); isFile(s) {
		return s
	}
	return ""
}

func resolveRef(spec, from, base string) string {
	if strings.HasPrefix(spec, "./") || strings.HasPrefix(spec, "../") || strings.HasPrefix(spec, "/") {
		return tryPath(filepath.Join(from, spec))
	}
	if base != "" {
		if r := tryPath(filepath.Join(base, spec)); r != "" {
			return r
		}
	}
	for d := from; ; d = filepath.Dir(d) {
		if r := tryPath(filepath.Join(d, "node_modules", spec)); r != "" {
			return r
		}
		if filepath.Dir(d) == d {
			return ""
		}
	}
}
