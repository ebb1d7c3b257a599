package zzverif

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"github.com/evanw/esbuild/pkg/api"
	"github.com/stephen/cssc"
	"github.com/stephen/cssc/esbuildplugin"
	"github.com/stephen/cssc/transforms"
)

type fakeBuild struct {
	filter string
	load   func(api.OnLoadArgs) (api.OnLoadResult, error)
}

func (f *fakeBuild) OnResolve(api.OnResolveOptions, func(api.OnResolveArgs) (api.OnResolveResult, error)) {
}
func (f *fakeBuild) OnLoad(o api.OnLoadOptions, cb func(api.OnLoadArgs) (api.OnLoadResult, error)) {
	f.filter, f.load = o.Filter, cb
}

type fixedResolver map[string]string

func (f fixedResolver) Resolve(spec, from string) (string, error) {
	if p, ok := f[spec]; ok {
		return p, nil
	}
	return "", errors.New("no such module: " + spec)
}

func init() {
	checks["C18"] = func(h *H) {
		h.Rule = "the plugin loaded a file, and its messages were compared with the reports of the same compilation"
		cs := corpus()
		for h.more() {
			text := h.text(cs)
			if h.pick(2) {
				text += h.one("", "\n", "\r\n", "/* é */ ", "\t") + h.one("a{b:calc(1px + 2)}", "a{b:var(--q)}", "é{b:calc(1/0) var(--r)}", "@media (width<f(x)){a{b:c}}", "a{b:calc(2%\n* 2%);c:var(--s)}", "a{b:\n", "/*", "a{c:calc(1,2)}")
			}
			if strings.Count(text, "@import") > 1 {
				continue
			}
			o := h.options()
			path := filepath.Join(h.dir, "in.css")
			other := filepath.Join(h.dir, "other.css")
			os.WriteFile(path, []byte(text), 0o644)
			os.WriteFile(other, []byte("\n\n b{d:calc(2 + 3px) var(--none)}"), 0o644)
			input := optString(o) + "\n" + text
			h.begin(input)
			res := fixedResolver{"x.css": other, "z.css": filepath.Join(h.dir, "missing.css")}
			var r reports
			ref := cssc.Compile(cssc.Options{Entry: []string{path}, Reporter: &r, Transforms: o, Resolver: res})

			b := &fakeBuild{}
			esbuildplugin.Plugin(esbuildplugin.WithTransforms(o), esbuildplugin.WithResolver(res)).Setup(b)
			if b.load == nil || !regexp.MustCompile(b.filter).MatchString("/x/y.css") {
				h.fail("the plugin does not load stylesheets", input, "filter %q", b.filter)
				return
			}
			got, err := b.load(api.OnLoadArgs{Path: path, Namespace: "file"})
			if len(r.errs) == 0 {
				if err != nil || len(got.Errors) != 0 || len(got.Warnings) != 0 {
					h.fail("messages without a problem", input, "%v %v %v", err, got.Errors, got.Warnings)
				} else if got.Contents == nil || *got.Contents != ref.Files[path] || got.Loader != api.LoaderCSS {
					h.fail("not the compiled content", input, "%v", got)
				}
				h.Counts["no problem"]++
				h.nontrivial(input)
				continue
			}
			if err != nil {
				h.fail("an error besides the messages", input, "%v", err)
			}
			all := append(append([]api.Message{}, got.Errors...), got.Warnings...)
			if len(all) != len(r.errs) {
				h.fail("not one message for each report", input, "%d reports, %d messages: %v", len(r.errs), len(all), r.texts())
				continue
			}
			// The two files are compiled at the same time, so only the order within one is given.
			byFile := func(s string) int {
				if strings.HasPrefix(s, other) {
					return 1
				}
				return 0
			}
			sort.SliceStable(all, func(i, j int) bool { return byFile(all[i].Text) < byFile(all[j].Text) })
			sort.SliceStable(r.errs, func(i, j int) bool { return byFile(r.errs[i].Error()) < byFile(r.errs[j].Error()) })
			for i, e := range r.errs {
				m := all[i]
				if m.Text != e.Error() {
					h.fail("message differs", input, "message %d: want %q, got %q", i, e.Error(), m.Text)
					break
				}
				var l located
				if !errors.As(e, &l) {
					h.Counts["without location"]++
					if m.Location != nil {
						h.fail("location of a report without one", input, "%v", *m.Location)
					}
					continue
				}
				h.Counts["located"]++
				if m.Location == nil {
					h.fail("a message has no location", input, "%v", e)
					break
				}
				s, sp := l.Location()
				ln, c := position(s.Content, sp.Start, false)
				start := sp.Start - c
				end := strings.IndexByte(s.Content[sp.Start:], '\n') + sp.Start
				if end < sp.Start {
					end = len(s.Content)
				}
				length := sp.End - sp.Start
				if sp.Start+length > end {
					length = end - sp.Start
				}
				want := api.Location{File: s.Path, Line: ln + 1, Column: c, Length: length, LineText: s.Content[start:end]}
				if !reflect.DeepEqual(want, *m.Location) {
					h.fail("location is wrong", input, "want %+v, got %+v", want, *m.Location)
					break
				}
			}
			h.nontrivial(input)
		}
		_ = fmt.Sprint
		_ = transforms.Options{}
	}
}
