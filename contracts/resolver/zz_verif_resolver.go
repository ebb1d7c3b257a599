package resolver

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"github.com/stephen/cssc/internal/verifspec"
)

// specIsFile holds of paths at which there is something that is no directory.
func specIsFile(path string) bool {
	info, err := os.Stat(path)
	return err == nil && !info.IsDir()
}

// specPath is what a path resolves to: the file itself, with .css added where there is nothing, or
// the entry point of the directory.
func specPath(path string) (string, bool) {
	info, err := os.Stat(path)
	if err == nil {
		if info.IsDir() {
			return specDir(path)
		}
		return path, true
	}
	if os.IsNotExist(err) && specIsFile(path+".css") {
		return path + ".css", true
	}
	return "", false
}

// specDir is the entry point of a directory: the style of its package.json, or index.css if it has
// none.
func specDir(dir string) (string, bool) {
	pkg, err := ioutil.ReadFile(filepath.Join(dir, "package.json"))
	if err != nil {
		if index := filepath.Join(dir, "index.css"); specIsFile(index) {
			return index, true
		}
		return "", false
	}
	if verifspec.JSONError(pkg) != nil || verifspec.JSON(pkg, "style") == "" {
		return "", false
	}
	if style := filepath.Join(dir, verifspec.JSON(pkg, "style")); specIsFile(style) {
		return style, true
	}
	return "", false
}

// specModules is what a module resolves to: the first of what it resolves to in the node_modules of
// the directory and of each of its parents.
func specModules(module, dir string) (string, bool) {
	if path, ok := specPath(filepath.Join(dir, "node_modules", module)); ok {
		return path, true
	}
	if parent := filepath.Dir(dir); parent != dir {
		return specModules(module, parent)
	}
	return "", false
}

func specResolve(baseURL, spec, fromDir string) (string, bool) {
	if strings.HasPrefix(spec, "../") || strings.HasPrefix(spec, "./") || strings.HasPrefix(spec, "/") {
		return specPath(filepath.Join(fromDir, spec))
	}
	if baseURL != "" {
		if path, ok := specPath(filepath.Join(baseURL, spec)); ok {
			return path, true
		}
	}
	return specModules(spec, fromDir)
}

// specDepth decreases from a directory to its parent.
func specDepth(dir string) int {
	if dir == "." {
		return 0
	}
	return len(dir) + 1
}

// resolved states that the results are those of the specification.
func resolved(path string, ok bool) {
	verifspec.Ensures("the path is the first candidate that is a file", func(res string, err error) bool {
		return !ok || err == nil && res == path
	})
	verifspec.Ensures("an error and no path without one", func(res string, err error) bool {
		return ok || err != nil && res == ""
	})
}

func contract_NodeResolver_Resolve(r *NodeResolver, spec, fromDir string) {
	verifspec.Requires(r != nil)
	resolved(specResolve(r.BaseURL, spec, fromDir))
}

func contract_NodeResolver_resolve(r *NodeResolver, absPath string) {
	verifspec.Requires(r != nil)
	resolved(specPath(absPath))
}

func contract_NodeResolver_resolveAsDir(r *NodeResolver, path string) {
	verifspec.Requires(r != nil)
	resolved(specDir(path))
}

func contract_NodeResolver_resolveFromNodeModules(r *NodeResolver, module, fromDir string) {
	verifspec.Requires(r != nil)
	verifspec.Invariant(func(currentDir string) bool {
		path, ok := specModules(module, currentDir)
		want, found := specModules(module, fromDir)
		return path == want && ok == found
	})
	verifspec.LoopDecreases(func(currentDir string) int { return specDepth(currentDir) })
	resolved(specModules(module, fromDir))
}
