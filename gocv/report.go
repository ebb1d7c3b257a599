package main

import (
	"encoding/json"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

func isIface(t *ssa.Type) bool {
	_, ok := t.Type().Underlying().(*types.Interface)
	return ok
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	if err != nil {
		os.Stderr.WriteString(err.Error() + "\n")
		os.Exit(2)
	}
}
