// genshim writes the re-exporting half of the shims.
package main

import (
	"fmt"
	"go/importer"
	"go/token"
	"go/types"
	"os"
	"strings"
)

var skip = map[string]string{
	"time":         "Now Since Until Sleep After Tick NewTimer NewTicker AfterFunc Timer Ticker",
	"os":           "Open OpenFile Create ReadFile WriteFile File CreateTemp Exit Stat Lstat Rename",
	"io":           "Pipe PipeReader PipeWriter",
	"context":      "WithDeadline WithDeadlineCause WithTimeout WithTimeoutCause AfterFunc Cause",
	"math/rand":    "Int Intn Int31 Int31n Int63 Int63n Uint32 Uint64 Float32 Float64 ExpFloat64 NormFloat64 Perm Shuffle Read Seed",
	"math/rand/v2": "Int IntN Int32 Int32N Int64 Int64N Uint Uint32 Uint32N Uint64 Uint64N UintN Float32 Float64 ExpFloat64 NormFloat64 Perm Shuffle N",
	"crypto/rand":  "Reader Read Text",
}

func main() {
	pkg := os.Args[1]
	p, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import(pkg)
	if err != nil {
		panic(err)
	}
	sk := map[string]bool{}
	for _, s := range strings.Fields(skip[pkg]) {
		sk[s] = true
	}
	fmt.Printf("// Code generated by cmd/genshim from package %s. DO NOT EDIT.\n\npackage %s\n\nimport std %q\n\n", pkg, p.Name(), pkg)
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		if !o.Exported() || sk[n] {
			continue
		}
		switch o.(type) {
		case *types.Const:
			fmt.Printf("const %s = std.%s\n", n, n)
		case *types.Var:
			fmt.Printf("var %s = std.%s\n", n, n)
		case *types.Func:
			sig := o.Type().(*types.Signature)
			uses := false
			if pkg == "os" && strings.Contains(types.TypeString(sig, nil), "os.File") && !strings.Contains(types.TypeString(sig, nil), "os.FileInfo") && !strings.Contains(types.TypeString(sig, nil), "os.FileMode") {
				uses = true
			}
			if uses {
				fmt.Fprintln(os.Stderr, "note: real file in", n, types.TypeString(sig, nil))
			}
			fmt.Printf("var %s = std.%s\n", n, n)
		case *types.TypeName:
			fmt.Printf("type %s = std.%s\n", n, n)
		}
	}
}
