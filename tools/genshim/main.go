// genshim PKG NAME SKIP,SKIP,... > alias file: re-exports every exported
// identifier of a standard library package except the skipped ones.
package main

import (
	"bytes"
	"fmt"
	"go/format"
	"go/importer"
	"go/token"
	"go/types"
	"os"
	"strings"
)

func main() {
	path, name := os.Args[1], os.Args[2]
	skip := map[string]bool{}
	for _, s := range strings.Split(os.Args[3], ",") {
		skip[s] = true
	}
	fset := token.NewFileSet()
	pkg, err := importer.ForCompiler(fset, "source", nil).Import(path)
	if err != nil {
		panic(err)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "// Code generated by tools/genshim; DO NOT EDIT.\n\n//go:build go1.24\n\npackage %s\n\nimport real %q\n\n", name, path)
	sc := pkg.Scope()
	for _, n := range sc.Names() {
		o := sc.Lookup(n)
		if !o.Exported() || skip[n] {
			continue
		}
		switch x := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real.%s\n", n, n)
		case *types.TypeName:
			if nt, ok := x.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				fmt.Fprintf(&b, "// generic type %s skipped\n", n)
				continue
			}
			fmt.Fprintf(&b, "type %s = real.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		case *types.Func:
			if x.Type().(*types.Signature).TypeParams().Len() > 0 {
				fmt.Fprintf(&b, "// generic func %s skipped\n", n)
				continue
			}
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		}
	}
	out, err := format.Source(b.Bytes())
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(out)
}
