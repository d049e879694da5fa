package main

import (
	"bytes"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
)

// lazyImplies spells v_implies(a, b) as !(a) || (b), so that b is only
// evaluated where a holds. Line numbers stay as they are.
func lazyImplies(name string, src []byte) []byte {
	if !bytes.Contains(src, []byte("v_implies(")) {
		return src
	}
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return src
	}
	type edit struct {
		from, to int
		text     string
	}
	var es []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	lines := func(from, to int) string {
		return string(bytes.Repeat([]byte("\n"), bytes.Count(src[from:to], []byte("\n"))))
	}
	ast.Inspect(file, func(n ast.Node) bool {
		call, ok := n.(*ast.CallExpr)
		if !ok || len(call.Args) != 2 {
			return true
		}
		id, ok := call.Fun.(*ast.Ident)
		if ok && id.Name == "v_ensures" {
			if branches(call.Args[1]) {
				b := call.Args[1]
				es = append(es, edit{off(b.Pos()), off(b.Pos()), "v_expr(func() bool { return "}, edit{off(b.End()), off(b.End()), "})"})
			}
			return true
		}
		if !ok || id.Name != "v_implies" {
			return true
		}
		a, b := call.Args[0], call.Args[1]
		cut := func(from, to token.Pos, text string) {
			es = append(es, edit{off(from), off(to), text + lines(off(from), off(to))})
		}
		cut(call.Pos(), a.Pos(), "v_lazy(")
		cut(a.End(), b.Pos(), ", func() bool { return ")
		cut(b.End(), call.End(), "})")
		return true
	})
	sort.SliceStable(es, func(i, j int) bool { return es[i].from < es[j].from })
	var out []byte
	at := 0
	for _, e := range es {
		out = append(out, src[at:e.from]...)
		out = append(out, e.text...)
		at = e.to
	}
	return append(out, src[at:]...)
}

func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// branches: evaluating the expression takes more than one path.
func branches(e ast.Expr) bool {
	yes := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BinaryExpr:
			if n.Op == token.LAND || n.Op == token.LOR {
				yes = true
			}
		}
		return !yes
	})
	return yes
}
