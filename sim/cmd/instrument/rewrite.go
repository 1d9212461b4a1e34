package main

import (
	"go/ast"
	"go/token"
)

// rewrite walks the expressions below n, instruments the bodies of function
// literals and replaces channel receives.
func rewrite(n ast.Node, in *instr) {
	switch x := n.(type) {
	case nil:
	case *ast.FuncLit:
		in.block(x.Body)
	case *ast.GenDecl:
		for _, s := range x.Specs {
			if v, ok := s.(*ast.ValueSpec); ok {
				if len(v.Names) == 2 && len(v.Values) == 1 {
					if u, ok := unparen(v.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
						rep.ChanOps++
						v.Values[0] = &ast.CallExpr{Fun: in.sel("Recv2"), Args: []ast.Expr{in.expr(u.X)}}
						continue
					}
				}
				in.each(v.Values)
			}
		}
	case *ast.DeclStmt:
		rewrite(x.Decl, in)
	case *ast.ExprStmt:
		x.X = in.expr(x.X)
	case *ast.AssignStmt:
		in.each(x.Lhs)
		in.each(x.Rhs)
	case *ast.ReturnStmt:
		in.each(x.Results)
	case *ast.IncDecStmt:
		x.X = in.expr(x.X)
	case *ast.DeferStmt:
		rewrite(x.Call, in)
	case *ast.CallExpr:
		x.Fun = in.expr(x.Fun)
		in.each(x.Args)
	case *ast.ParenExpr:
		x.X = in.expr(x.X)
	case *ast.SelectorExpr:
		x.X = in.expr(x.X)
	case *ast.IndexExpr:
		x.X = in.expr(x.X)
		x.Index = in.expr(x.Index)
	case *ast.SliceExpr:
		x.X = in.expr(x.X)
		x.Low, x.High, x.Max = in.expr(x.Low), in.expr(x.High), in.expr(x.Max)
	case *ast.StarExpr:
		x.X = in.expr(x.X)
	case *ast.TypeAssertExpr:
		x.X = in.expr(x.X)
	case *ast.UnaryExpr:
		x.X = in.expr(x.X)
	case *ast.BinaryExpr:
		x.X = in.expr(x.X)
		x.Y = in.expr(x.Y)
	case *ast.KeyValueExpr:
		x.Value = in.expr(x.Value)
		if _, isID := x.Key.(*ast.Ident); !isID {
			x.Key = in.expr(x.Key)
		}
	case *ast.CompositeLit:
		in.each(x.Elts)
	}
}

func (in *instr) each(l []ast.Expr) {
	for i := range l {
		if l[i] != nil {
			l[i] = in.expr(l[i])
		}
	}
}
