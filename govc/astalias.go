package main

import "go/ast"

type (
	starExprT = ast.StarExpr
	selExprT  = ast.SelectorExpr
	callExprT = ast.CallExpr
	identT    = ast.Ident
	binExprT  = ast.BinaryExpr
	exprT     = ast.Expr
)

func mentions(e ast.Expr, name string) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == name {
			found = true
		}
		return true
	})
	return found
}
