package main

import (
	"go/ast"
	"strings"
)

func declDoc(d ast.Decl) (string, string) {
	f, ok := d.(*ast.FuncDecl)
	if !ok || f.Doc == nil {
		return "", ""
	}
	return f.Name.Name, strings.TrimSpace(f.Doc.Text())
}
