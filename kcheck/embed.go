package main

import (
	"go/ast"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type tokenPos = token.Pos

// embedded returns the text a //go:embed directive puts in a variable.
func embedded(c *Ctx, rel, name string) (string, string) {
	pk := c.P.TPkg(rel)
	if pk == nil {
		return "", ""
	}
	for _, f := range pk.Syntax {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range g.Specs {
				v, ok := s.(*ast.ValueSpec)
				if !ok || len(v.Names) != 1 || v.Names[0].Name != name {
					continue
				}
				doc := v.Doc
				if doc == nil {
					doc = g.Doc
				}
				if doc == nil {
					continue
				}
				for _, cm := range doc.List {
					if strings.HasPrefix(cm.Text, "//go:embed ") {
						dir := filepath.Dir(c.P.Fset.Position(f.Pos()).Filename)
						p := filepath.Join(dir, strings.TrimSpace(strings.TrimPrefix(cm.Text, "//go:embed ")))
						b, err := os.ReadFile(p)
						if err == nil {
							return string(b), strings.TrimPrefix(p, c.P.Dir+"/")
						}
					}
				}
			}
		}
	}
	return "", ""
}
