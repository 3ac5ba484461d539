// Command extract copies the model tables out of /repo's sources at the pinned
// commit into /verif/harness/data (run once; the copies are committed and are
// the reference the running code is compared with).
package main

import (
	"compress/gzip"
	"encoding/gob"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type Pos struct {
	Start map[uint16]float64
	Trans map[uint16]map[uint16]float64
	Emit  map[uint16]map[rune]float64
	Tab   map[rune][]uint16
	Tags  []string
}

type Hmm struct{ Emit map[byte]map[rune]float64 }

func parse(file string) *ast.File {
	f, err := parser.ParseFile(token.NewFileSet(), file, nil, 0)
	if err != nil {
		panic(err)
	}
	return f
}

func num(e ast.Expr) float64 {
	switch x := e.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.SUB {
			return -num(x.X)
		}
	case *ast.BasicLit:
		v, err := strconv.ParseFloat(x.Value, 64)
		if err == nil {
			return v
		}
	}
	panic(fmt.Sprintf("number %#v", e))
}

func char(e ast.Expr) rune {
	s, err := strconv.Unquote(e.(*ast.BasicLit).Value)
	if err != nil {
		panic(err)
	}
	return []rune(s)[0]
}

func value(f *ast.File, name string) *ast.CompositeLit {
	var out *ast.CompositeLit
	ast.Inspect(f, func(n ast.Node) bool {
		if v, ok := n.(*ast.ValueSpec); ok {
			for i, id := range v.Names {
				if id.Name == name {
					out = v.Values[i].(*ast.CompositeLit)
				}
			}
		}
		return true
	})
	return out
}

func save(name string, v any) {
	f, err := os.Create(name)
	if err != nil {
		panic(err)
	}
	z, _ := gzip.NewWriterLevel(f, 9)
	if err := gob.NewEncoder(z).Encode(v); err != nil {
		panic(err)
	}
	z.Close()
	f.Close()
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	h := Hmm{map[byte]map[rune]float64{}}
	ast.Inspect(parse(repo+"/hmm/prob_emit.go"), func(n ast.Node) bool {
		a, ok := n.(*ast.AssignStmt)
		if !ok {
			return true
		}
		ix, ok := a.Lhs[0].(*ast.IndexExpr)
		if !ok || ix.X.(*ast.Ident).Name != "probEmit" {
			return true
		}
		m := map[rune]float64{}
		for _, e := range a.Rhs[0].(*ast.CompositeLit).Elts {
			kv := e.(*ast.KeyValueExpr)
			m[char(kv.Key)] = num(kv.Value)
		}
		h.Emit[byte(char(ix.Index))] = m
		return true
	})
	for k, m := range h.Emit {
		fmt.Println(string(k), len(m))
	}
	save(out+"/hmm.gob.gz", h)

	p := Pos{map[uint16]float64{}, map[uint16]map[uint16]float64{}, map[uint16]map[rune]float64{}, map[rune][]uint16{}, nil}
	for _, e := range value(parse(repo+"/hmm/pos/prob_start.go"), "probStart").Elts {
		kv := e.(*ast.KeyValueExpr)
		p.Start[uint16(num(kv.Key))] = num(kv.Value)
	}
	for _, e := range value(parse(repo+"/hmm/pos/prob_trans.go"), "probTrans").Elts {
		kv := e.(*ast.KeyValueExpr)
		m := map[uint16]float64{}
		for _, e := range kv.Value.(*ast.CompositeLit).Elts {
			kv := e.(*ast.KeyValueExpr)
			m[uint16(num(kv.Key))] = num(kv.Value)
		}
		p.Trans[uint16(num(kv.Key))] = m
	}
	for _, e := range value(parse(repo+"/hmm/pos/prob_emit.go"), "probEmit").Elts {
		kv := e.(*ast.KeyValueExpr)
		m := map[rune]float64{}
		for _, e := range kv.Value.(*ast.CompositeLit).Elts {
			kv := e.(*ast.KeyValueExpr)
			m[char(kv.Key)] = num(kv.Value)
		}
		p.Emit[uint16(num(kv.Key))] = m
	}
	st := parse(repo + "/hmm/pos/char_state_tab.go")
	for _, e := range value(st, "charStateTab").Elts {
		kv := e.(*ast.KeyValueExpr)
		var l []uint16
		for _, e := range kv.Value.(*ast.CompositeLit).Elts {
			l = append(l, uint16(num(e)))
		}
		p.Tab[char(kv.Key)] = l
	}
	for _, e := range value(st, "poss").Elts {
		s, _ := strconv.Unquote(e.(*ast.BasicLit).Value)
		p.Tags = append(p.Tags, s)
	}
	fmt.Println(len(p.Start), len(p.Trans), len(p.Emit), len(p.Tab), strings.Join(p.Tags, " "))
	save(out+"/pos.gob.gz", p)
}
