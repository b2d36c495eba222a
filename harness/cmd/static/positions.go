package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"
	"reflect"
	"strings"
	"sync"

	"github.com/bufbuild/protocompile/ast"

	"github.com/mercari/grpc-federation/compiler"
	"github.com/mercari/grpc-federation/source"

	"verifharness/fedenv"
	"verifharness/fedgraph"
)

// positions: the position of every element, the element at every position.
func positions(ws []*workspace, scratch string, seed int64, n int) {
	p := collect(ws)
	var texts []*file
	for _, w := range ws {
		texts = append(texts, w.fedFiles()...)
	}
	g := &workspace{name: "graph", dir: filepath.Join(scratch, "positions")}
	for i := range 20 {
		ts := fedgraph.At(seed, i).Texts()
		ts[fmt.Sprintf("env%d.proto", i)] = fedenv.Generate(seed, i).Proto()
		for _, name := range writeTexts(g.dir, ts) {
			texts = append(texts, &file{ws: g, name: name, text: ts[name]})
		}
	}
	var wg sync.WaitGroup
	for k := range 8 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed*53 + int64(k)))
			for i := k; i < len(texts)+n; i += 8 {
				if i < len(texts) {
					judgePositions(r, texts[i], texts[i].text, "as it is")
					continue
				}
				f := texts[r.Intn(len(texts))]
				text, ops := p.mutate(r, f.text)
				judgePositions(r, f, text, ops)
			}
		}()
	}
	wg.Wait()
	fmt.Fprintf(stdout, "EVAL %d %d\n", counts["elements"]+counts["lookups"], counts["elements"])
}

func judgePositions(r *rand.Rand, f *file, text, ops string) {
	path := filepath.Join(f.ws.dir, f.name)
	desc := fmt.Sprintf("%s/%s %.300s", f.ws.name, f.name, ops)
	where := guard("lookup", minute, func() {
		src, err := source.NewFile(path, []byte(text))
		if err != nil || src == nil {
			count("unparsable", 1)
			return
		}
		lines := strings.Split(text, "\n")
		legal := ops == "as it is" || parses(f.name, text) && compiles(f, path, text)
		// any position of any text
		for range 60 {
			pos := source.Position{Line: r.Intn(len(lines)+4) - 1, Col: r.Intn(90) - 1}
			if r.Intn(40) == 0 {
				pos = source.Position{Line: []int{-1, 0, 1 << 31, len(lines)}[r.Intn(4)], Col: []int{-1, 0, 1 << 31, 1}[r.Intn(4)]}
			}
			count("lookups", 1)
			loc := src.FindLocationByPos(pos)
			if loc == nil {
				continue
			}
			info := src.NodeInfoByLocation(loc)
			if !legal {
				continue
			}
			if info == nil {
				viol("answer", "position %v of %s leads to %s, which has no position", pos, desc, js(loc))
				continue
			}
			if !contains(info, pos) {
				viol("answer elsewhere", "position %v of %s leads to %s, which is at %v-%v", pos, desc, js(loc), at(info.Start()), at(info.End()))
			}
			count("found", 1)
		}
		if !legal {
			count("broken_texts", 1)
			return
		}
		count("texts", 1)
		w := &walker{name: path, file: src.AST()}
		w.walk()
		seen := map[string]int{}
		for _, e := range w.elems {
			seen[js(e.loc)]++
		}
		for _, e := range w.elems {
			if seen[js(e.loc)] > 1 {
				count("ambiguous", 1)
				continue
			}
			count("elements", 1)
			want := w.file.NodeInfo(e.node)
			got := src.NodeInfoByLocation(e.loc)
			if got == nil {
				viol("none "+e.kind, "%s of %s has no position, it is at %v", js(e.loc), desc, at(want.Start()))
				continue
			}
			if at(got.Start()) != at(want.Start()) || at(got.End()) != at(want.End()) {
				viol("wrong "+e.kind, "%s of %s is reported at %v-%v, it is at %v-%v", js(e.loc), desc, at(got.Start()), at(got.End()), at(want.Start()), at(want.End()))
				continue
			}
			if !e.lookup || want.Start().Line != want.End().Line {
				continue
			}
			for _, col := range []int{want.Start().Col, want.Start().Col + r.Intn(max(1, want.End().Col-want.Start().Col))} {
				pos := source.Position{Line: want.Start().Line, Col: col}
				count("round_trips", 1)
				back := src.FindLocationByPos(pos)
				if !reflect.DeepEqual(back, e.loc) {
					viol("back "+e.kind, "position %v of %s is on %s, the lookup says %s", pos, desc, js(e.loc), js(back))
					break
				}
			}
		}
	})
	if where != "" {
		viol("crash "+frameOf(where), "%s [%s]", where, desc)
	}
}

// compiles tells whether the text is legal for the compiler: names and options resolve.
func compiles(f *file, path, text string) bool {
	src, err := source.NewFile(path, []byte(text))
	if err != nil {
		return false
	}
	_, err = compiler.New().Compile(context.Background(), src, compiler.ImportPathOption(f.ws.dir), compiler.ImportRuleOption())
	return err == nil
}

func at(p ast.SourcePos) string { return fmt.Sprintf("%d:%d", p.Line, p.Col) }

func contains(i *ast.NodeInfo, p source.Position) bool {
	s, e := i.Start(), i.End()
	if p.Line < s.Line || p.Line == s.Line && p.Col < s.Col {
		return false
	}
	return !(p.Line > e.Line || p.Line == e.Line && p.Col > e.Col)
}

func js(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}
