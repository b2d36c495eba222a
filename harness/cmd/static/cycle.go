package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"verifharness/fedgraph"
)

func writeTexts(dir string, texts map[string]string) []string {
	var names []string
	for n, t := range texts {
		p := filepath.Join(dir, n)
		_ = os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(t), 0o644); err != nil {
			panic(err)
		}
		names = append(names, n)
	}
	sort.Strings(names)
	return names
}

// verdict of all files of a program, each checked on its own.
func verdict(p *fedgraph.Program, dir string) (accepted bool, diag, where string) {
	texts := p.Texts()
	writeTexts(dir, texts)
	accepted = true
	for _, f := range p.Files {
		res, w := check(dir, f.Name, texts[f.Name], false)
		if w != "" {
			return false, "", w
		}
		if !res.compiled {
			return false, "does not compile: " + fmt.Sprint(res.resErr), ""
		}
		if (res.resErr != nil) != res.failed {
			return false, "", fmt.Sprintf("validator and resolver disagree: %v / %v", res.outs, res.resErr)
		}
		if res.failed {
			accepted = false
			diag += strings.Join(res.outs, "\n") + "\n"
		}
	}
	return accepted, diag, ""
}

// cycles: acyclic programs are accepted; with one more reference that closes a cycle they are not.
func cycles(scratch string, seed int64, n int) {
	var wg sync.WaitGroup
	for k := range 8 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed*77 + int64(k)))
			for i := range n / 8 {
				dir := filepath.Join(scratch, fmt.Sprintf("g%d_%d", k, i))
				p := fedgraph.Generate(r, "g")
				count("programs", 1)
				ok, diag, where := verdict(p, dir)
				os.RemoveAll(dir)
				switch {
				case where != "":
					viol("crash", "%s: %s", where, p)
					continue
				case !ok:
					viol("acyclic", "acyclic definitions are rejected: %.800s: %s", diag, p)
					keep(p)
					continue
				}
				count("acyclic_accepted", 1)
				for range 3 {
					m, t := p.Msgs[r.Intn(len(p.Msgs))], p.Msgs[r.Intn(len(p.Msgs))]
					if !m.File.Sees(t.File) {
						continue
					}
					e := p.AddEdge(r, m, t)
					cyc := p.Cyclic()
					ok, diag, where := verdict(p, dir)
					os.RemoveAll(dir)
					switch {
					case where != "":
						viol("crash", "%s: %s", where, p)
					case cyc && ok:
						viol("accepted "+e.Kind, "a cycle closed by %s of %s is accepted: %s", e.Kind, m.FQDN(), p)
						keep(p)
					case !cyc && !ok:
						viol("acyclic", "acyclic definitions are rejected: %.800s: %s", diag, p)
						keep(p)
					case cyc && !strings.Contains(diag, "cyclic") && !strings.Contains(diag, "recursive"):
						viol("diag", "the diagnostics of a cycle do not tell so: %.600s: %s", diag, p)
						keep(p)
					}
					if cyc {
						count("cyclic_"+e.Kind, 1)
						m.Edges = m.Edges[:len(m.Edges)-1]
					} else {
						count("acyclic_extended", 1)
					}
				}
			}
		}()
	}
	wg.Wait()
	c := 0
	for k, v := range counts {
		if strings.HasPrefix(k, "cyclic_") {
			c += v
		}
	}
	fmt.Fprintf(stdout, "EVAL %d %d\n", counts["acyclic_accepted"]+counts["acyclic_extended"]+c, c)
}

func keep(p *fedgraph.Program) {
	if d := os.Getenv("STATIC_DUMP"); d != "" {
		writeTexts(filepath.Join(d, fmt.Sprintf("p%d", len(p.String()))), p.Texts())
	}
}
