package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
	"verifharness/fedgraph"
	"verifharness/pipe"
)

func init() {
	checks["C23"] = func(c *Check) {
		c.Rule = "mutated files that parse and are checked; distinct: those that parse"
		c.driver("./cmd/static", false, 12*time.Minute, "-mode", "crash", "-repo", c.Repo, "-seed", fmt.Sprint(c.Seed), "-n", fmt.Sprint(c.N(2000, 30000)))
	}
}

// graphs generates, compiles, starts and calls services of many files and packages.
func (c *Check) graphs(n int) {
	dir := filepath.Join(c.Work, "graph")
	write := func(p, s string) {
		p = filepath.Join(dir, p)
		_ = os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			panic(err)
		}
	}
	var files []*fedgraph.File
	for i := range n {
		p := fedgraph.At(c.Seed, i)
		for name, text := range p.Texts() {
			write("proto/"+name, text)
		}
		files = append(files, p.Files...)
	}
	c.Count("programs", n)
	out, err := withLimit(5*time.Minute, func() (pipe.Output, error) { return pipe.Generate(filepath.Join(dir, "proto")) })
	c.Must(err, "well-formed definitions were not accepted by the generator")
	c.scratchModule(dir)
	if err := out.Write(dir); err != nil {
		panic(err)
	}
	imports := ""
	seen := map[string]bool{}
	for _, f := range files {
		if len(f.Svcs) == 0 {
			continue
		}
		base := strings.TrimSuffix(f.Name, ".proto")
		src, ok := out[base+"_grpc_federation.pb.go"]
		if !ok {
			c.Violate("no code was generated for %s, which defines services", f.Name)
			continue
		}
		g, err := f.Glue(src)
		c.Must(err, "generated code")
		write(base+"_zglue.go", g)
		if p, _, _ := strings.Cut(f.Gopkg, ";"); !seen[p] {
			seen[p] = true
			imports += fmt.Sprintf("import _ %q\n", p)
		}
	}
	write("main.go", "package main\n\nimport \"verifharness/fedgraph\"\n"+imports+"\nfunc main() { fedgraph.Main() }\n")
	o, err := c.goRun(dir, 10*time.Minute, nil, "go", "build", "-o", "driver", ".")
	c.Must(err, "generated code does not compile:\n%s", tail(o, 4000))
	o, err = c.goRun(dir, 5*time.Minute, nil, filepath.Join(dir, "driver"), "-seed", fmt.Sprint(c.Seed), "-n", fmt.Sprint(n))
	if err != nil {
		c.Violate("the process holding the services died: %v\n%s", err, tail(o, 5000))
		c.Evals++
		return
	}
	c.lines(o)
}

func init() {
	checks["C22"] = func(c *Check) {
		c.Rule = "generated services compiled, started and called; non-trivial: responses checked"
		c.graphs(c.N(30, 200))
	}
	checks["C24"] = func(c *Check) {
		c.Rule = "definitions made ill-formed at one element; distinct: those rejected with a diagnostic on the element"
		c.driver("./cmd/static", false, 12*time.Minute, "-mode", "reject", "-repo", c.Repo, "-programs", "6", "-seed", fmt.Sprint(c.Seed), "-n", fmt.Sprint(c.N(6000, 80000)))
	}
	checks["C29"] = func(c *Check) {
		c.Rule = "elements located and positions looked up; distinct: elements"
		c.driver("./cmd/static", false, 12*time.Minute, "-mode", "positions", "-repo", c.Repo, "-programs", "6", "-seed", fmt.Sprint(c.Seed), "-n", fmt.Sprint(c.N(6000, 100000)))
	}
	checks["C28"] = func(c *Check) {
		c.Rule = "answers and final diagnostics judged; distinct: final texts and named definitions"
		for _, race := range []bool{true, false} {
			n := c.N(24, 200)
			if !race {
				n = c.N(80, 1200)
			}
			c.driver("./cmd/static", race, 10*time.Minute, "-mode", "lsp", "-workers", "4", "-repo", c.Repo, "-programs", "4", "-seed", fmt.Sprint(c.Seed*2+map[bool]int64{true: 1}[race]), "-n", fmt.Sprint(n))
		}
	}
	checks["C26"] = func(c *Check) {
		c.Rule = "elements of models compared after encoding and decoding, requests received by plugins; distinct: models and requests"
		c.driver("./cmd/static", false, 12*time.Minute, "-mode", "plugin", "-repo", c.Repo, "-seed", fmt.Sprint(c.Seed), "-n", fmt.Sprint(c.N(20, 150)))
	}
	checks["C31"] = func(c *Check) {
		c.Rule = "compilations and validations of layouts of import paths; distinct: calls judged by the model"
		c.driver("./cmd/static", false, 12*time.Minute, "-mode", "imports", "-repo", c.Repo, "-seed", fmt.Sprint(c.Seed), "-n", fmt.Sprint(c.N(150, 2500)))
	}
	checks["C21"] = func(c *Check) {
		c.Rule = "generations compared with the first of the same files; distinct: sets of files"
		bin := filepath.Join(c.Work, "drv-static")
		o, err := c.goRun(filepath.Join(c.Root, "harness"), 10*time.Minute, nil, "go", "build", "-o", bin, "./cmd/static")
		c.Must(err, "the driver does not compile against the repository:\n%s", tail(o, 3000))
		hashes := func(o string) map[string]string {
			m := map[string]string{}
			for _, l := range strings.Split(o, "\n") {
				if f := strings.Fields(l); len(f) == 3 && f[0] == "HASH" {
					m[f[1]] = f[2]
				}
			}
			return m
		}
		a := hashes(c.runDriver(c.Work, bin, false, 10*time.Minute, "-mode", "determinism", "-repo", c.Repo, "-seed", fmt.Sprint(c.Seed), "-n", fmt.Sprint(c.N(12, 60))))
		b := hashes(c.runDriver(c.Work, bin, false, 10*time.Minute, "-mode", "determinism", "-repo", c.Repo, "-seed", fmt.Sprint(c.Seed), "-n", "2"))
		n := 0
		for f, h := range b {
			if a[f] != "" {
				n++
				if a[f] != h {
					c.Violate("two processes generated different %s", f)
				}
			}
		}
		c.Count("files_compared_between_processes", n)
	}
	checks["C25"] = func(c *Check) {
		c.Rule = "programs judged; non-trivial: programs with a cycle"
		c.driver("./cmd/static", false, 12*time.Minute, "-mode", "cycles", "-seed", fmt.Sprint(c.Seed), "-n", fmt.Sprint(c.N(320, 4000)))
	}
}
