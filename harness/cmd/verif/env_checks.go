package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"time"

	"verifharness/fedenv"
	"verifharness/fedlog"
	"verifharness/fedplug"
	"verifharness/pipe"
)

// program is a generated proto package and the code registering its service.
type program interface {
	Proto() string
	Glue(src string) (string, error)
}

// build generates and compiles programs into one driver.
func (c *Check) build(dir string, progs map[string]program, extra map[string]string, runtime string, race bool) string {
	write := func(p, s string) {
		p = filepath.Join(dir, p)
		_ = os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			panic(err)
		}
	}
	for n, s := range extra {
		write("proto/"+n, s)
	}
	for n, p := range progs {
		write(fmt.Sprintf("proto/%[1]s/%[1]s.proto", n), p.Proto())
	}
	t0 := time.Now()
	out, err := withLimit(5*time.Minute, func() (pipe.Output, error) { return pipe.Generate(filepath.Join(dir, "proto")) })
	c.Must(err, "well-formed definitions were not accepted by the generator")
	c.Extra["generate_s"] = time.Since(t0).Seconds()
	c.scratchModule(dir)
	if err := out.Write(dir); err != nil {
		panic(err)
	}
	for n, p := range progs {
		g, err := p.Glue(out[fmt.Sprintf("%[1]s/%[1]s_grpc_federation.pb.go", n)])
		c.Must(err, "generated code")
		write("glue_"+n+".go", g)
	}
	write("main.go", fmt.Sprintf("package main\n\nimport %q\n\nfunc main() { %s.Main() }\n", "verifharness/"+runtime, runtime))
	args := []string{"build", "-o", "driver"}
	if race {
		args = append(args, "-race")
	}
	t0 = time.Now()
	tool, env := "go", []string(nil)
	if c.Go != "" {
		tool, env = c.Go, []string{"GOTOOLCHAIN=local"}
	}
	o, err := c.goRun(dir, 10*time.Minute, env, tool, append(args, ".")...)
	c.Must(err, "generated code does not compile:\n%s", tail(o, 4000))
	c.Extra["compile_s"] = time.Since(t0).Seconds()
	return filepath.Join(dir, "driver")
}

func init() {
	checks["C14"] = func(c *Check) {
		c.Rule = "random environment declarations (types, alternates, defaults, required, ignored) and service variables (expressions, conditions, messages, maps, validations) x random process environments; construction result, every variable in two messages and the context of a custom resolver compared with a model; non-trivial: the service started with variables"
		dir := filepath.Join(c.Work, "env")
		progs := map[string]program{}
		for i := range c.N(24, 150) {
			p := fedenv.Generate(c.Seed, i)
			progs[p.GoDir] = p
		}
		c.Count("programs", len(progs))
		bin := c.build(dir, progs, nil, "fedenv", false)
		o, err := c.goRun(dir, 10*time.Minute, nil, bin, "-seed", fmt.Sprint(c.Seed), "-trials", fmt.Sprint(c.N(60, 300)))
		if err != nil {
			c.Violate("the process holding the services died: %v\n%s", err, tail(o, 5000))
			c.Evals++
			return
		}
		c.lines(o)
	}
}

func init() {
	logs := func(c *Check, race bool, programs, n int) {
		dir := filepath.Join(c.Work, "log")
		progs := map[string]program{}
		for i := range programs {
			p := fedlog.Generate(c.Seed, i)
			progs[p.GoDir] = p
		}
		c.Count("programs", len(progs))
		bin := c.build(dir, progs, map[string]string{"ldep/ldep.proto": fedlog.DepProto}, "fedlog", race)
		c.runDriver(dir, bin, race, 10*time.Minute, "-seed", fmt.Sprint(c.Seed), "-n", fmt.Sprint(n), fmt.Sprintf("-shared=%v", !race))
	}
	checks["C32"] = func(c *Check) {
		c.Rule = "concurrent requests to services that attach log attributes, log, fail and handle errors in messages that run at the same time; replies and all log records of each request judged; non-trivial: requests that fail or log"
		logs(c, true, c.N(8, 40), c.N(200, 2000))
	}
	checks["C06"] = func(c *Check) {
		c.Rule = "concurrent requests whose messages fail, retry and handle errors at the same time; reply or status compared with the error of that very call; non-trivial: requests that fail or log"
		logs(c, false, c.N(24, 120), c.N(400, 2000))
	}
}

// hostGo selects the oldest installed toolchain the repository allows for the processes that
// run WebAssembly: the compiler of the pinned wazero calls into the Go runtime (memmove) with
// the register use of the Go versions of its time, and corrupts the memory of plugins under
// later ones.
func (c *Check) hostGo() {
	if _, err := exec.LookPath("go1.23"); err == nil {
		c.Go = "go1.23"
	}
}

// plugins builds the WebAssembly plugins of the programs next to the driver.
func (c *Check) plugins(dir string, progs []*fedplug.Program) {
	t0 := time.Now()
	errs := make(chan error)
	for _, p := range progs {
		go func() {
			out, err := pipe.Request(filepath.Join(dir, "proto"), fmt.Sprintf("%[1]s/%[1]s.proto", p.Plug()), fmt.Sprintf("%[1]s/%[1]s.proto", p.GoDir))
			if err != nil {
				errs <- err
				return
			}
			name := fmt.Sprintf("%[1]s/%[1]s_grpc_federation.pb.go", p.Plug())
			if err := os.WriteFile(filepath.Join(dir, name), []byte(out[name]), 0o644); err != nil {
				panic(err)
			}
			main, err := p.PlugMain(out[name])
			if err != nil {
				errs <- err
				return
			}
			d := filepath.Join(dir, "cmd_"+p.Plug())
			_ = os.MkdirAll(d, 0o755)
			if err := os.WriteFile(filepath.Join(d, "main.go"), []byte(main), 0o644); err != nil {
				panic(err)
			}
			o, err := c.goRun(dir, 10*time.Minute, []string{"GOOS=wasip1", "GOARCH=wasm"}, "go", "build", "-o", p.Plug()+".wasm", "./cmd_"+p.Plug())
			if err != nil {
				err = fmt.Errorf("the generated plugin code does not compile: %w\n%s", err, tail(o, 4000))
			}
			errs <- err
		}()
	}
	for range progs {
		if err := <-errs; err != nil {
			c.Must(err, "plugins")
		}
	}
	c.Extra["wasm_s"] = time.Since(t0).Seconds()
}

func init() {
	checks["C19"] = func(c *Check) {
		c.Rule = "random plugin signatures (scalars, enums, messages, lists, methods, overloads) built to WebAssembly with the generated plugin code; concurrent requests with random values and metadata; every reply and error compared with what the plugin computes for those arguments; non-trivial: every request calls the plugin"
		dir := filepath.Join(c.Work, "plug")
		progs := map[string]program{}
		extra := map[string]string{}
		var ps []*fedplug.Program
		for i := range c.N(3, 12) {
			p := fedplug.Generate(c.Seed, i)
			ps = append(ps, p)
			progs[p.GoDir] = p
			extra[fmt.Sprintf("%[1]s/%[1]s.proto", p.Plug())] = p.PlugProto()
		}
		c.Count("programs", len(progs))
		c.hostGo()
		bin := c.build(dir, progs, extra, "fedplug", false)
		c.plugins(dir, ps)
		c.runDriver(dir, bin, false, 6*time.Minute*time.Duration(c.N(1, 5)), "-seed", fmt.Sprint(c.Seed), "-n", fmt.Sprint(c.N(1500, 20000)))
	}
}

func init() {
	checks["C20"] = func(c *Check) {
		c.Rule = "binaries that are not the declared one, not plugins, lack functions or report other versions are offered for loading; histories of calls, collections and closes by several users on one plugin instance, with plugins that end or answer nonsense; generated services cleaned up while requests run; results, time limits, panics and goroutines left are judged, under the race detector; non-trivial: all"
		dir := filepath.Join(c.Work, "plug")
		p := fedplug.Generate(c.Seed, 0)
		c.hostGo()
		bin := c.build(dir, map[string]program{p.GoDir: p}, map[string]string{fmt.Sprintf("%[1]s/%[1]s.proto", p.Plug()): p.PlugProto()}, "fedplug", false)
		c.plugins(dir, []*fedplug.Program{p})
		src, err := os.ReadFile(filepath.Join(c.Root, "harness", "fedplug", "odd", "odd.go.txt"))
		if err != nil {
			panic(err)
		}
		_ = os.MkdirAll(filepath.Join(dir, "odd"), 0o755)
		if err := os.WriteFile(filepath.Join(dir, "odd", "main.go"), src, 0o644); err != nil {
			panic(err)
		}
		if o, err := c.goRun(dir, 5*time.Minute, []string{"GOOS=wasip1", "GOARCH=wasm"}, "go", "build", "-o", "odd.wasm", "./odd"); err != nil {
			panic(o)
		}
		c.runDriver(dir, bin, false, 6*time.Minute*time.Duration(c.N(1, 5)), "-seed", fmt.Sprint(c.Seed), "-lives", fmt.Sprint(c.N(120, 3000)))
	}
}
