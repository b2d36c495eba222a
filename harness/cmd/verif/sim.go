package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"verifharness/fedrt"
	"verifharness/fedsim"
	"verifharness/pipe"
)

// scratchModule prepares a Go module that can hold generated code.
func (c *Check) scratchModule(dir string) {
	b, err := os.ReadFile(filepath.Join(c.Root, "harness", "go.mod"))
	if err != nil {
		panic(err)
	}
	s := strings.Replace(string(b), "module verifharness", "module scratch", 1)
	s = strings.Replace(s, "require (", "replace verifharness => "+filepath.Join(c.Root, "harness")+"\n\nrequire (\n\tverifharness v0.0.0", 1)
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte(s), 0o644); err != nil {
		panic(err)
	}
	sum, err := os.ReadFile(filepath.Join(c.Root, "harness", "go.sum"))
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644); err != nil {
		panic(err)
	}
}

// goRun runs a command with a time limit.
func (c *Check) goRun(dir string, limit time.Duration, env []string, name string, args ...string) (string, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		return "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		return out.String(), err
	case <-time.After(limit):
		_ = cmd.Process.Signal(os.Interrupt)
		_ = cmd.Process.Kill()
		<-done
		return out.String(), fmt.Errorf("time limit %s reached", limit)
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// withLimit runs in-process code of the repository with a watchdog.
func withLimit[T any](d time.Duration, f func() (T, error)) (T, error) {
	type r struct {
		v   T
		err error
	}
	ch := make(chan r, 1)
	go func() {
		v, err := f()
		ch <- r{v, err}
	}()
	select {
	case x := <-ch:
		return x.v, x.err
	case <-time.After(d):
		var z T
		return z, fmt.Errorf("no result within %s", d)
	}
}

// buildPrograms generates, compiles and links the programs of a campaign.
func (c *Check) buildPrograms(dir string, progs []*fedsim.Program, race bool) string {
	protoDir := filepath.Join(dir, "proto")
	write := func(p, s string) {
		p = filepath.Join(dir, p)
		_ = os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			panic(err)
		}
	}
	write("proto/dep/dep.proto", fedsim.DepProto())
	for _, p := range progs {
		write("proto/"+p.GoDir+"/"+p.GoDir+".proto", p.Proto())
	}
	t0 := time.Now()
	out, err := withLimit(5*time.Minute, func() (pipe.Output, error) { return pipe.Generate(protoDir) })
	c.Must(err, "well-formed definitions were not accepted by the generator")
	c.Extra["generate_s"] = time.Since(t0).Seconds()
	c.scratchModule(dir)
	if err := out.Write(dir); err != nil {
		panic(err)
	}
	for _, p := range progs {
		src, ok := out[p.GoDir+"/"+p.GoDir+"_grpc_federation.pb.go"]
		if !ok {
			c.Violate("no federation code was generated for %s", p.Pkg)
			continue
		}
		g, err := p.Glue(src)
		c.Must(err, "generated code")
		write("glue_"+p.GoDir+".go", g)
	}
	write("main.go", "package main\n\nimport \"verifharness/fedrt\"\n\nfunc main() { fedrt.Main() }\n")
	args := []string{"build", "-o", "driver"}
	if race {
		args = append(args, "-race")
	}
	t0 = time.Now()
	o, err := c.goRun(dir, 10*time.Minute, nil, "go", append(args, ".")...)
	if err != nil {
		c.Must(err, "generated code does not compile:\n%s", tail(o, 4000))
	}
	c.Extra["compile_s"] = time.Since(t0).Seconds()
	return filepath.Join(dir, "driver")
}

var raceRe = regexp.MustCompile(`(?s)WARNING: DATA RACE.*?={18}`)

// campaign runs one simulated campaign.
func (c *Check) campaign(cfg fedrt.Campaign, race bool) *fedrt.Report {
	cfg.Property = c.ID
	cfg.Seed = c.Seed
	dir := filepath.Join(c.Work, "camp-"+cfg.Profile.Name)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	var progs []*fedsim.Program
	for n := 0; n < cfg.Programs; n++ {
		progs = append(progs, fedsim.Generate(cfg.Seed, n, cfg.Profile))
	}
	bin := c.buildPrograms(dir, progs, race)
	b, _ := json.Marshal(cfg)
	_ = os.WriteFile(filepath.Join(dir, "campaign.json"), b, 0o644)
	t0 := time.Now()
	o, err := c.goRun(dir, 12*time.Minute, []string{"GORACE=halt_on_error=0 exitcode=0 log_path=" + filepath.Join(dir, "race")}, bin, "-c", "campaign.json", "-o", "report.json")
	c.Extra["run_s"] = time.Since(t0).Seconds()
	if err != nil {
		c.Violate("the process serving the requests died: %v\n%s", err, tail(o, 6000))
		c.Evals++
		return &fedrt.Report{Counters: map[string]int{}}
	}
	if race {
		m, _ := filepath.Glob(filepath.Join(dir, "race.*"))
		n := 0
		for _, f := range m {
			b, _ := os.ReadFile(f)
			for _, w := range raceRe.FindAllString(string(b), -1) {
				n++
				if n <= 3 {
					c.Violate("data race detected:\n%s", tail(w, 5000))
				}
			}
		}
		c.Count("race_reports", n)
	}
	b, err = os.ReadFile(filepath.Join(dir, "report.json"))
	if err != nil {
		panic(err)
	}
	rep := &fedrt.Report{}
	if err := json.Unmarshal(b, rep); err != nil {
		panic(err)
	}
	c.Evals += rep.Evaluations
	c.Distinct += rep.Distinct
	for k, v := range rep.Counters {
		if k == "max_in_flight" {
			if old, _ := c.Extra[k].(int); v > old {
				c.Extra[k] = v
			}
			continue
		}
		c.Count(k, v)
	}
	c.Count("programs", rep.Programs)
	c.Count("nontrivial_executions", rep.NonTrivial)
	for _, s := range rep.Samples {
		c.Sample("%s", s)
	}
	for _, v := range rep.Violations {
		c.Violate("%s", v)
	}
	return rep
}
