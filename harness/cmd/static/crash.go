package main

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/mercari/grpc-federation/compiler"
	"github.com/mercari/grpc-federation/generator"
	"github.com/mercari/grpc-federation/resolver"
	"github.com/mercari/grpc-federation/source"
	"github.com/mercari/grpc-federation/validator"
)

// diagnostics of one text, as the linter and language server obtain them.
type result struct {
	parsed   bool
	compiled bool
	outs     []string // diagnostics, sorted
	failed   bool     // a diagnostic is an error
	resolved *resolver.Result
	resErr   error
	code     string // generated code of the file, if it was accepted
	codeErr  error
}

var frameRe = regexp.MustCompile(`(?m)^\s+(/\S+/(resolver|source|validator|compiler|generator|lsp)/\w+\.go:\d+)`)

// guard runs f with a watchdog and reports a panic with the frame of the repository it came from.
func guard(what string, limit time.Duration, f func()) (where string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if x := recover(); x != nil {
				m := frameRe.FindAllStringSubmatch(string(debug.Stack()), 3)
				var fr []string
				for _, x := range m {
					fr = append(fr, filepath.Base(filepath.Dir(x[1]))+"/"+filepath.Base(x[1]))
				}
				done <- fmt.Sprintf("%s panicked: %v at %s", what, x, strings.Join(fr, " < "))
				return
			}
			done <- ""
		}()
		f()
	}()
	select {
	case w := <-done:
		return w
	case <-time.After(limit):
		return what + " did not end within " + limit.String()
	}
}

func check(dir, name, text string, gen bool) (res result, where string) {
	ctx := context.Background()
	limit := 60 * time.Second
	var f *source.File
	var err error
	if w := guard("parser", limit, func() { f, err = source.NewFile(filepath.Join(dir, name), []byte(text)) }); w != "" {
		return res, w
	}
	if err != nil || f == nil {
		return res, ""
	}
	res.parsed = true
	if w := guard("validator", limit, func() {
		outs := validator.New().Validate(ctx, f, validator.ImportPathOption(dir))
		res.failed = validator.ExistsError(outs)
		for _, o := range outs {
			res.outs = append(res.outs, fmt.Sprintf("%v %s:%d:%d: %s", o.IsWarning, o.Path, o.Start.Line, o.Start.Col, o.Message))
		}
		_ = validator.Format(outs)
		sort.Strings(res.outs)
	}); w != "" {
		return res, w
	}
	if w := guard("resolver", limit, func() {
		protos, err := compiler.New().Compile(ctx, f, compiler.ImportPathOption(dir), compiler.ImportRuleOption())
		if err != nil {
			res.resErr = err
			return
		}
		res.compiled = true
		res.resolved, res.resErr = resolver.New(protos, resolver.ImportPathOption(dir)).Resolve()
		if res.resErr == nil && gen {
			for _, rf := range res.resolved.Files {
				out, err := generator.NewCodeGenerator().Generate(rf)
				if err != nil {
					res.codeErr = err
					return
				}
				res.code += string(out)
			}
		}
	}); w != "" {
		return res, w
	}
	return res, ""
}

func crash(ws []*workspace, seed int64, n int) {
	p := collect(ws)
	var files []*file
	for _, w := range ws {
		files = append(files, w.fedFiles()...)
	}
	var wg sync.WaitGroup
	evals, distinct := 0, map[string]bool{}
	for k := range 8 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed*31 + int64(k)))
			for range n / 8 {
				f := files[r.Intn(len(files))]
				text, ops := p.mutate(r, f.text)
				judgeCrash(f, text, ops)
				mu.Lock()
				evals++
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	mu.Lock()
	for m := range messages {
		distinct[m] = true
	}
	mu.Unlock()
	count("distinct_diagnostics", len(distinct))
	fmt.Fprintf(stdout, "EVAL %d %d\n", evals, counts["parsed"])
}

var messages = map[string]bool{}
var digits = regexp.MustCompile(`"[^"]*"|'[^']*'|[0-9]+|[A-Za-z_]+(\.[A-Za-z_]+)+`)

func judgeCrash(f *file, text, ops string) {
	res, where := check(f.ws.dir, f.name, text, true)
	desc := fmt.Sprintf("%s/%s after %s", f.ws.name, f.name, ops)
	if where != "" {
		key := where
		if d := os.Getenv("STATIC_DUMP"); d != "" {
			_ = os.WriteFile(filepath.Join(d, digits.ReplaceAllString(filepath.Base(key), "")+".proto"), []byte(text), 0o644)
		}
		viol(digits.ReplaceAllString(key, "#")+frameOf(where), "%s [%s]", where, desc)
		return
	}
	if !res.parsed {
		count("unparsable", 1)
		return
	}
	count("parsed", 1)
	mu.Lock()
	for _, o := range res.outs {
		_, m, _ := strings.Cut(o, ": ")
		messages[digits.ReplaceAllString(m, "#")] = true
	}
	mu.Unlock()
	switch {
	case res.resErr == nil:
		count("accepted", 1)
	case res.compiled:
		count("rejected", 1)
	default:
		count("not_compiled", 1)
		debugf("NC %.150s", strings.ReplaceAll(res.resErr.Error(), "\n", " | "))
	}
	if res.compiled && (res.resErr != nil) != res.failed {
		viol("verdict", "the validator says failed=%v (%v), the resolver %v [%s]", res.failed, res.outs, res.resErr, desc)
	}
	if res.codeErr != nil && !strings.Contains(res.codeErr.Error(), "runtime error") && !strings.Contains(res.codeErr.Error(), "nil pointer") {
		count("code_refused", 1)
		debugf("CE %.200s", res.codeErr)
		res.codeErr = nil
	}
	if res.codeErr != nil {
		viol("code", "the file is accepted, but its code cannot be generated: %.600s [%s]", res.codeErr, desc)
		if d := os.Getenv("STATIC_DUMP"); d != "" {
			_ = os.WriteFile(filepath.Join(d, fmt.Sprintf("code%d.proto", len(text))), []byte(text), 0o644)
		}
	}
}

func frameOf(s string) string {
	if i := strings.LastIndex(s, " at "); i >= 0 {
		return s[i:]
	}
	return ""
}

func debugf(f string, a ...any) {
	if os.Getenv("STATIC_DEBUG") != "" {
		fmt.Fprintf(stdout, f+"\n", a...)
	}
}
