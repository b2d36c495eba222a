// Command static drives the compiler, resolver, validator and code generator
// with generated and mutated definitions and judges what they say.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"

	"verifharness/pipe"
)

// the generator prints warnings to the standard output: only stdout is read by the check
const minute = time.Minute

var stdout = os.Stdout

func main() {
	pipe.Silent = true
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout, os.Stderr = null, null
	}
	mode := flag.String("mode", "crash", "")
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 1000, "")
	repo := flag.String("repo", "/repo", "")
	programs := flag.Int("programs", 12, "")
	workers := flag.Int("workers", 1, "")
	one := flag.String("file", "", "check one file (with -dir)")
	dir := flag.String("dir", "", "")
	flag.Parse()
	if *one != "" {
		b, _ := os.ReadFile(*one)
		res, where := check(*dir, "x.proto", string(b), true)
		fmt.Fprintln(stdout, where, res.resErr, res.codeErr)
		for _, o := range res.outs {
			fmt.Fprintln(stdout, o)
		}
		return
	}
	if *mode == "lsp" && *workers > 1 { // a server each, in processes of their own
		var wg sync.WaitGroup
		outs := make([]string, *workers)
		for k := range *workers {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var serr bytes.Buffer
				c := exec.Command(os.Args[0], "-mode", "lsp", "-repo", *repo, "-programs", fmt.Sprint(*programs), "-n", fmt.Sprint(*n / *workers), "-seed", fmt.Sprint(*seed*1000+int64(k)))
				c.Stderr = &serr
				b, err := c.Output()
				outs[k] = string(b)
				if err != nil {
					t := serr.String()
					outs[k] += fmt.Sprintf("VIOL died: a language server ended with %v:\\n%s\n", err, strings.ReplaceAll(t[:min(len(t), 3000)], "\n", "\\n"))
				}
			}()
		}
		wg.Wait()
		fmt.Fprint(stdout, strings.Join(outs, ""))
		return
	}
	scratch, err := os.MkdirTemp("", "static")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(scratch)
	switch *mode {
	case "cycles":
		cycles(scratch, *seed, *n)
	case "imports":
		imports(scratch, *seed, *n)
	case "plugin":
		plugins(*repo, scratch, *seed, *n)
	case "determinism":
		determinism(*repo, scratch, *seed, *n)
	default:
		ws := load(*repo, scratch, *seed, *programs)
		switch *mode {
		case "crash":
			crash(ws, *seed, *n)
		case "reject":
			rejecting(ws, scratch, *seed, *n)
		case "lsp":
			languageServer(ws, scratch, *seed, *n)
		case "positions":
			positions(ws, scratch, *seed, *n)
		}
	}
	var ks []string
	for k := range counts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(stdout, "COUNT %s %d\n", k, counts[k])
	}
}
