package main

import (
	"flag"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
)

func main() {
	mode := flag.String("mode", "lib", "")
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 150, "")
	only := flag.String("only", "", "")
	expr := flag.String("expr", "", "evaluate one expression")
	flag.Parse()
	if *expr != "" {
		fmt.Println(eval(*expr, &Arg{S0: "a,b", S1: "b", LS: []string{"x", "y"}, LI: []int64{3, 1, 2}}, nil))
		return
	}
	switch *mode {
	case "lib":
		lib(*seed, *n, *only)
	case "fuzz":
		fuzz(*seed, *n)
	case "list":
		listMode(*seed, *n)
	}
	var ks []string
	for k := range counts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("COUNT %s %d\n", k, counts[k])
	}
}

func showArg(a *Arg) string {
	s := fmt.Sprintf("%#v", *a)
	s = strings.TrimPrefix(s, "main.Arg")
	for _, z := range []string{`S0:"", `, `S1:"", `, `S2:"", `, `S3:"", `, "I0:0, ", "I1:0, ", "I2:0, ", "I3:0, ", "I4:0, ", "I5:0, ", "U0:0x0, ", "D0:0, ", "D1:0, ", "B0:false, ", "Y0:[]uint8(nil), ", "LS:[]string(nil), ", "LI:[]int64(nil), ", "LJ:[]int64(nil), ", "LK:[]int64(nil), ", "LD:[]float64(nil), ", "LB:[]bool(nil), ", "LM:[]*cel.Time(nil)"} {
		s = strings.ReplaceAll(s, z, "")
	}
	return s
}

// lib compares every documented function with its oracle.
func lib(seed int64, n int, only string) {
	var fns []fn
	fns = append(fns, stringFns()...)
	fns = append(fns, mathFns()...)
	fns = append(fns, randFns()...)
	fns = append(fns, urlFns()...)
	fns = append(fns, enumFns()...)
	fns = append(fns, timeFns()...)
	fns = append(fns, stdFns()...)
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	evals, distinct := 0, 0
	for i, f := range fns {
		if only != "" && !strings.HasPrefix(f.name, only) {
			continue
		}
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			r := rand.New(rand.NewSource(seed*100003 + int64(i)))
			seen := map[string]bool{}
			for k := 0; k < n; k++ {
				a := &Arg{}
				f.gen(r, a)
				judge(f, a, seen)
			}
			mu.Lock()
			evals += n
			distinct += len(seen)
			mu.Unlock()
		}()
	}
	wg.Wait()
	r := rand.New(rand.NewSource(seed))
	for i := 0; i < 20; i++ {
		clockCheck(r)
	}
	if only == "" {
		known()
	}
	count("functions", len(fns))
	fmt.Printf("EVAL %d %d\n", evals, distinct)
}

func judge(f fn, a *Arg, seen map[string]bool) {
	var want any
	var werr error
	func() {
		defer func() {
			if x := recover(); x != nil {
				werr = errDomain
			}
		}()
		want, werr = f.want(a)
	}()
	shown := showArg(a)
	seen[shown] = true
	got := evalMD(f.expr, a, nil, mdOf(a))
	if got.panicked != nil {
		viol(f.name, "%s with %s panicked: %v", f.expr, shown, got.panicked)
		return
	}
	if f.skip != nil && f.skip(a) {
		count("undefined_operands", 1)
		return
	}
	switch {
	case werr != nil && got.err == nil:
		viol(f.name, "%s with %s gives %v, want an evaluation error (%v)", f.expr, shown, got, werr)
	case werr != nil:
		count("domain_errors", 1)
		if werr != errDomain && !strings.Contains(got.err.Error(), werr.Error()) {
			viol(f.name, "%s with %s fails with %q, want %q", f.expr, shown, got.err.Error(), werr.Error())
		}
	case got.err != nil && f.orErr != nil && f.orErr(a):
		count("domain_errors", 1)
	case got.err != nil:
		viol(f.name, "%s with %s fails with %q, want %#v", f.expr, shown, got.err.Error(), want)
	default:
		count("values", 1)
		if g := native(got.v); !equal(g, native(want)) {
			viol(f.name, "%s with %s gives %#v, want %#v", f.expr, shown, g, native(want))
		}
	}
}
