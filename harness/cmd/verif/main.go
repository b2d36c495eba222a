// Command verif runs the check of one property.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Check is one run of one property's check.
type Check struct {
	Go       string // the go command for drivers, if not the usual one
	ID       string
	Tier     string
	Seed     int64
	Root     string // /verif
	Repo     string
	Work     string
	Level    string
	Evals    int
	Distinct int
	Rule     string
	Samples  []any
	Extra    map[string]any
	Assume   []string
	viol     []string
	known    map[string]string // key -> what
	hit      map[string]bool
	start    time.Time
}

func (c *Check) Thorough() bool { return c.Tier == "thorough" }

// N picks a size by tier.
func (c *Check) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Violate records a violation.
func (c *Check) Violate(format string, a ...any) { c.viol = append(c.viol, fmt.Sprintf(format, a...)) }

// Finding reports a deviation that is identified by key: it is silent when listed as known.
func (c *Check) Finding(key, format string, a ...any) {
	if _, ok := c.known[key]; ok {
		c.hit[key] = true
		return
	}
	c.Violate("[%s] %s", key, fmt.Sprintf(format, a...))
}

func (c *Check) Sample(format string, a ...any) {
	if len(c.Samples) < 6 {
		c.Samples = append(c.Samples, fmt.Sprintf(format, a...))
	}
}

func (c *Check) Count(key string, n int) {
	old, _ := c.Extra[key].(int)
	c.Extra[key] = old + n
}

var checks = map[string]func(*Check){}

func loadKnown(path, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		// known: property=<id> key=<key> <what fails>
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 4 || f[1] != "property="+id || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		out[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
	}
	return out
}

func main() {
	id := flag.String("p", "", "property")
	root := flag.String("root", "/verif", "")
	repo := flag.String("repo", "/repo", "")
	flag.Parse()
	f := checks[*id]
	if f == nil {
		fmt.Println("unknown property", *id)
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	work, err := os.MkdirTemp("", "verif-"+*id+"-")
	if err != nil {
		panic(err)
	}
	keep := os.Getenv("VERIF_KEEP") != ""
	if keep {
		fmt.Println("work directory", work)
	}
	c := &Check{ID: *id, Tier: tier, Seed: seed, Root: *root, Repo: *repo, Work: work, Level: "exploration", Extra: map[string]any{}, hit: map[string]bool{}, start: time.Now()}
	c.known = loadKnown(filepath.Join(*root, "known_findings.txt"), *id)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(stop); ok {
					c.Violate("%s", string(s))
					return
				}
				panic(r)
			}
		}()
		f(c)
	}()
	code := c.finish()
	if !keep {
		os.RemoveAll(work)
	}
	os.Exit(code)
}

// stop ends a check with a violation.
type stop string

// Must ends the check: what failed here works on a correct tree.
func (c *Check) Must(err error, format string, a ...any) {
	if err != nil {
		panic(stop(fmt.Sprintf("%s: %v", fmt.Sprintf(format, a...), err)))
	}
}

func (c *Check) finish() int {
	cov := map[string]any{"evaluations": c.Evals, "distinct_nontrivial": c.Distinct, "rule": c.Rule, "samples": c.Samples}
	if c.Samples == nil {
		cov["samples"] = []any{}
	}
	for k, v := range c.Extra {
		cov[k] = v
	}
	ev := map[string]any{"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level, "coverage": cov, "wall_s": time.Since(c.start).Seconds(), "violations": len(c.viol)}
	if len(c.Assume) > 0 {
		ev["assumptions"] = c.Assume
	}
	b, _ := json.MarshalIndent(ev, "", "  ")
	_ = os.MkdirAll(filepath.Join(c.Root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(c.Root, "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	var ks []string
	for k := range c.hit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s [%s] %s\n", c.ID, k, c.known[k])
	}
	if len(c.viol) == 0 && c.Evals == 0 {
		c.viol = append(c.viol, "the check observed no execution")
	}
	if len(c.viol) > 0 {
		dir := filepath.Join(c.Root, "work", "replay")
		_ = os.MkdirAll(dir, 0o755)
		p := filepath.Join(dir, c.ID+".txt")
		_ = os.WriteFile(p, []byte(strings.Join(c.viol, "\n\n==========\n\n")+"\n"), 0o644)
		for i, v := range c.viol {
			if i == 3 {
				break
			}
			if len(v) > 3000 {
				v = v[:3000] + "..."
			}
			fmt.Println(v)
		}
		fmt.Printf("%d violations\n", len(c.viol))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
		return 1
	}
	fmt.Printf("property %s held on %d executions (%d distinct non-trivial) in %.1fs\n", c.ID, c.Evals, c.Distinct, time.Since(c.start).Seconds())
	return 0
}
