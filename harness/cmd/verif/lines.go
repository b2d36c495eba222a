package main

import (
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

// lines reads what a driver printed:
// VIOL text, FINDING key text, COUNT name n, EVAL n distinct, SAMPLE text.
func (c *Check) lines(out string) {
	for _, l := range strings.Split(out, "\n") {
		k, rest, _ := strings.Cut(l, " ")
		switch k {
		case "VIOL":
			c.Violate("%s", rest)
		case "FINDING":
			key, what, _ := strings.Cut(rest, " ")
			c.Finding(key, "%s", what)
		case "COUNT":
			f := strings.Fields(rest)
			n, _ := strconv.Atoi(f[len(f)-1])
			c.Count(strings.Join(f[:len(f)-1], "_"), n)
		case "EVAL":
			f := strings.Fields(rest)
			a, _ := strconv.Atoi(f[0])
			b, _ := strconv.Atoi(f[1])
			c.Evals += a
			c.Distinct += b
		case "SAMPLE":
			c.Sample("%s", rest)
		}
	}
}

// races reports what the race detector logged under prefix.
func (c *Check) races(prefix string) {
	m, _ := filepath.Glob(prefix + ".*")
	n := 0
	for _, f := range m {
		b, _ := os.ReadFile(f)
		for _, w := range raceRe.FindAllString(string(b), -1) {
			n++
			if n <= 3 {
				c.Violate("data race detected:\n%s", tail(w, 5000))
			}
		}
	}
	c.Count("race_reports", n)
}

// driver builds a command of the harness module and runs it.
func (c *Check) driver(pkg string, race bool, limit time.Duration, args ...string) {
	bin := filepath.Join(c.Work, "drv-"+filepath.Base(pkg))
	b := []string{"build", "-o", bin}
	if race {
		b = append(b, "-race")
	}
	dir := filepath.Join(c.Root, "harness")
	o, err := c.goRun(dir, 10*time.Minute, nil, "go", append(b, pkg)...)
	c.Must(err, "the driver %s does not compile against the repository:\n%s", pkg, tail(o, 3000))
	c.runDriver(c.Work, bin, race, limit, args...)
}

func (c *Check) runDriver(dir, bin string, race bool, limit time.Duration, args ...string) string {
	log := filepath.Join(c.Work, "race-"+filepath.Base(bin))
	o, err := c.goRun(dir, limit, []string{"GORACE=halt_on_error=0 exitcode=0 log_path=" + log}, bin, args...)
	c.lines(o)
	if err != nil {
		c.Violate("the driver ended with %v:\n%s", err, tail(o, 6000))
	}
	if race {
		c.races(log)
	}
	return o
}
