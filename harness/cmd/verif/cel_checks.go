package main

import (
	"fmt"
	"os"
	"time"
)

func init() {
	checks["C16"] = func(c *Check) {
		c.Rule = "every library function and standard member function x hostile operands (empty, non-ASCII, invalid UTF-8, extreme numbers, zones), result compared with the Go standard-library operation it documents, in two local time zones; non-trivial: a distinct set of operands"
		for i, tz := range []string{"UTC", "Asia/Tokyo"} {
			os.Setenv("TZ", tz)
			c.driver("./cmd/celmon", false, 10*time.Minute, "-mode", "lib", "-seed", fmt.Sprint(c.Seed*2+int64(i)), "-n", fmt.Sprint(c.N(300, 5000)))
		}
	}
	checks["C17"] = func(c *Check) {
		c.Rule = "random well-typed expressions over all library functions and macros, and mutations of them, x hostile operands; each is evaluated alone and by concurrent goroutines sharing compiled expressions and variables (also under the race detector): no panic, value of the checked type or an error, same result, operands unchanged; non-trivial: an expression accepted by the checker"
		c.driver("./cmd/celmon", false, 10*time.Minute, "-mode", "fuzz", "-seed", fmt.Sprint(c.Seed), "-n", fmt.Sprint(c.N(5000, 60000)))
		c.driver("./cmd/celmon", true, 10*time.Minute, "-mode", "fuzz", "-seed", fmt.Sprint(c.Seed+1000), "-n", fmt.Sprint(c.N(960, 12000)))
	}
	checks["C18"] = func(c *Check) {
		c.Rule = "list macros x sources (fields, concatenations, mapped, filtered and flattened lists, with many equal keys) x key expressions, compared with a Go model; the argument is compared with a copy afterwards; non-trivial: a distinct list of more than one element"
		c.driver("./cmd/celmon", false, 10*time.Minute, "-mode", "list", "-seed", fmt.Sprint(c.Seed), "-n", fmt.Sprint(c.N(400, 8000)))
	}
}
