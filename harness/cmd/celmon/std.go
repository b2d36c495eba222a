package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"
	"time"
)

func valid(r *rand.Rand) string { return strings.ToValidUTF8(rstr(r), "?") }

func emptyS0(a *Arg) bool { return a.S0 == "" } // cel-go reports an error

// stdFns are the member functions every environment has besides the library:
// its functions of the same names must not take them away.
func stdFns() []fn {
	gen := func(r *rand.Rand, a *Arg) {
		a.S0 = valid(r)
		if rs := []rune(a.S0); len(rs) > 0 && r.Intn(3) > 0 {
			i := r.Intn(len(rs))
			a.S1 = string(rs[i : i+1+r.Intn(min(2, len(rs)-i))])
		} else {
			a.S1 = valid(r)
		}
		a.S2 = valid(r)
		a.I0 = int64(r.Intn(len([]rune(a.S0)) + 2))
		a.LS = rlist(r, r.Intn(4), valid)
	}
	runeIndex := func(s string, i int) int64 {
		if i < 0 {
			return -1
		}
		return int64(len([]rune(s[:i])))
	}
	ascii := func(f func(rune) rune) func(string) string {
		return func(s string) string {
			return strings.Map(func(c rune) rune {
				if c < 128 {
					return f(c)
				}
				return c
			}, s)
		}
	}
	lower := ascii(func(c rune) rune { return []rune(strings.ToLower(string(c)))[0] })
	upper := ascii(func(c rune) rune { return []rune(strings.ToUpper(string(c)))[0] })
	var l []fn
	// every function is called on a field, a literal-like expression and a variable of a macro
	add := func(call string, f func(a *Arg) (any, error)) {
		for i, e := range []string{"$.s0" + call, "($.s0 + '')" + call, "[$.s0].map(x, x" + call + ")[0]"} {
			l = append(l, fn{name: fmt.Sprintf("std%s/%d", call, i), expr: e, gen: gen, want: f})
		}
	}
	add(".contains($.s1)", func(a *Arg) (any, error) { return strings.Contains(a.S0, a.S1), nil })
	add(".startsWith($.s1)", func(a *Arg) (any, error) { return strings.HasPrefix(a.S0, a.S1), nil })
	add(".endsWith($.s1)", func(a *Arg) (any, error) { return strings.HasSuffix(a.S0, a.S1), nil })
	add(".size()", func(a *Arg) (any, error) { return int64(len([]rune(a.S0))), nil })
	add(".matches('^[a-d]+$')", func(a *Arg) (any, error) { return regexp.MustCompile("^[a-d]+$").MatchString(a.S0), nil })
	add(".split($.s1)", func(a *Arg) (any, error) { return native(strings.Split(a.S0, a.S1)), nil })
	add(".split($.s1, 2)", func(a *Arg) (any, error) { return native(strings.SplitN(a.S0, a.S1, 2)), nil })
	add(".trim()", func(a *Arg) (any, error) { return strings.TrimSpace(a.S0), nil })
	add(".replace($.s1, $.s2)", func(a *Arg) (any, error) { return strings.ReplaceAll(a.S0, a.S1, a.S2), nil })
	add(".replace($.s1, $.s2, 1)", func(a *Arg) (any, error) { return strings.Replace(a.S0, a.S1, a.S2, 1), nil })
	add(".indexOf($.s1)", func(a *Arg) (any, error) { return runeIndex(a.S0, strings.Index(a.S0, a.S1)), nil })
	add(".lastIndexOf($.s1)", func(a *Arg) (any, error) { return runeIndex(a.S0, strings.LastIndex(a.S0, a.S1)), nil })
	l[len(l)-1].skip, l[len(l)-2].skip, l[len(l)-3].skip = emptyS0, emptyS0, emptyS0
	add(".lowerAscii()", func(a *Arg) (any, error) { return lower(a.S0), nil })
	add(".upperAscii()", func(a *Arg) (any, error) { return upper(a.S0), nil })
	add(".substring($.i0)", func(a *Arg) (any, error) { return string([]rune(a.S0)[a.I0:]), nil })
	add(".charAt($.i0)", func(a *Arg) (any, error) {
		if rs := []rune(a.S0); int(a.I0) == len(rs) {
			return "", nil
		} else {
			return string(rs[a.I0]), nil
		}
	})
	l = append(l,
		fn{name: "std.join", expr: "$.ls.join($.s1)", gen: gen, want: func(a *Arg) (any, error) { return strings.Join(a.LS, a.S1), nil }},
		fn{name: "std.join()", expr: "$.ls.join()", gen: gen, want: func(a *Arg) (any, error) { return strings.Join(a.LS, ""), nil }},
		fn{name: "std.exists", expr: "$.ls.exists(x, x.contains($.s1))", gen: gen, want: func(a *Arg) (any, error) {
			for _, x := range a.LS {
				if strings.Contains(x, a.S1) {
					return true, nil
				}
			}
			return false, nil
		}},
	)
	return l
}

// known runs the inputs of the findings that are recorded and not repaired.
func known() {
	finding := func(key, what, expr string, a *Arg, want any) {
		if o := eval(expr, a, nil); o.err != nil || o.panicked != nil || !equal(native(o.v), native(want)) {
			fmt.Printf("FINDING %s %s: %s gives %s, want %#v\n", key, what, expr, strings.ReplaceAll(o.String(), "\n", " "), want)
		}
	}
	T := "grpc.federation.time."
	finding("time-zero-offset-zone", "a zone with offset zero is reloaded by its name",
		T+"unix(5, 0).withLocation("+T+"fixedZone('X', 0)).hour()", &Arg{}, int64(0))
	finding("time-zero-offset-zone", "a parsed time with an unknown zone abbreviation",
		T+"parse("+T+"RFC1123, 'Mon, 02 Jan 2006 15:04:05 PST').hour()", &Arg{}, int64(15))
	ny, _ := time.LoadLocation("America/New_York")
	finding("time-location-lossy", "the location of a time is reduced to the offset in force",
		T+"unix(1720000000, 0).withLocation("+T+"loadLocation('America/New_York')).addDate(0, 6, 0).unix()", &Arg{}, int64(time.Unix(1720000000, 0).In(ny).AddDate(0, 6, 0).Unix()))
	finding("time-location-lossy", "isDST of a time in summer",
		T+"unix(1720000000, 0).withLocation("+T+"loadLocation('America/New_York')).isDST()", &Arg{}, true)
	finding("string-format", "the member function format of strings is taken over by the one of times",
		"'%s'.format(['a'])", &Arg{}, "a")
}
