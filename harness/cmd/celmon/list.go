package main

import (
	"cmp"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"slices"
	"strings"
	"sync"
	"time"

	grpcfedcel "github.com/mercari/grpc-federation/grpc/federation/cel"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// Elem is a message element: its nanoseconds identify it, the other fields are
// sort keys with many duplicates.
type Elem = grpcfedcel.Time

// key is an expression over v with the same function in Go.
type key struct {
	expr string
	cmp  func(a, b any) int // nil: the keys are not totally ordered
}

func by[T any, K cmp.Ordered](f func(T) K) func(a, b any) int {
	return func(a, b any) int { return cmp.Compare(f(a.(T)), f(b.(T))) }
}
func bi(b bool) int {
	if b {
		return 1
	}
	return 0
}

var intKeys = []key{
	{"v", by(func(v int64) int64 { return v })},
	{"v % 3", by(func(v int64) int64 { return v % 3 })},
	{"v / 2", by(func(v int64) int64 { return v / 2 })},
	{"v > 4", by(func(v int64) int { return bi(v > 4) })},
	{"string(v)", by(func(v int64) string { return fmt.Sprint(v) })},
	{"double(v) * -0.5", by(func(v int64) float64 { return float64(v) * -0.5 })},
	{"duration(string(v % 5) + 's')", by(func(v int64) int64 { return v % 5 })},
	{"timestamp(v % 7 + 10)", by(func(v int64) int64 { return v % 7 })},
	{"bytes(string(v % 4))", by(func(v int64) string { return fmt.Sprint(v % 4) })},
	{"7", by(func(v int64) int { return 7 })},
	{"[v, 2].filter(v, v > 1).size()", by(func(v int64) int { return bi(v > 1) })},
	{"v % 3 == 0 ? 0 : v", by(func(v int64) int64 {
		if v%3 == 0 {
			return 0
		}
		return v
	})},
}
var strKeys = []key{
	{"v", by(func(v string) string { return v })},
	{"size(v)", by(func(v string) int { return len([]rune(v)) })},
	{"v.contains('a')", by(func(v string) int { return bi(strings.Contains(v, "a")) })},
	{"v + '!'", by(func(v string) string { return v + "!" })},
	{"bytes(v)", by(func(v string) string { return v })},
}
var dblKeys = []key{
	{"v", by(func(v float64) float64 { return v })},
	{"v * 2.0", by(func(v float64) float64 { return v * 2 })},
	{"v < 0.5", by(func(v float64) int { return bi(v < 0.5) })},
}
var boolKeys = []key{
	{"v", by(func(v bool) int { return bi(v) })},
	{"!v", by(func(v bool) int { return bi(!v) })},
}
var elemKeys = []key{
	{"v.loc.offset", by(func(v *Elem) int64 { return v.Loc.Offset })},
	{"v.loc.name", by(func(v *Elem) string { return v.Loc.Name })},
	{"v.timestamp", by(func(v *Elem) int64 { return v.Timestamp.AsTime().UnixNano() })},
	{"v.timestamp > timestamp(1)", by(func(v *Elem) int { return bi(v.Timestamp.AsTime().Unix() >= 1) })},
	{"v.loc.offset % 2", by(func(v *Elem) int64 { return v.Loc.Offset % 2 })},
	{"double(v.loc.offset) / 2.0", by(func(v *Elem) int64 { return v.Loc.Offset })},
	{"v.loc.name + string(v.loc.offset)", by(func(v *Elem) string { return v.Loc.Name + fmt.Sprint(v.Loc.Offset) })},
}

type src struct {
	name  string
	expr  string
	keys  []key
	items func(a *Arg) []any
	field string // of Arg
}

func anys[T any](l []T) []any {
	r := make([]any, len(l))
	for i, x := range l {
		r[i] = x
	}
	return r
}

var srcs = []src{
	{"ints", "$.li", intKeys, func(a *Arg) []any { return anys(a.LI) }, "LI"},
	{"strings", "$.ls", strKeys, func(a *Arg) []any { return anys(a.LS) }, "LS"},
	{"doubles", "$.ld", dblKeys, func(a *Arg) []any { return anys(a.LD) }, "LD"},
	{"bools", "$.lb", boolKeys, func(a *Arg) []any { return anys(a.LB) }, "LB"},
	{"messages", "$.lm", elemKeys, func(a *Arg) []any { return anys(a.LM) }, "LM"},
	{"concat", "($.li + $.lj)", intKeys, func(a *Arg) []any { return anys(append(slices.Clone(a.LI), a.LJ...)) }, "LI"},
	{"mapped", "$.lj.map(x, x * 2)", intKeys, func(a *Arg) []any {
		var r []any
		for _, x := range a.LJ {
			r = append(r, x*2)
		}
		return r
	}, "LJ"},
	{"filtered", "$.lm.filter(x, x.loc.offset != 1)", elemKeys, func(a *Arg) []any {
		var r []any
		for _, x := range a.LM {
			if x.Loc.Offset != 1 {
				r = append(r, x)
			}
		}
		return r
	}, "LM"},
	{"flattened", "[$.li, [], $.lj, $.lk].flatten()", intKeys, func(a *Arg) []any {
		return anys(slices.Concat(a.LI, a.LJ, a.LK))
	}, "LI"},
}

// gList draws lists of very different lengths with many equal keys.
func gList(r *rand.Rand, a *Arg) {
	n := []int{0, 1, 2, 3, 7, 13, 24, 60}
	ln := func() int { return n[r.Intn(len(n))] }
	small := func(r *rand.Rand) int64 { return int64(r.Intn(12)) }
	ints := func() []int64 {
		l := rlist(r, ln(), small)
		if r.Intn(4) == 0 {
			slices.Sort(l)
		}
		return l
	}
	a.LI, a.LJ, a.LK = ints(), ints(), ints()
	a.LS = rlist(r, ln(), func(r *rand.Rand) string { return strings.ToValidUTF8(rstr(r), "?") })
	a.LD = rlist(r, ln(), func(r *rand.Rand) float64 {
		if x := rfloat(r); !math.IsNaN(x) {
			return x
		}
		return 1
	})
	a.LB = rlist(r, ln(), func(r *rand.Rand) bool { return r.Intn(2) == 0 })
	id := int32(0)
	a.LM = rlist(r, ln(), func(r *rand.Rand) *Elem {
		id++
		return &Elem{Loc: &grpcfedcel.Location{Offset: int64(r.Intn(4)), Name: []string{"a", "b", "ab", ""}[r.Intn(4)]}, Timestamp: &timestamppb.Timestamp{Seconds: int64(r.Intn(3)), Nanos: id}}
	})
	a.I0 = small(r)
}

// items turns a result into comparable elements.
func items(v any) ([]any, bool) {
	rv := reflect.ValueOf(native(v))
	if !rv.IsValid() || rv.Kind() != reflect.Slice {
		return nil, false
	}
	l := make([]any, rv.Len())
	for i := range l {
		l[i] = rv.Index(i).Interface()
	}
	return l, true
}

func same(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !equal(a[i], b[i]) && a[i] != b[i] {
			return false
		}
	}
	return true
}

func showItems(l []any) string {
	var s []string
	for _, x := range l {
		if e, ok := x.(*Elem); ok {
			s = append(s, fmt.Sprintf("#%d{%d %q %d}", e.Timestamp.Nanos, e.Loc.Offset, e.Loc.Name, e.Timestamp.Seconds))
		} else {
			s = append(s, fmt.Sprintf("%#v", x))
		}
	}
	return "[" + strings.Join(s, " ") + "]"
}

var sorts = []string{"sortAsc", "sortDesc", "sortStableAsc", "sortStableDesc"}

// judgeSorted: got is a permutation of in, ordered by the key; stable sorts have one result.
func judgeSorted(name string, k key, in, got []any) string {
	c := k.cmp
	if strings.HasSuffix(name, "Desc") {
		c = func(a, b any) int { return k.cmp(b, a) }
	}
	want := slices.Clone(in)
	slices.SortStableFunc(want, c)
	if strings.Contains(name, "Stable") {
		if !same(want, got) {
			return "want " + showItems(want)
		}
		return ""
	}
	rest := slices.Clone(in)
	for _, x := range got {
		i := slices.IndexFunc(rest, func(y any) bool { return x == y || equal(x, y) })
		if i < 0 {
			return "which is not a permutation"
		}
		rest = slices.Delete(rest, i, i+1)
	}
	if len(rest) > 0 {
		return "which is not a permutation"
	}
	if !slices.IsSortedFunc(got, c) {
		return "which is not ordered"
	}
	return ""
}

// snapshot deep-copies the lists of an argument.
func snapshot(a *Arg) *Arg {
	c := *a
	c.LI, c.LJ, c.LK, c.LS, c.LD, c.LB, c.LM = slices.Clone(a.LI), slices.Clone(a.LJ), slices.Clone(a.LK), slices.Clone(a.LS), slices.Clone(a.LD), slices.Clone(a.LB), slices.Clone(a.LM)
	return &c
}

func listMode(seed int64, n int) {
	var wg sync.WaitGroup
	var evals, distinct int
	nontrivial := func(l []any) bool { return len(l) > 1 }
	run := func(name string, f func(r *rand.Rand) bool) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed*7919 + int64(len(name)) + int64(name[0])*131 + int64(name[len(name)-1])))
			d := 0
			for i := 0; i < n; i++ {
				if f(r) {
					d++
				}
			}
			mu.Lock()
			evals += n
			distinct += d
			mu.Unlock()
			count("families", 1)
		}()
	}
	for _, s := range srcs {
		for _, so := range sorts {
			run(s.name+" "+so, func(r *rand.Rand) bool {
				a := &Arg{}
				gList(r, a)
				keep := snapshot(a)
				k := s.keys[r.Intn(len(s.keys))]
				expr := fmt.Sprintf("%s.%s(v, %s)", s.expr, so, k.expr)
				in := s.items(a)
				o := eval(expr, a, nil)
				got, ok := items(o.v)
				if o.err != nil || o.panicked != nil || !ok {
					viol(s.name+"."+so, "%s of %s gives %s", expr, showItems(in), o)
					return false
				}
				if why := judgeSorted(so, k, in, got); why != "" {
					viol(s.name+"."+so, "%s of %s gives %s, %s", expr, showItems(in), showItems(got), why)
				}
				if !reflect.DeepEqual(keep, a) {
					viol(s.name+"."+so+"/pure", "%s modifies the message argument: %s became %s", expr, showArg(keep), showArg(a))
				}
				return nontrivial(in)
			})
		}
		run(s.name+" purity", func(r *rand.Rand) bool {
			// a list is the same before and after its sorted versions were made
			a := &Arg{}
			gList(r, a)
			keep := snapshot(a)
			k, k2 := s.keys[r.Intn(len(s.keys))], s.keys[r.Intn(len(s.keys))]
			s1, s2 := sorts[r.Intn(4)], sorts[r.Intn(4)]
			expr := fmt.Sprintf("[%s].map(l, [l, l.%s(v, %s), l, l.%s(v, %s), l])[0]", s.expr, s1, k.expr, s2, k2.expr)
			in := s.items(a)
			o := eval(expr, a, nil)
			got, ok := items(o.v)
			if o.err != nil || !ok || len(got) != 5 {
				viol(s.name+".pure", "%s of %s gives %s", expr, showItems(in), o)
				return false
			}
			for i, g := range got {
				l, _ := items(g)
				switch i {
				case 1:
					if why := judgeSorted(s1, k, in, l); why != "" {
						viol(s.name+".pure", "element 1 of %s of %s is %s, %s", expr, showItems(in), showItems(l), why)
					}
				case 3:
					if why := judgeSorted(s2, k2, in, l); why != "" {
						viol(s.name+".pure", "element 3 of %s of %s is %s, %s", expr, showItems(in), showItems(l), why)
					}
				default:
					if !same(in, l) {
						viol(s.name+".pure", "element %d of %s is %s: the list %s was modified", i, expr, showItems(l), showItems(in))
					}
				}
			}
			if !reflect.DeepEqual(keep, a) {
				viol(s.name+".pure", "%s modifies the message argument", expr)
			}
			return nontrivial(in)
		})
		run(s.name+" chain", func(r *rand.Rand) bool {
			// a chain of stable sorts orders by the last key, then the one before
			a := &Arg{}
			gList(r, a)
			in := s.items(a)
			want := slices.Clone(in)
			expr := s.expr
			for i := 1 + r.Intn(3); i > 0; i-- {
				k := s.keys[r.Intn(len(s.keys))]
				if r.Intn(2) == 0 {
					expr += fmt.Sprintf(".sortStableAsc(v, %s)", k.expr)
					slices.SortStableFunc(want, k.cmp)
				} else {
					expr += fmt.Sprintf(".sortStableDesc(v, %s)", k.expr)
					slices.SortStableFunc(want, func(a, b any) int { return k.cmp(b, a) })
				}
			}
			o := eval(expr, a, nil)
			got, ok := items(o.v)
			if o.err != nil || !ok || !same(want, got) {
				viol(s.name+".chain", "%s of %s gives %s, want %s", expr, showItems(in), o, showItems(want))
			}
			return nontrivial(in)
		})
		run(s.name+" first", func(r *rand.Rand) bool {
			a := &Arg{}
			gList(r, a)
			in := s.items(a)
			k := s.keys[r.Intn(len(s.keys))]
			var expr string
			var want any = "none"
			if len(in) > 0 && r.Intn(2) == 0 {
				// the first element whose key equals that of a given position
				p := r.Intn(len(in))
				expr = fmt.Sprintf("%s.first(v, (%s) == %s[%d].transform(%s))", s.expr, k.expr, s.expr, p, k.expr)
				expr = fmt.Sprintf("[%s].map(l, l.first(v, [l[%d]].map(v, %s)[0] == (%s)))[0]", s.expr, p, k.expr, k.expr)
				for _, x := range in {
					if k.cmp(x, in[p]) == 0 {
						want = x
						break
					}
				}
			} else {
				expr = fmt.Sprintf("%s.first(v, (%s) != (%s))", s.expr, k.expr, k.expr)
			}
			o := eval(expr+".hasValue()", a, nil)
			if o.err != nil || o.v != any(want != "none") {
				viol(s.name+".first", "%s.hasValue() of %s gives %s, want %v", expr, showItems(in), o, want != "none")
			}
			if want != "none" {
				o := eval(expr+".value()", a, nil)
				if o.err != nil || !same([]any{want}, []any{native(o.v)}) {
					viol(s.name+".first", "%s.value() of %s gives %s, want %s", expr, showItems(in), o, showItems([]any{want}))
				}
			} else if len(in) > 0 {
				o := eval("["+s.expr+"].map(l, "+strings.ReplaceAll(expr, s.expr, "l")+".orValue(l["+fmt.Sprint(len(in)-1)+"]))[0]", a, nil)
				if o.err != nil || !same([]any{in[len(in)-1]}, []any{native(o.v)}) {
					viol(s.name+".first", "orValue of the empty result of %s of %s gives %s", expr, showItems(in), o)
				}
			}
			return nontrivial(in)
		})
		run(s.name+" reduce", func(r *rand.Rand) bool {
			a := &Arg{}
			gList(r, a)
			in := s.items(a)
			// collecting, prepending and counting show order, direction and initial value
			expr, want := s.expr+".reduce(acc, cur, acc + [cur], [])", slices.Clone(in)
			switch r.Intn(3) {
			case 0:
				expr = s.expr + ".reduce(acc, cur, [cur] + acc, [])"
				slices.Reverse(want)
			case 1:
				if len(in) == 0 {
					break
				}
				expr = fmt.Sprintf("%s.reduce(cur, acc, cur + [acc], [%s[0]])", s.expr, s.expr)
				want = append([]any{in[0]}, want...)
			}
			o := eval(expr, a, nil)
			got, ok := items(o.v)
			if o.err != nil || !ok || !same(want, got) {
				viol(s.name+".reduce", "%s of %s gives %s, want %s", expr, showItems(in), o, showItems(want))
			}
			return nontrivial(in)
		})
	}
	run("reduce fold", func(r *rand.Rand) bool {
		a := &Arg{}
		gList(r, a)
		want := a.I0
		for _, x := range a.LI {
			want = (want*31 + x) % 1000003
		}
		if o := eval("$.li.reduce(acc, cur, (acc * 31 + cur) % 1000003, $.i0)", a, nil); o.err != nil || o.v != any(want) {
			viol("reduce", "fold of %v from %d gives %s, want %d", a.LI, a.I0, o, want)
		}
		return len(a.LI) > 1
	})
	run("reduce nested", func(r *rand.Rand) bool {
		// the inner reduction shadows the variables of the outer one
		a := &Arg{}
		gList(r, a)
		want := int64(0)
		for _, x := range a.LI {
			in := x
			for _, y := range a.LJ {
				in = (in*7 + y) % 10007
			}
			want = (want*3 + in) % 10007
		}
		if o := eval("$.li.reduce(acc, cur, (acc * 3 + $.lj.reduce(acc, cur, (acc * 7 + cur) % 10007, cur)) % 10007, 0)", a, nil); o.err != nil || o.v != any(want) {
			viol("reduce nested", "nested fold of %v and %v gives %s, want %d", a.LI, a.LJ, o, want)
		}
		return len(a.LI) > 1 && len(a.LJ) > 1
	})
	run("flatten levels", func(r *rand.Rand) bool {
		a := &Arg{}
		gList(r, a)
		L := [][]int64{a.LI, a.LJ, a.LK}
		e := []string{"$.li", "$.lj", "$.lk"}
		// a random list of lists of lists
		var expr []string
		var one []any // after one flatten: lists
		var two []any
		for i := r.Intn(4); i > 0; i-- {
			var in []string
			for j := r.Intn(4); j > 0; j-- {
				x := r.Intn(3)
				in = append(in, e[x])
				one = append(one, anys(L[x]))
				two = append(two, anys(L[x])...)
			}
			expr = append(expr, "["+strings.Join(in, ", ")+"]")
		}
		if len(expr) == 0 || len(one) == 0 {
			return false
		}
		x := "[" + strings.Join(expr, ", ") + "]"
		o := eval(x+".flatten()", a, nil)
		got, ok := items(o.v)
		if o.err != nil || !ok || len(got) != len(one) {
			viol("flatten", "%s.flatten() gives %s, want %v", x, o, one)
			return false
		}
		for i := range got {
			l, ok := items(got[i])
			if !ok || !same(one[i].([]any), l) {
				viol("flatten", "element %d of %s.flatten() is %v, want %v", i, x, got[i], one[i])
			}
		}
		o = eval(x+".flatten().flatten()", a, nil)
		got, ok = items(o.v)
		if o.err != nil || !ok || !same(two, got) {
			viol("flatten", "%s.flatten().flatten() gives %s, want %v", x, o, two)
		}
		return len(two) > 1
	})
	run("nan keys", func(r *rand.Rand) bool {
		// values without an order: still a permutation
		a := &Arg{}
		gList(r, a)
		for i := range a.LD {
			if r.Intn(3) == 0 {
				a.LD[i] = math.NaN()
			}
		}
		so := sorts[r.Intn(4)]
		o := eval("$.ld."+so+"(v, v)", a, nil)
		got, ok := items(o.v)
		if o.err != nil || !ok {
			viol("nan", "$.ld.%s(v, v) of %v gives %s", so, a.LD, o)
			return false
		}
		bits := func(l []any) []uint64 {
			var r []uint64
			for _, x := range l {
				r = append(r, math.Float64bits(x.(float64)))
			}
			slices.Sort(r)
			return r
		}
		if !slices.Equal(bits(got), bits(anys(a.LD))) {
			viol("nan", "$.ld.%s(v, v) of %v gives %v: not a permutation", so, a.LD, got)
		}
		return len(a.LD) > 1
	})
	run("failing key", func(r *rand.Rand) bool {
		// the error of one key is the error of the sort
		a := &Arg{}
		gList(r, a)
		zero := slices.Contains(a.LI, 0)
		so := sorts[r.Intn(4)]
		o := eval("$.li."+so+"(v, 12 / v)", a, nil)
		if (o.err != nil) != zero || o.panicked != nil {
			viol("failing key", "$.li.%s(v, 12 / v) of %v gives %s", so, a.LI, o)
		}
		return zero
	})
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Minute):
		viol("termination", "list expressions did not terminate within 10 minutes")
	}
	mu.Lock()
	fmt.Printf("EVAL %d %d\n", evals, distinct)
	mu.Unlock()
}
