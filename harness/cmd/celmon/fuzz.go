package main

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/google/cel-go/cel"
	"github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	grpcfed "github.com/mercari/grpc-federation/grpc/federation"
	grpcfedcel "github.com/mercari/grpc-federation/grpc/federation/cel"
)

// A typed generator of expressions. Types are named by the text of the CEL type.
const (
	tInt, tUint, tDbl, tStr, tBool, tBytes, tDur, tTs = "int", "uint", "double", "string", "bool", "bytes", "google.protobuf.Duration", "google.protobuf.Timestamp"
	tTime, tLoc, tURL                                 = "grpc.federation.time.Time", "grpc.federation.time.Location", "grpc.federation.url.URL"
)

func list(t string) string { return "list(" + t + ")" }

var scalarTypes = []string{tInt, tUint, tDbl, tStr, tBool, tBytes, tDur, tTs}

type libFn struct {
	expr  string
	out   string
	heavy bool // its operands stay fields: the size of its result depends on their values
}

var (
	operandRe = regexp.MustCompile(`\$\.([a-z]+)[0-9]?\b`)
	leafTypes = map[string]string{"s": tStr, "i": tInt, "u": tUint, "d": tDbl, "b": tBool, "y": tBytes}
	heavyRe   = regexp.MustCompile(`repeat|[fF]ormat(Float|Complex)|append(Float|Complex)|[rR]eplace|[jJ]oin`)
	neverRe   = regexp.MustCompile(`strings\.repeat\(`)
	unstable  = regexp.MustCompile(`now\(|rand\.|uuid\.|Local|local\(`)
)

type gen struct {
	r    *rand.Rand
	lib  map[string][]libFn // by result type
	vars []v                // macro variables in scope
	next int
}
type v struct{ name, typ string }

func (g *gen) pick(l ...string) string { return l[g.r.Intn(len(l))] }

func (g *gen) leaf(t string) string {
	for _, x := range g.vars {
		if x.typ == t && g.r.Intn(2) == 0 {
			return x.name
		}
	}
	switch t {
	case tInt:
		return g.pick("$.i0", "$.i1", "$.i2", "$.i3", "0", "1", "-1", "2", "9223372036854775807", "-9223372036854775808", "7", "$.ls.size()", "size($.s0)", "size($.lm)")
	case tUint:
		return g.pick("$.u0", "0u", "1u", "18446744073709551615u", "3u")
	case tDbl:
		return g.pick("$.d0", "$.d1", "0.0", "-0.0", "1.5", "1e308", "0.0/0.0")
	case tStr:
		return g.pick("$.s0", "$.s1", "$.s2", "$.s3", "''", "'a'", "'日本'", "'\\n'", "'$x'", "r'\\d+'", "'''q'''", "\"%s\"", "'😀'")
	case tBool:
		return g.pick("$.b0", "true", "false")
	case tBytes:
		return g.pick("$.y0", "b''", "b'\\xff\\x00a'", "b'abc'")
	case tDur:
		return g.pick("duration('1s')", "duration('-1.5h')", "grpc.federation.time.toDuration($.i0)", "duration($.s0)", "duration('0s')")
	case tTs:
		return g.pick("timestamp(0)", "timestamp('2024-02-29T12:00:00.5Z')", "timestamp($.s0)", "timestamp($.i0)", "timestamp('9999-12-31T23:59:59Z')", "grpc.federation.time.unix($.i0, $.i1).timestamp", "$.lm[0].timestamp")
	case tTime:
		return g.pick("$.lm[0]", "$.lm[1]", "grpc.federation.time.unix($.i0, $.i1)", "timestamp($.i0).asTime()", "$.lm[0].timestamp.asTime()", "grpc.federation.time.date($.i0, $.i1, $.i2, 1, 2, 3, 4, grpc.federation.time.UTC())", "$.lm.first(z, true).orValue($.lm[0])")
	case tLoc:
		return g.pick("$.lm[0].loc", "grpc.federation.time.UTC()", "grpc.federation.time.fixedZone($.s0, $.i2)", "grpc.federation.time.loadLocation('Asia/Tokyo')")
	case tURL:
		return g.pick("grpc.federation.url.parse($.s0)", "grpc.federation.url.parse('https://u:p@h:1/a?b=c#d')", "grpc.federation.url.parseRequestURI($.s1)")
	case list(tStr):
		return g.pick("$.ls", "[]", "['a', 'b', 'a']", "[$.s0, $.s1]")
	case list(tInt):
		return g.pick("$.li", "$.lj", "[]", "[1, 1, 2]", "[$.i0, $.i1, $.i2]")
	case list(tDbl):
		return g.pick("$.ld", "[]", "[$.d0, 0.0/0.0, $.d1]")
	case list(tBool):
		return g.pick("$.lb", "[true, false]")
	case list(tTime):
		return g.pick("$.lm", "$.lm.filter(z, true)")
	}
	if e, ok := strings.CutPrefix(t, "list("); ok {
		return "[" + g.leaf(strings.TrimSuffix(e, ")")) + "]"
	}
	if strings.HasPrefix(t, "optional_type(") {
		return "$." + map[string]string{tInt: "li", tStr: "ls", tDbl: "ld", tBool: "lb", tTime: "lm"}[optElem(t)] + ".first(z, " + g.pick("true", "false", "$.b0") + ")"
	}
	fs := g.lib[t]
	if len(fs) == 0 {
		return "$.i0"
	}
	return fs[g.r.Intn(len(fs))].expr
}

func opt(t string) string { return "optional_type(" + t + ")" }
func optElem(t string) string {
	if !strings.HasPrefix(t, "optional_type(") {
		return t
	}
	return strings.TrimSuffix(strings.TrimPrefix(t, "optional_type("), ")")
}

var optTypes = []string{opt(tInt), opt(tStr), opt(tDbl), opt(tBool), opt(tTime)}

func (g *gen) with(typ string, f func(name string)) {
	names := []string{"x", "y", "v", "item", "size", "e"}
	n := names[g.r.Intn(len(names))]
	g.vars = append(g.vars, v{n, typ})
	// an outer variable of the same name is hidden
	saved := append([]v{}, g.vars...)
	for i := range g.vars[:len(g.vars)-1] {
		if g.vars[i].name == n {
			g.vars[i].typ = ""
		}
	}
	f(n)
	copy(g.vars, saved)
	g.vars = g.vars[:len(g.vars)-1]
}

// elem is a random type of list elements.
func (g *gen) elem() string {
	return g.pick(tInt, tInt, tStr, tDbl, tBool, tTime, tUint, tBytes, tDur, list(tInt), list(tStr))
}

func (g *gen) gen(t string, d int) string {
	if d <= 0 || g.r.Intn(8) == 0 {
		return g.leaf(t)
	}
	d--
	if fs := g.lib[t]; len(fs) > 0 && g.r.Intn(3) == 0 {
		f := fs[g.r.Intn(len(fs))]
		if f.heavy || g.r.Intn(4) == 0 {
			return f.expr
		}
		return operandRe.ReplaceAllStringFunc(f.expr, func(o string) string {
			m := operandRe.FindStringSubmatch(o)
			if t := leafTypes[m[1]]; t != "" && g.r.Intn(2) == 0 {
				return "(" + g.gen(t, d-1) + ")"
			}
			return o
		})
	}
	switch g.r.Intn(7) {
	case 0:
		return "(" + g.gen(tBool, d) + " ? " + g.gen(t, d) + " : " + g.gen(t, d) + ")"
	case 1:
		if g.r.Intn(3) > 0 {
			l := []string{}
			for range 1 + g.r.Intn(3) {
				l = append(l, g.gen(t, d-1))
			}
			return "[" + strings.Join(l, ", ") + "][" + g.gen(tInt, 0) + "]"
		}
		return g.gen(list(t), d) + "[" + g.gen(tInt, d-1) + "]"
	case 2: // reduce
		et := g.elem()
		src := g.gen(list(et), d-1)
		var body string
		g.vars = append(g.vars, v{"acc", t}, v{"cur", et})
		body = g.gen(t, d-1)
		g.vars = g.vars[:len(g.vars)-2]
		return src + ".reduce(acc, cur, " + body + ", " + g.gen(t, 0) + ")"
	case 3:
		if o := opt(t); slices.Contains(optTypes, o) && g.r.Intn(2) == 0 {
			return g.gen(o, d) + ".orValue(" + g.gen(t, d-1) + ")"
		}
		return "{" + g.gen(tStr, d-1) + ": " + g.gen(t, d-1) + "}[" + g.gen(tStr, 0) + "]"
	}
	if o := optElem(t); o != t {
		e := g.gen(list(o), d)
		g.with(o, func(n string) { e += ".first(" + n + ", " + g.gen(tBool, d-1) + ")" })
		return e
	}
	switch t {
	case tInt:
		switch g.r.Intn(6) {
		case 0, 1:
			return "(" + g.gen(t, d) + " " + g.pick("+", "-", "*", "/", "%") + " " + g.gen(t, d) + ")"
		case 2:
			return "size(" + g.gen(g.pick(tStr, tBytes, list(g.elem())), d) + ")"
		case 3:
			return "int(" + g.gen(g.pick(tInt, tUint, tDbl, tStr, tTs), d) + ")"
		case 4:
			return g.gen(tTs, d) + "." + g.pick("getFullYear()", "getHours()", "getDayOfYear('Asia/Tokyo')", "getMonth("+g.gen(tStr, 0)+")")
		}
		return "-(" + g.gen(t, d) + ")"
	case tUint:
		return g.pick("("+g.gen(t, d)+" "+g.pick("+", "-", "*", "/", "%")+" "+g.gen(t, d)+")", "uint("+g.gen(g.pick(tInt, tDbl, tStr), d)+")")
	case tDbl:
		return g.pick("("+g.gen(t, d)+" "+g.pick("+", "-", "*", "/")+" "+g.gen(t, d)+")", "double("+g.gen(g.pick(tInt, tUint, tStr), d)+")")
	case tStr:
		switch g.r.Intn(5) {
		case 0:
			return "string(" + g.gen(g.pick(scalarTypes...), d) + ")"
		case 1:
			return "(" + g.gen(t, d) + " + " + g.gen(t, d) + ")"
		case 2:
			return g.gen(t, d) + g.pick(".trim()", ".lowerAscii()", ".substring("+g.gen(tInt, d)+")", ".charAt("+g.gen(tInt, d)+")", ".substring("+g.gen(tInt, d)+", "+g.gen(tInt, d)+")", ".reverse()")
		case 3:
			return g.gen(tLoc, d) + ".name"
		}
		return "(" + g.gen(list(tStr), d) + ").join('-')"
	case tBool:
		switch g.r.Intn(8) {
		case 0, 1:
			x := g.pick(scalarTypes...)
			return "(" + g.gen(x, d) + " " + g.pick("==", "!=", "<", "<=", ">", ">=") + " " + g.gen(x, d) + ")"
		case 2:
			return "(" + g.gen(t, d) + " " + g.pick("&&", "||") + " " + g.gen(t, d) + ")"
		case 3:
			return "!" + g.gen(t, d)
		case 4:
			et := g.elem()
			return "(" + g.gen(et, d) + " in " + g.gen(list(et), d) + ")"
		case 5:
			et := g.elem()
			s := g.gen(list(et), d)
			g.with(et, func(n string) {
				s += "." + g.pick("all", "exists", "exists_one") + "(" + n + ", " + g.gen(tBool, d-1) + ")"
			})
			return s
		case 6:
			m := g.pick(tTime, tLoc, tURL)
			l, r := g.gen(m, d), "null"
			if g.r.Intn(2) == 0 {
				l, r = r, l
			}
			return "(" + l + " " + g.pick("==", "!=") + " " + r + ")"
		}
		return g.gen(tStr, d) + g.pick(".contains(", ".startsWith(", ".matches(") + g.gen(tStr, d) + ")"
	case tBytes:
		return "bytes(" + g.gen(tStr, d) + ")" // no concatenation: see the finding bytes-add
	case tDur:
		return g.pick("("+g.gen(t, d)+" "+g.pick("+", "-")+" "+g.gen(t, d)+")", "("+g.gen(tTs, d)+" - "+g.gen(tTs, d)+")", "duration("+g.gen(tStr, d)+")")
	case tTs:
		return g.pick("("+g.gen(t, d)+" "+g.pick("+", "-")+" "+g.gen(tDur, d)+")", "timestamp("+g.gen(g.pick(tInt, tStr), d)+")", g.gen(tTime, d)+".timestamp")
	case tTime:
		return g.pick(g.gen(list(tTime), d)+"["+g.gen(tInt, 0)+"]", "grpc.federation.time.unix("+g.gen(tInt, d)+", "+g.gen(tInt, d)+")")
	case tLoc:
		return g.gen(tTime, d) + ".loc"
	case tURL:
		return "grpc.federation.url.parse(" + g.gen(tStr, d) + ")"
	}
	if e, ok := strings.CutPrefix(t, "list("); ok {
		e = strings.TrimSuffix(e, ")")
		switch g.r.Intn(6) {
		case 0:
			l := []string{}
			for range g.r.Intn(4) {
				l = append(l, g.gen(e, d-1))
			}
			return "[" + strings.Join(l, ", ") + "]"
		case 1:
			return "(" + g.gen(t, d-1) + " + " + g.gen(t, d-1) + ")"
		case 2:
			return "[" + g.gen(t, d-1) + ", " + g.gen(t, d-1) + "].flatten()"
		case 3:
			s := g.gen(t, d-1)
			g.with(e, func(n string) {
				s += "." + g.pick("sortAsc", "sortDesc", "sortStableAsc", "sortStableDesc") + "(" + n + ", " + g.gen(g.pick(tInt, tStr, tDbl, tBool, tTs, tDur, tUint, tBytes), d-1) + ")"
			})
			return s
		case 4:
			s := g.gen(t, d-1)
			g.with(e, func(n string) { s += ".filter(" + n + ", " + g.gen(tBool, d-1) + ")" })
			return s
		}
		et := g.elem()
		s := g.gen(list(et), d-1)
		g.with(et, func(n string) { s += ".map(" + n + ", " + g.gen(e, d-1) + ")" })
		return s
	}
	return g.leaf(t)
}

var tokenRe = regexp.MustCompile(`[A-Za-z_.]+|[0-9]+|"[^"]*"|'[^']*'|\s+|.`)
var tokens = []string{"$", "$.", ".", "?", ":", "[", "]", "(", ")", "{", "}", ",", "null", "true", "1", "-1", "1u", "1.5", "''", "[]", "{}", "==", "!=", "in", "&&", "!", "-", "$.lm", "$.ls", "$.s0", "$.i0", ".first(x, true)", ".flatten()", ".sortAsc(v, v)",
	".sortDesc(v, v.loc)", ".reduce(a, b, a, b)", ".size()", ".map(x, x)", ".first(x)", ".sortAsc(1, 2)", ".reduce(a.b, c, d, 1)", "has($.lm[0].loc)", "dyn($.lm)", "type(1)", "[?0]", ".orValue(1)", "optional.none()", "optional.of($.lm)", "cel.bind(x, 1, x)",
	"grpc.federation.time.Time{}", "google.protobuf.Int64Value{value: 1}", "google.protobuf.Value{}", "[[1], [[2]]]", ".toString()", ".add(1)", ".join('a')", ".format(['x'])", "{1: 2, 'a': [3]}", "\x00", "日", "`", "\\", "@in", "grpc.federation.list.@sortAsc([3,1],[1,2])", "grpc.federation.@castNull", "__ARG__"}

func (g *gen) mutate(s string) string {
	t := tokenRe.FindAllString(s, -1)
	for range []int{1, 1, 2, 3}[g.r.Intn(4)] {
		if len(t) == 0 {
			break
		}
		i := g.r.Intn(len(t))
		switch g.r.Intn(5) {
		case 0:
			t = append(t[:i:i], t[i+1:]...)
		case 1:
			t[i] = tokens[g.r.Intn(len(tokens))]
		case 2, 3:
			t = append(t[:i:i], append([]string{tokens[g.r.Intn(len(tokens))]}, t[i:]...)...)
		case 4:
			j := g.r.Intn(len(t))
			t[i], t[j] = t[j], t[i]
		}
	}
	return strings.Join(t, "")
}

// canon renders a value so that equal values have equal texts.
func canon(x any) string {
	switch y := x.(type) {
	case nil:
		return "nil"
	case *Elem:
		if y == nil {
			return "nil"
		}
		return fmt.Sprintf("Time{%s %s}", canon(y.Loc), y.Timestamp.String())
	case *grpcfedcel.Location:
		if y == nil {
			return "nil"
		}
		return fmt.Sprintf("Loc{%q %d}", y.Name, y.Offset)
	case proto.Message:
		if reflect.ValueOf(y).IsNil() {
			return "nil"
		}
		b, err := protojson.Marshal(y)
		if err != nil {
			return "unmarshalable " + err.Error()
		}
		return string(y.ProtoReflect().Descriptor().FullName()) + strings.ReplaceAll(string(b), " ", "")
	case ref.Val:
		return canon(y.Value())
	case []byte:
		return fmt.Sprintf("bytes %x", y)
	case map[ref.Val]ref.Val:
		var l []string
		for k, e := range y {
			l = append(l, canon(k)+":"+canon(e))
		}
		sort.Strings(l)
		return "{" + strings.Join(l, ",") + "}"
	}
	rv := reflect.ValueOf(x)
	switch rv.Kind() {
	case reflect.Slice:
		var l []string
		for i := range rv.Len() {
			l = append(l, canon(rv.Index(i).Interface()))
		}
		return "[" + strings.Join(l, ",") + "]"
	case reflect.Map:
		var l []string
		for it := rv.MapRange(); it.Next(); {
			l = append(l, canon(it.Key().Interface())+":"+canon(it.Value().Interface()))
		}
		sort.Strings(l)
		return "{" + strings.Join(l, ",") + "}"
	}
	return fmt.Sprintf("%T %#v", x, x)
}

func canonArg(a *Arg) string {
	var l []string
	rv := reflect.ValueOf(*a)
	for i := range rv.NumField() {
		l = append(l, canon(rv.Field(i).Interface()))
	}
	return strings.Join(l, ";")
}

// conforms tells whether a value is one of the checked type.
func conforms(x any, t *types.Type) bool {
	if r, ok := x.(ref.Val); ok {
		if _, null := r.(types.Null); null {
			return conforms(nil, t)
		}
		x = r.Value()
	}
	if x == nil || reflect.ValueOf(x).Kind() == reflect.Ptr && reflect.ValueOf(x).IsNil() {
		return t.Kind() == types.StructKind || t.Kind() == types.NullTypeKind || t.Kind() == types.DynKind || t.Kind() == types.AnyKind || t.Kind() == types.OpaqueKind || t.Kind() == types.TypeParamKind || types.NewNullableType(types.IntType).IsAssignableType(t)
	}
	switch t.Kind() {
	case types.IntKind:
		switch reflect.ValueOf(x).Kind() {
		case reflect.Int64, reflect.Int32, reflect.Int:
			return true
		}
		return false
	case types.UintKind:
		k := reflect.ValueOf(x).Kind()
		return k == reflect.Uint64 || k == reflect.Uint32
	case types.DoubleKind:
		k := reflect.ValueOf(x).Kind()
		return k == reflect.Float64 || k == reflect.Float32
	case types.StringKind:
		return reflect.ValueOf(x).Kind() == reflect.String
	case types.BoolKind:
		return reflect.ValueOf(x).Kind() == reflect.Bool
	case types.BytesKind:
		_, ok := x.([]byte)
		return ok
	case types.DurationKind:
		switch x.(type) {
		case time.Duration, *durationpb.Duration:
			return true
		}
		return false
	case types.TimestampKind:
		switch x.(type) {
		case time.Time, *timestamppb.Timestamp:
			return true
		}
		return false
	case types.ListKind:
		rv := reflect.ValueOf(x)
		if rv.Kind() != reflect.Slice {
			return false
		}
		for i := range rv.Len() {
			if !conforms(rv.Index(i).Interface(), t.Parameters()[0]) {
				return false
			}
		}
		return true
	case types.StructKind:
		if m, ok := x.(proto.Message); ok {
			return string(m.ProtoReflect().Descriptor().FullName()) == t.TypeName()
		}
	}
	return true
}

// outTypes are the Go types generated code asks for.
var outTypes = map[string]reflect.Type{}

func init() {
	for t, z := range map[string]any{tInt: int64(0), tUint: uint64(0), tDbl: float64(0), tStr: "", tBool: false, tBytes: []byte(nil), "timestamp": (*timestamppb.Timestamp)(nil), "duration": (*durationpb.Duration)(nil), tTs: (*timestamppb.Timestamp)(nil), tDur: (*durationpb.Duration)(nil),
		list(tInt): []int64(nil), list(tStr): []string(nil), list(tDbl): []float64(nil), list(tBool): []bool(nil), tTime: (*Elem)(nil), tLoc: (*grpcfedcel.Location)(nil), list(tTime): []*Elem(nil)} {
		outTypes[t] = reflect.TypeOf(z)
		outTypes[opt(t)] = reflect.TypeOf(z)
	}
}

type prog struct {
	goType   reflect.Type
	dyn      bool
	expr     string
	accepted bool
	out      *types.Type
	stable   bool
	mutated  bool
}

func evalIn(caches *grpcfed.CELCacheMap, ix int, p prog, a *Arg, lv *grpcfed.LocalValue) (o outcome, slow bool) {
	done := make(chan outcome, 1)
	go func() {
		var o outcome
		defer func() {
			if x := recover(); x != nil {
				o = outcome{panicked: x}
			}
			done <- o
		}()
		ctx := grpcfed.WithCELCacheMap(context.Background(), caches)
		if lv == nil {
			lv = grpcfed.NewLocalValue(ctx, envOpts, "celmon.Arg", a)
		}
		r, err := grpcfed.EvalCEL(ctx, &grpcfed.EvalCELRequest{Value: lv, Expr: p.expr, CacheIndex: ix, OutType: p.goType})
		o = outcome{v: r, err: err}
	}()
	select {
	case o := <-done:
		return o, false
	case <-time.After(60 * time.Second):
		return outcome{}, true
	}
}

func text(o outcome) string {
	switch {
	case o.panicked != nil:
		return fmt.Sprintf("PANIC %v", o.panicked)
	case o.err != nil:
		return "error " + o.err.Error()
	}
	return canon(o.v)
}

// gAny fills every operand.
func gAny(r *rand.Rand, a *Arg) {
	gList(r, a)
	short := func(n int) int { return min(n, 6) }
	a.LI, a.LJ, a.LK, a.LS, a.LD, a.LB, a.LM = a.LI[:short(len(a.LI))], a.LJ[:short(len(a.LJ))], a.LK[:short(len(a.LK))], a.LS[:short(len(a.LS))], a.LD[:short(len(a.LD))], a.LB[:short(len(a.LB))], a.LM[:short(len(a.LM))]
	for i := range a.LM {
		switch r.Intn(8) {
		case 0:
			a.LM[i].Loc = nil
		case 1:
			a.LM[i].Timestamp = nil
		case 2:
			a.LM[i].Timestamp = &timestamppb.Timestamp{Seconds: rint(r), Nanos: int32(rint(r))}
		}
	}
	a.S0, a.S1, a.S2, a.S3 = rstr(r), rstr(r), rstr(r), rstr(r)
	a.I0, a.I1, a.I2, a.I3, a.I4, a.I5 = rint(r), rint(r), rint(r), rint(r), rint(r), rint(r)
	if r.Intn(2) == 0 {
		a.I0, a.I1, a.I2 = int64(r.Intn(5)), int64(r.Intn(70)), int64(r.Intn(13))
	}
	a.U0 = r.Uint64() >> uint(r.Intn(64))
	a.D0, a.D1 = rfloat(r), rfloat(r)
	a.B0 = r.Intn(2) == 0
	a.Y0 = rbytes(r)
}

// fuzz evaluates random expressions sequentially and concurrently.
func fuzz(seed int64, n int) {
	var fns []fn
	for _, l := range [][]fn{stringFns(), mathFns(), randFns(), urlFns(), enumFns(), timeFns(), stdFns()} {
		fns = append(fns, l...)
	}
	ctx := context.Background()
	lv := grpcfed.NewLocalValue(ctx, envOpts, "celmon.Arg", &Arg{})
	env, err := grpcfed.NewCELEnv(append(append([]cel.EnvOption{}, envOpts...), cel.Variable(grpcfed.MessageArgumentVariableName, grpcfed.NewCELObjectType("celmon.Arg")))...)
	_ = lv
	if err != nil {
		fmt.Println("VIOL no environment: " + err.Error())
		return
	}
	lib := map[string][]libFn{}
	for _, f := range fns {
		if neverRe.MatchString(f.expr) {
			continue
		}
		ast, iss := env.Compile(grpcfed.ReplaceMessageArgument(f.expr))
		if iss.Err() != nil {
			continue
		}
		k := ast.OutputType().String()
		lib[k] = append(lib[k], libFn{f.expr, k, heavyRe.MatchString(f.expr)})
	}
	count("library_entries", len(fns))
	count("result_types", len(lib))
	var allTypes []string
	for t := range lib {
		allTypes = append(allTypes, t)
	}
	sort.Strings(allTypes)
	const batch = 48
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	evals, accepted := 0, 0
	for b := range (n + batch - 1) / batch {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			r := rand.New(rand.NewSource(seed*1000003 + int64(b)))
			var ps []prog
			for range batch {
				g := &gen{r: r, lib: lib}
				t := allTypes[r.Intn(len(allTypes))]
				if r.Intn(2) == 0 {
					t = g.pick(tInt, tStr, tBool, tDbl, list(tInt), list(tStr), list(tTime), list(list(tInt)), tTime, optTypes[r.Intn(len(optTypes))])
				}
				p := prog{expr: g.gen(t, 2+r.Intn(4))}
				if r.Intn(4) == 0 {
					p.expr, p.mutated = g.mutate(p.expr), true
				}
				if strings.Contains(p.expr, "repeat(") || len(p.expr) > 3000 {
					continue
				}
				p.stable = !unstable.MatchString(p.expr)
				func() {
					defer func() {
						if x := recover(); x != nil {
							viol("checker", "checking %s panicked: %v", p.expr, x)
						}
					}()
					ast, iss := env.Compile(grpcfed.ReplaceMessageArgument(p.expr))
					if p.accepted = iss.Err() == nil; p.accepted {
						p.out = ast.OutputType()
						p.goType = outTypes[p.out.String()]
						p.dyn = hasDyn(ast)
					} else if !p.mutated && os.Getenv("CELMON_DEBUG") != "" {
						fmt.Println("REJECTED", p.expr, strings.ReplaceAll(iss.Err().Error(), "\n", " | "))
					}
				}()
				if os.Getenv("CELMON_DEBUG") == "2" {
					fmt.Println("EXPR", p.expr)
				}
				if p.accepted && p.goType == nil && strings.HasPrefix(p.out.String(), "optional_type") {
					continue // no definition can have this type
				}
				ps = append(ps, p)
			}
			var args []*Arg
			var before []string
			for range 6 {
				a := &Arg{}
				gAny(r, a)
				args = append(args, a)
				before = append(before, canonArg(a))
			}
			want := make([][]string, len(ps))
			for i, p := range ps {
				want[i] = make([]string, len(args))
				cm := grpcfed.NewCELCacheMap()
				for j, a := range args {
					o, slow := evalIn(cm, 1, p, a, nil)
					want[i][j] = judgeFuzz(p, a, o, slow)
				}
			}
			check := func(phase string) {
				for j, a := range args {
					if s := canonArg(a); s != before[j] {
						viol("purity "+phase, "evaluating some of %q changed the argument from %s to %s", exprs(ps), before[j], s)
					}
				}
			}
			check("sequential")
			// definitions of one message share its variables, those of different requests the compiled expressions
			shared := grpcfed.NewCELCacheMap()
			var lvs []*grpcfed.LocalValue
			for _, a := range args {
				for range 2 {
					lvs = append(lvs, grpcfed.NewLocalValue(grpcfed.WithCELCacheMap(context.Background(), shared), envOpts, "celmon.Arg", a))
				}
			}
			var cg sync.WaitGroup
			for w := range 6 {
				cg.Add(1)
				order := rand.New(rand.NewSource(seed + int64(b*7+w))).Perm(len(ps) * len(args))
				go func() {
					defer cg.Done()
					for _, k := range order {
						i, j := k%len(ps), k/len(ps)
						o, slow := evalIn(shared, i+1, ps[i], args[j], lvs[j*2+w%2])
						got := judgeFuzz(ps[i], args[j], o, slow)
						if ps[i].stable && got != want[i][j] {
							viol("concurrent", "%s with %s gives %.600s alone and %.600s concurrently", ps[i].expr, before[j], want[i][j], got)
						}
					}
				}()
			}
			cg.Wait()
			check("concurrent")
			mu.Lock()
			evals += len(ps) * len(args) * 7
			for _, p := range ps {
				if p.accepted {
					accepted++
				}
				switch {
				case p.mutated && p.accepted:
					counts["mutated_accepted"]++
				case p.mutated:
					counts["mutated_rejected"]++
				case p.accepted:
					counts["generated_accepted"]++
				default:
					counts["generated_rejected"]++
				}
			}
			if b < 2 {
				for _, p := range ps[:3] {
					fmt.Printf("SAMPLE %s -> %.200s\n", p.expr, strings.ReplaceAll(want[0][0], "\n", " "))
				}
			}
			mu.Unlock()
		}()
	}
	wg.Wait()
	a := &Arg{Y0: append(make([]byte, 0, 8), 'a')}
	if o := eval("[$.y0 + b'1', $.y0 + b'2']", a, nil); !equal(native(o.v), []any{"bytes:a1", "bytes:a2"}) {
		fmt.Printf("FINDING bytes-add [$.y0 + b'1', $.y0 + b'2'] with y0 = \"a\" gives %v\n", native(o.v))
	}
	fmt.Printf("EVAL %d %d\n", evals, accepted)
}

// hasDyn tells whether the checker gave up on some part of the expression.
func hasDyn(a *cel.Ast) bool {
	for _, t := range a.NativeRep().TypeMap() {
		if strings.Contains(t.String(), "dyn") || strings.Contains(t.String(), "any") {
			return true
		}
	}
	return false
}

func exprs(ps []prog) []string {
	var l []string
	for _, p := range ps {
		l = append(l, p.expr)
	}
	return l
}

var wsRe = regexp.MustCompile(`\s+`)

func judgeFuzz(p prog, a *Arg, o outcome, slow bool) string {
	switch {
	case slow:
		viol("hang", "%s with %s did not end within 60s", p.expr, showArg(a))
		return "slow"
	case o.panicked != nil:
		viol("panic", "%s with %s panicked: %v", p.expr, showArg(a), o.panicked)
	case !p.accepted:
		if o.err == nil {
			viol("unchecked", "%s is rejected by the checker, but evaluates to %s", p.expr, text(o))
		}
	case o.err != nil:
		count("evaluation_errors", 1)
		m := o.err.Error()
		switch {
		case strings.HasPrefix(m, "ERROR: <"):
			viol("recheck", "%s passes checking, but its evaluation fails to compile: %s", p.expr, m)
		case strings.Contains(m, "internal error"):
			count("contained_panics", 1)
			if os.Getenv("CELMON_DEBUG") != "" {
				fmt.Println("CONTAINED", m, p.expr)
			}
		case strings.Contains(m, "no such overload") && !p.dyn:
			viol("overload", "%s with %s: %s", p.expr, showArg(a), m)
		}
	default:
		count("values", 1)
		if !p.dyn && !conforms(o.v, p.out) {
			viol("type", "%s with %s gives %s, the checked type is %s", p.expr, showArg(a), text(o), p.out)
		}
	}
	if p.accepted {
		return wsRe.ReplaceAllString(text(o), " ")
	}
	return "rejected"
}
