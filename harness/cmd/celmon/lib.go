package main

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"net/url"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/google/uuid"
	"golang.org/x/text/cases"
	"golang.org/x/text/language"
	"google.golang.org/genproto/googleapis/rpc/code"
	"google.golang.org/grpc/metadata"
)

// fn is one documented function: the expression text, how operands are drawn,
// and the result its documentation promises.
type fn struct {
	name  string
	expr  string
	gen   func(r *rand.Rand, a *Arg)
	want  func(a *Arg) (any, error)
	skip  func(a *Arg) bool // operands the documentation does not define: only crashes count
	orErr func(a *Arg) bool // an evaluation error is as good as the result
}

var errDomain = errors.New("outside the domain")

func v1(v any) (any, error) { return v, nil }

func gS(r *rand.Rand, a *Arg) { a.S0 = rstr(r) }
func gSS(r *rand.Rand, a *Arg) {
	a.S0 = rstr(r)
	a.S1 = rsub(r, a.S0)
	a.S2 = rstr(r)
}
func gSI(r *rand.Rand, a *Arg) { gSS(r, a); a.I0 = rint(r) }
func gI(r *rand.Rand, a *Arg) {
	a.I0, a.I1, a.I2, a.I3, a.I4, a.I5 = rint(r), rint(r), rint(r), rint(r), rint(r), rint(r)
}
func gD(r *rand.Rand, a *Arg) { a.D0, a.D1 = rfloat(r), rfloat(r) }

var fmtPool = []string{"f", "e", "g", "E", "G", "b", "x", "X", "f", "g", "", "z", "%", "é"}

func gFmt(r *rand.Rand, a *Arg) {
	gD(r, a)
	a.S0, a.S1 = rstr(r), fmtPool[r.Intn(len(fmtPool))]
	a.Y0 = rbytes(r)
	a.I0 = []int64{-1, 0, 1, 2, 5, 17, 60, -2}[r.Intn(8)]
	a.I1 = []int64{32, 64, 64, 64, 128, 0, 16}[r.Intn(7)]
}
func rbytes(r *rand.Rand) []byte {
	b := make([]byte, 0, 32) // spare capacity, as a decoded field may have
	return append(b, rstr(r)...)
}
func gBase(r *rand.Rand, a *Arg) {
	a.I0, a.U0, a.S0, a.Y0 = rint(r), r.Uint64()>>uint(r.Intn(64)), rstr(r), rbytes(r)
	a.I1 = []int64{2, 8, 10, 10, 16, 36, 37, 1, 0, -1, 1 << 33}[r.Intn(11)]
}
func gRune(r *rand.Rand, a *Arg) {
	a.S0, a.Y0 = rstr(r), rbytes(r)
	if r.Intn(10) > 0 {
		a.S1 = string(runePool[r.Intn(len(runePool))])
	} else {
		a.S1 = ""
	}
}
func rune0(s string) (rune, error) {
	if s == "" {
		return 0, errDomain
	}
	x, _ := utf8.DecodeRuneInString(s)
	return x, nil
}
func complexFmt(a *Arg) (byte, error) {
	if a.S1 == "" {
		return 0, errDomain
	}
	return a.S1[0], nil
}
func notRune(a *Arg) bool   { return a.I0 < 0 || a.I0 > unicode.MaxRune }
func multiByte(a *Arg) bool { return len(a.S1) > 1 }

func str1(name string, f func(string) string) fn {
	return fn{name: name, expr: "grpc.federation.strings." + name + "($.s0)", gen: gS, want: func(a *Arg) (any, error) { return v1(f(a.S0)) }}
}
func str2[T any](name string, f func(a, b string) T) fn {
	return fn{name: name, expr: "grpc.federation.strings." + name + "($.s0, $.s1)", gen: gSS, want: func(a *Arg) (any, error) { return v1(native(f(a.S0, a.S1))) }}
}
func rn(name string, f func(rune) string) fn {
	return fn{name: name, expr: "grpc.federation.strings." + name + "($.s1)", gen: gRune, want: func(a *Arg) (any, error) {
		x, err := rune0(a.S1)
		if err != nil {
			return nil, err
		}
		return f(x), nil
	}}
}
func appendTo(name, rest string, gen func(*rand.Rand, *Arg), f func([]byte, *Arg) ([]byte, error), skip func(*Arg) bool) []fn {
	return []fn{
		{name: name + "/string", expr: "grpc.federation.strings." + name + "($.s0, " + rest + ")", gen: gen, skip: skip, want: func(a *Arg) (any, error) {
			b, err := f([]byte(a.S0), a)
			return string(b), err
		}},
		{name: name + "/bytes", expr: "grpc.federation.strings." + name + "($.y0, " + rest + ")", gen: gen, skip: skip, want: func(a *Arg) (any, error) {
			b, err := f([]byte(string(a.Y0)), a)
			return "bytes:" + string(b), err
		}},
		// the buffer given is a value: appending to it twice gives two independent results
		{name: name + "/twice", expr: "[" + "grpc.federation.strings." + name + "($.y0, " + rest + "), grpc.federation.strings.appendQuote($.y0, '####################'), $.y0]", gen: gen, skip: skip, want: func(a *Arg) (any, error) {
			b, err := f([]byte(string(a.Y0)), a)
			return []any{"bytes:" + string(b), "bytes:" + string(a.Y0) + "\"####################\"", "bytes:" + string(a.Y0)}, err
		}},
	}
}

func stringFns() []fn {
	rp := func(s string) string { return "grpc.federation.strings." + s }
	l := []fn{
		str1("clone", strings.Clone), str2("compare", strings.Compare), str2("contains", strings.Contains), str2("containsAny", strings.ContainsAny),
		{name: "containsRune", expr: rp("containsRune($.s0, $.i0)"), gen: gSI, orErr: notRune, want: func(a *Arg) (any, error) {
			if a.I0 != int64(int32(a.I0)) {
				return false, nil
			}
			return v1(strings.ContainsRune(a.S0, rune(a.I0)))
		}},
		str2("count", strings.Count),
		str2("cut", func(a, b string) []string { x, y, _ := strings.Cut(a, b); return []string{x, y} }),
		str2("cutPrefix", func(a, b string) string { x, _ := strings.CutPrefix(a, b); return x }),
		str2("cutSuffix", func(a, b string) string { x, _ := strings.CutSuffix(a, b); return x }),
		str2("equalFold", strings.EqualFold),
		{name: "fields", expr: rp("fields($.s0)"), gen: gS, want: func(a *Arg) (any, error) { return v1(native(strings.Fields(a.S0))) }},
		str2("hasPrefix", strings.HasPrefix), str2("hasSuffix", strings.HasSuffix), str2("index", strings.Index), str2("indexAny", strings.IndexAny),
		{name: "indexByte/string", expr: rp("indexByte($.s0, $.s1)"), gen: gSS, skip: multiByte, want: func(a *Arg) (any, error) {
			if a.S1 == "" {
				return nil, errDomain
			}
			return v1(int64(strings.IndexByte(a.S0, a.S1[0])))
		}},
		{name: "indexByte/bytes", expr: rp("indexByte($.s0, bytes($.s1))"), gen: gSS, skip: multiByte, want: func(a *Arg) (any, error) {
			if a.S1 == "" {
				return nil, errDomain
			}
			return v1(int64(strings.IndexByte(a.S0, a.S1[0])))
		}},
		{name: "lastIndexByte/string", expr: rp("lastIndexByte($.s0, $.s1)"), gen: gSS, skip: multiByte, want: func(a *Arg) (any, error) {
			if a.S1 == "" {
				return nil, errDomain
			}
			return v1(int64(strings.LastIndexByte(a.S0, a.S1[0])))
		}},
		{name: "lastIndexByte/bytes", expr: rp("lastIndexByte($.s0, bytes($.s1))"), gen: gSS, skip: multiByte, want: func(a *Arg) (any, error) {
			if a.S1 == "" {
				return nil, errDomain
			}
			return v1(int64(strings.LastIndexByte(a.S0, a.S1[0])))
		}},
		{name: "indexRune", expr: rp("indexRune($.s0, $.i0)"), gen: gSI, orErr: notRune, want: func(a *Arg) (any, error) {
			if a.I0 != int64(int32(a.I0)) {
				return int64(-1), nil
			}
			return v1(int64(strings.IndexRune(a.S0, rune(a.I0))))
		}},
		{name: "join", expr: rp("join($.ls, $.s0)"), gen: func(r *rand.Rand, a *Arg) { a.S0 = rstr(r); a.LS = rlist(r, r.Intn(5), rstr) }, want: func(a *Arg) (any, error) { return v1(strings.Join(a.LS, a.S0)) }},
		str2("lastIndex", strings.LastIndex), str2("lastIndexAny", strings.LastIndexAny),
		{name: "repeat", expr: rp("repeat($.s0, $.i0)"), gen: func(r *rand.Rand, a *Arg) {
			a.S0 = rstr(r)
			a.I0 = []int64{0, 1, 2, 3, 17, 100, -1, math.MinInt64, math.MaxInt64}[r.Intn(9)]
			if len(a.S0) < 2 && a.I0 == math.MaxInt64 { // would exhaust memory, in Go as well
				a.I0 = 5
			}
		}, want: func(a *Arg) (any, error) { return v1(strings.Repeat(a.S0, int(a.I0))) }},
		{name: "replace", expr: rp("replace($.s0, $.s1, $.s2, $.i0)"), gen: gSI, want: func(a *Arg) (any, error) {
			return v1(strings.Replace(a.S0, a.S1, a.S2, int(a.I0)))
		}},
		{name: "replaceAll", expr: rp("replaceAll($.s0, $.s1, $.s2)"), gen: gSS, want: func(a *Arg) (any, error) { return v1(strings.ReplaceAll(a.S0, a.S1, a.S2)) }},
		str2("split", strings.Split), str2("splitAfter", strings.SplitAfter),
		{name: "splitAfterN", expr: rp("splitAfterN($.s0, $.s1, $.i0)"), gen: gSI, want: func(a *Arg) (any, error) {
			return v1(native(strings.SplitAfterN(a.S0, a.S1, int(a.I0))))
		}},
		{name: "splitN", expr: rp("splitN($.s0, $.s1, $.i0)"), gen: gSI, want: func(a *Arg) (any, error) { return v1(native(strings.SplitN(a.S0, a.S1, int(a.I0)))) }},
		str1("title", func(s string) string { return cases.Title(language.English).String(s) }),
		str1("toLower", strings.ToLower), str1("toTitle", strings.ToTitle), str1("toUpper", strings.ToUpper),
		str2("toValidUTF8", strings.ToValidUTF8), str2("trim", strings.Trim), str2("trimLeft", strings.TrimLeft), str2("trimPrefix", strings.TrimPrefix),
		str2("trimRight", strings.TrimRight), str1("trimSpace", strings.TrimSpace), str2("trimSuffix", strings.TrimSuffix),
		{name: "atoi", expr: rp("atoi($.s0)"), gen: gS, want: func(a *Arg) (any, error) { x, err := strconv.Atoi(a.S0); return int64(x), err }},
		{name: "canBackquote", expr: rp("canBackquote($.s0)"), gen: gS, want: func(a *Arg) (any, error) { return v1(strconv.CanBackquote(a.S0)) }},
		{name: "formatBool", expr: rp("formatBool($.b0)"), gen: func(r *rand.Rand, a *Arg) { a.B0 = r.Intn(2) == 0 }, want: func(a *Arg) (any, error) { return v1(strconv.FormatBool(a.B0)) }},
		{name: "formatComplex", expr: rp("formatComplex($.ld, $.s1, $.i0, $.i1)"), gen: func(r *rand.Rand, a *Arg) {
			gFmt(r, a)
			a.I1 = []int64{64, 128, 128, 32, 0}[r.Intn(5)]
			a.LD = rlist(r, []int{2, 2, 2, 2, 1, 0}[r.Intn(6)], rfloat)
		}, want: func(a *Arg) (any, error) {
			f, err := complexFmt(a)
			if err != nil || len(a.LD) < 2 {
				return nil, errDomain
			}
			return v1(strconv.FormatComplex(complex(a.LD[0], a.LD[1]), f, int(a.I0), int(a.I1)))
		}, skip: multiByte},
		{name: "formatFloat", expr: rp("formatFloat($.d0, $.s1, $.i0, $.i1)"), gen: gFmt, want: func(a *Arg) (any, error) {
			f, err := complexFmt(a)
			if err != nil {
				return nil, err
			}
			return v1(strconv.FormatFloat(a.D0, f, int(a.I0), int(a.I1)))
		}, skip: multiByte},
		{name: "formatInt", expr: rp("formatInt($.i0, $.i1)"), gen: gBase, want: func(a *Arg) (any, error) { return v1(strconv.FormatInt(a.I0, int(a.I1))) }},
		{name: "formatUint", expr: rp("formatUint($.u0, $.i1)"), gen: gBase, want: func(a *Arg) (any, error) { return v1(strconv.FormatUint(a.U0, int(a.I1))) }},
		{name: "isGraphic/string", expr: rp("isGraphic($.s1)"), gen: gRune, skip: func(a *Arg) bool { return a.S1 == " " }, want: func(a *Arg) (any, error) {
			x, err := rune0(a.S1)
			return strconv.IsGraphic(x), err
		}},
		{name: "isPrint/string", expr: rp("isPrint($.s1)"), gen: gRune, want: func(a *Arg) (any, error) { x, err := rune0(a.S1); return strconv.IsPrint(x), err }},
		{name: "isGraphic/bytes", expr: rp("isGraphic(bytes($.s1))"), gen: gRune, skip: func(a *Arg) bool { return a.S1 == " " || len(a.S1) > 1 }, want: func(a *Arg) (any, error) {
			x, err := rune0(a.S1)
			return strconv.IsGraphic(x), err
		}},
		{name: "isPrint/bytes", expr: rp("isPrint(bytes($.s1))"), gen: gRune, skip: multiByte, want: func(a *Arg) (any, error) { x, err := rune0(a.S1); return strconv.IsPrint(x), err }},
		{name: "itoa", expr: rp("itoa($.i0)"), gen: gI, want: func(a *Arg) (any, error) { return v1(strconv.Itoa(int(a.I0))) }},
		{name: "parseBool", expr: rp("parseBool($.s0)"), gen: gS, want: func(a *Arg) (any, error) { return strconv.ParseBool(a.S0) }},
		{name: "parseComplex", expr: rp("parseComplex($.s0, $.i0)"), gen: func(r *rand.Rand, a *Arg) {
			a.S0 = []string{rstr(r), strconv.FormatComplex(complex(rfloat(r), rfloat(r)), 'g', -1, 128)}[r.Intn(2)]
			a.I0 = []int64{64, 128, 0}[r.Intn(3)]
		}, want: func(a *Arg) (any, error) {
			c, err := strconv.ParseComplex(a.S0, int(a.I0))
			return []any{real(c), imag(c)}, err
		}},
		{name: "parseFloat", expr: rp("parseFloat($.s0, $.i0)"), gen: func(r *rand.Rand, a *Arg) {
			a.S0 = []string{rstr(r), strconv.FormatFloat(rfloat(r), 'g', -1, 64)}[r.Intn(2)]
			a.I0 = []int64{32, 64, 0, 16}[r.Intn(4)]
		}, want: func(a *Arg) (any, error) { return strconv.ParseFloat(a.S0, int(a.I0)) }},
		{name: "parseInt", expr: rp("parseInt($.s0, $.i0, $.i1)"), gen: gParse, want: func(a *Arg) (any, error) { return strconv.ParseInt(a.S0, int(a.I0), int(a.I1)) }},
		{name: "parseUint", expr: rp("parseUint($.s0, $.i0, $.i1)"), gen: gParse, want: func(a *Arg) (any, error) { return strconv.ParseUint(a.S0, int(a.I0), int(a.I1)) }},
		str1("quote", strconv.Quote), rn("quoteRune", strconv.QuoteRune), rn("quoteRuneToASCII", strconv.QuoteRuneToASCII), rn("quoteRuneToGraphic", strconv.QuoteRuneToGraphic),
		str1("quoteToASCII", strconv.QuoteToASCII), str1("quoteToGraphic", strconv.QuoteToGraphic),
		{name: "quotedPrefix", expr: rp("quotedPrefix($.s0)"), gen: gQuoted, want: func(a *Arg) (any, error) { return strconv.QuotedPrefix(a.S0) }},
		{name: "unquote", expr: rp("unquote($.s0)"), gen: gQuoted, want: func(a *Arg) (any, error) { return strconv.Unquote(a.S0) }},
		{name: "unquoteChar", expr: rp("unquoteChar($.s0, $.s1)"), gen: func(r *rand.Rand, a *Arg) {
			a.S0 = []string{rstr(r), `\n`, `\'x`, `\"`, `\u65e5本`, `é`, `\x`, `\\`, "", "'"}[r.Intn(10)]
			a.S1 = []string{"'", `"`, "a", ""}[r.Intn(4)]
		}, want: func(a *Arg) (any, error) {
			if a.S1 == "" {
				return nil, errDomain
			}
			s, b, t, err := strconv.UnquoteChar(a.S0, a.S1[0])
			return []any{string(s), b, t}, err
		}},
	}
	q := func(f func([]byte, string) []byte) func([]byte, *Arg) ([]byte, error) {
		return func(b []byte, a *Arg) ([]byte, error) { return f(b, a.S1), nil }
	}
	qr := func(f func([]byte, rune) []byte) func([]byte, *Arg) ([]byte, error) {
		return func(b []byte, a *Arg) ([]byte, error) {
			x, err := rune0(a.S1)
			if err != nil {
				return nil, err
			}
			return f(b, x), nil
		}
	}
	gQ := func(r *rand.Rand, a *Arg) { a.S0, a.S1, a.Y0 = rstr(r), rstr(r), rbytes(r) }
	l = append(l, appendTo("appendBool", "$.b0", func(r *rand.Rand, a *Arg) { a.B0, a.S0, a.Y0 = r.Intn(2) == 0, rstr(r), rbytes(r) }, func(b []byte, a *Arg) ([]byte, error) { return strconv.AppendBool(b, a.B0), nil }, nil)...)
	l = append(l, appendTo("appendFloat", "$.d0, $.s1, $.i0, $.i1", gFmt, func(b []byte, a *Arg) ([]byte, error) {
		f, err := complexFmt(a)
		if err != nil {
			return nil, err
		}
		return strconv.AppendFloat(b, a.D0, f, int(a.I0), int(a.I1)), nil
	}, multiByte)...)
	l = append(l, appendTo("appendInt", "$.i0, $.i1", gBase, func(b []byte, a *Arg) ([]byte, error) { return strconv.AppendInt(b, a.I0, int(a.I1)), nil }, nil)...)
	l = append(l, appendTo("appendUint", "$.u0, $.i1", gBase, func(b []byte, a *Arg) ([]byte, error) { return strconv.AppendUint(b, a.U0, int(a.I1)), nil }, nil)...)
	l = append(l, appendTo("appendQuote", "$.s1", gQ, q(strconv.AppendQuote), nil)...)
	l = append(l, appendTo("appendQuoteToASCII", "$.s1", gQ, q(strconv.AppendQuoteToASCII), nil)...)
	l = append(l, appendTo("appendQuoteToGraphic", "$.s1", gQ, q(strconv.AppendQuoteToGraphic), nil)...)
	l = append(l, appendTo("appendQuoteRune", "$.s1", gRune, qr(strconv.AppendQuoteRune), nil)...)
	l = append(l, appendTo("appendQuoteRuneToASCII", "$.s1", gRune, qr(strconv.AppendQuoteRuneToASCII), nil)...)
	l = append(l, appendTo("appendQuoteRuneToGraphic", "$.s1", gRune, qr(strconv.AppendQuoteRuneToGraphic), nil)...)
	return l
}

func gParse(r *rand.Rand, a *Arg) {
	a.I0 = []int64{0, 2, 8, 10, 16, 36, 1, 37, -1}[r.Intn(9)]
	a.I1 = []int64{0, 8, 16, 32, 64, 65, -1}[r.Intn(7)]
	a.S0 = rstr(r)
	if r.Intn(2) == 0 {
		b := int(a.I0)
		if b < 2 || b > 36 {
			b = 10
		}
		a.S0 = strconv.FormatInt(rint(r), b)
	}
}

func gQuoted(r *rand.Rand, a *Arg) {
	s := rstr(r)
	a.S0 = []string{s, strconv.Quote(s), strconv.Quote(s) + s, "`" + s + "`", "'" + s + "'", strconv.QuoteToASCII(s)}[r.Intn(6)]
}

func mathFns() []fn {
	m := func(s string) string { return "grpc.federation.math." + s }
	return []fn{
		{name: "sqrt/double", expr: m("sqrt($.d0)"), gen: gD, want: func(a *Arg) (any, error) { return v1(math.Sqrt(a.D0)) }},
		{name: "sqrt/int", expr: m("sqrt($.i0)"), gen: gI, want: func(a *Arg) (any, error) { return v1(math.Sqrt(float64(a.I0))) }},
		{name: "pow", expr: m("pow($.d0, $.d1)"), gen: gD, want: func(a *Arg) (any, error) { return v1(math.Pow(a.D0, a.D1)) }},
		{name: "floor", expr: m("floor($.d0)"), gen: gD, want: func(a *Arg) (any, error) { return v1(math.Floor(a.D0)) }},
	}
}

func randFns() []fn {
	newR := "grpc.federation.rand.new(grpc.federation.rand.newSource($.i0))"
	m := func(name, call string, f func(*rand.Rand, *Arg) any, skip func(*Arg) bool) fn {
		e := "[" + newR + "].map(r, [r." + call + ", r." + call + ", r." + call + "])[0]"
		return fn{name: "rand." + name, expr: e, gen: gI, skip: skip, want: func(a *Arg) (any, error) {
			r := rand.New(rand.NewSource(a.I0))
			return []any{native(f(r, a)), native(f(r, a)), native(f(r, a))}, nil
		}}
	}
	l := []fn{
		m("expFloat64", "expFloat64()", func(r *rand.Rand, _ *Arg) any { return r.ExpFloat64() }, nil),
		m("float32", "float32()", func(r *rand.Rand, _ *Arg) any { return float64(r.Float32()) }, nil),
		m("float64", "float64()", func(r *rand.Rand, _ *Arg) any { return r.Float64() }, nil),
		m("int", "int()", func(r *rand.Rand, _ *Arg) any { return r.Int() }, nil),
		m("int31", "int31()", func(r *rand.Rand, _ *Arg) any { return r.Int31() }, nil),
		m("int31n", "int31n($.i1)", func(r *rand.Rand, a *Arg) any { return r.Int31n(int32(a.I1)) }, func(a *Arg) bool { return a.I1 > math.MaxInt32 }),
		m("int63", "int63()", func(r *rand.Rand, _ *Arg) any { return r.Int63() }, nil),
		m("int63n", "int63n($.i1)", func(r *rand.Rand, a *Arg) any { return r.Int63n(a.I1) }, nil),
		m("intn", "intn($.i1)", func(r *rand.Rand, a *Arg) any { return r.Intn(int(a.I1)) }, nil),
		m("normFloat64", "normFloat64()", func(r *rand.Rand, _ *Arg) any { return r.NormFloat64() }, nil),
		m("uint32", "uint32()", func(r *rand.Rand, _ *Arg) any { return uint64(r.Uint32()) }, nil),
	}
	l = append(l, fn{name: "rand.seed", expr: "[" + newR + "].map(r, [r.seed($.i1)].map(b, [r.int63(), r.int63()]))[0][0]", gen: gI, want: func(a *Arg) (any, error) {
		r := rand.New(rand.NewSource(a.I1))
		return []any{r.Int63(), r.Int63()}, nil
	}})
	l = append(l, fn{name: "source.int63", expr: "[grpc.federation.rand.newSource($.i0)].map(s, [s.int63(), s.int63()])[0]", gen: gI, want: func(a *Arg) (any, error) {
		r := rand.NewSource(a.I0)
		return []any{r.Int63(), r.Int63()}, nil
	}})
	l = append(l, fn{name: "source.seed", expr: "[grpc.federation.rand.newSource($.i0)].map(s, [s.seed($.i1)].map(b, [s.int63(), s.int63()]))[0][0]", gen: gI, want: func(a *Arg) (any, error) {
		r := rand.NewSource(a.I1)
		return []any{r.Int63(), r.Int63()}, nil
	}})
	u := func(call string, f func(uuid.UUID) any) fn {
		return fn{name: "uuid." + call, expr: "grpc.federation.uuid.newRandomFromRand(" + newR + ")." + call, gen: gI, want: func(a *Arg) (any, error) {
			id, err := uuid.NewRandomFromReader(rand.New(rand.NewSource(a.I0)))
			return f(id), err
		}}
	}
	l = append(l,
		u("domain()", func(x uuid.UUID) any { return uint64(x.Domain()) }), u("id()", func(x uuid.UUID) any { return uint64(x.ID()) }),
		u("time()", func(x uuid.UUID) any { return int64(x.Time()) }), u("urn()", func(x uuid.UUID) any { return x.URN() }),
		u("string()", func(x uuid.UUID) any { return x.String() }), u("version()", func(x uuid.UUID) any { return uint64(x.Version()) }),
	)
	return l
}

func gURL(r *rand.Rand, a *Arg) {
	part := func(l ...string) string { return l[r.Intn(len(l))] }
	mk := func() string {
		switch r.Intn(6) {
		case 0:
			return rstr(r)
		case 1:
			return part("mailto:a@b", "/x/y?z#w", "../up", "//h/p", "?q", "#f", "a:b", "a/b:c", "", "http://h%zz/", "http://h/%zz", "x://h:port/")
		}
		return part("http", "https", "ftp", "a+b") + "://" + part("", "user@", "user:@", "us%40er:p%3Ass@", "u:p@") + part("example.com", "h:80", "[::1]:8080", "日本.jp", "H", "") +
			part("", "/", "/a/b", "/a%2Fb/c", "/a b", "/100%25", "/ü", "//x//y", "/a;b=c", "/p:q", "/%7Euser") + part("", "?", "?q=1", "?q=1&q=2&r=%20x+y", "?a=b;c=d", "?%zz") + part("", "#", "#frag", "#fr%20ag", "#日")
	}
	a.S0, a.S1 = mk(), mk()
	a.LS = rlist(r, r.Intn(4), func(r *rand.Rand) string {
		return part("a", "b c", "..", ".", "", "/", "/lead", "trail/", "x%2Fy", "%zz", "ü", "?q", "a//b", "..//..")
	})
}

func urlFns() []fn {
	p := "grpc.federation.url.parse($.s0)"
	full := func(u *url.URL) any {
		pw, set := u.User.Password()
		return []any{u.Scheme, u.Opaque, u.User.Username(), pw, set, u.Host, u.Path, u.RawPath, u.OmitHost, u.ForceQuery, u.RawQuery, u.Fragment, u.RawFragment, u.String()}
	}
	fullE := func(e string) string {
		return "[" + e + "].map(u, [u.scheme(), u.opaque(), u.userinfo().username(), u.userinfo().password(), u.userinfo().passwordSet(), u.host(), u.path(), u.rawPath(), u.omitHost(), u.forceQuery(), u.rawQuery(), u.fragment(), u.rawFragment(), u.string()])[0]"
	}
	m := func(call string, f func(*url.URL, *Arg) (any, error)) fn {
		return fn{name: "url." + call, expr: p + "." + call, gen: gURL, want: func(a *Arg) (any, error) {
			u, err := url.Parse(a.S0)
			if err != nil {
				return nil, err
			}
			return f(u, a)
		}}
	}
	mu := func(call string, f func(*url.URL, *Arg) (*url.URL, error)) fn {
		return fn{name: "url." + call, expr: fullE(p + "." + call), gen: gURL, want: func(a *Arg) (any, error) {
			u, err := url.Parse(a.S0)
			if err != nil {
				return nil, err
			}
			w, err := f(u, a)
			if err != nil {
				return nil, err
			}
			return full(w), nil
		}}
	}
	g := func(f func(*url.URL) any) func(*url.URL, *Arg) (any, error) {
		return func(u *url.URL, _ *Arg) (any, error) { return f(u), nil }
	}
	gf := func(n string, f func(string) (string, error)) fn {
		return fn{name: "url." + n, expr: "grpc.federation.url." + n + "($.s0)", gen: func(r *rand.Rand, a *Arg) {
			if gURL(r, a); r.Intn(2) == 0 {
				a.S0 = rstr(r)
			}
		}, want: func(a *Arg) (any, error) { return f(a.S0) }}
	}
	ui := func(n, e string, f func(a *Arg) any) fn {
		return fn{name: "userinfo." + n, expr: e, gen: gSS, want: func(a *Arg) (any, error) { return f(a), nil }}
	}
	up, us := "grpc.federation.url.userPassword($.s0, $.s1)", "grpc.federation.url.user($.s0)"
	return []fn{
		gf("pathEscape", func(s string) (string, error) { return url.PathEscape(s), nil }), gf("pathUnescape", url.PathUnescape),
		gf("queryEscape", func(s string) (string, error) { return url.QueryEscape(s), nil }), gf("queryUnescape", url.QueryUnescape),
		{name: "url.joinPath/function", expr: "grpc.federation.url.joinPath($.s0, $.ls)", gen: gURL, want: func(a *Arg) (any, error) { return url.JoinPath(a.S0, a.LS...) }},
		{name: "url.parse/function", expr: fullE(p), gen: gURL, want: func(a *Arg) (any, error) {
			u, err := url.Parse(a.S0)
			if err != nil {
				return nil, err
			}
			return full(u), nil
		}},
		{name: "url.parseRequestURI", expr: fullE("grpc.federation.url.parseRequestURI($.s0)"), gen: gURL, want: func(a *Arg) (any, error) {
			u, err := url.ParseRequestURI(a.S0)
			if err != nil {
				return nil, err
			}
			return full(u), nil
		}},
		m("escapedFragment()", g(func(u *url.URL) any { return u.EscapedFragment() })), m("escapedPath()", g(func(u *url.URL) any { return u.EscapedPath() })),
		m("hostname()", g(func(u *url.URL) any { return u.Hostname() })), m("isAbs()", g(func(u *url.URL) any { return u.IsAbs() })),
		m("port()", g(func(u *url.URL) any { return u.Port() })), m("redacted()", g(func(u *url.URL) any { return u.Redacted() })),
		m("requestURI()", g(func(u *url.URL) any { return u.RequestURI() })), m("string()", g(func(u *url.URL) any { return u.String() })),
		m("marshalBinary()", func(u *url.URL, _ *Arg) (any, error) { b, err := u.MarshalBinary(); return "bytes:" + string(b), err }),
		m("query()", g(func(u *url.URL) any {
			x := map[any]any{}
			for k, v := range u.Query() {
				x[k] = native(v)
			}
			return x
		})),
		m("userinfo().string()", g(func(u *url.URL) any {
			if u.User == nil {
				return ""
			}
			return u.User.String()
		})),
		mu("joinPath($.ls)", func(u *url.URL, a *Arg) (*url.URL, error) { return u.JoinPath(a.LS...), nil }),
		mu("parse($.s1)", func(u *url.URL, a *Arg) (*url.URL, error) { return u.Parse(a.S1) }),
		mu("resolveReference(grpc.federation.url.parse($.s1))", func(u *url.URL, a *Arg) (*url.URL, error) {
			w, err := url.Parse(a.S1)
			if err != nil {
				return nil, err
			}
			return u.ResolveReference(w), nil
		}),
		mu("unmarshalBinary(bytes($.s1))", func(_ *url.URL, a *Arg) (*url.URL, error) {
			var u url.URL
			return &u, u.UnmarshalBinary([]byte(a.S1))
		}),
		ui("username", us+".username()", func(a *Arg) any { return a.S0 }), ui("password", us+".password()", func(a *Arg) any { return "" }), ui("passwordSet", us+".passwordSet()", func(a *Arg) any { return false }),
		ui("string", us+".string()", func(a *Arg) any { return url.User(a.S0).String() }),
		ui("username/pw", up+".username()", func(a *Arg) any { return a.S0 }), ui("password/pw", up+".password()", func(a *Arg) any { return a.S1 }), ui("passwordSet/pw", up+".passwordSet()", func(a *Arg) any { return true }),
		ui("string/pw", up+".string()", func(a *Arg) any { return url.UserPassword(a.S0, a.S1).String() }),
	}
}

func enumFns() []fn {
	gE := func(r *rand.Rand, a *Arg) {
		a.I0 = int64(r.Intn(20) - 1)
		if r.Intn(4) == 0 {
			a.I0 = rint(r)
		}
		a.S0 = []string{"OK", "NOT_FOUND", "INTERNAL", "", "nope", "ok"}[r.Intn(6)]
	}
	return []fn{
		{name: "enum.name", expr: "google.rpc.Code.name($.i0)", gen: gE, skip: func(a *Arg) bool { return a.I0 != int64(int32(a.I0)) }, want: func(a *Arg) (any, error) {
			return v1(code.Code_name[int32(a.I0)])
		}},
		{name: "enum.value", expr: "google.rpc.Code.value($.s0)", gen: gE, want: func(a *Arg) (any, error) { return v1(int64(code.Code_value[a.S0])) }},
		{name: "enum.from", expr: "google.rpc.Code.from($.i0)", gen: gE, want: func(a *Arg) (any, error) { return v1(a.I0) }},
		{name: "metadata.incoming", expr: "grpc.federation.metadata.incoming()", gen: func(r *rand.Rand, a *Arg) { a.LS = rlist(r, r.Intn(6), rstr) }, want: func(a *Arg) (any, error) {
			m := map[any]any{}
			for k, v := range mdOf(a) {
				m[k] = native(v)
			}
			return m, nil
		}},
	}
}

func mdOf(a *Arg) metadata.MD {
	md := metadata.MD{}
	for i, s := range a.LS {
		md.Append(fmt.Sprintf("k%d", i%3), s)
	}
	return md
}
