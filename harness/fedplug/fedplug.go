// Package fedplug generates CEL plugins with random function signatures and services calling
// them, builds the plugins to WebAssembly with the generated plugin code, and compares every
// reply with what the plugin computes for those arguments (package calc, compiled into both
// sides).
package fedplug

import (
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	"verifharness/fedplug/calc"
)

// Fn is a plugin function.
type Fn struct {
	Name   string
	Method bool // the first argument is the receiver
	Args   []calc.Type
	Ret    calc.Type
	Fails  bool
	Key    string // identity, for overloads
}

// Expr is an argument expression.
type Expr struct {
	T    calc.Type
	CEL  string
	Path []string // from the request
	Lit  any
	Fn   *Fn
	Args []*Expr
	Kind string // path, lit, call, list, concat, same, message, metadata, var
	Keys []string
	Var  *Var
}

// Var is a definition of a response message.
type Var struct {
	Name string
	E    *Expr
}

// Method is an rpc.
type Method struct {
	Vars []*Var
	Out  *Expr // the value of the reply
	Meta string
}

// Program is a plugin and a service.
type Program struct {
	GoDir   string
	Fns     []*Fn
	Methods []*Method
	r       *rand.Rand
	vars    []*Var // visible to the expression being made
}

var kinds = []string{"string", "bool", "int64", "uint64", "double", "enum", "message", "duration", "timestamp"}

var field = map[string]string{"duration": "du", "timestamp": "t", "string": "s", "bool": "b", "int64": "i", "uint64": "u", "double": "d", "enum": "e", "message": "a"}

func fieldOf(t calc.Type) string {
	if t.List {
		return "l" + field[t.Kind]
	}
	return field[t.Kind]
}

// Plug is the name of the plugin's proto package and directory.
func (p *Program) Plug() string { return p.GoDir + "p" }

func (p *Program) typ(t calc.Type) string {
	s := ""
	switch t.Kind {
	case "timestamp":
		s = `message: "google.protobuf.Timestamp"`
	case "enum":
		s = fmt.Sprintf(`enum: "%s.E"`, p.Plug())
	case "message":
		s = fmt.Sprintf(`message: "%s.A"`, p.Plug())
	default:
		s = "kind: " + strings.ToUpper(t.Kind)
	}
	if t.List {
		return "repeated { " + s + " }"
	}
	return s
}

func (p *Program) protoType(t calc.Type) string {
	s := t.Kind
	switch t.Kind {
	case "duration":
		s = "google.protobuf.Duration"
	case "timestamp":
		s = "google.protobuf.Timestamp"
	case "enum":
		s = p.Plug() + ".E"
	case "message":
		s = p.Plug() + ".A"
	}
	if t.List {
		return "repeated " + s
	}
	return s
}

func (p *Program) goType(t calc.Type) string {
	s := t.Kind
	switch t.Kind {
	case "duration":
		s = "*durationpb.Duration"
	case "timestamp":
		s = "*timestamppb.Timestamp"
	case "enum":
		s = "plug.E"
	case "message":
		s = "*plug.A"
	case "double":
		s = "float64"
	}
	if t.List {
		return "[]" + s
	}
	return s
}

func (p *Program) randType() calc.Type {
	return calc.Type{Kind: kinds[p.r.Intn(len(kinds))], List: p.r.Intn(3) == 0}
}

// Generate makes program i.
func Generate(seed int64, i int) *Program {
	p := &Program{GoDir: fmt.Sprintf("g%d", i), r: rand.New(rand.NewSource(seed*7919 + int64(i)))}
	n := 0
	add := func(f *Fn) {
		f.Key = fmt.Sprintf("%s_%d", f.Name, n)
		n++
		p.Fns = append(p.Fns, f)
	}
	// every type goes in and comes out
	for _, k := range kinds {
		for _, l := range []bool{false, true} {
			t := calc.Type{Kind: k, List: l}
			args := []calc.Type{t}
			for range p.r.Intn(3) {
				args = append(args, p.randType())
			}
			p.r.Shuffle(len(args), func(a, b int) { args[a], args[b] = args[b], args[a] })
			add(&Fn{Name: "fn" + strings.ToUpper(fieldOf(t)), Args: args, Ret: t, Fails: p.r.Intn(3) == 0})
		}
	}
	add(&Fn{Name: "none", Ret: p.randType()})
	// overloads: the same name with other arguments
	for _, k := range []string{"string", "int64", "message"} {
		add(&Fn{Name: "over", Args: []calc.Type{{Kind: k}}, Ret: p.randType()})
	}
	for j := range 4 {
		f := &Fn{Name: fmt.Sprintf("m%d", j), Method: true, Args: []calc.Type{{Kind: "message"}}, Ret: p.randType(), Fails: p.r.Intn(3) == 0}
		for range p.r.Intn(3) {
			f.Args = append(f.Args, p.randType())
		}
		add(f)
	}
	for _, f := range p.Fns {
		p.method(f)
		if p.r.Intn(2) == 0 {
			p.method(f)
		}
	}
	return p
}

func (p *Program) method(f *Fn) {
	m := &Method{}
	p.vars = nil
	for j := range p.r.Intn(4) {
		v := &Var{Name: fmt.Sprintf("w%d", j), E: p.expr(p.randType(), 2)}
		m.Vars = append(m.Vars, v)
		p.vars = append(p.vars, v)
	}
	m.Out = p.call(f, 2)
	m.Meta = []string{"x-id", "x-list", "x-none", "x-empty"}[p.r.Intn(4)]
	p.Methods = append(p.Methods, m)
}

func (p *Program) call(f *Fn, depth int) *Expr {
	e := &Expr{T: f.Ret, Kind: "call", Fn: f}
	var s []string
	for _, t := range f.Args {
		a := p.expr(t, depth-1)
		e.Args = append(e.Args, a)
		s = append(s, a.CEL)
	}
	if f.Method {
		e.CEL = fmt.Sprintf("%s.%s(%s)", s[0], f.Name, strings.Join(s[1:], ", "))
	} else {
		e.CEL = fmt.Sprintf("%s.%s(%s)", p.Plug(), f.Name, strings.Join(s, ", "))
	}
	return e
}

func (p *Program) expr(t calc.Type, depth int) *Expr {
	r := p.r
	if len(p.vars) > 0 && r.Intn(2) == 0 {
		var c []*Var
		for _, v := range p.vars {
			if v.E.T == t {
				c = append(c, v)
			}
		}
		if len(c) > 0 {
			v := c[r.Intn(len(c))]
			return &Expr{T: t, Kind: "var", CEL: v.Name, Var: v}
		}
	}
	if depth > 0 {
		switch r.Intn(4) {
		case 0:
			var c []*Fn
			for _, f := range p.Fns {
				if f.Ret == t {
					c = append(c, f)
				}
			}
			if len(c) > 0 {
				return p.call(c[r.Intn(len(c))], depth-1)
			}
		case 1:
			if t.List {
				switch r.Intn(4) {
				case 0:
					e := &Expr{T: t, Kind: "list"}
					var s []string
					for range 1 + r.Intn(3) {
						a := p.lit
						if t.Kind != "enum" { // fields and values of an enum have different types
							a = func(t calc.Type) *Expr { return p.expr(t, depth-1) }
						}
						x := a(t.Elem())
						e.Args = append(e.Args, x)
						s = append(s, x.CEL)
					}
					e.CEL = "[" + strings.Join(s, ", ") + "]"
					return e
				case 1:
					a, b := p.expr(t, depth-1), p.expr(t, depth-1)
					if t.Kind == "enum" {
						return a
					}
					return &Expr{T: t, Kind: "concat", Args: []*Expr{a, b}, CEL: fmt.Sprintf("(%s + %s)", a.CEL, b.CEL)}
				default:
					a := p.expr(t, depth-1)
					s := "%s.map(x, x)"
					if r.Intn(2) == 0 {
						s = "%s.filter(x, true)"
					}
					return &Expr{T: t, Kind: "same", Args: []*Expr{a}, CEL: fmt.Sprintf(s, a.CEL)}
				}
			}
			if t.Kind == "message" {
				e := &Expr{T: t, Kind: "message"}
				var s []string
				for _, k := range kinds {
					if k == "enum" || r.Intn(2) == 0 {
						continue
					}
					ft := calc.Type{Kind: k, List: r.Intn(3) == 0}
					a := p.expr(ft, depth-1)
					e.Args = append(e.Args, a)
					e.Keys = append(e.Keys, fieldOf(ft))
					s = append(s, fmt.Sprintf("%s: %s", fieldOf(ft), a.CEL))
				}
				e.CEL = fmt.Sprintf("%s.A{%s}", p.Plug(), strings.Join(s, ", "))
				return e
			}
			return p.lit(t)
		}
	}
	path := []string{}
	for range []int{0, 0, 1, 1, 2}[r.Intn(5)] {
		path = append(path, "a")
	}
	path = append(path, fieldOf(t))
	return &Expr{T: t, Kind: "path", Path: path, CEL: "$." + strings.Join(path, ".")}
}

func (p *Program) lit(t calc.Type) *Expr {
	e := &Expr{T: t, Kind: "lit"}
	r := p.r
	switch t.Kind {
	case "string":
		v := []string{"", "lit", "日本", "x y z"}[r.Intn(4)]
		e.Lit, e.CEL = v, "'"+v+"'"
	case "bool":
		v := r.Intn(2) == 0
		e.Lit, e.CEL = v, fmt.Sprint(v)
	case "int64":
		v := r.Int63() - r.Int63()
		e.Lit, e.CEL = v, fmt.Sprint(v)
		if v < 0 {
			e.CEL = "(" + e.CEL + ")"
		}
	case "uint64":
		v := r.Uint64()
		e.Lit, e.CEL = v, fmt.Sprintf("%du", v)
	case "duration":
		v := r.Int63n(1e9)
		e.Lit, e.CEL = durationpb.New(time.Duration(v)*time.Millisecond), fmt.Sprintf("duration('%dms')", v)
	case "timestamp":
		v := time.Unix(r.Int63n(4e9), 0).UTC()
		e.Lit, e.CEL = timestamppb.New(v), fmt.Sprintf("timestamp('%s')", v.Format(time.RFC3339))
	case "double":
		v := float64(r.Intn(1000)) / 8
		e.Lit, e.CEL = v, strconv.FormatFloat(v, 'f', 3, 64)
	case "enum":
		v := int32(r.Intn(4))
		e.Lit, e.CEL = v, fmt.Sprintf("%s.E.value('E%d')", p.Plug(), v)
	default:
		panic(t.Kind)
	}
	return e
}

// State of one prediction.
type State struct {
	NewMsg func() proto.Message
	Req    protoreflect.Message
	vals   map[*Var]any
	errs   map[*Var]error
	Calls  int
}

// Eval predicts a method: its value, or the errors one of which it ends with.
func (m *Method) Eval(s *State) (any, []error) {
	s.vals, s.errs = map[*Var]any{}, map[*Var]error{}
	var errs []error
	for _, v := range m.Vars {
		x, err := s.eval(v.E)
		if err != nil {
			errs = append(errs, err)
		}
		s.vals[v], s.errs[v] = x, err
	}
	x, err := s.eval(m.Out)
	if err != nil {
		errs = append(errs, err)
	}
	return x, errs
}

func (s *State) eval(e *Expr) (any, error) {
	args := make([]any, len(e.Args))
	for i, a := range e.Args {
		v, err := s.eval(a)
		if err != nil {
			return nil, err
		}
		args[i] = v
	}
	switch e.Kind {
	case "var":
		return s.vals[e.Var], s.errs[e.Var]
	case "lit":
		return e.Lit, nil
	case "same":
		return args[0], nil
	case "list":
		return args, nil
	case "concat":
		return append(append([]any{}, args[0].([]any)...), args[1].([]any)...), nil
	case "message":
		m := s.NewMsg()
		for i, k := range e.Keys {
			set(m.ProtoReflect(), k, args[i])
		}
		return m, nil
	case "path":
		m := s.Req
		for i, n := range e.Path {
			f := m.Descriptor().Fields().ByName(protoreflect.Name(n))
			if i == len(e.Path)-1 {
				return Native(m, f), nil
			}
			m = m.Get(f).Message()
		}
	case "call":
		var ts []calc.Type
		ts = append(ts, e.Fn.Args...)
		s.Calls++
		return calc.Compute(e.Fn.Key, e.Fn.Fails, e.Fn.Ret, args, ts, s.NewMsg)
	}
	panic(e.Kind)
}

// Native reads a field.
func Native(m protoreflect.Message, f protoreflect.FieldDescriptor) any {
	one := func(v protoreflect.Value) any {
		switch {
		case f.Message() != nil:
			return v.Message().Interface()
		case f.Enum() != nil:
			return int32(v.Enum())
		}
		return v.Interface()
	}
	if f.IsList() {
		l := m.Get(f).List()
		r := make([]any, l.Len())
		for i := range r {
			r[i] = one(l.Get(i))
		}
		return r
	}
	return one(m.Get(f))
}

func set(m protoreflect.Message, k string, v any) {
	f := m.Descriptor().Fields().ByName(protoreflect.Name(k))
	one := func(v any) protoreflect.Value {
		switch v := v.(type) {
		case proto.Message:
			return protoreflect.ValueOfMessage(v.ProtoReflect())
		case int32:
			return protoreflect.ValueOfEnum(protoreflect.EnumNumber(v))
		}
		return protoreflect.ValueOf(v)
	}
	if l, ok := v.([]any); ok {
		for _, x := range l {
			m.Mutable(f).List().Append(one(x))
		}
		return
	}
	if pm, ok := v.(proto.Message); ok && !pm.ProtoReflect().IsValid() {
		m.Set(f, m.NewField(f))
		return
	}
	m.Set(f, one(v))
}

// PlugProto is the proto file of the plugin.
func (p *Program) PlugProto() string {
	var b strings.Builder
	fmt.Fprintf(&b, `syntax = "proto3";

package %[1]s;

import "grpc/federation/federation.proto";
import "google/protobuf/timestamp.proto";
import "google/protobuf/duration.proto";

option go_package = "scratch/%[1]s;%[1]s";

enum E { E0 = 0; E1 = 1; E2 = 2; E3 = 3; }

message A {
  string s = 1;
  bool b = 2;
  int64 i = 3;
  uint64 u = 4;
  double d = 5;
  E e = 6;
  A a = 7;
  repeated string ls = 11;
  repeated bool lb = 12;
  repeated int64 li = 13;
  repeated uint64 lu = 14;
  repeated double ld = 15;
  repeated E le = 16;
  repeated A la = 17;
  bytes x = 20;
  float f = 21;
  int32 i32 = 22;
  fixed64 f64 = 23;
  sint32 s32 = 24;
  map<string, int64> m = 25;
  map<int32, A> ma = 26;
  oneof o { string o1 = 27; int64 o2 = 28; A o3 = 29; }
  google.protobuf.Timestamp t = 30;
  google.protobuf.Duration du = 31;
  repeated google.protobuf.Timestamp lt = 34;
  repeated google.protobuf.Duration ldu = 35;
  optional string os = 32;
  repeated bytes lx = 33;
}

option (grpc.federation.file).plugin.export = {
  name: %[1]q
`, p.Plug())
	fn := func(f *Fn, args []calc.Type) {
		fmt.Fprintf(&b, "{\n    name: %q\n", f.Name)
		for i, t := range args {
			fmt.Fprintf(&b, "    args { name: \"p%d\" type { %s } }\n", i, p.typ(t))
		}
		fmt.Fprintf(&b, "    return { %s }\n  }\n", p.typ(f.Ret))
	}
	for _, f := range p.Fns {
		if !f.Method {
			b.WriteString("  functions ")
			fn(f, f.Args)
		}
	}
	b.WriteString("  functions {\n    name: \"meta\"\n    args { name: \"key\" type { kind: STRING } }\n    return { repeated { kind: STRING } }\n  }\n")
	b.WriteString("  types {\n    name: \"A\"\n")
	for _, f := range p.Fns {
		if f.Method {
			b.WriteString("  methods ")
			fn(f, f.Args[1:])
		}
	}
	b.WriteString("  }\n};\n")
	return b.String()
}

// Proto is the proto file of the service.
func (p *Program) Proto() string {
	var b strings.Builder
	fmt.Fprintf(&b, `syntax = "proto3";

package %[1]s;

import "grpc/federation/federation.proto";
import "google/protobuf/timestamp.proto";
import "google/protobuf/duration.proto";
import "%[2]s/%[2]s.proto";

option go_package = "scratch/%[1]s;%[1]s";

message Req {
`, p.GoDir, p.Plug())
	n := 1
	for _, l := range []bool{false, true} {
		for _, k := range kinds {
			t := calc.Type{Kind: k, List: l}
			fmt.Fprintf(&b, "  %s %s = %d;\n", p.protoType(t), fieldOf(t), n)
			n++
		}
	}
	b.WriteString("}\n\nservice S {\n  option (grpc.federation.service) = {};\n")
	for i := range p.Methods {
		fmt.Fprintf(&b, "  rpc M%[1]d(Req) returns (R%[1]d);\n", i)
	}
	b.WriteString("}\n")
	for i, m := range p.Methods {
		fmt.Fprintf(&b, "\nmessage R%d {\n  option (grpc.federation.message) = {\n", i)
		for _, v := range m.Vars {
			fmt.Fprintf(&b, "    def { name: %q by: %q }\n", v.Name, v.E.CEL)
		}
		fmt.Fprintf(&b, "    def { name: \"v\" by: %q }\n", m.Out.CEL)
		fmt.Fprintf(&b, "    def { name: \"md\" by: \"%s.meta('%s')\" }\n  };\n", p.Plug(), m.Meta)
		fmt.Fprintf(&b, "  %s v = 1 [(grpc.federation.field).by = \"v\"];\n", p.protoType(m.Out.T))
		b.WriteString("  repeated string md = 2 [(grpc.federation.field).by = \"md\"];\n}\n")
	}
	return b.String()
}

var ifaceRe = regexp.MustCompile(`(?s)type (\w+Plugin) interface \{(.*?)\n\}`)
var methodRe = regexp.MustCompile(`(?m)^\s*(\w+)\(context\.Context`)

// PlugMain is the plugin program, from its generated code.
func (p *Program) PlugMain(src string) (string, error) {
	m := ifaceRe.FindStringSubmatch(src)
	if m == nil {
		return "", fmt.Errorf("no plugin interface in the generated code")
	}
	names := methodRe.FindAllStringSubmatch(m[2], -1)
	var fns []*Fn
	meta := &Fn{}
	for _, f := range p.Fns {
		if !f.Method {
			fns = append(fns, f)
		}
	}
	fns = append(fns, meta)
	for _, f := range p.Fns {
		if f.Method {
			fns = append(fns, f)
		}
	}
	if len(fns) != len(names) {
		return "", fmt.Errorf("the plugin interface has %d functions, %d declared", len(names), len(fns))
	}
	var b strings.Builder
	fmt.Fprintf(&b, `package main

import (
	"context"

	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/proto"

	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	plug "scratch/%[1]s"
	"verifharness/fedplug/calc"
)

type impl struct{}

var garbage [][]byte

func newMsg() proto.Message { return &plug.A{} }

var (
	_ *durationpb.Duration
	_ *timestamppb.Timestamp
)

func enums(l []plug.E) []any {
	r := make([]any, len(l))
	for i := range l {
		r[i] = int32(l[i])
	}
	return r
}

func unEnums(v any) []plug.E {
	var r []plug.E
	for _, x := range v.([]any) {
		r = append(r, plug.E(x.(int32)))
	}
	return r
}

func main() { plug.Register%[2]s(impl{}) }
`, p.Plug(), m[1])
	for i, f := range fns {
		n := names[i][1]
		if f == meta {
			fmt.Fprintf(&b, `
func (impl) %s(ctx context.Context, key string) ([]string, error) {
	md, _ := metadata.FromIncomingContext(ctx)
	return md.Get(key), nil
}
`, n)
			continue
		}
		var params, vals, ts []string
		for j, t := range f.Args {
			a := fmt.Sprintf("a%d", j)
			params = append(params, a+" "+p.goType(t))
			switch {
			case t.List && t.Kind == "enum":
				a = "enums(" + a + ")"
			case t.List:
				a = "calc.List(" + a + ")"
			case t.Kind == "enum":
				a = "int32(" + a + ")"
			}
			vals = append(vals, a)
			ts = append(ts, fmt.Sprintf("{Kind: %q, List: %v}", t.Kind, t.List))
		}
		ret := fmt.Sprintf("v.(%s)", p.goType(f.Ret))
		switch {
		case f.Ret.List && f.Ret.Kind == "enum":
			ret = "unEnums(v)"
		case f.Ret.List:
			ret = fmt.Sprintf("calc.UnList[%s](v)", p.goType(f.Ret.Elem()))
		case f.Ret.Kind == "enum":
			ret = "plug.E(v.(int32))"
		}
		fmt.Fprintf(&b, `
func (impl) %s(_ context.Context, %s) (ret %s, err error) {
	garbage = append(garbage[:len(garbage)%%7], make([]byte, 1<<15))
	v, err := calc.Compute(%q, %v, calc.Type{Kind: %q, List: %v}, []any{%s}, []calc.Type{%s}, newMsg)
	if err != nil {
		return ret, err
	}
	return %s, nil
}
`, n, strings.Join(params, ", "), p.goType(f.Ret), f.Key, f.Fails, f.Ret.Kind, f.Ret.List, strings.Join(vals, ", "), strings.Join(ts, ", "), ret)
	}
	return b.String(), nil
}

// Glue registers the service with the driver.
func (p *Program) Glue(string) (string, error) {
	var b strings.Builder
	fmt.Fprintf(&b, `package main

import (
	"context"
	"io"

	"google.golang.org/protobuf/proto"

	"scratch/%[1]s"
	"scratch/%[2]s"
	"verifharness/fedplug"
)

func init() {
	fedplug.Register(%[1]q, fedplug.Maker{
		NewMsg: func() proto.Message { return &%[2]s.A{} },
		NewReq: func() proto.Message { return &%[1]s.Req{} },
		New: func(wasm io.Reader, sha, cache string) (*fedplug.Service, error) {
			s, err := %[1]s.NewS(%[1]s.SConfig{CELPlugin: &%[1]s.SCELPluginConfig{CacheDir: cache, %[3]s: %[1]s.SCELPluginWasmConfig{Reader: wasm, Sha256: sha}}})
			if err != nil {
				return nil, err
			}
			return &fedplug.Service{
				Close: func(ctx context.Context) { %[1]s.CleanupS(ctx, s) },
				Call: []func(context.Context, proto.Message) (proto.Message, error){
`, p.GoDir, p.Plug(), strings.ToUpper(p.Plug()))
	for i := range p.Methods {
		fmt.Fprintf(&b, "\t\t\t\t\tfunc(ctx context.Context, m proto.Message) (proto.Message, error) { return s.M%d(ctx, m.(*%s.Req)) },\n", i, p.GoDir)
	}
	b.WriteString("\t\t\t\t},\n\t\t\t}, nil\n\t\t},\n\t})\n}\n")
	return b.String(), nil
}
