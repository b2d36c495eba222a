// Package fedlog generates services that attach log attributes, log and handle errors in
// messages that run at the same time, predicts what a request does (the reply, or the
// failures it may end with and what their log record says), and monitors the records.
//
// Every string that can reach a record names its request, so that anything that moved
// between requests, or between the branches of one, is recognised.
package fedlog

import (
	"fmt"
	"hash/fnv"
	"log/slog"
	"math/rand"
	"slices"
	"strings"

	"google.golang.org/grpc/codes"
)

// El is a definition of a message.
type El struct {
	Kind   string // add, call, child, map, log, valid
	Name   string
	Level  string
	Fails  bool // the call may fail
	Retry  bool
	Blocks []*Block
	Child  *Msg
	Of     string // valid: the call whose reply is judged
	Code   string
}

// Block handles the error of a call.
type Block struct {
	Cond    string // "", code, message, never
	CondArg string
	Kind    string // status, respond, code
	Code    string
	Level   string
	ViaDef  bool
	Nested  string // "", call, child: what a definition of the block does
	Child   *Msg
	Detail  bool
}

// Msg is a message; the definitions of a stage depend on all of the stage before.
type Msg struct {
	Name   string
	Stages [][]*El
	Leaf   bool
}

// Program is a service of one method.
type Program struct {
	GoDir string
	Msgs  []*Msg // the first is the response
}

var levels = map[string]slog.Level{"DEBUG": slog.LevelDebug, "INFO": slog.LevelInfo, "WARN": slog.LevelWarn, "ERROR": slog.LevelError}

var levelNames = []string{"DEBUG", "INFO", "WARN", "ERROR"}

var errCodes = []codes.Code{codes.InvalidArgument, codes.NotFound, codes.Aborted, codes.Unavailable, codes.FailedPrecondition}

var codeNames = map[codes.Code]string{codes.InvalidArgument: "INVALID_ARGUMENT", codes.NotFound: "NOT_FOUND", codes.Aborted: "ABORTED", codes.Unavailable: "UNAVAILABLE",
	codes.FailedPrecondition: "FAILED_PRECONDITION", codes.OutOfRange: "OUT_OF_RANGE", codes.PermissionDenied: "PERMISSION_DENIED"}

func codeOf(name string) codes.Code {
	for c, n := range codeNames {
		if n == name {
			return c
		}
	}
	panic(name)
}

// Generate makes the i-th program of a seed.
func Generate(seed int64, i int) *Program {
	r := rand.New(rand.NewSource(seed*1_000_003 + int64(i)))
	p := &Program{GoDir: fmt.Sprintf("lg%d", i)}
	n := 3 + r.Intn(3)
	for k := range n {
		p.Msgs = append(p.Msgs, &Msg{Name: fmt.Sprintf("M%d", k)})
	}
	p.Msgs[0].Name = "GetRes"
	// a message without children, for the definitions of error blocks
	leaf := &Msg{Name: "Leaf", Leaf: true, Stages: [][]*El{{{Kind: "call", Name: "c0", Fails: true, Blocks: []*Block{{Kind: "respond", Level: "INFO"}}}}}}
	for k, m := range p.Msgs {
		id := 0
		name := func(c string) string { id++; return fmt.Sprintf("%s%d", c, id) }
		failing := false // at most one call of a message fails (see C06's finding)
		stages := 2 + r.Intn(2)
		kids := p.Msgs[k+1:]
		for s := range stages {
			var st []*El
			if s > 0 && r.Intn(6) == 0 {
				// validations bar what follows; they judge the reply of an earlier call
				for _, e := range m.Stages[s-1] {
					if e.Kind == "call" && !e.Fails {
						st = append(st, &El{Kind: "valid", Name: name("v"), Of: e.Name, Code: []string{"OUT_OF_RANGE", "PERMISSION_DENIED"}[r.Intn(2)], Level: levelNames[r.Intn(4)]})
						break
					}
				}
			}
			for range 1 + r.Intn(2) {
				if len(st) > 0 && st[0].Kind == "valid" {
					break
				}
				e := &El{Level: levelNames[r.Intn(4)]}
				switch x := r.Intn(10); {
				case x < 3:
					e.Kind, e.Name = "add", name("a")
				case x < 4:
					e.Kind, e.Name = "log", name("g")
				case x < 7 || len(kids) == 0:
					e.Kind, e.Name = "call", name("c")
					if !failing && r.Intn(3) > 0 {
						failing, e.Fails = true, true
						e.Retry = r.Intn(3) == 0
						for range r.Intn(3) {
							e.Blocks = append(e.Blocks, block(r, leaf))
						}
					}
				case x < 9:
					e.Kind, e.Name, e.Child = "child", name("m"), kids[r.Intn(len(kids))]
				default:
					e.Kind, e.Name, e.Child = "map", name("l"), kids[r.Intn(len(kids))]
				}
				st = append(st, e)
			}
			if k == 0 && s == 0 { // several branches at once
				st = append(st, &El{Kind: "child", Name: name("m"), Child: kids[r.Intn(len(kids))]}, &El{Kind: "child", Name: name("m"), Child: kids[r.Intn(len(kids))]})
			}
			if k == 0 && s == 0 && len(st) < 4 {
				m.Stages = append(m.Stages, []*El{{Kind: "add", Name: name("a")}, {Kind: "add", Name: name("a")}, {Kind: "add", Name: name("a")}})
			}
			m.Stages = append(m.Stages, st)
		}
	}
	p.Msgs = append(p.Msgs, leaf)
	return p
}

func block(r *rand.Rand, leaf *Msg) *Block {
	b := &Block{Level: append(levelNames, "")[r.Intn(5)], Kind: []string{"status", "status", "respond", "code"}[r.Intn(4)], ViaDef: r.Intn(3) == 0, Detail: r.Intn(3) == 0}
	switch r.Intn(5) {
	case 0:
		b.Cond, b.CondArg = "code", codeNames[errCodes[r.Intn(len(errCodes))]]
	case 1:
		b.Cond = "message"
	case 2:
		b.Cond = "never"
	}
	if b.Kind != "respond" {
		b.Code = []string{"", "OUT_OF_RANGE", "PERMISSION_DENIED"}[r.Intn(3)]
	}
	if b.Kind == "code" && b.Code == "" {
		b.Code = "OUT_OF_RANGE"
	}
	switch r.Intn(5) {
	case 0:
		b.Nested = "call"
	case 1:
		b.Nested, b.Child = "child", leaf
	}
	return b
}

// Plan is what the dependency does: a function of the key of the call.
func hash(s string) uint32 {
	h := fnv.New32a()
	h.Write([]byte(s))
	x := h.Sum32()
	x ^= x >> 15
	x *= 0x2c1b3c6d
	x ^= x >> 12
	return x
}

// Fails says whether attempt n of the call fails, and with what code.
func Fails(key string, n int, mayFail bool) (codes.Code, bool) {
	if !mayFail {
		return 0, false
	}
	x := hash("fail " + key)
	if x%5 > 1 { // succeeds, perhaps after attempts that fail
		if x%7 == 0 && n == 0 {
			return codes.Unavailable, true
		}
		return 0, false
	}
	return errCodes[hash(fmt.Sprint("code ", key))%uint32(len(errCodes))], true
}

// ErrText is the message of a failed attempt.
func ErrText(key string, n int) string { return fmt.Sprintf("E:%s:%d", key, n) }

// Reply is the value of a successful call.
func Reply(key string) string {
	if hash("bad "+key)%9 == 0 {
		return "R" + key + "!"
	}
	return "R" + key
}

// Failure is a way a request may end.
type Failure struct {
	Site   string
	Code   codes.Code
	Msg    string
	Level  slog.Level
	Detail string
	Must   map[string]string // attributes attached before
}

// Record is a log record that an expression emits.
type Record struct {
	Level slog.Level
	Must  map[string]string
}

// Outcome is what a request must do.
type Outcome struct {
	Out      string // if it doesn't fail
	Fails    []*Failure
	Records  map[string]*Record // by message; all are emitted if the request doesn't fail
	Attempts map[string]int     // attempts of reached calls
}

// Predict evaluates the response for a request.
func (p *Program) Predict(path string) *Outcome {
	o := &Outcome{Records: map[string]*Record{}, Attempts: map[string]int{}}
	o.Out, o.Fails = o.eval(p.Msgs[0], path, map[string]string{})
	return o
}

func merge(a, b map[string]string) map[string]string {
	m := map[string]string{}
	for k, v := range a {
		m[k] = v
	}
	for k, v := range b {
		m[k] = v
	}
	return m
}

func (o *Outcome) eval(m *Msg, path string, attrs map[string]string) (out string, fails []*Failure) {
	vals := map[string]string{}
	for _, st := range m.Stages {
		var adds = map[string]string{}
		for _, e := range st {
			at := path + "/" + e.Name
			switch e.Kind {
			case "add":
				adds["A_"+m.Name+"_"+e.Name] = at
			case "log":
				o.Records["x:"+at] = &Record{levels[e.Level], merge(attrs, map[string]string{"arg_" + e.Name: path})}
			case "child":
				v, f := o.eval(e.Child, at, attrs)
				fails = append(fails, f...)
				vals[e.Name] = v
			case "map":
				v := ""
				for i := range 2 {
					x, f := o.eval(e.Child, fmt.Sprintf("%s.%d", at, i), attrs)
					v += x + ","
					if len(f) > 0 { // the elements are evaluated one after the other
						fails = append(fails, f...)
						break
					}
				}
				vals[e.Name] = v
			case "call":
				v, f := o.call(m, e, path, attrs)
				if f != nil {
					fails = append(fails, f)
				}
				vals[e.Name] = v
			case "valid":
				if strings.HasSuffix(vals[e.Of], "!") {
					fails = append(fails, &Failure{Site: at, Code: codeOf(e.Code), Msg: "invalid " + at, Level: levels[e.Level], Must: attrs})
				}
			}
		}
		if len(fails) > 0 {
			return "", fails
		}
		attrs = merge(attrs, adds)
	}
	for _, st := range m.Stages {
		for _, e := range st {
			if v, ok := vals[e.Name]; ok {
				out += e.Name + "=" + v + ";"
			}
		}
	}
	return "{" + out + "}", nil
}

func (o *Outcome) call(m *Msg, e *El, path string, attrs map[string]string) (string, *Failure) {
	key := path + "/" + e.Name
	n := 0
	max := 0
	if e.Retry {
		max = 2
	}
	for ; ; n++ {
		o.Attempts[key] = n + 1
		code, bad := Fails(key, n, e.Fails)
		if !bad {
			return Reply(key), nil
		}
		if n < max && code == codes.Unavailable {
			continue
		}
		text := ErrText(key, n)
		for i, b := range e.Blocks {
			o.nested(b, i, key, attrs)
			switch b.Cond {
			case "code":
				if codeNames[code] != b.CondArg {
					continue
				}
			case "never":
				continue
			}
			if b.Kind == "respond" {
				return "I" + text, nil
			}
			f := &Failure{Site: key, Code: code, Msg: text, Level: slog.LevelError, Must: attrs}
			if b.Level != "" {
				f.Level = levels[b.Level]
			}
			if b.Code != "" {
				f.Code = codeOf(b.Code)
			}
			if b.Kind == "status" {
				f.Msg = fmt.Sprintf("b%d[%s]%s", i, path, text)
			}
			if b.Detail {
				f.Detail = "d:" + text
			}
			return "", f
		}
		return "", &Failure{Site: key, Code: code, Msg: text, Level: slog.LevelError, Must: attrs}
	}
}

func (o *Outcome) nested(b *Block, i int, key string, attrs map[string]string) {
	switch b.Nested {
	case "call":
		o.Attempts[fmt.Sprintf("%s/n%d", key, i)] = 1
	case "child":
		o.eval(b.Child, fmt.Sprintf("%s/n%d", key, i), attrs)
	}
}

func q(s string) string { return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"` }

func (e *El) ref() string {
	switch e.Kind {
	case "add", "log":
		return fmt.Sprintf("(%[1]s || !%[1]s)", e.Name)
	case "call":
		return e.Name + ".v != 'zz'"
	case "child":
		return e.Name + ".out != 'zz'"
	case "map":
		return fmt.Sprintf("size(%s) != 99", e.Name)
	}
	return "true"
}

// DepProto is the dependency.
const DepProto = `syntax = "proto3";
package ldep;
option go_package = "scratch/ldep;ldep";
service D { rpc Call(Req) returns (Res) {} }
message Req { string key = 1; }
message Res { string v = 1; }
`

// Proto renders the program.
func (p *Program) Proto() string {
	var b strings.Builder
	f := func(format string, a ...any) { fmt.Fprintf(&b, format+"\n", a...) }
	f("syntax = \"proto3\";\npackage %[1]s;\nimport \"grpc/federation/federation.proto\";\nimport \"ldep/ldep.proto\";\noption go_package = \"scratch/%[1]s;%[1]s\";\n", p.GoDir)
	f("service S {\n  option (grpc.federation.service) = {};\n  rpc Get(GetReq) returns (GetRes) {}\n  rpc Shared(SharedReq) returns (SharedRes) {}\n}\nmessage GetReq { string path = 1; }")
	f("message SharedReq { string path = 1; }")
	f("%s", sharedProto)
	for _, m := range p.Msgs {
		f("message %s {\n  option (grpc.federation.message) = {", m.Name)
		for _, st := range m.Stages {
			if slices.ContainsFunc(st, func(e *El) bool { return e.Kind == "map" }) {
				f("    def { name: \"its\" by: \"['0', '1']\" }")
				break
			}
		}
		var prev []*El
		var outs []string
		for _, st := range m.Stages {
			var deps []string
			for _, e := range prev {
				deps = append(deps, e.ref())
			}
			cond := strings.Join(deps, " && ")
			for _, e := range st {
				head := fmt.Sprintf("    def { name: %s ", q(e.Name))
				if cond != "" && e.Kind != "valid" {
					head += "if: " + q(cond) + " "
				}
				at := fmt.Sprintf("$.path + '/%s'", e.Name)
				switch e.Kind {
				case "add":
					f("%sby: %s }", head, q(fmt.Sprintf("grpc.federation.log.add({'A_%s_%s': %s})", m.Name, e.Name, at)))
				case "log":
					f("%sby: %s }", head, q(fmt.Sprintf("grpc.federation.log.%s('x:' + %s, {'arg_%s': $.path})", strings.ToLower(e.Level), at, e.Name)))
				case "child":
					f("%smessage { name: %s args { name: \"path\" by: %s } } }", head, q(e.Child.Name), q(at))
					outs = append(outs, fmt.Sprintf("'%[1]s=' + %[1]s.out + ';'", e.Name))
				case "map":
					f("%smap { iterator { name: \"it\" src: \"its\" } message { name: %s args { name: \"path\" by: %s } } } }", head, q(e.Child.Name), q(at+" + '.' + it"))
					outs = append(outs, fmt.Sprintf("'%[1]s=' + %[1]s[0].out + ',' + %[1]s[1].out + ',;'", e.Name))
				case "valid":
					f("    def { name: %s validation { error { code: %s if: %s message: %s log_level: %s } } }", q(e.Name), e.Code, q(cond+" && "+e.Of+".v.endsWith('!')"), q("'invalid ' + "+at), e.Level)
				case "call":
					f("%scall { method: \"ldep.D/Call\" request { field: \"key\" by: %s }", head, q(at))
					if e.Retry {
						f("      retry { constant { interval: \"1ms\" max_retries: 2 } if: \"error.code == google.rpc.Code.UNAVAILABLE\" }")
					}
					for i, bl := range e.Blocks {
						bl.emit(f, e, i)
					}
					f("    } }")
					outs = append(outs, fmt.Sprintf("'%[1]s=' + %[1]s.v + ';'", e.Name))
				}
			}
			if len(st) > 0 && st[0].Kind == "valid" {
				continue // what follows waits for it and for the stage before
			}
			prev = st
		}
		f("  };\n  string out = 1 [(grpc.federation.field).by = %s];\n}", q(strings.Join(append(append([]string{"'{'"}, outs...), "'}'"), " + ")))
	}
	return b.String()
}

func (b *Block) emit(f func(string, ...any), e *El, i int) {
	f("      error {")
	if b.ViaDef {
		f("        def { name: \"em%s%d\" by: \"error.message\" }", e.Name, i)
	}
	at := fmt.Sprintf("$.path + '/%s/n%d'", e.Name, i)
	switch b.Nested {
	case "call":
		f("        def { name: \"nc%s%d\" call { method: \"ldep.D/Call\" request { field: \"key\" by: %s } } }", e.Name, i, q(at))
	case "child":
		f("        def { name: \"nm%s%d\" message { name: %s args { name: \"path\" by: %s } } }", e.Name, i, q(b.Child.Name), q(at))
	}
	switch b.Cond {
	case "code":
		f("        if: \"error.code == google.rpc.Code.%s\"", b.CondArg)
	case "message":
		f("        if: %s", q(fmt.Sprintf("error.message.startsWith('E:' + $.path + '/%s:')", e.Name)))
	case "never":
		f("        if: %s", q(fmt.Sprintf("!error.message.startsWith('E:' + $.path + '/%s:')", e.Name)))
	}
	text := "error.message"
	if b.ViaDef {
		text = fmt.Sprintf("em%s%d", e.Name, i)
	}
	if b.Kind == "respond" {
		f("        ignore_and_response: %s", q("ldep.Res{v: 'I' + "+text+"}"))
	}
	if b.Kind == "status" {
		f("        message: %s", q(fmt.Sprintf("'b%d[' + $.path + ']' + %s", i, text)))
	}
	if b.Code != "" {
		f("        code: %s", b.Code)
	}
	if b.Level != "" {
		f("        log_level: %s", b.Level)
	}
	if b.Detail && b.Kind != "respond" {
		f("        details { localized_message { locale: \"en-US\" message: %s } }", q("'d:' + "+text))
	}
	f("      }")
}

// sharedProto shows the recorded finding of C06: the calls of one message share the
// variable error.
const sharedProto = `message SharedRes {
  option (grpc.federation.message) = {
    def { name: "a" call { method: "ldep.D/Call" request { field: "key" by: "$.path + '/fail/a'" }
      error {
        def { name: "na" call { method: "ldep.D/Call" request { field: "key" by: "$.path + '/hold'" } } }
        ignore_and_response: "ldep.Res{v: error.message}"
      }
    } }
    def { name: "b" call { method: "ldep.D/Call" request { field: "key" by: "$.path + '/fail/b'" }
      error {
        def { name: "nb" call { method: "ldep.D/Call" request { field: "key" by: "$.path + '/go'" } } }
        ignore_and_response: "ldep.Res{v: error.message}"
      }
    } }
  };
  string a = 1 [(grpc.federation.field).by = "a.v"];
  string b = 2 [(grpc.federation.field).by = "b.v"];
}`

// Glue renders the file that registers the generated service.
func (p *Program) Glue(string) (string, error) {
	return fmt.Sprintf(`package main

import (
	"context"
	"log/slog"

	"google.golang.org/grpc"

	"scratch/%[1]s"
	"scratch/ldep"
	"verifharness/fedlog"
)

type fac_%[1]s struct{ c grpc.ClientConnInterface }

func (f fac_%[1]s) Ldep_DClient(%[1]s.SClientConfig) (ldep.DClient, error) {
	return ldep.NewDClient(f.c), nil
}

type svc_%[1]s struct{ s *%[1]s.S }

func (v svc_%[1]s) Get(ctx context.Context, path string) (string, error) {
	r, err := v.s.Get(ctx, &%[1]s.GetReq{Path: path})
	return r.GetOut(), err
}

func (v svc_%[1]s) Shared(ctx context.Context, path string) (string, string, error) {
	r, err := v.s.Shared(ctx, &%[1]s.SharedReq{Path: path})
	return r.GetA(), r.GetB(), err
}

func init() {
	fedlog.Register(%[1]q, func(c grpc.ClientConnInterface, l *slog.Logger, h func(ctx context.Context, method string, err error) error) (fedlog.Service, error) {
		s, err := %[1]s.NewS(%[1]s.SConfig{Client: fac_%[1]s{c}, Logger: l, ErrorHandler: h})
		return svc_%[1]s{s}, err
	})
}
`, p.GoDir), nil
}
