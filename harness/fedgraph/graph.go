// Package fedgraph generates programs of messages that refer to each other across
// definitions, Files and packages.
package fedgraph

import (
	"fmt"
	"math/rand"
	"strings"
)

// A graph program: messages of several Files and packages that refer to each other
// in every way the definitions allow. Short names repeat between packages, Files
// and services on purpose.

// Edge says that resolving a message resolves another one.
type Edge struct {
	To   *Msg
	Kind string
	ID   int
}

type Msg struct {
	File   *File
	Name   string // short name
	Parent *Msg   // nested in
	Edges  []*Edge
	Custom bool
	order  int
}

func (m *Msg) path() string {
	if m.Parent != nil {
		return m.Parent.path() + "." + m.Name
	}
	return m.Name
}
func (m *Msg) FQDN() string { return m.File.Pkg + "." + m.path() }

type Method struct {
	Name, Req string
	Res       *Msg
	timeout   bool
}

type Svc struct {
	Name    string
	Methods []*Method
	Env     bool
}

type File struct {
	prog    *Program
	Name    string // import name
	Pkg     string
	Gopkg   string
	Imports []*File
	Msgs    []*Msg
	Svcs    []*Svc
	Idx     int
}

type Program struct {
	Tag   string
	Files []*File
	Msgs  []*Msg
	edge  int
}

var edgeKinds = []string{"def", "def", "map", "err", "errdetail", "errmsg", "valid", "validmsg", "oneof", "errmap", "second"}

func (f *File) Sees(t *File) bool {
	if f == t {
		return true
	}
	for _, i := range f.Imports {
		if i == t {
			return true
		}
	}
	return false
}

// Generate makes an acyclic program: Edges lead from a message to one of higher order.
func Generate(r *rand.Rand, tag string) *Program {
	p := &Program{Tag: tag}
	nf := []int{1, 1, 2, 2, 3, 4}[r.Intn(6)]
	for i := range nf {
		pkg := fmt.Sprintf("%s.p%c", tag, 'a'+r.Intn(nf))
		if r.Intn(4) == 0 {
			pkg = tag + ".px"
		}
		base := fmt.Sprintf("%s_f%d", tag, i)
		f := &File{prog: p, Idx: i, Name: tag + "/" + base + ".proto", Pkg: pkg}
		f.Name = strings.ReplaceAll(pkg, ".", "/") + "/" + base + ".proto"
		gp := strings.ReplaceAll(pkg, ".", "/")
		f.Gopkg = "scratch/" + gp + ";" + strings.ReplaceAll(pkg, ".", "")
		p.Files = append(p.Files, f)
	}
	// no import cycles between Go packages: a file imports later Files whose package
	// is not that of an earlier one
	first := map[string]int{}
	last := map[string]int{}
	for i, f := range p.Files {
		if _, ok := first[f.Pkg]; !ok {
			first[f.Pkg] = i
		}
		last[f.Pkg] = i
	}
	for i, f := range p.Files {
		for _, t := range p.Files[i+1:] {
			if t.Pkg == f.Pkg && r.Intn(3) > 0 || first[t.Pkg] > last[f.Pkg] && r.Intn(3) > 0 {
				f.Imports = append(f.Imports, t)
			}
		}
	}
	names := []string{"X", "Y", "Z", "Item", "User", "Post"}
	for _, f := range p.Files {
		used := map[string]bool{}
		for _, g := range p.Files[:f.Idx] {
			if g.Pkg == f.Pkg {
				for _, m := range g.Msgs {
					if m.Parent == nil {
						used[m.Name] = true
					}
				}
			}
		}
		for range 1 + r.Intn(5) {
			m := &Msg{File: f, Name: names[r.Intn(len(names))], order: len(p.Msgs)}
			if len(f.Msgs) > 0 && r.Intn(5) == 0 {
				m.Parent = f.Msgs[r.Intn(len(f.Msgs))]
			}
			k := m.path()
			if used[k] {
				continue
			}
			used[k] = true
			f.Msgs = append(f.Msgs, m)
			p.Msgs = append(p.Msgs, m)
		}
		if len(f.Msgs) == 0 {
			m := &Msg{File: f, Name: fmt.Sprintf("Only%d", f.Idx), order: len(p.Msgs)}
			f.Msgs = append(f.Msgs, m)
			p.Msgs = append(p.Msgs, m)
		}
	}
	for _, i := range r.Perm(len(p.Msgs)) {
		p.Msgs[i].order = i // Files are ordered; keep that between Files
	}
	// random order inside of a file, by file otherwise
	n := 0
	for _, f := range p.Files {
		for _, i := range r.Perm(len(f.Msgs)) {
			f.Msgs[i].order = n
			n++
		}
	}
	for _, m := range p.Msgs {
		m.Custom = r.Intn(8) == 0
		for range r.Intn(4) {
			t := p.Msgs[r.Intn(len(p.Msgs))]
			if t.order > m.order && m.File.Sees(t.File) {
				p.AddEdge(r, m, t)
			}
		}
	}
	// every message that nothing refers to is the response of a method
	refd := map[*Msg]bool{}
	for _, m := range p.Msgs {
		for _, e := range m.Edges {
			if e.To.File == m.File {
				refd[e.To] = true // arguments are those of callers in view
			}
		}
	}
	svcUsed := map[string]bool{}
	for _, f := range p.Files {
		var rs []*Msg
		for _, m := range f.Msgs {
			if !refd[m] || r.Intn(4) == 0 {
				rs = append(rs, m)
			}
		}
		if len(rs) == 0 {
			continue
		}
		for _, n := range []string{"S", "T"} {
			if svcUsed[f.Pkg+n] || len(rs) == 0 {
				continue
			}
			svcUsed[f.Pkg+n] = true
			s := &Svc{Name: n, Env: r.Intn(3) == 0}
			take := rs
			if n == "S" && r.Intn(2) == 0 {
				k := r.Intn(len(rs)) + 1
				take, rs = rs[:k], rs[k:]
			} else {
				rs = nil
			}
			for i, m := range take {
				s.Methods = append(s.Methods, &Method{Name: fmt.Sprintf("Get%d", i), Res: m, Req: []string{"Req", "Req", "OtherReq"}[r.Intn(3)], timeout: r.Intn(4) == 0})
				if r.Intn(4) == 0 { // a second method with the same response
					s.Methods = append(s.Methods, &Method{Name: fmt.Sprintf("Again%d", i), Res: m, Req: "Req"})
				}
			}
			f.Svcs = append(f.Svcs, s)
		}
		if len(rs) > 0 { // no service name left in this package
			s := &Svc{Name: fmt.Sprintf("Svc%d", f.Idx)}
			for i, m := range rs {
				s.Methods = append(s.Methods, &Method{Name: fmt.Sprintf("Get%d", i), Res: m, Req: "Req"})
			}
			f.Svcs = append(f.Svcs, s)
		}
	}
	return p
}

func (p *Program) AddEdge(r *rand.Rand, m, t *Msg) *Edge {
	p.edge++
	e := &Edge{To: t, Kind: edgeKinds[r.Intn(len(edgeKinds))], ID: p.edge}
	if m.Custom && e.Kind == "oneof" {
		e.Kind = "def"
	}
	m.Edges = append(m.Edges, e)
	return e
}

// Cyclic tells whether a message resolves itself.
func (p *Program) Cyclic() bool {
	state := map[*Msg]int{}
	var visit func(m *Msg) bool
	visit = func(m *Msg) bool {
		switch state[m] {
		case 1:
			return true
		case 2:
			return false
		}
		state[m] = 1
		for _, e := range m.Edges {
			if visit(e.To) {
				return true
			}
		}
		state[m] = 2
		return false
	}
	for _, m := range p.Msgs {
		if visit(m) {
			return true
		}
	}
	return false
}

func (p *Program) Texts() map[string]string {
	out := map[string]string{"gdep/gdep.proto": `syntax = "proto3";
package gdep;
option go_package = "scratch/gdep;gdep";
message GReq { string p = 1; }
message GRes { string v = 1; repeated string l = 2; }
service D1 {
  rpc Get(GReq) returns (GRes);
  rpc Other(GReq) returns (GRes);
}
service D2 {
  rpc Get(GReq) returns (GRes);
}
`}
	for _, f := range p.Files {
		out[f.Name] = f.text()
	}
	return out
}

func (f *File) text() string {
	var b strings.Builder
	fmt.Fprintf(&b, "syntax = \"proto3\";\npackage %s;\noption go_package = %q;\nimport \"grpc/federation/federation.proto\";\nimport \"gdep/gdep.proto\";\n", f.Pkg, f.Gopkg)
	for _, i := range f.Imports {
		fmt.Fprintf(&b, "import %q;\n", i.Name)
	}
	reqs := map[string]bool{}
	for _, s := range f.Svcs {
		fmt.Fprintf(&b, "service %s {\n  option (grpc.federation.service) = {\n", s.Name)
		if s.Env {
			fmt.Fprintf(&b, "    env { var { name: \"E1\" type { kind: STRING } } var { name: \"E0\" type { kind: INT64 } } }\n")
		}
		b.WriteString("  };\n")
		for _, m := range s.Methods {
			reqs[m.Req] = true
			fmt.Fprintf(&b, "  rpc %s(%s) returns (%s)", m.Name, f.reqName(m.Req), f.ref(m.Res))
			if m.timeout {
				b.WriteString(" {\n    option (grpc.federation.method) = { timeout: \"1m\" };\n  }\n")
			} else {
				b.WriteString(";\n")
			}
		}
		b.WriteString("}\n")
	}
	for _, n := range []string{"Req", "OtherReq"} {
		if reqs[n] {
			fmt.Fprintf(&b, "message %s {\n  string p = 1;\n  int64 q = 2;\n}\n", f.reqName(n))
		}
	}
	for _, m := range f.Msgs {
		if m.Parent == nil {
			m.emit(&b, "")
		}
	}
	return b.String()
}

func (f *File) reqName(n string) string { return fmt.Sprintf("%s%d", n, f.Idx) }

func (f *File) ref(m *Msg) string { return "." + m.FQDN() }

func (m *Msg) emit(b *strings.Builder, in string) {
	fmt.Fprintf(b, "%smessage %s {\n", in, m.Name)
	in2 := in + "  "
	fmt.Fprintf(b, "%soption (grpc.federation.message) = {\n", in2)
	if m.Custom {
		fmt.Fprintf(b, "%s  custom_resolver: true\n", in2)
	}
	w := func(f string, a ...any) { fmt.Fprintf(b, in2+"  "+f+"\n", a...) }
	var fields, oneofs []string
	num := 1
	args := `args { name: "p" by: "$.p" } args { name: "q" by: "$.q" }`
	w(`def { name: "l" by: "['a', $.p]" }`)
	for _, e := range m.Edges {
		ref := fmt.Sprintf("message { name: %q %s }", e.To.FQDN(), args)
		n := fmt.Sprintf("v%d", e.ID)
		num++
		field := func(rep string) {
			if m.Custom {
				fields = append(fields, fmt.Sprintf("%s%s %s = %d;", rep, m.File.ref(e.To), n, num))
				return
			}
			fields = append(fields, fmt.Sprintf("%s%s %s = %d [(grpc.federation.field).by = %q];", rep, m.File.ref(e.To), n, num, n))
		}
		svc := []string{"gdep.D1/Get", "gdep.D2/Get", "gdep.D1/Other"}[e.ID%3]
		call := func(body string) {
			w(`def { name: %q call { method: %q request { field: "p" by: "$.p" } error { if: "error.code == 5" %s } } }`, n, svc, body)
		}
		switch e.Kind {
		case "def":
			w(`def { name: %q %s }`, n, ref)
			field("")
		case "second":
			w(`def { name: %q if: "$.p == 'a'" %s }`, n, ref)
			field("")
		case "map":
			w(`def { name: %q map { iterator { name: "i" src: "l" } message { name: %q args { name: "p" by: "i" } args { name: "q" by: "$.q" } } } }`, n, e.To.FQDN())
			field("repeated ")
		case "err":
			call(fmt.Sprintf(`def { name: "e%d" %s } message: "'x'" code: ABORTED`, e.ID, ref))
		case "errmap":
			call(fmt.Sprintf(`def { name: "el%d" by: "['b', $.p]" } def { name: "e%d" map { iterator { name: "i" src: "el%d" } message { name: %q args { name: "p" by: "i" } args { name: "q" by: "$.q" } } } } ignore: true`, e.ID, e.ID, e.ID, e.To.FQDN()))
		case "errdetail":
			call(fmt.Sprintf(`details { def { name: "e%d" %s } by: "gdep.GRes{v: 'x'}" } code: ABORTED message: "error.message"`, e.ID, ref))
		case "errmsg":
			call(fmt.Sprintf(`details { %s } code: NOT_FOUND message: "$.p"`, ref))
		case "valid":
			w(`def { name: "v%d" validation { error { def { name: "e%d" %s } if: "$.p == 'bad'" code: FAILED_PRECONDITION message: "'bad'" } } }`, e.ID, e.ID, ref)
		case "validmsg":
			w(`def { name: "v%d" validation { error { if: "$.p == 'bad'" code: FAILED_PRECONDITION message: "'bad'" details { %s } } } }`, e.ID, ref)
		case "oneof":
			if m.Custom {
				oneofs = append(oneofs, fmt.Sprintf("%s %s = %d;", m.File.ref(e.To), n, num))
			} else {
				oneofs = append(oneofs, fmt.Sprintf("%s %s = %d [(grpc.federation.field).oneof = { if: \"$.p == '%d'\" def { name: \"o%d\" %s } by: \"o%d\" }];", m.File.ref(e.To), n, num, e.ID, e.ID, ref, e.ID))
			}
		}
	}
	fmt.Fprintf(b, "%s};\n", in2)
	for _, f := range fields {
		fmt.Fprintf(b, "%s%s\n", in2, f)
	}
	num++
	if m.Custom {
		fmt.Fprintf(b, "%sstring v = 1;\n", in2)
	} else {
		fmt.Fprintf(b, "%sstring v = 1 [(grpc.federation.field).by = \"l[0] + $.p\"];\n", in2)
	}
	if len(oneofs) > 0 {
		fmt.Fprintf(b, "%soneof o {\n", in2)
		for _, o := range oneofs {
			fmt.Fprintf(b, "%s  %s\n", in2, o)
		}
		num++
		if m.Custom {
			fmt.Fprintf(b, "%s  string os = %d;\n", in2, num)
		} else {
			fmt.Fprintf(b, "%s  string os = %d [(grpc.federation.field).oneof = { default: true by: \"'d'\" }];\n", in2, num)
		}
		fmt.Fprintf(b, "%s}\n", in2)
	}
	for _, c := range m.File.Msgs {
		if c.Parent == m {
			c.emit(b, in2)
		}
	}
	fmt.Fprintf(b, "%s}\n", in)
}

func (m *Msg) String() string {
	var l []string
	for _, e := range m.Edges {
		l = append(l, e.Kind+">"+e.To.FQDN())
	}
	return m.FQDN() + "[" + strings.Join(l, " ") + "]"
}

func (p *Program) String() string {
	var l []string
	for _, m := range p.Msgs {
		l = append(l, m.String())
	}
	return strings.Join(l, "; ")
}
