package fedgraph

import (
	"context"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"sort"
	"strings"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// At is the program of a seed and index; its files live below directory t<index>.
func At(seed int64, i int) *Program {
	return Generate(rand.New(rand.NewSource(seed*1009+int64(i))), fmt.Sprintf("t%d", i))
}

// Service is a constructed service.
type Service struct {
	Call  func(ctx context.Context, method, p string) (proto.Message, error)
	Close func(ctx context.Context)
}

var registry = map[string]func(conn grpc.ClientConnInterface) (*Service, error){}

func Register(name string, f func(conn grpc.ClientConnInterface) (*Service, error)) {
	registry[name] = f
}

var ifaceRe = func(n string) *regexp.Regexp {
	return regexp.MustCompile(`(?s)type ` + n + ` interface \{\n(.*?)\n\}`)
}
var resRe = regexp.MustCompile(`(?m)^\t(\w+)\(context\.Context, (\*[\w.]+)\) \((\*([\w.]+)), error\)`)
var facRe = regexp.MustCompile(`(?m)^\t(\w+)\((\w+)\) \((\w+)\.(\w+), error\)`)
var importRe = regexp.MustCompile(`(?m)^\t(\w+) ("[^"]+")$`)

// Glue renders the file that registers the services of f, next to the generated code src.
func (f *File) Glue(src string) (string, error) {
	imports := map[string]string{}
	for _, m := range importRe.FindAllStringSubmatch(src, -1) {
		imports[m[1]] = m[2]
	}
	var b strings.Builder
	used := map[string]bool{}
	for _, s := range f.Svcs {
		fac := ifaceRe(s.Name + "ClientFactory").FindStringSubmatch(src)
		res := ifaceRe(s.Name + "Resolver").FindStringSubmatch(src)
		fmt.Fprintf(&b, "type zfac%s struct{ c grpc.ClientConnInterface }\n", s.Name)
		if fac != nil {
			for _, m := range facRe.FindAllStringSubmatch(fac[1], -1) {
				used[m[3]] = true
				fmt.Fprintf(&b, "func (f zfac%s) %s(%s) (%s.%s, error) { return %s.New%s(f.c), nil }\n", s.Name, m[1], m[2], m[3], m[4], m[3], m[4])
			}
		}
		fmt.Fprintf(&b, "type zres%s struct{}\n", s.Name)
		if res != nil {
			for _, m := range resRe.FindAllStringSubmatch(res[1], -1) {
				if p, _, ok := strings.Cut(m[4], "."); ok {
					used[p] = true
				}
				fmt.Fprintf(&b, "func (zres%s) %s(_ context.Context, a %s) (%s, error) { return &%s{V: \"custom\" + a.P}, nil }\n", s.Name, m[1], m[2], m[3], m[4])
			}
		}
		fmt.Fprintf(&b, "func init() {\n\tfedgraph.Register(%q, func(c grpc.ClientConnInterface) (*fedgraph.Service, error) {\n\t\tcfg := %sConfig{}\n", f.Pkg+"."+s.Name, s.Name)
		if strings.Contains(src, "\tClient "+s.Name+"ClientFactory ") {
			fmt.Fprintf(&b, "\t\tcfg.Client = zfac%s{c}\n", s.Name)
		}
		if strings.Contains(src, "\tResolver "+s.Name+"Resolver ") {
			fmt.Fprintf(&b, "\t\tcfg.Resolver = zres%s{}\n", s.Name)
		}
		fmt.Fprintf(&b, "\t\ts, err := New%[1]s(cfg)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\treturn &fedgraph.Service{Close: func(ctx context.Context) { Cleanup%[1]s(ctx, s) }, Call: func(ctx context.Context, m, p string) (proto.Message, error) {\n\t\t\tswitch m {\n", s.Name)
		for _, m := range s.Methods {
			fmt.Fprintf(&b, "\t\t\tcase %q:\n\t\t\t\treturn s.%s(ctx, &%s{P: p, Q: 7})\n", m.Name, m.Name, f.reqName(m.Req))
		}
		b.WriteString("\t\t\t}\n\t\t\tpanic(m)\n\t\t}}, nil\n\t})\n}\n")
	}
	pk := f.Gopkg[strings.Index(f.Gopkg, ";")+1:]
	var h strings.Builder
	fmt.Fprintf(&h, "package %s\n\nimport (\n\t\"context\"\n\n\t\"google.golang.org/grpc\"\n\t\"google.golang.org/protobuf/proto\"\n\t\"verifharness/fedgraph\"\n", pk)
	var us []string
	for u := range used {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		if imports[u] == "" {
			return "", fmt.Errorf("import %s of %s not found", u, f.Name)
		}
		fmt.Fprintf(&h, "\t%s %s\n", u, imports[u])
	}
	h.WriteString(")\n\n")
	return h.String() + b.String(), nil
}

// expect compares a message with what the definitions say for argument p.
func expect(m *Msg, v protoreflect.Message, p, path string) string {
	fs := v.Descriptor().Fields()
	get := func(n string) protoreflect.FieldDescriptor { return fs.ByName(protoreflect.Name(n)) }
	if string(v.Descriptor().FullName()) != m.FQDN() {
		return fmt.Sprintf("%s is a %s, not a %s", path, v.Descriptor().FullName(), m.FQDN())
	}
	if m.Custom {
		if s := v.Get(get("v")).String(); s != "custom"+p {
			return fmt.Sprintf("%s.v is %q, the resolver returned %q", path, s, "custom"+p)
		}
		return ""
	}
	if s := v.Get(get("v")).String(); s != "a"+p {
		return fmt.Sprintf("%s.v is %q, not %q", path, s, "a"+p)
	}
	taken := false
	hasOneof := false
	for _, e := range m.Edges {
		f := get(fmt.Sprintf("v%d", e.ID))
		sub := path + "." + fmt.Sprintf("v%d", e.ID)
		switch e.Kind {
		case "def":
			if !v.Has(f) {
				return sub + " is not set"
			}
			if w := expect(e.To, v.Get(f).Message(), p, sub); w != "" {
				return w
			}
		case "second":
			if v.Has(f) != (p == "a") {
				return fmt.Sprintf("%s is set: %v", sub, v.Has(f))
			}
			if v.Has(f) {
				if w := expect(e.To, v.Get(f).Message(), p, sub); w != "" {
					return w
				}
			}
		case "map":
			l := v.Get(f).List()
			if l.Len() != 2 {
				return fmt.Sprintf("%s has %d elements, not 2", sub, l.Len())
			}
			for i, q := range []string{"a", p} {
				if w := expect(e.To, l.Get(i).Message(), q, fmt.Sprintf("%s[%d]", sub, i)); w != "" {
					return w
				}
			}
		case "oneof":
			hasOneof = true
			want := !taken && p == fmt.Sprint(e.ID)
			if v.Has(f) != want {
				return fmt.Sprintf("%s is set: %v", sub, v.Has(f))
			}
			if want {
				taken = true
				if w := expect(e.To, v.Get(f).Message(), p, sub); w != "" {
					return w
				}
			}
		}
	}
	if hasOneof {
		if got := v.Get(get("os")).String(); got != map[bool]string{true: "", false: "d"}[taken] {
			return fmt.Sprintf("%s.os is %q", path, got)
		}
	}
	return ""
}

type backend struct{ fail map[string]bool }

func (b *backend) NewStream(context.Context, *grpc.StreamDesc, string, ...grpc.CallOption) (grpc.ClientStream, error) {
	return nil, status.Error(codes.Unimplemented, "stream")
}
func (b *backend) Invoke(_ context.Context, method string, req, reply any, _ ...grpc.CallOption) error {
	m := req.(proto.Message).ProtoReflect()
	p := m.Get(m.Descriptor().Fields().ByName("p")).String()
	if b.fail[p] {
		return status.Error(codes.NotFound, "no "+p)
	}
	r := reply.(proto.Message).ProtoReflect()
	r.Set(r.Descriptor().Fields().ByName("v"), protoreflect.ValueOfString(method+p))
	return nil
}

// Main starts every service and calls every method.
func Main() {
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 1, "")
	flag.Parse()
	ctx := context.Background()
	evals, started, msgs := 0, 0, 0
	bad := map[codes.Code]bool{codes.Unknown: true, codes.Internal: true, codes.Unimplemented: true}
	codesSeen := map[codes.Code]int{}
	for i := range *n {
		p := At(*seed, i)
		for _, f := range p.Files {
			for _, s := range f.Svcs {
				ctor := registry[f.Pkg+"."+s.Name]
				if ctor == nil {
					fmt.Printf("VIOL service %s.%s was not generated\n", f.Pkg, s.Name)
					continue
				}
				svc, err := ctor(&backend{fail: map[string]bool{"fail": true}})
				evals++
				if err != nil {
					fmt.Printf("VIOL service %s.%s of %s does not start: %v\n", f.Pkg, s.Name, p, err)
					continue
				}
				started++
				for _, m := range s.Methods {
					ps := []string{"x", "a", "bad", "fail"}
					for _, e := range m.Res.Edges {
						if e.Kind == "oneof" {
							ps = append(ps, fmt.Sprint(e.ID))
						}
					}
					for _, q := range ps {
						r, err := svc.Call(ctx, m.Name, q)
						evals++
						st, _ := status.FromError(err)
						codesSeen[st.Code()]++
						what := fmt.Sprintf("%s.%s/%s(%q) of %s", f.Pkg, s.Name, m.Name, q, p)
						switch {
						case bad[st.Code()]:
							fmt.Printf("VIOL %s: %v\n", what, err)
						case q == "bad" || q == "fail":
						case err != nil:
							fmt.Printf("VIOL %s fails: %v\n", what, err)
						default:
							msgs++
							if w := expect(m.Res, r.ProtoReflect(), q, m.Res.Name); w != "" {
								fmt.Printf("VIOL %s: %s\n", what, w)
							}
						}
					}
				}
				svc.Close(ctx)
			}
		}
	}
	for c, k := range codesSeen {
		fmt.Printf("COUNT code_%s %d\n", c, k)
	}
	fmt.Printf("COUNT services_started %d\nCOUNT responses_checked %d\n", started, msgs)
	fmt.Printf("EVAL %d %d\n", evals, msgs)
	os.Exit(0)
}
