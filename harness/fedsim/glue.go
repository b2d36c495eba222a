package fedsim

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"strings"
)

// Glue renders the Go file that registers one generated service with the driver.
// src is the generated federation file of the program.
func (p *Program) Glue(src string) (string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "gen.go", src, 0)
	if err != nil {
		return "", fmt.Errorf("generated file of %s does not parse: %w", p.Pkg, err)
	}
	var iface *ast.InterfaceType
	fields := map[string]bool{}
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, s := range gd.Specs {
			ts, ok := s.(*ast.TypeSpec)
			if !ok {
				continue
			}
			switch ts.Name.Name {
			case p.Svc + "Resolver":
				iface, _ = ts.Type.(*ast.InterfaceType)
			case p.Svc + "Config":
				if st, ok := ts.Type.(*ast.StructType); ok {
					for _, x := range st.Fields.List {
						for _, n := range x.Names {
							fields[n.Name] = true
						}
					}
				}
			}
		}
	}
	var b strings.Builder
	pk := p.GoDir
	fmt.Fprintf(&b, "package main\n\nimport (\n\t\"context\"\n\n\t\"google.golang.org/grpc\"\n\t\"google.golang.org/protobuf/proto\"\n\n\t\"scratch/dep\"\n\t%q\n\t\"verifharness/fedrt\"\n)\n\n", "scratch/"+pk)
	fmt.Fprintf(&b, "var _ dep.Kind\n\ntype fac_%s struct{ c grpc.ClientConnInterface }\n\n", pk)
	for _, s := range sortedKeys(p.UsesCall) {
		sv := short(s)
		fmt.Fprintf(&b, "func (f fac_%[1]s) Dep_%[2]sClient(%[1]s.%[3]sClientConfig) (dep.%[2]sClient, error) { return dep.New%[2]sClient(f.c), nil }\n", pk, sv, p.Svc)
	}
	fmt.Fprintf(&b, "\ntype res_%s struct{}\n\n", pk)
	hasRes := false
	if iface != nil {
		for _, m := range iface.Methods.List {
			ft, ok := m.Type.(*ast.FuncType)
			if !ok || len(m.Names) == 0 || len(ft.Params.List) != 2 || len(ft.Results.List) != 2 {
				continue
			}
			hasRes = true
			name := m.Names[0].Name
			pr := func(e ast.Expr) string {
				qualify(e, pk)
				var sb strings.Builder
				_ = printer.Fprint(&sb, fset, e)
				return sb.String()
			}
			argT, retT := pr(ft.Params.List[1].Type), pr(ft.Results.List[0].Type)
			fmt.Fprintf(&b, "func (res_%s) %s(ctx context.Context, a %s) (%s, error) {\n\treturn fedrt.Resolve[%s](ctx, %q, a)\n}\n\n", pk, name, argT, retT, retT, resolverName(p, name))
		}
	}
	fmt.Fprintf(&b, "type svc_%[1]s struct{ s *%[1]s.%[2]s }\n\n", pk, p.Svc)
	fmt.Fprintf(&b, "func (v svc_%s) Call(ctx context.Context, m string, req proto.Message) (proto.Message, error) {\n\tswitch m {\n", pk)
	for _, r := range p.RPCs {
		fmt.Fprintf(&b, "\tcase %q:\n\t\tres, err := v.s.%s(ctx, req.(*%s.%s))\n\t\tif res == nil {\n\t\t\treturn nil, err\n\t\t}\n\t\treturn res, err\n", r.Name, r.Name, pk, short(r.Req.FQDN))
	}
	fmt.Fprintf(&b, "\t}\n\tpanic(m)\n}\n\nfunc (v svc_%s) NewReq(m string) proto.Message {\n\tswitch m {\n", pk)
	for _, r := range p.RPCs {
		fmt.Fprintf(&b, "\tcase %q:\n\t\treturn &%s.%s{}\n", r.Name, pk, short(r.Req.FQDN))
	}
	fmt.Fprintf(&b, "\t}\n\tpanic(m)\n}\n\nfunc (v svc_%[1]s) Cleanup(ctx context.Context) { %[1]s.Cleanup%[2]s(ctx, v.s) }\n\n", pk, p.Svc)
	fmt.Fprintf(&b, "func init() {\n\tfedrt.Register(%q, func(c grpc.ClientConnInterface, o *fedrt.Options) (fedrt.Service, error) {\n\t\tcfg := %s.%sConfig{}\n", p.Pkg, pk, p.Svc)
	if fields["Client"] {
		fmt.Fprintf(&b, "\t\tcfg.Client = fac_%s{c}\n", pk)
	}
	if hasRes && fields["Resolver"] {
		fmt.Fprintf(&b, "\t\tcfg.Resolver = res_%s{}\n", pk)
	}
	fmt.Fprintf(&b, "\t\tcfg.ErrorHandler = o.ErrorHandler\n\t\tcfg.Logger = o.Logger\n\t\ts, err := %[1]s.New%[2]s(cfg)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\treturn svc_%[1]s{s}, nil\n\t})\n}\n", pk, p.Svc)
	return b.String(), nil
}

func resolverName(p *Program, goName string) string {
	s := strings.TrimPrefix(goName, "Resolve_")
	i := strings.IndexByte(s, '_')
	s = s[i+1:]
	if j := strings.IndexByte(s, '_'); j > 0 {
		return s[:j] + "." + strings.ToLower(s[j+1:])
	}
	return s
}

// qualify prefixes the package to identifiers declared in the generated package.
func qualify(e ast.Expr, pk string) {
	basic := map[string]bool{"string": true, "bool": true, "int64": true, "int32": true, "uint64": true, "uint32": true, "float64": true, "float32": true, "byte": true, "any": true, "error": true}
	fix := func(x *ast.Expr) {
		if id, ok := (*x).(*ast.Ident); ok && !basic[id.Name] {
			*x = &ast.SelectorExpr{X: ast.NewIdent(pk), Sel: id}
		}
	}
	switch x := e.(type) {
	case *ast.StarExpr:
		fix(&x.X)
		qualify(x.X, pk)
	case *ast.ArrayType:
		fix(&x.Elt)
		qualify(x.Elt, pk)
	case *ast.MapType:
		fix(&x.Value)
		qualify(x.Value, pk)
	}
}
