package fedenv

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

func (t Type) proto() string {
	k := t.Kind
	if k == "duration" {
		k = "google.protobuf.Duration"
	}
	switch {
	case t.Repeated:
		return "repeated " + k
	case t.Key != "":
		return fmt.Sprintf("map<%s, %s>", t.Key, k)
	}
	return k
}

func (t Type) env() string {
	k := "kind: " + strings.ToUpper(t.Kind)
	switch {
	case t.Repeated:
		return "repeated { " + k + " }"
	case t.Key != "":
		return fmt.Sprintf("map { key { kind: %s } value { %s } }", strings.ToUpper(t.Key), k)
	}
	return k
}

func (v *EnvVar) opts() string {
	var s []string
	if v.Alternate != "" {
		s = append(s, "alternate: "+strconv.Quote(v.Alternate))
	}
	if v.Default != "" {
		s = append(s, "default: "+pq(v.Default))
	}
	if v.Required {
		s = append(s, "required: true")
	}
	if v.Ignored {
		s = append(s, "ignored: true")
	}
	return strings.Join(s, " ")
}

func pq(s string) string { return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"` }

// Proto renders the program.
func (p *Program) Proto() string {
	var b strings.Builder
	fmt.Fprintf(&b, "syntax = \"proto3\";\npackage %s;\nimport \"grpc/federation/federation.proto\";\nimport \"google/protobuf/duration.proto\";\noption go_package = \"scratch/%s;%s\";\n\n", p.Pkg, p.GoDir, p.GoDir)
	fmt.Fprintf(&b, "service S {\n  option (grpc.federation.service) = {\n")
	if p.EnvMessage {
		fmt.Fprintf(&b, "    env { message: \"EnvMsg\" }\n")
	} else {
		fmt.Fprintf(&b, "    env {\n")
		for _, v := range p.Env {
			fmt.Fprintf(&b, "      var { name: %q type { %s }", v.Name, v.Type.env())
			if o := v.opts(); o != "" {
				fmt.Fprintf(&b, " option { %s }", o)
			}
			fmt.Fprintf(&b, " }\n")
		}
		fmt.Fprintf(&b, "    }\n")
	}
	usesConst := false
	for _, v := range p.Vars {
		fmt.Fprintf(&b, "    var {\n")
		if v.Name != "" {
			fmt.Fprintf(&b, "      name: %q\n", v.Name)
		}
		if v.If != nil {
			fmt.Fprintf(&b, "      if: %s\n", pq(v.If.Text))
		}
		switch v.Kind {
		case "by":
			fmt.Fprintf(&b, "      by: %s\n", pq(v.By.Text))
		case "validation":
			fmt.Fprintf(&b, "      validation { if: %s message: %s }\n", pq(v.By.Text), pq(v.By2.Text))
		case "message":
			usesConst = true
			fmt.Fprintf(&b, "      message { name: \"Const\" args: [ { name: \"s\" by: %s }, { name: \"n\" by: %s } ] }\n", pq(v.By.Text), pq(v.By2.Text))
		case "map":
			fmt.Fprintf(&b, "      map { iterator { name: \"it\" src: %q } by: %s }\n", v.Src, pq(v.By.Text))
		}
		fmt.Fprintf(&b, "    }\n")
	}
	fmt.Fprintf(&b, "  };\n  rpc Get(GetReq) returns (Res) {};\n}\nmessage GetReq { string id = 1; }\n")
	if p.EnvMessage {
		fmt.Fprintf(&b, "message EnvMsg {\n")
		for i, v := range p.Env {
			fmt.Fprintf(&b, "  %s %s = %d", v.Type.proto(), v.Name, i+1)
			if o := v.opts(); o != "" {
				fmt.Fprintf(&b, " [(grpc.federation.field).env = { %s }]", o)
			}
			fmt.Fprintf(&b, ";\n")
		}
		fmt.Fprintf(&b, "}\n")
	}
	if usesConst {
		fmt.Fprintf(&b, "message Const {\n  string s = 1 [(grpc.federation.field).by = \"$.s + '|' + grpc.federation.env.%s\"];\n  int64 n = 2 [(grpc.federation.field).by = \"$.n\"];\n}\n", p.Env[0].Name)
	}
	body := func(first int) {
		n := first
		for i, v := range p.Env {
			fmt.Fprintf(&b, "  %s e_%d = %d [(grpc.federation.field).by = \"grpc.federation.env.%s\"];\n", v.Type.proto(), i, n, v.Name)
			n++
		}
		for i, v := range p.Vars {
			t := v.Type.proto()
			switch v.Kind {
			case "validation":
				continue
			case "message":
				t = "Const"
			}
			fmt.Fprintf(&b, "  %s v_%d = %d [(grpc.federation.field).by = \"grpc.federation.var.%s\"];\n", t, i, n, v.Name)
			n++
		}
	}
	fmt.Fprintf(&b, "message Sub {\n  option (grpc.federation.message) = {};\n")
	body(1)
	fmt.Fprintf(&b, "}\nmessage Res {\n  option (grpc.federation.message) = {\n    def { name: \"sub\" message { name: \"Sub\" } }\n  };\n  string id = 1 [(grpc.federation.field).by = \"$.id\"];\n  Sub sub = 2 [(grpc.federation.field).by = \"sub\"];\n  string ctxenv = 3 [(grpc.federation.field).custom_resolver = true];\n")
	body(4)
	fmt.Fprintf(&b, "}\n")
	return b.String()
}

var resolverRe = regexp.MustCompile(`(Resolve_\w+_Ctxenv)\(context\.Context, \*(\w+)\)`)

// Glue renders the file that registers the generated service.
func (p *Program) Glue(src string) (string, error) {
	m := resolverRe.FindStringSubmatch(src)
	if m == nil {
		return "", fmt.Errorf("no resolver found in the generated code of %s", p.Pkg)
	}
	ctxVar := "nil"
	if len(p.Vars) > 0 {
		ctxVar = p.GoDir + ".GetSVariable(ctx)"
	}
	return fmt.Sprintf(`package main

import (
	"context"

	"google.golang.org/protobuf/proto"

	"scratch/%[1]s"
	"verifharness/fedenv"
)

type res_%[1]s struct{}

func (res_%[1]s) %[2]s(ctx context.Context, _ *%[1]s.%[3]s) (string, error) {
	return fedenv.ShowCtx(%[1]s.GetSEnv(ctx), %[4]s), nil
}

type svc_%[1]s struct{ s *%[1]s.S }

func (v svc_%[1]s) Get(ctx context.Context, id string) (proto.Message, error) {
	return v.s.Get(ctx, &%[1]s.GetReq{Id: id})
}

func (v svc_%[1]s) Close(ctx context.Context) { %[1]s.CleanupS(ctx, v.s) }

func init() {
	fedenv.Register(%[1]q, func() (fedenv.Service, error) {
		s, err := %[1]s.NewS(%[1]s.SConfig{Resolver: res_%[1]s{}})
		if err != nil {
			return nil, err
		}
		return svc_%[1]s{s}, nil
	})
}
`, p.GoDir, m[1], m[2], ctxVar), nil
}
