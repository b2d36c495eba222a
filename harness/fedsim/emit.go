package fedsim

import (
	"fmt"
	"sort"
	"strings"

	"google.golang.org/grpc/codes"
)

// Q quotes a proto option string.
func Q(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch r {
		case '"':
			b.WriteString(`\"`)
		case '\\':
			b.WriteString(`\\`)
		case '\n':
			b.WriteString(`\n`)
		case '\t':
			b.WriteString(`\t`)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

type emitter struct {
	b   strings.Builder
	ind int
	p   *Program
}

func (e *emitter) l(format string, args ...any) {
	e.b.WriteString(strings.Repeat("  ", e.ind))
	fmt.Fprintf(&e.b, format, args...)
	e.b.WriteByte('\n')
}

func (e *emitter) block(head string, f func()) {
	e.l("%s {", head)
	e.ind++
	f()
	e.ind--
	e.l("}")
}

var codeNames = map[int]string{}

func init() {
	for c := 0; c <= 16; c++ {
		s := codes.Code(c).String()
		var o strings.Builder
		for i, r := range s {
			if i > 0 && r >= 'A' && r <= 'Z' && !(s[i-1] >= 'A' && s[i-1] <= 'Z') {
				o.WriteByte('_')
			}
			o.WriteString(strings.ToUpper(string(r)))
		}
		codeNames[c] = o.String()
	}
	codeNames[1] = "CANCELLED"
}

// Proto is the text of the federation program.
func (p *Program) Proto() string {
	e := &emitter{p: p}
	e.l(`syntax = "proto3";`)
	e.l("package %s;", p.Pkg)
	e.l("option go_package = \"scratch/%s;%s\";", p.GoDir, p.GoDir)
	e.l(`import "dep/dep.proto";`)
	e.l(`import "grpc/federation/federation.proto";`)
	e.block("service "+p.Svc, func() {
		e.l("option (grpc.federation.service) = {};")
		for _, r := range p.RPCs {
			if r.Timeout == "" {
				e.l("rpc %s(%s) returns (%s);", r.Name, short(r.Req.FQDN), r.Resp.Name)
			} else {
				e.block(fmt.Sprintf("rpc %s(%s) returns (%s)", r.Name, short(r.Req.FQDN), r.Resp.Name), func() {
					e.l("option (grpc.federation.method).timeout = %s;", Q(r.Timeout))
				})
			}
		}
	})
	for _, a := range p.AEnums {
		e.block("enum "+short(a.Desc.FQDN), func() {
			e.l("option (grpc.federation.enum).alias = %s;", Q(a.Src.FQDN))
			for _, v := range a.Desc.Vals {
				var opts []string
				if v.Name == a.Default {
					opts = append(opts, "(grpc.federation.enum_value).default = true")
				}
				as := a.Aliases[v.Name]
				if !(len(as) == 1 && as[0] == v.Name) {
					var qs []string
					for _, x := range as {
						qs = append(qs, Q(x))
					}
					if len(qs) > 0 {
						opts = append(opts, "(grpc.federation.enum_value) = { alias: ["+strings.Join(qs, ", ")+"] }")
					}
				}
				o := ""
				if len(opts) > 0 {
					o = " [" + strings.Join(opts, ", ") + "]"
				}
				e.l("%s = %d%s;", v.Name, v.Num, o)
			}
		})
	}
	for _, a := range p.AMsgs {
		e.block("message "+short(a.Desc.FQDN), func() {
			e.l("option (grpc.federation.message).alias = %s;", Q(a.Src.FQDN))
			msgBody(&e.b, a.Desc, func(f *Field) string {
				if src, ok := a.Rename[f.Name]; ok {
					return fmt.Sprintf(" [(grpc.federation.field).alias = %s]", Q(src))
				}
				return ""
			}, "  ")
		})
	}
	for _, r := range p.RPCs {
		e.block("message "+short(r.Req.FQDN), func() { msgBody(&e.b, r.Req, nil, "  ") })
	}
	for _, m := range p.Msgs {
		e.block("message "+m.Name, func() { e.message(m) })
	}
	return e.b.String()
}

func (e *emitter) message(m *FedMsg) {
	e.l("option (grpc.federation.message) = {")
	e.ind++
	for _, d := range m.Defs {
		e.def(d)
	}
	if m.Custom {
		e.l("custom_resolver: true")
	}
	e.ind--
	e.l("};")
	byName := map[string]*FedField{}
	for _, f := range m.Fields {
		byName[f.Name] = f
	}
	msgBody(&e.b, &MsgDesc{FQDN: m.FQDN, Fields: func() []*Field {
		var o []*Field
		for _, f := range m.Fields {
			o = append(o, f.Field)
		}
		return o
	}()}, func(f *Field) string {
		ff := byName[f.Name]
		switch {
		case ff.Custom:
			return " [(grpc.federation.field).custom_resolver = true]"
		case ff.By != nil:
			return fmt.Sprintf(" [(grpc.federation.field).by = %s]", Q(ff.By.CEL()))
		case ff.Case != nil:
			s := &emitter{p: e.p, ind: 3}
			c := ff.Case
			if c.Default {
				s.l("default: true")
			} else {
				s.l("if: %s", Q(c.If.CEL()))
			}
			for _, d := range c.Defs {
				s.def(d)
			}
			s.l("by: %s", Q(c.By.CEL()))
			return " [(grpc.federation.field).oneof = {\n" + s.b.String() + "    }]"
		}
		return ""
	}, "  ")
}

func (e *emitter) def(d *Def) {
	e.block("def", func() {
		if d.Name != "" {
			e.l("name: %s", Q(d.Name))
		}
		if d.If != nil {
			e.l("if: %s", Q(d.If.CEL()))
		}
		if d.Auto {
			e.l("autobind: true")
		}
		switch {
		case d.By != nil:
			e.l("by: %s", Q(d.By.CEL()))
		case d.Call != nil:
			e.call(d.Call)
		case d.Msg != nil:
			e.msgRef(d.Msg)
		case d.Map != nil:
			e.block("map", func() {
				e.l("iterator { name: %s, src: %s }", Q(d.Map.Iter), Q(d.Map.Src.CEL()))
				if d.Map.Msg != nil {
					e.msgRef(d.Map.Msg)
				} else if d.Map.Enum != nil {
					e.l("enum { name: %s, by: %s }", Q(short(d.Map.Enum.A.Desc.FQDN)), Q(d.Map.Enum.By.CEL()))
				} else {
					e.l("by: %s", Q(d.Map.By.CEL()))
				}
			})
		case d.Valid != nil:
			e.block("validation", func() {
				e.block("error", func() { e.errBlock(d.Valid) })
			})
		case d.Enum != nil:
			e.l("enum { name: %s, by: %s }", Q(short(d.Enum.A.Desc.FQDN)), Q(d.Enum.By.CEL()))
		}
	})
}

func (e *emitter) msgRef(r *MsgRef) {
	e.block("message", func() {
		e.l("name: %s", Q(r.M.Name))
		for _, a := range r.Args {
			if a.Inline != nil {
				e.l("args { inline: %s }", Q(a.Inline.CEL()))
			} else {
				e.l("args { name: %s, by: %s }", Q(a.Name), Q(a.By.CEL()))
			}
		}
	})
}

func (e *emitter) call(c *CallSpec) {
	e.block("call", func() {
		e.l("method: %s", Q(c.M.Full()))
		for _, r := range c.Req {
			if r.If != nil {
				e.l("request { field: %s, by: %s, if: %s }", Q(r.F.Name), Q(r.By.CEL()), Q(r.If.CEL()))
			} else {
				e.l("request { field: %s, by: %s }", Q(r.F.Name), Q(r.By.CEL()))
			}
		}
		if c.Timeout != "" {
			e.l("timeout: %s", Q(c.Timeout))
		}
		if r := c.Retry; r != nil {
			e.block("retry", func() {
				max := ""
				if r.Max >= 0 {
					max = fmt.Sprintf(", max_retries: %d", r.Max)
				}
				if r.Expo {
					e.l("exponential { initial_interval: %s, randomization_factor: 0.5, multiplier: 1.2, max_interval: %s%s }", Q(r.Interval), Q(map[bool]string{true: r.Interval, false: "4ms"}[e.p.Long]), max)
				} else {
					e.l("constant { interval: %s%s }", Q(r.Interval), max)
				}
				if r.If != nil {
					e.l("if: %s", Q(r.If.CEL()))
				}
			})
		}
		for _, b := range c.Errs {
			e.block("error", func() { e.errBlock(b) })
		}
	})
}

func (e *emitter) errBlock(b *ErrBlock) {
	for _, d := range b.Defs {
		e.def(d)
	}
	if b.If != nil {
		e.l("if: %s", Q(b.If.CEL()))
	}
	if b.LogLevel != "" {
		e.l("log_level: %s", b.LogLevel)
	}
	if b.Ignore {
		e.l("ignore: true")
		return
	}
	if b.IgnoreBy != nil {
		e.l("ignore_and_response: %s", Q(b.IgnoreBy.CEL()))
		return
	}
	if b.Code >= 0 {
		e.l("code: %s", codeNames[b.Code])
	}
	if b.Msg != nil {
		e.l("message: %s", Q(b.Msg.CEL()))
	}
	for _, d := range b.Details {
		e.block("details", func() {
			if d.If != nil {
				e.l("if: %s", Q(d.If.CEL()))
			}
			for _, x := range d.Defs {
				e.def(x)
			}
			for _, m := range d.Msgs {
				e.msgRef(m)
			}
			for _, x := range d.By {
				e.l("by: %s", Q(x.CEL()))
			}
			for _, b := range d.Precond {
				e.block("precondition_failure", func() {
					for _, x := range b {
						e.l("violations { type: %s, subject: %s, description: %s }", Q(x[0].CEL()), Q(x[1].CEL()), Q(x[2].CEL()))
					}
				})
			}
			for _, b := range d.BadReq {
				e.block("bad_request", func() {
					for _, x := range b {
						e.l("field_violations { field: %s, description: %s }", Q(x[0].CEL()), Q(x[1].CEL()))
					}
				})
			}
			for _, x := range d.Localized {
				e.l("localized_message { locale: %s, message: %s }", Q(x.Locale), Q(x.Msg.CEL()))
			}
		})
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
