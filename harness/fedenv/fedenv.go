// Package fedenv generates services with environment and service variables,
// predicts what they hold, and runs the generated services.
package fedenv

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// Type is a scalar kind, a list of it or a map.
type Type struct {
	Kind     string // string bool int64 uint64 double duration (message only: int32 uint32 float)
	Repeated bool
	Key      string // map key kind, if this is a map; Kind is the value kind
}

func (t Type) scalar() bool { return !t.Repeated && t.Key == "" }

type EnvVar struct {
	Name      string
	Type      Type
	Alternate string
	Default   string
	Required  bool
	Ignored   bool
}

func (v *EnvVar) key() string {
	if v.Alternate != "" {
		return v.Alternate
	}
	return strings.ToUpper(v.Name)
}

type Var struct {
	Name    string // "" for an unnamed validation
	Kind    string // by message map validation
	Type    Type   // element type for map
	If      *Expr
	By      *Expr
	By2     *Expr  // message: second argument; validation: message
	Src     string // map
	Message bool
}

type Program struct {
	Pkg, GoDir string
	EnvMessage bool
	Env        []*EnvVar
	Vars       []*Var
	r          *rand.Rand
	unnamed    bool
}

// Expr is an expression with its meaning.
type Expr struct {
	Text string
	Eval func(*Scope) (any, error)
}

type Scope struct {
	Env  map[string]any
	Vars map[string]any
	It   any
}

// Dur distinguishes durations from integers.
type Dur = time.Duration

// Msg is the value of the Const message.
type Msg struct {
	S string
	N int64
}

var errEval = errors.New("evaluation error")

func Generate(seed int64, i int) *Program {
	r := rand.New(rand.NewSource(seed*1_000_003 + int64(i)*7919 + 17))
	p := &Program{Pkg: fmt.Sprintf("envp%d", i), GoDir: fmt.Sprintf("envp%d", i), EnvMessage: r.Intn(100) < 40, r: r}
	n := 2 + r.Intn(6)
	for k := range n {
		v := &EnvVar{Name: []string{"aaa", "b_b", "cC", "ddd_1", "e", "long_name_f", "ggg", "h2"}[k], Type: p.envType()}
		if k < 2 { // something for expressions to use
			v.Type = Type{Kind: []string{"string", "int64"}[k]}
		}
		if r.Intn(100) < 35 {
			v.Alternate = fmt.Sprintf("ALT_%d_%s", k, strings.ToUpper(v.Name))
		}
		if r.Intn(100) < 40 {
			v.Default = p.good(v.Type)
			if r.Intn(12) == 0 {
				v.Default = p.bad(v.Type)
			}
		}
		v.Required = r.Intn(100) < 20
		v.Ignored = r.Intn(100) < 12
		p.Env = append(p.Env, v)
	}
	for k := range r.Intn(8) {
		p.addVar(k)
	}
	return p
}

func (p *Program) envType() Type {
	kinds := []string{"string", "bool", "int64", "uint64", "double", "duration"}
	if p.EnvMessage {
		kinds = append(kinds, "int32", "uint32", "float")
	}
	t := Type{Kind: kinds[p.r.Intn(len(kinds))]}
	switch p.r.Intn(6) {
	case 0, 1:
		t.Repeated = true
	case 2:
		t.Key = []string{"string", "int64", "bool", "uint64"}[p.r.Intn(4)]
	}
	return t
}

func (p *Program) addVar(k int) {
	r := p.r
	v := &Var{Name: []string{"v_a", "vB", "vc", "d_d_d", "ve", "vf1", "vg", "vh"}[k], Kind: "by"}
	switch x := r.Intn(10); {
	case x < 5:
		v.Type = []Type{{Kind: "string"}, {Kind: "int64"}, {Kind: "bool"}, {Kind: "string", Repeated: true}, {Kind: "int64", Repeated: true}}[r.Intn(5)]
		v.By = p.expr(v.Type, 3)
	case x < 7:
		v.Kind = "validation"
		if r.Intn(3) == 0 && !p.unnamed { // a second one is refused
			v.Name = ""
			p.unnamed = true
		}
		v.By = p.expr(Type{Kind: "bool"}, 2)
		if r.Intn(2) == 0 { // mostly not failing
			in := v.By
			v.By = &Expr{Text: fmt.Sprintf("(%s) && false", in.Text), Eval: func(s *Scope) (any, error) { return false, nil }}
		}
		v.By2 = p.expr(Type{Kind: "string"}, 2)
	case x < 8:
		v.Kind, v.Message = "message", true
		v.By, v.By2 = p.expr(Type{Kind: "string"}, 2), p.expr(Type{Kind: "int64"}, 2)
	default:
		var srcs []*Var
		for _, s := range p.Vars {
			if s.Type.Repeated && s.Name != "" {
				srcs = append(srcs, s)
			}
		}
		if len(srcs) == 0 {
			v.Type = Type{Kind: "string", Repeated: true}
			v.By = p.expr(v.Type, 2)
			break
		}
		s := srcs[r.Intn(len(srcs))]
		v.Kind, v.Src, v.Type = "map", s.Name, s.Type
		e := p.expr(Type{Kind: s.Type.Kind}, 1)
		if s.Type.Kind == "string" || r.Intn(2) == 0 {
			v.By = add(&Expr{Text: "it", Eval: func(s *Scope) (any, error) { return s.It, nil }}, e)
		} else {
			v.By = e
		}
	}
	if r.Intn(100) < 30 {
		v.If = p.expr(Type{Kind: "bool"}, 2)
	}
	p.Vars = append(p.Vars, v)
}

func lit(v any) *Expr {
	t := ""
	switch x := v.(type) {
	case string:
		t = "'" + strings.ReplaceAll(strings.ReplaceAll(x, `\`, `\\`), `'`, `\'`) + "'"
	default:
		t = fmt.Sprint(x)
	}
	if n, ok := v.(int64); ok && n < 0 {
		t = "(" + t + ")"
	}
	return &Expr{Text: t, Eval: func(*Scope) (any, error) { return v, nil }}
}

func add(a, b *Expr) *Expr {
	return &Expr{Text: fmt.Sprintf("(%s + %s)", a.Text, b.Text), Eval: func(s *Scope) (any, error) {
		x, err := a.Eval(s)
		if err != nil {
			return nil, err
		}
		y, err := b.Eval(s)
		if err != nil {
			return nil, err
		}
		switch x := x.(type) {
		case string:
			return x + y.(string), nil
		case int64:
			n := x + y.(int64)
			if (n > x) != (y.(int64) > 0) {
				return nil, errEval
			}
			return n, nil
		case []any:
			return append(append([]any{}, x...), y.([]any)...), nil
		}
		panic("add")
	}}
}

// expr generates an expression of a scalar or list type.
func (p *Program) expr(t Type, depth int) *Expr {
	r := p.r
	var refs []*Expr
	for _, v := range p.Env {
		if v.Type == t {
			name := v.Name
			refs = append(refs, &Expr{Text: "grpc.federation.env." + name, Eval: func(s *Scope) (any, error) { return s.Env[name], nil }})
		}
	}
	for _, v := range p.Vars {
		name := v.Name
		switch {
		case v.Kind == "by" && v.Type == t, v.Kind == "map" && v.Type == t:
			refs = append(refs, &Expr{Text: name, Eval: func(s *Scope) (any, error) { return s.Vars[name], nil }})
		case v.Kind == "message" && v.If == nil && t.scalar() && t.Kind == "string":
			refs = append(refs, &Expr{Text: name + ".s", Eval: func(s *Scope) (any, error) { return s.Vars[name].(Msg).S, nil }})
		case v.Kind == "message" && v.If == nil && t.scalar() && t.Kind == "int64":
			refs = append(refs, &Expr{Text: name + ".n", Eval: func(s *Scope) (any, error) { return s.Vars[name].(Msg).N, nil }})
		}
	}
	if len(refs) > 0 && (depth == 0 || r.Intn(3) == 0) {
		return refs[r.Intn(len(refs))]
	}
	if t.Repeated {
		if depth == 0 || r.Intn(3) == 0 {
			n := r.Intn(4)
			var es []*Expr
			var ts []string
			for range n {
				e := p.expr(Type{Kind: t.Kind}, 1)
				es, ts = append(es, e), append(ts, e.Text)
			}
			if n == 0 {
				e := p.expr(Type{Kind: t.Kind}, 0)
				es, ts = append(es, e), append(ts, e.Text)
			}
			return &Expr{Text: "[" + strings.Join(ts, ", ") + "]", Eval: func(s *Scope) (any, error) {
				out := []any{}
				for _, e := range es {
					v, err := e.Eval(s)
					if err != nil {
						return nil, err
					}
					out = append(out, v)
				}
				return out, nil
			}}
		}
		return add(p.expr(t, depth-1), p.expr(t, depth-1))
	}
	if depth == 0 {
		switch t.Kind {
		case "string":
			return lit([]string{"", "x", "a'b", "日本", `q\w`}[r.Intn(5)])
		case "int64":
			return lit([]int64{0, 1, 2, -3, 40, 9007199254740993}[r.Intn(6)])
		default:
			return lit(r.Intn(2) == 0)
		}
	}
	if r.Intn(5) == 0 {
		c, a, b := p.expr(Type{Kind: "bool"}, depth-1), p.expr(t, depth-1), p.expr(t, depth-1)
		return &Expr{Text: fmt.Sprintf("(%s ? %s : %s)", c.Text, a.Text, b.Text), Eval: func(s *Scope) (any, error) {
			v, err := c.Eval(s)
			if err != nil {
				return nil, err
			}
			if v.(bool) {
				return a.Eval(s)
			}
			return b.Eval(s)
		}}
	}
	switch t.Kind {
	case "string":
		if r.Intn(3) == 0 {
			n := p.expr(Type{Kind: "int64"}, depth-1)
			return &Expr{Text: "string(" + n.Text + ")", Eval: func(s *Scope) (any, error) {
				v, err := n.Eval(s)
				if err != nil {
					return nil, err
				}
				return fmt.Sprint(v), nil
			}}
		}
		return add(p.expr(t, depth-1), p.expr(t, depth-1))
	case "int64":
		switch r.Intn(4) {
		case 0:
			e := p.expr([]Type{{Kind: "string"}, {Kind: "int64", Repeated: true}, {Kind: "string", Repeated: true}}[r.Intn(3)], depth-1)
			return &Expr{Text: "size(" + e.Text + ")", Eval: func(s *Scope) (any, error) {
				v, err := e.Eval(s)
				if err != nil {
					return nil, err
				}
				if l, ok := v.([]any); ok {
					return int64(len(l)), nil
				}
				return int64(utf8.RuneCountInString(v.(string))), nil
			}}
		case 1:
			a, b := p.expr(t, depth-1), p.expr(t, depth-1)
			return &Expr{Text: fmt.Sprintf("(%s / %s)", a.Text, b.Text), Eval: func(s *Scope) (any, error) {
				x, err := a.Eval(s)
				if err != nil {
					return nil, err
				}
				y, err := b.Eval(s)
				if err != nil {
					return nil, err
				}
				if y.(int64) == 0 || x.(int64) == math.MinInt64 && y.(int64) == -1 {
					return nil, errEval
				}
				return x.(int64) / y.(int64), nil
			}}
		}
		return add(p.expr(t, depth-1), p.expr(t, depth-1))
	}
	switch r.Intn(4) {
	case 0:
		e := p.expr(t, depth-1)
		return &Expr{Text: "!(" + e.Text + ")", Eval: func(s *Scope) (any, error) {
			v, err := e.Eval(s)
			if err != nil {
				return nil, err
			}
			return !v.(bool), nil
		}}
	case 1:
		a, b, and := p.expr(t, depth-1), p.expr(t, depth-1), r.Intn(2) == 0
		op := map[bool]string{true: "&&", false: "||"}[and]
		return &Expr{Text: fmt.Sprintf("(%s %s %s)", a.Text, op, b.Text), Eval: func(s *Scope) (any, error) {
			x, e1 := a.Eval(s)
			y, e2 := b.Eval(s)
			if e1 == nil && x.(bool) != and || e2 == nil && y.(bool) != and {
				return !and, nil
			}
			if e1 != nil || e2 != nil {
				return nil, errEval
			}
			return and, nil
		}}
	}
	k := Type{Kind: []string{"int64", "string"}[r.Intn(2)]}
	a, b, op := p.expr(k, depth-1), p.expr(k, depth-1), []string{"==", "!=", "<", ">="}[r.Intn(4)]
	return &Expr{Text: fmt.Sprintf("(%s %s %s)", a.Text, op, b.Text), Eval: func(s *Scope) (any, error) {
		x, err := a.Eval(s)
		if err != nil {
			return nil, err
		}
		y, err := b.Eval(s)
		if err != nil {
			return nil, err
		}
		c := 0
		if k.Kind == "string" {
			c = strings.Compare(x.(string), y.(string))
		} else if x.(int64) < y.(int64) {
			c = -1
		} else if x.(int64) > y.(int64) {
			c = 1
		}
		return map[string]bool{"==": c == 0, "!=": c != 0, "<": c < 0, ">=": c >= 0}[op], nil
	}}
}

// good is an environment text of the type, bad one that is not.
func (p *Program) good(t Type) string {
	r := p.r
	one := func(k string) string {
		switch k {
		case "string":
			return []string{"abc", "", "x y", "日本語", `quo"te`, "a=b;c", `back\slash`}[r.Intn(7)]
		case "bool":
			return []string{"true", "false", "1", "0", "T", "False"}[r.Intn(6)]
		case "int64":
			return []string{"0", "-1", "42", "9223372036854775807", "-9223372036854775808", "0x1f", "7"}[r.Intn(7)]
		case "int32":
			return []string{"0", "-1", "42", "2147483647", "-2147483648"}[r.Intn(5)]
		case "uint64":
			return []string{"0", "18446744073709551615", "12", "0b11"}[r.Intn(4)]
		case "uint32":
			return []string{"0", "4294967295", "12"}[r.Intn(3)]
		case "double":
			return []string{"0", "-1.5", "1e300", "0.1", "NaN", "Inf", "-0"}[r.Intn(7)]
		case "float":
			return []string{"0", "-1.5", "0.25", "3"}[r.Intn(4)]
		}
		return []string{"1s", "0", "-2h3m", "1500ms", "1ns", "2540400h10m10s"}[r.Intn(6)]
	}
	switch {
	case t.Repeated:
		var s []string
		for range r.Intn(4) {
			s = append(s, one(t.Kind))
		}
		return strings.Join(s, ",")
	case t.Key != "":
		var s []string
		for range r.Intn(4) {
			s = append(s, one(t.Key)+":"+one(t.Kind))
		}
		return strings.Join(s, ",")
	}
	return one(t.Kind)
}

func (p *Program) bad(t Type) string {
	r := p.r
	b := map[string][]string{
		"bool": {"yes", "", "2"}, "int64": {"x", "1.5", "9223372036854775808", "", "1 "}, "int32": {"2147483648", "x"},
		"uint64": {"-1", "18446744073709551616", "a"}, "uint32": {"-1", "4294967296"}, "double": {"x", "1,5"}, "float": {"x", "1e60"},
		"duration": {"1", "x", "", "1 s"}, "string": {"ok"},
	}
	x := b[t.Kind][r.Intn(len(b[t.Kind]))]
	switch {
	case t.Repeated:
		return p.good(Type{Kind: t.Kind}) + "," + x
	case t.Key != "":
		return []string{"novalue", "a:b:c", p.good(Type{Kind: t.Key}) + ":" + x}[r.Intn(3)]
	}
	return x
}

// Trial is one process environment.
func (p *Program) Trial(r *rand.Rand) map[string]string {
	p.r = r
	env := map[string]string{}
	badBudget := r.Intn(3) == 0
	for _, v := range p.Env {
		switch x := r.Intn(10); {
		case x < 6 || v.Required && x < 9:
			env[v.key()] = p.good(v.Type)
		case x == 6 && badBudget:
			env[v.key()] = p.bad(v.Type)
		}
		if v.Alternate != "" && r.Intn(2) == 0 { // must have no effect
			if n := strings.ToUpper(v.Name); n != "" {
				env[n] = p.good(v.Type)
			}
		}
	}
	return env
}

func parse1(k, s string) (any, error) {
	switch k {
	case "string":
		return s, nil
	case "bool":
		return strconv.ParseBool(s)
	case "int64":
		return strconv.ParseInt(s, 0, 64)
	case "int32":
		v, err := strconv.ParseInt(s, 0, 32)
		return int32(v), err
	case "uint64":
		return strconv.ParseUint(s, 0, 64)
	case "uint32":
		v, err := strconv.ParseUint(s, 0, 32)
		return uint32(v), err
	case "double":
		return strconv.ParseFloat(s, 64)
	case "float":
		v, err := strconv.ParseFloat(s, 32)
		return float32(v), err
	}
	return time.ParseDuration(s)
}

func zero(t Type) any {
	switch {
	case t.Repeated:
		return []any{}
	case t.Key != "":
		return map[any]any{}
	}
	z := map[string]any{"string": "", "bool": false, "int64": int64(0), "int32": int32(0), "uint64": uint64(0), "uint32": uint32(0), "double": 0.0, "float": float32(0), "duration": Dur(0)}
	return z[t.Kind]
}

func parse(t Type, s string) (any, error) {
	switch {
	case t.Repeated:
		out := []any{}
		if strings.TrimSpace(s) == "" {
			return out, nil
		}
		for _, e := range strings.Split(s, ",") {
			v, err := parse1(t.Kind, e)
			if err != nil {
				return nil, err
			}
			out = append(out, v)
		}
		return out, nil
	case t.Key != "":
		out := map[any]any{}
		if strings.TrimSpace(s) == "" {
			return out, nil
		}
		for _, e := range strings.Split(s, ",") {
			kv := strings.Split(e, ":")
			if len(kv) != 2 {
				return nil, errEval
			}
			k, err := parse1(t.Key, kv[0])
			if err != nil {
				return nil, err
			}
			v, err := parse1(t.Kind, kv[1])
			if err != nil {
				return nil, err
			}
			out[k] = v
		}
		return out, nil
	}
	return parse1(t.Kind, s)
}

// Outcome of a construction: an error class, or the variables.
type Outcome struct {
	Err   string // "", "required", "parse", "validation", "eval"
	Msg   string // of a validation; key of required and parse
	Env   map[string]any
	Vars  map[string]any
	Steps int
}

// Predict computes what the service must do under an environment.
func (p *Program) Predict(env map[string]string) *Outcome {
	o := &Outcome{Env: map[string]any{}, Vars: map[string]any{}}
	for _, v := range p.Env {
		o.Env[v.Name] = zero(v.Type)
		if v.Ignored {
			continue
		}
		s, ok := env[v.key()]
		if !ok && v.Default != "" {
			s, ok = v.Default, true
		}
		if !ok {
			if v.Required {
				o.Err, o.Msg = "required", v.key()
				return o
			}
			continue
		}
		x, err := parse(v.Type, s)
		if err != nil {
			o.Err, o.Msg = "parse", v.key()
			return o
		}
		o.Env[v.Name] = x
	}
	sc := &Scope{Env: o.Env, Vars: o.Vars}
	for _, v := range p.Vars {
		o.Steps++
		run := true
		if v.If != nil {
			c, err := v.If.Eval(sc)
			if err != nil {
				o.Err = "eval"
				return o
			}
			run = c.(bool)
		}
		if v.Kind == "validation" {
			if !run {
				continue
			}
			c, err := v.By.Eval(sc)
			if err != nil {
				o.Err = "eval"
				return o
			}
			if c.(bool) {
				m, err := v.By2.Eval(sc)
				if err != nil {
					o.Err = "eval"
					return o
				}
				o.Err, o.Msg = "validation", m.(string)
				return o
			}
			continue
		}
		if !run {
			if v.Message {
				o.Vars[v.Name] = nil
			} else {
				o.Vars[v.Name] = zero(v.Type)
			}
			continue
		}
		var val any
		var err error
		switch v.Kind {
		case "by":
			val, err = v.By.Eval(sc)
		case "message":
			var m Msg
			var a, b any
			if a, err = v.By.Eval(sc); err == nil {
				if b, err = v.By2.Eval(sc); err == nil {
					m.S, m.N = a.(string)+"|"+o.envS(p), b.(int64)
					val = m
				}
			}
		case "map":
			out := []any{}
			for _, e := range o.Vars[v.Src].([]any) {
				var x any
				if x, err = v.By.Eval(&Scope{Env: o.Env, Vars: o.Vars, It: e}); err != nil {
					break
				}
				out = append(out, x)
			}
			val = out
		}
		if err != nil {
			o.Err = "eval"
			return o
		}
		o.Vars[v.Name] = val
	}
	return o
}

func (o *Outcome) envS(p *Program) string { return o.Env[p.Env[0].Name].(string) }

// Show renders a value; generated values are rendered to the same text.
func Show(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case string:
		return strconv.Quote(x)
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64)
	case float32:
		return strconv.FormatFloat(float64(x), 'g', -1, 32)
	case Dur:
		return x.String()
	case Msg:
		return fmt.Sprintf("(%q %d)", x.S, x.N)
	case []any:
		var s []string
		for _, e := range x {
			s = append(s, Show(e))
		}
		return "[" + strings.Join(s, " ") + "]"
	case map[any]any:
		var s []string
		for k, e := range x {
			s = append(s, Show(k)+"="+Show(e))
		}
		sort.Strings(s)
		return "{" + strings.Join(s, " ") + "}"
	}
	return fmt.Sprint(v)
}
