package fedsim

import (
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"
)

// ErrCEL is the class of evaluation errors of an expression.
var ErrCEL = errors.New("expression error")

// Env is the evaluation environment.
type Env struct {
	Vars map[string]Value
	Args map[string]Value
	Reg  *Registry
	up   *Env
}

func (e *Env) child(name string, v Value) *Env {
	return &Env{Vars: map[string]Value{name: v}, Args: e.Args, Reg: e.Reg, up: e}
}

func (e *Env) lookup(n string) Value {
	for x := e; x != nil; x = x.up {
		if v, ok := x.Vars[n]; ok {
			return v
		}
	}
	panic("model: unbound variable " + n)
}

// Expr is a typed expression.
type Expr interface {
	CEL() string
	Type() *Type
	Eval(*Env) (Value, error)
	Refs(map[string]bool)
}

type Lit struct {
	T *Type
	V Value
}

func (l *Lit) Type() *Type              { return l.T }
func (l *Lit) Eval(*Env) (Value, error) { return l.V, nil }
func (l *Lit) Refs(map[string]bool)     {}
func (l *Lit) CEL() string              { return litCEL(l.V) }

func litCEL(v Value) string {
	switch x := v.(type) {
	case string:
		return quoteCEL(x)
	case int64:
		if x == math.MinInt64 {
			return "(-9223372036854775807 - 1)"
		}
		return strconv.FormatInt(x, 10)
	case uint64:
		return strconv.FormatUint(x, 10) + "u"
	case float64:
		s := strconv.FormatFloat(x, 'f', -1, 64)
		if !strings.ContainsAny(s, ".") {
			s += ".0"
		}
		return s
	case bool:
		return strconv.FormatBool(x)
	case Bytes:
		return "b" + quoteCEL(string(x))
	case Null:
		return "null"
	}
	panic(fmt.Sprintf("lit %T", v))
}

func quoteCEL(s string) string {
	var b strings.Builder
	b.WriteByte('\'')
	for _, r := range s {
		switch r {
		case '\'':
			b.WriteString(`\'`)
		case '\\':
			b.WriteString(`\\`)
		case '\n':
			b.WriteString(`\n`)
		case '\t':
			b.WriteString(`\t`)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('\'')
	return b.String()
}

type Var struct {
	N string
	T *Type
}

func (v *Var) Type() *Type                { return v.T }
func (v *Var) CEL() string                { return v.N }
func (v *Var) Eval(e *Env) (Value, error) { return e.lookup(v.N), nil }
func (v *Var) Refs(m map[string]bool)     { m[v.N] = true }

type Arg struct {
	N string
	T *Type
}

func (v *Arg) Type() *Type            { return v.T }
func (v *Arg) CEL() string            { return "$." + v.N }
func (v *Arg) Refs(m map[string]bool) {}
func (v *Arg) Eval(e *Env) (Value, error) {
	if x, ok := e.Args[v.N]; ok {
		return x, nil
	}
	return Zero(v.T), nil
}

// Sel selects a field.
type Sel struct {
	E Expr
	F string
	T *Type
}

func (s *Sel) Type() *Type            { return s.T }
func (s *Sel) CEL() string            { return s.E.CEL() + "." + s.F }
func (s *Sel) Refs(m map[string]bool) { s.E.Refs(m) }
func (s *Sel) Eval(e *Env) (Value, error) {
	v, err := s.E.Eval(e)
	if err != nil {
		return nil, err
	}
	return SelectField(v, s.F, s.T), nil
}

// SelectField follows protobuf field selection: an unset message field is an empty message.
func SelectField(v Value, f string, t *Type) Value {
	if m, ok := v.(*MsgV); ok {
		if x := m.Get(f); x != nil {
			if _, isNull := x.(Null); !isNull {
				return x
			}
		}
	}
	if t.K == KMsg {
		return NewMsg(t.Name)
	}
	return Zero(t)
}

type Not struct{ E Expr }

func (n *Not) Type() *Type            { return TBool }
func (n *Not) CEL() string            { return "!(" + n.E.CEL() + ")" }
func (n *Not) Refs(m map[string]bool) { n.E.Refs(m) }
func (n *Not) Eval(e *Env) (Value, error) {
	v, err := n.E.Eval(e)
	if err != nil {
		return nil, err
	}
	return !v.(bool), nil
}

type Cond struct{ C, A, B Expr }

func (c *Cond) Type() *Type {
	if c.A.Type().K == KDyn {
		return c.B.Type()
	}
	return c.A.Type()
}
func (c *Cond) CEL() string            { return "(" + c.C.CEL() + " ? " + c.A.CEL() + " : " + c.B.CEL() + ")" }
func (c *Cond) Refs(m map[string]bool) { c.C.Refs(m); c.A.Refs(m); c.B.Refs(m) }
func (c *Cond) Eval(e *Env) (Value, error) {
	v, err := c.C.Eval(e)
	if err != nil {
		return nil, err
	}
	if v.(bool) {
		return c.A.Eval(e)
	}
	return c.B.Eval(e)
}

type Bin struct {
	Op   string
	L, R Expr
	T    *Type
}

func (b *Bin) Type() *Type            { return b.T }
func (b *Bin) CEL() string            { return "(" + b.L.CEL() + " " + b.Op + " " + b.R.CEL() + ")" }
func (b *Bin) Refs(m map[string]bool) { b.L.Refs(m); b.R.Refs(m) }
func (b *Bin) Eval(e *Env) (Value, error) {
	l, lerr := b.L.Eval(e)
	if b.Op == "&&" || b.Op == "||" {
		stop := b.Op == "||"
		if lerr == nil && l.(bool) == stop {
			return stop, nil
		}
		r, rerr := b.R.Eval(e)
		if rerr == nil && r.(bool) == stop {
			return stop, nil
		}
		if lerr != nil {
			return nil, lerr
		}
		if rerr != nil {
			return nil, rerr
		}
		return !stop, nil
	}
	if lerr != nil {
		return nil, lerr
	}
	r, err := b.R.Eval(e)
	if err != nil {
		return nil, err
	}
	return binop(b.Op, l, r)
}

func binop(op string, l, r Value) (Value, error) {
	switch op {
	case "==":
		return equal(l, r), nil
	case "!=":
		return !equal(l, r), nil
	case "in":
		if m, ok := r.(map[string]Value); ok {
			_, has := m[l.(string)]
			return has, nil
		}
		for _, x := range r.([]Value) {
			if equal(l, x) {
				return true, nil
			}
		}
		return false, nil
	}
	switch x := l.(type) {
	case string:
		y := r.(string)
		switch op {
		case "+":
			return x + y, nil
		case "<":
			return x < y, nil
		case "<=":
			return x <= y, nil
		case ">":
			return x > y, nil
		case ">=":
			return x >= y, nil
		}
	case int64:
		y := r.(int64)
		switch op {
		case "+":
			s := x + y
			if (y > 0 && s < x) || (y < 0 && s > x) {
				return nil, ErrCEL
			}
			return s, nil
		case "-":
			s := x - y
			if (y < 0 && s < x) || (y > 0 && s > x) {
				return nil, ErrCEL
			}
			return s, nil
		case "*":
			if x == 0 || y == 0 {
				return int64(0), nil
			}
			s := x * y
			if s/y != x || (x == -1 && y == math.MinInt64) || (y == -1 && x == math.MinInt64) {
				return nil, ErrCEL
			}
			return s, nil
		case "/":
			if y == 0 || (x == math.MinInt64 && y == -1) {
				return nil, ErrCEL
			}
			return x / y, nil
		case "%":
			if y == 0 || (x == math.MinInt64 && y == -1) {
				return nil, ErrCEL
			}
			return x % y, nil
		case "<":
			return x < y, nil
		case "<=":
			return x <= y, nil
		case ">":
			return x > y, nil
		case ">=":
			return x >= y, nil
		}
	case uint64:
		y := r.(uint64)
		switch op {
		case "+":
			s := x + y
			if s < x {
				return nil, ErrCEL
			}
			return s, nil
		case "<":
			return x < y, nil
		case "<=":
			return x <= y, nil
		case ">":
			return x > y, nil
		case ">=":
			return x >= y, nil
		}
	case float64:
		y := r.(float64)
		switch op {
		case "+":
			return x + y, nil
		case "-":
			return x - y, nil
		case "*":
			return x * y, nil
		case "<":
			return x < y, nil
		case "<=":
			return x <= y, nil
		case ">":
			return x > y, nil
		case ">=":
			return x >= y, nil
		}
	case []Value:
		if op == "+" {
			y := r.([]Value)
			out := make([]Value, 0, len(x)+len(y))
			return append(append(out, x...), y...), nil
		}
	case Bytes:
		if op == "+" {
			return x + r.(Bytes), nil
		}
	}
	panic(fmt.Sprintf("binop %s %T %T", op, l, r))
}

func equal(a, b Value) bool {
	_, an := a.(Null)
	_, bn := b.(Null)
	if an || bn {
		return an && bn
	}
	return Canon(a) == Canon(b)
}

// Fn is a global function or conversion call.
type Fn struct {
	Name string
	Args []Expr
	T    *Type
}

func (f *Fn) Type() *Type { return f.T }
func (f *Fn) CEL() string {
	as := make([]string, len(f.Args))
	for i, a := range f.Args {
		as[i] = a.CEL()
	}
	return f.Name + "(" + strings.Join(as, ", ") + ")"
}
func (f *Fn) Refs(m map[string]bool) {
	for _, a := range f.Args {
		a.Refs(m)
	}
}
func (f *Fn) Eval(e *Env) (Value, error) {
	vs := make([]Value, len(f.Args))
	for i, a := range f.Args {
		v, err := a.Eval(e)
		if err != nil {
			return nil, err
		}
		vs[i] = v
	}
	switch f.Name {
	case "size":
		switch x := vs[0].(type) {
		case string:
			return int64(utf8.RuneCountInString(x)), nil
		case Bytes:
			return int64(len(x)), nil
		case []Value:
			return int64(len(x)), nil
		case map[string]Value:
			return int64(len(x)), nil
		}
	case "string":
		switch x := vs[0].(type) {
		case int64:
			return strconv.FormatInt(x, 10), nil
		case uint64:
			return strconv.FormatUint(x, 10), nil
		case bool:
			return strconv.FormatBool(x), nil
		case string:
			return x, nil
		}
	case "int":
		switch x := vs[0].(type) {
		case uint64:
			if x > math.MaxInt64 {
				return nil, ErrCEL
			}
			return int64(x), nil
		case string:
			n, err := strconv.ParseInt(x, 10, 64)
			if err != nil {
				return nil, ErrCEL
			}
			return n, nil
		case int64:
			return x, nil
		}
	case "uint":
		switch x := vs[0].(type) {
		case int64:
			if x < 0 {
				return nil, ErrCEL
			}
			return uint64(x), nil
		}
	case "double":
		switch x := vs[0].(type) {
		case int64:
			return float64(x), nil
		}
	case "bytes":
		return Bytes(vs[0].(string)), nil
	}
	// enum accessors: <Enum>.name / value / from
	if i := strings.LastIndexByte(f.Name, '.'); i > 0 {
		ed := e.Reg.Enums[f.Name[:i]]
		switch f.Name[i+1:] {
		case "name":
			if ev := ed.ByNum(vs[0].(int64)); ev != nil {
				return ev.Name, nil
			}
			return "", nil
		case "value":
			for _, ev := range ed.Vals {
				if ev.Name == vs[0].(string) {
					return ev.Num, nil
				}
			}
			return nil, ErrCEL
		case "from":
			return vs[0], nil
		}
	}
	panic("fn " + f.Name)
}

// EnumConst is an enum literal.
type EnumConst struct {
	Const bool // written as a constant (an int for CEL) rather than with value()
	Enum  *EnumDesc
	V     EnumVal
}

func (c *EnumConst) Type() *Type { return TEnum(c.Enum.FQDN) }
func (c *EnumConst) CEL() string {
	if c.Const {
		return c.Enum.FQDN + "." + c.V.Name
	}
	return c.Enum.FQDN + ".value('" + c.V.Name + "')"
}
func (c *EnumConst) Eval(*Env) (Value, error) { return c.V.Num, nil }
func (c *EnumConst) Refs(map[string]bool)     {}

type ListLit struct {
	T  *Type
	Es []Expr
}

func (l *ListLit) Type() *Type { return l.T }
func (l *ListLit) CEL() string {
	as := make([]string, len(l.Es))
	for i, a := range l.Es {
		as[i] = a.CEL()
	}
	return "[" + strings.Join(as, ", ") + "]"
}
func (l *ListLit) Refs(m map[string]bool) {
	for _, a := range l.Es {
		a.Refs(m)
	}
}
func (l *ListLit) Eval(e *Env) (Value, error) {
	out := make([]Value, 0, len(l.Es))
	for _, x := range l.Es {
		v, err := x.Eval(e)
		if err != nil {
			return nil, err
		}
		out = append(out, v)
	}
	return out, nil
}

// Macro is a list macro: map, filter, exists, all, first, sortAsc ...
type Macro struct {
	Name string
	L    Expr
	V    string
	Body Expr
	T    *Type
}

func (m *Macro) Type() *Type { return m.T }
func (m *Macro) CEL() string {
	return m.L.CEL() + "." + m.Name + "(" + m.V + ", " + m.Body.CEL() + ")"
}
func (m *Macro) Refs(r map[string]bool) {
	m.L.Refs(r)
	inner := map[string]bool{}
	m.Body.Refs(inner)
	delete(inner, m.V)
	for k := range inner {
		r[k] = true
	}
}
func (m *Macro) Eval(e *Env) (Value, error) {
	lv, err := m.L.Eval(e)
	if err != nil {
		return nil, err
	}
	l := lv.([]Value)
	switch m.Name {
	case "map":
		out := make([]Value, 0, len(l))
		for _, x := range l {
			v, err := m.Body.Eval(e.child(m.V, x))
			if err != nil {
				return nil, err
			}
			out = append(out, v)
		}
		return out, nil
	case "filter", "first":
		out := []Value{}
		for _, x := range l {
			v, err := m.Body.Eval(e.child(m.V, x))
			if err != nil {
				return nil, err
			}
			if v.(bool) {
				out = append(out, x)
			}
		}
		if m.Name == "filter" {
			return out, nil
		}
		if len(out) == 0 {
			return Zero(m.T), nil
		}
		return out[0], nil
	case "exists", "all":
		stop := m.Name == "exists"
		var ferr error
		for _, x := range l {
			v, err := m.Body.Eval(e.child(m.V, x))
			if err != nil {
				ferr = err
				continue
			}
			if v.(bool) == stop {
				return stop, nil
			}
		}
		if ferr != nil {
			return nil, ferr
		}
		return !stop, nil
	case "sortStableAsc", "sortStableDesc":
		type kv struct{ k, v Value }
		ks := make([]kv, 0, len(l))
		for _, x := range l {
			k, err := m.Body.Eval(e.child(m.V, x))
			if err != nil {
				return nil, err
			}
			ks = append(ks, kv{k, x})
		}
		op := "<"
		if m.Name == "sortStableDesc" {
			op = ">"
		}
		// insertion sort: trivially stable
		for i := 1; i < len(ks); i++ {
			for j := i; j > 0; j-- {
				less, err := binop(op, ks[j].k, ks[j-1].k)
				if err != nil {
					return nil, err
				}
				if !less.(bool) {
					break
				}
				ks[j], ks[j-1] = ks[j-1], ks[j]
			}
		}
		out := make([]Value, 0, len(ks))
		for _, x := range ks {
			out = append(out, x.v)
		}
		return out, nil
	}
	panic("macro " + m.Name)
}

// MsgLit constructs a message.
type MsgLit struct {
	M  *MsgDesc
	Fs []MsgLitField
}
type MsgLitField struct {
	F *Field
	E Expr
}

func (l *MsgLit) Type() *Type { return TMsg(l.M.FQDN) }
func (l *MsgLit) CEL() string {
	as := make([]string, len(l.Fs))
	for i, f := range l.Fs {
		as[i] = f.F.Name + ": " + f.E.CEL()
	}
	return l.M.FQDN + "{" + strings.Join(as, ", ") + "}"
}
func (l *MsgLit) Refs(m map[string]bool) {
	for _, f := range l.Fs {
		f.E.Refs(m)
	}
}
func (l *MsgLit) Eval(e *Env) (Value, error) {
	out := NewMsg(l.M.FQDN)
	for _, f := range l.Fs {
		v, err := f.E.Eval(e)
		if err != nil {
			return nil, err
		}
		if err := rangeCheck(f.F, v); err != nil {
			return nil, err
		}
		if _, isNull := v.(Null); isNull {
			if f.F.T.K == KMsg && f.E.Type().K != KDyn {
				v = NewMsg(f.F.T.Name)
			} else {
				continue
			}
		}
		if l, ok := v.([]Value); ok && f.F.T.K == KList && f.F.T.Elem.K == KMsg {
			n := make([]Value, len(l))
			for i, e := range l {
				if _, isNull := e.(Null); isNull {
					e = NewMsg(f.F.T.Elem.Name)
				}
				n[i] = e
			}
			v = n
		}
		k := f.F.Name
		if f.F.Oneof != "" {
			for _, o := range l.M.Fields {
				if o.Oneof == f.F.Oneof {
					delete(out.F, "!"+o.Name)
				}
			}
			k = "!" + k
		}
		out.F[k] = v
	}
	return out, nil
}

func rangeCheck(f *Field, v Value) error {
	if l, ok := v.([]Value); ok {
		for _, x := range l {
			if err := rangeCheck(f, x); err != nil {
				return err
			}
		}
		return nil
	}
	switch f.Proto {
	case "int32":
		if n, ok := v.(int64); ok && (n < math.MinInt32 || n > math.MaxInt32) {
			return ErrCEL
		}
	case "uint32":
		if n, ok := v.(uint64); ok && n > math.MaxUint32 {
			return ErrCEL
		}
	}
	return nil
}

// NullCmp compares a message expression with null.
type NullCmp struct {
	E  Expr
	Ne bool
}

func (n *NullCmp) Type() *Type            { return TBool }
func (n *NullCmp) Refs(m map[string]bool) { n.E.Refs(m) }
func (n *NullCmp) CEL() string {
	if n.Ne {
		return "(" + n.E.CEL() + " != null)"
	}
	return "(" + n.E.CEL() + " == null)"
}
func (n *NullCmp) Eval(e *Env) (Value, error) {
	v, err := n.E.Eval(e)
	if err != nil {
		return nil, err
	}
	_, isNull := v.(Null)
	return isNull != n.Ne, nil
}

// Has tests field presence.
type Has struct {
	E *Sel
}

func (h *Has) Type() *Type            { return TBool }
func (h *Has) Refs(m map[string]bool) { h.E.Refs(m) }
func (h *Has) CEL() string            { return "has(" + h.E.CEL() + ")" }
func (h *Has) Eval(e *Env) (Value, error) {
	v, err := h.E.E.Eval(e)
	if err != nil {
		return nil, err
	}
	m, ok := v.(*MsgV)
	if !ok {
		return false, nil
	}
	if _, ok := m.F["!"+h.E.F]; ok {
		return true, nil
	}
	x := m.Get(h.E.F)
	if mv, ok := x.(*MsgV); ok {
		return mv != nil, nil
	}
	return x != nil && !isZero(x), nil
}

// Index selects an element of a list.
type Index struct {
	L Expr
	I int64
}

func (x *Index) Type() *Type            { return x.L.Type().Elem }
func (x *Index) Refs(m map[string]bool) { x.L.Refs(m) }
func (x *Index) CEL() string            { return x.L.CEL() + "[" + strconv.FormatInt(x.I, 10) + "]" }
func (x *Index) Eval(e *Env) (Value, error) {
	v, err := x.L.Eval(e)
	if err != nil {
		return nil, err
	}
	l := v.([]Value)
	if x.I < 0 || x.I >= int64(len(l)) {
		return nil, ErrCEL
	}
	return l[x.I], nil
}
