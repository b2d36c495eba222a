package fedsim

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// Fault makes the first Times attempts (all when negative) of a call fail with a status.
type Fault struct {
	Times   int
	Code    int
	Msg     string
	Details []*MsgV // google.rpc.ErrorInfo / LocalizedMessage
	Kind    string  // "", "panic" or "plain" (an error without status)
	// Vary makes attempt n use code Codes[n%len]
	Codes []int
}

func (f *Fault) At(attempt int) (code int, msg string, details []*MsgV, fail bool) {
	if f == nil || (f.Times >= 0 && attempt >= f.Times) {
		return 0, "", nil, false
	}
	switch f.Kind {
	case "panic":
		return 2, "recovered error: " + f.Msg, nil, true
	case "plain":
		return 2, f.Msg, nil, true
	}
	code = f.Code
	if len(f.Codes) > 0 {
		code = f.Codes[attempt%len(f.Codes)]
	}
	return code, f.Msg, f.Details, true
}

// ErrV is a model error.
type ErrV struct {
	Plain   bool // not a declared status: any code
	Code    int
	Msg     string
	Details []string
	Call    int // failing call, -1 if none
}

func (e *ErrV) Key() string {
	if e.Plain {
		return "plain"
	}
	return fmt.Sprintf("%d|%q|%s", e.Code, e.Msg, strings.Join(e.Details, ";"))
}

// CallRec is one expected dependent call (one attempt).
type CallRec struct {
	ID      int
	Method  *Method
	Req     *MsgV
	Path    string
	Attempt int
	Hard    map[int]bool // calls that must have completed before this one is issued
	Soft    map[int]bool // calls it may legitimately wait for
	Inst    string       // message instance
	Def     string
	HasErr  bool // the call carries error handling or a retry condition
	Fails   bool
	Timeout string
}

func (c *CallRec) Key() string { return c.Method.Full() + " " + Canon(Wire(c.Req)) }

// ResolverCall is an expected call of user code.
type ResolverCall struct {
	Name string
	Args map[string]Value
}

func (r *ResolverCall) Key() string { return r.Name + " " + argsCanon(r.Args) }

func argsCanon(m map[string]Value) string {
	var b strings.Builder
	for _, k := range sortedKeys(m) {
		fmt.Fprintf(&b, "%s=%s;", k, Canon(m[k]))
	}
	return b.String()
}

// Run is one model execution.
type Run struct {
	P       *Program
	Salt    string
	Extreme bool
	Faults  map[string]*Fault // by method + path
	RFaults map[string]*Fault // by resolver name
	Calls   []*CallRec
	RCalls  []*ResolverCall
	Resp    *MsgV
	Errs    []*ErrV
	// Stats
	FalseIf, Ignored, Handled, Retried, Cases, Elements, Validations, Converts int
	ErrUse                                                                     map[string]int
}

type set map[int]bool

func (s set) clone() set {
	o := set{}
	for k := range s {
		o[k] = true
	}
	return o
}
func (s set) add(o set) {
	for k := range o {
		s[k] = true
	}
}

type defState struct {
	ok   bool
	v    Value
	deps set
}

type inst struct {
	m    *FedMsg
	env  *Env
	path string
	st   map[string]*defState
	base set // calls everything in this instance depends on
	soft set // calls everything in this instance may wait for
	all  set // every call completed when the instance is complete
	up   *inst
}

func (in *inst) lookup(n string) *defState {
	for x := in; x != nil; x = x.up {
		if s, ok := x.st[n]; ok {
			return s
		}
	}
	return nil
}

// sub opens a nested scope (error block, detail, oneof case, map element).
func (in *inst) sub(deps set) *inst {
	b := in.base.clone()
	b.add(deps)
	return &inst{m: in.m, env: &Env{Vars: map[string]Value{}, Args: in.env.Args, Reg: in.env.Reg, up: in.env}, path: in.path, st: map[string]*defState{}, base: b, soft: in.soft.clone(), all: set{}, up: in}
}

// Exec evaluates one request.
func (p *Program) Exec(rpc *RPC, req *MsgV, salt string, faults, rfaults map[string]*Fault) *Run {
	r := &Run{P: p, Salt: salt, Extreme: p.P.Extreme, Faults: faults, RFaults: rfaults, ErrUse: map[string]int{}}
	args := map[string]Value{}
	for _, f := range rpc.Req.Fields {
		if v := req.Get(f.Name); v != nil {
			args[f.Name] = v
		} else {
			args[f.Name] = Zero(f.T)
		}
	}
	path, _ := args["id"].(string)
	v, errs, _ := r.message(rpc.Resp, args, path, set{}, set{})
	r.Errs = errs
	if len(errs) == 0 {
		r.Resp, _ = v.(*MsgV)
		if r.Resp == nil {
			r.Resp = NewMsg(rpc.Resp.FQDN)
		}
	}
	return r
}

func plain() []*ErrV { return []*ErrV{{Plain: true, Call: -1}} }

func (r *Run) message(m *FedMsg, args map[string]Value, path string, base, soft set) (Value, []*ErrV, set) {
	in := &inst{m: m, env: &Env{Vars: map[string]Value{}, Args: args, Reg: r.P.Reg}, path: path, st: map[string]*defState{}, base: base, soft: soft, all: set{}}
	errs := r.defs(m.Defs, in)
	if len(errs) > 0 {
		return nil, errs, in.all
	}
	fieldSoft := in.soft.clone()
	fieldSoft.add(in.all)
	if m.Custom {
		rc := &ResolverCall{Name: m.Name, Args: map[string]Value{}}
		for k, v := range args {
			rc.Args[k] = v
		}
		m.resolverVars(in, rc)
		r.RCalls = append(r.RCalls, rc)
		if e := r.rfault(rc); e != nil {
			return nil, []*ErrV{e}, in.all
		}
		return ResolverResult(r.P, m.Name, TMsg(m.FQDN), rc.Args), nil, in.all
	}
	out := NewMsg(m.FQDN)
	doneOneof := map[string]bool{}
	// the order in which fields are computed is not specified: after a failure any other field may or may not have been
	for _, f := range m.Fields {
		var v Value
		var from *Type
		switch {
		case f.Custom:
			rc := &ResolverCall{Name: m.Name + "." + f.Name, Args: map[string]Value{}}
			for k, v := range args {
				rc.Args[k] = v
			}
			m.resolverVars(in, rc)
			r.RCalls = append(r.RCalls, rc)
			if e := r.rfault(rc); e != nil {
				errs = append(errs, e)
				continue
			}
			v = ResolverResult(r.P, rc.Name, f.T, argsOnly(args, rc.Args))
			from = f.T
		case f.AutoDef != "":
			d := in.st[f.AutoDef]
			v = rawGet(d.v, f.Name, f.AutoSrc)
			from = f.AutoSrc
		case f.By != nil:
			var err error
			v, err = f.By.Eval(in.env)
			if err != nil {
				errs = append(errs, plain()...)
				continue
			}
			from = f.By.Type()
		case f.Case != nil:
			if doneOneof[f.Oneof] {
				continue
			}
			doneOneof[f.Oneof] = true
			chosen, val, oerrs := r.oneof(m, f.Oneof, in, fieldSoft)
			if len(oerrs) > 0 {
				errs = append(errs, oerrs...)
				continue
			}
			if chosen != nil {
				if _, isNull := val.(Null); isNull {
					val = NewMsg(chosen.T.Name)
				}
				out.F["!"+chosen.Name] = val
			}
			continue
		default:
			continue
		}
		cv, err := r.convert(v, from, f.T, f.Field)
		if err != nil {
			errs = append(errs, plain()...)
			continue
		}
		if _, isNull := cv.(Null); !isNull {
			out.F[f.Name] = cv
		}
	}
	if len(errs) > 0 {
		return nil, errs, in.all
	}
	return out, nil, in.all
}

func argsOnly(args, all map[string]Value) map[string]Value { return all }

func (r *Run) rfault(rc *ResolverCall) *ErrV {
	f := r.RFaults[rc.Name]
	if f == nil {
		return nil
	}
	if f.Kind != "" {
		return plain()[0]
	}
	return statusErr(f.Code, f.Msg, f.Details, -1)
}

// wire is the value after encoding: unset list elements become empty messages.
func Wire(v Value) Value {
	switch x := v.(type) {
	case *MsgV:
		o := NewMsg(x.T)
		for k, f := range x.F {
			o.F[k] = Wire(f)
		}
		return o
	case []Value:
		o := make([]Value, len(x))
		for i, e := range x {
			if _, isNull := e.(Null); isNull {
				o[i] = NewMsg("")
			} else {
				o[i] = Wire(e)
			}
		}
		return o
	case map[string]Value:
		o := map[string]Value{}
		for k, e := range x {
			if _, isNull := e.(Null); isNull {
				o[k] = NewMsg("")
			} else {
				o[k] = Wire(e)
			}
		}
		return o
	}
	return v
}

func statusErr(code int, msg string, details []*MsgV, call int) *ErrV {
	e := &ErrV{Code: code, Msg: msg, Call: call}
	for _, d := range details {
		e.Details = append(e.Details, d.T+Canon(Wire(d)))
	}
	return e
}

func (r *Run) oneof(m *FedMsg, name string, in *inst, fieldSoft set) (*FedField, Value, []*ErrV) {
	var chosen, def *FedField
	for _, f := range m.Fields {
		if f.Oneof != name {
			continue
		}
		if f.Case.Default {
			def = f
			continue
		}
		c, err := f.Case.If.Eval(in.env)
		if err != nil {
			return nil, nil, plain()
		}
		if c.(bool) && chosen == nil {
			chosen = f
		}
	}
	if chosen == nil {
		chosen = def
	}
	if chosen == nil {
		return nil, nil, nil
	}
	r.Cases++
	// conditions of the branch guard its calls
	deps := set{}
	for _, f := range m.Fields {
		if f.Oneof == name && f.Case.If != nil {
			deps.add(r.refDeps(in, f.Case.If))
		}
	}
	s := in.sub(deps)
	s.soft.add(fieldSoft)
	errs := r.defs(chosen.Case.Defs, s)
	in.all.add(s.all)
	if len(errs) > 0 {
		return nil, nil, errs
	}
	v, err := chosen.Case.By.Eval(s.env)
	if err != nil {
		return nil, nil, plain()
	}
	v, err = r.convert(v, chosen.Case.By.Type(), chosen.T, chosen.Field)
	if err != nil {
		return nil, nil, plain()
	}
	return chosen, v, nil
}

func (r *Run) refDeps(in *inst, es ...Expr) set {
	out := set{}
	m := map[string]bool{}
	for _, e := range es {
		if e != nil {
			e.Refs(m)
		}
	}
	for n := range m {
		if s := in.lookup(n); s != nil {
			out.add(s.deps)
		}
	}
	return out
}

// Refs of a definition (names defined outside of it).
func (d *Def) Refs(m map[string]bool) {
	ex := func(e Expr) {
		if e != nil {
			e.Refs(m)
		}
	}
	ex(d.If)
	ex(d.By)
	if d.Call != nil {
		for _, q := range d.Call.Req {
			ex(q.By)
			ex(q.If)
		}
		if d.Call.Retry != nil {
			ex(d.Call.Retry.If)
		}
		for _, b := range d.Call.Errs {
			b.refs(m)
		}
	}
	if d.Msg != nil {
		d.Msg.refs(m)
	}
	if d.Map != nil {
		inner := map[string]bool{}
		ex2 := func(e Expr) {
			if e != nil {
				e.Refs(inner)
			}
		}
		ex2(d.Map.By)
		if d.Map.Msg != nil {
			d.Map.Msg.refs(inner)
		}
		if d.Map.Enum != nil {
			ex2(d.Map.Enum.By)
		}
		delete(inner, d.Map.Iter)
		d.Map.Src.Refs(inner)
		for k := range inner {
			m[k] = true
		}
	}
	if d.Valid != nil {
		d.Valid.refs(m)
	}
	if d.Enum != nil {
		ex(d.Enum.By)
	}
	delete(m, "error")
}

func (r *MsgRef) refs(m map[string]bool) {
	for _, a := range r.Args {
		if a.By != nil {
			a.By.Refs(m)
		}
		if a.Inline != nil {
			a.Inline.Refs(m)
		}
	}
}

func (b *ErrBlock) refs(m map[string]bool) {
	inner := map[string]bool{}
	ex := func(e Expr) {
		if e != nil {
			e.Refs(inner)
		}
	}
	for _, d := range b.Defs {
		d.Refs(inner)
	}
	ex(b.If)
	ex(b.Msg)
	ex(b.IgnoreBy)
	for _, dt := range b.Details {
		ex(dt.If)
		for _, d := range dt.Defs {
			d.Refs(inner)
		}
		for _, e := range dt.By {
			ex(e)
		}
		for _, e := range flat(dt.Precond) {
			ex(e[0])
			ex(e[1])
			ex(e[2])
		}
		for _, e := range flat(dt.BadReq) {
			ex(e[0])
			ex(e[1])
		}
		for _, e := range dt.Localized {
			ex(e.Msg)
		}
		for _, x := range dt.Msgs {
			x.refs(inner)
		}
		for _, d := range dt.Defs {
			delete(inner, d.Name)
		}
	}
	for _, d := range b.Defs {
		delete(inner, d.Name)
	}
	delete(inner, "error")
	for k := range inner {
		m[k] = true
	}
}

// defs evaluates a definition set; blocked definitions are skipped.
func (r *Run) defs(defs []*Def, in *inst) []*ErrV {
	var errs []*ErrV
	// a validation guards every definition which follows it
	guard := set{}
	guarded := false
	for _, d := range defs {
		refs := map[string]bool{}
		d.Refs(refs)
		deps := in.base.clone()
		deps.add(guard)
		blocked := guarded
		for _, n := range sortedKeys(refs) {
			if n == "error" {
				continue
			}
			s := in.lookup(n)
			if s == nil {
				panic("model: " + d.Name + " refers to unknown " + n)
			}
			if !s.ok {
				blocked = true
			}
			deps.add(s.deps)
		}
		st := &defState{}
		if d.Name != "" {
			in.st[d.Name] = st
		}
		if blocked {
			if d.Valid != nil {
				guarded = true
			}
			continue
		}
		v, derrs, done := r.def(d, in, deps)
		st.deps = deps.clone()
		st.deps.add(done)
		in.all.add(st.deps)
		if d.Valid != nil {
			guard.add(st.deps)
			guarded = len(derrs) > 0
		}
		if len(derrs) > 0 {
			errs = append(errs, derrs...)
			continue
		}
		st.ok, st.v = true, v
		if d.Name != "" {
			in.env.Vars[d.Name] = v
		}
	}
	return errs
}

// def evaluates one definition: its value, the errors it may raise, and the calls done by it.
func (r *Run) def(d *Def, in *inst, deps set) (Value, []*ErrV, set) {
	zero := func() Value {
		if d.T == nil {
			return Null{}
		}
		return Zero(d.T)
	}
	if d.If != nil {
		c, err := d.If.Eval(in.env)
		if err != nil {
			return nil, plain(), nil
		}
		if !c.(bool) {
			r.FalseIf++
			return zero(), nil, nil
		}
	}
	switch {
	case d.By != nil:
		v, err := d.By.Eval(in.env)
		if err != nil {
			return nil, plain(), nil
		}
		return v, nil, nil
	case d.Call != nil:
		return r.call(d, in, deps)
	case d.Msg != nil:
		return r.msgRef(d.Msg, d.Name, in, in.env, deps, in.soft)
	case d.Enum != nil:
		v, err := d.Enum.By.Eval(in.env)
		if err != nil {
			return nil, plain(), nil
		}
		r.Converts++
		return EnumAlias(d.Enum.A, v.(int64)), nil, nil
	case d.Map != nil:
		src := in.lookup(d.Map.Src.N)
		list, _ := src.v.([]Value)
		out := make([]Value, 0, len(list))
		done := set{}
		soft := in.soft.clone()
		for _, x := range list {
			r.Elements++
			env := in.env.child(d.Map.Iter, x)
			switch {
			case d.Map.By != nil:
				v, err := d.Map.By.Eval(env)
				if err != nil {
					return nil, plain(), done
				}
				out = append(out, v)
			case d.Map.Enum != nil:
				v, err := d.Map.Enum.By.Eval(env)
				if err != nil {
					return nil, plain(), done
				}
				r.Converts++
				out = append(out, EnumAlias(d.Map.Enum.A, v.(int64)))
			default:
				v, errs, dn := r.msgRef(d.Map.Msg, d.Name, in, env, deps, soft)
				done.add(dn)
				soft.add(dn)
				if len(errs) > 0 {
					return nil, errs, done
				}
				out = append(out, v)
			}
		}
		return out, nil, done
	case d.Valid != nil:
		r.Validations++
		errs, done := r.validation(d.Valid, in, deps)
		return zero(), errs, done
	}
	panic("def kind")
}

func (r *Run) msgRef(ref *MsgRef, name string, in *inst, env *Env, deps, soft set) (Value, []*ErrV, set) {
	args := map[string]Value{}
	for _, a := range ref.Args {
		if a.Inline != nil {
			v, err := a.Inline.Eval(env)
			if err != nil {
				return nil, plain(), nil
			}
			md := r.P.Reg.Msgs[a.Inline.Type().Name]
			for _, f := range md.Fields {
				args[f.Name] = rawGet(v, f.Name, f.T)
			}
			continue
		}
		v, err := a.By.Eval(env)
		if err != nil {
			return nil, plain(), nil
		}
		args[a.Name] = v
	}
	path, _ := args["path"].(string)
	v, errs, all := r.message(ref.M, args, path, deps.clone(), soft.clone())
	done := set{}
	done.add(all)
	for k := range deps {
		delete(done, k)
	}
	return v, errs, done
}

func rawGet(v Value, f string, t *Type) Value {
	if m, ok := v.(*MsgV); ok {
		if x := m.Get(f); x != nil {
			return x
		}
	}
	return Zero(t)
}

func (r *Run) call(d *Def, in *inst, deps set) (Value, []*ErrV, set) {
	c := d.Call
	req := NewMsg(c.M.Req.FQDN)
	for _, q := range c.Req {
		if q.If != nil {
			v, err := q.If.Eval(in.env)
			if err != nil {
				return nil, plain(), nil
			}
			if !v.(bool) {
				r.FalseIf++
				continue
			}
		}
		v, err := q.By.Eval(in.env)
		if err != nil {
			return nil, plain(), nil
		}
		if err := rangeCheck(q.F, v); err != nil {
			return nil, plain(), nil
		}
		if _, isNull := v.(Null); isNull {
			continue
		}
		k := q.F.Name
		if q.F.Oneof != "" {
			k = "!" + k
		}
		req.F[k] = v
	}
	path, _ := req.F["path"].(string)
	fault := r.Faults[c.M.Full()+" "+path]
	max := 0
	if c.Retry != nil {
		max = c.Retry.Max
		if max < 0 {
			max = 5
		}
	}
	done := set{}
	var code int
	var msg string
	var details []*MsgV
	prev := deps.clone()
	for attempt := 0; ; attempt++ {
		rec := &CallRec{ID: len(r.Calls), Method: c.M, Req: req, Path: path, Attempt: attempt, Hard: prev.clone(), Soft: in.soft.clone(), Inst: in.m.Name + "@" + in.path, Def: d.Name}
		rec.Timeout = c.Timeout
		rec.HasErr = len(c.Errs) > 0 || (c.Retry != nil && c.Retry.If != nil)
		r.Calls = append(r.Calls, rec)
		done[rec.ID] = true
		prev[rec.ID] = true
		var fail bool
		code, msg, details, fail = fault.At(attempt)
		if !fail {
			return Backend(r.P.Reg, r.Salt, c.M, req, r.Extreme), nil, done
		}
		rec.Fails = true
		if rec.HasErr {
			r.ErrUse[rec.Inst]++
		}
		if fault.Kind == "panic" {
			if c.Timeout == "" {
				return nil, plain(), done // not an error of the call: the whole definition is given up
			}
			break
		}
		if attempt >= max {
			break
		}
		if c.Retry.If != nil {
			v, err := c.Retry.If.Eval(r.errEnv(in.env, code, msg, details))
			if err != nil {
				return nil, plain(), done
			}
			if !v.(bool) {
				break
			}
		}
		r.Retried++
	}
	callID := len(r.Calls) - 1
	orig := statusErr(code, msg, details, callID)
	if len(c.Errs) == 0 {
		return nil, []*ErrV{orig}, done
	}
	hdeps := deps.clone()
	hdeps.add(done)
	s := in.sub(hdeps)
	s.env.Vars["error"] = errorValue(code, msg, details)
	finish := func(v Value, e *ErrV) (Value, []*ErrV, set) {
		all := done.clone()
		all.add(s.all)
		for k := range deps {
			delete(all, k)
		}
		if e != nil {
			e.Call = callID
			return nil, []*ErrV{e}, all
		}
		return v, nil, all
	}
	for _, b := range c.Errs {
		if errs := r.defs(b.Defs, s); len(errs) > 0 {
			return finish(nil, orig)
		}
		s.soft.add(s.all) // blocks, and their details, are evaluated one after the other
		if b.If != nil {
			v, err := b.If.Eval(s.env)
			if err != nil {
				return finish(nil, orig)
			}
			if !v.(bool) {
				continue
			}
		}
		r.Handled++
		if b.Ignore {
			r.Ignored++
			return finish(Null{}, nil)
		}
		if b.IgnoreBy != nil {
			r.Ignored++
			v, err := b.IgnoreBy.Eval(s.env)
			if err != nil {
				return finish(Null{}, nil)
			}
			return finish(v, nil)
		}
		m := msg
		if m == "" {
			m = "error"
		}
		if b.Msg != nil {
			v, err := b.Msg.Eval(s.env)
			if err != nil {
				return finish(nil, orig)
			}
			m = v.(string)
		}
		ds, ok := r.details(b.Details, s)
		if !ok {
			return finish(nil, orig)
		}
		if len(b.Details) == 0 {
			ds = details
		}
		cd := b.Code
		if cd < 0 {
			cd = code
		}
		return finish(nil, statusErr(cd, m, ds, callID))
	}
	return finish(nil, orig)
}

func errorValue(code int, msg string, details []*MsgV) *MsgV {
	e := NewMsg(ErrorDesc.FQDN)
	e.F["code"] = int64(code)
	e.F["message"] = msg
	for _, k := range ErrKinds {
		var l []Value
		for _, d := range details {
			if d.T == k.D.FQDN {
				l = append(l, d)
			}
		}
		e.F[k.Field] = l
	}
	var all, custom []Value
	for _, d := range details {
		all = append(all, NewMsg("google.protobuf.Any"))
		if !strings.HasPrefix(d.T, "google.rpc.") {
			custom = append(custom, NewMsg("google.protobuf.Any"))
		}
	}
	e.F["details"], e.F["custom_messages"] = all, custom
	return e
}

func (r *Run) errEnv(env *Env, code int, msg string, details []*MsgV) *Env {
	return env.child("error", errorValue(code, msg, details))
}

func (r *Run) details(ds []*Detail, in *inst) ([]*MsgV, bool) {
	var out []*MsgV
	for _, d := range ds {
		in.soft.add(in.all)
		if errs := r.defs(d.Defs, in); len(errs) > 0 {
			return nil, false
		}
		in.soft.add(in.all)
		if d.If != nil {
			v, err := d.If.Eval(in.env)
			if err != nil {
				return nil, false
			}
			if !v.(bool) {
				continue
			}
		}
		failed := false
		for i, m := range d.Msgs {
			deps := in.base.clone()
			for _, a := range m.Args {
				deps.add(r.refDeps(in, a.By, a.Inline))
			}
			v, errs, done := r.msgRef(m, fmt.Sprint("m", i), in, in.env, deps, in.soft)
			in.all.add(done)
			if len(errs) > 0 {
				failed = true
				continue
			}
			if mv, ok := v.(*MsgV); ok {
				out = append(out, mv)
			} else {
				out = append(out, NewMsg(m.M.Desc.FQDN))
			}
		}
		if failed {
			return nil, false
		}
		for _, b := range d.By {
			v, err := b.Eval(in.env)
			if err != nil {
				continue
			}
			if mv, ok := v.(*MsgV); ok {
				out = append(out, mv)
			}
		}
		for _, blk := range d.Precond {
			var vs []Value
			for _, p := range blk {
				a, e1 := p[0].Eval(in.env)
				b, e2 := p[1].Eval(in.env)
				c, e3 := p[2].Eval(in.env)
				if e1 != nil || e2 != nil || e3 != nil {
					continue
				}
				v := NewMsg("google.rpc.PreconditionFailure.Violation")
				v.F["type"], v.F["subject"], v.F["description"] = a, b, c
				vs = append(vs, v)
			}
			if len(vs) > 0 {
				m := NewMsg("google.rpc.PreconditionFailure")
				m.F["violations"] = vs
				out = append(out, m)
			}
		}
		for _, blk := range d.BadReq {
			var vs []Value
			for _, p := range blk {
				a, e1 := p[0].Eval(in.env)
				b, e2 := p[1].Eval(in.env)
				if e1 != nil || e2 != nil {
					continue
				}
				v := NewMsg("google.rpc.BadRequest.FieldViolation")
				v.F["field"], v.F["description"] = a, b
				vs = append(vs, v)
			}
			if len(vs) > 0 {
				m := NewMsg("google.rpc.BadRequest")
				m.F["field_violations"] = vs
				out = append(out, m)
			}
		}
		for _, l := range d.Localized {
			a, err := l.Msg.Eval(in.env)
			if err != nil {
				continue
			}
			m := NewMsg("google.rpc.LocalizedMessage")
			m.F["locale"], m.F["message"] = l.Locale, a
			out = append(out, m)
		}
	}
	return out, true
}

func (r *Run) validation(b *ErrBlock, in *inst, deps set) ([]*ErrV, set) {
	s := in.sub(deps)
	done := func() set {
		o := s.all.clone()
		for k := range deps {
			delete(o, k)
		}
		return o
	}
	if errs := r.defs(b.Defs, s); len(errs) > 0 {
		return errs, done()
	}
	if b.If != nil {
		v, err := b.If.Eval(s.env)
		if err != nil {
			return plain(), done()
		}
		if !v.(bool) {
			return nil, done()
		}
	}
	m := "error"
	if b.Msg != nil {
		v, err := b.Msg.Eval(s.env)
		if err != nil {
			return plain(), done()
		}
		m = v.(string)
	}
	var ds []*MsgV
	for _, d := range b.Details {
		o, ok := r.details([]*Detail{d}, s)
		if !ok {
			return plain(), done()
		}
		ds = append(ds, o...)
	}
	return []*ErrV{statusErr(b.Code, m, ds, -1)}, done()
}

// EnumAlias converts a source enum number.
func EnumAlias(a *AliasEnum, n int64) Value {
	if ev := a.Src.ByNum(n); ev != nil {
		for _, v := range a.Desc.Vals {
			for _, al := range a.Aliases[v.Name] {
				if al == ev.Name {
					return v.Num
				}
			}
		}
	}
	for _, v := range a.Desc.Vals {
		if v.Name == a.Default {
			return v.Num
		}
	}
	return int64(0)
}

// convert converts a value of one type to a declared field type.
func (r *Run) convert(v Value, from, to *Type, f *Field) (Value, error) {
	if _, isNull := v.(Null); isNull {
		return v, nil
	}
	switch to.K {
	case KList:
		if l, ok := v.([]Value); ok {
			out := make([]Value, 0, len(l))
			for _, x := range l {
				c, err := r.convert(x, from.Elem, to.Elem, f)
				if err != nil {
					return nil, err
				}
				out = append(out, c)
			}
			return out, nil
		}
	case KMap:
		out := map[string]Value{}
		for k, x := range v.(map[string]Value) {
			c, err := r.convert(x, from.Elem, to.Elem, nil)
			if err != nil {
				return nil, err
			}
			out[k] = c
		}
		return out, nil
	case KEnum:
		if from.K == KEnum && from.Name != to.Name {
			for _, a := range r.P.AEnums {
				if a.Desc.FQDN == to.Name && a.Src.FQDN == from.Name {
					r.Converts++
					return EnumAlias(a, v.(int64)), nil
				}
			}
			panic("no enum alias " + from.Name + " -> " + to.Name)
		}
		return v, nil
	case KMsg:
		if from.Name != to.Name {
			for _, a := range r.P.AMsgs {
				if a.Desc.FQDN == to.Name && a.Src.FQDN == from.Name {
					r.Converts++
					return r.aliasMsg(a, v.(*MsgV))
				}
			}
			panic("no message alias " + from.Name + " -> " + to.Name)
		}
		return v, nil
	case KInt, KUint:
		if f != nil {
			if err := rangeCheck(f, v); err != nil {
				return nil, err
			}
		}
	}
	return v, nil
}

func (r *Run) aliasMsg(a *AliasMsg, v *MsgV) (Value, error) {
	out := NewMsg(a.Desc.FQDN)
	for _, f := range a.Desc.Fields {
		src := f.Name
		if n, ok := a.Rename[f.Name]; ok {
			src = n
		}
		sf := a.Src.Field(src)
		if f.Oneof != "" {
			x, ok := v.F["!"+src]
			if !ok {
				continue
			}
			c, err := r.convert(x, sf.T, f.T, f)
			if err != nil {
				return nil, err
			}
			out.F["!"+f.Name] = c
			continue
		}
		x := v.Get(src)
		if x == nil {
			continue
		}
		c, err := r.convert(x, sf.T, f.T, f)
		if err != nil {
			return nil, err
		}
		out.F[f.Name] = c
	}
	return out, nil
}

// ResolverResult is what the user code returns: a pure function of its name and arguments.
func ResolverResult(p *Program, name string, t *Type, args map[string]Value) Value {
	rnd := newRand(hash64("resolver", name, argsCanon(args)))
	f := &Field{T: t}
	if t.K == KMsg {
		if rnd.Intn(5) == 0 {
			return Null{}
		}
		return sparse(p, t.Name, rnd)
	}
	return RandValue(rnd, p.Reg, f, t, 0, false)
}

// Frontier lists the calls that can be in flight once done is complete.
func Frontier(calls []*CallRec, done map[int]bool) []int {
	var out []int
	for _, c := range calls {
		if done[c.ID] {
			continue
		}
		ok := true
		for k := range c.Hard {
			if !done[k] {
				ok = false
				break
			}
		}
		if ok {
			for k := range c.Soft {
				if !done[k] {
					ok = false
					break
				}
			}
		}
		if ok {
			out = append(out, c.ID)
		}
	}
	sort.Ints(out)
	return out
}

var _ = math.MaxInt64

// ResolverType is the result type of a custom resolver.
func (p *Program) ResolverType(name string) *Type {
	mn, fn, isField := strings.Cut(name, ".")
	for _, m := range p.Msgs {
		if m.Name != mn {
			continue
		}
		if !isField {
			return TMsg(m.FQDN)
		}
		for _, f := range m.Fields {
			if f.Name == fn {
				return f.T
			}
		}
	}
	panic("no resolver " + name)
}

// resolverVars adds the variables a custom resolver receives: everything the message defines except validations.
func (m *FedMsg) resolverVars(in *inst, rc *ResolverCall) {
	for _, d := range m.Defs {
		if s := in.st[d.Name]; s != nil && d.Valid == nil && d.Name != "" {
			rc.Args[d.Name] = s.v
		}
	}
}

func flat[T any](ls [][]T) []T {
	var o []T
	for _, l := range ls {
		o = append(o, l...)
	}
	return o
}
