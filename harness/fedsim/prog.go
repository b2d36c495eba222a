package fedsim

import (
	"fmt"
	"math/rand"
	"sort"
	"time"
)

// Profile steers program generation.
type Profile struct {
	Name                                     string
	MinMsgs, MaxMsgs                         int
	MinDefs, MaxDefs                         int
	Methods                                  int
	WBy, WCall, WMsg, WMap, WValid, WEnum    int
	PIf, PReqIf, PAuto, PInline              int // percent
	PAlias, POneof, PCustomField, PCustomMsg int
	PErr, PRetry, PTimeout, PMethodTimeout   int
	PErrRef                                  int
	Depth                                    int
	Extreme                                  bool
	Lists                                    bool // messages start with list definitions
	Shared                                   bool // bias calls to share definitions (diamonds)
	ErrNoCode                                bool
	NoMacroCalls                             bool
	PResp                                    int
	LongEvery                                int // every n-th program waits for seconds between attempts
	ShortEvery                               int // every n-th program has timeouts of a fraction of a second
}

type ReqField struct {
	F      *Field
	By, If Expr
}

type Retry struct {
	Max      int // -1: unspecified
	Expo     bool
	If       Expr // nil: unspecified
	Interval string
}

type Detail struct {
	If        Expr
	Defs      []*Def
	By        []Expr
	Precond   [][][3]Expr
	BadReq    [][][2]Expr
	Localized []LocMsg
	Msgs      []*MsgRef
}
type LocMsg struct {
	Locale string
	Msg    Expr
}

type ErrBlock struct {
	Defs     []*Def
	If       Expr
	Code     int // -1 unspecified
	Msg      Expr
	Details  []*Detail
	Ignore   bool
	IgnoreBy Expr
	LogLevel string
}

type CallSpec struct {
	M       *Method
	Req     []*ReqField
	Timeout string
	Retry   *Retry
	Errs    []*ErrBlock
}

type ArgSpec struct {
	Name   string
	By     Expr
	Inline Expr
}

type MsgRef struct {
	M    *FedMsg
	Args []*ArgSpec
}

type MapSpec struct {
	Iter string
	Src  *Var
	By   Expr
	Msg  *MsgRef
	Enum *EnumSpec
}

type EnumSpec struct {
	A  *AliasEnum
	By Expr
}

type Def struct {
	Name  string
	T     *Type
	If    Expr
	Auto  bool
	By    Expr
	Call  *CallSpec
	Msg   *MsgRef
	Map   *MapSpec
	Valid *ErrBlock
	Enum  *EnumSpec
}

type OneofCase struct {
	If      Expr // nil for default
	Defs    []*Def
	By      Expr
	Default bool
}

type FedField struct {
	*Field
	By      Expr
	AutoDef string // bound automatically from this definition
	AutoSrc *Type  // type of the source field
	Case    *OneofCase
	Custom  bool
	Alias   string
}

type FedMsg struct {
	Name   string
	FQDN   string
	Args   []*Field
	Defs   []*Def
	Fields []*FedField
	Custom bool
	Inline bool // arguments besides path are the fields of dep.Leaf
	Desc   *MsgDesc
	Root   bool
}

// AliasEnum / AliasMsg mirror dependent types.
type AliasEnum struct {
	Desc    *EnumDesc
	Src     *EnumDesc
	Aliases map[string][]string // value name -> source names
	Default string
}
type AliasMsg struct {
	Desc   *MsgDesc
	Src    *MsgDesc
	Rename map[string]string // field -> source field
}

type RPC struct {
	Name    string
	Req     *MsgDesc
	Resp    *FedMsg
	Timeout string
}

type Program struct {
	N           int
	Seed        int64
	Pkg         string // proto package
	Svc         string
	RPCs        []*RPC
	Msgs        []*FedMsg
	AEnums      []*AliasEnum
	AMsgs       []*AliasMsg
	Reg         *Registry
	P           Profile
	GoDir       string
	UsesCustom  bool
	UsesCall    map[string]bool // dependent services
	Long, Short bool
	Kinds       []int // error details this program looks at (indices into ErrKinds)
}

// RandKind picks a kind of error detail.
func (p *Program) RandKind(r *rand.Rand) int {
	if r.Intn(4) != 0 {
		return p.Kinds[r.Intn(len(p.Kinds))]
	}
	return r.Intn(len(ErrKinds))
}

type scopeVar struct {
	e Expr
}

type gen struct {
	r      *rand.Rand
	p      *Program
	pr     Profile
	scope  []scopeVar
	nextID int
	cur    *FedMsg
	iterN  int
	hasErr bool
	used   map[*FedMsg]bool
}

func (g *gen) pct(n int) bool { return n > 0 && g.r.Intn(100) < n }
func (g *gen) id(prefix string) string {
	g.nextID++
	return fmt.Sprintf("%s%d", prefix, g.nextID)
}

// Timeouts of short programs.
const (
	ShortCall   = 200 * time.Millisecond
	ShortMethod = 300 * time.Millisecond
)

// Generate builds program n of a profile deterministically from seed.
func Generate(seed int64, n int, pr Profile) *Program {
	g := &gen{r: rand.New(rand.NewSource(hash64(fmt.Sprint(seed), fmt.Sprint(n), pr.Name))), pr: pr, used: map[*FedMsg]bool{}}
	p := &Program{N: n, Seed: seed, Pkg: fmt.Sprintf("fed%d", n), Svc: "Fed", Reg: BaseRegistry(), P: pr, UsesCall: map[string]bool{}}
	p.GoDir = p.Pkg
	g.p = p
	p.Long = pr.LongEvery > 0 && n%pr.LongEvery == pr.LongEvery-1
	p.Short = pr.ShortEvery > 0 && n%pr.ShortEvery == pr.ShortEvery-1
	p.Kinds = []int{(2*n + int(seed)) % len(ErrKinds), (2*n + 1 + int(seed)) % len(ErrKinds)}
	if g.pct(pr.PAlias) {
		g.aliases()
	}
	nm := pr.MinMsgs + g.r.Intn(pr.MaxMsgs-pr.MinMsgs+1)
	for i := 0; i < nm; i++ {
		p.Msgs = append(p.Msgs, g.message(fmt.Sprintf("M%d", i+1), false, nil))
	}
	for i := 0; i < pr.Methods; i++ {
		req := g.request(fmt.Sprintf("Get%dRequest", i+1))
		root := g.message(fmt.Sprintf("Get%dResponse", i+1), true, req)
		p.Msgs = append(p.Msgs, root)
		rpc := &RPC{Name: fmt.Sprintf("Get%d", i+1), Req: req, Resp: root}
		if g.pct(pr.PMethodTimeout) {
			rpc.Timeout = "60s"
			if p.Short {
				rpc.Timeout = ShortMethod.String()
			}
		}
		p.RPCs = append(p.RPCs, rpc)
	}
	return p
}

func (g *gen) aliases() {
	p := g.p
	// enum alias
	ae := &AliasEnum{Src: DepKind, Aliases: map[string][]string{}}
	ed := &EnumDesc{FQDN: p.Pkg + ".AKind"}
	src := []string{"KIND_UNSPECIFIED", "KIND_A", "KIND_B", "KIND_C"}
	g.r.Shuffle(3, func(i, j int) { src[i+1], src[j+1] = src[j+1], src[i+1] })
	covered := 2 + g.r.Intn(3)
	groups := 1 + g.r.Intn(covered)
	if groups < 2 {
		groups = 2
	}
	var vals [][]string
	for i := 0; i < groups; i++ {
		vals = append(vals, nil)
	}
	for i := 0; i < covered; i++ {
		k := i
		if k >= groups {
			k = g.r.Intn(groups)
		}
		vals[k] = append(vals[k], src[i])
	}
	num := int64(0)
	for i, as := range vals {
		name := fmt.Sprintf("AK_%d", i)
		if len(as) == 1 && g.r.Intn(2) == 0 {
			name = as[0]
		}
		ed.Vals = append(ed.Vals, EnumVal{name, num})
		ae.Aliases[name] = as
		num += int64(1 + g.r.Intn(3))
	}
	if g.r.Intn(2) == 0 {
		name := "AK_DEFAULT"
		ed.Vals = append(ed.Vals, EnumVal{name, num})
		ae.Default = name
	}
	ae.Desc = ed
	p.AEnums = append(p.AEnums, ae)
	p.Reg.Enums[ed.FQDN] = ed
	// message aliases
	mk := func(name string, src *MsgDesc, always map[string]bool) *AliasMsg {
		am := &AliasMsg{Src: src, Rename: map[string]string{}}
		d := &MsgDesc{FQDN: p.Pkg + "." + name}
		oneofs := map[string]bool{}
		for _, f := range src.Fields {
			if f.Oneof != "" {
				if _, ok := oneofs[f.Oneof]; !ok {
					oneofs[f.Oneof] = g.r.Intn(2) == 0
				}
				if !oneofs[f.Oneof] {
					continue
				}
			} else if g.r.Intn(3) == 0 {
				continue
			}
			nf := &Field{Name: f.Name, T: g.aliasType(f.T), Proto: f.Proto, Oneof: f.Oneof, Num: len(d.Fields) + 1}
			if f.Oneof == "" && g.r.Intn(6) == 0 {
				nf.Name = "re_" + f.Name
				am.Rename[nf.Name] = f.Name
			}
			if f.Oneof == "" && f.T.K == KInt && g.r.Intn(3) == 0 {
				if f.Proto == "" {
					nf.Proto = "int32"
				} else {
					nf.Proto = ""
				}
			}
			if f.Oneof == "" && f.T.K == KUint && g.r.Intn(3) == 0 {
				if f.Proto == "" {
					nf.Proto = "uint32"
				} else {
					nf.Proto = ""
				}
			}
			d.Fields = append(d.Fields, nf)
		}
		if len(d.Fields) == 0 {
			d.Fields = append(d.Fields, &Field{Name: src.Fields[0].Name, T: src.Fields[0].T, Num: 1})
		}
		am.Desc = d
		p.AMsgs = append(p.AMsgs, am)
		p.Reg.Msgs[d.FQDN] = d
		return am
	}
	mk("ALeaf", DepLeaf, nil)
	mk("AItem", DepItem, nil)
}

// aliasType maps a dependent type to its alias (or keeps it).
func (g *gen) aliasType(t *Type) *Type {
	switch t.K {
	case KEnum:
		for _, a := range g.p.AEnums {
			if a.Src.FQDN == t.Name {
				return TEnum(a.Desc.FQDN)
			}
		}
	case KMsg:
		for _, a := range g.p.AMsgs {
			if a.Src.FQDN == t.Name {
				return TMsg(a.Desc.FQDN)
			}
		}
	case KList:
		return TList(g.aliasType(t.Elem))
	case KMap:
		return TMapSI(g.aliasType(t.Elem))
	}
	return t
}

var argTypes = []*Type{TString, TInt, TBool, TMsg("dep.Leaf"), TList(TString), TList(TInt), TEnum("dep.Kind"), TDouble, TMsg("dep.Item"), TList(TMsg("dep.Leaf")), TUint}

func (g *gen) request(name string) *MsgDesc {
	d := &MsgDesc{FQDN: g.p.Pkg + "." + name}
	d.Fields = append(d.Fields, &Field{Name: "id", T: TString, Num: 1})
	k := 2 + g.r.Intn(6)
	for i := 0; i < k; i++ {
		t := argTypes[g.r.Intn(len(argTypes))]
		d.Fields = append(d.Fields, &Field{Name: fmt.Sprintf("q%d", i+1), T: t, Num: i + 2})
	}
	g.p.Reg.Msgs[d.FQDN] = d
	return d
}

func (g *gen) message(name string, root bool, req *MsgDesc) *FedMsg {
	m := &FedMsg{Name: name, FQDN: g.p.Pkg + "." + name, Root: root}
	g.cur = m
	g.scope = nil
	if root {
		m.Args = req.Fields
	} else {
		m.Args = append(m.Args, &Field{Name: "path", T: TString})
		k := g.r.Intn(4)
		if g.pct(g.pr.PInline) {
			k = 0
			m.Inline = true
			for _, f := range DepLeaf.Fields {
				m.Args = append(m.Args, &Field{Name: f.Name, T: f.T})
			}
		}
		for i := 0; i < k; i++ {
			m.Args = append(m.Args, &Field{Name: fmt.Sprintf("a%d", i+1), T: argTypes[g.r.Intn(len(argTypes))]})
		}
	}
	for _, a := range m.Args {
		g.scope = append(g.scope, scopeVar{&Arg{a.Name, a.T}})
	}
	if g.pr.Lists {
		add := func(d *Def) {
			m.Defs = append(m.Defs, d)
			g.scope = append(g.scope, scopeVar{&Var{d.Name, d.T}})
		}
		t := []*Type{TMsg("dep.Item"), TMsg("dep.Item"), TMsg("dep.Leaf"), TString, TInt}[g.r.Intn(5)]
		if t.Name == "dep.Item" {
			d := g.callDef(g.id("d"))
			for d.T.Name != DepListReply.FQDN {
				d = g.callDef(d.Name)
			}
			add(d)
			v := &Sel{&Var{d.Name, d.T}, "items", TList(t)}
			add(&Def{Name: g.id("d"), T: v.T, By: v})
		} else if e := g.path(TList(t)); e != nil {
			add(&Def{Name: g.id("d"), T: TList(t), By: e})
		} else if t.K != KEnum {
			e := g.expr(TList(t), 2)
			if e.Type().K != KDyn {
				add(&Def{Name: g.id("d"), T: TList(t), By: e})
			}
		}
	}
	nd := g.pr.MinDefs + g.r.Intn(g.pr.MaxDefs-g.pr.MinDefs+1)
	for i := 0; i < nd; i++ {
		d := g.def(false)
		if d == nil {
			continue
		}
		m.Defs = append(m.Defs, d)
		if d.Name != "" && d.T != nil {
			g.scope = append(g.scope, scopeVar{&Var{d.Name, d.T}})
		}
	}
	if root && len(g.p.UsesCall) == 0 {
		d := g.callDef(g.id("d"))
		m.Defs = append(m.Defs, d)
		g.scope = append(g.scope, scopeVar{&Var{d.Name, d.T}})
	}
	if root {
		// every message is reachable from a method
		for _, x := range g.p.Msgs {
			if x.Root || g.used[x] {
				continue
			}
			name := g.id("d")
			d := &Def{Name: name, Msg: g.msgRefTo(x, name, nil), T: TMsg(x.FQDN)}
			m.Defs = append(m.Defs, d)
			g.scope = append(g.scope, scopeVar{&Var{d.Name, d.T}})
		}
	}
	g.fields(m)
	m.Desc = &MsgDesc{FQDN: m.FQDN}
	for _, f := range m.Fields {
		m.Desc.Fields = append(m.Desc.Fields, f.Field)
	}
	g.p.Reg.Msgs[m.FQDN] = m.Desc
	return m
}

func (g *gen) pathArg() Expr {
	if g.cur.Root {
		return &Arg{"id", TString}
	}
	return &Arg{"path", TString}
}

func (g *gen) pathExpr(suffix string) Expr {
	return &Bin{"+", g.pathArg(), &Lit{TString, "/" + suffix}, TString}
}

func (g *gen) def(errCtx bool) *Def {
	pr := g.pr
	w := []int{pr.WBy, pr.WCall, pr.WMsg, pr.WMap, pr.WValid, pr.WEnum}
	if errCtx {
		w = []int{3, 0, 1, 0, 0, 0}
	}
	if len(g.p.Msgs) == 0 {
		w[2] = 0
	}
	if len(g.p.AEnums) == 0 {
		w[5] = 0
	}
	tot := 0
	for _, x := range w {
		tot += x
	}
	k, c := g.r.Intn(tot), 0
	for k >= w[c] {
		k -= w[c]
		c++
	}
	var d *Def
	name := g.id("d")
	switch c {
	case 0:
		t := g.someType()
		d = &Def{Name: name, T: t, By: g.expr(t, g.pr.Depth)}
		if d.By.Type().K == KDyn {
			return nil
		}
	case 1:
		d = g.callDef(name)
	case 2:
		d = &Def{Name: name}
		d.Msg = g.msgRef(name, nil)
		d.T = TMsg(d.Msg.M.FQDN)
	case 3:
		d = g.mapDef(name)
		if d == nil {
			return nil
		}
	case 4:
		d = &Def{Name: name, Valid: g.validation()}
		if g.r.Intn(3) != 0 {
			d.Name = ""
		}
	case 5:
		d = &Def{Name: name}
		a := g.p.AEnums[g.r.Intn(len(g.p.AEnums))]
		d.Enum = &EnumSpec{A: a, By: g.path(TEnum(a.Src.FQDN))}
		if d.Enum.By == nil {
			v := a.Src.Vals[g.r.Intn(len(a.Src.Vals))]
			d.Enum.By = &EnumConst{Enum: a.Src, V: v}
		}
		d.T = TEnum(a.Desc.FQDN)
	}
	if g.pct(pr.PIf) && d.Valid == nil {
		d.If = g.boolExpr(1)
	} else if g.pct(pr.PIf) {
		d.If = g.boolExpr(1)
	}
	return d
}

func (g *gen) someType() *Type {
	ts := []*Type{TString, TString, TInt, TInt, TBool, TDouble, TList(TString), TList(TInt), TMsg("dep.Leaf"), TMsg("dep.Item"), TList(TMsg("dep.Leaf")), TList(TMsg("dep.Item")), TEnum("dep.Kind"), TUint, TBytes}
	return ts[g.r.Intn(len(ts))]
}

func (g *gen) callDef(name string) *Def {
	m := Methods[g.r.Intn(len(Methods))]
	g.p.UsesCall[m.Service] = true
	d := &Def{Name: name, T: TMsg(m.Resp.FQDN)}
	c := &CallSpec{M: m}
	d.Call = c
	c.Req = append(c.Req, &ReqField{F: m.Req.Field("path"), By: g.pathExpr(name)})
	usedOneof := map[string]bool{}
	for _, f := range m.Req.Fields[1:] {
		if g.r.Intn(3) == 0 {
			continue
		}
		if f.Oneof != "" {
			if usedOneof[f.Oneof] {
				continue
			}
			usedOneof[f.Oneof] = true
		}
		t := f.T
		e := g.expr(t, g.pr.Depth)
		if e.Type().K == KDyn {
			continue
		}
		rf := &ReqField{F: f, By: e}
		if f.Oneof != "" || g.pct(g.pr.PReqIf) {
			rf.If = g.boolExpr(1)
		}
		c.Req = append(c.Req, rf)
	}
	if g.pct(g.pr.PTimeout) {
		c.Timeout = "30s"
		if g.p.Short {
			c.Timeout = ShortCall.String()
		}
	}
	if g.pct(g.pr.PRetry) {
		c.Retry = g.retry()
	}
	if g.pct(g.pr.PErr) {
		n := 1 + g.r.Intn(3)
		for i := 0; i < n; i++ {
			c.Errs = append(c.Errs, g.errBlock(d, false))
		}
	}
	return d
}

func (g *gen) retry() *Retry {
	r := &Retry{Max: 1 + g.r.Intn(4), Interval: "1ms", Expo: g.r.Intn(2) == 0}
	if g.r.Intn(4) == 0 {
		r.Max = -1
	}
	if g.r.Intn(2) == 0 {
		r.If = g.errCond()
	}
	if g.p.Long {
		r.Interval = "6s"
		if !r.Expo {
			r.Interval = "3s"
		}
	}
	return r
}

// errScope is what an expression may use of the error being handled.
func (g *gen) errScope() []scopeVar {
	ev := &Var{"error", TMsg("grpc.federation.private.Error")}
	o := []scopeVar{{&Sel{ev, "message", TString}}, {&Sel{ev, "code", TInt}}}
	for n := g.r.Intn(3); n > 0; n-- {
		o = append(o, scopeVar{g.errLeaf()})
	}
	if g.pct(30) {
		f := []string{"details", "custom_messages", ErrKinds[g.p.RandKind(g.r)].Field}[g.r.Intn(3)]
		o = append(o, scopeVar{&Fn{"size", []Expr{&Sel{ev, f, ErrorDesc.Field(f).T}}, TInt}})
	}
	return o
}

// errLeaf is a string out of a detail of the error, if the error has it.
func (g *gen) errLeaf() Expr {
	ev := &Var{"error", TMsg("grpc.federation.private.Error")}
	k := ErrKinds[0]
	for {
		k = ErrKinds[g.p.RandKind(g.r)]
		if len(k.D.Fields) > 0 {
			break
		}
	}
	gt := func(l Expr, n int64) Expr { return &Bin{">", &Fn{"size", []Expr{l}, TInt}, &Lit{TInt, n}, TBool} }
	none := &Lit{TString, "none"}
	l := &Sel{ev, k.Field, TList(TMsg(k.D.FQDN))}
	i := int64(g.r.Intn(2))
	el := &Index{l, i}
	leaf := func(e Expr, d *MsgDesc) Expr { return &Sel{e, d.Fields[g.r.Intn(len(d.Fields))].Name, TString} }
	if k.Sub == nil {
		return &Cond{gt(l, i), leaf(el, k.D), none}
	}
	sl := &Sel{el, k.List, TList(TMsg(k.Sub.FQDN))}
	j := int64(g.r.Intn(2))
	return &Cond{gt(l, i), &Cond{gt(sl, j), leaf(&Index{sl, j}, k.Sub), none}, none}
}

// withErr adds the error variable to the scope while f runs.
func (g *gen) withErr(f func()) {
	save := g.scope
	g.scope = append(append([]scopeVar{}, g.scope...), g.errScope()...)
	f()
	g.scope = save
}

func (g *gen) errCond() Expr {
	ev := &Var{"error", TMsg("grpc.federation.private.Error")}
	code := &Sel{ev, "code", TInt}
	msg := &Sel{ev, "message", TString}
	switch g.r.Intn(10) {
	case 6, 8, 9:
		return &Bin{[]string{"==", "!="}[g.r.Intn(2)], g.errLeaf(), &Lit{TString, DetailLeaves[g.r.Intn(len(DetailLeaves))]}, TBool}
	case 7:
		k := ErrKinds[g.p.RandKind(g.r)]
		f := []string{"details", "custom_messages", k.Field, k.Field}[g.r.Intn(4)]
		return &Bin{"==", &Fn{"size", []Expr{&Sel{ev, f, ErrorDesc.Field(f).T}}, TInt}, &Lit{TInt, int64(g.r.Intn(3))}, TBool}
	case 0, 1:
		c := FaultCodes[g.r.Intn(len(FaultCodes))]
		return &Bin{"==", code, &Lit{TInt, int64(c)}, TBool}
	case 2:
		c := FaultCodes[g.r.Intn(len(FaultCodes))]
		return &Bin{"!=", code, &Lit{TInt, int64(c)}, TBool}
	case 3:
		return &Bin{"!=", msg, &Lit{TString, FaultMsgs[g.r.Intn(len(FaultMsgs))]}, TBool}
	case 4:
		in := &Macro{"exists", &Sel{ev, "error_info", TList(TMsg("google.rpc.ErrorInfo"))}, "ei",
			&Bin{"==", &Sel{&Var{"ei", TMsg("google.rpc.ErrorInfo")}, "reason", TString}, &Lit{TString, FaultReasons[g.r.Intn(len(FaultReasons))]}, TBool}, TBool}
		return in
	default:
		var e Expr
		g.withErr(func() { e = g.boolExpr(1) })
		return e
	}
}

// Codes, messages and reasons used by injected faults.
var FaultCodes = []int{3, 5, 9, 13, 14}
var FaultMsgs = []string{"boom", "not found: x", "", "q'uote \"d\""}
var DetailLeaves = []string{"la", "lb", "lc"}
var FaultReasons = []string{"R1", "R2"}

func (g *gen) errBlock(d *Def, validation bool) *ErrBlock {
	b := &ErrBlock{Code: -1}
	if g.pct(40) && !validation {
		save := g.scope
		n := 1 + g.r.Intn(2)
		g.scope = append(append([]scopeVar{}, g.scope...), g.errScope()...)
		for i := 0; i < n; i++ {
			if x := g.def(true); x != nil && x.Name != "" {
				b.Defs = append(b.Defs, x)
				g.scope = append(g.scope, scopeVar{&Var{x.Name, x.T}})
			}
		}
		defer func() { g.scope = save }()
	} else if validation && g.pct(40) {
		save := g.scope
		if x := g.def(true); x != nil && x.Name != "" {
			b.Defs = append(b.Defs, x)
			g.scope = append(append([]scopeVar{}, g.scope...), scopeVar{&Var{x.Name, x.T}})
		}
		defer func() { g.scope = save }()
	}
	if validation {
		b.If = g.boolExpr(2)
	} else if g.r.Intn(5) != 0 {
		b.If = g.errCond()
	}
	if !validation {
		switch g.r.Intn(6) {
		case 0:
			b.Ignore = true
			return b
		case 1:
			g.withErr(func() { b.IgnoreBy = g.expr(d.T, 2) })
			if b.IgnoreBy.Type().K == KDyn {
				b.IgnoreBy = &MsgLit{M: g.p.Reg.Msgs[d.T.Name]}
			}
			return b
		}
	}
	if validation || g.r.Intn(3) != 0 {
		b.Code = []int{3, 5, 6, 7, 9, 10, 11, 16}[g.r.Intn(8)]
	}
	sub := func() {
		if g.r.Intn(3) != 0 {
			b.Msg = g.expr(TString, 2)
		}
		n := g.r.Intn(3)
		for i := 0; i < n; i++ {
			b.Details = append(b.Details, g.detail())
		}
	}
	if validation {
		sub()
	} else {
		g.withErr(sub)
	}
	return b
}

func (g *gen) detail() *Detail {
	d := &Detail{}
	save := g.scope
	defer func() { g.scope = save }()
	if g.r.Intn(3) == 0 {
		if x := g.def(true); x != nil && x.Name != "" {
			d.Defs = append(d.Defs, x)
			g.scope = append(append([]scopeVar{}, g.scope...), scopeVar{&Var{x.Name, x.T}})
		}
	}
	if g.r.Intn(2) == 0 {
		d.If = g.boolExpr(1)
	}
	k := 1 + g.r.Intn(3)
	for i := 0; i < k; i++ {
		switch g.r.Intn(5) {
		case 0:
			var l [][3]Expr
			for n := 1 + g.r.Intn(3); n > 0; n-- {
				l = append(l, [3]Expr{g.expr(TString, 1), g.expr(TString, 1), g.expr(TString, 1)})
			}
			d.Precond = append(d.Precond, l)
		case 1:
			var l [][2]Expr
			for n := 1 + g.r.Intn(3); n > 0; n-- {
				l = append(l, [2]Expr{g.expr(TString, 1), g.expr(TString, 1)})
			}
			d.BadReq = append(d.BadReq, l)
		case 2:
			d.Localized = append(d.Localized, LocMsg{"en-US", g.expr(TString, 1)})
		case 3:
			e := &MsgLit{M: DepLeaf, Fs: []MsgLitField{{DepLeaf.Field("name"), g.expr(TString, 1)}, {DepLeaf.Field("val"), g.expr(TInt, 1)}}}
			d.By = append(d.By, e)
		case 4:
			if len(g.p.Msgs) > 0 {
				d.Msgs = append(d.Msgs, g.msgRef(g.id("dm"), nil))
			}
		}
	}
	return d
}

func (g *gen) validation() *ErrBlock { return g.errBlock(nil, true) }

func (g *gen) msgRef(defName string, iter *Var) *MsgRef {
	cand := make([]*FedMsg, 0, len(g.p.Msgs))
	for _, m := range g.p.Msgs {
		if !m.Root {
			cand = append(cand, m)
		}
	}
	return g.msgRefTo(cand[g.r.Intn(len(cand))], defName, iter)
}

func (g *gen) msgRefTo(m *FedMsg, defName string, iter *Var) *MsgRef {
	g.used[m] = true
	ref := &MsgRef{M: m}
	for _, a := range m.Args {
		if a.Name == "path" {
			e := g.pathExpr(defName)
			if iter != nil {
				if s := iterKey(iter, g.p.Reg); s != nil {
					e = &Bin{"+", e, s, TString}
				}
			}
			ref.Args = append(ref.Args, &ArgSpec{Name: a.Name, By: e})
			continue
		}
		if m.Inline {
			if len(ref.Args) > 1 {
				continue
			}
			if e := g.path(TMsg("dep.Leaf")); e != nil && g.r.Intn(3) != 0 {
				ref.Args = append(ref.Args, &ArgSpec{Inline: e})
			} else {
				ref.Args = append(ref.Args, &ArgSpec{Inline: g.expr(TMsg("dep.Leaf"), g.pr.Depth)})
			}
			continue
		}
		e := g.expr(a.T, g.pr.Depth)
		if e.Type().K == KDyn {
			if a.T.K == KMsg {
				e = &MsgLit{M: g.p.Reg.Msgs[a.T.Name]}
			}
		}
		ref.Args = append(ref.Args, &ArgSpec{Name: a.Name, By: e})
	}
	return ref
}

func iterKey(v *Var, reg *Registry) Expr {
	pre := func(e Expr) Expr { return &Bin{"+", &Lit{TString, "#"}, e, TString} }
	switch v.T.K {
	case KString:
		return pre(v)
	case KInt, KUint:
		return pre(&Fn{"string", []Expr{v}, TString})
	case KMsg:
		for _, f := range reg.Msgs[v.T.Name].Fields {
			if f.T.K == KString && f.Oneof == "" {
				return pre(&Sel{v, f.Name, TString})
			}
		}
	}
	return nil
}

func (g *gen) mapDef(name string) *Def {
	var src []*Var
	for _, s := range g.scope {
		if v, ok := s.e.(*Var); ok && v.T.K == KList {
			src = append(src, v)
		}
	}
	if len(src) == 0 {
		return nil
	}
	v := src[g.r.Intn(len(src))]
	g.iterN++
	it := &Var{fmt.Sprintf("it%d", g.iterN), v.T.Elem}
	save := g.scope
	g.scope = append(append([]scopeVar{}, g.scope...), scopeVar{it}, scopeVar{it}, scopeVar{it})
	defer func() { g.scope = save }()
	d := &Def{Name: name, Map: &MapSpec{Iter: it.N, Src: v}}
	if len(g.p.AEnums) > 0 && g.r.Intn(4) == 0 {
		a := g.p.AEnums[0]
		d.Map.Enum = &EnumSpec{A: a, By: g.path(TEnum(a.Src.FQDN))}
		if d.Map.Enum.By == nil {
			d.Map.Enum.By = &EnumConst{Enum: a.Src, V: a.Src.Vals[g.r.Intn(len(a.Src.Vals))]}
		}
		d.T = TList(TEnum(a.Desc.FQDN))
		return d
	}
	if g.r.Intn(2) == 0 && len(g.p.Msgs) > 0 {
		d.Map.Msg = g.msgRef(name, it)
		d.T = TList(TMsg(d.Map.Msg.M.FQDN))
	} else {
		t := []*Type{TString, TInt, TBool, TMsg("dep.Leaf"), TMsg("dep.Item")}[g.r.Intn(5)]
		d.Map.By = g.expr(t, g.pr.Depth)
		if d.Map.By.Type().K == KDyn {
			d.Map.By = &MsgLit{M: g.p.Reg.Msgs[t.Name]}
		}
		if g.pr.Lists && t.K == KMsg && g.pct(30) {
			d.Map.By = &Cond{g.boolExpr(1), d.Map.By, &Lit{&Type{K: KDyn}, Null{}}}
		}
		d.T = TList(t)
	}
	return d
}

// paths lists the access paths of type t reachable from the scope.
func (g *gen) paths(t *Type) []Expr {
	var out []Expr
	want := t.Key()
	var walk func(e Expr, depth int)
	walk = func(e Expr, depth int) {
		et := e.Type()
		if et.Key() == want {
			out = append(out, e)
		}
		if et.K == KMsg && depth > 0 {
			md := g.p.Reg.Msgs[et.Name]
			if md == nil {
				return
			}
			for _, f := range md.Fields {
				walk(&Sel{e, f.Name, f.T}, depth-1)
			}
		}
	}
	for _, s := range g.scope {
		walk(s.e, 3)
	}
	return out
}

func (g *gen) path(t *Type) Expr {
	ps := g.paths(t)
	if len(ps) == 0 {
		return nil
	}
	// prefer shorter and later
	if g.pr.Shared && len(ps) > 3 && g.r.Intn(2) == 0 {
		return ps[len(ps)-1-g.r.Intn(3)]
	}
	return ps[g.r.Intn(len(ps))]
}

func (g *gen) boolExpr(depth int) Expr { return g.expr(TBool, depth) }

func (g *gen) list(depth int) Expr {
	ts := []*Type{TList(TString), TList(TInt), TList(TMsg("dep.Leaf")), TList(TMsg("dep.Item"))}
	g.r.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
	for _, t := range ts {
		if e := g.path(t); e != nil {
			return e
		}
	}
	return g.expr(ts[0], depth-1)
}

func (g *gen) withIter(elem *Type, f func(v *Var)) {
	g.iterN++
	v := &Var{fmt.Sprintf("x%d", g.iterN), elem}
	save := g.scope
	g.scope = append(append([]scopeVar{}, g.scope...), scopeVar{v}, scopeVar{v})
	f(v)
	g.scope = save
}

// expr generates an expression of type t.
func (g *gen) expr(t *Type, depth int) Expr {
	if t.K == KEnum || (t.K == KList && t.Elem.K == KEnum) {
		// The checker gives variables and value() an enum type but fields an
		// int type, so the two are not mixed inside one expression.
		if e := g.path(t); e != nil && g.r.Intn(6) != 0 {
			return e
		}
		if t.K == KEnum && depth > 0 && g.r.Intn(3) == 0 {
			return &Cond{g.boolExpr(depth - 1), g.leaf(t), g.leaf(t)}
		}
		return g.leaf(t)
	}
	if depth <= 0 || g.r.Intn(3) == 0 {
		if e := g.path(t); e != nil && g.r.Intn(8) != 0 {
			return e
		}
		return g.leaf(t)
	}
	if g.r.Intn(7) == 0 {
		return &Cond{g.boolExpr(depth - 1), g.expr(t, depth-1), g.expr(t, depth-1)}
	}
	switch t.K {
	case KString:
		switch g.r.Intn(6) {
		case 0, 1:
			return &Bin{"+", g.expr(t, depth-1), g.expr(t, depth-1), TString}
		case 2:
			return &Fn{"string", []Expr{g.expr(TInt, depth-1)}, TString}
		case 3:
			if e := g.path(TEnum("dep.Kind")); e != nil {
				return &Fn{"dep.Kind.name", []Expr{e}, TString}
			}
		case 4:
			return &Fn{"string", []Expr{g.boolExpr(depth - 1)}, TString}
		}
	case KInt:
		switch g.r.Intn(6) {
		case 0, 1:
			op := []string{"+", "-", "*"}[g.r.Intn(3)]
			return &Bin{op, g.expr(t, depth-1), g.expr(t, depth-1), TInt}
		case 2:
			return &Fn{"size", []Expr{g.expr(TString, depth-1)}, TInt}
		case 3:
			return &Fn{"size", []Expr{g.list(depth)}, TInt}
		case 4:
			op := []string{"/", "%"}[g.r.Intn(2)]
			return &Bin{op, g.expr(t, depth-1), &Lit{TInt, int64(1 + g.r.Intn(6))}, TInt}
		case 5:
			if e := g.path(TUint); e != nil && !g.pr.Extreme {
				return &Fn{"int", []Expr{e}, TInt}
			}
		}
	case KUint:
		if g.r.Intn(2) == 0 {
			return &Bin{"+", g.expr(t, depth-1), g.expr(t, depth-1), TUint}
		}
	case KDouble:
		switch g.r.Intn(3) {
		case 0:
			op := []string{"+", "-", "*"}[g.r.Intn(3)]
			return &Bin{op, g.expr(t, depth-1), g.expr(t, depth-1), TDouble}
		case 1:
			return &Fn{"double", []Expr{g.expr(TInt, depth-1)}, TDouble}
		}
	case KBool:
		switch g.r.Intn(9) {
		case 0:
			return &Bin{"&&", g.boolExpr(depth - 1), g.boolExpr(depth - 1), TBool}
		case 1:
			return &Bin{"||", g.boolExpr(depth - 1), g.boolExpr(depth - 1), TBool}
		case 2:
			return &Not{g.boolExpr(depth - 1)}
		case 3:
			op := []string{"==", "!=", "<", "<=", ">", ">="}[g.r.Intn(6)]
			ct := []*Type{TInt, TString, TDouble}[g.r.Intn(3)]
			return &Bin{op, g.expr(ct, depth-1), g.expr(ct, depth-1), TBool}
		case 4:
			mt := []*Type{TMsg("dep.Leaf"), TMsg("dep.Item")}[g.r.Intn(2)]
			if e := g.path(mt); e != nil {
				return &NullCmp{e, g.r.Intn(2) == 0}
			}
		case 5:
			mt := []*Type{TMsg("dep.Leaf"), TMsg("dep.Item"), TString}[g.r.Intn(3)]
			if s, ok := g.path(mt).(*Sel); ok && s != nil {
				if s.E.Type().K == KMsg {
					return &Has{s}
				}
			}
		case 6:
			l := g.list(depth)
			var body Expr
			var v0 *Var
			g.withIter(l.Type().Elem, func(v *Var) { v0 = v; body = g.boolExpr(depth - 1) })
			return &Macro{[]string{"exists", "all"}[g.r.Intn(2)], l, v0.N, body, TBool}
		case 7:
			et := []*Type{TString, TInt}[g.r.Intn(2)]
			return &Bin{"in", g.expr(et, depth-1), g.expr(TList(et), depth-1), TBool}
		case 8:
			if e := g.path(TEnum("dep.Kind")); e != nil {
				v := DepKind.Vals[g.r.Intn(4)]
				_, sel := e.(*Sel)
				return &Bin{[]string{"==", "!="}[g.r.Intn(2)], e, &EnumConst{Const: sel, Enum: DepKind, V: v}, TBool}
			}
		}
	case KList:
		switch g.r.Intn(6) {
		case 0:
			n := 1 + g.r.Intn(3)
			l := &ListLit{T: t}
			for i := 0; i < n; i++ {
				e := g.expr(t.Elem, depth-1)
				if e.Type().K == KDyn || mayNull(e) {
					e = g.leafNonNull(t.Elem)
				}
				l.Es = append(l.Es, e)
			}
			return l
		case 1:
			l := g.list(depth)
			var body Expr
			var v0 *Var
			g.withIter(l.Type().Elem, func(v *Var) {
				v0 = v
				body = g.expr(t.Elem, depth-1)
				if body.Type().K == KDyn || mayNull(body) {
					body = g.leafNonNull(t.Elem)
				}
			})
			return &Macro{"map", l, v0.N, body, t}
		case 2:
			l := g.expr(t, depth-1)
			var body Expr
			var v0 *Var
			g.withIter(t.Elem, func(v *Var) { v0 = v; body = g.boolExpr(depth - 1) })
			return &Macro{"filter", l, v0.N, body, t}
		case 3:
			return &Bin{"+", g.expr(t, depth-1), g.expr(t, depth-1), t}
		case 4:
			l := g.path(t)
			if l == nil {
				break
			}
			var body Expr
			var v0 *Var
			g.withIter(t.Elem, func(v *Var) {
				v0 = v
				switch t.Elem.K {
				case KInt, KString, KDouble:
					body = v
				case KMsg:
					kt := []*Type{TString, TInt}[g.r.Intn(2)]
					for _, f := range g.p.Reg.Msgs[t.Elem.Name].Fields {
						if f.T.Eq(kt) {
							body = &Sel{v, f.Name, f.T}
						}
					}
				}
			})
			if body == nil {
				break
			}
			return &Macro{[]string{"sortStableAsc", "sortStableDesc"}[g.r.Intn(2)], l, v0.N, body, t}
		}
	case KMsg:
		md := g.p.Reg.Msgs[t.Name]
		if md != nil && (t.Name == "dep.Leaf" || t.Name == "dep.Item") && g.r.Intn(2) == 0 {
			l := &MsgLit{M: md}
			used := map[string]bool{}
			for _, f := range md.Fields {
				if g.r.Intn(3) == 0 || f.T.K == KMap || (f.T.K == KList && f.T.Elem.K == KEnum) {
					continue
				}
				if f.Oneof != "" {
					if used[f.Oneof] {
						continue
					}
					used[f.Oneof] = true
				}
				var e Expr
				if f.T.K == KEnum {
					e = g.enumInt(f.T)
				} else {
					e = g.expr(f.T, depth-1)
				}
				if e.Type().K == KDyn {
					continue
				}
				if f.Oneof != "" && f.T.K == KMsg && mayNull(e) {
					continue
				}
				l.Fs = append(l.Fs, MsgLitField{f, e})
			}
			return l
		}
	}
	if e := g.path(t); e != nil {
		return e
	}
	return g.leaf(t)
}

// enumInt is an enum value that the checker sees as an int.
func (g *gen) enumInt(t *Type) Expr {
	if g.r.Intn(3) != 0 {
		for i := 0; i < 4; i++ {
			if e, ok := g.path(t).(*Sel); ok && e != nil {
				return e
			}
		}
	}
	l := g.leaf(t).(*EnumConst)
	l.Const = true
	return l
}

// mayNull is conservative: the expression may evaluate to a null message.
func mayNull(e Expr) bool {
	if e.Type().K != KMsg && e.Type().K != KDyn {
		return false
	}
	switch x := e.(type) {
	case *MsgLit:
		return false
	case *Sel:
		return false
	case *Cond:
		return mayNull(x.A) || mayNull(x.B)
	}
	return true
}

func (g *gen) leafNonNull(t *Type) Expr { return g.leaf(t) }

func (g *gen) leaf(t *Type) Expr {
	switch t.K {
	case KString:
		return &Lit{t, litStrings[g.r.Intn(len(litStrings))]}
	case KInt:
		return &Lit{t, int64(g.r.Intn(30))}
	case KUint:
		return &Lit{t, uint64(g.r.Intn(30))}
	case KDouble:
		return &Lit{t, float64(g.r.Intn(100)) / 4}
	case KBool:
		return &Lit{t, g.r.Intn(2) == 0}
	case KBytes:
		return &Lit{t, Bytes(litStrings[g.r.Intn(4)])}
	case KEnum:
		ed := g.p.Reg.Enums[t.Name]
		return &EnumConst{Enum: ed, V: ed.Vals[g.r.Intn(len(ed.Vals))]}
	case KMsg:
		return &MsgLit{M: g.p.Reg.Msgs[t.Name]}
	case KList:
		l := &ListLit{T: t}
		n := 1 + g.r.Intn(2)
		for i := 0; i < n; i++ {
			l.Es = append(l.Es, g.leaf(t.Elem))
		}
		return l
	}
	panic("leaf")
}

var litStrings = []string{"", "a", "lit", "x y", "it's", "é", "b\\s", "q\"q", "cost 5", "日本"}

func (g *gen) fields(m *FedMsg) {
	num := 0
	add := func(f *FedField) {
		num++
		f.Num = num
		m.Fields = append(m.Fields, f)
	}
	// autobind from one definition
	if g.pct(g.pr.PAuto) {
		var c []*Def
		for _, d := range m.Defs {
			if d.T != nil && d.T.K == KMsg && d.Enum == nil && d.Valid == nil && d.Name != "" {
				c = append(c, d)
			}
		}
		if len(c) > 0 {
			d := c[g.r.Intn(len(c))]
			d.Auto = true
			md := g.p.Reg.Msgs[d.T.Name]
			for _, f := range md.Fields {
				if f.Oneof != "" || g.r.Intn(3) == 0 {
					continue
				}
				nf := &Field{Name: f.Name, T: f.T, Proto: f.Proto}
				if g.r.Intn(2) == 0 {
					nf.T = g.aliasType(f.T)
				}
				add(&FedField{Field: nf, AutoDef: d.Name, AutoSrc: f.T})
			}
		}
	}
	k := 2 + g.r.Intn(4)
	for i := 0; i < k; i++ {
		t := g.someType()
		// bind federation messages when available
		var fedVars []*Var
		for _, s := range g.scope {
			if v, ok := s.e.(*Var); ok {
				tt := v.T
				if tt.K == KList {
					tt = tt.Elem
				}
				if tt.K == KMsg && g.p.isFed(tt.Name) {
					fedVars = append(fedVars, v)
				}
				if tt.K == KEnum {
					fedVars = append(fedVars, v)
				}
			}
		}
		name := g.id("f")
		if len(fedVars) > 0 && g.r.Intn(2) == 0 {
			v := fedVars[g.r.Intn(len(fedVars))]
			add(&FedField{Field: &Field{Name: name, T: v.T}, By: v})
			continue
		}
		if g.pct(g.pr.PCustomField) {
			ct := []*Type{TString, TInt, TMsg("dep.Leaf"), TList(TString), TBool}[g.r.Intn(5)]
			add(&FedField{Field: &Field{Name: name, T: ct}, Custom: true})
			g.p.UsesCustom = true
			continue
		}
		if g.pct(g.pr.POneof) {
			g.oneof(m, add)
			continue
		}
		ft := t
		f := &Field{Name: name, T: t}
		if g.r.Intn(2) == 0 {
			ft = g.aliasType(t)
			f.T = ft
		}
		switch {
		case t.K == KInt && g.r.Intn(4) == 0:
			f.Proto = "int32"
		case t.K == KUint && g.r.Intn(4) == 0:
			f.Proto = "uint32"
		}
		e := g.expr(t, g.pr.Depth)
		if e.Type().K == KDyn {
			e = g.leaf(t)
		}
		add(&FedField{Field: f, By: e})
	}
	if !m.Root && g.pct(g.pr.PCustomMsg) && !hasOneof(m) {
		m.Custom = true
		g.p.UsesCustom = true
		// fields of a custom resolved message carry no rule of their own
		for _, f := range m.Fields {
			f.By, f.AutoDef, f.Custom, f.Case = nil, "", false, nil
		}
		for _, d := range m.Defs {
			d.Auto = false
		}
	}
	sort.SliceStable(m.Fields, func(i, j int) bool { return m.Fields[i].Num < m.Fields[j].Num })
}

func hasOneof(m *FedMsg) bool {
	for _, f := range m.Fields {
		if f.Oneof != "" {
			return true
		}
	}
	return false
}

func (p *Program) isFed(n string) bool {
	for _, m := range p.Msgs {
		if m.FQDN == n {
			return true
		}
	}
	return false
}

func (g *gen) oneof(m *FedMsg, add func(*FedField)) {
	for _, f := range m.Fields {
		if f.Oneof != "" {
			return
		}
	}
	name := g.id("o")
	n := 2 + g.r.Intn(2)
	for i := 0; i < n; i++ {
		c := &OneofCase{}
		save := g.scope
		if i == n-1 && g.r.Intn(3) != 0 {
			c.Default = true
		} else {
			c.If = g.boolExpr(2)
		}
		if g.r.Intn(2) == 0 {
			var d *Def
			if g.r.Intn(2) == 0 {
				d = g.callDefPlain(g.id("d"))
			} else {
				d = g.def(true)
			}
			if d != nil && d.Name != "" {
				c.Defs = append(c.Defs, d)
				g.scope = append(append([]scopeVar{}, g.scope...), scopeVar{&Var{d.Name, d.T}}, scopeVar{&Var{d.Name, d.T}})
			}
		}
		t := []*Type{TString, TInt, TMsg("dep.Leaf"), TBool}[g.r.Intn(4)]
		c.By = g.expr(t, g.pr.Depth)
		if c.By.Type().K == KDyn || mayNull(c.By) {
			c.By = g.leaf(t)
		}
		g.scope = save
		add(&FedField{Field: &Field{Name: g.id("f"), T: t, Oneof: name}, Case: c})
	}
}

func (g *gen) callDefPlain(name string) *Def {
	save := g.pr
	g.pr.PErr, g.pr.PRetry = 0, 0
	d := g.callDef(name)
	g.pr = save
	return d
}
