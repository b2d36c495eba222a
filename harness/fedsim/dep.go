package fedsim

import (
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"strings"
)

// Registry holds every descriptor an expression may use.
type Registry struct {
	Msgs  map[string]*MsgDesc
	Enums map[string]*EnumDesc
}

// Method of a dependent service.
type Method struct {
	Service string // FQDN
	Name    string
	Req     *MsgDesc
	Resp    *MsgDesc
}

func (m *Method) Full() string { return m.Service + "/" + m.Name }

var (
	DepKind = &EnumDesc{"dep.Kind", []EnumVal{{"KIND_UNSPECIFIED", 0}, {"KIND_A", 1}, {"KIND_B", 2}, {"KIND_C", 5}}}
	DepLeaf = &MsgDesc{"dep.Leaf", []*Field{
		{Name: "name", T: TString}, {Name: "val", T: TInt}, {Name: "kind", T: TEnum("dep.Kind")}, {Name: "flag", T: TBool},
	}}
	DepItem = &MsgDesc{"dep.Item", []*Field{
		{Name: "id", T: TString}, {Name: "num", T: TInt}, {Name: "small", T: TInt, Proto: "int32"}, {Name: "unum", T: TUint},
		{Name: "ratio", T: TDouble}, {Name: "on", T: TBool}, {Name: "blob", T: TBytes}, {Name: "kind", T: TEnum("dep.Kind")},
		{Name: "leaf", T: TMsg("dep.Leaf")}, {Name: "tags", T: TList(TString)}, {Name: "nums", T: TList(TInt)},
		{Name: "leaves", T: TList(TMsg("dep.Leaf"))}, {Name: "attrs", T: TMapSI(TInt)}, {Name: "kinds", T: TList(TEnum("dep.Kind"))},
		{Name: "pick_s", T: TString, Oneof: "pick"}, {Name: "pick_i", T: TInt, Oneof: "pick"}, {Name: "pick_leaf", T: TMsg("dep.Leaf"), Oneof: "pick"},
		{Name: "small_u", T: TUint, Proto: "uint32"}, {Name: "leaf_map", T: TMapSI(TMsg("dep.Leaf"))},
	}}
	DepQuery = &MsgDesc{"dep.Query", []*Field{
		{Name: "path", T: TString}, {Name: "s", T: TString}, {Name: "n", T: TInt}, {Name: "b", T: TBool}, {Name: "kind", T: TEnum("dep.Kind")},
		{Name: "tags", T: TList(TString)}, {Name: "leaf", T: TMsg("dep.Leaf")}, {Name: "d", T: TDouble}, {Name: "u", T: TUint},
		{Name: "small", T: TInt, Proto: "int32"}, {Name: "nums", T: TList(TInt)}, {Name: "leaves", T: TList(TMsg("dep.Leaf"))},
		{Name: "w_s", T: TString, Oneof: "which"}, {Name: "w_n", T: TInt, Oneof: "which"}, {Name: "small_u", T: TUint, Proto: "uint32"},
	}}
	DepLeafQuery = &MsgDesc{"dep.LeafQuery", []*Field{
		{Name: "path", T: TString}, {Name: "name", T: TString}, {Name: "val", T: TInt}, {Name: "item", T: TMsg("dep.Item")},
	}}
	DepItemReply = &MsgDesc{"dep.ItemReply", []*Field{{Name: "item", T: TMsg("dep.Item")}, {Name: "note", T: TString}}}
	DepListReply = &MsgDesc{"dep.ListReply", []*Field{{Name: "items", T: TList(TMsg("dep.Item"))}, {Name: "total", T: TInt}, {Name: "cursor", T: TString}}}
	DepLeafReply = &MsgDesc{"dep.LeafReply", []*Field{{Name: "leaf", T: TMsg("dep.Leaf")}, {Name: "leaves", T: TList(TMsg("dep.Leaf"))}, {Name: "names", T: TList(TString)}}}
	DepFlat      = &MsgDesc{"dep.Flat", []*Field{{Name: "label", T: TString}, {Name: "count", T: TInt}, {Name: "ok", T: TBool}, {Name: "weights", T: TList(TDouble)}, {Name: "ids", T: TList(TInt)}}}

	DepMsgs  = []*MsgDesc{DepLeaf, DepItem, DepQuery, DepLeafQuery, DepItemReply, DepListReply, DepLeafReply, DepFlat}
	DepEnums = []*EnumDesc{DepKind}
	Methods  = []*Method{
		{"dep.Alpha", "GetItem", DepQuery, DepItemReply},
		{"dep.Alpha", "ListItems", DepQuery, DepListReply},
		{"dep.Beta", "GetLeaf", DepLeafQuery, DepLeafReply},
		{"dep.Beta", "GetFlat", DepQuery, DepFlat},
	}
)

func init() {
	for _, m := range DepMsgs {
		for i, f := range m.Fields {
			f.Num = i + 1
		}
	}
}

// ErrKind is one kind of error detail: the list of the `error` variable which holds it and its string leaves.
type ErrKind struct {
	Field string
	D     *MsgDesc
	List  string   // repeated message with the leaves, if any
	Sub   *MsgDesc // its element
}

func strs(names ...string) []*Field {
	var o []*Field
	for _, n := range names {
		o = append(o, &Field{Name: n, T: TString})
	}
	return o
}

func detailDesc(name, list, sub string, leaves ...string) ErrKind {
	k := ErrKind{D: &MsgDesc{"google.rpc." + name, strs(leaves...)}}
	if list != "" {
		k.List, k.Sub = list, &MsgDesc{"google.rpc." + name + "." + sub, strs(leaves...)}
		k.D = &MsgDesc{"google.rpc." + name, []*Field{{Name: list, T: TList(TMsg(k.Sub.FQDN))}}}
	}
	return k
}

func named(field string, k ErrKind) ErrKind { k.Field = field; return k }

// ErrKinds lists the standard error details.
var ErrKinds = []ErrKind{
	named("error_info", detailDesc("ErrorInfo", "", "", "reason", "domain")),
	named("retry_info", detailDesc("RetryInfo", "", "")),
	named("debug_info", detailDesc("DebugInfo", "", "", "detail")),
	named("quota_failures", detailDesc("QuotaFailure", "violations", "Violation", "subject", "description")),
	named("precondition_failures", detailDesc("PreconditionFailure", "violations", "Violation", "type", "subject", "description")),
	named("bad_requests", detailDesc("BadRequest", "field_violations", "FieldViolation", "field", "description")),
	named("request_info", detailDesc("RequestInfo", "", "", "request_id", "serving_data")),
	named("resource_info", detailDesc("ResourceInfo", "", "", "resource_type", "resource_name", "owner", "description")),
	named("helps", detailDesc("Help", "links", "Link", "description", "url")),
	named("localized_messages", detailDesc("LocalizedMessage", "", "", "locale", "message")),
}

// ErrorDesc is the message behind the `error` variable (fields the generator uses).
var ErrorDesc = func() *MsgDesc {
	d := &MsgDesc{"grpc.federation.private.Error", []*Field{
		{Name: "code", T: TInt, Proto: "int32"}, {Name: "message", T: TString},
		{Name: "details", T: TList(TMsg("google.protobuf.Any"))},
		{Name: "custom_messages", T: TList(TMsg("google.protobuf.Any"))},
	}}
	for _, k := range ErrKinds {
		d.Fields = append(d.Fields, &Field{Name: k.Field, T: TList(TMsg(k.D.FQDN))})
	}
	return d
}()

func BaseRegistry() *Registry {
	r := &Registry{Msgs: map[string]*MsgDesc{}, Enums: map[string]*EnumDesc{}}
	for _, m := range append(append([]*MsgDesc{}, DepMsgs...), ErrorDesc) {
		r.Msgs[m.FQDN] = m
	}
	for _, k := range ErrKinds {
		r.Msgs[k.D.FQDN] = k.D
		if k.Sub != nil {
			r.Msgs[k.Sub.FQDN] = k.Sub
		}
	}
	for _, e := range DepEnums {
		r.Enums[e.FQDN] = e
	}
	return r
}

func short(fqdn string) string { return fqdn[strings.LastIndexByte(fqdn, '.')+1:] }

func msgBody(b *strings.Builder, m *MsgDesc, extra func(*Field) string, ind string) {
	done := map[string]bool{}
	one := func(f *Field, ind string) {
		rep := ""
		if f.T.K == KList {
			rep = "repeated "
		}
		opt := ""
		if extra != nil {
			opt = extra(f)
		}
		fmt.Fprintf(b, "%s%s%s %s = %d%s;\n", ind, rep, f.elemProto(), f.Name, f.Num, opt)
	}
	for _, f := range m.Fields {
		if f.Oneof == "" {
			one(f, ind)
			continue
		}
		if done[f.Oneof] {
			continue
		}
		done[f.Oneof] = true
		fmt.Fprintf(b, "%soneof %s {\n", ind, f.Oneof)
		for _, o := range m.Fields {
			if o.Oneof == f.Oneof {
				one(o, ind+"  ")
			}
		}
		fmt.Fprintf(b, "%s}\n", ind)
	}
}

// DepProto is the text of dep.proto.
func DepProto() string {
	var b strings.Builder
	b.WriteString("syntax = \"proto3\";\npackage dep;\noption go_package = \"scratch/dep;dep\";\n")
	for _, e := range DepEnums {
		fmt.Fprintf(&b, "enum %s {\n", short(e.FQDN))
		for _, v := range e.Vals {
			fmt.Fprintf(&b, "  %s = %d;\n", v.Name, v.Num)
		}
		b.WriteString("}\n")
	}
	for _, m := range DepMsgs {
		fmt.Fprintf(&b, "message %s {\n", short(m.FQDN))
		msgBody(&b, m, nil, "  ")
		b.WriteString("}\n")
	}
	for _, s := range []string{"dep.Alpha", "dep.Beta"} {
		fmt.Fprintf(&b, "service %s {\n", short(s))
		for _, m := range Methods {
			if m.Service == s {
				fmt.Fprintf(&b, "  rpc %s(%s) returns (%s);\n", m.Name, short(m.Req.FQDN), short(m.Resp.FQDN))
			}
		}
		b.WriteString("}\n")
	}
	return b.String()
}

func hash64(parts ...string) int64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return int64(h.Sum64() & math.MaxInt64)
}

// Backend is the reference behaviour of every dependent method: a pure function of method and request.
func Backend(reg *Registry, salt string, m *Method, req *MsgV, extreme bool) *MsgV {
	r := rand.New(rand.NewSource(hash64(salt, m.Full(), Canon(req))))
	return RandMsg(r, reg, m.Resp, 0, extreme)
}

var strPool = []string{"", "a", "b", "alpha", "beta", "é", "x y", "日本", "z-9", "A", "q\"uote", "back\\slash", "it's", "100%"}

func RandValue(r *rand.Rand, reg *Registry, f *Field, t *Type, depth int, extreme bool) Value {
	switch t.K {
	case KString:
		return strPool[r.Intn(len(strPool))]
	case KInt:
		if extreme && r.Intn(3) == 0 {
			c := []int64{math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1, -1}
			v := c[r.Intn(len(c))]
			if f != nil && f.Proto == "int32" {
				return int64(int32(v))
			}
			return v
		}
		return int64(r.Intn(26) - 5)
	case KUint:
		if extreme && r.Intn(3) == 0 {
			c := []uint64{math.MaxUint64, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt32 + 1}
			v := c[r.Intn(len(c))]
			if f != nil && f.Proto == "uint32" {
				return uint64(uint32(v))
			}
			return v
		}
		return uint64(r.Intn(20))
	case KDouble:
		return float64(r.Intn(400)-100) / 4
	case KBool:
		return r.Intn(2) == 0
	case KBytes:
		return Bytes(strPool[r.Intn(len(strPool))])
	case KEnum:
		ed := reg.Enums[t.Name]
		if extreme && r.Intn(6) == 0 {
			return int64(77)
		}
		return ed.Vals[r.Intn(len(ed.Vals))].Num
	case KMsg:
		if depth > 0 && r.Intn(5) == 0 {
			return Null{}
		}
		return RandMsg(r, reg, reg.Msgs[t.Name], depth+1, extreme)
	case KList:
		n := r.Intn(4)
		out := make([]Value, 0, n)
		for i := 0; i < n; i++ {
			v := RandValue(r, reg, f, t.Elem, 0, extreme)
			out = append(out, v)
		}
		return out
	case KMap:
		n := r.Intn(3)
		out := map[string]Value{}
		for i := 0; i < n; i++ {
			out[strPool[r.Intn(len(strPool))]] = RandValue(r, reg, f, t.Elem, 0, extreme)
		}
		return out
	}
	panic("randvalue")
}

// RandMsg fills a message; oneofs get at most one member.
func RandMsg(r *rand.Rand, reg *Registry, m *MsgDesc, depth int, extreme bool) *MsgV {
	out := NewMsg(m.FQDN)
	chosen := map[string]string{}
	for _, f := range m.Fields {
		if f.Oneof != "" {
			if _, ok := chosen[f.Oneof]; !ok {
				var ms []string
				for _, o := range m.Fields {
					if o.Oneof == f.Oneof {
						ms = append(ms, o.Name)
					}
				}
				ms = append(ms, "")
				chosen[f.Oneof] = ms[r.Intn(len(ms))]
			}
			if chosen[f.Oneof] != f.Name {
				continue
			}
		}
		v := RandValue(r, reg, f, f.T, depth+1, extreme)
		if f.Oneof != "" {
			if _, isNull := v.(Null); isNull {
				v = NewMsg(f.T.Name)
			}
			out.F["!"+f.Name] = v
			continue
		}
		if _, isNull := v.(Null); isNull {
			continue
		}
		if !isZero(v) {
			out.F[f.Name] = v
		}
	}
	return out
}

func newRand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }

// sparse fills the dependent-typed and scalar fields of any message of the program.
func sparse(p *Program, name string, r *rand.Rand) Value {
	md := p.Reg.Msgs[name]
	out := NewMsg(name)
	for _, f := range md.Fields {
		t := f.T
		if t.K == KList || t.K == KMap {
			t = t.Elem
		}
		if t.K == KMsg && !strings.HasPrefix(t.Name, "dep.") {
			continue
		}
		if f.Oneof != "" || r.Intn(4) == 0 {
			continue
		}
		v := RandValue(r, p.Reg, f, f.T, 1, false)
		if _, isNull := v.(Null); !isNull {
			out.F[f.Name] = v
		}
	}
	return out
}
