// Package fedsim generates random federation programs and evaluates them with its
// own evaluator, independent of the repository under check and of cel-go.
package fedsim

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type Kind int

const (
	KString Kind = iota
	KInt
	KUint
	KDouble
	KBool
	KBytes
	KEnum
	KMsg
	KList
	KMap
	KDyn // for null literals
)

type Type struct {
	K    Kind
	Name string // message or enum FQDN
	Elem *Type
}

var (
	TString = &Type{K: KString}
	TInt    = &Type{K: KInt}
	TUint   = &Type{K: KUint}
	TDouble = &Type{K: KDouble}
	TBool   = &Type{K: KBool}
	TBytes  = &Type{K: KBytes}
)

func TMsg(n string) *Type   { return &Type{K: KMsg, Name: n} }
func TEnum(n string) *Type  { return &Type{K: KEnum, Name: n} }
func TList(e *Type) *Type   { return &Type{K: KList, Elem: e} }
func TMapSI(e *Type) *Type  { return &Type{K: KMap, Elem: e} }
func (t *Type) Key() string { return fmt.Sprintf("%d/%s/%s", t.K, t.Name, t.elemKey()) }
func (t *Type) elemKey() string {
	if t.Elem == nil {
		return ""
	}
	return t.Elem.Key()
}
func (t *Type) Eq(o *Type) bool { return t.Key() == o.Key() }

// Field of a message. Proto is the proto scalar name for integers narrower than the CEL type.
type Field struct {
	Name  string
	T     *Type
	Proto string // explicit scalar (int32, uint32, float ...), else derived from T
	Oneof string
	Num   int
}

func (f *Field) elemProto() string {
	t := f.T
	if t.K == KList {
		t = t.Elem
	}
	if f.Proto != "" {
		return f.Proto
	}
	switch t.K {
	case KString:
		return "string"
	case KInt:
		return "int64"
	case KUint:
		return "uint64"
	case KDouble:
		return "double"
	case KBool:
		return "bool"
	case KBytes:
		return "bytes"
	case KEnum, KMsg:
		return t.Name
	case KMap:
		ef := &Field{T: t.Elem}
		return "map<string, " + ef.elemProto() + ">"
	}
	panic("bad type")
}

type MsgDesc struct {
	FQDN   string
	Fields []*Field
}

func (m *MsgDesc) Field(n string) *Field {
	for _, f := range m.Fields {
		if f.Name == n {
			return f
		}
	}
	return nil
}

type EnumVal struct {
	Name string
	Num  int64
}
type EnumDesc struct {
	FQDN string
	Vals []EnumVal
}

func (e *EnumDesc) ByNum(n int64) *EnumVal {
	for i := range e.Vals {
		if e.Vals[i].Num == n {
			return &e.Vals[i]
		}
	}
	return nil
}

// Values: string int64 uint64 float64 bool Bytes Null *MsgV []Value map[string]Value
type Value any
type Bytes string
type Null struct{}
type MsgV struct {
	T string
	F map[string]Value
}

func NewMsg(t string) *MsgV { return &MsgV{T: t, F: map[string]Value{}} }

func Zero(t *Type) Value {
	switch t.K {
	case KString:
		return ""
	case KInt, KEnum:
		return int64(0)
	case KUint:
		return uint64(0)
	case KDouble:
		return float64(0)
	case KBool:
		return false
	case KBytes:
		return Bytes("")
	case KMsg:
		return Null{}
	case KList:
		return []Value{}
	case KMap:
		return map[string]Value{}
	}
	return Null{}
}

func isZero(v Value) bool {
	switch x := v.(type) {
	case nil, Null:
		return true
	case string:
		return x == ""
	case int64:
		return x == 0
	case uint64:
		return x == 0
	case float64:
		return x == 0
	case bool:
		return !x
	case Bytes:
		return x == ""
	case []Value:
		return len(x) == 0
	case map[string]Value:
		return len(x) == 0
	}
	return false
}

// Canon renders a value canonically; zero scalars in messages are omitted (proto3), oneof members are kept.
func Canon(v Value) string {
	var b strings.Builder
	canon(&b, v)
	return b.String()
}

func canon(b *strings.Builder, v Value) {
	switch x := v.(type) {
	case nil, Null:
		b.WriteString("null")
	case string:
		b.WriteString(strconv.Quote(x))
	case int64:
		b.WriteString(strconv.FormatInt(x, 10))
	case uint64:
		b.WriteString(strconv.FormatUint(x, 10) + "u")
	case float64:
		b.WriteString(strconv.FormatFloat(x, 'g', -1, 64) + "f")
	case bool:
		b.WriteString(strconv.FormatBool(x))
	case Bytes:
		b.WriteString("b" + strconv.Quote(string(x)))
	case []Value:
		b.WriteString("[")
		for i, e := range x {
			if i > 0 {
				b.WriteString(",")
			}
			canon(b, e)
		}
		b.WriteString("]")
	case map[string]Value:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b.WriteString("map{")
		for _, k := range keys {
			b.WriteString(strconv.Quote(k) + ":")
			canon(b, x[k])
			b.WriteString(",")
		}
		b.WriteString("}")
	case *MsgV:
		keys := make([]string, 0, len(x.F))
		for k := range x.F {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b.WriteString("{")
		for _, k := range keys {
			fv := x.F[k]
			if strings.HasPrefix(k, "!") { // oneof member marker: always present
				b.WriteString(k[1:] + ":")
				canon(b, fv)
				b.WriteString(" ")
				continue
			}
			if isZero(fv) {
				continue
			}
			b.WriteString(k + ":")
			canon(b, fv)
			b.WriteString(" ")
		}
		b.WriteString("}")
	default:
		panic(fmt.Sprintf("canon: %T", v))
	}
}
