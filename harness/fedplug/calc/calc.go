// Package calc is what the generated plugins compute; it is compiled both into the
// WebAssembly plugin and into the driver that predicts the answers.
package calc

import (
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// Type is a type of a plugin function.
type Type struct {
	Kind string // string bool int64 uint64 double enum message
	List bool
}

func (t Type) Elem() Type { return Type{Kind: t.Kind} }

// Canon renders a value so that equal texts mean equal values. A null message counts as the empty message.
func Canon(v any) string {
	switch v := v.(type) {
	case []any:
		s := make([]string, len(v))
		for i := range v {
			s[i] = Canon(v[i])
		}
		return "[" + strings.Join(s, ",") + "]"
	case float64:
		if math.IsNaN(v) {
			return "dNaN"
		}
		return fmt.Sprintf("d%x", math.Float64bits(v))
	case float32:
		return "f" + Canon(float64(v))
	case string:
		return fmt.Sprintf("s%q", v)
	case []byte:
		return fmt.Sprintf("b%q", v)
	case proto.Message:
		b, err := proto.MarshalOptions{Deterministic: true}.Marshal(v)
		if err != nil {
			return "unmarshalable " + err.Error()
		}
		return fmt.Sprintf("m%s%x", v.ProtoReflect().Descriptor().FullName(), b)
	default:
		return fmt.Sprintf("%T:%v", v, v)
	}
}

// List turns a typed slice into a list value.
func List[T any](s []T) []any {
	r := make([]any, len(s))
	for i := range s {
		r[i] = any(s[i])
	}
	return r
}

// UnList turns a list value into a typed slice.
func UnList[T any](v any) []T {
	l := v.([]any)
	if len(l) == 0 {
		return nil
	}
	r := make([]T, len(l))
	for i := range l {
		r[i] = l[i].(T)
	}
	return r
}

// Compute is what plugin function fn does with its arguments.
func Compute(fn string, fails bool, ret Type, args []any, argTypes []Type, newMsg func() proto.Message) (any, error) {
	h := fnv.New64a()
	fmt.Fprint(h, fn)
	var same []any
	for i, a := range args {
		fmt.Fprintf(h, "|%s", Canon(a))
		if argTypes[i] == ret {
			same = append(same, a)
		}
	}
	r := rand.New(rand.NewSource(int64(h.Sum64())))
	if fails && r.Intn(4) == 0 {
		if r.Intn(8) == 0 {
			return nil, errors.New("")
		}
		return nil, errors.New(errTexts[r.Intn(len(errTexts))] + fmt.Sprintf(" #%x", h.Sum64()))
	}
	if len(same) > 0 && r.Intn(3) > 0 {
		return same[r.Intn(len(same))], nil
	}
	return Value(r, ret, newMsg), nil
}

var errTexts = []string{"plain", "100%s %d %!v", "two\nlines", "日本語 \u2028 \"quoted\" \\", "{\"value\":{\"int64\":\"1\"}}", strings.Repeat("long ", 2000), "exit\n", "tab\there <html> & co"}

var texts = []string{"", "a", "exit", "exit\n", "gc\n", "version\n", "line\nline\r\n", "nul\x00x", "日本語", "😀\u2028\u2029", "\"q\"\\", "%s%d", "<a href='x'>&</a>", "\t \b\f", "{}", "null", "\u007f\u0080\ufeff\ufffd"}

// Large lets strings be large.
var Large = true

// Value makes a value of the type.
func Value(r *rand.Rand, t Type, newMsg func() proto.Message) any {
	if t.List {
		n := []int{0, 1, 2, 3, 7, 40}[r.Intn(6)]
		l := make([]any, n)
		for i := range l {
			l[i] = Value(r, t.Elem(), newMsg)
		}
		return l
	}
	switch t.Kind {
	case "string":
		switch r.Intn(12) {
		case 0:
			return strings.Repeat(texts[r.Intn(len(texts))], 1+r.Intn(20))
		case 1: // around the sizes of buffers
			if r.Intn(8) == 0 && Large {
				return strings.Repeat("x", []int{4000, 4096, 8192, 65536}[r.Intn(4)]+r.Intn(100)-90)
			}
		case 2, 3, 4:
			return fmt.Sprintf("%s%d%s", texts[r.Intn(len(texts))], r.Int(), texts[r.Intn(len(texts))])
		}
		return texts[r.Intn(len(texts))]
	case "bool":
		return r.Intn(2) == 0
	case "int64":
		return []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1, math.MaxInt32 + 1, int64(r.Uint64()), int64(r.Uint64())}[r.Intn(10)]
	case "uint64":
		return []uint64{0, 1, math.MaxUint64, math.MaxInt64 + 1, 1<<53 + 1, math.MaxUint32 + 1, r.Uint64(), r.Uint64()}[r.Intn(8)]
	case "double":
		v := []float64{0, math.Copysign(0, -1), 1, -1.5, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 0.1, 1e21, float64(math.MaxInt64), math.Float64frombits(r.Uint64()), r.NormFloat64()}[r.Intn(14)]
		if v != v {
			v = math.NaN()
		}
		return v
	case "enum":
		return int32(r.Intn(4))
	case "duration":
		return &durationpb.Duration{Seconds: []int64{0, 1, -1, 9223372036, -9223372036, r.Int63n(1e9)}[r.Intn(6)]}
	case "timestamp":
		return &timestamppb.Timestamp{Seconds: []int64{0, 1, -1, 253402300799, -62135596800, r.Int63n(1e10)}[r.Intn(6)], Nanos: []int32{0, 1, 999999999, r.Int31n(1e9)}[r.Intn(4)]}
	case "message":
		m := newMsg()
		fill(r, m.ProtoReflect(), 2)
		return m
	}
	panic(t.Kind)
}

// fill sets random fields.
func fill(r *rand.Rand, m protoreflect.Message, depth int) {
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if r.Intn(2) == 0 {
			continue
		}
		switch {
		case f.IsMap():
			mp := m.Mutable(f).Map()
			for range r.Intn(3) {
				mp.Set(scalar(r, f.MapKey()).MapKey(), value(r, f.MapValue(), depth, mp.NewValue))
			}
		case f.IsList():
			l := m.Mutable(f).List()
			for range r.Intn(3) {
				l.Append(value(r, f, depth, l.NewElement))
			}
		case f.Message() != nil && depth == 0:
		default:
			m.Set(f, value(r, f, depth, func() protoreflect.Value { return m.NewField(f) }))
		}
	}
}

func value(r *rand.Rand, f protoreflect.FieldDescriptor, depth int, fresh func() protoreflect.Value) protoreflect.Value {
	if f.Message() != nil {
		v := fresh()
		if depth > 0 {
			if n := f.Message().FullName(); n == "google.protobuf.Timestamp" || n == "google.protobuf.Duration" {
				v.Message().Set(f.Message().Fields().ByNumber(1), protoreflect.ValueOfInt64(r.Int63n(9e9)))
				v.Message().Set(f.Message().Fields().ByNumber(2), protoreflect.ValueOfInt32(r.Int31n(1e9)))
				return v
			}
			fill(r, v.Message(), depth-1)
		}
		return v
	}
	return scalar(r, f)
}

func scalar(r *rand.Rand, f protoreflect.FieldDescriptor) protoreflect.Value {
	switch f.Kind() {
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(texts[r.Intn(len(texts))] + strings.Repeat("z", r.Intn(5)))
	case protoreflect.BytesKind:
		b := make([]byte, r.Intn(20))
		binary.BigEndian.PutUint64(append(b, make([]byte, 8)...)[:8], r.Uint64())
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
		return protoreflect.ValueOfBytes(b)
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(r.Intn(2) == 0)
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(r.Intn(4)))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(r.Uint32()))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(r.Uint32())
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(Value(r, Type{Kind: "int64"}, nil).(int64))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(Value(r, Type{Kind: "uint64"}, nil).(uint64))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(r.NormFloat64()))
	case protoreflect.DoubleKind:
		// copies of a message lose the sign of zero
		return protoreflect.ValueOfFloat64(Value(r, Type{Kind: "double"}, nil).(float64) + 0)
	}
	panic(f.Kind())
}

// FillRequest sets random fields of a request.
func FillRequest(r *rand.Rand, m proto.Message) { fill(r, m.ProtoReflect(), 3) }
