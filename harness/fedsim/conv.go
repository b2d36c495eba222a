package fedsim

import (
	"fmt"

	"google.golang.org/protobuf/reflect/protoreflect"
)

// Get returns a field value or nil when unset.
func (m *MsgV) Get(name string) Value {
	if v, ok := m.F[name]; ok {
		return v
	}
	if v, ok := m.F["!"+name]; ok {
		return v
	}
	return nil
}

// FromProto converts a real message into a model value.
func FromProto(m protoreflect.Message) *MsgV {
	r := NewMsg(string(m.Descriptor().FullName()))
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		name := string(fd.Name())
		switch {
		case fd.IsMap():
			mv := map[string]Value{}
			v.Map().Range(func(k protoreflect.MapKey, vv protoreflect.Value) bool {
				mv[k.String()] = single(fd.MapValue(), vv)
				return true
			})
			r.F[name] = mv
		case fd.IsList():
			l := v.List()
			lv := make([]Value, 0, l.Len())
			for i := 0; i < l.Len(); i++ {
				lv = append(lv, single(fd, l.Get(i)))
			}
			r.F[name] = lv
		default:
			if fd.HasPresence() && fd.Kind() != protoreflect.MessageKind {
				name = "!" + name
			} else if fd.ContainingOneof() != nil {
				name = "!" + name
			}
			r.F[name] = single(fd, v)
		}
		return true
	})
	return r
}

func single(fd protoreflect.FieldDescriptor, v protoreflect.Value) Value {
	switch fd.Kind() {
	case protoreflect.StringKind:
		return v.String()
	case protoreflect.BoolKind:
		return v.Bool()
	case protoreflect.BytesKind:
		return Bytes(v.Bytes())
	case protoreflect.EnumKind:
		return int64(v.Enum())
	case protoreflect.MessageKind:
		if !v.Message().IsValid() {
			return Null{}
		}
		return FromProto(v.Message())
	case protoreflect.DoubleKind, protoreflect.FloatKind:
		return v.Float()
	case protoreflect.Uint32Kind, protoreflect.Uint64Kind, protoreflect.Fixed32Kind, protoreflect.Fixed64Kind:
		return v.Uint()
	default:
		return v.Int()
	}
}

// ToProto fills m from a model value.
func ToProto(v *MsgV, m protoreflect.Message) {
	for k, fv := range v.F {
		name := k
		if name[0] == '!' {
			name = name[1:]
		}
		fd := m.Descriptor().Fields().ByName(protoreflect.Name(name))
		if fd == nil {
			panic(fmt.Sprintf("no field %s in %s", name, m.Descriptor().FullName()))
		}
		if _, ok := fv.(Null); ok {
			continue
		}
		switch {
		case fd.IsMap():
			mm := m.Mutable(fd).Map()
			for mk, mv := range fv.(map[string]Value) {
				var key protoreflect.MapKey
				switch fd.MapKey().Kind() {
				case protoreflect.StringKind:
					key = protoreflect.ValueOfString(mk).MapKey()
				default:
					panic("map key kind")
				}
				if fd.MapValue().Kind() == protoreflect.MessageKind {
					nv := mm.NewValue()
					ToProto(mv.(*MsgV), nv.Message())
					mm.Set(key, nv)
				} else {
					mm.Set(key, toScalar(fd.MapValue(), mv))
				}
			}
		case fd.IsList():
			l := m.Mutable(fd).List()
			for _, e := range fv.([]Value) {
				if fd.Kind() == protoreflect.MessageKind {
					nv := l.NewElement()
					ToProto(e.(*MsgV), nv.Message())
					l.Append(nv)
				} else {
					l.Append(toScalar(fd, e))
				}
			}
		case fd.Kind() == protoreflect.MessageKind:
			ToProto(fv.(*MsgV), m.Mutable(fd).Message())
		default:
			m.Set(fd, toScalar(fd, fv))
		}
	}
}

func toScalar(fd protoreflect.FieldDescriptor, v Value) protoreflect.Value {
	switch fd.Kind() {
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(v.(string))
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(v.(bool))
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes([]byte(v.(Bytes)))
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(v.(int64)))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(v.(float64))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(v.(float64)))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(v.(uint64))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(v.(uint64)))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(v.(int64)))
	default:
		return protoreflect.ValueOfInt64(v.(int64))
	}
}
