package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/bufbuild/protocompile/ast"
	"github.com/bufbuild/protocompile/parser"
	"github.com/bufbuild/protocompile/reporter"

	"github.com/mercari/grpc-federation/source"
)

// elem is an element of a file that a location can name, with the text that is that element.
type elem struct {
	loc    *source.Location
	node   ast.Node
	kind   string
	lookup bool // a position on it leads back to it
}

// walker collects the elements of a file from its syntax tree, on its own.
type walker struct {
	name  string
	file  *ast.FileNode
	elems []elem
}

func parses(name, text string) bool {
	var err error
	func() {
		defer func() {
			if x := recover(); x != nil {
				err = fmt.Errorf("%v", x)
			}
		}()
		_, err = parser.Parse(name, bytes.NewBufferString(text), reporter.NewHandler(nil))
	}()
	return err == nil
}

func (w *walker) add(kind string, lookup bool, node ast.Node, loc *source.Location) {
	w.elems = append(w.elems, elem{loc: loc, node: node, kind: kind, lookup: lookup})
}

func optName(n *ast.OptionNode) string {
	var p []string
	for _, x := range n.Name.Parts {
		p = append(p, strings.TrimPrefix(string(x.Name.AsIdentifier()), "."))
	}
	return strings.Join(p, ".")
}

func literals(v ast.Node) []*ast.MessageLiteralNode {
	switch v := v.(type) {
	case *ast.MessageLiteralNode:
		return []*ast.MessageLiteralNode{v}
	case *ast.ArrayLiteralNode:
		var l []*ast.MessageLiteralNode
		for _, e := range v.Elements {
			if m, ok := e.(*ast.MessageLiteralNode); ok {
				l = append(l, m)
			} else {
				return nil
			}
		}
		return l
	}
	return nil
}

func fieldsOf(lit *ast.MessageLiteralNode, name string) []*ast.MessageFieldNode {
	var l []*ast.MessageFieldNode
	for _, e := range lit.Elements {
		if string(e.Name.Name.AsIdentifier()) == name {
			l = append(l, e)
		}
	}
	return l
}

// all elements of the repeated field, in whatever way it is written.
func repeatedField(lit *ast.MessageLiteralNode, name string) []*ast.MessageLiteralNode {
	var l []*ast.MessageLiteralNode
	for _, f := range fieldsOf(lit, name) {
		l = append(l, literals(f.Val)...)
	}
	return l
}

// one is the value of a field that is set once.
func one(lit *ast.MessageLiteralNode, name string) ast.Node {
	if l := fieldsOf(lit, name); len(l) == 1 {
		return l[0].Val
	}
	return nil
}

func oneStr(lit *ast.MessageLiteralNode, name string) ast.Node {
	if s, ok := one(lit, name).(*ast.StringLiteralNode); ok {
		return s
	}
	return nil
}

func oneLit(lit *ast.MessageLiteralNode, name string) *ast.MessageLiteralNode {
	m, _ := one(lit, name).(*ast.MessageLiteralNode)
	return m
}

type mk[T any] func(T) *source.Location

func (w *walker) defs(list []*ast.MessageLiteralNode, top bool, f mk[*source.VariableDefinitionOption]) {
	type O = source.VariableDefinitionOption
	for i, d := range list {
		for _, k := range []struct {
			n string
			o *O
		}{{"name", &O{Idx: i, Name: true}}, {"if", &O{Idx: i, If: true}}, {"by", &O{Idx: i, By: true}}} {
			if v := oneStr(d, k.n); v != nil {
				w.add("def."+k.n, top, v, f(k.o))
			}
		}
		if v := oneLit(d, "call"); v != nil {
			w.call(v, top, func(o *source.CallExprOption) *source.Location { return f(&O{Idx: i, Call: o}) })
		}
		if v := oneLit(d, "message"); v != nil {
			w.message(v, top, func(o *source.MessageExprOption) *source.Location { return f(&O{Idx: i, Message: o}) })
		}
		if v := oneLit(d, "map"); v != nil {
			w.mapExpr(v, func(o *source.MapExprOption) *source.Location { return f(&O{Idx: i, Map: o}) })
		}
		if v := oneLit(d, "enum"); v != nil {
			w.enumExpr(v, func(o *source.EnumExprOption) *source.Location { return f(&O{Idx: i, Enum: o}) })
		}
		if v := oneLit(d, "validation"); v != nil {
			if n := oneStr(v, "name"); n != nil {
				w.add("validation.name", false, n, f(&O{Idx: i, Validation: &source.ValidationExprOption{Name: true}}))
			}
			if e := oneLit(v, "error"); e != nil {
				w.errors([]*ast.MessageLiteralNode{e}, func(o *source.GRPCErrorOption) *source.Location {
					return f(&O{Idx: i, Validation: &source.ValidationExprOption{Error: o}})
				})
			}
		}
		w.add("def", false, d, f(&O{Idx: i}))
	}
}

func (w *walker) message(lit *ast.MessageLiteralNode, top bool, f mk[*source.MessageExprOption]) {
	if v := oneStr(lit, "name"); v != nil {
		w.add("message.name", top, v, f(&source.MessageExprOption{Name: true}))
	}
	for i, a := range repeatedField(lit, "args") {
		if v := oneStr(a, "name"); v != nil {
			w.add("args.name", top, v, f(&source.MessageExprOption{Args: &source.ArgumentOption{Idx: i, Name: true}}))
		}
		if v := oneStr(a, "by"); v != nil {
			w.add("args.by", top, v, f(&source.MessageExprOption{Args: &source.ArgumentOption{Idx: i, By: true}}))
		}
		if v := oneStr(a, "inline"); v != nil {
			w.add("args.inline", top, v, f(&source.MessageExprOption{Args: &source.ArgumentOption{Idx: i, Inline: true}}))
		}
		w.add("args", false, a, f(&source.MessageExprOption{Args: &source.ArgumentOption{Idx: i}}))
	}
	w.add("message", false, lit, f(&source.MessageExprOption{}))
}

func (w *walker) enumExpr(lit *ast.MessageLiteralNode, f mk[*source.EnumExprOption]) {
	if v := oneStr(lit, "name"); v != nil {
		w.add("enum.name", false, v, f(&source.EnumExprOption{Name: true}))
	}
	if v := oneStr(lit, "by"); v != nil {
		w.add("enum.by", false, v, f(&source.EnumExprOption{By: true}))
	}
}

func (w *walker) mapExpr(lit *ast.MessageLiteralNode, f mk[*source.MapExprOption]) {
	if it := oneLit(lit, "iterator"); it != nil {
		if v := oneStr(it, "name"); v != nil {
			w.add("iterator.name", false, v, f(&source.MapExprOption{Iterator: &source.IteratorOption{Name: true}}))
		}
		if v := oneStr(it, "src"); v != nil {
			w.add("iterator.src", false, v, f(&source.MapExprOption{Iterator: &source.IteratorOption{Source: true}}))
		}
	}
	if v := oneStr(lit, "by"); v != nil {
		w.add("map.by", false, v, f(&source.MapExprOption{By: true}))
	}
	if v := oneLit(lit, "message"); v != nil {
		w.message(v, false, func(o *source.MessageExprOption) *source.Location { return f(&source.MapExprOption{Message: o}) })
	}
	if v := oneLit(lit, "enum"); v != nil {
		w.enumExpr(v, func(o *source.EnumExprOption) *source.Location { return f(&source.MapExprOption{Enum: o}) })
	}
	w.add("map", false, lit, f(&source.MapExprOption{}))
}

func (w *walker) call(lit *ast.MessageLiteralNode, top bool, f mk[*source.CallExprOption]) {
	type O = source.CallExprOption
	if v := oneStr(lit, "method"); v != nil {
		w.add("call.method", top, v, f(&O{Method: true}))
	}
	if v := one(lit, "timeout"); v != nil {
		w.add("call.timeout", false, v, f(&O{Timeout: true}))
	}
	for i, r := range repeatedField(lit, "request") {
		if v := oneStr(r, "field"); v != nil {
			w.add("request.field", top, v, f(&O{Request: &source.RequestOption{Idx: i, Field: true}}))
		}
		if v := oneStr(r, "by"); v != nil {
			w.add("request.by", top, v, f(&O{Request: &source.RequestOption{Idx: i, By: true}}))
		}
		if v := oneStr(r, "if"); v != nil {
			w.add("request.if", top, v, f(&O{Request: &source.RequestOption{Idx: i, If: true}}))
		}
		w.add("request", false, r, f(&O{Request: &source.RequestOption{Idx: i}}))
	}
	if r := oneLit(lit, "retry"); r != nil {
		if v := oneStr(r, "if"); v != nil {
			w.add("retry.if", false, v, f(&O{Retry: &source.RetryOption{If: true}}))
		}
		if c := oneLit(r, "constant"); c != nil {
			if v := one(c, "interval"); v != nil {
				w.add("retry.interval", false, v, f(&O{Retry: &source.RetryOption{Constant: &source.RetryConstantOption{Interval: true}}}))
			}
			if v := one(c, "max_retries"); v != nil {
				w.add("retry.max_retries", false, v, f(&O{Retry: &source.RetryOption{Constant: &source.RetryConstantOption{MaxRetries: true}}}))
			}
		}
		if c := oneLit(r, "exponential"); c != nil {
			for n, o := range map[string]*source.RetryExponentialOption{"initial_interval": {InitialInterval: true}, "randomization_factor": {RandomizationFactor: true}, "multiplier": {Multiplier: true}, "max_interval": {MaxInterval: true}, "max_retries": {MaxRetries: true}} {
				if v := one(c, n); v != nil {
					w.add("retry."+n, false, v, f(&O{Retry: &source.RetryOption{Exponential: o}}))
				}
			}
		}
	}
	w.errors(repeatedField(lit, "error"), func(o *source.GRPCErrorOption) *source.Location { return f(&O{Error: o}) })
	w.add("call", false, lit, f(&O{}))
}

func (w *walker) errors(list []*ast.MessageLiteralNode, f mk[*source.GRPCErrorOption]) {
	type O = source.GRPCErrorOption
	for i, e := range list {
		if v := oneStr(e, "if"); v != nil {
			w.add("error.if", false, v, f(&O{Idx: i, If: true}))
		}
		if v := one(e, "code"); v != nil {
			w.add("error.code", false, v, f(&O{Idx: i, Code: true}))
		}
		if v := oneStr(e, "message"); v != nil {
			w.add("error.message", false, v, f(&O{Idx: i, Message: true}))
		}
		if v := one(e, "ignore"); v != nil {
			if _, ok := v.(*ast.IdentNode); ok {
				w.add("error.ignore", false, v, f(&O{Idx: i, Ignore: true}))
			}
		}
		if v := oneStr(e, "ignore_and_response"); v != nil {
			w.add("error.ignore_and_response", false, v, f(&O{Idx: i, IgnoreAndResponse: true}))
		}
		w.defs(repeatedField(e, "def"), false, func(d *source.VariableDefinitionOption) *source.Location { return f(&O{Idx: i, Def: d}) })
		for j, d := range repeatedField(e, "details") {
			type D = source.GRPCErrorDetailOption
			det := func(d *D) *source.Location { d.Idx = j; return f(&O{Idx: i, Detail: d}) }
			if v := oneStr(d, "if"); v != nil {
				w.add("details.if", false, v, det(&D{If: true}))
			}
			if v := oneStr(d, "by"); v != nil {
				w.add("details.by", false, v, det(&D{By: true}))
			}
			w.defs(repeatedField(d, "def"), false, func(v *source.VariableDefinitionOption) *source.Location { return det(&D{Def: v}) })
			for k, m := range repeatedField(d, "message") {
				w.message(m, false, func(o *source.MessageExprOption) *source.Location {
					return det(&D{Message: &source.VariableDefinitionOption{Idx: k, Message: o}})
				})
			}
			for k, p := range repeatedField(d, "precondition_failure") {
				for l, v := range repeatedField(p, "violations") {
					for _, n := range []string{"type", "subject", "description"} {
						if s := oneStr(v, n); s != nil {
							w.add("violation."+n, false, s, det(&D{PreconditionFailure: &source.GRPCErrorDetailPreconditionFailureOption{Idx: k, Violation: source.GRPCErrorDetailPreconditionFailureViolationOption{Idx: l, FieldName: n}}}))
						}
					}
				}
			}
			for k, p := range repeatedField(d, "bad_request") {
				for l, v := range repeatedField(p, "field_violations") {
					for _, n := range []string{"field", "description"} {
						if s := oneStr(v, n); s != nil {
							w.add("field_violation."+n, false, s, det(&D{BadRequest: &source.GRPCErrorDetailBadRequestOption{Idx: k, FieldViolation: source.GRPCErrorDetailBadRequestFieldViolationOption{Idx: l, FieldName: n}}}))
						}
					}
				}
			}
			for k, p := range repeatedField(d, "localized_message") {
				for _, n := range []string{"locale", "message"} {
					if s := oneStr(p, n); s != nil {
						w.add("localized."+n, false, s, det(&D{LocalizedMessage: &source.GRPCErrorDetailLocalizedMessageOption{Idx: k, FieldName: n}}))
					}
				}
			}
			w.add("details", false, d, det(&D{}))
		}
		w.add("error", false, e, f(&O{Idx: i}))
	}
}

func (w *walker) field(n ast.FieldDeclNode, opts *ast.CompactOptionsNode, f mk[*source.Field]) {
	name := string(n.FieldName().(*ast.IdentNode).AsIdentifier())
	if fn, ok := n.(*ast.FieldNode); ok {
		w.add("field.type", true, fn.FldType, f(&source.Field{Name: name, Type: true}))
	}
	w.add("field", false, n, f(&source.Field{Name: name}))
	if opts == nil {
		return
	}
	opt := func(o *source.FieldOption) *source.Location { return f(&source.Field{Name: name, Option: o}) }
	oneof := func(lit *ast.MessageLiteralNode) {
		if v := oneStr(lit, "if"); v != nil {
			w.add("oneof.if", false, v, opt(&source.FieldOption{Oneof: &source.FieldOneof{If: true}}))
		}
		if v := oneStr(lit, "by"); v != nil {
			w.add("oneof.by", false, v, opt(&source.FieldOption{Oneof: &source.FieldOneof{By: true}}))
		}
		if v := one(lit, "default"); v != nil {
			w.add("oneof.default", false, v, opt(&source.FieldOption{Oneof: &source.FieldOneof{Default: true}}))
		}
		w.defs(repeatedField(lit, "def"), false, func(d *source.VariableDefinitionOption) *source.Location {
			return opt(&source.FieldOption{Oneof: &source.FieldOneof{Def: d}})
		})
	}
	for _, o := range opts.Options {
		switch optName(o) {
		case "grpc.federation.field.by":
			if v, ok := o.Val.(*ast.StringLiteralNode); ok {
				w.add("field.by", true, v, opt(&source.FieldOption{By: true}))
			}
		case "grpc.federation.field.alias":
			if v, ok := o.Val.(*ast.StringLiteralNode); ok {
				w.add("field.alias", false, v, opt(&source.FieldOption{Alias: true}))
			}
		case "grpc.federation.field.oneof":
			if v, ok := o.Val.(*ast.MessageLiteralNode); ok {
				oneof(v)
			}
		case "grpc.federation.field":
			v, ok := o.Val.(*ast.MessageLiteralNode)
			if !ok {
				continue
			}
			if s := oneStr(v, "by"); s != nil {
				w.add("field.by", true, s, opt(&source.FieldOption{By: true}))
			}
			if s := oneStr(v, "alias"); s != nil {
				w.add("field.alias", false, s, opt(&source.FieldOption{Alias: true}))
			}
			if l := oneLit(v, "oneof"); l != nil {
				oneof(l)
			}
		}
	}
}

func (w *walker) enum(n *ast.EnumNode, nested bool, f mk[*source.Enum]) {
	name := string(n.Name.AsIdentifier())
	w.add("enum", false, n, f(&source.Enum{Name: name}))
	for _, d := range n.Decls {
		switch d := d.(type) {
		case *ast.OptionNode:
			switch optName(d) {
			case "grpc.federation.enum.alias":
				w.add("enum.alias", nested, d.Val, f(&source.Enum{Name: name, Option: &source.EnumOption{Alias: true}}))
			case "grpc.federation.enum":
				if l, ok := d.Val.(*ast.MessageLiteralNode); ok {
					if s := one(l, "alias"); s != nil {
						_, str := s.(*ast.StringLiteralNode)
						w.add("enum.alias", nested && str, s, f(&source.Enum{Name: name, Option: &source.EnumOption{Alias: true}}))
					}
				}
			}
		case *ast.EnumValueNode:
			val := string(d.Name.AsIdentifier())
			mkv := func(o *source.EnumValueOption) *source.Location {
				return f(&source.Enum{Name: name, Value: &source.EnumValue{Value: val, Option: o}})
			}
			w.add("enum_value", false, d, mkv(nil))
			if d.Options == nil {
				continue
			}
			for _, o := range d.Options.Options {
				switch optName(o) {
				case "grpc.federation.enum_value.alias":
					w.add("enum_value.alias", nested, o.Val, mkv(&source.EnumValueOption{Alias: true}))
				case "grpc.federation.enum_value.default":
					w.add("enum_value.default", false, o.Val, mkv(&source.EnumValueOption{Default: true}))
				case "grpc.federation.enum_value":
					l, ok := o.Val.(*ast.MessageLiteralNode)
					if !ok {
						continue
					}
					if s := one(l, "alias"); s != nil {
						w.add("enum_value.alias", nested, s, mkv(&source.EnumValueOption{Alias: true}))
					}
					if s := one(l, "default"); s != nil {
						w.add("enum_value.default", false, s, mkv(&source.EnumValueOption{Default: true}))
					}
					for i, a := range repeatedField(l, "attr") {
						if s := oneStr(a, "name"); s != nil {
							w.add("attr.name", false, s, mkv(&source.EnumValueOption{Attr: &source.EnumValueAttribute{Idx: i, Name: true}}))
						}
						if s := oneStr(a, "value"); s != nil {
							w.add("attr.value", false, s, mkv(&source.EnumValueOption{Attr: &source.EnumValueAttribute{Idx: i, Value: true}}))
						}
					}
				}
			}
		}
	}
}

func (w *walker) msg(n *ast.MessageNode, f mk[*source.Message]) {
	name := string(n.Name.AsIdentifier())
	w.add("msg", false, n, f(&source.Message{Name: name}))
	full := 0
	for _, d := range n.Decls {
		if o, ok := d.(*ast.OptionNode); ok && optName(o) == "grpc.federation.message" {
			full++
		}
	}
	field := func(fd *source.Field) *source.Location { return f(&source.Message{Name: name, Field: fd}) }
	var defs []*ast.MessageLiteralNode
	for _, d := range n.Decls {
		switch d := d.(type) {
		case *ast.OptionNode:
			switch optName(d) {
			case "grpc.federation.message.alias":
				_, str := d.Val.(*ast.StringLiteralNode)
				w.add("message.alias", str, d.Val, f(&source.Message{Name: name, Option: &source.MessageOption{Alias: true}}))
			case "grpc.federation.message":
				l, ok := d.Val.(*ast.MessageLiteralNode)
				if !ok || full > 1 {
					continue
				}
				if s := one(l, "alias"); s != nil {
					w.add("message.alias", true, s, f(&source.Message{Name: name, Option: &source.MessageOption{Alias: true}}))
				}
				defs = append(defs, repeatedField(l, "def")...)
			case "grpc.federation.message.def":
				defs = append(defs, literals(d.Val)...)
			}
		case *ast.FieldNode:
			w.field(d, d.Options, field)
		case *ast.MapFieldNode:
			w.field(d, d.Options, field)
		case *ast.OneofNode:
			for _, x := range d.Decls {
				if fd, ok := x.(*ast.FieldNode); ok {
					w.field(fd, fd.Options, field)
				}
			}
		case *ast.EnumNode:
			w.enum(d, true, func(e *source.Enum) *source.Location { return f(&source.Message{Name: name, Enum: e}) })
		case *ast.MessageNode:
			w.msg(d, func(m *source.Message) *source.Location { return f(&source.Message{Name: name, NestedMessage: m}) })
		}
	}
	w.defs(defs, true, func(o *source.VariableDefinitionOption) *source.Location {
		return f(&source.Message{Name: name, Option: &source.MessageOption{Def: o}})
	})
}

func (w *walker) service(n *ast.ServiceNode) {
	name := n.Name.Val
	mkS := func(s *source.Service) *source.Location {
		s.Name = name
		return &source.Location{FileName: w.name, Service: s}
	}
	w.add("service", false, n, mkS(&source.Service{}))
	for _, d := range n.Decls {
		switch d := d.(type) {
		case *ast.OptionNode:
			l, ok := d.Val.(*ast.MessageLiteralNode)
			if !ok || optName(d) != "grpc.federation.service" {
				continue
			}
			opt := func(o *source.ServiceOption) *source.Location { return mkS(&source.Service{Option: o}) }
			if e := oneLit(l, "env"); e != nil {
				if s := oneStr(e, "message"); s != nil {
					w.add("env.message", false, s, opt(&source.ServiceOption{Env: &source.Env{Message: true}}))
				}
				for i, v := range repeatedField(e, "var") {
					ev := func(o *source.EnvVar) *source.Location {
						o.Idx = i
						return opt(&source.ServiceOption{Env: &source.Env{Var: o}})
					}
					if s := oneStr(v, "name"); s != nil {
						w.add("env.name", false, s, ev(&source.EnvVar{Name: true}))
					}
					if s := oneLit(v, "type"); s != nil {
						w.add("env.type", false, s, ev(&source.EnvVar{Type: true}))
					}
					if o := oneLit(v, "option"); o != nil {
						for k, x := range map[string]*source.EnvVarOption{"alternate": {Alternate: true}, "default": {Default: true}, "required": {Required: true}, "ignored": {Ignored: true}} {
							if s := one(o, k); s != nil {
								w.add("env."+k, false, s, ev(&source.EnvVar{Option: x}))
							}
						}
					}
				}
			}
			for i, v := range repeatedField(l, "var") {
				sv := func(o *source.ServiceVariable) *source.Location {
					o.Idx = i
					return opt(&source.ServiceOption{Var: o})
				}
				if s := oneStr(v, "name"); s != nil {
					w.add("var.name", false, s, sv(&source.ServiceVariable{Name: true}))
				}
				if s := oneStr(v, "if"); s != nil {
					w.add("var.if", false, s, sv(&source.ServiceVariable{If: true}))
				}
				if s := oneStr(v, "by"); s != nil {
					w.add("var.by", false, s, sv(&source.ServiceVariable{By: true}))
				}
				if x := oneLit(v, "map"); x != nil {
					w.mapExpr(x, func(o *source.MapExprOption) *source.Location { return sv(&source.ServiceVariable{Map: o}) })
				}
				if x := oneLit(v, "message"); x != nil {
					w.message(x, false, func(o *source.MessageExprOption) *source.Location { return sv(&source.ServiceVariable{Message: o}) })
				}
				if x := oneLit(v, "enum"); x != nil {
					w.enumExpr(x, func(o *source.EnumExprOption) *source.Location { return sv(&source.ServiceVariable{Enum: o}) })
				}
				if x := oneLit(v, "validation"); x != nil {
					if s := oneStr(x, "if"); s != nil {
						w.add("var.validation.if", false, s, sv(&source.ServiceVariable{Validation: &source.ServiceVariableValidationExpr{If: true}}))
					}
					if s := oneStr(x, "message"); s != nil {
						w.add("var.validation.message", false, s, sv(&source.ServiceVariable{Validation: &source.ServiceVariableValidationExpr{Message: true}}))
					}
				}
			}
		case *ast.RPCNode:
			mkM := func(m *source.Method) *source.Location { m.Name = d.Name.Val; return mkS(&source.Service{Method: m}) }
			w.add("method", false, d, mkM(&source.Method{}))
			for _, x := range d.Decls {
				o, ok := x.(*ast.OptionNode)
				if !ok {
					continue
				}
				switch optName(o) {
				case "grpc.federation.method.timeout":
					w.add("method.timeout", true, o.Val, mkM(&source.Method{Option: &source.MethodOption{Timeout: true}}))
				case "grpc.federation.method.response":
					w.add("method.response", false, o.Val, mkM(&source.Method{Option: &source.MethodOption{Response: true}}))
				case "grpc.federation.method":
					if l, ok := o.Val.(*ast.MessageLiteralNode); ok {
						if s := oneStr(l, "timeout"); s != nil {
							w.add("method.timeout", true, s, mkM(&source.Method{Option: &source.MethodOption{Timeout: true}}))
						}
						if s := oneStr(l, "response"); s != nil {
							w.add("method.response", false, s, mkM(&source.Method{Option: &source.MethodOption{Response: true}}))
						}
					}
				}
			}
		}
	}
}

func (w *walker) walk() {
	for _, d := range w.file.Decls {
		switch d := d.(type) {
		case *ast.ImportNode:
			w.add("import", true, d.Name, &source.Location{FileName: w.name, ImportName: d.Name.AsString()})
		case *ast.OptionNode:
			if optName(d) == "go_package" {
				w.add("go_package", false, d.Val, &source.Location{FileName: w.name, GoPackage: true})
			}
		case *ast.MessageNode:
			w.msg(d, func(m *source.Message) *source.Location { return &source.Location{FileName: w.name, Message: m} })
		case *ast.EnumNode:
			w.enum(d, false, func(e *source.Enum) *source.Location { return &source.Location{FileName: w.name, Enum: e} })
		case *ast.ServiceNode:
			w.service(d)
		}
	}
}
