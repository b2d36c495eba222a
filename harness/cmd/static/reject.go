package main

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"sync"

	"github.com/bufbuild/protocompile/ast"
	"google.golang.org/protobuf/types/descriptorpb"

	"github.com/mercari/grpc-federation/compiler"
	"github.com/mercari/grpc-federation/source"
	"github.com/mercari/grpc-federation/validator"

	"verifharness/fedenv"
	"verifharness/fedgraph"
)

// reject: definitions made ill-formed at one element are rejected, with a position there.

var exprKinds = map[string]string{ // kinds that hold an expression; the type it must have
	"def.by": "", "def.if": "bool", "args.by": "", "args.inline": "", "request.by": "", "request.if": "bool", "retry.if": "bool", "map.by": "", "enum.by": "",
	"error.if": "bool", "error.message": "string", "error.ignore_and_response": "", "details.if": "bool", "details.by": "", "oneof.if": "bool", "oneof.by": "", "field.by": "",
	"var.by": "", "var.if": "bool", "var.validation.if": "bool", "var.validation.message": "string",
	"violation.type": "string", "violation.subject": "string", "violation.description": "string", "field_violation.field": "string", "field_violation.description": "string", "localized.message": "string",
}

var wrongType = map[string]string{"string": "1", "bool": "'x'", "bytes": "1", "double": "'x'", "float": "'x'", "int32": "'x'", "int64": "'x'", "uint32": "'x'", "uint64": "'x'", "sint32": "'x'", "sint64": "'x'", "fixed32": "'x'", "fixed64": "'x'", "sfixed32": "'x'", "sfixed64": "'x'", "message": "b'x'", "enum": "b'x'"}

type badness struct {
	op, text string
	also     *elem // another element that is replaced too
	alsoText string
}

// breakings are replacements of the text of the element that make the file ill-formed.
func breakings(e elem, f *rejFile) []badness {
	q := strconv.Quote
	var out []badness
	if want, ok := exprKinds[e.kind]; ok {
		out = append(out, badness{op: "unknown variable", text: q("no_such_variable_x")}, badness{op: "syntax", text: q("1 +")}, badness{op: "unknown function", text: q("no_such_function_x(1)")}, badness{op: "operand types", text: q("1 + 'a'")},
			badness{op: "unknown argument", text: q("$.no_such_argument_x")}, badness{op: "unknown field", text: q("grpc.federation.time.unix(1, 1).no_such_member_x")})
		if want != "" {
			out = append(out, badness{op: "type " + want, text: q(wrongType[want])}, badness{op: "type list", text: q("[1]")})
		}
	}
	switch e.kind {
	case "call.method":
		s := text(e.node)
		out = append(out, badness{op: "unknown service", text: q("nosuch.Svc/Get")}, badness{op: "no method", text: q("nosuch")})
		if i := strings.Index(s, "/"); i > 0 {
			out = append(out, badness{op: "unknown method", text: q(s[:i] + "/NoSuchMethodX")})
		}
	case "request.field":
		out = append(out, badness{op: "unknown request field", text: q("no_such_field_x")})
	case "message.name":
		out = append(out, badness{op: "unknown message", text: q("NoSuchMessageX")}, badness{op: "unknown message", text: q("nosuch.pkg.MessageX")})
	case "enum.name":
		out = append(out, badness{op: "unknown enum", text: q("NoSuchEnumX")})
	case "message.alias", "enum.alias":
		out = append(out, badness{op: "unknown alias", text: q("nosuch.pkg.TypeX")})
	case "enum_value.alias":
		if _, ok := e.node.(*ast.StringLiteralNode); ok {
			out = append(out, badness{op: "unknown value alias", text: q("NO_SUCH_VALUE_X")})
		}
	case "field.alias":
		out = append(out, badness{op: "unknown field alias", text: q("no_such_field_x")})
	case "iterator.src":
		out = append(out, badness{op: "unknown list", text: q("no_such_list_x")})
	case "call.timeout", "method.timeout", "retry.interval", "retry.initial_interval", "retry.max_interval":
		out = append(out, badness{op: "duration", text: q("soon")}, badness{op: "duration", text: q("10")})
	case "method.response":
		out = append(out, badness{op: "unknown response", text: q("NoSuchMessageX")})
	case "import":
		out = append(out, badness{op: "unknown import", text: q("no/such/file_x.proto")})
	case "def.name":
		name := text(e.node)
		if name != "" && f.uses(e, name) {
			out = append(out, badness{op: "variable defined under another name", text: q("renamed_definition_x")})
		}
		out = append(out, badness{op: "name of variable", text: q("no good")}, badness{op: "name of variable", text: q("1x")})
		for _, x := range f.scope[f.key(e)] { // the definitions of the message itself share one scope
			if n := text(x.node); x.kind == "def.name" && x.node != e.node && x.lookup && e.lookup && n != "" && f.owner(x) == f.owner(e) {
				out = append(out, badness{op: "name of another definition", text: q(n)})
				break
			}
		}
	case "def.by":
		for _, x := range f.scope[f.key(e)] {
			if n := text(x.node); x.kind == "def.name" && n != "" && sameDef(x.loc, e.loc) {
				out = append(out, badness{op: "own name", text: q(n)})
				for _, y := range f.scope[f.key(e)] {
					if y.kind != "def.by" || y.node == e.node || !y.lookup || !e.lookup || f.owner(y) != f.owner(e) {
						continue
					}
					for _, z := range f.scope[f.key(e)] {
						if m := text(z.node); z.kind == "def.name" && m != "" && m != n && sameDef(z.loc, y.loc) {
							out = append(out, badness{op: "definitions of each other", text: q(m), also: &y, alsoText: q(n)})
						}
					}
				}
			}
		}
	case "request.by", "field.by":
		t := ""
		if e.kind == "request.by" {
			t = f.requestType(e)
		} else {
			t = f.fieldType(e)
		}
		if strings.HasPrefix(t, "repeated ") {
			out = append(out, badness{op: "type " + t, text: q("'x'")}, badness{op: "type " + t, text: q("1")})
		} else if w := wrongType[t]; w != "" || isTypeName(t) {
			if w == "" {
				w = wrongType["message"]
			}
			out = append(out, badness{op: "type " + t, text: q(w)}, badness{op: "type " + t, text: q("[true]")})
		}
	}
	aliased := slices.ContainsFunc(f.scope[f.key(e)], func(x elem) bool { return x.kind == "message.alias" })
	if e.kind == "field.by" && !f.autobind && !aliased {
		out = append(out, badness{op: "unbound field", text: ""})
	}
	return out
}

func isTypeName(t string) bool {
	return strings.Contains(t, ".") && !strings.HasPrefix(strings.TrimPrefix(t, "."), "google.protobuf.") && !strings.HasPrefix(t, "map")
}

func text(n ast.Node) string {
	if s, ok := n.(*ast.StringLiteralNode); ok {
		return s.Val
	}
	return ""
}

type rejFile struct {
	*file
	ast      *ast.FileNode
	elems    []elem
	protos   []*descriptorpb.FileDescriptorProto
	autobind bool
	scope    map[string][]elem // elements by message
}

func (f *rejFile) key(e elem) string {
	if e.loc.Message == nil {
		return ""
	}
	return strings.Join(e.loc.Message.MessageNames(), ".")
}

// uses tells whether another expression of the message mentions the variable.
func (f *rejFile) uses(e elem, name string) bool {
	re := regexp.MustCompile(`(^|[^A-Za-z0-9_.'"])` + regexp.QuoteMeta(name) + `($|[^A-Za-z0-9_'"(])`)
	for _, x := range f.scope[f.key(e)] {
		if _, ok := exprKinds[x.kind]; ok && x.node != e.node && re.MatchString(text(x.node)) && !strings.Contains(text(x.node), "'") && !strings.Contains(text(x.node), "|") {
			return true
		}
		if x.kind == "iterator.src" && text(x.node) == name {
			return true
		}
	}
	// the same name may be defined at several places
	return false
}

func (f *rejFile) fieldType(e elem) string {
	for _, x := range f.elems {
		if x.kind == "field.type" && x.loc.Message != nil && f.key(x) == f.key(e) && lastField(x) == lastField(e) {
			t := strings.TrimSpace(f.ast.NodeInfo(x.node).RawText())
			for _, y := range f.elems {
				if y.kind == "field" && f.key(y) == f.key(e) && lastField(y) == lastField(e) {
					if fn, ok := y.node.(*ast.FieldNode); ok && fn.Label.KeywordNode != nil && fn.Label.Val == "repeated" {
						return "repeated " + t
					}
				}
			}
			return t
		}
	}
	return ""
}

func lastField(e elem) string {
	m := e.loc.Message.LastNestedMessage()
	if m.Field == nil {
		return ""
	}
	return m.Field.Name
}

func (f *rejFile) requestType(e elem) string {
	// the method and field names stand beside the expression
	var method, field string
	for _, x := range f.elems {
		switch x.kind {
		case "call.method":
			if sameCall(x.loc, e.loc) {
				method = text(x.node)
			}
		case "request.field":
			if sameRequest(x.loc, e.loc) {
				field = text(x.node)
			}
		}
	}
	svc, name, ok := strings.Cut(method, "/")
	if !ok || field == "" {
		return ""
	}
	for _, p := range f.protos {
		for _, s := range p.GetService() {
			if p.GetPackage()+"."+s.GetName() != svc && !(s.GetName() == svc) {
				continue
			}
			for _, m := range s.GetMethod() {
				if m.GetName() != name {
					continue
				}
				for _, q := range f.protos {
					for _, msg := range q.GetMessageType() {
						if "."+q.GetPackage()+"."+msg.GetName() != m.GetInputType() {
							continue
						}
						for _, fd := range msg.GetField() {
							if fd.GetName() == field {
								if fd.GetLabel() == descriptorpb.FieldDescriptorProto_LABEL_REPEATED {
									return "repeated x"
								}
								return strings.ToLower(strings.TrimPrefix(fd.GetType().String(), "TYPE_"))
							}
						}
					}
				}
			}
		}
	}
	return ""
}

var reqRe = regexp.MustCompile(`"(Request|Method)":(null|false|true|\{[^}]*\})`)

func sameCall(a, b *source.Location) bool {
	strip := func(l *source.Location) string { return reqRe.ReplaceAllString(js(l), "") }
	return strip(a) == strip(b)
}

var reqKindRe = regexp.MustCompile(`"(Field|By|If)":(false|true)`)

func sameRequest(a, b *source.Location) bool {
	strip := func(l *source.Location) string { return reqKindRe.ReplaceAllString(js(l), "") }
	return strip(a) == strip(b)
}

var defKindRe = regexp.MustCompile(`"(Name|By|If)":(false|true)`)

func sameDef(a, b *source.Location) bool {
	strip := func(l *source.Location) string { return defKindRe.ReplaceAllString(js(l), "") }
	return strip(a) == strip(b)
}

// owner tells the block of definitions apart: those of the message and those of its fields.
func (f *rejFile) owner(e elem) string {
	if m := e.loc.Message; m != nil {
		if l := m.LastNestedMessage(); l.Field != nil {
			return "field " + l.Field.Name
		}
	}
	return ""
}

func rejFiles(ws []*workspace, scratch string, seed int64) []*rejFile {
	var fs []*file
	for _, w := range ws {
		fs = append(fs, w.fedFiles()...)
	}
	g := &workspace{name: "graph", dir: filepath.Join(scratch, "reject")}
	for i := range 12 {
		ts := fedgraph.At(seed, i).Texts()
		ts[fmt.Sprintf("env%d.proto", i)] = fedenv.Generate(seed, i).Proto()
		for _, name := range writeTexts(g.dir, ts) {
			if name != "gdep/gdep.proto" {
				fs = append(fs, &file{ws: g, name: name, text: ts[name]})
			}
		}
	}
	var out []*rejFile
	for _, f := range fs {
		path := filepath.Join(f.ws.dir, f.name)
		if !strings.Contains(f.text, "(grpc.federation.service)") {
			continue // expressions are checked from a service on
		}
		src, err := source.NewFile(path, []byte(f.text))
		if err != nil {
			continue
		}
		outs := validator.New().Validate(context.Background(), src, validator.ImportPathOption(f.ws.dir))
		if validator.ExistsError(outs) {
			continue
		}
		protos, err := compiler.New().Compile(context.Background(), src, compiler.ImportPathOption(f.ws.dir), compiler.ImportRuleOption())
		if err != nil {
			continue
		}
		w := &walker{name: path, file: src.AST()}
		w.walk()
		used := usedMessages(f.text, w.elems)
		w.elems = slices.DeleteFunc(w.elems, func(e elem) bool { return e.loc.Message != nil && !used[nameOf(e)] })
		rf := &rejFile{file: f, ast: w.file, elems: w.elems, protos: protos, autobind: strings.Contains(f.text, "autobind"), scope: map[string][]elem{}}
		for _, e := range w.elems {
			rf.scope[rf.key(e)] = append(rf.scope[rf.key(e)], e)
		}
		out = append(out, rf)
	}
	return out
}

func nameOf(e elem) string {
	names := e.loc.Message.MessageNames()
	return names[len(names)-1]
}

var returnsRe = regexp.MustCompile(`returns\s*\(\s*(?:[\w.]*\.)?(\w+)\s*\)`)

// usedMessages are the messages that services resolve; nothing is known of the arguments of the others.
func usedMessages(text string, elems []elem) map[string]bool {
	used := map[string]bool{}
	for _, m := range returnsRe.FindAllStringSubmatch(text, -1) {
		used[m[1]] = true
	}
	last := func(s string) string { return s[strings.LastIndex(s, ".")+1:] }
	for {
		n := len(used)
		for _, e := range elems {
			if e.kind == "method.response" || e.kind == "message.name" && (e.loc.Message == nil || used[nameOf(e)]) {
				if s, ok := e.node.(*ast.StringLiteralNode); ok {
					used[last(s.Val)] = true
				}
			}
		}
		if len(used) == n {
			return used
		}
	}
}

func rejecting(ws []*workspace, scratch string, seed int64, n int) {
	files := rejFiles(ws, scratch, seed)
	count("files", len(files))
	var wg sync.WaitGroup
	var dmu sync.Mutex
	for k := range 8 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed*67 + int64(k)))
			for range n / 8 {
				f := files[r.Intn(len(files))]
				if len(f.elems) == 0 {
					continue
				}
				// kinds first: rare ones count as much as frequent ones
				kinds := map[string][]elem{}
				var names []string
				for _, e := range f.elems {
					if len(kinds[e.kind]) == 0 {
						names = append(names, e.kind)
					}
					kinds[e.kind] = append(kinds[e.kind], e)
				}
				l := kinds[names[r.Intn(len(names))]]
				e := l[r.Intn(len(l))]
				bs := breakings(e, f)
				if len(bs) == 0 {
					continue
				}
				judgeReject(f, e, bs[r.Intn(len(bs))])
			}
		}()
	}
	wg.Wait()
	dmu.Lock()
	defer dmu.Unlock()
	fmt.Fprintf(stdout, "EVAL %d %d\n", counts["broken"], counts["rejected_at_element"])
}

var msgPosRe = regexp.MustCompile(`^([^\s:]+):(\d+):\d+: `)

func judgeReject(f *rejFile, e elem, b badness) {
	info := f.ast.NodeInfo(e.node)
	start := info.Start().Offset
	end := start + len(info.RawText())
	if start < 0 || end > len(f.text) || start >= end {
		return
	}
	old := f.text[start:end]
	if !strings.HasPrefix(strings.TrimSpace(old), `"`) && b.text != "" && !strings.HasPrefix(strings.TrimSpace(old), `'`) {
		return
	}
	text := f.text[:start] + b.text + f.text[end:]
	if b.op == "unbound field" {
		// take the option away
		re := regexp.MustCompile(`\s*\[\s*\(grpc\.federation\.field\)\.by\s*=\s*$`)
		m := re.FindStringIndex(f.text[:start])
		c := strings.TrimLeft(f.text[end:], " \n")
		if m == nil || !strings.HasPrefix(c, "]") {
			return
		}
		text = f.text[:m[0]] + c[1:]
	}
	if b.also != nil {
		i := f.ast.NodeInfo(b.also.node)
		s2 := i.Start().Offset
		e2 := s2 + len(i.RawText())
		if s2 < start {
			text = f.text[:s2] + b.alsoText + f.text[e2:start] + b.text + f.text[end:]
		} else {
			text = f.text[:start] + b.text + f.text[end:s2] + b.alsoText + f.text[e2:]
		}
	}
	path := filepath.Join(f.ws.dir, f.name)
	desc := fmt.Sprintf("%s/%s:%d: %s %.80s -> %s (%s)", f.ws.name, f.name, info.Start().Line, e.kind, old, b.text, b.op)
	src, err := source.NewFile(path, []byte(text))
	if err != nil {
		return
	}
	var outs []*validator.ValidationOutput
	where := guard("validator", minute, func() {
		outs = validator.New().Validate(context.Background(), src, validator.ImportPathOption(f.ws.dir))
	})
	if where != "" {
		viol("crash "+frameOf(where), "%s [%s]", where, desc)
		return
	}
	count("broken", 1)
	count("op "+e.kind+" "+b.op, 1)
	if !validator.ExistsError(outs) {
		viol("accepted "+e.kind+" "+b.op, "ill-formed definitions are accepted: %s", desc)
		if d := os.Getenv("STATIC_DUMP"); d != "" {
			_ = os.WriteFile(filepath.Join(d, "accepted.proto"), []byte(text), 0o644)
		}
		return
	}
	lines := strings.Count(text, "\n") + 1
	onElement := false
	for _, o := range outs {
		if o.IsWarning {
			continue
		}
		if o.Path == "" { // of the compiler: the message starts with the position
			if m := msgPosRe.FindStringSubmatch(o.Message); m != nil && filepath.Base(m[1]) == filepath.Base(f.name) && m[2] == strconv.Itoa(info.Start().Line) {
				onElement = true
			}
			continue
		}
		if filepath.Base(o.Path) != filepath.Base(f.name) {
			b, err := os.ReadFile(filepath.Join(f.ws.dir, o.Path))
			if err != nil {
				viol("file "+e.kind, "a diagnostic names the file %q, which does not exist: %s: %s", o.Path, desc, o.Message)
			} else if o.Start.Line < 1 || o.Start.Line > strings.Count(string(b), "\n")+1 {
				viol("outside "+e.kind, "a diagnostic is at line %d of %s: %s: %s", o.Start.Line, o.Path, desc, o.Message)
			}
			continue
		}
		if o.Start.Line == 0 {
			count("without_position", 1)
			debugf("NOPOS %s: %.200s", desc, o.Message)
			continue
		}
		if o.Start.Line < 0 || o.Start.Line > lines {
			viol("outside "+e.kind, "a diagnostic is at line %d of %d: %s: %s", o.Start.Line, lines, desc, o.Message)
			continue
		}
		endLine := o.End.Line
		if endLine == 0 {
			endLine = o.Start.Line
		}
		if o.Start.Line <= info.Start().Line && info.Start().Line <= endLine || o.Start.Line >= info.Start().Line && o.Start.Line <= info.End().Line {
			onElement = true
		}
	}
	if b.op == "variable defined under another name" || b.op == "name of another definition" || b.also != nil || b.op == "unbound field" {
		count("rejected", 1)
		return // the error is where the variable is used, or at the field or message
	}
	if !onElement {
		var l []string
		for _, o := range outs {
			if !o.IsWarning {
				l = append(l, fmt.Sprintf("%s:%d-%d %.120s", filepath.Base(o.Path), o.Start.Line, o.End.Line, o.Message))
			}
		}
		viol("position "+e.kind+" "+b.op, "no diagnostic is at the ill-formed element: %s: %s", desc, strings.Join(l, " | "))
		return
	}
	count("rejected_at_element", 1)
}
