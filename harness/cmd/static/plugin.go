package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"

	"github.com/mercari/grpc-federation/compiler"
	"github.com/mercari/grpc-federation/generator"
	fedgen "github.com/mercari/grpc-federation/grpc/federation/generator"
	"github.com/mercari/grpc-federation/grpc/federation/generator/plugin"
	"github.com/mercari/grpc-federation/resolver"
	"github.com/mercari/grpc-federation/source"

	"verifharness/fedenv"
	"verifharness/fedgraph"
	"verifharness/fedsim"
)

// The model of a plugin has no place for these (generator.proto), or they are links back to what is compared already.
var notCarried = map[string]bool{
	"GRPCError.LogLevel": true, "FieldRule.Env": true, "ValidationExpr.Name": true, "CELValue.CheckedExpr": true,
	"File.Desc": true, "Service.Desc": true, "Method.Desc": true, "Message.Desc": true, "Field.Desc": true,
	"MessageDependencyGraphNode.Parent": true, "MessageDependencyGraphNode.ParentMap": true, "MessageDependencyGraphNode.ChildrenMap": true,
}

// identity: a plugin looks these up by pointer, so one element must stay one element.
var identity = map[string]bool{"File": true, "Service": true, "Method": true, "Message": true, "Field": true, "Oneof": true, "Enum": true, "EnumValue": true, "VariableDefinition": true, "CELPlugin": true}

type pair struct{ a, b uintptr }

type comparer struct {
	seen  map[pair]bool
	image map[uintptr]uintptr
	nodes int
	kinds map[string]int
	diffs []string
	path  []string
}

func (c *comparer) diff(format string, args ...any) {
	if len(c.diffs) < 5 {
		p := c.path
		if len(p) > 14 {
			p = append([]string{"…"}, p[len(p)-14:]...)
		}
		c.diffs = append(c.diffs, strings.Join(p, "")+": "+fmt.Sprintf(format, args...))
	}
}

func isEmptySet(v reflect.Value) bool {
	if v.IsNil() {
		return true
	}
	s := v.Interface().(*resolver.VariableDefinitionSet)
	return len(s.Defs) == 0 && len(s.Groups) == 0 && s.Graph == nil
}

func nameOfElem(v reflect.Value) string {
	if v.Kind() == reflect.Struct {
		if f := v.FieldByName("Name"); f.IsValid() && f.Kind() == reflect.String {
			return v.Type().Name() + "(" + f.String() + ")"
		}
	}
	return v.Type().Name()
}

func (c *comparer) cmp(a, b reflect.Value) {
	if len(c.diffs) >= 5 {
		return
	}
	switch a.Kind() {
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				c.diff("nil %v / %v", a.IsNil(), b.IsNil())
			}
			return
		}
		if a.Elem().Type() != b.Elem().Type() {
			c.diff("type %s / %s", a.Elem().Type(), b.Elem().Type())
			return
		}
		c.cmp(a.Elem(), b.Elem())
	case reflect.Pointer:
		if a.Type() == reflect.TypeOf((*resolver.VariableDefinitionSet)(nil)) && isEmptySet(a) && isEmptySet(b) {
			return
		}
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				c.diff("resolved is nil: %v, received is nil: %v", a.IsNil(), b.IsNil())
			}
			return
		}
		k := pair{a.Pointer(), b.Pointer()}
		if c.seen[k] {
			return
		}
		c.seen[k] = true
		if n := a.Type().Elem().Name(); identity[n] {
			if old, ok := c.image[k.a]; ok && old != k.b {
				c.diff("%s is received as two elements", nameOfElem(a.Elem()))
			}
			c.image[k.a] = k.b
			if !c.exempt(a) {
				if old, ok := c.image[k.b]; ok && old != k.a {
					c.diff("two %s are received as one: %s", n, nameOfElem(a.Elem()))
				}
				c.image[k.b] = k.a
			}
		}
		c.cmp(a.Elem(), b.Elem())
	case reflect.Struct:
		t := a.Type()
		c.nodes++
		c.kinds[t.Name()]++
		c.path = append(c.path, "/"+nameOfElem(a))
		for i := range t.NumField() {
			f := t.Field(i)
			if !f.IsExported() || notCarried[t.Name()+"."+f.Name] {
				continue
			}
			if t.Name() == "Type" && f.Name == "OneofField" {
				// A type refers to one of these only; that the field belongs to a oneof is told by Field.Oneof.
				if t := a.Interface().(resolver.Type); t.Message != nil || t.Enum != nil {
					continue
				}
			}
			if t.Name() == "Type" && f.Name == "Kind" && a.Interface().(resolver.Type).IsNull {
				continue // null has no kind
			}
			if t.Name() == "Package" && f.Name == "Files" && builtin.MatchString(a.Interface().(resolver.Package).Name) {
				continue // the resolver holds packages of its own for these
			}
			c.path = append(c.path, "."+f.Name)
			c.cmp(a.Field(i), b.Field(i))
			c.path = c.path[:len(c.path)-1]
		}
		c.path = c.path[:len(c.path)-1]
	case reflect.Slice:
		if a.Len() != b.Len() {
			c.diff("%d elements resolved, %d received", a.Len(), b.Len())
			return
		}
		for i := range a.Len() {
			c.path = append(c.path, fmt.Sprintf("[%d]", i))
			c.cmp(a.Index(i), b.Index(i))
			c.path = c.path[:len(c.path)-1]
		}
	default:
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			c.diff("%v resolved, %v received", a.Interface(), b.Interface())
		}
	}
}

var builtin = regexp.MustCompile(`^(google\.protobuf|grpc\.federation\..*)$`)

// exempt: elements the resolver itself may hold more than one equal copy of.
func (c *comparer) exempt(a reflect.Value) bool {
	return a.Type().Elem().Name() != "VariableDefinition"
}

func resolved(path, importPath string) ([]*resolver.File, []*descriptorpb.FileDescriptorProto, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, nil, err
	}
	src, err := source.NewFile(path, b)
	if err != nil {
		return nil, nil, err
	}
	protos, err := compiler.New().Compile(context.Background(), src, compiler.ImportPathOption(importPath))
	if err != nil {
		return nil, nil, err
	}
	r, err := resolver.New(protos, resolver.ImportPathOption(importPath)).Resolve()
	if err != nil {
		return nil, nil, err
	}
	return r.Files, protos, nil
}

// plugins hands resolved programs to code generation plugins and compares what they receive.
func plugins(repo, scratch string, seed int64, n int) {
	_ = os.Setenv("TMPDIR", scratch)
	var ws []*workspace
	add := func(name string, texts map[string]string) {
		w := &workspace{name: name, dir: filepath.Join(scratch, "p_"+name)}
		for n, t := range texts {
			p := filepath.Join(w.dir, n)
			_ = os.MkdirAll(filepath.Dir(p), 0o755)
			if err := os.WriteFile(p, []byte(t), 0o644); err != nil {
				panic(err)
			}
			w.files = append(w.files, &file{ws: w, name: n, text: t, fed: strings.Contains(t, "grpc.federation.")})
		}
		sort.Slice(w.files, func(i, j int) bool { return w.files[i].name < w.files[j].name })
		ws = append(ws, w)
	}
	for i := range n {
		add(fmt.Sprintf("graph%d", i), fedgraph.At(seed, i).Texts())
		p := fedsim.Generate(seed, i, fedsim.Profile{Name: "static", MinMsgs: 1, MaxMsgs: 6, MinDefs: 2, MaxDefs: 8, Methods: 3,
			WBy: 4, WCall: 4, WMsg: 3, WMap: 2, WValid: 2, WEnum: 1, PIf: 20, PReqIf: 15, PAuto: 35, PInline: 15, PAlias: 40, POneof: 25, PCustomField: 8, PCustomMsg: 10,
			PErr: 60, PRetry: 30, PTimeout: 20, PMethodTimeout: 20, Depth: 2, Shared: true})
		add(fmt.Sprintf("sim%d", i), map[string]string{"dep/dep.proto": fedsim.DepProto(), p.GoDir + "/" + p.GoDir + ".proto": p.Proto()})
		add(fmt.Sprintf("env%d", i), map[string]string{"e/e.proto": fedenv.Generate(seed, i).Proto()})
	}
	ws = append(load(repo, scratch, seed, 0), ws...)
	var files []*file
	for _, w := range ws {
		files = append(files, w.fedFiles()...)
	}
	ch := make(chan *file)
	var wg sync.WaitGroup
	accepted, nodes, bytesTotal := 0, 0, 0
	kinds := map[string]int{}
	for range min(8, runtime.NumCPU()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for f := range ch {
				rf, _, err := resolved(filepath.Join(f.ws.dir, f.name), f.ws.dir)
				if err != nil || len(rf) == 0 {
					continue
				}
				c, size := receive(f.ws.name+"/"+f.name, rf, seed)
				mu.Lock()
				accepted++
				bytesTotal += size
				if c != nil {
					nodes += c.nodes
					for k, v := range c.kinds {
						kinds[k] += v
					}
				}
				mu.Unlock()
			}
		}()
	}
	for _, f := range files {
		ch <- f
	}
	close(ch)
	wg.Wait()
	var ks []string
	for k := range kinds {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(stdout, "COUNT elements compared: %s %d\n", k, kinds[k])
	}
	fmt.Fprintf(stdout, "COUNT models encoded and decoded %d\n", accepted)
	fmt.Fprintf(stdout, "COUNT bytes of requests %d\n", bytesTotal)
	runs, reqs := wasm(repo, scratch, ws, max(4, n/6))
	fmt.Fprintf(stdout, "COUNT generator runs with plugins %d\nCOUNT requests received by plugins %d\n", runs, reqs)
	fmt.Fprintf(stdout, "EVAL %d %d\n", nodes+reqs, accepted+reqs)
}

var actions = []struct {
	a fedgen.ActionType
	w plugin.ActionType
}{{fedgen.KeepAction, plugin.ActionType_KEEP_ACTION}, {fedgen.CreateAction, plugin.ActionType_CREATE_ACTION}, {fedgen.DeleteAction, plugin.ActionType_DELETE_ACTION}, {fedgen.UpdateAction, plugin.ActionType_UPDATE_ACTION}, {fedgen.ProtocAction, plugin.ActionType_GENERATE_ACTION}}

// receive encodes a model like the generator and decodes it like a plugin.
func receive(name string, rf []*resolver.File, seed int64) (*comparer, int) {
	act := actions[(len(name)+int(seed))%len(actions)]
	var gen []*plugin.ProtoCodeGeneratorResponse_File
	for i := range len(name) % 3 {
		gen = append(gen, &plugin.ProtoCodeGeneratorResponse_File{Name: proto.String(fmt.Sprintf("f%d.go", i)), Content: proto.String(fmt.Sprintf("package p%d // 日本", i))})
	}
	req := fedgen.CreateCodeGeneratorRequest(&fedgen.CodeGeneratorRequestConfig{Type: act.a, ProtoPath: name, OutDir: "out/" + name, Files: gen, GRPCFederationFiles: rf})
	b, err := proto.Marshal(req)
	if err != nil {
		viol("plugin encode", "%s: the request of a plugin cannot be encoded: %v", name, err)
		return nil, 0
	}
	var wire plugin.CodeGeneratorRequest
	if err := proto.Unmarshal(b, &wire); err != nil {
		viol("plugin encode", "%s: the request of a plugin cannot be read: %v", name, err)
		return nil, len(b)
	}
	if wire.GetType() != act.w {
		viol("plugin action", "%s: the action %s is received as %s", name, act.a, wire.GetType())
	}
	got, err := fedgen.ToCodeGeneratorRequest(bytes.NewReader(b))
	if err != nil {
		viol("plugin decode "+firstWords(err), "%s: a plugin cannot decode its request: %v", name, err)
		return nil, len(b)
	}
	if got.ProtoPath != name || got.OutDir != "out/"+name {
		viol("plugin paths", "%s: paths %q %q received", name, got.ProtoPath, got.OutDir)
	}
	if len(got.Files) != len(gen) {
		viol("plugin files", "%s: %d generated files sent, %d received", name, len(gen), len(got.Files))
	} else {
		for i := range gen {
			if !proto.Equal(gen[i], got.Files[i]) {
				viol("plugin files", "%s: generated file %d differs", name, i)
			}
		}
	}
	c := &comparer{seen: map[pair]bool{}, image: map[uintptr]uintptr{}, kinds: map[string]int{}}
	c.cmp(reflect.ValueOf(rf), reflect.ValueOf(got.GRPCFederationFiles))
	for _, d := range c.diffs {
		viol("plugin model "+shape(d), "%s: %s", name, d)
	}
	return c, len(b)
}

func firstWords(err error) string {
	w := strings.Fields(err.Error())
	return strings.Join(w[:min(6, len(w))], " ")
}

// shape names the place of a difference without the names of the program.
func shape(d string) string {
	i := strings.LastIndex(d, ": ")
	p := d[:max(i, 0)]
	if j := strings.LastIndex(p, "/"); j >= 0 {
		p = p[j:]
	}
	out := ""
	depth := 0
	for _, r := range p {
		switch r {
		case '(', '[':
			depth++
		case ')', ']':
			depth--
		default:
			if depth == 0 {
				out += string(r)
			}
		}
	}
	return out
}

const pluginSource = `package main

import (
	"fmt"
	"io"
	"os"
	"time"
)

var name = "X"

func main() {
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		panic(err)
	}
	for i := 0; ; i++ {
		f, err := os.OpenFile(fmt.Sprintf("got_%s_%d", name, i), os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0o600)
		if os.IsExist(err) {
			continue
		}
		if err != nil {
			panic(err)
		}
		if _, err := f.Write(b); err != nil {
			panic(err)
		}
		if err := f.Close(); err != nil {
			panic(err)
		}
		break
	}
	_ = time.Now
	if name == "FAIL" {
		os.Exit(3)
	}
}
`

type wasmFile struct{ name, path, sum string }

func buildPlugins(scratch string, names ...string) (map[string]wasmFile, error) {
	dir := filepath.Join(scratch, "wasmplugin")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	_ = os.WriteFile(filepath.Join(dir, "main.go"), []byte(pluginSource), 0o644)
	_ = os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module wasmplugin\n\ngo 1.22\n"), 0o644)
	out := map[string]wasmFile{}
	for _, n := range names {
		o := filepath.Join(dir, n+".wasm")
		cmd := exec.Command("go", "build", "-ldflags", "-X main.name="+n, "-o", o, ".")
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "GOOS=wasip1", "GOARCH=wasm", "GOFLAGS=-mod=mod", "GOWORK=off")
		if b, err := cmd.CombinedOutput(); err != nil {
			return nil, fmt.Errorf("%w: %s", err, b)
		}
		b, err := os.ReadFile(o)
		if err != nil {
			return nil, err
		}
		h := sha256.Sum256(b)
		out[n] = wasmFile{n, o, hex.EncodeToString(h[:])}
	}
	return out, nil
}

// wasm runs the generator with real plugins: none, one or more of them, the same twice, one
// that fails, one with another content than declared.
func wasm(repo, scratch string, ws []*workspace, n int) (runs, reqs int) {
	pl, err := buildPlugins(scratch, "A", "B", "C", "FAIL")
	if err != nil {
		panic(err)
	}
	cwd, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	defer func() { _ = os.Chdir(cwd) }()
	sets := [][]string{{"A"}, {"A", "B"}, {"B", "A", "C"}, {"C", "C", "A"}, {"A", "FAIL", "B"}, {"A", "!B", "C"}, {"A", "B", "C", "A"}}
	k := 0
	for i := len(ws) - 1; i >= 0 && k < n; i-- {
		w := ws[i]
		ff := w.fedFiles()
		if len(ff) == 0 {
			continue
		}
		f := ff[k%len(ff)]
		rf, protos, err := resolved(filepath.Join(w.dir, f.name), w.dir)
		if err != nil || len(rf) == 0 {
			continue
		}
		for _, mode := range []string{"protoc", "generator"} {
			set := sets[(k+len(mode))%len(sets)]
			dir := filepath.Join(scratch, fmt.Sprintf("run%d_%s", k, mode))
			_ = os.MkdirAll(dir, 0o755)
			if err := os.Chdir(dir); err != nil {
				panic(err)
			}
			want := map[string]int{}
			fails := ""
			opts := []string{"paths=source_relative", "import_paths=" + w.dir}
			for _, p := range set {
				wf := pl[strings.TrimPrefix(p, "!")]
				sum := wf.sum
				if p[0] == '!' {
					sum = strings.Repeat("0", 64)
				}
				opts = append(opts, fmt.Sprintf("plugins=file://%s:%s", wf.path, sum))
				if fails == "" {
					switch {
					case p[0] == '!':
						fails = "its content is not the declared one"
					case p == "FAIL":
						fails = "it fails"
						want[p]++
					default:
						want[p]++
					}
				}
			}
			what := fmt.Sprintf("%s/%s with %v by the %s", w.name, f.name, set, mode)
			var runErr error
			files := -1
			if mode == "protoc" {
				_, runErr = generator.CreateCodeGeneratorResponse(context.Background(), &pluginpb.CodeGeneratorRequest{FileToGenerate: []string{f.name}, Parameter: proto.String(strings.Join(opts, ",")), ProtoFile: protos})
			} else {
				files, runErr = generateWith(w.dir, f.name, dir, opts)
			}
			runs++
			if (runErr != nil) != (fails != "") {
				viol("plugin failure", "%s: error %v; expected a failure: %q", what, runErr, fails)
			}
			got := map[string][][]byte{}
			m, _ := filepath.Glob(filepath.Join(dir, "got_*"))
			for _, p := range m {
				b, err := os.ReadFile(p)
				if err != nil {
					panic(err)
				}
				n := strings.Split(filepath.Base(p), "_")[1]
				got[n] = append(got[n], b)
			}
			var first []byte
			for _, p := range []string{"A", "B", "C", "FAIL"} {
				if len(got[p]) != want[p] {
					viol("plugin runs", "%s: plugin %s ran %d times, %d expected", what, p, len(got[p]), want[p])
				}
				for _, b := range got[p] {
					reqs++
					req, err := fedgen.ToCodeGeneratorRequest(bytes.NewReader(b))
					if err != nil {
						viol("plugin request", "%s: plugin %s got no request it can decode: %v", what, p, err)
						continue
					}
					c := &comparer{seen: map[pair]bool{}, image: map[uintptr]uintptr{}, kinds: map[string]int{}}
					c.cmp(reflect.ValueOf(rf), reflect.ValueOf(req.GRPCFederationFiles))
					for _, d := range c.diffs {
						viol("plugin received "+shape(d), "%s: plugin %s: %s", what, p, d)
					}
					if mode == "generator" && fails == "" && len(req.Files) != files {
						viol("plugin received files", "%s: plugin %s received %d of %d generated files", what, p, len(req.Files), files)
					}
					var x plugin.CodeGeneratorRequest
					if err := proto.Unmarshal(b, &x); err != nil {
						panic(err)
					}
					n, err := proto.MarshalOptions{Deterministic: true}.Marshal(&x)
					if err != nil {
						panic(err)
					}
					if first == nil {
						first = n
					} else if !bytes.Equal(first, n) {
						viol("plugin requests differ", "%s: plugin %s received another request than the first plugin", what, p)
					}
				}
			}
		}
		k++
	}
	return runs, reqs
}

// generateWith runs the stand-alone generator for one file.
func generateWith(protoDir, name, out string, opts []string) (int, error) {
	cfg := generator.Config{Imports: []string{protoDir}, Out: out, Plugins: []*generator.PluginConfig{{Plugin: "protoc-gen-grpc-federation", Opt: &generator.PluginOption{Opts: opts}}}}
	g := generator.New(cfg)
	files := 0
	g.SetPostProcessHandler(func(ctx context.Context, path string, result generator.Result) error {
		for _, r := range result {
			if err := r.WriteFiles(ctx); err != nil {
				return err
			}
			files += len(r.Files)
		}
		return nil
	})
	err := g.Generate(context.Background(), filepath.Join(protoDir, name))
	return files, err
}
