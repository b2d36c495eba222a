package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"

	"github.com/mercari/grpc-federation/compiler"
	"github.com/mercari/grpc-federation/source"
	"github.com/mercari/grpc-federation/validator"
)

// imports: layouts of import paths, and histories of calls with differing options on
// one compiler and one validator. Every file has a message named after it, so that what
// was read is known from the descriptors.

type impFile struct {
	dir, rel string // physical file: dir/rel
	id       int
	imports  []string // names as written
	rules    []string
	fed      bool
	ruleForm int
}

func (f *impFile) text(edit string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "syntax = \"proto3\";\npackage p%d;\n", f.id)
	if f.fed {
		b.WriteString("import \"grpc/federation/federation.proto\";\n")
	}
	for _, n := range f.imports {
		fmt.Fprintf(&b, "import %q;\n", n)
	}
	if f.fed && len(f.rules) > 0 {
		var q []string
		for _, n := range f.rules {
			q = append(q, fmt.Sprintf("%q", n))
		}
		switch {
		case f.ruleForm == 0:
			fmt.Fprintf(&b, "option (grpc.federation.file) = { import: [%s] };\n", strings.Join(q, ", "))
		case f.ruleForm == 1:
			b.WriteString("option (grpc.federation.file) = {\n")
			for _, n := range q {
				fmt.Fprintf(&b, "  import: %s\n", n)
			}
			b.WriteString("};\n")
		default:
			for _, n := range q {
				fmt.Fprintf(&b, "option (grpc.federation.file).import = %s;\n", n)
			}
		}
	}
	fmt.Fprintf(&b, "option go_package = \"example/p%d;p%d\";\nmessage M%d {}\n%s", f.id, f.id, f.id, edit)
	return b.String()
}

func (f *impFile) path(root string) string { return filepath.Join(root, f.dir, f.rel) }

type impCall struct {
	root   *impFile
	paths  []string // directories below the layout's root, in order
	form   []int    // how each is written: absolute, relative, trailing slash, unclean
	rel    bool     // the path of the file is relative
	manual bool
	rule   bool
	edit   string
}

// model: name -> file under these import paths. The starting file's own directory is
// searched last when no import path contains it.
func (c *impCall) name() (string, bool) {
	for _, p := range c.paths {
		rel, err := filepath.Rel(p, filepath.Join(c.root.dir, c.root.rel))
		if err == nil && rel != ".." && !strings.HasPrefix(rel, "../") {
			return rel, true
		}
	}
	return "", false
}

func lookup(all []*impFile, paths []string, name string) *impFile {
	for _, p := range paths {
		for _, f := range all {
			if filepath.Join(p, name) == filepath.Join(f.dir, f.rel) {
				return f
			}
		}
	}
	return nil
}

type impWant struct {
	files   map[string]*impFile
	missing string
	fed     bool
	unsure  bool // a file under two names, or hidden by another one
}

func (c *impCall) want(all []*impFile) *impWant {
	w := &impWant{files: map[string]*impFile{}}
	name, under := c.name()
	paths := c.paths
	if !under {
		name = "" // named by the path given
		paths = append(append([]string{}, c.paths...), filepath.Dir(filepath.Join(c.root.dir, c.root.rel)))
	} else if lookup(all, c.paths, name) != c.root {
		w.unsure = true
	}
	seen := map[*impFile]string{}
	var visit func(name string, f *impFile, root bool)
	visit = func(name string, f *impFile, root bool) {
		if n, ok := seen[f]; ok {
			if n != name {
				w.unsure = true
			}
			return
		}
		seen[f] = name
		w.files[name] = f
		w.fed = w.fed || f.fed
		next := slices.Clone(f.imports)
		if root && c.rule && f.fed {
			next = append(next, f.rules...)
		}
		for _, n := range next {
			g := lookup(all, paths, n)
			if g == nil {
				if w.missing == "" {
					w.missing = n
				}
				continue
			}
			visit(n, g, false)
		}
	}
	visit(name, c.root, true)
	return w
}

func imports(scratch string, seed int64, n int) {
	old, _ := os.Getwd()
	defer os.Chdir(old)
	evals, nontrivial := 0, 0
	for i := range n {
		e, d := importHistory(filepath.Join(scratch, fmt.Sprintf("imp%d", i)), rand.New(rand.NewSource(seed*7919+int64(i))), fmt.Sprintf("layout%d", i))
		evals += e
		nontrivial += d
		if e, d := federatedLayout(filepath.Join(scratch, fmt.Sprintf("fed%d", i)), rand.New(rand.NewSource(seed*104729+int64(i))), fmt.Sprintf("federated%d", i)); e > 0 {
			evals += e
			nontrivial += d
		}
	}
	fmt.Fprintf(stdout, "EVAL %d %d\n", evals, nontrivial)
}

var impDirs = []string{"proto", "proto2", "proto/sub", "protos", "third_party/proto", "pro", "proto/subs", "a b", "x"}

func importHistory(root string, r *rand.Rand, subject string) (evals, nontrivial int) {
	defer os.RemoveAll(root)
	dirs := slices.Clone(impDirs)
	r.Shuffle(len(dirs), func(i, j int) { dirs[i], dirs[j] = dirs[j], dirs[i] })
	dirs = dirs[:2+r.Intn(4)]
	if r.Intn(2) == 0 && !slices.Contains(dirs, "proto") {
		dirs[0] = "proto"
	}
	var all []*impFile
	for k := range 3 + r.Intn(6) {
		f := &impFile{dir: dirs[r.Intn(len(dirs))], id: k, fed: r.Intn(2) == 0, ruleForm: r.Intn(3)}
		f.rel = fmt.Sprintf("f%d.proto", k)
		switch r.Intn(4) {
		case 0:
			f.rel = "p/" + f.rel
		case 1:
			f.rel = "sub/p/" + f.rel
		}
		for range r.Intn(3) { // of earlier files: no cycles
			if len(all) == 0 {
				break
			}
			g := all[r.Intn(len(all))]
			name := g.rel
			if r.Intn(12) == 0 {
				name = fmt.Sprintf("missing%d.proto", r.Intn(9))
			}
			if f.fed && r.Intn(2) == 0 {
				if !slices.Contains(f.rules, name) && !slices.Contains(f.imports, name) {
					f.rules = append(f.rules, name)
				}
			} else if !slices.Contains(f.imports, name) && !slices.Contains(f.rules, name) {
				f.imports = append(f.imports, name)
			}
		}
		if len(f.rules) > 1 && f.ruleForm == 2 {
			f.ruleForm = 1
		}
		all = append(all, f)
	}
	for _, f := range all {
		os.MkdirAll(filepath.Dir(f.path(root)), 0o755)
		os.WriteFile(f.path(root), []byte(f.text("")), 0o644)
	}
	// nothing is found by accident below the working directory
	cwd := filepath.Join(root, "cwd", "w")
	os.MkdirAll(cwd, 0o755)
	if err := os.Chdir(cwd); err != nil {
		panic(err)
	}
	shared := compiler.New()
	val := validator.New()
	calls := 8
	for k := range calls {
		c := &impCall{root: all[r.Intn(len(all))], rel: r.Intn(3) == 0, manual: r.Intn(4) == 0, rule: r.Intn(2) == 0}
		for _, d := range dirs {
			if r.Intn(5) > 0 {
				c.paths = append(c.paths, d)
				c.form = append(c.form, r.Intn(4))
			}
		}
		r.Shuffle(len(c.paths), func(i, j int) { c.paths[i], c.paths[j] = c.paths[j], c.paths[i] })
		if r.Intn(2) == 0 {
			c.edit = fmt.Sprintf("message Edited%d {}\n", k)
		}
		evals++
		where := fmt.Sprintf("%s/call%d", subject, k)
		if c.judge(where, root, all, shared, false) {
			nontrivial++
		}
		if k == calls-1 { // the same call from several goroutines gives the same
			var wg sync.WaitGroup
			for range 3 {
				wg.Add(1)
				go func() {
					defer wg.Done()
					c.judge(where+"/fresh", root, all, compiler.New(), true)
				}()
			}
			wg.Wait()
		}
		c.validate(where, root, all, val)
	}
	return evals, nontrivial
}

func (c *impCall) options(root string) ([]string, *source.File, string, error) {
	cwd, _ := os.Getwd()
	var ps []string
	for i, p := range c.paths {
		abs := filepath.Join(root, p)
		switch c.form[i] {
		case 1:
			rel, _ := filepath.Rel(cwd, abs)
			ps = append(ps, rel)
		case 2:
			ps = append(ps, abs+"/")
		case 3:
			ps = append(ps, filepath.Dir(abs)+"/./"+filepath.Base(abs)+"/../"+filepath.Base(abs))
		default:
			ps = append(ps, abs)
		}
	}
	path := c.root.path(root)
	if c.rel && c.edit == "" {
		path, _ = filepath.Rel(cwd, path)
	}
	f, err := source.NewFile(path, []byte(c.root.text(c.edit)))
	return ps, f, path, err
}

func (c *impCall) judge(where, root string, all []*impFile, comp *compiler.Compiler, quiet bool) bool {
	ps, f, path, err := c.options(root)
	if err != nil {
		panic(err)
	}
	opts := []compiler.Option{compiler.ImportPathOption(ps...)}
	if c.manual {
		opts = append(opts, compiler.ManualImportOption())
	}
	if c.rule {
		opts = append(opts, compiler.ImportRuleOption())
	}
	desc := fmt.Sprintf("import paths %q, file %s, manual imports %v, files of import rules %v", ps, path, c.manual, c.rule)
	w := c.want(all)
	if w.unsure {
		return false
	}
	got, err := comp.Compile(context.Background(), f, opts...)
	name, under := c.name()
	if under {
		if rel, e := compiler.RelativePathFromImportPaths(path, ps); e != nil || rel != name {
			viol(where, "the name of the file is %q (%v), not %q: %s", rel, e, name, desc)
		}
	} else if rel, e := compiler.RelativePathFromImportPaths(path, ps); e != nil || (rel != path) {
		viol(where, "the name of a file below none of the import paths is %q (%v): %s", rel, e, desc)
	}
	if w.missing != "" || (c.manual && w.fed) {
		if err == nil {
			viol(where, "no error although %q (manual: %v) can't be found: %s", w.missing, c.manual && w.fed, desc)
		}
		count("compilations without a needed file", 1)
		return true
	}
	if err != nil {
		viol(where, "compilation failed though every file is there: %s: %s", desc, clip(err.Error()))
		return true
	}
	count("compilations judged", 1)
	if c.rule && len(c.root.rules) > 0 && c.root.fed {
		count("compilations with files of import rules", 1)
	}
	if !under {
		w.files[path] = w.files[""]
		delete(w.files, "")
	}
	byName := map[string]*descriptorpb.FileDescriptorProto{}
	var names []string
	for _, d := range got {
		if byName[d.GetName()] != nil {
			viol(where, "file %s is there twice: %s", d.GetName(), desc)
		}
		for _, dep := range d.GetDependency() {
			if byName[dep] == nil {
				viol(where, "file %s comes before %s, which it imports: %s", d.GetName(), dep, desc)
			}
		}
		byName[d.GetName()] = d
		if !strings.HasPrefix(d.GetName(), "google/") && !strings.HasPrefix(d.GetName(), "grpc/federation/") {
			names = append(names, d.GetName())
		}
	}
	if (byName["grpc/federation/federation.proto"] != nil) != w.fed {
		viol(where, "federation.proto is there: %v, imported: %v: %s", !w.fed, w.fed, desc)
	}
	var wantNames []string
	for n := range w.files {
		wantNames = append(wantNames, n)
	}
	sort.Strings(names)
	sort.Strings(wantNames)
	if !slices.Equal(names, wantNames) {
		viol(where, "files %q instead of %q: %s", names, wantNames, desc)
		return true
	}
	for n, f := range w.files {
		want := []string{fmt.Sprintf("M%d", f.id)}
		if f == c.root && c.edit != "" {
			want = append(want, strings.Fields(c.edit)[1])
		}
		var msgs []string
		for _, m := range byName[n].GetMessageType() {
			msgs = append(msgs, m.GetName())
		}
		if !slices.Equal(msgs, want) {
			viol(where, "file %s has messages %q instead of %q: %s", n, msgs, want, desc)
		}
	}
	if !quiet { // the same as for a compiler that did nothing before
		fresh, err := compiler.New().Compile(context.Background(), f, opts...)
		if err != nil || len(fresh) != len(got) {
			viol(where, "a new compiler gives %d files (%v), the used one %d: %s", len(fresh), err, len(got), desc)
		} else {
			for i := range fresh {
				a, _ := proto.MarshalOptions{Deterministic: true}.Marshal(fresh[i])
				b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(got[i])
				if !bytes.Equal(a, b) { // the types of options are made anew each time
					viol(where, "a new compiler gives another descriptor of %s: %s", got[i].GetName(), desc)
				}
			}
		}
	}
	return true
}

// validate: the validator reports something exactly if a file is missing, whatever it
// was asked before.
func (c *impCall) validate(where, root string, all []*impFile, v *validator.Validator) {
	ps, f, path, _ := c.options(root)
	w := c.want(all)
	if w.unsure {
		return
	}
	if _, under := c.name(); !under {
		return
	}
	opts := []validator.ValidatorOption{validator.ImportPathOption(ps...)}
	if c.manual {
		opts = append(opts, validator.ManualImportOption())
	}
	// the files of rules are always looked for, recursively
	ok := w.missing == "" && !(c.manual && w.fed)
	for _, f := range all { // import paths below each other: files of rules have two names
		for _, n := range f.rules {
			if g := lookup(all, c.paths, n); g != nil {
				if name, _ := (&impCall{root: g, paths: c.paths}).name(); name != n {
					return
				}
			}
		}
	}
	if ok {
		seen := map[*impFile]bool{}
		var visit func(f *impFile) bool
		visit = func(f *impFile) bool {
			if seen[f] {
				return true
			}
			seen[f] = true
			for _, n := range append(slices.Clone(f.imports), f.rules...) {
				g := lookup(all, c.paths, n)
				if g == nil || (f.fed && slices.Contains(f.rules, n) && c.manual) || !visit(g) {
					return false
				}
			}
			return true
		}
		ok = visit(c.root)
	}
	outs := v.Validate(context.Background(), f, opts...)
	var errs []string
	for _, o := range outs {
		if !o.IsWarning {
			errs = append(errs, fmt.Sprintf("%s:%d:%d %s", o.Path, o.Start.Line, o.Start.Col, clip(o.Message)))
		}
	}
	count("validations", 1)
	if ok && len(errs) > 0 {
		viol(where, "the validator reports %q for a file whose imports are all there: import paths %q, file %s, manual imports %v", errs, ps, path, c.manual)
	}
	if !ok && len(errs) == 0 {
		viol(where, "the validator reports nothing though a file can't be found: import paths %q, file %s, manual imports %v", ps, path, c.manual)
	}
}

func clip(s string) string {
	s = strings.ReplaceAll(s, "\n", " | ")
	return s[:min(len(s), 300)]
}

// federatedLayout: a service whose dependencies are imported by a statement or by an
// import rule, from import paths of all sorts.
func federatedLayout(root string, r *rand.Rand, subject string) (int, int) {
	defer os.RemoveAll(root)
	dirs := slices.Clone(impDirs)
	r.Shuffle(len(dirs), func(i, j int) { dirs[i], dirs[j] = dirs[j], dirs[i] })
	svcDir, depDir, typDir := dirs[0], dirs[r.Intn(2)], dirs[r.Intn(3)]
	dep := "syntax = \"proto3\";\npackage dep;\noption go_package = \"example/dep;dep\";\nimport \"typ/typ.proto\";\nservice Dep { rpc Get(Req) returns (Res) {} }\nmessage Req { string id = 1; }\nmessage Res { typ.T t = 1; }\n"
	typ := "syntax = \"proto3\";\npackage typ;\noption go_package = \"example/typ;typ\";\nmessage T { string v = 1; }\n"
	var head string
	rule := r.Intn(2) == 0
	if rule {
		head = []string{"option (grpc.federation.file) = { import: [\"dep/dep.proto\"] };\n", "option (grpc.federation.file) = { import: \"dep/dep.proto\" };\n", "option (grpc.federation.file).import = \"dep/dep.proto\";\n"}[r.Intn(3)]
	} else {
		head = "import \"dep/dep.proto\";\n"
	}
	svc := "syntax = \"proto3\";\npackage svc;\noption go_package = \"example/svc;svc\";\nimport \"grpc/federation/federation.proto\";\n" + head + `service Svc {
  option (grpc.federation.service) = {};
  rpc Do(DoReq) returns (DoRes) {}
}
message DoReq { string id = 1; }
message DoRes {
  option (grpc.federation.message) = {
    def { name: "res" call { method: "dep.Dep/Get" request { field: "id" by: "$.id" } } }
    def { name: "v" by: "res.t.v" }
  };
  string v = 1 [(grpc.federation.field).by = "v"];
}
`
	drop := []string{"", "", "dep", "typ"}[r.Intn(4)]
	write := func(dir, rel, text string) {
		p := filepath.Join(root, dir, rel)
		os.MkdirAll(filepath.Dir(p), 0o755)
		os.WriteFile(p, []byte(text), 0o644)
	}
	write(svcDir, "svc/svc.proto", svc)
	if drop != "dep" {
		write(depDir, "dep/dep.proto", dep)
	}
	if drop != "typ" {
		write(typDir, "typ/typ.proto", typ)
	}
	cwd := filepath.Join(root, "cwd")
	os.MkdirAll(cwd, 0o755)
	os.Chdir(cwd)
	c := &impCall{root: &impFile{dir: svcDir, rel: "svc/svc.proto"}}
	for _, d := range []string{svcDir, depDir, typDir} {
		if !slices.Contains(c.paths, d) {
			c.paths = append(c.paths, d)
		}
	}
	r.Shuffle(len(c.paths), func(i, j int) { c.paths[i], c.paths[j] = c.paths[j], c.paths[i] })
	for range c.paths {
		c.form = append(c.form, r.Intn(4))
	}
	ps, _, path, _ := c.options(root)
	f, err := source.NewFile(path, []byte(svc))
	if err != nil {
		panic(err)
	}
	// nested directories give a file two names
	for _, a := range c.paths {
		for _, b := range c.paths {
			if a != b && strings.HasPrefix(b, a+"/") {
				return 0, 0
			}
		}
	}
	outs := validator.New().Validate(context.Background(), f, validator.ImportPathOption(ps...))
	var errs []string
	for _, o := range outs {
		if !o.IsWarning {
			errs = append(errs, clip(o.Message))
		}
	}
	if drop == "" && len(errs) > 0 {
		viol(subject, "imports %v by rule, import paths %q: the validator reports %q", rule, ps, errs)
	}
	if drop != "" && len(errs) == 0 {
		viol(subject, "imports by rule %v, import paths %q: no error although %s.proto isn't there", rule, ps, drop)
	}
	count("federated services over several import paths", 1)
	return 1, 1
}
