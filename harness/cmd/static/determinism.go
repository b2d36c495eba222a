package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"

	"github.com/mercari/grpc-federation/compiler"
	"github.com/mercari/grpc-federation/generator"
	fedgen "github.com/mercari/grpc-federation/grpc/federation/generator"
	"github.com/mercari/grpc-federation/resolver"
	"github.com/mercari/grpc-federation/source"

	"verifharness/fedenv"
	"verifharness/fedgraph"
	"verifharness/fedsim"
	"verifharness/pipe"
)

// determinism: a program is generated again and again, in different directories, with
// unrelated files besides it, and with its files handed over in different orders.
func determinism(repo, scratch string, seed int64, n int) {
	type job struct {
		name  string
		texts map[string]string
		runs  int
	}
	var jobs []job
	for i := range n {
		jobs = append(jobs, job{fmt.Sprintf("graph%d", i), fedgraph.At(seed, i).Texts(), 6})
	}
	for i := range n / 4 {
		p := fedsim.Generate(seed, i, fedsim.Profile{Name: "static", MinMsgs: 1, MaxMsgs: 6, MinDefs: 2, MaxDefs: 8, Methods: 3,
			WBy: 4, WCall: 4, WMsg: 3, WMap: 2, WValid: 2, WEnum: 1, PIf: 20, PReqIf: 15, PAuto: 35, PInline: 15, PAlias: 40, POneof: 25, PCustomField: 8, PCustomMsg: 10,
			PErr: 60, PRetry: 20, PTimeout: 20, PMethodTimeout: 20, Depth: 2, Shared: true})
		jobs = append(jobs, job{fmt.Sprintf("sim%d", i), map[string]string{"dep/dep.proto": fedsim.DepProto(), p.GoDir + "/" + p.GoDir + ".proto": p.Proto()}, 6})
		e := fedenv.Generate(seed, i)
		jobs = append(jobs, job{fmt.Sprintf("env%d", i), map[string]string{"e/e.proto": e.Proto()}, 6})
	}
	for _, w := range load(repo, scratch, seed, 0) {
		if strings.Contains(w.name, "validator") {
			continue
		}
		for _, f := range w.fedFiles() { // each file of the corpora with what is beside it
			jobs = append(jobs, job{w.name + "/" + f.name, map[string]string{"": w.dir, "one": f.name}, 4})
		}
	}
	ch := make(chan int)
	var wg sync.WaitGroup
	evals, nontrivial := 0, 0
	for range 8 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				j := jobs[i]
				r := rand.New(rand.NewSource(seed*131 + int64(i)))
				e, d := repeat(r, filepath.Join(scratch, fmt.Sprintf("det%d", i)), j.name, j.texts, j.runs)
				mu.Lock()
				evals += e
				nontrivial += d
				mu.Unlock()
			}
		}()
	}
	for i := range jobs {
		ch <- i
	}
	close(ch)
	wg.Wait()
	fmt.Fprintf(stdout, "EVAL %d %d\n", evals, nontrivial)
}

// firstDiff shows where two texts differ.
func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range min(len(la), len(lb)) {
		if la[i] != lb[i] {
			return fmt.Sprintf("line %d: %.160q / %.160q", i+1, la[i], lb[i])
		}
	}
	return fmt.Sprintf("%d / %d lines", len(la), len(lb))
}

func sameOutput(name, how string, a, b map[string]string) bool {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		x, ok1 := a[k]
		y, ok2 := b[k]
		if ok1 != ok2 {
			viol("files "+how, "%s: %s is generated in one run only (%s)", name, k, how)
			return false
		}
		if x != y {
			viol("content "+how, "%s: %s differs between runs (%s): %s", name, k, how, firstDiff(x, y))
			if d := os.Getenv("STATIC_DUMP"); d != "" {
				_ = os.WriteFile(filepath.Join(d, "a.go"), []byte(x), 0o644)
				_ = os.WriteFile(filepath.Join(d, "b.go"), []byte(y), 0o644)
			}
			return false
		}
	}
	return true
}

// response is what the protoc plugin answers for the file, given its files in a certain order.
func response(file string, protos []*descriptorpb.FileDescriptorProto, importPath string) (map[string]string, error) {
	req := &pluginpb.CodeGeneratorRequest{FileToGenerate: []string{file}, Parameter: proto.String("paths=source_relative,import_paths=" + importPath), ProtoFile: protos}
	b, err := proto.Marshal(req)
	if err != nil {
		return nil, err
	}
	var req2 pluginpb.CodeGeneratorRequest
	if err := proto.Unmarshal(b, &req2); err != nil {
		return nil, err
	}
	resp, err := generator.CreateCodeGeneratorResponse(context.Background(), &req2)
	if err != nil {
		return nil, err
	}
	out := map[string]string{}
	for _, f := range resp.GetFile() {
		if old, ok := out[f.GetName()]; ok && old != f.GetContent() {
			return nil, fmt.Errorf("two contents for %s", f.GetName())
		}
		out[f.GetName()] = f.GetContent()
	}
	return out, nil
}

// pluginRequest is what a code generation plugin receives for the files.
func pluginRequest(importPath string, protos []*descriptorpb.FileDescriptorProto) []byte {
	var ps []*descriptorpb.FileDescriptorProto
	for _, p := range protos {
		ps = append(ps, proto.Clone(p).(*descriptorpb.FileDescriptorProto))
	}
	r, err := resolver.New(ps, resolver.ImportPathOption(importPath)).Resolve()
	if err != nil {
		return nil
	}
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(fedgen.CreateCodeGeneratorRequest(&fedgen.CodeGeneratorRequestConfig{GRPCFederationFiles: r.Files}))
	if err != nil {
		return nil
	}
	return b
}

// shuffle orders files at random such that every file follows its imports.
func shuffle(r *rand.Rand, protos []*descriptorpb.FileDescriptorProto) []*descriptorpb.FileDescriptorProto {
	byName := map[string]*descriptorpb.FileDescriptorProto{}
	for _, p := range protos {
		byName[p.GetName()] = p
	}
	var out []*descriptorpb.FileDescriptorProto
	seen := map[string]bool{}
	var add func(p *descriptorpb.FileDescriptorProto)
	add = func(p *descriptorpb.FileDescriptorProto) {
		if seen[p.GetName()] {
			return
		}
		seen[p.GetName()] = true
		for _, i := range r.Perm(len(p.GetDependency())) {
			if d := byName[p.GetDependency()[i]]; d != nil {
				add(d)
			}
		}
		out = append(out, p)
	}
	for _, i := range r.Perm(len(protos)) {
		add(protos[i])
	}
	return out
}

func repeat(r *rand.Rand, base, name string, texts map[string]string, runs int) (evals, nontrivial int) {
	defer os.RemoveAll(base)
	var first map[string]string
	names := []string{}
	corpus := texts["one"] != ""
	dir := texts[""]
	if !corpus {
		for k := range runs {
			dir = filepath.Join(base, fmt.Sprintf("r%d", k%3), "proto")
			if k < 3 {
				names = writeTexts(dir, texts)
			}
			if k == 2 { // something unrelated
				writeTexts(dir, map[string]string{"zz/unrelated.proto": "syntax = \"proto3\";\npackage zz;\noption go_package = \"scratch/zz;zz\";\nmessage U { string a = 1; }\n"})
			}
			var out pipe.Output
			var err error
			if w := guard("generator", 5*minute, func() { out, err = pipe.Generate(dir) }); w != "" {
				viol("crash", "%s: %s", name, w)
				return
			}
			if err != nil {
				viol("refused", "%s: %.500s", name, err)
				return
			}
			for f := range out {
				if strings.HasPrefix(f, "zz/") {
					delete(out, f)
				}
			}
			evals++
			if first == nil {
				first = out
				continue
			}
			if !sameOutput(name, "generator", first, out) {
				return
			}
		}
	} else {
		names = []string{texts["one"]}
	}
	for _, f := range names {
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			continue
		}
		src, err := source.NewFile(filepath.Join(dir, f), b)
		if err != nil {
			continue
		}
		protos, err := compiler.New().Compile(context.Background(), src, compiler.ImportPathOption(dir), compiler.ImportRuleOption())
		if err != nil {
			count("not_compiled", 1)
			debugf("NC %s %v", f, err)
			continue
		}
		var one map[string]string
		for k := range runs {
			ps := protos
			if k > 0 {
				ps = shuffle(r, protos)
			}
			var out map[string]string
			if w := guard("plugin", 5*minute, func() { out, err = response(f, ps, dir) }); w != "" {
				viol("crash", "%s: %s", name, w)
				break
			}
			if err != nil {
				if k == 0 || corpus {
					count("plugin_refused", 1)
					debugf("PR %s %.300s", f, err)
					break
				}
				viol("order", "%s: %s is accepted in one order of its files only: %.500s", name, f, err)
				break
			}
			evals++
			if one == nil {
				one = out
				nontrivial += len(out)
				continue
			}
			if !sameOutput(name, "order of files", one, out) {
				break
			}
		}
		var reqs []byte
		for k := range runs {
			b := pluginRequest(dir, protos)
			if b == nil {
				break
			}
			evals++
			if k == 0 {
				reqs = b
			} else if !bytes.Equal(b, reqs) {
				viol("plugin request", "%s: %s: the request for code generation plugins differs between runs", name, f)
				break
			}
		}
		h := sha256.New()
		var ks []string
		for k := range one {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			h.Write([]byte(k + one[k]))
		}
		if len(one) > 0 {
			mu.Lock()
			fmt.Fprintf(stdout, "HASH %s/%s %x\n", name, f, h.Sum(nil)[:8])
			mu.Unlock()
		}
	}
	return
}
