// Package pipe drives the real generator pipeline of the repository under check.
package pipe

import (
	"context"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/pluginpb"

	"github.com/mercari/grpc-federation/compiler"
	"github.com/mercari/grpc-federation/generator"
	"github.com/mercari/grpc-federation/source"
)

func init() { log.SetOutput(io.Discard) }

// Config builds a generator configuration equal to what the CLI would load.
func Config(protoDir, outDir string) (generator.Config, error) {
	y := fmt.Sprintf(`
imports:
  - %[1]s
src:
  - %[1]s
out: %[2]s
plugins:
  - plugin: go
    opt: paths=source_relative
  - plugin: go-grpc
    opt: paths=source_relative
  - plugin: grpc-federation
    opt:
    - paths=source_relative
    - import_paths=%[1]s
`, protoDir, outDir)
	return generator.LoadConfigFromReader(strings.NewReader(y))
}

// Request runs the protoc plugin for some files below protoDir (named relative to it), the
// imports of which are all below protoDir too.
func Request(protoDir string, names ...string) (Output, error) {
	out := Output{}
	req := &pluginpb.CodeGeneratorRequest{FileToGenerate: names, Parameter: proto.String("paths=source_relative,import_paths=" + protoDir)}
	seen := map[string]bool{}
	for _, n := range names {
		b, err := os.ReadFile(filepath.Join(protoDir, n))
		if err != nil {
			return nil, err
		}
		f, err := source.NewFile(filepath.Join(protoDir, n), b)
		if err != nil {
			return nil, err
		}
		fds, err := compiler.New().Compile(context.Background(), f, compiler.ImportPathOption(protoDir))
		if err != nil {
			return nil, err
		}
		for _, fd := range fds {
			if !seen[fd.GetName()] {
				seen[fd.GetName()] = true
				req.ProtoFile = append(req.ProtoFile, fd)
			}
		}
	}
	res, err := quietly(func() (*pluginpb.CodeGeneratorResponse, error) {
		return generator.CreateCodeGeneratorResponse(context.Background(), req)
	})
	if err != nil {
		return nil, err
	}
	if res.GetError() != "" {
		return nil, fmt.Errorf("plugin error: %s", res.GetError())
	}
	for _, f := range res.GetFile() {
		out[f.GetName()] = f.GetContent()
	}
	return out, nil
}

// Output is generated file name -> content.
type Output map[string]string

// Generate runs the generator over every proto file of protoDir and returns what it would write.
func Generate(protoDir string) (out Output, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("generator panicked: %v", r)
		}
	}()
	cfg, err := Config(protoDir, "/nonexistent-out")
	if err != nil {
		return nil, err
	}
	m, err := quietly(func() (generator.BuildCacheMap, error) { return generator.New(cfg).GenerateAll(context.Background()) })
	if err != nil {
		return nil, err
	}
	out = Output{}
	for _, bc := range m {
		for _, res := range bc.Responses {
			if e := res.GetError(); e != "" {
				return nil, fmt.Errorf("plugin error: %s", e)
			}
			for _, f := range res.GetFile() {
				out[f.GetName()] = f.GetContent()
			}
		}
	}
	return out, nil
}

func (o Output) Names() []string {
	var n []string
	for k := range o {
		n = append(n, k)
	}
	sort.Strings(n)
	return n
}

// Write stores the output below dir.
func (o Output) Write(dir string) error {
	for name, content := range o {
		p := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
			return err
		}
	}
	return nil
}

// Silent says that standard output needs no protection from warnings.
var Silent bool

var quiet sync.Mutex

// quietly drops the warnings the generator prints.
// A process that has put its standard output aside sets Silent.
func quietly[T any](f func() (T, error)) (T, error) {
	if Silent {
		return f()
	}
	quiet.Lock()
	defer quiet.Unlock()
	old := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
		defer func() { os.Stdout = old; null.Close() }()
	}
	return f()
}
