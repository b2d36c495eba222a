package fedplug

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"verifharness/fedplug/calc"
)

// Service is a generated service with its plugin.
type Service struct {
	Close func(context.Context)
	Call  []func(context.Context, proto.Message) (proto.Message, error)
}

// Maker makes services of a program.
type Maker struct {
	NewMsg, NewReq func() proto.Message
	New            func(wasm io.Reader, sha, cache string) (*Service, error)
}

var registry = map[string]Maker{}

// Register adds a program.
func Register(name string, m Maker) { registry[name] = m }

var (
	mu    sync.Mutex
	viols = map[string]int{}
	count = map[string]int{}
)

func viol(subject, format string, args ...any) {
	mu.Lock()
	defer mu.Unlock()
	viols[subject]++
	if viols[subject] <= 3 {
		fmt.Printf("VIOL %s: %s\n", subject, strings.ReplaceAll(fmt.Sprintf(format, args...), "\n", " / "))
	}
}

func inc(what string, n int) {
	mu.Lock()
	count[what] += n
	mu.Unlock()
}

func short(s string) string {
	if len(s) > 400 {
		return s[:200] + fmt.Sprintf("…(%d)…", len(s)) + s[len(s)-150:]
	}
	return s
}

// Main of the driver.
func Main() {
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 400, "requests per program")
	workers := flag.Int("workers", 8, "")
	dir := flag.String("dir", ".", "")
	only := flag.String("only", "", "")
	lives := flag.Int("lives", 0, "lifecycle histories instead of requests")
	flag.Parse()
	names := []string{}
	for k := range registry {
		names = append(names, k)
	}
	sort.Strings(names)
	evals, nontrivial := 0, 0
	var all sync.WaitGroup
	var em sync.Mutex
	if *lives > 0 {
		evals = life(*seed, *dir, *lives)
		nontrivial, names = evals, nil
	}
	for _, name := range names {
		if *only != "" && *only != name {
			continue
		}
		var i int
		fmt.Sscanf(name, "g%d", &i)
		all.Add(1)
		go func() {
			defer all.Done()
			p := Generate(*seed, i)
			a, b := p.run(*seed, *dir, *n, *workers)
			em.Lock()
			evals += a
			nontrivial += b
			em.Unlock()
		}()
	}
	all.Wait()
	fmt.Printf("EVAL %d %d\n", evals, nontrivial)
	ks := []string{}
	for k := range count {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("COUNT %s %d\n", k, count[k])
	}
}

func (p *Program) run(seed int64, dir string, n, workers int) (evals, nontrivial int) {
	mk := registry[p.GoDir]
	wasm, err := os.ReadFile(filepath.Join(dir, p.Plug()+".wasm"))
	if err != nil {
		panic(err)
	}
	sum := sha256.Sum256(wasm)
	sha := hex.EncodeToString(sum[:])
	cache := filepath.Join(dir, "cache")
	t0 := time.Now()
	// two services of the same program at the same time: each has its own plugin instance
	var svcs []*Service
	for range 2 {
		s, err := mk.New(bytes.NewReader(wasm), sha, cache)
		if err != nil {
			viol("construction", "%s: the plugin built from the generated code is refused: %v", p.GoDir, err)
			return 1, 0
		}
		svcs = append(svcs, s)
	}
	fmt.Printf("# %s: %d bytes of wasm, loaded in %v\n", p.GoDir, len(wasm), time.Since(t0))
	if p.GoDir == "g0" {
		p.binary(mk, svcs[0])
	}
	var id, nt, inFlight, most atomic.Int64
	var wg sync.WaitGroup
	jobs := make(chan int)
	for range workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				c := inFlight.Add(1)
				for {
					m := most.Load()
					if c <= m || most.CompareAndSwap(m, c) {
						break
					}
				}
				if p.one(mk, svcs[j%2], rand.New(rand.NewSource(seed*1000003+int64(j))), int(id.Add(1)), j) {
					nt.Add(1)
				}
				inFlight.Add(-1)
			}
		}()
	}
	done := make(chan struct{})
	go func() {
		wg.Wait()
		close(done)
	}()
	for j := range n {
		select {
		case jobs <- j:
		case <-time.After(60 * time.Second):
			viol("hang", "%s: no request ended for a minute", p.GoDir)
			stacks()
			return n, int(nt.Load())
		}
	}
	close(jobs)
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		viol("hang", "%s: requests do not end", p.GoDir)
	}
	inc("requests in flight at most", int(most.Load()))
	for _, s := range svcs {
		s.Close(context.Background())
	}
	return n, int(nt.Load())
}

// binary sends a request that carries binary metadata.
func (p *Program) binary(mk Maker, svc *Service) {
	for k, m := range p.Methods {
		req := mk.NewReq()
		st := &State{NewMsg: mk.NewMsg, Req: req.ProtoReflect()}
		if _, errs := m.Eval(st); len(errs) > 0 {
			continue
		}
		ctx := metadata.NewIncomingContext(context.Background(), metadata.MD{"trace-bin": {"\xff\x00\xfe"}})
		_, err := svc.Call[k](ctx, req)
		switch {
		case err == nil:
		case strings.Contains(err.Error(), "invalid UTF-8"):
			fmt.Printf("FINDING binary-metadata %s M%d: a request with the metadata trace-bin=ff00fe fails: %s\n", p.GoDir, k, short(err.Error()))
		default:
			viol("binary metadata", "%s M%d: %v", p.GoDir, k, err)
		}
		return
	}
}

func (p *Program) one(mk Maker, svc *Service, r *rand.Rand, id, j int) bool {
	k := r.Intn(len(p.Methods))
	m := p.Methods[k]
	req := mk.NewReq()
	calc.FillRequest(r, req)
	md := metadata.MD{"x-id": {fmt.Sprintf("id %d é", id)}}
	if r.Intn(2) == 0 {
		for range r.Intn(4) {
			md.Append("x-list", fmt.Sprintf("v%d-%d", id, r.Intn(10)))
		}
		md["x-empty"] = []string{""}
	}
	ctx := context.Background()
	withMD := r.Intn(10) > 0
	var want []string
	if withMD {
		ctx = metadata.NewIncomingContext(ctx, md)
		want = md.Get(m.Meta)
	}
	st := &State{NewMsg: mk.NewMsg, Req: req.ProtoReflect()}
	v, errs := m.Eval(st)
	inc("plugin calls", st.Calls)
	before := calc.Canon(req)
	res, err := svc.Call[k](ctx, req)
	what := func() string {
		return fmt.Sprintf("%s M%d [%s] of %s", p.GoDir, k, m.Out.CEL, short(prototext.MarshalOptions{}.Format(req)))
	}
	if before != calc.Canon(req) {
		viol("request changed", "%s", what())
	}
	if len(errs) > 0 {
		inc("failing requests", 1)
		if err == nil {
			viol("error lost", "%s: replied %s, want the error %q", what(), short(fmt.Sprint(res)), short(errs[0].Error()))
			return true
		}
		for _, e := range errs {
			if strings.Contains(err.Error(), e.Error()) {
				return true
			}
		}
		viol("error changed", "%s: failed with %q, want %q", what(), short(err.Error()), short(errs[0].Error()))
		return true
	}
	if err != nil {
		viol("call fails", "%s: %v", what(), short(err.Error()))
		return true
	}
	rm := res.ProtoReflect()
	fs := rm.Descriptor().Fields()
	got := Native(rm, fs.ByName("v"))
	if g, w := calc.Canon(got), calc.Canon(v); g != w {
		viol("result "+kind(m.Out.T), "%s: replied %s, want %s", what(), short(g), short(w))
	}
	var gm []string
	l := rm.Get(fs.ByName("md")).List()
	for i := range l.Len() {
		gm = append(gm, l.Get(i).String())
	}
	if strings.Join(gm, "|") != strings.Join(want, "|") || len(gm) != len(want) {
		viol("metadata", "%s: the plugin saw %s = %q, the request carries %q", what(), m.Meta, gm, want)
	}
	return true
}

func kind(t calc.Type) string {
	if t.List {
		return "list of " + t.Kind
	}
	return t.Kind
}

var _ = protoreflect.Name("")

func stacks() {
	b := make([]byte, 1<<22)
	os.Stderr.Write(b[:runtime.Stack(b, true)])
}
