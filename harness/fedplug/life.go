package fedplug

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/google/cel-go/cel"
	"github.com/google/cel-go/common/types"
	"google.golang.org/grpc/metadata"

	fedcel "github.com/mercari/grpc-federation/grpc/federation/cel"

	"verifharness/fedplug/calc"
)

var oddFns = []*fedcel.CELFunction{
	{Name: "t.f", ID: "t_f", Args: []*cel.Type{cel.StringType}, Return: cel.StringType},
	{Name: "t.g", ID: "t_g", Args: []*cel.Type{cel.StringType}, Return: cel.StringType},
}

// patch makes the odd plugin of a mode.
func patch(wasm []byte, mode string) []byte {
	o := []byte("MODE=................")
	n := []byte("MODE=" + mode + strings.Repeat(".", 16-len(mode)))
	if bytes.Count(wasm, o) != 1 {
		panic(fmt.Sprintf("the marker occurs %d times", bytes.Count(wasm, o)))
	}
	return bytes.Replace(wasm, o, n, 1)
}

func hashOf(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:])
}

type failingReader struct{ n int }

func (f *failingReader) Read(b []byte) (int, error) {
	if f.n == 0 {
		return 0, errors.New("disk error")
	}
	n := min(f.n, len(b))
	f.n -= n
	return n, nil
}

// within runs f and reports whether it ended in time.
func within(d time.Duration, f func()) (ok bool, panicked any) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case p := <-done:
		return true, p
	case <-time.After(d):
		return false, nil
	}
}

// load makes and validates an instance.
func load(cfg fedcel.CELPluginConfig) (inst *fedcel.CELPluginInstance, err error) {
	p, err := fedcel.NewCELPlugin(context.Background(), cfg)
	if err != nil {
		return nil, err
	}
	reg, err := types.NewRegistry()
	if err != nil {
		return nil, err
	}
	inst = p.CreateInstance(context.Background(), reg)
	return inst, inst.ValidatePlugin(context.Background())
}

const limit = 20 * time.Second

// loading tries what may and may not be loaded.
func loading(odd, good []byte, cache string) (evals int) {
	type trial struct {
		name   string
		wasm   io.Reader
		sha    string
		accept bool
	}
	var ts []trial
	add := func(name string, b []byte, sha string, ok bool) {
		ts = append(ts, trial{name, bytes.NewReader(b), sha, ok})
	}
	normal := patch(odd, "normal")
	flip := func(i int) []byte {
		b := bytes.Clone(normal)
		b[i] ^= 1
		return b
	}
	add("declared binary", normal, hashOf(normal), true)
	add("a plugin with more functions", patch(odd, "more"), hashOf(patch(odd, "more")), true)
	add("last byte changed", flip(len(normal)-1), hashOf(normal), false)
	add("first byte changed", flip(0), hashOf(normal), false)
	add("a byte in the middle changed", flip(len(normal)/2), hashOf(normal), false)
	add("byte appended", append(bytes.Clone(normal), 0), hashOf(normal), false)
	add("truncated", normal[:len(normal)-1], hashOf(normal), false)
	add("other binary", patch(odd, "more"), hashOf(normal), false)
	add("other hash", normal, hashOf(good), false)
	add("no hash", normal, "", false)
	add("beginning of the hash", normal, hashOf(normal)[:32], false)
	add("hash with a digit changed", normal, changed(hashOf(normal)), false)
	add("no content", nil, hashOf(nil), false)
	add("random content", []byte("this is not wasm"), hashOf([]byte("this is not wasm")), false)
	half := normal[:len(normal)/2]
	add("half of a binary", half, hashOf(half), false)
	empty := []byte("\x00asm\x01\x00\x00\x00")
	add("a module without code", empty, hashOf(empty), false)
	ts = append(ts, trial{"no reader", nil, hashOf(normal), false})
	ts = append(ts, trial{"failing reader", &failingReader{100}, hashOf(make([]byte, 100)), false})
	for _, m := range []string{"exit0", "exit3", "panic", "garbage", "empty", "list", "noversion", "version2", "version0", "missing", "nofunctions", "similar", "garbagedeaf", "exitlater"} {
		b := patch(odd, m)
		add("plugin that answers: "+m, b, hashOf(b), false)
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i, t := range ts {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			var inst *fedcel.CELPluginInstance
			var err error
			ok, p := within(limit, func() {
				inst, err = load(fedcel.CELPluginConfig{Name: fmt.Sprintf("odd%d", i%3), Wasm: fedcel.WasmConfig{Reader: t.wasm, Sha256: t.sha}, Functions: oddFns, CacheDir: cache})
			})
			switch {
			case !ok:
				viol("loading hangs", "%s: loading does not end", t.name)
			case p != nil:
				viol("loading panics", "%s: %v", t.name, p)
			case t.accept && err != nil:
				viol("good plugin refused", "%s: %v", t.name, err)
			case !t.accept && err == nil:
				viol("bad plugin accepted", "%s", t.name)
			}
			if inst == nil {
				return
			}
			// whoever keeps the instance may still close it
			ok, p = within(limit, func() {
				inst.GC()
				_ = inst.Close(context.Background())
				inst.GC()
				_ = inst.Close(context.Background())
			})
			if !ok || p != nil {
				viol("close after loading", "%s: ended %v, panic %v", t.name, ok, p)
			}
		}()
	}
	wg.Wait()
	quiescent("loading")
	inc("binaries offered", len(ts))
	return len(ts)
}

func changed(h string) string {
	b := []byte(h)
	if b[5] == 'a' {
		b[5] = 'b'
	} else {
		b[5] = 'a'
	}
	return string(b)
}

var pluginRe = regexp.MustCompile(`grpc/federation/cel\.\(\*CELPlugin|tetratelabs/wazero`)

// quiescent waits until nothing of a plugin runs.
func quiescent(what string) {
	var left []string
	for range 200 {
		b := make([]byte, 1<<24)
		b = b[:runtime.Stack(b, true)]
		left = nil
		for _, g := range strings.Split(string(b), "\n\n") {
			if pluginRe.MatchString(g) {
				left = append(left, g)
			}
		}
		if len(left) == 0 {
			return
		}
		time.Sleep(50 * time.Millisecond)
	}
	viol("left running after "+what, "%d goroutines, for instance %s", len(left), left[0])
}

// history runs operations of several users on one instance.
func history(r *rand.Rand, k int, newInst func() (*fedcel.CELPluginInstance, error)) {
	inst, err := newInst()
	if err != nil {
		viol("good plugin refused", "history %d: %v", k, err)
		return
	}
	type op struct{ kind, arg string }
	var users [][]op
	fatal := r.Intn(3) == 0
	closers := 0
	for u := range 1 + r.Intn(4) {
		var ops []op
		for j := range 3 + r.Intn(12) {
			switch x := r.Intn(20); {
			case x < 10:
				ops = append(ops, op{"call", fmt.Sprintf("a%d-%d-%d", k, u, j)})
			case x < 12:
				ops = append(ops, op{"call", fmt.Sprintf("slow%d-%d-%d", k, u, j)})
			case x < 14:
				ops = append(ops, op{"call", []string{"garbage", "emptyline", "nothing", "error"}[r.Intn(4)]})
			case x < 15 && fatal:
				ops = append(ops, op{"call", []string{"die", "exit0", "exit3", "exitafter"}[r.Intn(4)]})
			case x < 16 && r.Intn(3) == 0:
				ops = append(ops, op{"close", ""})
				closers++
			default:
				ops = append(ops, op{"gc", ""})
			}
		}
		users = append(users, ops)
	}
	var closing, closed, dying, died atomic.Bool
	var wg sync.WaitGroup
	seeds := r.Int63()
	for u, ops := range users {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rr := rand.New(rand.NewSource(seeds + int64(u)))
			for j, o := range ops {
				if rr.Intn(3) == 0 {
					time.Sleep(time.Duration(rr.Intn(3)) * time.Millisecond)
				}
				where := fmt.Sprintf("history %d user %d step %d %s %s", k, u, j, o.kind, o.arg)
				ok, p := within(limit, func() {
					switch o.kind {
					case "gc":
						inst.GC()
						inc("gc", 1)
					case "close":
						closing.Store(true)
						_ = inst.Close(context.Background())
						closed.Store(true)
						inc("close", 1)
					case "call":
						wasClosed, wasDead := closed.Load(), died.Load()
						deadly := o.arg == "die" || strings.HasPrefix(o.arg, "exit")
						if deadly {
							dying.Store(true)
						}
						v := inst.Call(context.Background(), oddFns[j%2], metadata.MD{"k": {"v"}}, types.String(o.arg))
						if deadly {
							died.Store(true)
						}
						late := closing.Load() || dying.Load()
						isErr := types.IsError(v)
						fails := (deadly && o.arg != "exitafter") || o.arg == "garbage" || o.arg == "emptyline" || o.arg == "nothing" || o.arg == "error"
						switch {
						case v == nil:
							viol("no result", "%s", where)
						case isErr && (fails || late):
							inc("errors", 1)
						case isErr:
							viol("call fails", "%s: %v", where, v)
						case wasClosed:
							viol("result after close", "%s: %v", where, v)
						case wasDead && o.arg != "exitafter":
							viol("result after the plugin ended", "%s: %v", where, v)
						case fails || v.Value() != "r:"+o.arg:
							viol("wrong result", "%s: %v", where, v)
						default:
							inc("results", 1)
						}
					}
				})
				if !ok {
					viol("hang", "%s does not end (closing %v, plugin ended %v)", where, closing.Load(), dying.Load())
					return
				}
				if p != nil {
					viol("panic", "%s: %v", where, p)
				}
			}
		}()
	}
	wg.Wait()
	// cleaned up, again and again
	for range 1 + r.Intn(3) {
		ok, p := within(limit, func() { _ = inst.Close(context.Background()); inst.GC() })
		if !ok || p != nil {
			viol("last close", "history %d: ended %v, panic %v", k, ok, p)
			return
		}
	}
	ok, p := within(limit, func() {
		if v := inst.Call(context.Background(), oddFns[0], nil, types.String("x")); !types.IsError(v) {
			viol("result after close", "history %d: %v", k, v)
		}
	})
	if !ok || p != nil {
		viol("call after close", "history %d: ended %v, panic %v", k, ok, p)
	}
	if closers > 0 {
		inc("histories with close among calls", 1)
	}
	if dying.Load() {
		inc("histories with a plugin that ends", 1)
	}
}

// cleanup closes generated services while requests run.
func (p *Program) cleanup(r *rand.Rand, k int, mk Maker, svc *Service) {
	var closing, closed atomic.Bool
	var wg sync.WaitGroup
	seed := r.Int63()
	for u := range 6 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rr := rand.New(rand.NewSource(seed + int64(u)))
			for j := range 12 {
				if u < 2 && j == 4+u*3 {
					ok, pn := within(limit, func() {
						closing.Store(true)
						svc.Close(context.Background())
						closed.Store(true)
					})
					if !ok || pn != nil {
						viol("clean up", "service %d: ended %v, panic %v", k, ok, pn)
						return
					}
				}
				mi := rr.Intn(len(p.Methods))
				m := p.Methods[mi]
				req := mk.NewReq()
				calc.FillRequest(rr, req)
				st := &State{NewMsg: mk.NewMsg, Req: req.ProtoReflect()}
				v, errs := m.Eval(st)
				wasClosed := closed.Load()
				ok, pn := within(limit, func() {
					res, err := svc.Call[mi](context.Background(), req)
					late := closing.Load()
					switch {
					case err != nil && (strings.Contains(err.Error(), "closed channel") || strings.Contains(err.Error(), "nil pointer")):
						viol("crash during clean up", "service %d M%d: %v", k, mi, err)
					case err != nil && !late && len(errs) == 0:
						viol("request fails", "service %d M%d: %v", k, mi, err)
					case err != nil:
						inc("requests failing", 1)
					case wasClosed:
						viol("reply after clean up", "service %d M%d: every request needs the plugin, but it replied %s", k, mi, short(fmt.Sprint(res)))
					case len(errs) > 0:
						viol("error lost", "service %d M%d", k, mi)
					default:
						rm := res.ProtoReflect()
						if g, w := calc.Canon(Native(rm, rm.Descriptor().Fields().ByName("v"))), calc.Canon(v); g != w {
							viol("wrong reply", "service %d M%d: %s, want %s", k, mi, short(g), short(w))
						}
						inc("requests answered", 1)
					}
				})
				if !ok {
					viol("request hangs", "service %d M%d", k, mi)
					return
				}
				if pn != nil {
					viol("request panics", "service %d M%d: %v", k, mi, pn)
				}
			}
		}()
	}
	wg.Wait()
	svc.Close(context.Background())
}

// Life is the driver of plugin lifecycles.
func life(seed int64, dir string, n int) (evals int) {
	odd, err := os.ReadFile(filepath.Join(dir, "odd.wasm"))
	if err != nil {
		panic(err)
	}
	p := Generate(seed, 0)
	mk := registry[p.GoDir]
	good, err := os.ReadFile(filepath.Join(dir, p.Plug()+".wasm"))
	if err != nil {
		panic(err)
	}
	cache := filepath.Join(dir, "cache")
	evals += loading(odd, good, cache)
	normal := patch(odd, "normal")
	newInst := func() (*fedcel.CELPluginInstance, error) {
		return load(fedcel.CELPluginConfig{Name: "odd", Wasm: fedcel.WasmConfig{Reader: bytes.NewReader(normal), Sha256: hashOf(normal)}, Functions: oddFns, CacheDir: cache})
	}
	t0 := time.Now()
	for k := 0; k < n; k += 16 {
		var wg sync.WaitGroup
		for j := k; j < min(n, k+16); j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				history(rand.New(rand.NewSource(seed*999983+int64(j))), j, newInst)
			}()
			evals++
		}
		wg.Wait()
		quiescent("a history")
	}
	fmt.Printf("# %d histories in %v\n", n, time.Since(t0))
	t0 = time.Now()
	for k := range max(2, n/30) {
		svc, err := mk.New(bytes.NewReader(good), hashOf(good), cache)
		if err != nil {
			viol("construction", "%v", err)
			return
		}
		p.cleanup(rand.New(rand.NewSource(seed*31+int64(k))), k, mk, svc)
		evals++
		inc("services cleaned up under load", 1)
		quiescent("clean up of a service")
	}
	fmt.Printf("# services in %v\n", time.Since(t0))
	return evals
}
