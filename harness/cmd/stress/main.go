// Command stress drives the definition evaluator of the runtime library directly,
// the way generated code does, from many goroutines with shared definitions.
// It prints VIOL, COUNT and SAMPLE lines.
package main

import (
	"context"
	"errors"
	"flag"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/google/cel-go/cel"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	grpcfed "github.com/mercari/grpc-federation/grpc/federation"
)

type arg struct{ N int64 }

type local struct {
	*grpcfed.LocalValue
	vars map[string]any // written by setters, which run under the lock of the value
}

type node struct {
	name  string
	kind  int // 0 value 1 by 2 map 3 error 4 panic 5 false condition
	deps  []int
	count atomic.Int64
	want  any
}

var (
	mu    sync.Mutex
	viols int
)

func viol(f string, a ...any) {
	mu.Lock()
	defer mu.Unlock()
	viols++
	if viols <= 10 {
		fmt.Println("VIOL " + strings.ReplaceAll(fmt.Sprintf(f, a...), "\n", " "))
	}
}

func jitter(r *rand.Rand) {
	switch r.Intn(6) {
	case 0:
		time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
	case 1, 2:
		runtime.Gosched()
	}
}

func main() {
	seed := flag.Int64("seed", 1, "")
	rounds := flag.Int("rounds", 300, "")
	flag.Parse()
	envOpts := func() []cel.EnvOption {
		h := grpcfed.NewCELTypeHelper("stress", grpcfed.CELTypeHelperFieldMap{
			"stress.Arg": {"n": grpcfed.NewCELFieldType(grpcfed.CELIntType, "N")},
		})
		return grpcfed.NewDefaultEnvOptions(h)
	}()
	cache := map[int64]*grpcfed.CELCacheMap{}
	evals, distinct := 0, 0
	shared, groupsMax := 0, 0
	for round := 0; round < *rounds; round++ {
		shape := int64(round % 12) // rounds of one shape share compiled expressions
		pr := rand.New(rand.NewSource(*seed*1000 + shape))
		if cache[shape] == nil {
			cache[shape] = grpcfed.NewCELCacheMap()
		}
		n := 4 + pr.Intn(8)
		nodes := make([]*node, n)
		for i := range nodes {
			nd := &node{name: fmt.Sprintf("d%d", i)}
			nd.kind = []int{0, 0, 0, 1, 1, 2, 2, 5}[pr.Intn(8)]
			if i == n-1 {
				nd.kind = []int{0, 3, 4}[pr.Intn(3)]
			}
			for j := 0; j < i; j++ {
				if nodes[j].kind != 3 && nodes[j].kind != 4 && pr.Intn(3) == 0 {
					nd.deps = append(nd.deps, j)
				}
			}
			nodes[i] = nd
		}
		var workers sync.WaitGroup
		reqs := 1 + pr.Intn(3)
		for q := 0; q < reqs; q++ {
			workers.Add(1)
			go func() {
				defer workers.Done()
				mine := make([]*node, n)
				for i, x := range nodes {
					mine[i] = &node{name: x.name, kind: x.kind, deps: x.deps}
				}
				request(rand.New(rand.NewSource(*seed*77+int64(round)*5+int64(q))), envOpts, cache[shape], mine, int64(q))
			}()
		}
		workers.Wait()
		evals += reqs
		distinct += reqs
		shared += n
		if n > groupsMax {
			groupsMax = n
		}
	}
	fmt.Printf("COUNT definitions %d\nEVAL %d %d\nSAMPLE %d rounds over 12 graphs of up to %d definitions, every definition asked for by up to 12 goroutines\n", shared, evals, distinct, *rounds, groupsMax)
}

func request(r *rand.Rand, envOpts []cel.EnvOption, cache *grpcfed.CELCacheMap, nodes []*node, argN int64) {
	ctx, cancel := context.WithCancel(grpcfed.WithCELCacheMap(context.Background(), cache))
	defer cancel()
	v := &local{LocalValue: grpcfed.NewLocalValue(ctx, envOpts, "stress.Arg", &arg{argN}), vars: map[string]any{}}
	// expected values
	for i, nd := range nodes {
		s := argN + int64(i)*100
		for _, d := range nd.deps {
			switch x := nodes[d].want.(type) {
			case int64:
				s += x
			case []int64:
				s += int64(len(x))
			}
		}
		switch nd.kind {
		case 2:
			var l []int64
			for k := int64(0); k < s%5; k++ {
				l = append(l, k*s)
			}
			nd.want = l
		case 5:
			nd.want = int64(0)
		default:
			nd.want = s
		}
	}
	var eval func(r *rand.Rand, i int) error
	eval = func(r *rand.Rand, i int) error {
		nd := nodes[i]
		for _, d := range nd.deps {
			if err := eval(r, d); err != nil {
				return err
			}
		}
		jitter(r)
		sum := func(lookup func(string) any) int64 {
			s := argN + int64(i)*100
			for _, d := range nd.deps {
				switch x := lookup(nodes[d].name).(type) {
				case int64:
					s += x
				case []int64:
					s += int64(len(x))
				}
			}
			return s
		}
		terms := fmt.Sprintf("$.n + %d", i*100)
		for _, d := range nd.deps {
			if nodes[d].kind == 2 {
				terms += " + size(" + nodes[d].name + ")"
			} else {
				terms += " + " + nodes[d].name
			}
		}
		celSum := func(ctx context.Context) int64 {
			o, err := grpcfed.EvalCEL(ctx, &grpcfed.EvalCELRequest{Value: v, Expr: terms, OutType: reflect.TypeOf(int64(0)), CacheIndex: 1000 + i})
			if err != nil {
				viol("expression over completed definitions failed: %s: %v", terms, err)
				return 0
			}
			return o.(int64)
		}
		setInt := func(l *local, x int64) error { l.vars[nd.name] = x; return nil }
		jr := rand.New(rand.NewSource(r.Int63()))
		def := grpcfed.Def[int64, *local]{Name: nd.name, Type: grpcfed.CELIntType, Setter: setInt}
		switch nd.kind {
		case 0, 3, 4:
			def.Message = func(ctx context.Context, l *local) (any, error) {
				nd.count.Add(1)
				jitter(jr)
				s := celSum(ctx)
				jitter(jr)
				switch nd.kind {
				case 3:
					return nil, status.Error(codes.NotFound, nd.name)
				case 4:
					panic("panic in " + nd.name)
				}
				return s, nil
			}
		case 1:
			def.By, def.ByCacheIndex = terms, 1+i
			nd.count.Store(1)
		case 5:
			def.If, def.IfCacheIndex = "$.n < 0", 500+i
			def.Message = func(context.Context, *local) (any, error) {
				viol("a definition with a false condition was evaluated")
				return int64(1), nil
			}
			nd.count.Store(1)
		case 2:
			var src []int64
			k := int64(0)
			iter := fmt.Sprintf("it%d", i)
			return grpcfed.EvalDefMap(ctx, v, grpcfed.DefMap[[]int64, int64, *local]{
				Name: nd.name, Type: cel.ListType(cel.IntType),
				Setter:       func(l *local, x []int64) error { l.vars[nd.name] = x; return nil },
				IteratorName: iter, IteratorType: cel.IntType,
				IteratorSource: func(l *local) []int64 {
					nd.count.Add(1)
					s := sum(func(n string) any { return l.vars[n] })
					for k := int64(0); k < s%5; k++ {
						src = append(src, k)
					}
					return src
				},
				Iterator: func(ctx context.Context, iv *grpcfed.MapIteratorValue) (any, error) {
					jitter(jr)
					o, err := grpcfed.EvalCEL(ctx, &grpcfed.EvalCELRequest{Value: iv, Expr: iter + " * (" + terms + ")", OutType: reflect.TypeOf(int64(0)), CacheIndex: 2000 + i})
					if err != nil {
						return nil, err
					}
					k++
					return o, nil
				},
			})
		}
		err := grpcfed.EvalDef(ctx, v, def)
		if err == nil && r.Intn(3) == 0 {
			o, err := grpcfed.EvalCEL(ctx, &grpcfed.EvalCELRequest{Value: v, Expr: nd.name, OutType: reflect.TypeOf(int64(0)), CacheIndex: 3000 + i})
			if err != nil {
				viol("the value of %s is not visible after its definition completed: %v", nd.name, err)
			} else if o != nd.want {
				viol("%s is %v, want %v", nd.name, o, nd.want)
			}
		}
		return err
	}
	var wg sync.WaitGroup
	groups := 2 + r.Intn(6)
	for g := 0; g < groups; g++ {
		wg.Add(1)
		gr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer wg.Done()
			for _, i := range gr.Perm(len(nodes)) {
				if gr.Intn(4) == 0 && g > 0 {
					continue
				}
				err := func() (e error) {
					defer func() {
						if x := recover(); x != nil {
							viol("a panic in a definition escaped: %v", x)
						}
					}()
					return eval(gr, i)
				}()
				nd := nodes[i]
				switch nd.kind {
				case 3:
					if status.Code(err) != codes.NotFound || status.Convert(err).Message() != nd.name {
						viol("a failed definition reported %v", err)
					}
				case 4:
					var re *grpcfed.RecoveredError
					if !errors.As(err, &re) || !strings.Contains(re.Message, "panic in "+nd.name) {
						viol("a panicking definition reported %v", err)
					}
				default:
					if err != nil {
						viol("definition %s failed: %v", nd.name, err)
					}
				}
			}
		}()
	}
	wg.Wait()
	for _, nd := range nodes {
		if c := nd.count.Load(); c != 1 {
			viol("definition %s (kind %d) was evaluated %d times in one request", nd.name, nd.kind, c)
		}
		if nd.kind == 3 || nd.kind == 4 {
			continue
		}
		got := v.vars[nd.name]
		a, b := fmt.Sprint(got), fmt.Sprint(nd.want)
		if a != b {
			viol("definition %s holds %s, want %s", nd.name, a, b)
		}
	}
}
