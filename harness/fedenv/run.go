package fedenv

import (
	"context"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	grpcstatus "google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/durationpb"
)

// Service is one generated service.
type Service interface {
	Get(ctx context.Context, id string) (proto.Message, error)
	Close(ctx context.Context)
}

var registry = map[string]func() (Service, error){}

func Register(name string, f func() (Service, error)) { registry[name] = f }

// ShowCtx renders the values a custom resolver finds in its context.
func ShowCtx(env, vars any) string {
	return "env(" + showStruct(env) + ") var(" + showStruct(vars) + ")"
}

func showStruct(v any) string {
	rv := reflect.ValueOf(v)
	if !rv.IsValid() || rv.Kind() == reflect.Pointer && rv.IsNil() {
		return "nil"
	}
	rv = rv.Elem()
	var s []string
	for i := range rv.NumField() {
		if !rv.Field(i).CanInterface() {
			s = append(s, "?")
			continue
		}
		s = append(s, showGo(rv.Field(i)))
	}
	return strings.Join(s, ";")
}

func showGo(v reflect.Value) string {
	if d, ok := v.Interface().(time.Duration); ok {
		return Show(d)
	}
	if m, ok := v.Interface().(proto.Message); ok {
		if v.IsNil() {
			return "nil"
		}
		return showMsg(m.ProtoReflect())
	}
	switch v.Kind() {
	case reflect.Slice:
		var s []string
		for i := range v.Len() {
			s = append(s, showGo(v.Index(i)))
		}
		return "[" + strings.Join(s, " ") + "]"
	case reflect.Map:
		var s []string
		for _, k := range v.MapKeys() {
			s = append(s, showGo(k)+"="+showGo(v.MapIndex(k)))
		}
		sort.Strings(s)
		return "{" + strings.Join(s, " ") + "}"
	}
	return Show(v.Interface())
}

func showMsg(m protoreflect.Message) string {
	if d, ok := m.Interface().(*durationpb.Duration); ok {
		return Show(d.AsDuration())
	}
	f := m.Descriptor().Fields()
	return fmt.Sprintf("(%q %d)", m.Get(f.ByName("s")).String(), m.Get(f.ByName("n")).Int())
}

func showField(m protoreflect.Message, fd protoreflect.FieldDescriptor) string {
	one := func(fd protoreflect.FieldDescriptor, v protoreflect.Value) string {
		if fd.Kind() == protoreflect.MessageKind {
			return showMsg(v.Message())
		}
		return Show(v.Interface())
	}
	switch {
	case fd.IsMap():
		var s []string
		m.Get(fd).Map().Range(func(k protoreflect.MapKey, v protoreflect.Value) bool {
			s = append(s, Show(k.Interface())+"="+one(fd.MapValue(), v))
			return true
		})
		sort.Strings(s)
		return "{" + strings.Join(s, " ") + "}"
	case fd.IsList():
		l := m.Get(fd).List()
		var s []string
		for i := range l.Len() {
			s = append(s, one(fd, l.Get(i)))
		}
		return "[" + strings.Join(s, " ") + "]"
	case fd.Kind() == protoreflect.MessageKind && !m.Has(fd):
		return "nil"
	}
	return one(fd, m.Get(fd))
}

// Main runs the registered services under generated environments.
func Main() {
	seed := flag.Int64("seed", 1, "")
	trials := flag.Int("trials", 20, "")
	flag.Parse()
	evals, distinct, viols := 0, 0, 0
	counts := map[string]int{}
	viol := func(f string, a ...any) {
		viols++
		if viols <= 20 {
			fmt.Printf("VIOL %s\n", strings.ReplaceAll(fmt.Sprintf(f, a...), "\n", "\\n"))
		}
	}
	var names []string
	for n := range registry {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, name := range names {
		var idx int
		fmt.Sscanf(name, "envp%d", &idx)
		p := Generate(*seed, idx)
		r := rand.New(rand.NewSource(*seed*77 + int64(idx)))
		for range *trials {
			env := p.Trial(r)
			for k, v := range env {
				os.Setenv(k, v)
			}
			o := p.Predict(env)
			evals++
			if what := judge(p, registry[name], env, o, counts, r); what != "" {
				viol("%s with environment %q: %s", name, env, what)
			}
			if o.Err == "" && len(env) > 0 && o.Steps > 0 {
				distinct++
			}
			for k := range env {
				os.Unsetenv(k)
			}
		}
	}
	fmt.Printf("EVAL %d %d\n", evals, distinct)
	for k, n := range counts {
		fmt.Printf("COUNT %s %d\n", k, n)
	}
}

func judge(p *Program, mk func() (Service, error), env map[string]string, o *Outcome, counts map[string]int, r *rand.Rand) (what string) {
	defer func() {
		if x := recover(); x != nil {
			what = fmt.Sprintf("panic: %v", x)
		}
	}()
	svc, err := mk()
	if o.Err != "" {
		counts["refused_"+o.Err]++
		if err == nil {
			svc.Close(context.Background())
			return fmt.Sprintf("the service started, although it must fail (%s %s)", o.Err, o.Msg)
		}
		switch o.Err {
		case "required", "parse":
			if !strings.Contains(err.Error(), o.Msg) {
				return fmt.Sprintf("the error %q does not name the variable %s", err, o.Msg)
			}
		case "validation":
			st, ok := grpcstatus.FromError(err)
			if !ok || st.Message() != o.Msg {
				return fmt.Sprintf("the error %q is not the message of the failed validation: %q", err, o.Msg)
			}
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("the service does not start: %v", err)
	}
	defer svc.Close(context.Background())
	counts["started"]++
	for k := range env { // the environment is read once
		if r.Intn(3) == 0 {
			os.Setenv(k, "1")
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := range 3 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			id := fmt.Sprintf("r%d", i)
			res, err := svc.Get(context.Background(), id)
			mu.Lock()
			defer mu.Unlock()
			counts["requests"]++
			if err != nil {
				what = fmt.Sprintf("request %s failed: %v", id, err)
				return
			}
			m := res.ProtoReflect()
			fs := m.Descriptor().Fields()
			if got := m.Get(fs.ByName("id")).String(); got != id {
				what = fmt.Sprintf("id is %q instead of %q", got, id)
			}
			for _, mm := range []protoreflect.Message{m, m.Get(fs.ByName("sub")).Message()} {
				fs := mm.Descriptor().Fields()
				for i, v := range p.Env {
					if got, want := showField(mm, fs.ByName(protoreflect.Name(fmt.Sprintf("e_%d", i)))), Show(o.Env[v.Name]); got != want {
						what = fmt.Sprintf("%s: environment variable %s is %s instead of %s", mm.Descriptor().Name(), v.Name, got, want)
					}
					counts["values"]++
				}
				for i, v := range p.Vars {
					if v.Kind == "validation" {
						continue
					}
					if got, want := showField(mm, fs.ByName(protoreflect.Name(fmt.Sprintf("v_%d", i)))), Show(o.Vars[v.Name]); got != want {
						what = fmt.Sprintf("%s: service variable %s is %s instead of %s", mm.Descriptor().Name(), v.Name, got, want)
					}
					counts["values"]++
				}
			}
			var es, vs []string
			for _, v := range p.Env {
				es = append(es, Show(o.Env[v.Name]))
			}
			for _, v := range p.Vars {
				if v.Kind == "validation" {
					vs = append(vs, "?")
					continue
				}
				vs = append(vs, Show(o.Vars[v.Name]))
			}
			want := "env(" + strings.Join(es, ";") + ") var(" + strings.Join(vs, ";") + ")"
			if len(p.Vars) == 0 {
				want = "env(" + strings.Join(es, ";") + ") var(nil)"
			}
			if got := m.Get(fs.ByName("ctxenv")).String(); !matches(got, want) {
				what = fmt.Sprintf("a custom resolver sees %s instead of %s", got, want)
			}
		}()
	}
	wg.Wait()
	return what
}

// matches compares texts; "?" stands for the unspecified value of a validation.
func matches(got, want string) bool {
	if got == want {
		return true
	}
	g, w := strings.Split(got, ";"), strings.Split(want, ";")
	if len(g) != len(w) {
		return false
	}
	for i := range g {
		if g[i] != w[i] && !strings.HasSuffix(strings.TrimSuffix(w[i], ")"), "?") {
			return false
		}
	}
	return true
}
