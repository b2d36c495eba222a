package fedlog

import (
	"context"
	"errors"
	"flag"
	"fmt"
	"log/slog"
	"math/rand"
	"regexp"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// Service is a generated service.
type Service interface {
	Get(ctx context.Context, path string) (string, error)
	Shared(ctx context.Context, path string) (string, string, error)
}

type maker func(grpc.ClientConnInterface, *slog.Logger, func(context.Context, string, error) error) (Service, error)

var registry = map[string]maker{}

// Register adds a service.
func Register(name string, f maker) { registry[name] = f }

// --- monitors

type rec struct {
	level slog.Level
	msg   string
	attrs map[string]string // top-level attributes as text
	group []string          // keys in order, with repetitions
	text  string
}

// monitor keeps the records and calls of each request.
type monitor struct {
	mu      sync.Mutex
	records map[string][]*rec
	calls   map[string]map[string]int
	handled map[string]map[string]int
	stray   []string
	total   int
}

var idRe = regexp.MustCompile(`r\d+q`)

type handler struct {
	m     *monitor
	attrs []slog.Attr
}

func (h handler) Enabled(context.Context, slog.Level) bool { return true }
func (h handler) WithGroup(string) slog.Handler            { return h }
func (h handler) WithAttrs(a []slog.Attr) slog.Handler {
	return handler{h.m, append(slices.Clone(h.attrs), a...)}
}

func (h handler) Handle(_ context.Context, r slog.Record) error {
	x := &rec{level: r.Level, msg: r.Message, attrs: map[string]string{}}
	add := func(a slog.Attr) bool {
		v := a.Value.Resolve().String()
		if old, ok := x.attrs[a.Key]; ok && old != v {
			v = old + " / " + v
		}
		x.attrs[a.Key] = v
		x.group = append(x.group, a.Key)
		return true
	}
	for _, a := range h.attrs {
		add(a)
	}
	r.Attrs(add)
	x.text = fmt.Sprint(x.level, " ", x.msg, " ", x.attrs)
	ids := map[string]bool{}
	for _, id := range idRe.FindAllString(x.text, -1) {
		ids[id] = true
	}
	h.m.mu.Lock()
	defer h.m.mu.Unlock()
	h.m.total++
	if len(ids) == 0 { // of a call that was interrupted
		return nil
	}
	if len(ids) != 1 {
		if len(h.m.stray) < 10 {
			h.m.stray = append(h.m.stray, fmt.Sprintf("a record names %d requests: %s", len(ids), clip(x.text)))
		}
		return nil
	}
	for id := range ids {
		h.m.records[id] = append(h.m.records[id], x)
	}
	return nil
}

func clip(s string) string { return s[:min(len(s), 700)] }

type conn struct {
	m    *monitor
	hold sync.Map // request -> channel
}

func (c *conn) NewStream(context.Context, *grpc.StreamDesc, string, ...grpc.CallOption) (grpc.ClientStream, error) {
	return nil, errors.New("no streams")
}

func (c *conn) Invoke(ctx context.Context, method string, args, reply any, _ ...grpc.CallOption) error {
	in := args.(proto.Message).ProtoReflect()
	key := in.Get(in.Descriptor().Fields().ByName("key")).String()
	id, rest, _ := strings.Cut(key, "/")
	c.m.mu.Lock()
	if c.m.calls[id] == nil {
		c.m.calls[id] = map[string]int{}
	}
	n := c.m.calls[id][key]
	c.m.calls[id][key]++
	c.m.mu.Unlock()
	set := func(v string) {
		out := reply.(proto.Message).ProtoReflect()
		out.Set(out.Descriptor().Fields().ByName("v"), protoreflect.ValueOfString(v))
	}
	event := func(k string) chan struct{} {
		ch, _ := c.hold.LoadOrStore(id+k, make(chan struct{}))
		return ch.(chan struct{})
	}
	await := func(k string) {
		select {
		case <-event(k):
		case <-time.After(20 * time.Second):
		}
	}
	switch rest { // a fails and its block waits until b failed, too
	case "hold":
		close(event("held"))
		await("go")
		set("ok")
		return nil
	case "fail/b":
		await("held")
	case "go":
		close(event("go"))
		set("ok")
		return nil
	}
	if strings.HasPrefix(rest, "fail/") {
		return status.Error(codes.NotFound, "E:"+key)
	}
	select {
	case <-time.After(time.Duration(hash(fmt.Sprint("delay", key, n))%3000) * time.Microsecond):
	case <-ctx.Done():
		return status.FromContextError(ctx.Err()).Err()
	}
	if code, bad := Fails(key, n, mayFail(key)); bad {
		return status.Error(code, ErrText(key, n))
	}
	set(Reply(key))
	return nil
}

var current *Program

func mayFail(key string) bool { return current.mayFail(key) }

// mayFail follows the key through the messages.
func (p *Program) mayFail(key string) bool {
	parts := strings.Split(key, "/")[1:]
	m := p.Msgs[0]
	for i := 0; i < len(parts); i++ {
		name, _, _ := strings.Cut(parts[i], ".")
		var e *El
		for _, st := range m.Stages {
			for _, x := range st {
				if x.Name == name {
					e = x
				}
			}
		}
		if e == nil {
			return false
		}
		switch e.Kind {
		case "child", "map":
			m = e.Child
		case "call":
			if i == len(parts)-1 {
				return e.Fails
			}
			var k int
			if _, err := fmt.Sscanf(parts[i+1], "n%d", &k); err != nil || k >= len(e.Blocks) || e.Blocks[k].Child == nil {
				return false // a call of the block
			}
			m = e.Blocks[k].Child
			i++
		}
	}
	return false
}

// Main runs the registered services.
func Main() {
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 100, "")
	shared := flag.Bool("shared", false, "two calls of one message fail, too")
	flag.Parse()
	viols := 0
	viol := func(f string, a ...any) {
		viols++
		if viols <= 20 {
			fmt.Printf("VIOL %s\n", strings.ReplaceAll(fmt.Sprintf(f, a...), "\n", "\\n"))
		}
	}
	counts := map[string]int{}
	evals, distinct := 0, 0
	var names []string
	for k := range registry {
		names = append(names, k)
	}
	sort.Strings(names)
	found := ""
	id := 0
	for _, name := range names {
		var idx int
		fmt.Sscanf(name, "lg%d", &idx)
		p := Generate(*seed, idx)
		current = p
		m := &monitor{records: map[string][]*rec{}, calls: map[string]map[string]int{}, handled: map[string]map[string]int{}}
		c := &conn{m: m}
		s, err := registry[name](c, slog.New(handler{m, nil}), func(_ context.Context, method string, err error) error {
			if err == nil {
				return nil
			}
			id := idRe.FindString(err.Error())
			m.mu.Lock()
			defer m.mu.Unlock()
			if m.handled[id] == nil {
				m.handled[id] = map[string]int{}
			}
			m.handled[id][method]++
			return err
		})
		if err != nil {
			viol("%s: no service: %v", name, err)
			continue
		}
		r := rand.New(rand.NewSource(*seed + int64(idx)))
		for done := 0; done < *n; {
			k := 1 + r.Intn(8)
			var wg sync.WaitGroup
			type res struct {
				path, out string
				err       error
			}
			ress := make([]*res, k)
			for i := range k {
				id++
				ress[i] = &res{path: fmt.Sprintf("r%dq", id)}
				wg.Add(1)
				go func() {
					defer wg.Done()
					x := ress[i]
					x.out, x.err = s.Get(context.Background(), x.path)
				}()
			}
			wg.Wait()
			done += k
			for _, x := range ress {
				evals++
				o := p.Predict(x.path)
				if judge(viol, name, m, o, x.path, x.out, x.err, counts) {
					distinct++
				}
			}
		}
		m.mu.Lock()
		for _, t := range m.stray {
			viol("%s: %s", name, t)
		}
		counts["log records"] += m.total
		m.mu.Unlock()
		// one message, two calls that fail
		if !*shared {
			continue
		}
		id++
		path := fmt.Sprintf("r%dq", id)
		a, b, err := s.Shared(context.Background(), path)
		switch {
		case err != nil || b != "E:"+path+"/fail/b":
			viol("%s: two calls of a message fail and are answered with the message of their error: got %q, %q, %v", name, a, b, err)
		case a == "E:"+path+"/fail/b":
			found = fmt.Sprintf("calls a and b of one message fail at the same time: the error block of a sees the error of b (%s)", "a answered "+idRe.ReplaceAllString(a, "r"))
		case a != "E:"+path+"/fail/a":
			viol("%s: the call a failed with E:%s/fail/a; its error block saw %q", name, path, a)
		}
	}
	if found != "" {
		fmt.Printf("FINDING shared-error-variable %s\n", found)
	}
	fmt.Printf("EVAL %d %d\n", evals, distinct)
	for k, n := range counts {
		fmt.Printf("COUNT %s %d\n", k, n)
	}
}

func judge(viol func(string, ...any), name string, m *monitor, o *Outcome, path, out string, err error, counts map[string]int) bool {
	where := name + " request " + path
	m.mu.Lock()
	recs := m.records[path]
	calls := m.calls[path]
	m.mu.Unlock()
	var ends, mine []*rec
	for _, x := range recs {
		switch {
		case strings.HasPrefix(x.msg, "x:"):
			mine = append(mine, x)
		case x.attrs["grpc_status"] != "" || x.attrs["stack_trace"] != "":
			ends = append(ends, x)
		case len(o.Fails) > 0: // what is interrupted by the failure can't be handled
			counts["other records of failing requests"]++
		case x.level >= slog.LevelError:
			viol("%s: an error was logged besides the outcome: %s", where, clip(x.text))
		default:
			counts["debug records"]++
		}
	}
	// expressions
	seen := map[string]bool{}
	for _, x := range mine {
		w := o.Records[x.msg]
		counts["records of expressions"]++
		switch {
		case w == nil && len(o.Fails) > 0: // what is interrupted may handle that and go on
			continue
		case w == nil:
			viol("%s: unexpected record: %s", where, clip(x.text))
			continue
		case seen[x.msg]:
			viol("%s: logged twice: %s", where, clip(x.text))
		case x.level != w.Level:
			viol("%s: level %v instead of %v: %s", where, x.level, w.Level, clip(x.text))
		}
		seen[x.msg] = true
		if d := lack(x, w.Must); d != "" {
			viol("%s: a record lacks an attribute attached before it: %s: %s", where, d, clip(x.text))
		}
	}
	if len(o.Fails) == 0 {
		for key, k := range o.Attempts {
			if calls[key] != k {
				viol("%s: %d attempts of %s instead of %d", where, calls[key], key, k)
			}
			counts["calls"]++
			if k > 1 {
				counts["calls repeated"]++
			}
		}
		counts["requests answered"]++
		if err != nil || out != o.Out {
			viol("%s: the reply is %q, %v instead of %q", where, out, err, o.Out)
			return true
		}
		if len(ends) > 0 {
			viol("%s: the request succeeded, but an error was logged: %s", where, clip(ends[0].text))
		}
		for k := range o.Records {
			if !seen[k] {
				viol("%s: not logged: %s", where, k)
			}
		}
		return len(o.Records) > 0
	}
	counts["requests failed"]++
	if len(o.Fails) > 1 {
		counts["requests with several failures at once"]++
	}
	if err == nil {
		viol("%s: the request succeeded with %q instead of failing with one of %s", where, out, show(o.Fails))
		return true
	}
	st, _ := status.FromError(err)
	detail := ""
	for _, d := range st.Details() {
		if l, ok := d.(interface{ GetMessage() string }); ok {
			detail += l.GetMessage()
		}
	}
	var f *Failure
	for _, x := range o.Fails {
		if x.Code == st.Code() && x.Msg == st.Message() && x.Detail == detail {
			f = x
		}
	}
	if f == nil {
		viol("%s: failed with %v %q details %q instead of one of %s", where, st.Code(), st.Message(), detail, show(o.Fails))
		return true
	}
	if len(ends) != 1 {
		viol("%s: %d error records instead of one for %s: %v", where, len(ends), f.Msg, texts(ends))
		return true
	}
	x := ends[0]
	if x.msg != f.Msg || !strings.Contains(x.attrs["grpc_status"], f.Code.String()) || !strings.Contains(x.attrs["grpc_status"], f.Detail) {
		viol("%s: the error record says %s; the request failed with %v %q", where, clip(x.text), f.Code, f.Msg)
	}
	if x.level != f.Level {
		viol("%s: the error record has level %v instead of %v: %s", where, x.level, f.Level, clip(x.text))
	}
	if d := lack(x, f.Must); d != "" {
		viol("%s: the error record lacks an attribute attached before the failure: %s: %s", where, d, clip(x.text))
	}
	counts["attributes of error records checked"] += len(f.Must)
	return true
}

func texts(rs []*rec) (t []string) {
	for _, r := range rs {
		t = append(t, clip(r.text))
	}
	return
}

func lack(x *rec, must map[string]string) string {
	for k, v := range must {
		if x.attrs[k] != v {
			return fmt.Sprintf("%s=%q instead of %q", k, x.attrs[k], v)
		}
	}
	return ""
}

func show(fs []*Failure) string {
	var t []string
	for _, f := range fs {
		t = append(t, fmt.Sprintf("%v %q %q", f.Code, f.Msg, f.Detail))
	}
	return strings.Join(t, ", ")
}
