// Package fedrt runs generated services against a fake dependency and monitors them.
package fedrt

import (
	"context"
	"errors"
	"fmt"
	"log/slog"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/protoadapt"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/dynamicpb"

	grpcfed "github.com/mercari/grpc-federation/grpc/federation"

	"verifharness/fedsim"
)

type Service interface {
	Call(ctx context.Context, method string, req proto.Message) (proto.Message, error)
	NewReq(method string) proto.Message
	Cleanup(ctx context.Context)
}

type Options struct {
	ErrorHandler grpcfed.ErrorHandler
	Logger       *slog.Logger
}

type Factory func(grpc.ClientConnInterface, *Options) (Service, error)

var factories = map[string]Factory{}

func Register(pkg string, f Factory) { factories[pkg] = f }

// Hold modes of an execution.
const (
	Immediate = iota
	Delay
	Hold
)

type pending struct {
	rec     *fedsim.CallRec
	release chan struct{}
}

// Exec is one monitored request.
type Exec struct {
	ID        string
	Run       *fedsim.Run
	Mode      int
	HonourCtx bool
	Stuck     map[string]bool // method+path -> never reply until the context ends
	Deaf      bool            // stuck calls ignore their context as well
	Cancel    string          // "": never; "fail": when a call which will be retried has failed; "stuck": when a stuck call has been issued
	MethodTO  time.Duration   // declared timeout of the method
	Slow      bool            // timeouts may strike under load

	cancel    context.CancelFunc
	begin     time.Time
	cancelled time.Time
	stuckAt   time.Time
	elapsed   time.Duration
	ended     time.Time
	over      chan struct{}

	mu       sync.Mutex
	matched  map[int]bool
	done     map[int]bool
	rmatched map[int]bool
	inflight map[int]*pending
	changed  chan struct{}
	Trace    []string
	Viol     []string
	Events   int
	MaxFly   int
	finished bool
	late     int
	ctxs     []context.Context
}

func NewExec(id string, run *fedsim.Run, mode int) *Exec {
	return &Exec{ID: id, Run: run, Mode: mode, matched: map[int]bool{}, done: map[int]bool{}, rmatched: map[int]bool{}, inflight: map[int]*pending{}, changed: make(chan struct{}, 1), over: make(chan struct{})}
}

func (e *Exec) violate(format string, a ...any) {
	e.Viol = append(e.Viol, fmt.Sprintf(format, a...))
}

func (e *Exec) note(format string, a ...any) {
	e.Events++
	e.Trace = append(e.Trace, fmt.Sprintf(format, a...))
}

func (e *Exec) signal() {
	select {
	case e.changed <- struct{}{}:
	default:
	}
}

var execs sync.Map // id -> *Exec
// Stray collects calls that belong to no execution.
var (
	strayMu sync.Mutex
	Stray   []string
)

func lookup(path string) *Exec {
	id := path
	if i := strings.IndexByte(path, '/'); i >= 0 {
		id = path[:i]
	}
	if v, ok := execs.Load(id); ok {
		return v.(*Exec)
	}
	return nil
}

// Conn is the fake connection of every dependent client.
type Conn struct{}

func (Conn) NewStream(context.Context, *grpc.StreamDesc, string, ...grpc.CallOption) (grpc.ClientStream, error) {
	return nil, errors.New("no streams")
}

func (Conn) Invoke(ctx context.Context, method string, args, reply any, _ ...grpc.CallOption) error {
	method = strings.TrimPrefix(method, "/")
	in := args.(proto.Message)
	req := fedsim.FromProto(in.ProtoReflect())
	path, _ := req.Get("path").(string)
	e := lookup(path)
	if e == nil {
		strayMu.Lock()
		Stray = append(Stray, method+" "+fedsim.Canon(req))
		strayMu.Unlock()
		return status.Error(codes.Internal, "stray call")
	}
	return e.invoke(ctx, method, req, reply.(proto.Message))
}

func (e *Exec) invoke(ctx context.Context, method string, req *fedsim.MsgV, reply proto.Message) error {
	key := method + " " + fedsim.Canon(fedsim.Wire(req))
	path, _ := req.Get("path").(string)
	e.mu.Lock()
	if e.finished {
		e.late++
	}
	var rec *fedsim.CallRec
	for _, c := range e.Run.Calls {
		if !e.matched[c.ID] && c.Key() == key {
			rec = c
			break
		}
	}
	e.ctxs = append(e.ctxs, ctx)
	if rec == nil {
		e.note("issue ? %s", key)
		if !e.cutShort() {
			e.violate("[call] unexpected dependent call: %s", key)
		}
		e.mu.Unlock()
		e.signal()
		return status.Error(codes.Internal, "unexpected call")
	}
	e.matched[rec.ID] = true
	if !e.cancelled.IsZero() && e.Cancel == "fail" && rec.Attempt > 0 {
		e.violate("[retry] attempt %d of call %s started %s after the request had been cancelled", rec.Attempt, key, time.Since(e.cancelled))
	}
	e.deadline(ctx, rec)
	doomed := e.doomed()
	for h := range rec.Hard {
		if !e.done[h] && !(doomed && e.aborted(h)) {
			e.violate("[order] call %s issued before %s, which it depends on, had completed", key, e.Run.Calls[h].Key())
		}
	}
	e.note("issue %d %s", rec.ID, key)
	p := &pending{rec: rec, release: make(chan struct{})}
	e.inflight[rec.ID] = p
	if len(e.inflight) > e.MaxFly {
		e.MaxFly = len(e.inflight)
	}
	mode := e.Mode
	e.mu.Unlock()
	e.signal()

	finish := func(what string) {
		e.mu.Lock()
		delete(e.inflight, rec.ID)
		e.done[rec.ID] = true
		e.note("return %d %s", rec.ID, what)
		e.mu.Unlock()
		e.signal()
	}
	if e.Stuck[method+" "+path] {
		e.mu.Lock()
		if e.stuckAt.IsZero() {
			e.stuckAt = time.Now()
		}
		deaf := e.Deaf
		e.mu.Unlock()
		if e.Cancel == "stuck" {
			e.cancelSoon()
		}
		if deaf {
			<-e.over
		}
		select {
		case <-ctx.Done():
		case <-time.After(30 * time.Second):
			e.mu.Lock()
			e.violate("[timeout] the context of call %s was not done 30s after its timeout or cancellation", key)
			e.mu.Unlock()
		}
		finish("ctx")
		return status.FromContextError(ctx.Err()).Err()
	}
	switch mode {
	case Hold:
		if e.HonourCtx {
			select {
			case <-p.release:
			case <-ctx.Done():
				finish("ctx")
				return status.FromContextError(ctx.Err()).Err()
			}
		} else {
			<-p.release
		}
	case Delay:
		r := rand.New(rand.NewSource(int64(len(key))*7919 + int64(rec.ID)*104729 + int64(len(e.ID))))
		switch r.Intn(4) {
		case 0:
			runtime.Gosched()
		case 1:
			time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
		case 2:
			time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
		}
	}
	if e.HonourCtx && ctx.Err() != nil {
		finish("ctx")
		return status.FromContextError(ctx.Err()).Err()
	}
	f := e.Run.Faults[method+" "+path]
	if f != nil && f.Kind != "" {
		if _, msg, _, fail := f.At(rec.Attempt); fail {
			finish(f.Kind)
			if f.Kind == "panic" {
				panic(f.Msg)
			}
			return errors.New(msg)
		}
	}
	if code, msg, details, fail := f.At(rec.Attempt); fail {
		finish("fail")
		if e.Cancel == "fail" {
			for _, c := range e.Run.Calls {
				if c.Key() == key && c.Attempt == rec.Attempt+1 {
					e.cancelSoon()
				}
			}
		}
		return makeStatus(code, msg, details).Err()
	}
	resp := fedsim.Backend(e.Run.P.Reg, e.Run.Salt, rec.Method, req, e.Run.Extreme)
	fedsim.ToProto(resp, reply.ProtoReflect())
	finish("ok")
	return nil
}

func (e *Exec) cancelSoon() {
	time.AfterFunc(30*time.Millisecond, func() {
		e.mu.Lock()
		defer e.mu.Unlock()
		if e.cancelled.IsZero() {
			e.cancelled = time.Now()
			e.note("cancel")
			e.cancel()
		}
	})
}

// deadline checks the deadline a call was given (e.mu is held).
func (e *Exec) deadline(ctx context.Context, rec *fedsim.CallRec) {
	dl, ok := ctx.Deadline()
	now := time.Now()
	low := e.begin.Add(4 * time.Minute) // the driver itself sets five minutes
	if rec.Timeout != "" {
		d, _ := time.ParseDuration(rec.Timeout)
		if !ok || dl.After(now.Add(d)) {
			e.violate("[timeout] call %s has a timeout of %s but its deadline is in %s", rec.Key(), d, dl.Sub(now))
		}
		if x := e.begin.Add(d); x.Before(low) {
			low = x
		}
	}
	if e.MethodTO > 0 {
		if !ok || dl.After(now.Add(e.MethodTO)) {
			e.violate("[timeout] the method has a timeout of %s but the deadline of call %s is in %s", e.MethodTO, rec.Key(), dl.Sub(now))
		}
		if x := e.begin.Add(e.MethodTO); x.Before(low) {
			low = x
		}
	}
	if ok && dl.Before(low) {
		e.violate("[timeout] the deadline of call %s is %s after the start of the request, which is earlier than any declared timeout", rec.Key(), dl.Sub(e.begin))
	}
}

// doomed reports whether the request has already failed for good.
func (e *Exec) doomed() bool {
	if !e.cancelled.IsZero() {
		return true
	}
	if len(e.Run.Errs) == 0 {
		return false
	}
	for id := range e.done {
		if e.Run.Calls[id].Fails {
			return true
		}
	}
	for _, x := range e.Run.Errs {
		if x.Call < 0 {
			return true
		}
	}
	return false
}

// aborted reports whether call h was given up because the request is being cancelled: a retry which is not
// started any more, or a call with a timeout which is not waited for any more.
func (e *Exec) aborted(h int) bool {
	c := e.Run.Calls[h]
	return (c.Attempt > 0 && !e.matched[h]) || c.Timeout != ""
}

// cutShort reports whether the request is being cancelled while some call may be given up: the error seen by its
// error handling is then the cancellation, which the model does not know.
func (e *Exec) cutShort() bool {
	if !e.doomed() {
		return false
	}
	for _, c := range e.Run.Calls {
		if e.aborted(c.ID) {
			return true
		}
	}
	return false
}

func makeStatus(code int, msg string, details []*fedsim.MsgV) *status.Status {
	st := status.New(codes.Code(code), msg)
	var ds []protoadapt.MessageV1
	for _, d := range details {
		mt, err := protoregistry.GlobalTypes.FindMessageByName(protoreflect.FullName(d.T))
		if err != nil {
			panic(err)
		}
		m := mt.New()
		fedsim.ToProto(d, m)
		ds = append(ds, protoadapt.MessageV1Of(m.Interface()))
	}
	if len(ds) > 0 {
		var err error
		st, err = st.WithDetails(ds...)
		if err != nil {
			panic(err)
		}
	}
	return st
}

var _ = dynamicpb.NewMessage

// Resolve is called by the generated service for user code.
func Resolve[T any](ctx context.Context, name string, arg any) (T, error) {
	var zero T
	got := map[string]fedsim.Value{}
	collect(reflect.ValueOf(arg), got)
	path, _ := got["path"].(string)
	if path == "" {
		path, _ = got["id"].(string)
	}
	e := lookup(path)
	if e == nil {
		strayMu.Lock()
		Stray = append(Stray, "resolver "+name+" path="+path)
		strayMu.Unlock()
		return zero, status.Error(codes.Internal, "stray resolver call")
	}
	e.mu.Lock()
	var best *fedsim.ResolverCall
	var why string
	for i, rc := range e.Run.RCalls {
		if e.rmatched[i] || !strings.EqualFold(rc.Name, name) {
			continue
		}
		if d := argDiff(rc.Args, got); d != "" {
			if why == "" || rc.Args["path"] == got["path"] {
				why = d
			}
			continue
		}
		e.rmatched[i] = true
		best = rc
		break
	}
	e.note("resolver %s", name)
	if best == nil && e.cutShort() {
		e.mu.Unlock()
		return zero, status.Error(codes.Internal, "cancelled")
	}
	if best == nil {
		e.violate("[resolver] custom resolver %s called with unexpected arguments or too often: %s", name, why)
		e.mu.Unlock()
		return zero, status.Error(codes.Internal, "unexpected resolver call")
	}
	e.mu.Unlock()
	if f := e.Run.RFaults[best.Name]; f != nil && f.Kind == "panic" {
		panic(f.Msg)
	}
	if f := e.Run.RFaults[best.Name]; f != nil && f.Kind == "plain" {
		return zero, errors.New(f.Msg)
	}
	if f := e.Run.RFaults[best.Name]; f != nil {
		return zero, makeStatus(f.Code, f.Msg, f.Details).Err()
	}
	t := e.Run.P.ResolverType(best.Name)
	v := fedsim.ResolverResult(e.Run.P, best.Name, t, best.Args)
	rv := reflect.ValueOf(&zero).Elem()
	toGo(v, rv)
	return zero, nil
}

func norm(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

func argDiff(want, got map[string]fedsim.Value) string {
	seen := map[string]bool{}
	for k, w := range want {
		g, ok := got[norm(k)]
		if !ok {
			return "missing argument " + k
		}
		seen[norm(k)] = true
		if fedsim.Canon(w) != fedsim.Canon(g) {
			return fmt.Sprintf("argument %s: want %s got %s", k, fedsim.Canon(w), fedsim.Canon(g))
		}
	}
	for k := range got {
		// definitions of error blocks are arguments too; they may or may not have been evaluated
		if !seen[k] && !strings.HasPrefix(k, "d") && !strings.HasPrefix(k, "xdef") && !strings.HasPrefix(k, "_def") {
			return "unexpected argument " + k
		}
	}
	return ""
}

func collect(v reflect.Value, out map[string]fedsim.Value) {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if !f.IsExported() {
			continue
		}
		if f.Anonymous {
			collect(v.Field(i), out)
			continue
		}
		out[norm(f.Name)] = fromGo(v.Field(i))
	}
}

func fromGo(v reflect.Value) fedsim.Value {
	if v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return fedsim.Null{}
		}
		if m, ok := v.Interface().(proto.Message); ok {
			return fedsim.FromProto(m.ProtoReflect())
		}
		return fromGo(v.Elem())
	}
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int32, reflect.Int64:
		return v.Int()
	case reflect.Uint32, reflect.Uint64:
		return v.Uint()
	case reflect.Float32, reflect.Float64:
		return v.Float()
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return fedsim.Bytes(v.Bytes())
		}
		out := make([]fedsim.Value, 0, v.Len())
		for i := 0; i < v.Len(); i++ {
			out = append(out, fromGo(v.Index(i)))
		}
		return out
	case reflect.Map:
		out := map[string]fedsim.Value{}
		for _, k := range v.MapKeys() {
			out[k.String()] = fromGo(v.MapIndex(k))
		}
		return out
	}
	panic("fromGo " + v.Type().String())
}

func toGo(v fedsim.Value, dst reflect.Value) {
	switch x := v.(type) {
	case fedsim.Null:
		return
	case *fedsim.MsgV:
		n := reflect.New(dst.Type().Elem())
		fedsim.ToProto(x, n.Interface().(proto.Message).ProtoReflect())
		dst.Set(n)
	case []fedsim.Value:
		s := reflect.MakeSlice(dst.Type(), len(x), len(x))
		for i, e := range x {
			toGo(e, s.Index(i))
		}
		dst.Set(s)
	case string:
		dst.SetString(x)
	case bool:
		dst.SetBool(x)
	case int64:
		dst.SetInt(x)
	case uint64:
		dst.SetUint(x)
	case float64:
		dst.SetFloat(x)
	case fedsim.Bytes:
		dst.SetBytes([]byte(x))
	default:
		panic(fmt.Sprintf("toGo %T", v))
	}
}

// ErrOf converts the observed error.
func ErrOf(err error) *fedsim.ErrV {
	st, ok := status.FromError(err)
	if !ok {
		return &fedsim.ErrV{Code: int(codes.Unknown), Msg: err.Error()}
	}
	e := &fedsim.ErrV{Code: int(st.Code()), Msg: st.Message()}
	for _, d := range st.Proto().GetDetails() {
		m, err := d.UnmarshalNew()
		if err != nil {
			e.Details = append(e.Details, "undecodable "+d.GetTypeUrl())
			continue
		}
		v := fedsim.FromProto(m.ProtoReflect())
		e.Details = append(e.Details, v.T+fedsim.Canon(v))
	}
	return e
}

// Do runs the request to its end and returns all violations seen.
func (e *Exec) Do(ctx context.Context, s Service, rpc string, req proto.Message, order *rand.Rand) (proto.Message, error) {
	ctx, e.cancel = context.WithCancel(ctx)
	defer e.cancel()
	e.begin = time.Now()
	execs.Store(e.ID, e)
	type result struct {
		m   proto.Message
		err error
		p   any
	}
	ch := make(chan result, 1)
	go func() {
		var r result
		defer func() {
			if p := recover(); p != nil {
				r.p = p
			}
			ch <- r
		}()
		r.m, r.err = s.Call(ctx, rpc, req)
	}()
	stop := make(chan struct{})
	var wg sync.WaitGroup
	if e.Mode == Hold {
		wg.Add(1)
		go func() { defer wg.Done(); e.schedule(order, stop) }()
	}
	var r result
	select {
	case r = <-ch:
	case <-time.After(90 * time.Second):
		e.mu.Lock()
		e.violate("[hang] the request did not complete within 90s; in flight: %d", len(e.inflight))
		for _, p := range e.inflight {
			close(p.release)
		}
		e.inflight = map[int]*pending{}
		e.mu.Unlock()
		close(stop)
		return nil, errors.New("hang")
	}
	close(stop)
	e.ended = time.Now()
	e.elapsed = e.ended.Sub(e.begin)
	wg.Wait()
	e.mu.Lock()
	close(e.over)
	e.finished = true
	for _, p := range e.inflight { // abandoned by the service (cancelled requests)
		select {
		case <-p.release:
		default:
			close(p.release)
		}
	}
	if r.p != nil {
		e.violate("[panic] the service panicked: %v", r.p)
		r.err = errors.New("panic")
	}
	e.mu.Unlock()
	return r.m, r.err
}

const frontierWatchdog = 20 * time.Second

// schedule releases held calls one at a time, each time only after every call that can run has been issued.
func (e *Exec) schedule(order *rand.Rand, stop chan struct{}) {
	timer := time.NewTimer(frontierWatchdog)
	defer timer.Stop()
	for {
		e.mu.Lock()
		want := fedsim.Frontier(e.Run.Calls, e.done)
		missing := -1
		failed := e.doomed()
		if failed {
			want = nil // the request is about to fail: nothing more has to start
		}
		for _, id := range want {
			if e.inflight[id] == nil && !e.done[id] {
				missing = id
			}
		}
		var rel *pending
		if missing < 0 && len(e.inflight) > 0 {
			var ids []int
			for id := range e.inflight {
				ids = append(ids, id)
			}
			for i := range ids {
				for j := i + 1; j < len(ids); j++ {
					if ids[j] < ids[i] {
						ids[i], ids[j] = ids[j], ids[i]
					}
				}
			}
			id := ids[order.Intn(len(ids))]
			select {
			case <-e.inflight[id].release:
			default:
				rel = e.inflight[id]
			}
		}
		e.mu.Unlock()
		if rel != nil {
			e.mu.Lock()
			id := rel.rec.ID
			e.mu.Unlock()
			close(rel.release)
			// wait until it has returned
			for {
				e.mu.Lock()
				d := e.done[id]
				e.mu.Unlock()
				if d {
					break
				}
				select {
				case <-e.changed:
				case <-stop:
					return
				case <-time.After(frontierWatchdog):
					return
				}
			}
			if !timer.Stop() {
				select {
				case <-timer.C:
				default:
				}
			}
			timer.Reset(frontierWatchdog)
			continue
		}
		select {
		case <-e.changed:
		case <-stop:
			return
		case <-timer.C:
			e.mu.Lock()
			if missing >= 0 {
				var fl []string
				for _, p := range e.inflight {
					fl = append(fl, p.rec.Def)
				}
				e.violate("[concurrency] call %s was not issued although everything it depends on has completed; it waits for unrelated calls in flight %v", e.Run.Calls[missing].Key(), fl)
			}
			for _, p := range e.inflight {
				select {
				case <-p.release:
				default:
					close(p.release)
				}
			}
			e.Mode = Immediate
			e.mu.Unlock()
			return
		}
	}
}

// Judge compares the outcome with the model.
func (e *Exec) Judge(m proto.Message, err error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	run := e.Run
	const grace = 2500 * time.Millisecond
	if !e.cancelled.IsZero() {
		if d := e.ended.Sub(e.cancelled); d > grace {
			e.violate("[cancel] the request ended %s after it had been cancelled", d)
		}
		if e.Cancel == "stuck" && err == nil {
			e.violate("[outcome] the request succeeded although it was cancelled and one of its calls never returned")
		}
		return
	}
	if e.Cancel == "" && !e.stuckAt.IsZero() {
		if err == nil {
			e.violate("[outcome] the request succeeded although one of its calls never returned")
			return
		}
		if got := ErrOf(err); got.Code != int(codes.DeadlineExceeded) {
			e.violate("[timeout] a declared timeout was exceeded but the request failed with %s", got.Key())
		}
		lim := fedsim.ShortCall
		if e.elapsed < lim {
			e.violate("[timeout] the request failed after %s, before any declared timeout", e.elapsed)
		}
		if e.elapsed > fedsim.ShortMethod+grace {
			e.violate("[timeout] the request ended only after %s", e.elapsed)
		}
		return
	}
	if e.Slow && err != nil && ErrOf(err).Code == int(codes.DeadlineExceeded) && e.elapsed >= fedsim.ShortCall {
		return
	}
	if len(run.Errs) > 0 {
		if err == nil {
			e.violate("[outcome] the request succeeded; expected one of %s", errKeys(run.Errs))
			return
		}
		got := ErrOf(err)
		for _, w := range run.Errs {
			if w.Plain || w.Key() == got.Key() {
				return
			}
		}
		e.violate("[error] got %s (%v); expected one of %s", got.Key(), err, errKeys(run.Errs))
		return
	}
	if err != nil {
		e.violate("[outcome] the request failed with %v; expected success", err)
		return
	}
	for _, c := range run.Calls {
		if !e.matched[c.ID] {
			e.violate("[call] declared call never issued: %s (attempt %d)", c.Key(), c.Attempt)
		}
	}
	for i, rc := range run.RCalls {
		if !e.rmatched[i] {
			e.violate("[resolver] custom resolver %s was not called", rc.Key())
		}
	}
	if m == nil || !m.ProtoReflect().IsValid() {
		e.violate("[response] nil response without error")
		return
	}
	got := fedsim.Canon(fedsim.Wire(fedsim.FromProto(m.ProtoReflect())))
	want := fedsim.Canon(fedsim.Wire(run.Resp))
	if got != want {
		e.violate("[response] got  %s\n           want %s", got, want)
	}
}

func errKeys(es []*fedsim.ErrV) string {
	var o []string
	for _, e := range es {
		o = append(o, e.Key())
	}
	return strings.Join(o, " OR ")
}
