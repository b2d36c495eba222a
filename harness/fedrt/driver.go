package fedrt

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log/slog"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"

	"verifharness/fedsim"
)

// Campaign describes one monitored run of the driver.
type Campaign struct {
	Property string
	Seed     int64
	Profile  fedsim.Profile
	Programs int
	Requests int // per program
	// PFault is the percentage of requests with injected faults, PHold/PDelay the percentage run under the hold scheduler / delays.
	PFault, PHold, PDelay, PResolverFault int
	PPanic                                int
	PPlain                                int // share of injected failures without status
	PStuck                                int
	PCancel                               int
	Parallel                              int // concurrent requests per service
	Leaks                                 bool
}

type Report struct {
	Evaluations int
	Distinct    int
	NonTrivial  int
	Counters    map[string]int
	Samples     []string
	Violations  []string
	Programs    int
}

type tally struct {
	mu       sync.Mutex
	rep      Report
	distinct map[uint64]bool
}

// enough ends a campaign that has already failed clearly.
func (t *tally) enough() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return len(t.rep.Violations) >= 24
}

func (t *tally) count(k string, n int) { t.rep.Counters[k] += n }

// NonTrivial decides, per property, whether an execution exercised the property.
func NonTrivial(p string, e *Exec) bool {
	r := e.Run
	switch p {
	case "C01":
		return len(r.Calls) > 0 && len(r.Errs) == 0 && len(r.Resp.F) > 0
	case "C02":
		for _, c := range r.Calls {
			if len(c.Hard) > 0 {
				return true
			}
		}
		return false
	case "C03":
		return e.MaxFly > 1
	case "C05":
		return r.Handled > 0 || len(r.Errs) > 0
	case "C07":
		return r.Retried > 0
	case "C08":
		return !e.cancelled.IsZero() || !e.stuckAt.IsZero() || e.MethodTO > 0
	case "C09":
		return r.Validations > 0
	case "C11":
		return r.Converts > 0
	case "C12":
		return r.Elements > 1
	case "C13":
		return len(r.RCalls) > 0
	case "C15":
		return r.FalseIf > 0 || r.Cases > 0
	}
	return len(r.Calls) > 1
}

func h64(s string) uint64 {
	h := fnv.New64a()
	_, _ = io.WriteString(h, s)
	return h.Sum64()
}

// Main is the entry point of the generated driver binary.
func Main() {
	cfg := flag.String("c", "", "campaign file")
	out := flag.String("o", "", "report file")
	flag.Parse()
	b, err := os.ReadFile(*cfg)
	if err != nil {
		panic(err)
	}
	var c Campaign
	if err := json.Unmarshal(b, &c); err != nil {
		panic(err)
	}
	rep := c.Execute()
	b, _ = json.MarshalIndent(rep, "", " ")
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		panic(err)
	}
}

func (c *Campaign) Execute() *Report {
	t := &tally{distinct: map[uint64]bool{}}
	t.rep.Counters = map[string]int{}
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.GOMAXPROCS(0))
	for n := 0; n < c.Programs; n++ {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			c.program(t, n)
		}()
	}
	wg.Wait()
	if len(Stray) > 0 {
		t.rep.Violations = append(t.rep.Violations, "[call] calls that belong to no request: "+strings.Join(Stray, " | "))
	}
	t.rep.Distinct = len(t.distinct)
	t.rep.Programs = c.Programs
	sort.Strings(t.rep.Violations)
	return &t.rep
}

func (c *Campaign) program(t *tally, n int) {
	p := fedsim.Generate(c.Seed, n, c.Profile)
	f := factories[p.Pkg]
	if f == nil {
		t.mu.Lock()
		t.rep.Violations = append(t.rep.Violations, "[generate] no service was generated for program "+p.Pkg)
		t.mu.Unlock()
		return
	}
	s, err := f(Conn{}, &Options{Logger: slog.New(slog.NewJSONHandler(io.Discard, nil))})
	if err != nil {
		t.mu.Lock()
		t.rep.Violations = append(t.rep.Violations, fmt.Sprintf("[start] service of program %s does not start: %v\n%s", p.Pkg, err, p.Proto()))
		t.mu.Unlock()
		return
	}
	par := c.Parallel
	if par < 1 {
		par = 1
	}
	for i := 0; i < c.Requests && !t.enough(); i += par {
		var wg sync.WaitGroup
		for j := i; j < i+par && j < c.Requests; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				c.one(t, p, s, n, j)
			}()
		}
		wg.Wait()
	}
	s.Cleanup(context.Background())
	if c.Leaks {
		c.leaks(t, p)
	}
}

// leaks reports goroutines of the program's service that remain after all its requests ended.
func (c *Campaign) leaks(t *tally, p *fedsim.Program) {
	marker := "scratch/" + p.GoDir + "."
	var left []string
	for wait := 0; wait < 100; wait++ {
		left = nil
		buf := make([]byte, 16<<20)
		for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
			if strings.Contains(g, marker) {
				left = append(left, g)
			}
		}
		if len(left) == 0 {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	t.count("leak_checks", 1)
	if len(left) > 0 {
		t.rep.Violations = append(t.rep.Violations, fmt.Sprintf("[leak] %d goroutines of program %s remain 10s after its last request ended, for example\n%s\n%s", len(left), p.Pkg, left[0], p.Proto()))
	}
}

// retryFault makes a call fail which is going to be retried.
func retryFault(r *rand.Rand, p *fedsim.Program, rpc *fedsim.RPC, req *fedsim.MsgV, salt string) (map[string]*fedsim.Fault, string) {
	run := p.Exec(rpc, req, salt, nil, nil)
	for _, i := range r.Perm(len(run.Calls)) {
		x := run.Calls[i]
		f := RandFault(r, p)
		f.Times, f.Codes = -1, nil
		fs := map[string]*fedsim.Fault{x.Method.Full() + " " + x.Path: f}
		for _, y := range p.Exec(rpc, req, salt, fs, nil).Calls {
			if y.Attempt > 0 {
				return fs, "fail"
			}
		}
	}
	return nil, ""
}

func (c *Campaign) one(t *tally, p *fedsim.Program, s Service, n, i int) {
	r := rand.New(rand.NewSource(c.Seed*1_000_003 + int64(n)*100_003 + int64(i)))
	rpc := p.RPCs[r.Intn(len(p.RPCs))]
	id := fmt.Sprintf("p%dr%d", n, i)
	req := fedsim.RandMsg(r, p.Reg, rpc.Req, 0, p.P.Extreme)
	req.F["id"] = id
	salt := id
	run := p.Exec(rpc, req, salt, nil, nil)
	var faults, rfaults map[string]*fedsim.Fault
	pct := func(k int) bool { return k > 0 && r.Intn(100) < k }
	if pct(c.PFault) {
		faults = PickFaults(r, p, run)
		for _, k := range sortedFaults(faults) {
			if pct(c.PPlain) {
				faults[k].Kind, faults[k].Msg = "plain", "plain failure "+faults[k].Msg
			}
		}
		run = p.Exec(rpc, req, salt, faults, nil)
	}
	if pct(c.PResolverFault) && len(run.RCalls) > 0 {
		rc := run.RCalls[r.Intn(len(run.RCalls))]
		rfaults = map[string]*fedsim.Fault{rc.Name: RandFault(r, p)}
		rfaults[rc.Name].Times = -1
		run = p.Exec(rpc, req, salt, faults, rfaults)
	}
	if pct(c.PPanic) && len(run.Errs) == 0 && len(run.Calls)+len(run.RCalls) > 0 {
		k := r.Intn(len(run.Calls) + len(run.RCalls))
		if k < len(run.Calls) {
			x := run.Calls[k]
			faults = map[string]*fedsim.Fault{x.Method.Full() + " " + x.Path: {Kind: "panic", Times: -1, Msg: "injected panic in " + x.Method.Full()}}
		} else {
			x := run.RCalls[k-len(run.Calls)]
			rfaults = map[string]*fedsim.Fault{x.Name: {Kind: "panic", Times: -1, Msg: "injected panic in resolver " + x.Name}}
		}
		run = p.Exec(rpc, req, salt, faults, rfaults)
	}
	cancelMode := ""
	stuck := map[string]bool{}
	deaf := false
	switch {
	case p.Long:
		// only requests which are cancelled while they wait for the next attempt
		faults, cancelMode = retryFault(r, p, rpc, req, salt)
		rfaults = nil
		run = p.Exec(rpc, req, salt, faults, nil)
	case c.PStuck > 0 && p.Short && pct(c.PStuck), c.PCancel > 0 && !p.Short && pct(c.PCancel):
		faults, rfaults = nil, nil
		run = p.Exec(rpc, req, salt, nil, nil)
		var cand []*fedsim.CallRec
		for _, x := range run.Calls {
			if !p.Short || x.Timeout != "" || rpc.Timeout != "" {
				cand = append(cand, x)
			}
		}
		if len(cand) > 0 && len(run.Errs) == 0 {
			x := cand[r.Intn(len(cand))]
			stuck[x.Method.Full()+" "+x.Path] = true
			deaf = r.Intn(2) == 0 && (x.Timeout != "" || rpc.Timeout != "")
			if !p.Short {
				cancelMode = "stuck"
			}
		}
	}
	mode := Immediate
	if pct(c.PHold) {
		mode = Hold
	} else if pct(c.PDelay) {
		mode = Delay
	}
	e := NewExec(id, run, mode)
	e.Cancel, e.Stuck, e.Deaf, e.Slow = cancelMode, stuck, deaf, p.Short
	if rpc.Timeout != "" {
		e.MethodTO, _ = time.ParseDuration(rpc.Timeout)
	}
	if mode == Hold && (cancelMode != "" || len(stuck) > 0 || p.Short || c.PPanic > 0) {
		e.Mode = Delay
	}
	in := s.NewReq(rpc.Name)
	fedsim.ToProto(req, in.ProtoReflect())
	keep := proto.Clone(in)
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Minute)
	m, err := e.Do(ctx, s, rpc.Name, in, r)
	cancel()
	e.Judge(m, err)
	if !proto.Equal(in, keep) {
		e.violate("[response] the request message was modified: %v -> %v", keep, in)
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	t.rep.Evaluations++
	t.count("events", e.Events)
	t.count("calls", len(run.Calls))
	t.count("resolver_calls", len(run.RCalls))
	t.count("false_conditions", run.FalseIf)
	t.count("handled_errors", run.Handled)
	t.count("ignored_errors", run.Ignored)
	t.count("retries", run.Retried)
	t.count("map_elements", run.Elements)
	t.count("validations", run.Validations)
	t.count("oneof_cases", run.Cases)
	t.count("conversions", run.Converts)
	if len(run.Errs) > 0 {
		t.count("failing_requests", 1)
	}
	if !e.cancelled.IsZero() {
		t.count("cancelled_requests", 1)
	}
	if !e.stuckAt.IsZero() {
		t.count("stuck_requests", 1)
	}
	if e.Mode == Hold {
		t.count("held_schedules", 1)
	}
	if e.MaxFly > t.rep.Counters["max_in_flight"] {
		t.rep.Counters["max_in_flight"] = e.MaxFly
	}
	if NonTrivial(c.Property, e) {
		t.rep.NonTrivial++
		t.distinct[h64(p.Pkg+"|"+strings.ReplaceAll(strings.Join(e.Trace, "\n"), id, ""))] = true
		if len(t.rep.Samples) < 2 {
			t.rep.Samples = append(t.rep.Samples, fmt.Sprintf("program %d request %d (%s): %d calls, trace %.600s", n, i, fedsim.Canon(req), len(run.Calls), strings.Join(e.Trace, " ; ")))
		}
	}
	if len(e.Viol) > 0 {
		t.rep.Violations = append(t.rep.Violations, fmt.Sprintf("program %d request %d seed %d profile %s\nrequest: %s %s\nfaults: %s resolver faults: %s cancel %q stuck %v deaf %v mode %d\n%s\ntrace:\n%s\nproto:\n%s", n, i, c.Seed, c.Profile.Name, rpc.Name, fedsim.Canon(req), faultString(faults), faultString(rfaults), cancelMode, stuck, deaf, mode, strings.Join(e.Viol, "\n"), strings.Join(e.Trace, "\n"), p.Proto()))
	}
}

func sortedFaults(m map[string]*fedsim.Fault) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func faultString(m map[string]*fedsim.Fault) string {
	var o []string
	for k, f := range m {
		o = append(o, fmt.Sprintf("%s => %s times=%d code=%d codes=%v msg=%q details=%d", k, f.Kind, f.Times, f.Code, f.Codes, f.Msg, len(f.Details)))
	}
	sort.Strings(o)
	return strings.Join(o, " ; ")
}

func RandFault(r *rand.Rand, p *fedsim.Program) *fedsim.Fault {
	f := &fedsim.Fault{Code: fedsim.FaultCodes[r.Intn(len(fedsim.FaultCodes))], Msg: fedsim.FaultMsgs[r.Intn(len(fedsim.FaultMsgs))], Times: -1}
	if r.Intn(3) == 0 {
		f.Times = 1 + r.Intn(3)
	}
	if r.Intn(3) == 0 {
		f.Codes = []int{f.Code, fedsim.FaultCodes[r.Intn(len(fedsim.FaultCodes))], fedsim.FaultCodes[r.Intn(len(fedsim.FaultCodes))]}
	}
	n := r.Intn(4)
	for i := 0; i < n; i++ {
		f.Details = append(f.Details, randDetail(r, p))
		if r.Intn(4) == 0 {
			// several details of one kind
			d := randDetail(r, p)
			for d.T != f.Details[len(f.Details)-1].T {
				d = randDetail(r, p)
			}
			f.Details = append(f.Details, d)
		}
	}
	return f
}

func randDetail(r *rand.Rand, p *fedsim.Program) *fedsim.MsgV {
	leaves := fedsim.DetailLeaves
	fill := func(d *fedsim.MsgV, desc *fedsim.MsgDesc) {
		for _, f := range desc.Fields {
			if r.Intn(5) != 0 {
				d.F[f.Name] = leaves[r.Intn(len(leaves))]
			}
		}
	}
	i := p.RandKind(r)
	if r.Intn(10) == 0 {
		i = len(fedsim.ErrKinds)
	}
	if i == len(fedsim.ErrKinds) {
		d := fedsim.NewMsg("dep.Leaf")
		d.F["name"] = leaves[r.Intn(len(leaves))]
		return d
	}
	k := fedsim.ErrKinds[i]
	d := fedsim.NewMsg(k.D.FQDN)
	if k.Field == "error_info" {
		d.F["reason"], d.F["domain"] = fedsim.FaultReasons[r.Intn(2)], leaves[r.Intn(len(leaves))]
		return d
	}
	if k.Sub == nil {
		fill(d, k.D)
		return d
	}
	var l []fedsim.Value
	for n := r.Intn(3); n >= 0; n-- {
		v := fedsim.NewMsg(k.Sub.FQDN)
		fill(v, k.Sub)
		l = append(l, v)
	}
	d.F[k.List] = l
	return d
}

// PickFaults injects at most one fault per message instance, so that which error is being handled is never ambiguous.
func PickFaults(r *rand.Rand, p *fedsim.Program, run *fedsim.Run) map[string]*fedsim.Fault {
	out := map[string]*fedsim.Fault{}
	used := map[string]bool{}
	count := map[string]int{}
	for _, c := range run.Calls {
		count[c.Method.Full()+" "+c.Path]++
	}
	want := 1 + r.Intn(2)
	perm := r.Perm(len(run.Calls))
	for _, i := range perm {
		c := run.Calls[i]
		k := c.Method.Full() + " " + c.Path
		if used[c.Inst] || want == 0 {
			continue
		}
		used[c.Inst] = true
		f := RandFault(r, p)
		if count[k] > 1 {
			f.Times = -1
			f.Codes = nil
		}
		out[k] = f
		want--
	}
	return out
}
