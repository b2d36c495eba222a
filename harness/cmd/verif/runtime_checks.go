package main

import (
	"fmt"
	"time"

	"verifharness/fedrt"
	"verifharness/fedsim"
)

// base is the general-purpose profile.
func base(name string, mods ...func(*fedsim.Profile)) fedsim.Profile {
	p := fedsim.Profile{Name: name, MinMsgs: 1, MaxMsgs: 4, MinDefs: 2, MaxDefs: 7, Methods: 2,
		WBy: 4, WCall: 4, WMsg: 3, WMap: 2, WValid: 1, WEnum: 1,
		PIf: 15, PReqIf: 15, PAuto: 35, PInline: 15, PAlias: 40, POneof: 20, PCustomField: 8, PCustomMsg: 10,
		PErr: 10, PRetry: 10, Depth: 3, Shared: true}
	for _, m := range mods {
		m(&p)
	}
	return p
}

// stress drives the definition evaluator of the runtime library directly.
func (c *Check) stress(race bool) {
	c.driver("./cmd/stress", race, 5*time.Minute, "-seed", fmt.Sprint(c.Seed), "-rounds", fmt.Sprint(c.N(400, 6000)))
}

func init() {
	checks["C01"] = func(c *Check) {
		c.Rule = "random federation program x random request x deterministic random replies, compared field by field with an independent evaluator; non-trivial: at least one dependent call and a non-empty response"
		c.campaign(fedrt.Campaign{Profile: base("c01"), Programs: c.N(16, 120), Requests: c.N(150, 600), PHold: 25, PDelay: 40}, false)
	}
	checks["C02"] = func(c *Check) {
		c.Rule = "random dependency graphs; every call seen by the client connection is matched with a declared one (method, request, attempt) and its predecessors; non-trivial: some call depends on another call"
		c.campaign(fedrt.Campaign{Profile: base("c02", func(p *fedsim.Profile) {
			p.MinDefs, p.MaxDefs, p.WCall, p.WBy, p.PIf, p.PReqIf, p.Depth, p.PErr = 3, 9, 7, 3, 20, 30, 2, 15
		}), Programs: c.N(16, 120), Requests: c.N(150, 600), PHold: 40, PDelay: 40, PFault: 20}, false)
		c.stress(false)
	}
	checks["C03"] = func(c *Check) {
		c.Rule = "every started call is held back until all calls the model allows to be in flight have been issued, then one is released at random; non-trivial: at least two calls in flight at once"
		c.campaign(fedrt.Campaign{Profile: base("c03", func(p *fedsim.Profile) {
			p.MinDefs, p.MaxDefs, p.WCall, p.WBy, p.WMsg, p.PIf, p.Depth = 3, 9, 8, 2, 4, 5, 2
			p.WValid, p.WMap, p.PErr, p.PRetry = 0, 1, 0, 0
		}), Programs: c.N(20, 150), Requests: c.N(60, 300), PHold: 100}, false)
	}
	checks["C05"] = func(c *Check) {
		c.Rule = "random error-handling blocks x injected failures (code, message, details, failing attempts), outcome compared with the model; non-trivial: an error was handled or failed the request"
		c.campaign(fedrt.Campaign{Profile: base("c05", func(p *fedsim.Profile) {
			p.PErr, p.PRetry, p.WCall, p.MaxMsgs = 85, 10, 7, 3
		}), Programs: c.N(16, 120), Requests: c.N(200, 800), PFault: 85, PDelay: 20, PPlain: 10}, false)
	}
	checks["C07"] = func(c *Check) {
		c.Rule = "sequences of failures and successes x retry policies, attempts compared with the model; in every fourth program the wait is seconds long and the request is cancelled during it; non-trivial: a call was retried"
		c.campaign(fedrt.Campaign{Profile: base("c07", func(p *fedsim.Profile) {
			p.PErr, p.PRetry, p.WCall, p.MaxMsgs, p.LongEvery, p.PTimeout = 20, 80, 7, 3, 4, 15
		}), Programs: c.N(16, 120), Requests: c.N(200, 800), PFault: 90, PDelay: 20, PPlain: 10, Parallel: 4}, false)
	}
	checks["C08"] = func(c *Check) {
		c.Rule = "calls that never return, with and without honouring their context, x declared timeouts x cancellation by the caller; deadlines seen by every call; goroutines left after all requests; non-trivial: a timeout was declared or a call was stuck"
		c.campaign(fedrt.Campaign{Profile: base("c08", func(p *fedsim.Profile) {
			p.PErr, p.PRetry, p.WCall, p.PTimeout, p.PMethodTimeout, p.ShortEvery = 0, 20, 6, 40, 50, 2
		}), Programs: c.N(16, 120), Requests: c.N(120, 500), PDelay: 30, PStuck: 50, PCancel: 50, Parallel: 8, Leaks: true}, false)
	}
	checks["C09"] = func(c *Check) {
		c.Rule = "random validation rules with details and nested definitions over random inputs, outcome compared with the model; non-trivial: a validation was evaluated"
		c.campaign(fedrt.Campaign{Profile: base("c09", func(p *fedsim.Profile) {
			p.WValid, p.WCall, p.WBy, p.PErr = 7, 3, 4, 5
		}), Programs: c.N(16, 120), Requests: c.N(200, 800), PDelay: 20, PFault: 5}, false)
	}
	checks["C11"] = func(c *Check) {
		c.Rule = "programs rich in aliases, enums, oneofs, integer widths, lists and maps with boundary values; non-trivial: at least one conversion"
		c.campaign(fedrt.Campaign{Profile: base("c11", func(p *fedsim.Profile) {
			p.PAlias, p.Extreme, p.WEnum, p.PAuto, p.POneof = 100, true, 3, 50, 30
		}), Programs: c.N(16, 120), Requests: c.N(200, 800), PDelay: 10}, false)
		c.casts()
	}
	checks["C12"] = func(c *Check) {
		c.Rule = "map definitions by expression, enum and message over lists from requests and replies, with failures of single elements; non-trivial: at least two elements mapped"
		c.campaign(fedrt.Campaign{Profile: base("c12", func(p *fedsim.Profile) {
			p.WMap, p.WMsg, p.PIf, p.PAlias, p.Lists, p.MaxDefs = 10, 2, 8, 60, true, 6
		}), Programs: c.N(16, 120), Requests: c.N(150, 600), PDelay: 40, PFault: 15, PHold: 10}, false)
	}
	checks["C13"] = func(c *Check) {
		c.Rule = "messages and fields resolved by user code: arguments, number of calls, results and errors compared with the model; non-trivial: user code was called"
		c.campaign(fedrt.Campaign{Profile: base("c13", func(p *fedsim.Profile) {
			p.PCustomField, p.PCustomMsg, p.PErr = 30, 45, 5
		}), Programs: c.N(16, 120), Requests: c.N(150, 600), PDelay: 40, PResolverFault: 25, PFault: 5}, false)
	}
	checks["C15"] = func(c *Check) {
		c.Rule = "conditional definitions, request fields and oneof cases over random truth assignments; non-trivial: a condition was false or a oneof case was chosen"
		c.campaign(fedrt.Campaign{Profile: base("c15", func(p *fedsim.Profile) {
			p.PIf, p.PReqIf, p.POneof, p.WEnum = 50, 50, 60, 1
		}), Programs: c.N(16, 120), Requests: c.N(150, 600), PDelay: 30, PHold: 15}, false)
	}
	checks["C10"] = func(c *Check) {
		c.Rule = "a dependent client or user code panics at one position of the request; non-trivial: the request has more than one call"
		c.campaign(fedrt.Campaign{Profile: base("c10", func(p *fedsim.Profile) {
			p.PCustomField, p.PCustomMsg, p.PErr, p.PRetry, p.PTimeout = 15, 20, 30, 20, 40
		}), Programs: c.N(16, 120), Requests: c.N(150, 600), PDelay: 30, PPanic: 60, Parallel: 4, Leaks: true}, false)
	}
	checks["C04"] = func(c *Check) {
		c.Rule = "concurrent requests to one service, race detector on, every response, call and error compared with the model of that request alone; non-trivial: more than one dependent call"
		c.campaign(fedrt.Campaign{Profile: base("c04"), Programs: c.N(8, 60), Requests: c.N(192, 960), PDelay: 50, PFault: 15, Parallel: 24}, true)
		c.stress(true)
	}
}
