package main

import (
	"fmt"
	"strings"
	"time"

	"verif/harness/ref"
)

var (
	profMixed = tProfile{maxOps: 16, rootBias: 0.35, disorder: 0.08, faultP: []int{0, 0, 1, 1, 2}, delegs: 3}
	profRoot  = tProfile{maxOps: 14, rootBias: 0.85, disorder: 0.05, faultP: []int{0, 0, 1, 1, 2}, delegs: 0}
	profOrder = tProfile{maxOps: 16, rootBias: 0.4, disorder: 0.35, faultP: []int{0, 0, 0, 1}, delegs: 2}
	profTarg  = tProfile{maxOps: 20, rootBias: 0.1, disorder: 0.03, faultP: []int{0, 0, 0, 0, 1}, delegs: 5}
	profBase  = tProfile{maxOps: 18, rootBias: 0.15, disorder: 0.03, faultP: []int{0, 0, 1}, delegs: 2, adv: 0.4}
)

const (
	ruleT = "random call sequences on the trusted metadata set with honest, damaged, replayed and misplaced documents, every call compared with a reference model; "
	ruleU = "random histories of client sessions (refresh, lookups, downloads) on a real cache directory against a simulated repository with honest, crafted, stale, mixed and failing answers, every operation, request, trusted document and cached file compared with a reference client; "
	ruleN = "non-trivial cases are distinct combinations of operation, phase or scenario, fault set and outcome"
)

var asmCommon = []string{"Go's crypto libraries and the Go runtime are trusted", "metadata features without a defined meaning (see DESIGN.md, unjudged) are not generated"}

// outliveCase lets a document end while a session goes on.
func outliveCase(c *Case) {
	r := c.Rng
	w := newUWorld(c, uExpiry)
	if chance(r, 0.5) {
		w.p.Evolve()
	}
	kind := ""
	end := time.Now().Truncate(time.Second).Add(time.Duration(5+r.Intn(2)) * time.Second)
	kind = w.endAt(func() time.Time { return end })
	w.publishState()
	st := w.states[len(w.states)-1]
	root := pick(r, w.p.Roots[max(0, len(w.p.Roots)-2):])
	if kind == "root" && chance(r, 0.5) {
		root = w.p.Roots[len(w.p.Roots)-1]
	}
	var names []string
	for _, n := range w.p.Order {
		names = append(names, ref.SortedKeys(w.p.Roles[n].Targets)...)
	}
	names = append(names, "no such target")
	desc := fmt.Sprintf("the %s ends in %v", kind, time.Until(end).Round(time.Millisecond))
	srv := serve(w.metaURL, w.targURL, st, nil)
	s, ok := w.open(root, defaultCfg(), srv, Tags{"C08"}, "before the end: "+desc)
	if !ok || !s.refresh() {
		return
	}
	if chance(r, 0.5) {
		if _, ok := s.lookup(pick(r, names)); !ok && c.failed {
			return
		}
	}
	if time.Until(end) < 300*time.Millisecond {
		c.Count("too slow to judge")
		return
	}
	time.Sleep(time.Until(end) + 400*time.Millisecond)
	// the session goes on by its own time
	for i := 0; i < 4; i++ {
		s.lookup(pick(r, names))
		if c.failed {
			return
		}
	}
	c.Count("sessions outlived by a document")
	c.Count("ended during a session: " + kind)
	// a new one does not
	mc := defaultCfg()
	if chance(r, 0.3) {
		w.metaDir += "-new"
	} else if chance(r, 0.3) {
		mc.Local = true
	}
	s, ok = w.open(root, mc, srv, Tags{"C08"}, "after the end: "+desc)
	if !ok {
		return
	}
	ok = s.refresh()
	if c.failed {
		return
	}
	c.Count("refreshes after the end of a document")
	if ok {
		for i := 0; i < 4; i++ {
			s.lookup(pick(r, names))
			if c.failed {
				return
			}
		}
	}
	c.Distinct("outlive", kind, root != nil, mc.Local, w.p.RootVer, len(w.p.Order))
	// and the repository goes on
	if strings.Contains(kind, "root") {
		w.p.NextRoot(nil)
	}
	w.p.Evolve()
	w.publishState()
	s, ok = w.open(root, defaultCfg(), serve(w.metaURL, w.targURL, w.states[len(w.states)-1], nil), Tags{"C08"}, "renewed: "+desc)
	if !ok || !s.refresh() {
		return
	}
	s.lookup(pick(r, names))
}

func init() {
	registry["C05"] = &Prop{Level: "exploration", Rule: ruleT + ruleU + ruleN, Asm: asmCommon,
		F: func(r *Run) {
			tRun(r, "t-root", r.N(1500, 30000), profRoot)
			uRun(r, "u-root", r.N(700, 15000), uRoot)
			r.Need("update calls: root", 3000)
			r.Need("accepted", 1000)
			r.Need("succeeded: refresh", 300)
			r.Need("requests compared", 3000)
		}}
	registry["C06"] = &Prop{Level: "exploration", Rule: ruleT + ruleU + ruleN, Asm: asmCommon,
		F: func(r *Run) {
			tRun(r, "t-baseline", r.N(1500, 30000), profBase)
			tRun(r, "t-mixed", r.N(500, 10000), profMixed)
			uRun(r, "u-rollback", r.N(700, 15000), uRollback)
			r.Need("refused for version", 500)
			r.Need("refused for equal", 100)
			r.Need("refused for missing", 10)
			r.Need("kept as rollback baseline", 20)
			r.Need("succeeded: refresh", 300)
		}}
	registry["C07"] = &Prop{Level: "exploration", Rule: ruleT + ruleU + ruleN, Asm: asmCommon,
		F: func(r *Run) {
			tRun(r, "t-targets", r.N(1200, 25000), profTarg)
			tRun(r, "t-mixed", r.N(800, 15000), profMixed)
			r.Cases("listing", r.N(1200, 20000), listingCase)
			uRun(r, "u-mix", r.N(700, 15000), uMix)
			r.Need("refused for lenhash", 300)
			r.Need("refused for unlisted", 20)
			r.Need("accepted by a listing", 100)
			r.Need("refused by a listing: near only", 100)
			r.Need("refused by a listing: wrong with decoys", 100)
			r.Need("refused for version", 300)
			r.Need("accepted", 1000)
		}}
	registry["C08"] = &Prop{Level: "exploration", Rule: ruleT + ruleU + ruleN, Asm: append([]string{"the instant of expiry itself is not judged"}, asmCommon...),
		F: func(r *Run) {
			tRun(r, "t-mixed", r.N(1500, 30000), profMixed)
			tRun(r, "t-baseline", r.N(800, 15000), profBase)
			uRun(r, "u-expiry", r.N(700, 15000), uExpiry)
			for i := 0; i < r.N(1, 20); i++ {
				r.casesN(fmt.Sprintf("outlive%d", i), 64, 64, outliveCase)
			}
			r.Need("sessions outlived by a document", 5)
			r.Need("refreshes after the end of a document", 5)
			r.Need("refused for expired", 500)
			r.Need("kept as rollback baseline", 20)
			r.Need("accepted", 1000)
		}}
	registry["C09"] = &Prop{Level: "exploration", Rule: ruleT + ruleN, Asm: asmCommon,
		F: func(r *Run) {
			tRun(r, "order", r.N(1500, 30000), profOrder)
			tRun(r, "mixed", r.N(800, 20000), profMixed)
			tRun(r, "targets", r.N(600, 15000), profTarg)
			r.Need("refused for order", 500)
			r.Need("accepted", 1000)
			r.Need("kept as rollback baseline", 20)
		}}
}
