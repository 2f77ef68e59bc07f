package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Viol is one observed violation.
type Viol struct {
	Prop    string   `json:"property"`
	Key     string   `json:"key"`
	Msg     string   `json:"message"`
	Section string   `json:"section"`
	Idx     int      `json:"index"`
	Seed    int64    `json:"seed"`
	Tier    string   `json:"tier"`
	Trace   []string `json:"trace,omitempty"`
	Count   int      `json:"count"`
}

// Run is one execution of one check.
type Run struct {
	Prop, Tier string
	Seed       int64
	Work       string // scratch directory
	Only       string // section:index to run alone
	Workers    int

	mu       sync.Mutex
	counters map[string]int64
	distinct map[[8]byte]struct{}
	evals    int64
	samples  []any
	perSec   map[string]int
	viols    map[string]*Viol
	sections []string
	slots    *slotFile
	notes    []string
	minimums map[string]int64
	inconcl  []string
}

// Case is one generated case.
type Case struct {
	R       *Run
	Section string
	Idx     int
	Rng     *rand.Rand
	trace   []string
	dir     string
	cleanup []func()
	failed  bool
}

func newRun(prop, tier string, seed int64, work, only string) *Run {
	return &Run{Prop: prop, Tier: tier, Seed: seed, Work: work, Only: only, Workers: runtime.NumCPU(),
		counters: map[string]int64{}, distinct: map[[8]byte]struct{}{}, viols: map[string]*Viol{},
		perSec: map[string]int{}, minimums: map[string]int64{}}
}

// N picks a case count by tier.
func (r *Run) N(quick, thorough int) int {
	if r.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Add bumps a counter.
func (r *Run) Add(name string, n int64) {
	r.mu.Lock()
	r.counters[name] += n
	r.mu.Unlock()
}

// Need makes the run inconclusive unless the counter reaches min.
func (r *Run) Need(name string, min int64) {
	r.mu.Lock()
	if r.Only == "" {
		r.minimums[name] = min
	}
	r.mu.Unlock()
}

// Inconclusive marks the run as having no verdict.
func (r *Run) Inconclusive(format string, a ...any) {
	r.mu.Lock()
	r.inconcl = append(r.inconcl, fmt.Sprintf(format, a...))
	r.mu.Unlock()
}

func (c *Case) Count(name string) { c.R.Add(name, 1) }

// Eval counts an evaluated case of the property.
func (c *Case) Eval() { atomic.AddInt64(&c.R.evals, 1) }

// Distinct records a non-trivial case by its identity.
func (c *Case) Distinct(parts ...any) {
	h := sha256.Sum256([]byte(fmt.Sprint(parts...)))
	var k [8]byte
	copy(k[:], h[:8])
	c.R.mu.Lock()
	c.R.distinct[k] = struct{}{}
	c.R.mu.Unlock()
}

// Sample keeps a few example cases for the evidence file.
func (c *Case) Sample(v any) {
	c.R.mu.Lock()
	defer c.R.mu.Unlock()
	if c.R.perSec[c.Section] >= 2 {
		return
	}
	c.R.perSec[c.Section]++
	c.R.samples = append(c.R.samples, map[string]any{"section": c.Section, "index": c.Idx, "case": v})
}

// Logf adds to the case's trace, kept in the replay file of a violation.
func (c *Case) Logf(format string, a ...any) {
	if len(c.trace) < 400 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.trace = append(c.trace, s)
	}
}

// Tags lists the properties a mismatch speaks about.
type Tags []string

func (t Tags) has(p string) bool {
	for _, x := range t {
		if x == p {
			return true
		}
	}
	return false
}

// Fail records a violation of this check's property.
func (c *Case) Fail(key, format string, a ...any) { c.FailTags(nil, key, format, a...) }

// FailTags records a mismatch if it concerns this check's property.
func (c *Case) FailTags(tags Tags, key, format string, a ...any) {
	c.failed = true
	if tags != nil && !tags.has(c.R.Prop) {
		c.R.Add("mismatches of other properties", 1)
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "OTHER %v %s %s[%d]: %s\n", tags, key, c.Section, c.Idx, fmt.Sprintf(format, a...))
		}
		return
	}
	c.R.mu.Lock()
	defer c.R.mu.Unlock()
	if v, ok := c.R.viols[key]; ok {
		v.Count++
		if c.Idx < v.Idx && c.Section == v.Section {
			v.Idx, v.Msg, v.Trace = c.Idx, fmt.Sprintf(format, a...), append([]string{}, c.trace...)
		}
		return
	}
	c.R.viols[key] = &Viol{Prop: c.R.Prop, Key: key, Msg: fmt.Sprintf(format, a...), Section: c.Section, Idx: c.Idx,
		Seed: c.R.Seed, Tier: c.R.Tier, Trace: append([]string{}, c.trace...), Count: 1}
}

// Dir is a scratch directory of the case, removed afterwards.
func (c *Case) Dir() string {
	if c.dir == "" {
		d, err := os.MkdirTemp(c.R.Work, "case")
		if err != nil {
			panic(err)
		}
		c.dir = d
	}
	return c.dir
}

// Defer runs f when the case ends.
func (c *Case) Defer(f func()) { c.cleanup = append(c.cleanup, f) }

func (r *Run) rng(section string, idx int) *rand.Rand {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d|%s|%s|%d", r.Seed, r.Prop, section, idx)))
	return rand.New(rand.NewSource(int64(binary.LittleEndian.Uint64(h[:8]) >> 1)))
}

// Cases runs n cases of a section on all cores.
func (r *Run) Cases(section string, n int, f func(c *Case)) { r.casesN(section, n, r.Workers, f) }

// Serial runs the cases of a section one after another.
func (r *Run) Serial(section string, n int, f func(c *Case)) { r.casesN(section, n, 1, f) }

func (r *Run) casesN(section string, n, workers int, f func(c *Case)) {
	r.sections = append(r.sections, section)
	t0 := time.Now()
	defer func() {
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "section %s: %d cases in %.1fs\n", section, n, time.Since(t0).Seconds())
		}
	}()
	only := -1
	if r.Only != "" {
		i := strings.LastIndex(r.Only, ":")
		if r.Only[:i] != section {
			return
		}
		fmt.Sscan(r.Only[i+1:], &only)
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				if only >= 0 && i != only {
					continue
				}
				r.one(section, i, f)
			}
		}()
	}
	wg.Wait()
}

func (r *Run) one(section string, idx int, f func(c *Case)) {
	c := &Case{R: r, Section: section, Idx: idx, Rng: r.rng(section, idx)}
	slot := r.slots.begin(section, idx)
	defer r.slots.end(slot)
	defer func() {
		for i := len(c.cleanup) - 1; i >= 0; i-- {
			c.cleanup[i]()
		}
		if c.dir != "" {
			os.RemoveAll(c.dir)
		}
	}()
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			c.Logf("panic: %v", p)
			for _, l := range trimStack(st) {
				c.Logf("%s", l)
			}
			c.Fail("panic:"+panicSite(st), "panic during the case: %v", p)
		}
	}()
	f(c)
}

// panicSite names the innermost repository (else harness) function on the stack.
func panicSite(st string) string {
	best := ""
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "goroutine") {
			continue
		}
		if i := strings.LastIndex(l, "("); i > 0 {
			l = l[:i]
		}
		if strings.Contains(l, "go-tuf-metadata/") {
			return l[strings.Index(l, "go-tuf-metadata/")+len("go-tuf-metadata/"):]
		}
		if best == "" && strings.HasPrefix(l, "main.") && !strings.Contains(l, "(*Run).one") {
			best = l
		}
	}
	if best == "" {
		return "unknown"
	}
	return best
}

func trimStack(st string) []string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.TrimSpace(l) != "" {
			out = append(out, l)
		}
		if len(out) > 40 {
			break
		}
	}
	return out
}

// ---- slots: which cases are running, visible to the supervisor ----

type slotFile struct {
	f     *os.File
	mu    sync.Mutex
	free  []int
	n     int
	start map[int]slotInfo
}
type slotInfo struct {
	section string
	idx     int
	at      time.Time
}

const slotSize = 128

func openSlots(path string) *slotFile {
	f, err := os.OpenFile(path, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644)
	if err != nil {
		panic(err)
	}
	return &slotFile{f: f, start: map[int]slotInfo{}}
}

func (s *slotFile) begin(section string, idx int) int {
	if s == nil {
		return 0
	}
	s.mu.Lock()
	var i int
	if len(s.free) > 0 {
		i = s.free[len(s.free)-1]
		s.free = s.free[:len(s.free)-1]
	} else {
		i = s.n
		s.n++
	}
	s.start[i] = slotInfo{section, idx, time.Now()}
	s.mu.Unlock()
	b := fmt.Sprintf("%-*s\n", slotSize-1, fmt.Sprintf("R %s:%d", section, idx))
	s.f.WriteAt([]byte(b), int64(i*slotSize))
	return i
}

func (s *slotFile) end(i int) {
	if s == nil {
		return
	}
	s.f.WriteAt([]byte("F"), int64(i*slotSize))
	s.mu.Lock()
	delete(s.start, i)
	s.free = append(s.free, i)
	s.mu.Unlock()
}

func (s *slotFile) oldest() (slotInfo, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	var best slotInfo
	ok := false
	for _, v := range s.start {
		if !ok || v.at.Before(best.at) {
			best, ok = v, true
		}
	}
	return best, ok
}

func readSlots(path string) []string {
	b, _ := os.ReadFile(path)
	var out []string
	for i := 0; i+slotSize <= len(b); i += slotSize {
		l := strings.TrimSpace(string(b[i : i+slotSize]))
		if strings.HasPrefix(l, "R ") {
			out = append(out, l[2:])
		}
	}
	return out
}

// ---- results ----

type childResult struct {
	Viols    []*Viol          `json:"violations"`
	Counters map[string]int64 `json:"counters"`
	Distinct int              `json:"distinct"`
	Evals    int64            `json:"evaluations"`
	Samples  []any            `json:"samples"`
	Sections []string         `json:"sections"`
	Inconcl  []string         `json:"inconclusive"`
}

func (r *Run) result() *childResult {
	r.mu.Lock()
	defer r.mu.Unlock()
	res := &childResult{Counters: r.counters, Distinct: len(r.distinct), Evals: r.evals, Samples: r.samples, Sections: r.sections, Inconcl: r.inconcl}
	for _, v := range r.viols {
		res.Viols = append(res.Viols, v)
	}
	sort.Slice(res.Viols, func(i, j int) bool { return res.Viols[i].Key < res.Viols[j].Key })
	for n, m := range r.minimums {
		if r.counters[n] < m {
			res.Inconcl = append(res.Inconcl, fmt.Sprintf("observed only %d of at least %d: %s", r.counters[n], m, n))
		}
	}
	return res
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	os.MkdirAll(filepath.Dir(path), 0755)
	if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
		panic(err)
	}
}

func shortHash(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:4])
}
