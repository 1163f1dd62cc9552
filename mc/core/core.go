// Package core is the explorer shared by all checks: it enumerates a bounded,
// deterministic space of cases, splits it over worker processes, executes each
// case on the real code, and turns mismatches, crashes and hangs into
// replayable violations.
package core

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Check is one registered property check.
type Check struct {
	ID  string
	Run func(c *C)
	// Rule describes what a case is and when it counts as non-trivial.
	Rule string
	// Assumptions made by the check.
	Assumptions []string
}

var registry = map[string]*Check{}

// Register adds a check.
func Register(k *Check) {
	if _, ok := registry[k.ID]; ok {
		panic("duplicate check " + k.ID)
	}
	registry[k.ID] = k
}

// Lookup finds a check.
func Lookup(id string) *Check { return registry[id] }

// IDs lists all check ids.
func IDs() (ids []string) {
	for id := range registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return
}

// Violation is one property violation.
type Violation struct {
	Index  int64  `json:"index"`
	Family string `json:"family"`
	Case   string `json:"case"`
	Detail string `json:"detail"`
	Repro  string `json:"repro"` // how often re-running the single case reproduced it
}

// FamStat is the per-family coverage count.
type FamStat struct {
	Name  string `json:"name"`
	Cases int64  `json:"cases"`
	Done  int64  `json:"done"`
}

// Result is what one worker reports.
type Result struct {
	Cases       int64       `json:"cases"` // cases of the whole space seen by the enumerator
	Executed    int64       `json:"executed"`
	States      int64       `json:"states"`
	Transitions int64       `json:"transitions"`
	Traces      int64       `json:"traces"`
	Nontrivial  int64       `json:"nontrivial"`
	Outcomes    []uint64    `json:"outcomes"`
	OutcomesCap bool        `json:"outcomes_capped"`
	Families    []FamStat   `json:"families"`
	Samples     []string    `json:"samples"`
	Violations  []Violation `json:"violations"`
	Expired     bool        `json:"expired"`
	Notes       []string    `json:"notes"`
}

// C is the exploration context of one worker process.
type C struct {
	Tier  string
	shard int64
	n     int64
	only  int64 // run only this case (-1: all)
	descr bool  // only describe
	crumb []byte
	start time.Time
	limit time.Duration

	idx       int64
	fam       *FamStat
	res       Result
	outcomes  map[uint64]struct{}
	stop      bool
	described string
}

const maxOutcomes = 1 << 16
const maxViol = 12

// Thorough reports whether the deep tier runs.
func (c *C) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (c *C) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

// Family starts a named family of cases.
func (c *C) Family(name string) {
	c.res.Families = append(c.res.Families, FamStat{Name: name})
	c.fam = &c.res.Families[len(c.res.Families)-1]
}

// Stopped tells an enumerator that it can stop.
func (c *C) Stopped() bool { return c.stop }

// Do offers one case. It is executed if it belongs to this worker; run returns
// "" when the property held on the case and a description of the failure
// otherwise. A panic escaping from run is a failure too.
func (c *C) Do(desc func() string, run func() string) {
	if c.stop {
		return
	}
	i := c.idx
	c.idx++
	c.fam.Cases++
	if c.only >= 0 {
		if i != c.only {
			return
		}
	} else if i%c.n != c.shard {
		return
	}
	if c.descr {
		c.described = desc()
		c.stop = true
		return
	}
	binary.LittleEndian.PutUint64(c.crumb, uint64(i)+1)
	c.res.Executed++
	c.fam.Done++
	msg := guard(run)
	if msg != "" {
		again := 0
		for k := 0; k < 5; k++ {
			if guard(run) != "" {
				again++
			}
		}
		c.res.Violations = append(c.res.Violations, Violation{
			Index: i, Family: c.fam.Name, Case: desc(), Detail: msg, Repro: fmt.Sprintf("%d/5", again)})
		if len(c.res.Violations) >= maxViol {
			c.stop = true
		}
	} else {
		k := c.res.Executed
		if k&(k-1) == 0 && len(c.res.Samples) < 24 {
			c.res.Samples = append(c.res.Samples, clip(c.fam.Name+": "+desc(), 300))
		}
	}
	if c.res.Executed&63 == 0 && time.Since(c.start) > c.limit {
		c.res.Expired = true
		c.stop = true
	}
	if c.only >= 0 {
		c.stop = true
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func guard(run func() string) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			msg = clip(fmt.Sprintf("unexpected panic: %v\n%s", e, st), 3000)
		}
	}()
	return run()
}

// AddStates counts distinct states/configurations visited.
func (c *C) AddStates(n int) { c.res.States += int64(n) }

// AddTransitions counts steps (operations, tokens, match calls) executed.
func (c *C) AddTransitions(n int) { c.res.Transitions += int64(n) }

// AddTrace counts one behaviour of the reference model replayed on the code.
func (c *C) AddTrace(n int) { c.res.Traces += int64(n) }

// Nontrivial counts a case that exercised the property.
func (c *C) Nontrivial(n int) { c.res.Nontrivial += int64(n) }

// Outcome records a distinct observed outcome.
func (c *C) Outcome(s string) {
	if len(c.outcomes) >= maxOutcomes {
		c.res.OutcomesCap = true
		return
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	c.outcomes[h.Sum64()] = struct{}{}
}

// Note adds a remark to the evidence.
func (c *C) Note(s string) { c.res.Notes = append(c.res.Notes, s) }

// Worker runs one shard.
func Worker(k *Check, tier string, shard, n, only int64, descr bool, crumbFile, outFile string, limit time.Duration) {
	debug.SetMaxStack(256 << 20)
	c := &C{Tier: tier, shard: shard, n: n, only: only, descr: descr, start: time.Now(), limit: limit,
		outcomes: map[uint64]struct{}{}, crumb: make([]byte, 8)}
	c.res.Families = make([]FamStat, 0, 256)
	if crumbFile != "" {
		f, err := os.OpenFile(crumbFile, os.O_RDWR|os.O_CREATE, 0644)
		if err == nil {
			f.Truncate(8)
			if b, err := syscall.Mmap(int(f.Fd()), 0, 8, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
				c.crumb = b
			}
			f.Close()
		}
	}
	c.Family("all")
	k.Run(c)
	c.res.Cases = c.idx
	for o := range c.outcomes {
		c.res.Outcomes = append(c.res.Outcomes, o)
	}
	if descr {
		c.res.Notes = []string{c.described}
	}
	b, _ := json.Marshal(&c.res)
	os.WriteFile(outFile+".tmp", b, 0644)
	os.Rename(outFile+".tmp", outFile)
}

// Q quotes a string for case descriptions.
func Q(s string) string { return fmt.Sprintf("%q", s) }

// Join is strings.Join.
func Join(a []string, sep string) string { return strings.Join(a, sep) }
