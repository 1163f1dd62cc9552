package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/mc/checks"
	"verif/mc/core"
)

const (
	// One case normally takes microseconds to milliseconds. A case counts as
	// non-terminating when it burnt hangCPU seconds of CPU time, or made no
	// progress for hangWall, without finishing.
	hangCPU    = 60.0
	hangWall   = 280 * time.Second
	rssLimitKB = 3 << 20 // 3 GB per worker
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: mc check ID [tier] | mc replay FILE | mc list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		for _, id := range core.IDs() {
			fmt.Println(id)
		}
	case "gen":
		// gen DIR TIER: generated compilers for C27 into a copy of this module
		if err := checks.WriteStatic(os.Args[2], os.Args[3]); err != nil {
			fmt.Println("HARNESS-ERROR", err)
			os.Exit(2)
		}
	case "gentpl":
		// gentpl DIR TIER TPLGEN: generated interpreters for C28 into a copy of this module
		if err := checks.WriteTplgen(os.Args[2], os.Args[3], os.Args[4]); err != nil {
			fmt.Println("HARNESS-ERROR", err)
			os.Exit(2)
		}
	case "qexit":
		checks.QExit(os.Args[2:])
	case "racebody":
		checks.RaceBody()
	case "worker":
		// worker ID tier shard n only descr crumb out limit
		a := os.Args[2:]
		k := core.Lookup(a[0])
		sh, _ := strconv.ParseInt(a[2], 10, 64)
		n, _ := strconv.ParseInt(a[3], 10, 64)
		only, _ := strconv.ParseInt(a[4], 10, 64)
		lim, _ := time.ParseDuration(a[8])
		core.Worker(k, a[1], sh, n, only, a[5] == "1", a[6], a[7], lim)
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(check(os.Args[2], tier))
	case "replay":
		os.Exit(replay(os.Args[2]))
	default:
		os.Exit(2)
	}
}

type proc struct {
	cmd   *exec.Cmd
	crumb string
	out   string
	errf  string
	done  chan error
	last  uint64
	since time.Time
	cpu0  float64
	over  bool
	why   string
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func startWorker(dir, id, tier string, shard, n, only int64, descr bool, limit time.Duration) *proc {
	p := &proc{}
	base := filepath.Join(dir, fmt.Sprintf("w%d-%d-%v", shard, only, descr))
	p.crumb, p.out, p.errf = base+".crumb", base+".out", base+".err"
	os.WriteFile(p.crumb, make([]byte, 8), 0644)
	d := "0"
	if descr {
		d = "1"
	}
	p.cmd = exec.Command(os.Args[0], "worker", id, tier, fmt.Sprint(shard), fmt.Sprint(n), fmt.Sprint(only), d, p.crumb, p.out, limit.String())
	ef, _ := os.Create(p.errf)
	p.cmd.Stderr = ef
	p.cmd.Stdout = nil
	p.cmd.Dir = dir
	p.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	p.done = make(chan error, 1)
	p.since = time.Now()
	if err := p.cmd.Start(); err != nil {
		p.done <- err
		return p
	}
	go func() { p.done <- p.cmd.Wait(); ef.Close() }()
	return p
}

func (p *proc) crumbVal() uint64 {
	b, err := os.ReadFile(p.crumb)
	if err != nil || len(b) < 8 {
		return 0
	}
	return binary.LittleEndian.Uint64(b)
}

func rssKB(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	v, _ := strconv.ParseInt(f[1], 10, 64)
	return v * int64(os.Getpagesize()/1024)
}

// cpuSec is the CPU time a process has used.
func cpuSec(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	return (u + k) / 100
}

// wait supervises one worker until it ends; it kills a worker stuck in one case.
func (p *proc) wait() (res *core.Result, err error) {
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case werr := <-p.done:
			b, rerr := os.ReadFile(p.out)
			if rerr == nil {
				res = &core.Result{}
				if json.Unmarshal(b, res) == nil {
					return res, nil
				}
			}
			if p.why != "" {
				return nil, fmt.Errorf("%s", p.why)
			}
			eb, _ := os.ReadFile(p.errf)
			es := string(eb)
			if len(es) > 2000 {
				es = es[:2000]
			}
			return nil, fmt.Errorf("worker process ended inside the case (%v): %s", werr, es)
		case <-tick.C:
			v := p.crumbVal()
			if v != p.last {
				p.last, p.since, p.cpu0 = v, time.Now(), cpuSec(p.cmd.Process.Pid)
			}
			if v != 0 && (time.Since(p.since) > hangWall || cpuSec(p.cmd.Process.Pid)-p.cpu0 > hangCPU) {
				p.why = fmt.Sprintf("no progress inside one case for %.0f s (%.0f s CPU): non-termination",
					time.Since(p.since).Seconds(), cpuSec(p.cmd.Process.Pid)-p.cpu0)
				p.cmd.Process.Kill()
			}
			if rssKB(p.cmd.Process.Pid) > rssLimitKB {
				p.why = "memory grows without bound inside the case"
				p.cmd.Process.Kill()
			}
		}
	}
}

func describe(dir, id, tier string, idx int64) string {
	p := startWorker(dir, id, tier, 0, 1, idx, true, time.Hour)
	r, err := p.wait()
	if err != nil || len(r.Notes) == 0 {
		return fmt.Sprintf("case #%d", idx)
	}
	return r.Notes[0]
}

type known struct {
	Property string `json:"property"`
	Case     string `json:"case"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

func loadKnown() (out []known) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []known `json:"findings"`
	}
	json.Unmarshal(b, &f)
	return f.Findings
}

func check(id, tier string) int {
	k := core.Lookup(id)
	if k == nil {
		fmt.Println("unknown check", id)
		return 2
	}
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	n := int64(8)
	if s := os.Getenv("MC_WORKERS"); s != "" {
		n, _ = strconv.ParseInt(s, 10, 64)
	}
	limit := 420 * time.Second
	if tier == "thorough" {
		limit = 45 * time.Minute
	}
	if s := os.Getenv("MC_LIMIT"); s != "" {
		limit, _ = time.ParseDuration(s)
	}
	var ps []*proc
	for i := int64(0); i < n; i++ {
		ps = append(ps, startWorker(dir, id, tier, i, n, -1, false, limit))
	}
	var tot core.Result
	outcomes := map[uint64]bool{}
	fam := map[string]*core.FamStat{}
	var famOrder []string
	harness := ""
	for _, p := range ps {
		r, err := p.wait()
		if err != nil {
			v := p.crumbVal()
			if v == 0 {
				harness = err.Error()
				continue
			}
			idx := int64(v) - 1
			tot.Violations = append(tot.Violations, core.Violation{Index: idx, Family: "crash",
				Case: describe(dir, id, tier, idx), Detail: err.Error(), Repro: "process"})
			continue
		}
		if r.Cases > tot.Cases {
			tot.Cases = r.Cases
		}
		tot.Executed += r.Executed
		tot.States += r.States
		tot.Transitions += r.Transitions
		tot.Traces += r.Traces
		tot.Nontrivial += r.Nontrivial
		tot.Expired = tot.Expired || r.Expired
		tot.OutcomesCap = tot.OutcomesCap || r.OutcomesCap
		for _, o := range r.Outcomes {
			outcomes[o] = true
		}
		for _, f := range r.Families {
			g := fam[f.Name]
			if g == nil {
				g = &core.FamStat{Name: f.Name}
				fam[f.Name] = g
				famOrder = append(famOrder, f.Name)
			}
			g.Done += f.Done
			if f.Cases > g.Cases {
				g.Cases = f.Cases
			}
		}
		if len(tot.Samples) < 12 {
			for i, s := range r.Samples {
				if i >= 3 && i%5 != 0 {
					continue
				}
				tot.Samples = append(tot.Samples, s)
			}
		}
		tot.Violations = append(tot.Violations, r.Violations...)
		for _, nt := range r.Notes {
			dup := false
			for _, x := range tot.Notes {
				dup = dup || x == nt
			}
			if !dup {
				tot.Notes = append(tot.Notes, nt)
			}
		}
	}
	sort.Slice(tot.Violations, func(i, j int) bool { return tot.Violations[i].Index < tot.Violations[j].Index })
	if len(tot.Samples) > 14 {
		tot.Samples = tot.Samples[:14]
	}

	kn := loadKnown()
	var fresh []core.Violation
	for _, v := range tot.Violations {
		hit := false
		for _, f := range kn {
			if f.Property == id && f.Status == "known" && f.Case == v.Case {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.What)
				hit = true
				break
			}
		}
		if !hit {
			fresh = append(fresh, v)
		}
	}

	fams := []string{}
	for _, name := range famOrder {
		g := fam[name]
		if g.Cases > 0 {
			fams = append(fams, fmt.Sprintf("%s: %d/%d cases", name, g.Done, g.Cases))
		}
	}
	exhaustive := !tot.Expired && tot.Executed == tot.Cases && len(fresh) == 0 && harness == ""
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": tot.States, "transitions": tot.Transitions,
			"traces_validated_against_impl": tot.Traces,
			"evaluations":                   tot.Executed,
			"distinct_nontrivial":           tot.Nontrivial,
			"distinct_outcomes":             len(outcomes),
			"distinct_outcomes_capped":      tot.OutcomesCap,
			"rule":                          k.Rule,
			"families":                      fams,
			"samples":                       tot.Samples,
			"exhaustive":                    exhaustive,
			"notes":                         tot.Notes,
		},
		"assumptions": k.Assumptions,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(fresh),
	}
	if k.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	evd := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(evd, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evd, id+".json"), append(b, '\n'), 0644)

	for _, f := range fams {
		fmt.Println("  ", f)
	}
	fmt.Printf("%s %s: cases=%d executed=%d states=%d transitions=%d traces=%d nontrivial=%d outcomes=%d exhaustive=%v %.1fs\n",
		id, tier, tot.Cases, tot.Executed, tot.States, tot.Transitions, tot.Traces, tot.Nontrivial, len(outcomes), exhaustive, time.Since(t0).Seconds())
	if harness != "" && len(fresh) == 0 {
		fmt.Println("HARNESS-ERROR", harness)
		return 2
	}
	if len(fresh) > 0 {
		rd := filepath.Join(evd, "replay")
		os.MkdirAll(rd, 0755)
		for i, v := range fresh {
			if i >= 5 {
				break
			}
			path := filepath.Join(rd, fmt.Sprintf("%s-%d.json", id, i))
			rb, _ := json.MarshalIndent(map[string]interface{}{"property": id, "tier": tier, "violation": v,
				"replay_cmd": "bash /verif/replay.sh " + path}, "", " ")
			os.WriteFile(path, rb, 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			fmt.Printf("  [%s #%d, reproduced %s] %s\n    %s\n", v.Family, v.Index, v.Repro, v.Case, strings.ReplaceAll(v.Detail, "\n", "\n    "))
		}
		return 1
	}
	return 0
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r struct {
		Property  string
		Tier      string
		Violation core.Violation
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	dir, _ := os.MkdirTemp("", "mc-replay-")
	defer os.RemoveAll(dir)
	p := startWorker(dir, r.Property, r.Tier, 0, 1, r.Violation.Index, false, time.Hour)
	res, err := p.wait()
	if err != nil {
		fmt.Println("case:", r.Violation.Case)
		fmt.Println("violates:", err)
		return 1
	}
	if len(res.Violations) > 0 {
		fmt.Println("case:", res.Violations[0].Case)
		fmt.Println("violates:", res.Violations[0].Detail)
		return 1
	}
	fmt.Println("case holds:", r.Violation.Case)
	return 0
}
