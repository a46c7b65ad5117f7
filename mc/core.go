package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check is the exploration that decides one property. It runs in several
// processes: each explores the cases for which C.Mine says yes.
type Check struct {
	Run         func(*C)
	Level       string
	Rule        string
	Assumptions []string
	Shards      int // 0: one per core
}

var checks = map[string]*Check{}

func register(id string, c *Check) { checks[id] = c }

// C is the state of one exploring process.
type C struct {
	ID, Tier      string
	Thorough      bool
	shard, shards int
	n             uint64
	deadline      time.Time
	exhaustive    bool

	transitions, traces, skipped uint64
	states                       map[uint64]struct{}
	bounds                       map[string]uint64

	samples []string
	viols   []Viol
	known   map[string]string

	listed map[string]string // known findings: key -> text

	curMu   sync.Mutex
	cur     func() string
	curNo   uint64
	stopped bool
}

// Viol is a violation of the property, with what is needed to see it again.
type Viol struct {
	Key  string `json:"key"`
	Text string `json:"text"`
}

type result struct {
	Transitions, Traces, Skipped, StateCount uint64
	Bounds                                   map[string]uint64
	Samples                                  []string
	Viols                                    []Viol
	Known                                    map[string]string
	Exhaustive                               bool
}

// Mine distributes cases over the exploring processes.
func (c *C) Mine() bool {
	c.n++
	return int(c.n%uint64(c.shards)) == c.shard
}

// Out reports whether exploration should end: too many violations or no time.
func (c *C) Out() bool {
	if c.stopped {
		return true
	}
	if len(c.viols) >= 5 {
		c.stopped = true
	} else if time.Now().After(c.deadline) {
		c.exhaustive = false
		c.stopped = true
	}
	return c.stopped
}

// State records a state of the reference model.
func (c *C) State(parts ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	c.StateHash(h.Sum64())
}

func (c *C) StateHash(h uint64) {
	if len(c.states) < 4_000_000 {
		c.states[h] = struct{}{}
	}
}

func (c *C) Step(n int) { c.transitions += uint64(n) }
func (c *C) Trace()     { c.traces++ }
func (c *C) Skip()      { c.skipped++ }
func (c *C) Bound(k string, v uint64) {
	if v > c.bounds[k] {
		c.bounds[k] = v
	}
}

func (c *C) Sample(format string, args ...any) {
	if len(c.samples) < 2 || (c.traces%50021 == 0 && len(c.samples) < 6) {
		c.samples = append(c.samples, fmt.Sprintf(format, args...))
	}
}

// Violation records that the property does not hold. A violation whose key is
// in the committed list of known findings is reported as such.
func (c *C) Violation(key, format string, args ...any) {
	text := fmt.Sprintf(format, args...)
	if t, ok := c.listed[key]; ok {
		c.known[key] = t
		return
	}
	if len(c.viols) < 20 {
		c.viols = append(c.viols, Viol{key, text})
	}
}

// Do runs one case against the real code. A panic is a violation.
func (c *C) Do(desc func() string, f func()) (ok bool) {
	if c.Out() {
		return false
	}
	c.curMu.Lock()
	c.cur, c.curNo = desc, c.curNo+1
	c.curMu.Unlock()
	before := len(c.viols)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if sf, is := r.(stopFail); is {
					c.Violation(sf.key, "%s: %s", desc(), sf.text)
					return
				}
				c.Violation("panic", "%s: panic: %v\n%s", desc(), r, trimStack(string(debug.Stack())))
			}
		}()
		f()
	}()
	c.traces++
	c.Sample("%s", lazy(desc))
	return len(c.viols) == before
}

type lazy func() string

func (l lazy) String() string { return l() }

type stopFail struct{ key, text string }

// Fail ends the current case with a violation.
func Fail(format string, args ...any) {
	panic(stopFail{"", fmt.Sprintf(format, args...)})
}

// FailKey is Fail with the identity under which the violation may be listed.
func FailKey(key, format string, args ...any) {
	panic(stopFail{key, fmt.Sprintf(format, args...)})
}

// raceText is what the race detector wrote last.
func raceText() string {
	files, _ := filepath.Glob(filepath.Join(scratchDir, "race.*"))
	for _, f := range files {
		b, _ := os.ReadFile(f)
		if len(b) > 0 {
			s := string(b)
			if len(s) > 3000 {
				s = s[:3000]
			}
			return s
		}
	}
	return ""
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

const hangLimit = 180 * time.Second

func (c *C) watch(out string) {
	last, since := uint64(0), time.Now()
	for {
		time.Sleep(time.Second)
		c.curMu.Lock()
		no, cur := c.curNo, c.cur
		c.curMu.Unlock()
		if no != last {
			last, since = no, time.Now()
		} else if no > 0 && time.Since(since) > hangLimit && cur != nil {
			r := result{Viols: []Viol{{"hang", fmt.Sprintf("%s: did not finish within %v", cur(), hangLimit)}}}
			writeResult(out, r, nil)
			os.Exit(0)
		}
	}
}

func writeResult(out string, r result, states map[uint64]struct{}) {
	if states != nil {
		r.StateCount = uint64(len(states))
		b := make([]byte, 0, 8*len(states))
		for h := range states {
			b = binary.LittleEndian.AppendUint64(b, h)
		}
		os.WriteFile(out+".states", b, 0o644)
	}
	b, _ := json.Marshal(r)
	os.WriteFile(out+".tmp", b, 0o644)
	os.Rename(out+".tmp", out)
}

func runShard(id, tier string, shard, shards int, out string, budget time.Duration) {
	ch := checks[id]
	c := &C{
		ID: id, Tier: tier, Thorough: tier == "thorough", shard: shard, shards: shards,
		deadline: time.Now().Add(budget), exhaustive: true,
		states: map[uint64]struct{}{}, bounds: map[string]uint64{}, known: map[string]string{},
		listed: loadKnown(id),
	}
	go c.watch(out)
	ch.Run(c)
	writeResult(out, result{
		Transitions: c.transitions, Traces: c.traces, Skipped: c.skipped, Bounds: c.bounds,
		Samples: c.samples, Viols: c.viols, Known: c.known, Exhaustive: c.exhaustive,
	}, c.states)
}

// loadKnown reads the committed list of findings that are recorded, not
// repaired: lines "known: property=<id> key=<key> <text>".
func loadKnown(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(strings.TrimSpace(l), " ", 4)
		if len(f) == 4 && f[0] == "known:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			m[strings.TrimPrefix(f[2], "key=")] = f[3]
		}
	}
	return m
}

var verifDir = "/verif"

func runAll(id, tier string, shards int) int {
	ch, ok := checks[id]
	if !ok {
		fmt.Println("unknown property", id)
		return 2
	}
	start := time.Now()
	if ch.Shards > 0 {
		shards = ch.Shards
	}
	tmp, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)
	self, _ := os.Executable()
	budget := 420 * time.Second
	if tier == "thorough" {
		budget = 45 * time.Minute
		if s := os.Getenv("MC_BUDGET_S"); s != "" {
			if n, err := strconv.Atoi(s); err == nil {
				budget = time.Duration(n) * time.Second
			}
		}
	}
	results := make([]*result, shards)
	crashes := make([]string, shards)
	var infra atomic.Value
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := filepath.Join(tmp, fmt.Sprintf("r%d.json", i))
			scratch := filepath.Join(tmp, fmt.Sprintf("scratch%d", i))
			os.MkdirAll(scratch, 0o755)
			cmd := exec.Command(self, "-shard", fmt.Sprint(i), "-shards", fmt.Sprint(shards),
				"-out", out, "-budget", fmt.Sprint(int(budget.Seconds())), "-scratch", scratch, id, tier)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single", "GOMEMLIMIT=3GiB",
				"GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+filepath.Join(scratch, "race"))
			log, _ := os.Create(filepath.Join(tmp, fmt.Sprintf("log%d", i)))
			cmd.Stdout, cmd.Stderr = log, log
			err := cmd.Run()
			log.Close()
			b, rerr := os.ReadFile(out)
			if rerr == nil {
				r := &result{}
				if json.Unmarshal(b, r) == nil {
					results[i] = r
					return
				}
			}
			lb, _ := os.ReadFile(log.Name())
			text := string(lb)
			if len(text) > 3000 {
				text = text[:3000]
			}
			if strings.Contains(text, "fatal error") || strings.Contains(text, "panic") {
				crashes[i] = text
			} else {
				infra.Store(fmt.Sprintf("shard %d ended without a result: %v\n%s", i, err, text))
			}
		}(i)
	}
	wg.Wait()
	if v := infra.Load(); v != nil {
		fmt.Println("ERROR:", v)
		return 2
	}

	total := result{Bounds: map[string]uint64{}, Known: map[string]string{}, Exhaustive: true}
	states := map[uint64]struct{}{}
	for i, r := range results {
		if r == nil {
			total.Viols = append(total.Viols, Viol{"crash", "the process crashed:\n" + crashes[i]})
			continue
		}
		total.Transitions += r.Transitions
		total.Traces += r.Traces
		total.Skipped += r.Skipped
		for k, v := range r.Bounds {
			if v > total.Bounds[k] {
				total.Bounds[k] = v
			}
		}
		if len(total.Samples) < 8 {
			total.Samples = append(total.Samples, r.Samples...)
		}
		total.Viols = append(total.Viols, r.Viols...)
		for k, v := range r.Known {
			total.Known[k] = v
		}
		total.Exhaustive = total.Exhaustive && r.Exhaustive
		b, _ := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("r%d.json.states", i)))
		for ; len(b) >= 8; b = b[8:] {
			states[binary.LittleEndian.Uint64(b)] = struct{}{}
		}
	}
	if len(total.Viols) > 0 {
		total.Exhaustive = false
	}
	writeEvidence(id, tier, ch, total, uint64(len(states)), time.Since(start), shards)

	var keys []string
	for k := range total.Known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, total.Known[k])
	}
	if len(total.Viols) > 0 {
		dir := filepath.Join(verifDir, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, id+".txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s tier %s; explore again with: bash %s/run.sh %s %s\n\n", id, tier, verifDir, id, tier)
		for _, v := range total.Viols {
			fmt.Fprintf(&sb, "[%s] %s\n\n", v.Key, v.Text)
		}
		os.WriteFile(path, []byte(sb.String()), 0o644)
		t := total.Viols[0].Text
		if len(t) > 1200 {
			t = t[:1200] + "..."
		}
		fmt.Println(t)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	os.Remove(filepath.Join(verifDir, "evidence", "replay", id+".txt"))
	fmt.Printf("OK property=%s states=%d transitions=%d traces=%d exhaustive=%v wall=%.1fs\n",
		id, len(states), total.Transitions, total.Traces, total.Exhaustive, time.Since(start).Seconds())
	return 0
}

func writeEvidence(id, tier string, ch *Check, r result, states uint64, wall time.Duration, shards int) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"states": states, "transitions": r.Transitions, "traces_validated_against_impl": r.Traces,
		"samples": r.Samples, "exhaustive": r.Exhaustive, "rule": ch.Rule, "bounds": r.Bounds,
		"cases_outside_the_domain": r.Skipped, "processes": shards,
	}
	if ch.Level == "fault_enumeration" || ch.Level == "exploration" {
		cov["evaluations"] = r.Traces
		cov["distinct_nontrivial"] = states
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": ch.Level, "coverage": cov,
		"assumptions": ch.Assumptions, "wall_s": wall.Seconds(), "violations": len(r.Viols),
		"known_findings": r.Known,
	}
	if ch.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)
}
