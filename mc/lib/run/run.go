// Package run is the frame of every check: supervision, evidence, known findings, replay.
package run

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check is one property's check.
type Check struct {
	ID      string
	Level   string
	Rule    string // how cases are made, what is non-trivial
	Assume  []string
	Explore func(c *Ctx)
	// Replay re-executes one case and returns a description of what is wrong, "" if nothing.
	Replay func(c *Ctx, kase json.RawMessage) string
}

const slotSize = 64 << 10

// Ctx is the context of a run.
type Ctx struct {
	Check    *Check
	Thorough bool
	Seed     int64
	Scratch  string
	Workers  int
	Replays  bool

	deadline time.Time
	start    time.Time
	slots    []byte

	Evals, Nontrivial, States, Trans, Traces atomic.Int64
	mu                                       sync.Mutex
	extra                                    map[string]any
	samples                                  []any
	viol                                     []Viol
	seenKeys                                 map[string]bool
	incomplete                               []string
	outcomes                                 map[string]int64
	errs                                     []string
}

// Viol is a violation candidate.
type Viol struct {
	Key  string          `json:"key"`  // identifies the failing input for the known-findings file
	What string          `json:"what"` // what is wrong
	Case json.RawMessage `json:"case"`
}

// Root is /verif.
func Root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

// Expired reports whether the time budget is used up; the caller then stops and the run counts as not exhaustive.
func (c *Ctx) Expired() bool {
	if time.Now().After(c.deadline) {
		c.Incomplete("time budget reached")
		return true
	}
	return false
}

// Incomplete marks the run as not exhaustive.
func (c *Ctx) Incomplete(why string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, x := range c.incomplete {
		if x == why {
			return
		}
	}
	c.incomplete = append(c.incomplete, why)
}

// Extra records an additional measured number or text in the evidence.
func (c *Ctx) Extra(k string, v any) { c.mu.Lock(); c.extra[k] = v; c.mu.Unlock() }

// Outcome counts an observed outcome class.
func (c *Ctx) Outcome(k string) { c.mu.Lock(); c.outcomes[k]++; c.mu.Unlock() }

// Outcomes adds a batch of outcome counts.
func (c *Ctx) AddOutcomes(m map[string]int64) {
	c.mu.Lock()
	for k, v := range m {
		c.outcomes[k] += v
	}
	c.mu.Unlock()
}

// Sample keeps a few cases for the evidence.
func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

// Errorf records an error of the check itself.
func (c *Ctx) Errorf(f string, a ...any) {
	c.mu.Lock()
	if len(c.errs) < 20 {
		c.errs = append(c.errs, fmt.Sprintf(f, a...))
	}
	c.mu.Unlock()
}

// Enough reports that so many violations were found that exploring further is pointless.
func (c *Ctx) Enough() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viol) >= 25
}

// Violation records a violation candidate.
func (c *Ctx) Violation(key, what string, kase any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if key == "" {
		key = what
	}
	if c.seenKeys[key] || len(c.viol) >= 40 {
		return
	}
	c.seenKeys[key] = true
	b, _ := json.Marshal(kase)
	c.viol = append(c.viol, Viol{Key: key, What: what, Case: b})
	c.flushViol()
}

func (c *Ctx) flushViol() {
	if p := os.Getenv("MC_RESULT"); p != "" {
		b, _ := json.Marshal(c.viol)
		os.WriteFile(p+".viol", b, 0o644)
	}
}

// Announce notes the case worker w is about to run, so that a crash can be attributed to it.
func (c *Ctx) Announce(w int, kase any) {
	if c.slots == nil {
		return
	}
	b, _ := json.Marshal(kase)
	c.AnnounceRaw(w, b)
}

// AnnounceRaw is Announce for an encoded case.
func (c *Ctx) AnnounceRaw(w int, b []byte) {
	if c.slots == nil || len(b) > slotSize-8 {
		return
	}
	s := c.slots[w*slotSize : (w+1)*slotSize]
	n := len(b)
	s[0], s[1], s[2], s[3] = byte(n), byte(n>>8), byte(n>>16), byte(n>>24)
	copy(s[8:], b)
}

// Par runs f for every i in [0,n) on all workers.
func (c *Ctx) Par(n int, f func(w, i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < c.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || c.Enough() {
					return
				}
				if c.Expired() {
					return
				}
				f(w, i)
			}
		}()
	}
	wg.Wait()
}

type known struct{ key, what string }

func loadKnown(id string) map[string]known {
	m := map[string]known{}
	f, err := os.Open(filepath.Join(Root(), "known-findings.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		// known: property=C11 key="..." what fails
		l := sc.Text()
		if !strings.HasPrefix(l, "known: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" key=")
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		k, _ := strconv.Unquote(q)
		m[k] = known{k, strings.TrimSpace(rest[len(q):])}
	}
	return m
}

type result struct {
	Evidence   map[string]any
	Viol       []Viol
	Errs       []string
	Incomplete []string
}

// Main runs the checks; args: <id> <tier> | replay <file>.
func Main(checks []*Check) {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mc <property> <quick|thorough> | mc replay <file>")
		os.Exit(2)
	}
	byID := map[string]*Check{}
	for _, c := range checks {
		byID[c.ID] = c
	}
	if os.Args[1] == "replay" {
		replayMain(byID, os.Args[2])
		return
	}
	ck := byID[os.Args[1]]
	if ck == nil {
		fmt.Fprintf(os.Stderr, "no check %q in this program\n", os.Args[1])
		os.Exit(2)
	}
	tier := os.Args[2]
	if os.Getenv("MC_WORKER") == "1" {
		worker(ck, tier)
		return
	}
	supervise(ck, tier)
}

func seed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

// ScratchRoot makes a scratch directory on memory-backed storage if possible.
func ScratchRoot() string {
	for _, d := range []string{"/dev/shm", os.TempDir()} {
		if p, err := os.MkdirTemp(d, "idm-mc-"); err == nil {
			return p
		}
	}
	fmt.Fprintln(os.Stderr, "no scratch directory")
	os.Exit(2)
	return ""
}

func newCtx(ck *Check, tier, scratch string) *Ctx {
	c := &Ctx{Check: ck, Thorough: tier == "thorough", Seed: seed(), Scratch: scratch, start: time.Now(),
		extra: map[string]any{}, seenKeys: map[string]bool{}, outcomes: map[string]int64{}, Workers: runtime.NumCPU()}
	if c.Workers > 8 {
		c.Workers = 8
	}
	if c.Workers < 2 {
		c.Workers = 2
	}
	budget := 120 * time.Second
	if c.Thorough {
		budget = 600 * time.Second
	}
	if b, err := strconv.Atoi(os.Getenv("MC_BUDGET_S")); err == nil {
		budget = time.Duration(b) * time.Second
	}
	c.deadline = c.start.Add(budget)
	return c
}

func worker(ck *Check, tier string) {
	debug.SetGCPercent(400)
	c := newCtx(ck, tier, os.Getenv("MC_SCRATCH"))
	if f, err := os.OpenFile(os.Getenv("MC_SLOTS"), os.O_RDWR, 0); err == nil {
		if m, err := syscall.Mmap(int(f.Fd()), 0, slotSize*64, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
			c.slots = m
		}
	}
	ck.Explore(c)
	cov := map[string]any{}
	for k, v := range c.extra {
		cov[k] = v
	}
	switch ck.Level {
	case "model_checking":
		cov["states"] = c.States.Load()
		cov["transitions"] = c.Trans.Load()
		cov["traces_validated_against_impl"] = c.Traces.Load()
	default:
		cov["evaluations"] = c.Evals.Load()
		cov["distinct_nontrivial"] = c.Nontrivial.Load()
	}
	cov["rule"] = ck.Rule
	if c.samples == nil {
		c.samples = []any{}
	}
	cov["samples"] = c.samples
	if len(c.outcomes) > 0 {
		cov["outcomes"] = c.outcomes
		cov["distinct_outcomes"] = len(c.outcomes)
	}
	cov["exhaustive"] = len(c.incomplete) == 0 && len(c.viol) < 25
	r := result{Evidence: cov, Viol: c.viol, Errs: c.errs, Incomplete: c.incomplete}
	b, err := json.Marshal(r)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if err := os.WriteFile(os.Getenv("MC_RESULT"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	os.Exit(0)
}

func supervise(ck *Check, tier string) {
	start := time.Now()
	scratch := ScratchRoot()
	defer os.RemoveAll(scratch)
	code := supervise2(ck, tier, scratch, start)
	os.RemoveAll(scratch)
	os.Exit(code)
}

// outcome is what one worker run gave.
type outcome struct {
	res      result
	cands    []Viol
	died     bool // no result
	err      error
	timedOut bool
	stderr   []byte
}

// runWorker runs one exploration in a process of its own.
func runWorker(ck *Check, tier, scratch string) (o outcome) {
	resf := filepath.Join(scratch, "result.json")
	slots := filepath.Join(scratch, "slots")
	os.Remove(resf)
	os.Remove(resf + ".viol")
	f, err := os.Create(slots)
	if err == nil {
		err = f.Truncate(slotSize * 64)
		f.Close()
	}
	if err != nil {
		o.err, o.died = err, true
		return o
	}
	hard := 300 * time.Second
	if tier == "thorough" {
		hard = 860 * time.Second
	}
	cmd := exec.Command(os.Args[0], ck.ID, tier)
	cmd.Env = append(os.Environ(), "MC_WORKER=1", "MC_RESULT="+resf, "MC_SLOTS="+slots, "MC_SCRATCH="+scratch)
	errf, _ := os.Create(filepath.Join(scratch, "stderr"))
	cmd.Stderr = errf
	cmd.Stdout = errf
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		o.err, o.died = err, true
		return o
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case o.err = <-done:
	case <-time.After(hard):
		o.timedOut = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-done
		}
	}
	errf.Close()
	o.stderr, _ = os.ReadFile(filepath.Join(scratch, "stderr"))
	if os.Getenv("MC_DEBUG") != "" {
		os.Stderr.Write(o.stderr)
	}
	b, rerr := os.ReadFile(resf)
	if rerr == nil {
		rerr = json.Unmarshal(b, &o.res)
	}
	if rerr == nil {
		o.cands = o.res.Viol
		return o
	}
	// The worker died. Cases announced last are the suspects.
	o.died = true
	if b, err := os.ReadFile(resf + ".viol"); err == nil {
		json.Unmarshal(b, &o.cands)
	}
	sl, _ := os.ReadFile(slots)
	for i := 0; i+slotSize <= len(sl); i += slotSize {
		n := int(sl[i]) | int(sl[i+1])<<8 | int(sl[i+2])<<16 | int(sl[i+3])<<24
		if n == 0 || n > slotSize-8 {
			continue
		}
		cs := append([]byte{}, sl[i+8:i+8+n]...)
		o.cands = append(o.cands, Viol{Key: "crash:" + string(cs), What: "process crashed: " + crashLine(o.stderr), Case: cs})
	}
	return o
}

// failure says what an exploration as a whole showed, "" if nothing.
func (o outcome) failure() string {
	if !o.died {
		if len(o.cands) > 0 {
			return o.cands[0].What
		}
		return ""
	}
	if s := string(o.stderr); !o.timedOut && strings.Contains(s, "libregraph/idm") && (strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:")) {
		return "process crashed: " + crashLine(o.stderr)
	}
	return ""
}

// wholeCase stands for the complete exploration, for violations that need its history.
var wholeCase = json.RawMessage(`{"whole_exploration":true}`)

func supervise2(ck *Check, tier, scratch string, start time.Time) int {
	o := runWorker(ck, tier, scratch)
	res, cands, stderr := o.res, o.cands, o.stderr
	known := loadKnown(ck.ID)
	if o.died {
		res.Evidence = map[string]any{"rule": ck.Rule, "samples": []any{}, "exhaustive": false, "worker_died": true}
		if ck.Level == "model_checking" {
			res.Evidence["states"], res.Evidence["transitions"], res.Evidence["traces_validated_against_impl"] = 0, 0, 0
		} else {
			res.Evidence["evaluations"], res.Evidence["distinct_nontrivial"] = 0, 0
		}
	}
	// Confirm candidates by re-execution in fresh processes.
	var confirmed []Viol
	unconfirmed := 0
	confirmStart := time.Now()
	for _, v := range cands {
		if _, ok := known[v.Key]; !ok && len(confirmed) >= 8 {
			continue
		}
		if time.Since(confirmStart) > 200*time.Second && len(confirmed) > 0 {
			break
		}
		v, ok := confirm(ck, v, scratch, tier)
		if ok {
			confirmed = append(confirmed, v)
		} else {
			unconfirmed++
		}
	}
	if len(confirmed) == 0 && o.failure() != "" && (unconfirmed > 0 || o.died) && time.Since(start) < 250*time.Second {
		// Perhaps the failure needs what other cases did before: the exploration as a whole has to show one again, twice.
		what := o.failure()
		for i := 0; i < 2 && what != ""; i++ {
			what = runWorker(ck, tier, scratch).failure()
		}
		if what != "" {
			confirmed = append(confirmed, Viol{Key: what, What: "in the course of the exploration: " + what, Case: wholeCase})
		}
	}
	exit := 0
	unlisted := 0
	seen := map[string]bool{}
	os.MkdirAll(filepath.Join(Root(), "evidence"), 0o755)
	old, _ := filepath.Glob(filepath.Join(Root(), "evidence", "replay-"+ck.ID+"-*.json"))
	for _, o := range old {
		os.Remove(o)
	}
	for i, v := range confirmed {
		if k, ok := known[v.Key]; ok {
			if !seen[k.key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, k.what)
			}
			seen[k.key] = true
			continue
		}
		unlisted++
		p := filepath.Join(Root(), "evidence", fmt.Sprintf("replay-%s-%d.json", ck.ID, i))
		rb, _ := json.MarshalIndent(map[string]any{"property": ck.ID, "tier": tier, "key": v.Key, "what": v.What, "case": v.Case}, "", " ")
		os.WriteFile(p, rb, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, p)
		fmt.Printf("  %s\n  case: %s\n", v.What, trunc(string(v.Case), 2000))
		exit = 1
	}
	for k := range known {
		if !seen[k] && exit == 0 {
			fmt.Printf("note: listed finding not observed in this run: %s\n", k)
		}
	}
	if unconfirmed > 0 {
		res.Evidence["unconfirmed_candidates"] = unconfirmed
	}
	if len(res.Incomplete) > 0 {
		res.Evidence["incomplete_because"] = res.Incomplete
	}
	ev := map[string]any{"property": ck.ID, "tier": tier, "seed": seed(), "level": ck.Level, "coverage": res.Evidence,
		"wall_s": time.Since(start).Seconds(), "violations": unlisted}
	if len(ck.Assume) > 0 {
		ev["assumptions"] = ck.Assume
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(Root(), "evidence", ck.ID+".json"), append(eb, '\n'), 0o644)
	if exit == 0 {
		if o.died {
			os.Stderr.Write(tail(stderr, 6000))
			fmt.Fprintf(os.Stderr, "check worker ended without a result (timed out: %v, %v)\n", o.timedOut, o.err)
			return 2
		}
		if len(res.Errs) > 0 {
			fmt.Fprintln(os.Stderr, "errors of the check:", strings.Join(res.Errs, "\n"))
			return 2
		}
	}
	sum := []string{}
	for _, k := range []string{"states", "transitions", "traces_validated_against_impl", "evaluations", "distinct_nontrivial", "distinct_outcomes", "exhaustive", "unconfirmed_candidates"} {
		if v, ok := res.Evidence[k]; ok {
			sum = append(sum, fmt.Sprintf("%s=%v", k, v))
		}
	}
	fmt.Printf("%s %s: %s (%.1fs)\n", ck.ID, tier, strings.Join(sum, " "), time.Since(start).Seconds())
	if unconfirmed > 0 && os.Getenv("MC_VERBOSE") != "" {
		for _, v := range cands {
			fmt.Printf("candidate: %s | %s\n", v.What, trunc(string(v.Case), 500))
		}
	}
	return exit
}

func tail(b []byte, n int) []byte {
	if len(b) > n {
		return b[len(b)-n:]
	}
	return b
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func crashLine(b []byte) string {
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			return trunc(l, 200)
		}
	}
	return "no panic message"
}

// confirm re-executes a candidate five times in separate processes; it must fail each time.
func confirm(ck *Check, v Viol, scratch, tier string) (Viol, bool) {
	if ck.Replay == nil {
		return v, true
	}
	n := 5
	for i := 0; i < n; i++ {
		begin := time.Now()
		what, crashed, hung, ok := replayProc(ck, v.Case, scratch, tier)
		hung = hung || time.Since(begin) > 10*time.Second
		if !ok {
			return v, false
		}
		if crashed {
			v.What = "process crashed: " + what
		} else if what != "" && strings.HasPrefix(v.What, "process crashed") {
			v.What = what
			if strings.HasPrefix(v.Key, "crash:") {
				v.Key = what
			}
		}
		if hung && n > 2 {
			n = 2
		}
	}
	return v, true
}

func replayProc(ck *Check, kase json.RawMessage, scratch, tier string) (what string, crashed, hung, ok bool) {
	cf := filepath.Join(scratch, "case.json")
	os.WriteFile(cf, kase, 0o644)
	dir, _ := os.MkdirTemp(scratch, "replay-")
	defer os.RemoveAll(dir)
	cmd := exec.Command(os.Args[0], "replay", cf)
	cmd.Env = append(os.Environ(), "MC_REPLAY_ID="+ck.ID, "MC_REPLAY_RAW=1", "MC_TIER="+tier, "MC_SCRATCH="+dir)
	var eb strings.Builder
	cmd.Stderr = &eb
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var ob strings.Builder
	cmd.Stdout = &ob
	if err := cmd.Start(); err != nil {
		return "", false, false, false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(120 * time.Second):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return "re-execution does not end", false, true, true
	}
	out := ob.String()
	if i := strings.Index(out, "REPLAY-VIOLATION "); i >= 0 {
		s := strings.TrimSpace(out[i+len("REPLAY-VIOLATION "):])
		return s, false, strings.Contains(s, "no answer"), true
	}
	if err == nil {
		return "", false, false, false
	}
	if strings.Contains(eb.String(), "panic:") || strings.Contains(eb.String(), "fatal error:") {
		return crashLine([]byte(eb.String())), true, false, true
	}
	return "", false, false, false
}

func replayMain(byID map[string]*Check, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	id := os.Getenv("MC_REPLAY_ID")
	kase := json.RawMessage(b)
	tier := os.Getenv("MC_TIER")
	if os.Getenv("MC_REPLAY_RAW") != "1" {
		var r struct {
			Property, Tier string
			Case           json.RawMessage
		}
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		id, kase, tier = r.Property, r.Case, r.Tier
	}
	ck := byID[id]
	if ck == nil || ck.Replay == nil {
		fmt.Fprintln(os.Stderr, "cannot replay", id)
		os.Exit(2)
	}
	scratch := os.Getenv("MC_SCRATCH")
	if scratch == "" {
		scratch = ScratchRoot()
		defer os.RemoveAll(scratch)
	}
	if string(kase) == string(wholeCase) {
		if what := runWorker(ck, tier, scratch).failure(); what != "" {
			fmt.Println("REPLAY-VIOLATION " + what)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
			os.RemoveAll(scratch)
			os.Exit(1)
		}
		fmt.Println("replay: the exploration shows no violation")
		return
	}
	c := newCtx(ck, tier, scratch)
	c.Replays = true
	what := ck.Replay(c, kase)
	if what != "" {
		fmt.Println("REPLAY-VIOLATION " + strings.ReplaceAll(what, "\n", " / "))
		if os.Getenv("MC_REPLAY_RAW") != "1" {
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
			os.RemoveAll(scratch)
			os.Exit(1)
		}
		os.Exit(0)
	}
	if len(c.errs) > 0 {
		fmt.Fprintln(os.Stderr, strings.Join(c.errs, "\n"))
		os.Exit(2)
	}
	fmt.Println("replay: property holds for this case")
	os.Exit(0)
}

// SortedKeys is a helper.
func SortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
