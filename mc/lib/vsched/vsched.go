// Package vsched runs the goroutines of an experiment one at a time and explores their schedules: all that differ from
// the default one (a thread runs until it is done or has to wait) by a bounded number of deviations.
package vsched

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Level is the level of instrumentation the program was built with, set by the linker: 0 none, 1 points, 2 also locks,
// split assignments and the end of goroutines.
var Level = "0"

func getg() uintptr // identity of the calling goroutine, see getg_amd64.s

// Thread is a scheduled goroutine.
type Thread struct {
	run     *Run
	Index   int
	wake    chan struct{}
	blocked bool // waits for a lock
	parked  bool // waits for its turn
	ext     bool // waits for something the scheduler does not know
	done    bool
	goid    string
	seen    []int32
}

// Dev is a deviation: at the given decision the given thread runs.
type Dev struct {
	At     int  `json:"at"`
	Thread int  `json:"thread"`
	Sync   bool `json:"sync,omitempty"`
	Free   bool `json:"free,omitempty"` // no preemption: the running thread had to stop anyway
}

// Point is a decision.
type Point struct {
	Pick    int    // thread chosen
	Enabled uint64 // threads that could have been chosen (bits), at least two
	Free    bool   // the running thread could not continue
	Sync    bool   // at a lock or a connection
	Seen    int    // how often the thread was at this statement before
}

// Others gives the threads that could have been chosen instead.
func (p Point) Others() (l []int) {
	for i := 0; i < 64; i++ {
		if p.Enabled>>i&1 != 0 && i != p.Pick {
			l = append(l, i)
		}
	}
	return l
}

// Run is one execution.
type Run struct {
	Points   []Point
	Steps    int
	Diverged bool   // a deviation did not fit
	Loose    bool   // a thread waited outside of the scheduler for a while: not reproducible in all details
	Stuck    string // why threads cannot finish

	mu      sync.Mutex
	threads []*Thread
	cur     *Thread
	devs    []Dev
	started bool
	closed  bool
	over    chan struct{}
	arrived chan struct{}
	steps   atomic.Int64
	clock   atomic.Int64
	gates   atomic.Int64
}

// MaxSteps is the number of steps after which a run counts as never ending.
const MaxSteps = 2000000

var (
	threads sync.Map // goroutine -> *Thread
	active  atomic.Int64
)

// New makes a run with the given deviations.
func New(devs []Dev) *Run {
	active.Add(1)
	return &Run{devs: devs, over: make(chan struct{}), arrived: make(chan struct{}, 64)}
}

// Close ends the use of r.
func (r *Run) Close() { active.Add(-1) }

// Stamp gives increasing numbers.
func (r *Run) Stamp() int64 { return r.clock.Add(1) }

func self() *Thread {
	if active.Load() == 0 {
		return nil
	}
	if t, ok := threads.Load(getg()); ok {
		return t.(*Thread)
	}
	return nil
}

// Gate makes the calling goroutine thread number index of r and waits until it is scheduled.
func (r *Run) Gate(index int) {
	t := &Thread{run: r, Index: index, wake: make(chan struct{}, 1), parked: true, goid: goid()}
	threads.Store(getg(), t)
	r.mu.Lock()
	for len(r.threads) <= index {
		r.threads = append(r.threads, nil)
	}
	r.threads[index] = t
	r.mu.Unlock()
	r.gates.Add(1)
	r.arrived <- struct{}{}
	<-t.wake
}

// Arrivals is the number of threads that came to the gate so far.
func (r *Run) Arrivals() int64 { return r.gates.Load() }

func goid() string {
	var b [64]byte
	f := strings.Fields(string(b[:runtime.Stack(b[:], false)]))
	if len(f) > 1 {
		return f[1]
	}
	return ""
}

// Start waits for n threads at the gate, runs them and returns when they are done or stuck.
func (r *Run) Start(n int) error {
	for i := 0; i < n; i++ {
		select {
		case <-r.arrived:
		case <-time.After(30 * time.Second):
			return fmt.Errorf("only %d of %d threads arrived", i, n)
		}
	}
	r.mu.Lock()
	r.started = true
	t := r.choose(nil, true, 0)
	r.mu.Unlock()
	if t == nil {
		return fmt.Errorf("no threads")
	}
	t.wake <- struct{}{}
	last, quiet := int64(-1), 0
	tick := time.NewTicker(25 * time.Millisecond)
	defer tick.Stop()
	defer func() { r.Steps = int(r.steps.Load()) }()
	for {
		select {
		case <-r.over:
			return nil
		case <-tick.C:
		}
		if s := r.steps.Load(); s != last {
			last, quiet = s, 0
			continue
		}
		if quiet++; quiet >= 4 {
			r.unblock(quiet)
		}
	}
}

// unblock lets another thread run if the current one waits for something the scheduler does not know.
func (r *Run) unblock(quiet int) {
	st := states()
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.closed {
		return
	}
	t := r.cur
	if t != nil {
		s := st[t.goid]
		switch s {
		case "chan receive", "chan send", "select", "sync.Cond.Wait", "semacquire", "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.WaitGroup.Wait", "sleep", "IO wait", "chan receive (nil chan)", "chan send (nil chan)", "select (no cases)":
		default:
			return // busy
		}
		t.ext = true
		r.Loose = true
		r.cur = nil
	}
	// Threads waiting for a lock that somebody outside of the scheduler may have released try again.
	for _, o := range r.threads {
		if o != nil {
			o.blocked = false
		}
	}
	if quiet <= 320 { // eight seconds without any step are too much
		if n := r.choose(nil, true, 0); n != nil {
			n.wake <- struct{}{}
		}
		return
	}
	r.stuck("no progress")
}

// states gives the state of every goroutine.
func states() map[string]string {
	b := make([]byte, 8<<20)
	b = b[:runtime.Stack(b, true)]
	m := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "goroutine ") {
			continue
		}
		id, rest, ok := strings.Cut(strings.TrimPrefix(l, "goroutine "), " [")
		if !ok {
			continue
		}
		s, _, _ := strings.Cut(rest, "]")
		s, _, _ = strings.Cut(s, ",")
		m[id] = s
	}
	return m
}

// stuck ends the run with threads that cannot finish.
func (r *Run) stuck(why string) {
	if r.closed {
		return
	}
	l := ""
	for _, t := range r.threads {
		if t != nil && !t.done {
			l += fmt.Sprintf(" %d", t.Index)
			if t.parked {
				// Let it go: it may finish now that nobody else runs, which does not matter any more.
				select {
				case t.wake <- struct{}{}:
				default:
				}
			}
		}
	}
	r.Stuck = "unfinished threads" + l + ": " + why
	r.closed = true
	close(r.over)
}

// choose picks the thread that runs next, nil if none can. r.mu is held.
func (r *Run) choose(cur *Thread, sync bool, site int) *Thread {
	var en uint64
	n := 0
	pick, free, first := -1, true, -1
	for _, t := range r.threads {
		if t == nil || t.done || t.ext || t.blocked || t != cur && !t.parked {
			continue
		}
		en |= 1 << t.Index
		n++
		if first < 0 {
			first = t.Index
		}
		if t == cur {
			pick, free = t.Index, false
		}
	}
	if n == 0 {
		r.cur = nil
		return nil
	}
	if pick < 0 {
		pick = first
	}
	seen := 0
	if cur != nil && !sync {
		if site >= len(cur.seen) {
			cur.seen = append(cur.seen, make([]int32, site+1024-len(cur.seen))...)
		}
		seen = int(cur.seen[site])
		cur.seen[site]++
	}
	if n > 1 {
		at := len(r.Points)
		if len(r.devs) > 0 && r.devs[0].At == at {
			want := r.devs[0].Thread
			r.devs = r.devs[1:]
			if en>>want&1 != 0 {
				pick = want
			} else {
				r.Diverged = true
			}
		}
		r.Points = append(r.Points, Point{Pick: pick, Enabled: en, Free: free, Sync: sync, Seen: seen})
	}
	r.cur = r.threads[pick]
	r.cur.parked = false
	return r.cur
}

func (t *Thread) yield(sync, blocked bool, site int) {
	r := t.run
	var n int64
	if !blocked {
		n = r.steps.Add(1)
	}
	r.mu.Lock()
	if r.closed {
		r.mu.Unlock()
		if blocked {
			time.Sleep(time.Millisecond)
		}
		return
	}
	if n > MaxSteps {
		r.stuck("it never ends")
		r.mu.Unlock()
		return
	}
	if t.ext {
		// Back from a wait outside of the scheduler.
		t.ext = false
		if r.cur != nil {
			t.parked = true
			r.mu.Unlock()
			<-t.wake
			return
		}
		r.cur = t
	}
	t.blocked = blocked
	if !blocked {
		for _, o := range r.threads { // whatever they wait for may be there now
			if o != nil {
				o.blocked = false
			}
		}
	}
	nx := r.choose(t, sync, site)
	if nx == t {
		r.mu.Unlock()
		return
	}
	t.parked = true
	r.mu.Unlock()
	if nx != nil {
		nx.wake <- struct{}{}
	}
	<-t.wake
}

// P is a scheduling point.
func P(site int) {
	if t := self(); t != nil {
		t.yield(false, false, site)
	}
}

// Sync is a scheduling point at a connection.
func Sync() {
	if t := self(); t != nil {
		t.yield(true, false, 0)
	}
}

// Yield is called by locks before an attempt (blocked=false) and after a failed one.
func Yield(blocked bool) {
	t := self()
	if t == nil {
		if blocked {
			time.Sleep(20 * time.Microsecond)
		}
		return
	}
	t.yield(true, blocked, 0)
}

// Lock takes a lock.
func Lock(try func() bool, lock func()) {
	t := self()
	if t == nil {
		lock()
		return
	}
	t.yield(true, false, 0)
	for !try() {
		t.yield(true, true, 0)
	}
}

// Exit ends the thread of the calling goroutine, if it is one.
func Exit() {
	t := self()
	if t == nil {
		return
	}
	threads.Delete(getg())
	r := t.run
	r.steps.Add(1)
	r.mu.Lock()
	defer r.mu.Unlock()
	t.done = true
	if r.closed {
		return
	}
	all := true
	for _, o := range r.threads {
		if o != nil {
			o.blocked = false
			all = all && o.done
		}
	}
	if all {
		r.closed = true
		close(r.over)
		return
	}
	if t.ext && r.cur != nil {
		return
	}
	if n := r.choose(nil, true, 0); n != nil {
		n.wake <- struct{}{}
	}
}
