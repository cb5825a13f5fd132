package main

import (
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	bolt "go.etcd.io/bbolt"

	"idmverif/lib/ber"
	"idmverif/lib/run"
	"idmverif/lib/vsched"
	"idmverif/lib/wire"
)

// schedConn is a connection whose requests are all there from the start. The server's goroutine for it becomes a
// scheduled thread when it asks for the first request after the gate.
type schedConn struct {
	run    *vsched.Run
	thread int
	gate   int      // requests before this one are handled beforehand
	chunks [][]byte // requests
	next   int
	rest   []byte

	mu     sync.Mutex
	out    []byte
	ends   []schedMark // output length and time of every write
	sent   []int64     // time of the first byte of every request
	gone   bool
	closed chan struct{}
	remote net.Addr
}

type schedMark struct {
	n  int
	at int64
}

func newSchedConn(r *vsched.Run, thread int, before, reqs []*ber.Node) *schedConn {
	c := &schedConn{run: r, thread: thread, gate: len(before), closed: make(chan struct{}), remote: wire.Loopback}
	for i, op := range append(append([]*ber.Node{}, before...), reqs...) {
		c.chunks = append(c.chunks, wire.Msg(int64(i+1), op).Bytes())
	}
	return c
}

func (c *schedConn) Read(b []byte) (int, error) {
	if len(c.rest) == 0 {
		if c.next == c.gate {
			c.run.Gate(c.thread)
		} else if c.next > c.gate {
			vsched.Sync()
		}
		c.mu.Lock()
		gone := c.gone
		c.mu.Unlock()
		if gone || c.next == len(c.chunks) {
			c.next = len(c.chunks) + c.gate + 1
			return 0, io.EOF
		}
		if c.next > len(c.chunks) {
			return 0, io.EOF
		}
		c.rest = c.chunks[c.next]
		c.next++
		c.mu.Lock()
		c.sent = append(c.sent, c.run.Stamp())
		c.mu.Unlock()
	}
	n := copy(b, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}

func (c *schedConn) Write(b []byte) (int, error) {
	vsched.Sync()
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.gone {
		return 0, io.ErrClosedPipe
	}
	c.out = append(c.out, b...)
	c.ends = append(c.ends, schedMark{len(c.out), c.run.Stamp()})
	return len(b), nil
}

func (c *schedConn) Close() error {
	c.mu.Lock()
	was := c.gone
	c.gone = true
	c.mu.Unlock()
	if !was {
		close(c.closed)
		if vsched.Level != "2" {
			vsched.Exit()
		}
	}
	return nil
}
func (c *schedConn) LocalAddr() net.Addr              { return wire.Addr{Net: "tcp", S: "127.0.0.1:389"} }
func (c *schedConn) RemoteAddr() net.Addr             { return c.remote }
func (c *schedConn) SetDeadline(time.Time) error      { return nil }
func (c *schedConn) SetReadDeadline(time.Time) error  { return nil }
func (c *schedConn) SetWriteDeadline(time.Time) error { return nil }

// schedAnswer is the answer to a request with the times of both.
type schedAnswer struct {
	wire.Result
	inv, resp int64
}

// answers reads the recorded answers, beginning with the gate.
func (c *schedConn) answers() []schedAnswer {
	c.mu.Lock()
	defer c.mu.Unlock()
	cl := wire.Recorded(append([]byte{}, c.out...))
	var r []schedAnswer
	for i, b := range c.chunks {
		n, _, _, _ := ber.Decode(b)
		if n == nil || len(n.Kids) < 2 {
			continue // no request
		}
		tag := wire.RespTag(n.Kids[1].Tag)
		if tag == 0 {
			continue
		}
		a := schedAnswer{Result: cl.Await(int64(i+1), tag)}
		if i < len(c.sent) {
			a.inv = c.sent[i]
		}
		used := len(c.out) - cl.Unread()
		for _, m := range c.ends {
			if m.n >= used {
				a.resp = m.at
				break
			}
		}
		if i >= c.gate {
			r = append(r, a)
		} else if a.Code != 0 {
			r = append(r, a) // the preparation failed; shows up as a wrong number of answers
		}
	}
	return r
}

// schedBounds limits deviations: at most plain of them at ordinary statements and total altogether, for any of the pairs.
// Choices among threads after one had to stop are free, up to extra.
type schedBounds struct {
	pairs [][2]int // plain, total
	free  int
	loops int // deviations at the first executions of a statement by a thread only, 0 for all
}

func (b schedBounds) allow(devs []vsched.Dev) bool {
	plain, total, free := 0, 0, 0
	for _, d := range devs {
		switch {
		case d.Free:
			free++
		case d.Sync:
			total++
		default:
			plain++
			total++
		}
	}
	if free > b.free {
		return false
	}
	for _, p := range b.pairs {
		if plain <= p[0] && total <= p[1] {
			return true
		}
	}
	return false
}

// schedItem is a schedule of a scenario.
type schedItem struct {
	scen int
	devs []vsched.Dev
}

// schedExplore runs all schedules of all scenarios within the bounds. f executes one and returns the run.
func schedExplore(c *run.Ctx, scens int, bounds func(scen int) schedBounds, f func(w, scen int, devs []vsched.Dev) *vsched.Run) {
	schedHook()
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	var stack []schedItem
	for i := scens - 1; i >= 0; i-- {
		stack = append(stack, schedItem{scen: i})
	}
	busy := 0
	var wg sync.WaitGroup
	for w := 0; w < c.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				for len(stack) == 0 && busy > 0 {
					cond.Wait()
				}
				if len(stack) == 0 || c.Enough() || c.Expired() {
					cond.Broadcast()
					mu.Unlock()
					return
				}
				it := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				busy++
				mu.Unlock()
				r := f(w, it.scen, it.devs)
				var kids []schedItem
				if r != nil && !r.Diverged && r.Stuck == "" {
					b := bounds(it.scen)
					from := 0
					if n := len(it.devs); n > 0 {
						from = it.devs[n-1].At + 1
					}
					for at := from; at < len(r.Points); at++ {
						p := r.Points[at]
						if b.loops > 0 && p.Seen >= b.loops {
							continue
						}
						for _, t := range p.Others() {
							d := append(append([]vsched.Dev{}, it.devs...), vsched.Dev{At: at, Thread: t, Sync: p.Sync, Free: p.Free})
							if b.allow(d) {
								kids = append(kids, schedItem{it.scen, d})
							}
						}
					}
				}
				mu.Lock()
				busy--
				for i := len(kids) - 1; i >= 0; i-- {
					stack = append(stack, kids[i])
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
}

func devsText(d []vsched.Dev) string {
	s := ""
	for _, x := range d {
		s += fmt.Sprintf(" %d→%d", x.At, x.Thread)
	}
	return s
}

func schedHook() { bolt.VYield = vsched.Yield }
