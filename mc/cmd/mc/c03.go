package main

import (
	"crypto/sha256"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	bolt "go.etcd.io/bbolt"

	"idmverif/lib/dir"
	"idmverif/lib/model"
	"idmverif/lib/run"
	"idmverif/lib/wire"
)

// c03Case is a crash, or a storage fault, in a history.
type c03Case struct {
	Init   string `json:"init"`
	Ops    []int  `json:"ops"`
	Point  int    `json:"point"`            // length of the log at the crash, -1 for a fault
	Kept   []int  `json:"kept,omitempty"`   // pending block writes that reached the disk
	Fault  int    `json:"fault,omitempty"`  // number of the failing storage operation, from 1
	Sticky bool   `json:"sticky,omitempty"` // all later ones fail too
}

type c03Rec struct {
	kind byte // W block write, T truncate, S sync, B request sent, A request answered
	off  int64
	data []byte
	n    int
}

const c03Block = 4096

// c03Disk records, and fails, the storage operations on one file.
type c03Disk struct {
	mu     sync.Mutex
	log    []c03Rec
	ops    int
	fault  int
	sticky bool
	hit    bool
}

func (d *c03Disk) add(r c03Rec) {
	d.mu.Lock()
	d.log = append(d.log, r)
	d.mu.Unlock()
}

func (d *c03Disk) op() error {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.ops++
	if d.fault > 0 && (d.ops == d.fault || d.sticky && d.ops > d.fault) {
		d.hit = true
		return errors.New("input/output error")
	}
	return nil
}

var c03Disks sync.Map // path -> *c03Disk

func c03Hooks() {
	get := func(p string) *c03Disk {
		if v, ok := c03Disks.Load(p); ok {
			return v.(*c03Disk)
		}
		return nil
	}
	bolt.VHooks.Store(&bolt.VHookSet{
		WriteAt: func(p string, b []byte, off int64) error {
			d := get(p)
			if d == nil {
				return nil
			}
			if err := d.op(); err != nil {
				return err
			}
			for i := 0; i < len(b); {
				n := min(len(b)-i, c03Block-int((off+int64(i))%c03Block))
				d.add(c03Rec{kind: 'W', off: off + int64(i), data: append([]byte{}, b[i:i+n]...)})
				i += n
			}
			return nil
		},
		Truncate: func(p string, size int64) error {
			d := get(p)
			if d == nil {
				return nil
			}
			if err := d.op(); err != nil {
				return err
			}
			d.add(c03Rec{kind: 'T', off: size})
			return nil
		},
		Sync: func(p string) error {
			d := get(p)
			if d == nil {
				return nil
			}
			if err := d.op(); err != nil {
				return err
			}
			d.add(c03Rec{kind: 'S'})
			return nil
		},
	})
}

func c03Inits() []*initState {
	return []*initState{
		{name: "some entries", seed: popSeed()},
		{name: "many entries", seed: append(wideSeed(40), popSeed()[3:]...)},
		{name: "old sequence", seed: popSeed(), age: 255},
	}
}

func c03Ops() []dir.Op {
	return []dir.Op{
		addOp("cn=new,ou=a,dc=x", "cn", "new"),
		addOp("ou=sub,ou=b,dc=x", "ou", "sub", "description", strings.Repeat("big", 4000)),
		delOp("cn=x,ou=a,dc=x"),
		modOp("cn=x,ou=a,dc=x", ch(model.Replace, "description", "v2", "v3"), ch(model.Add, "sn", "s")),
		modOp("cn=y,ou=a,dc=x", ch(model.Add, "description", strings.Repeat("y", 9000))),
		renOp("ou=a,dc=x", "ou=renamed", true),
		renOp("cn=x,ou=a,dc=x", "cn=z", false),
		pwOp("cn=x,ou=a,dc=x", "second"),
		pwOp("cn=x,ou=a,dc=x", "third"),
		delOp("ou=b,dc=x"),
		delOp("cn=k\\, l+sn=m,ou=b,dc=x"),
		renOp("ou=b,dc=x", "ou=a", true), // refused
		modOp("ou=a,dc=x", ch(model.Replace, "description")),
		addOp("cn=child,cn=new,ou=a,dc=x", "cn", "child"),
	}
}

// c03State is a directory that may be found after a crash.
type c03State struct {
	tree *model.Tree
	pw   string // of cn=x,ou=a
}

type c03Run struct {
	init   *initState
	ops    []int
	disk   *c03Disk
	states []c03State // after n answered requests
	codes  []int64
	good   map[string]string // outcome by content, nil: judge everything
}

// c03Drive runs a history and records everything.
func c03Drive(in *initState, ops []int, path string, fault int, sticky bool) (*c03Run, *dir.Dir, error) {
	all := c03Ops()
	r := &c03Run{init: in, ops: ops, disk: &c03Disk{}}
	if err := os.WriteFile(path, in.content, 0o600); err != nil {
		return nil, nil, err
	}
	if fault == 0 {
		c03Disks.Store(path, r.disk) // the start of the server is recorded as well
	}
	d, err := dir.Open(path, nil)
	if err != nil {
		c03Disks.Delete(path)
		return nil, nil, err
	}
	if fault > 0 {
		r.disk.fault, r.disk.sticky = fault, sticky
		c03Disks.Store(path, r.disk)
	}
	cl := d.Srv.DialHooks(wire.Addr{Net: "tcp", S: "127.0.0.1:9"}, &wire.Hooks{Write: func([]byte) { r.disk.add(c03Rec{kind: 'A'}) }}, 0)
	if x := cl.Bind(dir.AdminDN, dir.AdminPW); x.Code != 0 {
		return nil, d, fmt.Errorf("bind: %d", x.Code)
	}
	r.disk.mu.Lock()
	for i := range r.disk.log {
		if r.disk.log[i].kind == 'A' {
			r.disk.log[i].kind = '-'
		}
	}
	r.disk.mu.Unlock()
	t, pw := in.tree.Clone(), "pw"
	r.states = append(r.states, c03State{t, pw})
	for _, o := range ops {
		r.disk.add(c03Rec{kind: 'B'})
		x := all[o].Do(cl)
		r.codes = append(r.codes, x.Code)
		t = t.Clone()
		if x.Code == 0 {
			if !all[o].Apply(t) && fault == 0 {
				return nil, d, fmt.Errorf("accepted although not allowed")
			}
			if all[o].K == "pw" {
				pw = all[o].PW
			}
		}
		r.states = append(r.states, c03State{t, pw})
		if x.Code < 0 {
			break
		}
	}
	cl.Close()
	return r, d, nil
}

var c03Names = []string{"dc=x", "ou=a,dc=x", "ou=b,dc=x", "cn=x,ou=a,dc=x", "cn=new,ou=a,dc=x", "ou=renamed,dc=x", "cn=x,ou=renamed,dc=x", "cn=z,ou=a,dc=x", "ou=sub,ou=b,dc=x", "cn=child,cn=new,ou=a,dc=x"}

// c03Matches looks for the state a directory is in.
func c03Matches(d *dir.Dir, want []c03State, queries bool) (int, string) {
	got, err := d.Content()
	if err != nil {
		return -1, err.Error()
	}
	for i := len(want) - 1; i >= 0; i-- {
		if want[i].tree.Canon() != got {
			continue
		}
		if e := want[i].tree.Get("cn=x,ou=a,dc=x"); e != nil {
			cl := d.Srv.Dial()
			code := cl.Bind("cn=x,ou=a,dc=x", want[i].pw).Code
			cl.Close()
			if code != 0 {
				if i > 0 {
					continue
				}
				return -1, fmt.Sprintf("cn=x does not bind with %q", want[i].pw)
			}
		}
		if queries {
			if what, _ := queryAll(d, want[i].tree, c03Names); what != "" {
				return -1, what
			}
		}
		return i, ""
	}
	l := ""
	for i := range want {
		l += fmt.Sprintf(" [compared with allowed state %d: %s]", i, trim(model.Diff(got, want[i].tree.Canon()), 300))
	}
	return -1, "the directory is in none of the allowed states:" + l
}

// at gives the allowed states at a crash point and the pending operations.
func (r *c03Run) at(point int) (want []c03State, pending []int, answered int) {
	sent := 0
	for i, e := range r.disk.log[:point] {
		switch e.kind {
		case 'W', 'T':
			pending = append(pending, i)
		case 'S':
			pending = nil
		case 'B':
			sent++
		case 'A':
			answered++
		}
	}
	want = r.states[answered : answered+1]
	if sent > answered {
		want = r.states[answered : answered+2]
	}
	return want, pending, answered
}

// image builds the file with the synced operations and the kept ones.
func (r *c03Run) image(point int, pending, kept []int) []byte {
	drop := map[int]bool{}
	for _, p := range pending {
		drop[p] = true
	}
	for _, k := range kept {
		delete(drop, k)
	}
	f := append([]byte{}, r.init.content...)
	for i, e := range r.disk.log[:point] {
		if drop[i] {
			continue
		}
		switch e.kind {
		case 'W':
			if need := int(e.off) + len(e.data); need > len(f) {
				f = append(f, make([]byte, need-len(f))...)
			}
			copy(f[e.off:], e.data)
		case 'T':
			if int(e.off) > len(f) {
				f = append(f, make([]byte, int(e.off)-len(f))...)
			} else {
				f = f[:e.off]
			}
		}
	}
	return f
}

// crash judges one crash image.
func (r *c03Run) crash(c *run.Ctx, path string, point int, want []c03State, answered int, pending, kept []int) string {
	f := r.image(point, pending, kept)
	key := ""
	if r.good != nil {
		// Databases with the same content, and a sound structure, are judged once.
		os.WriteFile(path, f, 0o600)
		if dump := c03Dump(path); dump != "" {
			key = fmt.Sprint(dump, answered, len(want))
			if o, ok := r.good[key]; ok {
				c.Outcome(o)
				return ""
			}
		}
	}
	d, err := dir.Open(path, f)
	if err != nil {
		return "the database does not open: " + err.Error()
	}
	defer d.Close()
	i, what := c03Matches(d, want, true)
	if what != "" {
		return what
	}
	o := fmt.Sprintf("state %d of %d", i+1, len(want))
	c.Outcome(o)
	// It has to be usable.
	t := want[i].tree.Clone()
	after := addOp("cn=after,dc=x", "cn", "after")
	after.Apply(t)
	if x := after.Do(d.Adm); x.Code != 0 {
		return fmt.Sprintf("the next write fails: %d", x.Code)
	}
	if got, err := d.Content(); err != nil || got != t.Canon() {
		return fmt.Sprintf("after the next write: %v %s", err, trim(model.Diff(got, t.Canon()), 300))
	}
	if key != "" {
		r.good[key] = o
	}
	return ""
}

// c03Dump gives the content of a database, "" if it is damaged.
func c03Dump(path string) (s string) {
	defer func() {
		if recover() != nil {
			s = ""
		}
	}()
	db, err := bolt.Open(path, 0o600, &bolt.Options{ReadOnly: true})
	if err != nil {
		return ""
	}
	defer db.Close()
	h := sha256.New()
	db.View(func(tx *bolt.Tx) error {
		if !c03Sound(tx) {
			err = errors.New("damaged")
		}
		return tx.ForEach(func(n []byte, b *bolt.Bucket) error {
			fmt.Fprintf(h, "B%q %d\n", n, b.Sequence())
			return b.ForEach(func(k, v []byte) error {
				fmt.Fprintf(h, "%d %d ", len(k), len(v))
				h.Write(k)
				h.Write(v)
				return nil
			})
		})
	})
	if err != nil {
		return ""
	}
	return string(h.Sum(nil))
}

func c03Sound(tx *bolt.Tx) bool {
	ok := true
	for range tx.Check() {
		ok = false
	}
	return ok
}

// subsets calls f with every subset of l, or the ones with few lost or few kept writes if there are too many.
func subsets(l []int, limit int, f func(kept []int)) (complete bool) {
	if len(l) <= limit {
		for m := 0; m < 1<<len(l); m++ {
			var k []int
			for i, x := range l {
				if m>>i&1 == 1 {
					k = append(k, x)
				}
			}
			f(k)
		}
		return true
	}
	for i := 0; i <= len(l); i++ {
		f(l[:i])
		f(l[i:])
	}
	for i := range l {
		f([]int{l[i]})
		f(append(append([]int{}, l[:i]...), l[i+1:]...))
		for j := i + 1; j < len(l); j++ {
			f([]int{l[i], l[j]})
			f(append(append(append([]int{}, l[:i]...), l[i+1:j]...), l[j+1:]...))
		}
	}
	return false
}

// c03Fault injects an error into the given storage operation. The second result tells whether there was such an operation.
func c03Fault(c *run.Ctx, in *initState, k c03Case, path string) (string, bool) {
	defer c03Disks.Delete(path)
	r, d, err := c03Drive(in, k.Ops, path, k.Fault, k.Sticky)
	if d != nil {
		defer d.Close()
	}
	if err != nil {
		return err.Error(), true
	}
	if !r.disk.hit {
		return "", false
	}
	all := c03Ops()
	for i, o := range k.Ops[:len(r.codes)] {
		if r.codes[i] < 0 {
			return fmt.Sprintf("no answer to %s", all[o]), true
		}
	}
	// Every request answered with success is there; each one that failed may be there if storage failed.
	c03Disks.Delete(path)
	set := []c03State{{in.tree.Clone(), "pw"}}
	for i, o := range k.Ops {
		var next []c03State
		for _, s := range set {
			t := s.tree.Clone()
			pw := s.pw
			ok := all[o].Apply(t)
			if ok && all[o].K == "pw" {
				pw = all[o].PW
			}
			switch {
			case r.codes[i] == 0 && ok:
				next = append(next, c03State{t, pw})
			case r.codes[i] != 0 && ok:
				next = append(next, s, c03State{t, pw})
			case r.codes[i] != 0:
				next = append(next, s)
			}
		}
		set = next
	}
	failed := false
	for _, x := range r.codes {
		failed = failed || x != 0
	}
	if !failed {
		return "storage failed but every request was answered with success", true
	}
	if len(set) == 0 {
		return fmt.Sprintf("answers %v are not possible", r.codes), true
	}
	c.Outcome("error reported")
	a, err := d.Admin()
	if err != nil {
		return "after the error: " + err.Error(), true
	}
	d.Adm.Close()
	d.Adm = a
	i, what := c03Matches(d, set, false)
	if what != "" {
		return "after the error: " + what, true
	}
	t := set[i].tree.Clone()
	after := addOp("cn=after,dc=x", "cn", "after")
	after.Apply(t)
	if x := after.Do(d.Adm); x.Code != 0 {
		return fmt.Sprintf("the next write after the error fails: %d %s", x.Code, x.Msg), true
	}
	// And again after a restart.
	d.Close()
	e, err := dir.Open(path, nil)
	if err != nil {
		return "the database does not open: " + err.Error(), true
	}
	defer e.Close()
	if _, what := c03Matches(e, []c03State{{t, set[i].pw}}, true); what != "" {
		return "after the error and a restart: " + what, true
	}
	return "", true
}

func init() {
	register(&run.Check{
		ID: "C03", Level: "fault_enumeration",
		Rule:   "For every history of up to two write requests (thorough: three from the first initial state) over 14 requests from three initial databases: a crash at every position of the log of storage operations, with every subset of the 4 KiB blocks written since the last sync on disk (if more than 10 (12) blocks: all prefixes, suffixes and subsets with at most two kept or lost); the database is opened again, compared with the states allowed at that moment, queried in all scopes and written to. And an error, once or from then on, at every storage operation of the requests. Non-trivial are the crashes with a request in progress or writes pending, and all faults.",
		Assume: []string{"block writes of 4 KiB are atomic", "data is on disk once the sync call has returned"},
		Explore: func(c *run.Ctx) {
			c03Hooks()
			inits := c03Inits()
			sp := &treeSpec{inits: inits}
			if err := sp.prepare(c.Scratch); err != nil {
				c.Errorf("%v", err)
				return
			}
			type job struct {
				in  *initState
				ops []int
			}
			var jobs []job
			n := len(c03Ops())
			for q, in := range inits {
				jobs = append(jobs, job{in, nil})
				for i := 0; i < n; i++ {
					jobs = append(jobs, job{in, []int{i}})
					for j := 0; j < n; j++ {
						if q == 0 || c.Thorough || (i+j+q)%4 == 0 {
							jobs = append(jobs, job{in, []int{i, j}})
						}
						if c.Thorough && q == 0 {
							for k := 0; k < n; k++ {
								jobs = append(jobs, job{in, []int{i, j, k}})
							}
						}
					}
				}
			}
			limit := 10
			if c.Thorough {
				limit = 12
			}
			var cut, maxPending sync.Map
			c.Par(len(jobs), func(w, i int) {
				if c.Expired() || c.Enough() {
					return
				}
				j := jobs[i]
				path := filepath.Join(c.Scratch, fmt.Sprintf("c03-%d.db", w))
				img := filepath.Join(c.Scratch, fmt.Sprintf("c03-%d-image.db", w))
				c.Announce(w, c03Case{Init: j.in.name, Ops: j.ops, Point: -1})
				r, d, err := c03Drive(j.in, j.ops, path, 0, false)
				if d != nil {
					d.Close()
				}
				c03Disks.Delete(path)
				if err != nil {
					c.Errorf("%v: %v", j.ops, err)
					return
				}
				// Crashes in the last request only, the earlier ones are part of shorter histories.
				first, sent := 0, 0
				for p, e := range r.disk.log {
					if e.kind == 'B' {
						if sent++; sent == len(j.ops) {
							first = p
						}
					}
				}
				r.good = map[string]string{}
				seen := map[string]bool{}
				for p := first; p <= len(r.disk.log); p++ {
					want, pending, answered := r.at(p)
					maxPending.Store(len(pending), true)
					if !subsets(pending, limit, func(kept []int) {
						if c.Expired() || c.Enough() {
							return
						}
						last := 0
						for q, e := range r.disk.log[:p] {
							if e.kind == 'S' {
								last = q
							}
						}
						key := fmt.Sprint(last, kept, len(want), answered)
						if seen[key] {
							return
						}
						seen[key] = true
						k := c03Case{Init: j.in.name, Ops: j.ops, Point: p, Kept: kept}
						c.Announce(w, k)
						c.Evals.Add(1)
						if len(want) > 1 || len(pending) > 0 {
							c.Nontrivial.Add(1)
						}
						if what := r.crash(c, img, p, want, answered, pending, kept); what != "" {
							s := keyOf(k)
							c.Violation(s, s+": "+what, k)
						}
					}) {
						cut.Store(i, true)
					}
				}
				if i%29 == 3 {
					c.Sample(fmt.Sprintf("%s %v: %d storage records, %d crash images", j.in.name, j.ops, len(r.disk.log), len(seen)))
				}
				// Faults.
				if len(j.ops) == 0 {
					return
				}
				for _, sticky := range []bool{false, true} {
					if sticky && len(j.ops) == 1 {
						continue
					}
					for f := 1; f < 200; f++ {
						k := c03Case{Init: j.in.name, Ops: j.ops, Point: -1, Fault: f, Sticky: sticky}
						c.Announce(w, k)
						what, hit := c03Fault(c, j.in, k, path)
						if !hit {
							break
						}
						c.Evals.Add(1)
						c.Nontrivial.Add(1)
						if what != "" {
							s := keyOf(k)
							c.Violation(s, s+": "+what, k)
						}
					}
				}
			})
			m, nc := 0, 0
			maxPending.Range(func(k, _ any) bool { m = max(m, k.(int)); return true })
			cut.Range(func(_, _ any) bool { nc++; return true })
			c.Extra("most_pending_blocks", m)
			c.Extra("histories_with_restricted_subsets", nc)
		},
		Replay: replayOf(func(c *run.Ctx, w int, k c03Case) string {
			c03Hooks()
			sp := &treeSpec{inits: c03Inits()}
			if err := sp.prepare(c.Scratch); err != nil {
				c.Errorf("%v", err)
				return ""
			}
			in := sp.find(k.Init)
			path := filepath.Join(c.Scratch, "c03-replay.db")
			if k.Point < 0 {
				what, _ := c03Fault(c, in, k, path)
				return what
			}
			r, d, err := c03Drive(in, k.Ops, path, 0, false)
			if d != nil {
				d.Close()
			}
			c03Disks.Delete(path)
			if err != nil {
				return err.Error()
			}
			if k.Point > len(r.disk.log) {
				return ""
			}
			want, pending, answered := r.at(k.Point)
			return r.crash(c, path+"-image", k.Point, want, answered, pending, k.Kept)
		}),
	})
}
