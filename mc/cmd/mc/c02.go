package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"idmverif/lib/dir"
	"idmverif/lib/run"
)

// c02Ages are values of the database's sequence for which the next entries get numbers whose representation resembles
// the ones of entries that exist.
func c02Ages() (l []uint64) {
	for s := 8; s < 64; s += 8 {
		for k := uint64(1); k < 12; k++ {
			l = append(l, k<<s-1)
		}
	}
	for _, s := range []int{8, 16, 24, 32, 48} {
		for k := uint64(2); k < 10; k += 2 {
			l = append(l, 1<<s+k)
		}
	}
	return l
}

func c02Spec(thorough bool) *treeSpec {
	sp := &treeSpec{perState: true}
	sp.inits = []*initState{
		{name: "standard", seed: dir.Standard()},
		{name: "populated", seed: popSeed()},
		{name: "aged255", seed: popSeed(), age: 253},
		{name: "aged2^32", seed: popSeed(), age: 1<<32 - 2},
		{name: "wide40", seed: wideSeed(40)},
		{name: "wide1500", seed: wideSeed(1500)},
		{name: "deep12", seed: deepSeed(12)},
		{name: "deep150", seed: deepSeed(150)},
	}
	for _, a := range c02Ages() {
		sp.inits = append(sp.inits, &initState{name: fmt.Sprintf("sequence %#x", a), seed: popSeed(), age: a})
	}
	sp.names = []string{"dc=x", "ou=a,dc=x", "ou=b,dc=x", "cn=a,ou=a,dc=x", "cn=b,ou=a,dc=x", "cn=a,ou=b,dc=x", "cn=b,ou=b,dc=x", "cn=a,cn=a,ou=a,dc=x", "cn=b,cn=a,ou=a,dc=x", "ou=c,dc=x", "cn=c\\,ou\\=a,dc=x", "cn=n0,ou=a,dc=x", "ou=l1,ou=l0,dc=x"}
	sp.ops = []dir.Op{
		addOp("ou=a,dc=x", "ou", "a"),
		addOp("ou=b,dc=x", "ou", "b"),
		addOp("cn=a,ou=a,dc=x", "cn", "a"),
		addOp("CN=B,OU=A,DC=X", "cn", "b"),
		addOp("cn=a,ou=b,dc=x", "cn", "a"),
		addOp("cn=b , OU = \\62 ,dc=\\58", "cn", "b"),
		addOp("cn=a,cn=a,ou=a,dc=x", "cn", "a"),
		addOp("cn=b,cn=a,ou=a,dc=x", "cn", "b"),
		addOp("cn=c\\,ou\\=a,dc=x", "cn", "c,ou=a"),
		delOp("ou=a,dc=x"),
		delOp("OU=B,dc=x"),
		delOp("ou=c,dc=x"),
		delOp("cn=a,ou=a,dc=x"),
		delOp("cn=b,ou=a,dc=x"),
		delOp("cn=a,ou=b,dc=x"),
		delOp("CN = \\42, ou=b , dc=x"),
		delOp("cn=a,cn=a,ou=a,dc=x"),
		delOp("cn=b,cn=a,ou=a,dc=x"),
		delOp("cn=c\\2Cou\\3Da,dc=x"),
		renOp("cn=a,ou=a,dc=x", "cn=b", true),
		renOp("cn=b,ou=a,dc=x", "cn=a", true),
		renOp("CN=A,cn=a,ou=a,dc=x", "cn=B", true),
		renOp("ou=a,dc=x", "ou=b", true),
		renOp("ou=b,dc=x", "ou=c", true),
		renOp("ou=c,dc=x", "ou=b", false),
		renOp("cn=a,ou=a,dc=x", "cn=a", true),
		renOp("ou=b,dc=x", "OU=B", false),
	}
	if thorough {
		sp.names = append(sp.names, "cn=d,cn=b,cn=a,ou=a,dc=x", "cn=zz,dc=x", "", "x", "cn=a,ou=c,dc=x")
		sp.ops = append(sp.ops,
			addOp("cn=d,cn=b,cn=a,ou=a,dc=x", "cn", "d"),
			delOp("cn=d,cn=b,cn=a,ou=a,dc=x"),
			addOp("cn=a,ou=c,dc=x", "cn", "a"),
			delOp("cn=a,ou=c,dc=x"),
			renOp("cn=a,ou=b,dc=x", "cn=b", true),
			renOp("cn=b,ou=b,dc=x", "cn=a", false),
		)
	}
	return sp
}

func init() {
	register(&run.Check{
		ID: "C02", Level: "model_checking",
		Rule:   "Breadth-first search over add, delete and rename requests; in every state every name of the vocabulary is searched in every scope and the answers are compared with the reference tree.",
		Assume: []string{"reference tree (lib/model) is right"},
		Explore: func(c *run.Ctx) {
			sp := c02Spec(c.Thorough)
			if err := sp.prepare(c.Scratch); err != nil {
				c.Errorf("%v", err)
				return
			}
			fix := []*initState{sp.find("standard")}
			aged := []*initState{sp.find("aged255"), sp.find("aged2^32"), sp.find("wide40"), sp.find("deep12")}
			var seqs []*initState
			for _, in := range sp.inits {
				if strings.HasPrefix(in.name, "sequence ") {
					seqs = append(seqs, in)
				}
			}
			if c.Thorough {
				sp.bfs(c, append(fix, sp.find("populated")), 6, true, "exact")
				sp.bfs(c, aged, 4, true, "aged")
				sp.bfs(c, seqs, 3, true, "sequences")
				sp.bfs(c, []*initState{sp.find("wide1500"), sp.find("deep150")}, 2, true, "wide")
				sp.bfs(c, append(fix, sp.find("populated")), 100, false, "content")
			} else {
				sp.bfs(c, append(fix, sp.find("populated")), 4, true, "exact")
				sp.bfs(c, aged, 2, true, "aged")
				sp.bfs(c, seqs, 2, true, "sequences")
				sp.bfs(c, []*initState{sp.find("wide1500"), sp.find("deep150")}, 1, true, "wide")
				sp.bfs(c, fix, 100, false, "content")
			}
			if c.Thorough {
				sp.warm(c, fix, 3)
			}
			sp.warm(c, append(fix, sp.find("populated")), 2)
			c.Extra("queries", c.Evals.Load())
		},
		Replay: func(c *run.Ctx, k json.RawMessage) string {
			var h histCase
			if err := json.Unmarshal(k, &h); err != nil {
				c.Errorf("%v", err)
				return ""
			}
			sp := c02Spec(true)
			if err := sp.prepare(c.Scratch); err != nil {
				c.Errorf("%v", err)
				return ""
			}
			return sp.replayHist(c, h)
		},
	})
}
