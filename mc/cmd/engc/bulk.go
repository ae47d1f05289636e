package main

import (
	"fmt"

	"vmc/mc"
	"vmc/rep"
)

// Bulk histories: the same calls as the short histories, with every size of one dimension (documents,
// shards, storage shards, tokens, labels, bytes of content, ids) up to a bound, under the two default schedules.

type bulk struct {
	what string
	c    cfg
	ops  []op
}

// docID is the i-th document id.
func docID(i int) string { return fmt.Sprintf("d%d", i) }

// sized is a version of a document with nt tokens and nl labels of its own besides the shared ones.
func sized(id string, ver, nt, nl, pad, nloc int) op {
	o := version(id, ver)
	for i := 0; i < nt; i++ {
		o.d.tokens = append(o.d.tokens, fmt.Sprintf("t%d.%d", ver, i))
	}
	for i := 0; i < nl; i++ {
		o.d.labels = append(o.d.labels, fmt.Sprintf("l%d.%d", ver, i))
	}
	o.d.pad, o.d.nloc = pad, nloc
	return o
}

// life is the history of n documents: all added, every third updated, every fifth removed, the removed ones
// added again; ask follows every flush, and Z (if persistent) a reopen.
func life(c cfg, n int, mk func(i, ver int) op, ask func(stage int) []op) []op {
	var h []op
	stage := 0
	sync := func() {
		h = append(h, fl())
		h = append(h, ask(stage)...)
		stage++
	}
	for i := 0; i < n; i++ {
		h = append(h, mk(i, 1))
	}
	sync()
	for i := 0; i < n; i++ {
		switch {
		case i%3 == 0:
			h = append(h, mk(i, 2))
		case i%5 == 1:
			h = append(h, rm(docID(i)))
		}
	}
	sync()
	if c.store > 0 {
		h = append(h, zz())
		sync()
	}
	for i := 0; i < n; i++ {
		if i%3 != 0 && i%5 == 1 {
			h = append(h, mk(i, 3))
		} else if i%7 == 2 {
			h = append(h, rm(docID(i)))
		}
	}
	sync()
	if c.store > 0 {
		h = append(h, zz())
		sync()
	}
	return h
}

// asker are the observations after a flush: the shared keys, some documents' own keys, the existence
// queries, counters and listings.
func asker(c cfg, n int) func(int) []op {
	return func(stage int) []op {
		os := []op{se("k"), ct("k"), ol("k"), se("L"), ct("M"), se("none"), nn()}
		seen := map[int]bool{}
		for _, i := range []int{0, 1, 2, 3, 6, n / 2, n - 2, n - 1} {
			if i < 0 || i >= n || seen[i] {
				continue
			}
			seen[i] = true
			os = append(os, hd(docID(i)))
			if stage > 0 {
				os = append(os, se(docID(i)+"1"), se(docID(i)+"2"), se(docID(i)+"l"))
			}
			if c.store > 0 {
				os = append(os, db(docID(i)))
			}
		}
		if c.store > 0 {
			os = append(os, ls())
		}
		return os
	}
}

func bulkPart(name string, gen func(tier string) []bulk, thorough bool) rep.Part {
	return rep.Part{Name: name, Thorough: thorough, Run: func(w *rep.W) {
		mkScratch()
		bs := gen(w.Tier)
		w.St.Bound = fmt.Sprintf("%d histories, the last: %s", len(bs), bs[len(bs)-1].what)
		for i, b := range bs {
			b := b
			for base := 0; base < 2; base++ {
				if w.Done() || !w.Next() {
					continue
				}
				w.Case(func() string { return fmt.Sprintf("[%v] %s, order %d", b.c, b.what, base) }, func() string {
					dig := ""
					m := run1(w, base, func() string {
						theDisk = newDisk()
						r := &run{c: b.c}
						r.e = b.c.open()
						r.doAll(b.ops)
						if theDisk.misuse != "" {
							return "storage misuse: " + theDisk.misuse
						}
						if m := r.judgeFast(); m != "" {
							return m
						}
						if b.c.store > 0 {
							if m := r.judgeDisk(); m != "" {
								return m
							}
						}
						dig = r.digest()
						return ""
					})
					if m == "" {
						w.Nontrivial()
						w.StateHash(mc.Hash(dig))
						w.Outcome(fmt.Sprintf("history %d", i))
					}
					return m
				})
			}
		}
	}}
}

// judgeFast is judge with the history of every document computed once per observation time.
func (r *run) judgeFast() string {
	r.index()
	return r.judge()
}

func mul(max, step int, more ...int) (ns []int) {
	for i := 1; i <= max; i += step {
		ns = append(ns, i)
	}
	return append(ns, more...)
}

// manyDocs: every number of documents.
func manyDocs(c cfg, ns [2][]int) func(string) []bulk {
	return func(tier string) (bs []bulk) {
		l := ns[0]
		if tier == "thorough" {
			l = ns[1]
		}
		for _, n := range l {
			bs = append(bs, bulk{fmt.Sprintf("%d documents", n), c,
				life(c, n, func(i, v int) op { return version(docID(i), v) }, asker(c, n))})
		}
		return
	}
}

// manyParts: every number of shards and storage shards with a few documents each.
func manyShards(cs func(i int) cfg, per int, ns [2]int) func(string) []bulk {
	return func(tier string) (bs []bulk) {
		n := ns[0]
		if tier == "thorough" {
			n = ns[1]
		}
		for i := 1; i <= n; i++ {
			c := cs(i)
			k := per * i
			if k < 8 {
				k = 8
			}
			bs = append(bs, bulk{fmt.Sprintf("%d documents", k), c,
				life(c, k, func(i, v int) op { return version(docID(i), v) }, asker(c, k))})
		}
		return
	}
}

// bigDocs: documents of every size among small ones.
func bigDocs(c cfg, quickMax int) func(string) []bulk {
	return func(tier string) (bs []bulk) {
		add := func(what string, nt, nl, pad, nloc int, keys ...op) {
			mk := func(i, v int) op {
				if i%2 == 1 {
					return version(docID(i), v)
				}
				return sized(docID(i), v, nt, nl, pad, nloc)
			}
			ask := asker(c, 4)
			bs = append(bs, bulk{what, c, life(c, 4, mk, func(s int) []op { return append(append(ask(s), keys...), se("t1.0"), se("l1.0")) })})
		}
		max := quickMax
		if tier == "thorough" {
			max *= 3
		}
		for n := 1; n <= max; n++ {
			add(fmt.Sprintf("%d more tokens", n), n, 0, 0, 0, se(fmt.Sprintf("t1.%d", n-1)), se(fmt.Sprintf("t2.%d", n-1)))
			add(fmt.Sprintf("%d more labels", n), 0, n, 0, 0, se(fmt.Sprintf("l1.%d", n-1)), se(fmt.Sprintf("l2.%d", n-1)))
			add(fmt.Sprintf("%d more positions", n), 0, 0, 0, n)
			add(fmt.Sprintf("%d more bytes", n*7), 0, 0, n*7, 0)
		}
		for _, n := range []int{255, 256, 257, 300} {
			add(fmt.Sprintf("%d more tokens", n), n, 0, 0, 0, se(fmt.Sprintf("t1.%d", n-1)))
			add(fmt.Sprintf("%d more labels", n), 0, n, 0, 0, se(fmt.Sprintf("l1.%d", n-1)))
			add(fmt.Sprintf("%d more positions", n), 0, 0, 0, n)
		}
		for _, n := range []int{1000, 1024, 2048, 4000, 4096, 5000, 8192, 10000, 32768, 65536, 70000, 1 << 20} {
			add(fmt.Sprintf("%d more bytes", n), 0, 0, n, 0)
		}
		return
	}
}

// longIDs: ids of every length and ids that only differ in one byte.
func longIDs(c cfg, quickMax int) func(string) []bulk {
	return func(tier string) (bs []bulk) {
		max := quickMax
		if tier == "thorough" {
			max *= 4
		}
		for n := 1; n <= max; n++ {
			p := ""
			for len(p) < n {
				p += string(rune('a' + len(p)%7))
			}
			ids := []string{p + "x", p + "y", "x" + p}
			var h []op
			probe := []op{se("k"), ct("k"), hd(ids[0]), hd(ids[1]), hd(ids[2]), hd(p + "z"), se(ids[0] + "1"), se(ids[1] + "2"), nn()}
			if c.store > 0 {
				probe = append(probe, db(ids[0]), db(ids[1]), db(p+"z"), ls())
			}
			step := func(os ...op) {
				h = append(h, os...)
				h = append(h, fl())
				h = append(h, probe...)
			}
			step(version(ids[0], 1), version(ids[1], 1), version(ids[2], 1))
			step(version(ids[1], 2), rm(ids[0]))
			if c.store > 0 {
				step(zz())
			}
			step(version(ids[0], 3), rm(ids[2]))
			if c.store > 0 {
				step(zz())
			}
			bs = append(bs, bulk{fmt.Sprintf("ids of %d bytes", n+1), c, h})
		}
		return
	}
}

// unusual ids: bytes that backends, hashes and listings may treat specially.
func oddIDs(c cfg) func(string) []bulk {
	return func(string) (bs []bulk) {
		sets := [][]string{
			{"00", "000", "01"}, {" ", "  ", " a"}, {"\x00", "\x00\x00", "a\x00"}, {"\xff", "\xff\xff", "\xfe"},
			{"a/b", "a", "b"}, {"A", "a", "B"}, {"-1", "1", "+1"}, {"18446744073709551615", "18446744073709551616", "1"},
			{"文", "文档", "档"}, {"%d", "%s", "%"}, {"a\nb", "a\n", "\n"}, {"\u00e9", "e\u0301", "e"},
		}
		for _, ids := range sets {
			var h []op
			probe := []op{se("k"), ct("k"), ol("k"), hd(ids[0]), hd(ids[1]), hd(ids[2]), hd("nobody"), nn()}
			if c.store > 0 {
				probe = append(probe, db(ids[0]), db(ids[1]), db("nobody"), ls())
			}
			step := func(os ...op) {
				h = append(h, os...)
				h = append(h, fl())
				h = append(h, probe...)
			}
			step(version(ids[0], 1), version(ids[1], 1), version(ids[2], 1))
			step(version(ids[1], 2), rm(ids[0]))
			if c.store > 0 {
				step(zz())
			}
			step(version(ids[0], 3), rm(ids[2]))
			if c.store > 0 {
				step(zz())
			}
			bs = append(bs, bulk{fmt.Sprintf("ids %q", ids), c, h})
		}
		return
	}
}

var (
	docsN     = [2][]int{mul(150, 1, 200, 255, 256, 257, 300, 511, 512, 513, 1025, 1100), mul(300, 1, 511, 512, 513, 600, 999, 1000, 1001, 1023, 1024, 1025, 1500)}
	docsFewer = [2][]int{mul(100, 1, 128, 129, 256, 257, 300, 513), mul(300, 1, 512, 513, 1000, 1025)}
)

// bulkMem are the bulk histories without persistence.
func bulkMem(cs ...cfg) []rep.Part {
	var ps []rep.Part
	s := small()
	for _, c := range cs {
		ps = append(ps, bulkPart(fmt.Sprintf("many documents, %d shards", c.shards), manyDocs(c, docsN), false))
	}
	ps = append(ps,
		bulkPart("many shards", manyShards(func(i int) cfg { return s.sh(i) }, 3, [2]int{20, 40}), false),
		bulkPart("many workers", manyShards(func(i int) cfg { return s.sh(1 + i%4).sg(i).th(1 + i%3).bf(i) }, 2, [2]int{12, 24}), false),
		bulkPart("large documents", bigDocs(s.sh(2), 40), false),
		bulkPart("long ids", longIDs(s.sh(3), 70), false),
		bulkPart("unusual ids", oddIDs(s.sh(3)), false))
	return ps
}

// bulkStore are the bulk histories with persistence.
func bulkStore() []rep.Part {
	s := small()
	return []rep.Part{
		bulkPart("many documents, persistent", manyDocs(s.st(1), docsFewer), false),
		bulkPart("many documents, persistent, two storage shards", manyDocs(s.sh(2).st(2), docsFewer), false),
		bulkPart("many storage shards", manyShards(func(i int) cfg { return s.sh(2).st(i) }, 3, [2]int{40, 70}), false),
		bulkPart("many shards, persistent", manyShards(func(i int) cfg { return s.sh(i).st(1 + i%5) }, 3, [2]int{12, 30}), false),
		bulkPart("large documents, persistent", bigDocs(s.sh(2).st(2), 24), false),
		bulkPart("long ids, persistent", longIDs(s.sh(2).st(3), 40), false),
		bulkPart("unusual ids, persistent", oddIDs(s.sh(2).st(3)), false),
	}
}

// busy: a set-up, then clients in parallel, under every time slice and base order.
func busy(name string, c cfg, n int, timeout int, noVisib bool, qs [2]int) rep.Part {
	return rep.Part{Name: name, Run: func(w *rep.W) {
		mkScratch()
		q := qs[0]
		if w.Tier == "thorough" {
			q = qs[1]
		}
		w.St.Bound = fmt.Sprintf("time slices of 0 to %d operations, four base orders", q)
		var setup, ch1, ch2, ask []op
		for i := 0; i < n; i++ {
			setup = append(setup, version(docID(i), 1))
			switch i % 4 {
			case 0:
				ch1 = append(ch1, version(docID(i), 2))
			case 1:
				ch2 = append(ch2, rm(docID(i)))
			}
		}
		setup = append(setup, fl())
		for i := 0; i < 3; i++ {
			ask = append(ask, tm(se("k"), timeout), tm(ct("k"), timeout), tm(se(docID(i)+"1"), timeout), tm(se(docID(i)+"2"), timeout), tm(ol("L"), timeout))
		}
		ch1 = append(append(ch1, fl()), ask[:3]...)
		ch2 = append(append(ch2, fl()), ask[:2]...)
		final := []op{fl(), se("k"), ct("k"), se("L"), ol("M")}
		if c.store > 0 {
			final = append(final, zz(), se("k"), ls())
		}
		sc := scenario{c: c, setup: setup, clients: cl(ch1, ch2, ask), final: final}
		for qn := 0; qn <= q; qn++ {
			for base := 0; base < 4; base++ {
				if w.Done() || !w.Next() {
					continue
				}
				w.Case(func() string {
					return fmt.Sprintf("[%v] %d documents, updates, removals and searches (timeout %d) by three clients, time slice %d, order %d", c, n, timeout, qn, base)
				}, func() string {
					m, dig := "", ""
					r := mc.Run(mc.Config{Base: base, Quantum: qn, MaxSteps: 4000000}, func() { m, dig = sc.busyBody(noVisib) })
					w.Trans(r.Steps)
					if r.Viol != "" {
						return r.Viol
					}
					if m == "" {
						w.Nontrivial()
						w.StateHash(r.Trace)
						w.Outcome(fmt.Sprintf("%x", mc.Hash(dig)))
					}
					return m
				})
			}
		}
	}}
}

func (s *scenario) busyBody(noVisib bool) (string, string) {
	theDisk = newDisk()
	r := &run{c: s.c}
	r.e = s.c.open()
	r.doAll(s.setup)
	left := len(s.clients)
	for _, c := range s.clients {
		c := c
		mc.Go(func() { r.doAll(c); left-- })
	}
	mc.Block("join", func() bool { return left == 0 })
	r.doAll(s.final)
	if theDisk.misuse != "" {
		return "storage misuse: " + theDisk.misuse, ""
	}
	if noVisib {
		return "", r.digest()
	}
	if m := r.judgeFast(); m != "" {
		return m, ""
	}
	if s.c.store > 0 {
		if m := r.judgeDisk(); m != "" {
			return m, ""
		}
	}
	return "", r.digest()
}

// busyParts are the crowded concurrent histories; timeouts only where asked.
func busyParts(noVisib bool) []rep.Part {
	s := small()
	qs := [2]int{40, 250}
	var ps []rep.Part
	for _, n := range []int{4, 9, 17, 40} {
		ps = append(ps,
			busy(fmt.Sprintf("three clients, %d documents, one shard", n), s, n, 0, noVisib, qs),
			busy(fmt.Sprintf("three clients, %d documents, two shards", n), s.sh(2).sg(2).th(2).ca(2), n, 0, noVisib, qs),
			busy(fmt.Sprintf("three clients, %d documents, nine shards", n), s.sh(9).bf(3), n, 0, noVisib, qs),
			busy(fmt.Sprintf("three clients, %d documents, ids", n), s.sh(3).ids().bf(2), n, 0, noVisib, qs),
			busy(fmt.Sprintf("three clients, %d documents, persistent", n), s.sh(2).st(3), n, 0, noVisib, qs))
	}
	return ps
}
