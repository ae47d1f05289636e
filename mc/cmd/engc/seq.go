package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"sort"
	"strings"

	"github.com/go-ego/riot/types"

	"vmc/expl"
	"vmc/mc"
	"vmc/rep"
)

// Histories run one call after the other under the default schedules.

// run1 executes f under the scheduler without exploring; f returns "" or a violation.
func run1(w *rep.W, base int, f func() string) string {
	m := ""
	r := mc.Run(mc.Config{Base: base, MaxSteps: 4000000}, func() { m = f() })
	w.Trans(r.Steps)
	if r.Viol != "" {
		return r.Viol
	}
	return m
}

// sequences calls f for every sequence of exactly n operations of the menu; ok prunes.
func sequences(menu []op, n int, ok func([]op) bool, f func([]op)) {
	cur := make([]op, 0, n)
	var rec func()
	rec = func() {
		if len(cur) == n {
			f(cur)
			return
		}
		for _, o := range menu {
			cur = append(cur, o)
			if ok == nil || ok(cur) {
				rec()
			}
			cur = cur[:len(cur)-1]
		}
	}
	rec()
}

// separated: changes of the same document are separated by a flush, and no flush follows another.
func separated(s []op) bool {
	l := s[len(s)-1]
	if isFlush(l) {
		return len(s) > 1 && (l.k != 'f' || !isFlush(s[len(s)-2]))
	}
	for i := len(s) - 2; i >= 0 && !isFlush(s[i]); i-- {
		if (l.k == 'i' || l.k == 'r') && (s[i].k == 'i' || s[i].k == 'r') && s[i].d.id == l.d.id {
			return false
		}
	}
	return true
}

// thin is a version with keys and nothing else.
func thin(id string, ver int) op { return partial(id, ver, 7) }

// partial is a version without some of its parts: 1 content, 2 fields, 4 attribute, 8 tokens, 16 labels.
func partial(id string, ver, lack int) op {
	o := version(id, ver)
	o.d.lack = lack & 7
	if lack&8 != 0 {
		o.d.tokens = nil
	}
	if lack&16 != 0 {
		o.d.labels = nil
	}
	return o
}

// partials: every pair of versions of one document, each with any subset of its parts, beside a full document.
func partials(c cfg) rep.Part {
	c.bm25 = true // the other scoring needs fields
	pr := probes(sq(version("a", 1), version("a", 2), version("b", 1)))
	if c.store > 0 {
		pr = append(pr, ls())
	}
	return bulkPart(fmt.Sprintf("documents without some of their parts [%v]", c), func(string) (bs []bulk) {
		for m := 0; m < 32; m++ {
			for n := 0; n < 32; n++ {
				h := append(sq(version("b", 1), partial("a", 1, m), fl()), pr...)
				h = append(append(h, partial("a", 2, n), fl()), pr...)
				if c.store > 0 {
					h = append(append(h, zz()), pr...)
				}
				h = append(append(h, rm("a"), fl(), partial("a", 1, n), fl()), pr...)
				bs = append(bs, bulk{fmt.Sprintf("parts %05b, then %05b missing", m, n), c, h})
			}
		}
		return
	}, false)
}

func isFlush(o op) bool { return o.k == 'f' || o.k == 'Z' }

// version is a document whose keys tell its version: k is shared, the others are its own.
func version(id string, ver int) op {
	o := ix(id, ver, "k", fmt.Sprintf("%s%d", id, ver))
	if ver%2 == 1 {
		o.d.labels = []string{"L"}
	} else {
		o.d.labels = []string{"M", id + "l"}
	}
	return o
}

// probes of all keys the documents of the menu have.
func probes(menu []op) []op {
	m := map[string]bool{"none": true}
	for _, o := range menu {
		if o.k == 'i' {
			for _, k := range append(append([]string(nil), o.d.tokens...), o.d.labels...) {
				m[k] = true
			}
		}
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var os []op
	for _, k := range ks {
		os = append(os, se(k))
	}
	return append(os, ct("k"), ol("k"))
}

// seqPart is an enumeration of histories in one configuration.
type seqPart struct {
	name     string
	c        cfg
	menu     []op
	n        [2]int // length in quick and thorough
	ok       func([]op) bool
	probe    []op // after every flush
	final    []op // at the end
	thorough bool
}

func (p seqPart) part() rep.Part {
	return rep.Part{Name: p.name, Thorough: p.thorough, Run: func(w *rep.W) {
		mkScratch()
		n := p.n[0]
		if w.Tier == "thorough" {
			n = p.n[1]
		}
		w.St.Bound = fmt.Sprintf("%d operations", n)
		sequences(p.menu, n, p.ok, func(s []op) {
			if w.Done() || !w.Next() {
				return
			}
			w.Case(func() string { return fmt.Sprintf("[%v] %s; then %s", p.c, ops(s), ops(p.final)) }, func() string {
				dig := ""
				m := run1(w, int(w.St.Cases)%2, func() string {
					theDisk = newDisk()
					r := &run{c: p.c}
					r.e = p.c.open()
					for _, o := range s {
						r.do(o)
						if isFlush(o) {
							r.doAll(p.probe)
						}
					}
					r.doAll(p.final)
					r.doAll(p.probe)
					if theDisk.misuse != "" {
						return "storage misuse: " + theDisk.misuse
					}
					if m := r.judge(); m != "" {
						return m
					}
					if p.c.store > 0 {
						if m := r.judgeDisk(); m != "" {
							return m
						}
					}
					dig = r.digest()
					return ""
				})
				if m == "" {
					w.Nontrivial()
					w.StateHash(mc.Hash(dig))
					w.Outcome(fmt.Sprintf("%d", len(dig)/40*40))
				}
				return m
			})
		})
	}}
}

func c22(string) []rep.Part {
	menu := sq(version("a", 1), version("a", 2), version("b", 1), version("b", 2), rm("a"), fl())
	menuZ := append(append([]op(nil), menu...), zz())
	pr := probes(menu)
	var ps []rep.Part
	add := func(name string, c cfg, m []op, q, t int) {
		ps = append(ps, seqPart{name: name, c: c, menu: m, n: [2]int{q, t}, ok: separated, probe: pr, final: sq(fl())}.part())
	}
	s := small()
	add("one shard", s, menu, 6, 7)
	add("two shards", s.sh(2), menu, 6, 7)
	add("three shards", s.sh(3), menu, 6, 7)
	add("three shards, ids", s.sh(3).ids(), menu, 5, 7)
	add("two shards, frequencies", s.sh(2).it(types.FrequenciesIndex), menu, 5, 7)
	add("two shards, ids only index", s.sh(2).it(types.DocIdsIndex), menu, 5, 7)
	add("cache of one", s.ca(1), menu, 5, 7)
	add("cache of two, two shards, two segmenters", s.ca(2).sh(2).sg(2), menu, 5, 7)
	add("persistent, two shards", s.sh(2).st(2), menuZ, 5, 6)
	add("persistent, three shards", s.sh(3).st(1), menuZ, 5, 6)
	bareMenu := sq(version("a", 1), bare("a", 3), version("b", 1), bare("b", 2), rm("a"), fl())
	add("documents without any key", s.sh(2), bareMenu, 5, 7)
	add("documents without any key, persistent", s.sh(2).st(2), append(append([]op(nil), bareMenu...), zz()), 4, 6)
	thinMenu := sq(version("a", 1), thin("a", 3), version("b", 2), thin("b", 4), rm("a"), fl())
	relevance := s.sh(2)
	relevance.bm25 = true
	add("documents without content, fields and attribute", relevance, thinMenu, 5, 7)
	add("documents without content, fields and attribute, persistent", relevance.st(2), append(append([]op(nil), thinMenu...), zz()), 4, 6)
	ps = append(ps, partials(s), partials(s.sh(2)), partials(s.sh(2).ids()), partials(s.sh(2).st(2)))
	forcedMenu := sq(forced(version("a", 1)), version("a", 2), forced(version("a", 3)), forced(rm("a")), version("b", 1), fl())
	ps = append(ps, seqPart{name: "forced, two shards", c: s.sh(2), menu: forcedMenu, n: [2]int{5, 7}, ok: separated, probe: probes(forcedMenu), final: sq(fl())}.part())
	nobodyMenu := sq(version("a", 1), version("a", 2), version("b", 1), rm("a"), fi(), fr(), fx())
	ps = append(ps, seqPart{name: "force requests without a document, two shards", c: s.sh(2), menu: nobodyMenu, n: [2]int{5, 6}, ok: separated, probe: probes(nobodyMenu), final: sq(fx())}.part())
	// four documents over three shards, two changes each
	wide := sq(version("a", 1), version("a", 2), version("c", 1), version("c", 2), version("d", 1), version("d", 2), fl(), rm("d"))
	ps = append(ps, seqPart{name: "three documents, three shards", c: s.sh(3), menu: wide, n: [2]int{5, 6}, ok: separated, probe: probes(wide), final: sq(fl())}.part())
	return append(ps, bulkMem(s, s.sh(3))...)
}

func c23(tier string) []rep.Part {
	s := small()
	menu := sq(version("a", 1), version("a", 2), version("b", 1), rm("a"), rm("x"), fl(), hd("a"), hd("y"), nn())
	stMenu := append(append([]op(nil), menu...), db("a"), ls())
	ask := sq(hd("a"), hd("b"), hd("x"), hd("y"), nn())
	askDB := append(append([]op(nil), ask...), db("a"), db("b"), db("x"), db("y"), ls())
	var ps []rep.Part
	add := func(name string, c cfg, m, probe, final []op, q, t int, ok func([]op) bool) {
		ps = append(ps, seqPart{name: name, c: c, menu: m, n: [2]int{q, t}, ok: ok, probe: probe, final: final}.part())
	}
	twice := func(q []op) []op { return append(append(sq(fl()), q...), fl()) }
	add("one shard", s, menu, ask, twice(ask), 5, 6, nil)
	add("two shards", s.sh(2), menu, ask, twice(ask), 5, 6, nil)
	add("three shards, cache of one", s.sh(3).ca(1), menu, ask, twice(ask), 4, 6, nil)
	add("persistent, one shard", s.st(1), stMenu, askDB, twice(askDB), 4, 5, nil)
	add("persistent, two shards", s.sh(2).st(2), stMenu, askDB, twice(askDB), 4, 5, nil)
	add("persistent, three storage shards", s.sh(3).st(3), stMenu, askDB, twice(askDB), 4, 5, nil)
	re := sq(version("a", 1), version("a", 2), version("b", 1), rm("a"), fl(), zz())
	add("persistent with reopen", s.sh(2).st(2), re, askDB, twice(askDB), 5, 6, separated)
	// long separated histories
	long := sq(version("a", 1), version("b", 1), rm("a"), rm("b"), fl())
	add("long, two shards", s.sh(2), long, ask, twice(ask), 7, 9, separated)
	add("long, persistent", s.st(2), long, askDB, twice(askDB), 7, 8, separated)
	add("force requests without a document", s.sh(2), sq(version("a", 1), version("b", 1), rm("a"), fi(), fr(), fl(), nn()), append(ask, hd("0")), twice(ask), 5, 6, nil)
	add("force requests without a document, persistent", s.sh(2).st(2), sq(version("a", 1), version("b", 1), rm("a"), fi(), fr(), fl()), append(append([]op(nil), askDB...), hd("0"), db("0")), twice(askDB), 4, 5, nil)
	ps = append(ps, bulkMem(s.sh(2))...)
	ps = append(ps, bulkStore()...)
	return append(ps, parts(c23s)(tier)...)
}

// c23s: introspection beside changes, under every schedule.
func c23s() []scenario {
	s1 := small()
	setup := sq(version("a", 1), version("b", 1), fl())
	fin := sq(fl(), nn(), hd("a"), hd("b"), hd("c"), hd("zz"))
	finDB := append(append([]op(nil), fin...), db("a"), db("b"), db("c"), ls())
	d, e := [2]int{2, 3}, [2]int{1, 2}
	return []scenario{
		{name: "questions beside add", c: s1, setup: setup, clients: cl(sq(version("c", 1), fl(), nn()), sq(hd("c"), hd("a"), nn())), final: fin, dev: d},
		{name: "questions beside remove", c: s1, setup: setup, clients: cl(sq(rm("a"), fl(), nn()), sq(hd("a"), hd("b"), nn())), final: fin, dev: d},
		{name: "questions beside update, two shards", c: s1.sh(2), setup: setup, clients: cl(sq(version("a", 2), fl(), nn()), sq(hd("a"), nn(), hd("b"))), final: fin, dev: e},
		{name: "two clients counting", c: s1.sh(2).sg(2), setup: setup, clients: cl(sq(version("a", 2), nn(), fl(), nn()), sq(rm("b"), version("c", 1), fl(), nn())), final: fin, dev: e},
		{name: "persistent, questions beside changes", c: s1.st(2), setup: setup, clients: cl(sq(version("a", 2), rm("b"), fl(), ls()), sq(db("a"), db("b"), ls())), final: finDB, dev: e, disk: true},
		{name: "persistent, two clients", c: s1.st(1), setup: setup, clients: cl(sq(version("a", 2), fl(), ls()), sq(rm("b"), fl(), ls(), db("b"))), final: finDB, dev: d, disk: true},
	}
}

func c15(tier string) []rep.Part {
	s := small()
	menu := sq(version("a", 1), version("a", 2), version("b", 1), rm("a"), fl(), zz())
	pr := append(probes(menu), ls())
	var ps []rep.Part
	add := func(name string, c cfg, q, t int) {
		ps = append(ps, seqPart{name: name, c: c, menu: menu, n: [2]int{q, t}, ok: separated, probe: pr, final: sq(zz(), version("c", 1), fl(), zz())}.part())
	}
	add("one of each", s.st(1), 5, 6)
	add("two shards, two storage shards", s.sh(2).st(2), 5, 6)
	add("two shards, three storage shards", s.sh(2).st(3), 5, 6)
	add("ids", s.sh(2).st(2).ids(), 4, 6)
	add("frequencies", s.sh(2).st(1).it(types.FrequenciesIndex), 4, 6)
	add("cache of one", s.st(2).ca(1), 4, 6)
	unsep := sq(version("a", 1), version("a", 2), rm("a"), fl(), zz())
	ps = append(ps, seqPart{name: "changes without a flush between", c: s.st(1), menu: unsep, n: [2]int{5, 6}, probe: pr, final: sq(zz())}.part())
	// reopening with another number of shards
	re := sq(version("a", 1), version("a", 2), version("b", 1), rm("a"), op{k: 'Z', n: 1}, op{k: 'Z', n: 3})
	ps = append(ps, seqPart{name: "other number of shards", c: s.sh(2).st(2), menu: re, n: [2]int{5, 6}, ok: separated, probe: pr, final: sq(fl(), op{k: 'Z', n: 2})}.part())
	ps = append(ps, partials(s.st(1)), partials(s.sh(2).st(3).ids()))
	ps = append(ps, bulkStore()...)
	return append(ps, parts(c15s)(tier)...)
}

func c15s() []scenario {
	s1 := small().st(1)
	setup := sq(version("a", 1), version("b", 1), fl())
	fin := append(sq(zz()), append(probes(sq(version("a", 1), version("a", 2), version("b", 1))), ls())...)
	d, e := [2]int{2, 3}, [2]int{1, 2}
	return []scenario{
		{name: "close after add", c: s1, setup: setup, clients: one(version("a", 2), zz(), se("k"), se("a2"), se("a1"), ls()), dev: d, disk: true},
		{name: "close after remove", c: s1, setup: setup, clients: one(rm("a"), zz(), se("k"), ls()), dev: d, disk: true},
		{name: "close after changes, two storage shards", c: s1.st(2).sh(2), setup: setup, clients: one(rm("a"), version("c", 1), version("b", 2), zz(), se("k"), se("b1"), ls()), dev: e, disk: true},
		{name: "recovery", c: s1.st(2).sh(2), setup: append(setup, version("c", 1), version("d", 1), fl()), clients: one(zz(), se("k"), ct("k"), ls()), dev: e, disk: true},
		{name: "recovery, two segmenters", c: s1.st(3).sg(2).ca(1), setup: append(setup, version("c", 1), version("d", 1), fl()), clients: one(zz(), se("k"), ct("k"), ls()), dev: e, disk: true},
		{name: "two clients, then reopen", c: s1.st(2), setup: setup, clients: cl(sq(version("a", 2), rm("b"), fl()), sq(version("c", 1), fl(), rm("c"))), final: fin, dev: e, quiet: true, disk: true},
		{name: "update and remove by two clients, then reopen", c: s1, setup: setup, clients: cl(sq(version("a", 2), fl()), sq(rm("b"), fl())), final: fin, dev: d, quiet: true, disk: true},
		{name: "flush, remove, add, reopen", c: s1, setup: setup, clients: one(rm("a"), fl(), version("a", 2), zz(), se("k"), se("a1"), ls()), dev: d, disk: true},
	}
}

// ---- crashes and faults ----

// decode reads a stored value the way a user of the format would.
func decode(v string) (d types.DocData, ok bool) {
	defer func() { recover() }()
	err := gob.NewDecoder(bytes.NewReader([]byte(v))).Decode(&d)
	return d, err == nil
}

// latest are the decodable documents of a disk; damaged ones are reported apart.
func (d *disk) latest() (docs map[string]types.DocData, bad map[string]bool) {
	docs, bad = map[string]types.DocData{}, map[string]bool{}
	for _, m := range d.data {
		for k, v := range m {
			if x, ok := decode(v); ok {
				docs[k] = x
			} else {
				bad[k] = true
			}
		}
	}
	return
}

func hasKey(d types.DocData, k string) bool {
	for _, t := range d.Tokens {
		if t.Text == k {
			return true
		}
	}
	for _, l := range d.Labels {
		if l == k {
			return true
		}
	}
	return false
}

// durable checks every prefix of the storage log against the flushes of the history.
func (r *run) durable() string {
	for _, f := range r.ev {
		if !isFlush(f.op) {
			continue
		}
		base := theDisk.prefix(f.logN)
		for _, id := range r.ids() {
			v := r.view(id, f.ret, f.ret)
			if !v.must {
				continue
			}
			docs, bad := base.latest()
			x, ok := docs[id]
			if ok != v.there || bad[id] {
				return fmt.Sprintf("after %s returned, document %s is stored: %v, but it is present: %v", f.op, id, ok, v.there)
			}
			if ok && !sameData(x, v.vers[0].d.data()) {
				return fmt.Sprintf("after %s returned, document %s is stored with older data", f.op, id)
			}
		}
	}
	return ""
}

// serves opens an engine on a disk and compares what it serves with the stored documents.
// Documents in free may be served in any way.
func serves(c cfg, d *disk, keys []op, free map[string]bool, e0 func(r *run) string) string {
	saved := theDisk
	defer func() { theDisk = saved }()
	theDisk = d
	docs, bad := d.latest()
	r := &run{c: c}
	r.e = c.open()
	n := r.e.NumIndexed()
	if int(n) != len(docs) {
		return fmt.Sprintf("recovery: %d documents indexed, %d readable documents stored", n, len(docs))
	}
	r.e.Flush()
	for _, q := range keys {
		ev := r.do(q)
		if q.k == 'c' {
			continue
		}
		if m := compare(ev, docs, bad, free, c); m != "" {
			return "recovery: " + m
		}
	}
	for id := range docs {
		if !free[id] && !r.e.HasDoc(id) {
			return fmt.Sprintf("recovery: document %s is not known", id)
		}
	}
	// the listings name every intact document, damaged entries before it notwithstanding
	for _, l := range [][]string{r.e.GetDBAllIds(), r.e.GetAllDocIds()} {
		if len(l) != len(docs)+len(bad) {
			return fmt.Sprintf("recovery: %d entries stored, %q listed", len(docs)+len(bad), l)
		}
	}
	ids, data := r.e.GetDBAllDocs()
	for id, x := range docs {
		n := 0
		for i, v := range ids {
			if v == id && i < len(data) && sameData(data[i], x) {
				n++
			}
		}
		if n != 1 {
			return fmt.Sprintf("recovery: document %s is listed %d times with its data", id, n)
		}
	}
	for id := range bad {
		if r.e.HasDoc(id) {
			return fmt.Sprintf("recovery: unreadable document %s is known", id)
		}
	}
	if e0 != nil {
		return e0(r)
	}
	return ""
}

func compare(ev *event, docs map[string]types.DocData, bad, free map[string]bool, c cfg) string {
	got := map[string]int{}
	nfree := 0
	for _, h := range ev.ans.hits {
		got[h.id]++
		if got[h.id] > 1 {
			return fmt.Sprintf("%s returns %s twice", ev.op, h.id)
		}
		if free[h.id] {
			nfree++
			continue
		}
		x, ok := docs[h.id]
		if !ok || !hasKey(x, ev.key) {
			return fmt.Sprintf("%s returns %s, which does not match", ev.op, h.id)
		}
		if ev.k == 's' && !c.idOnly && (h.content != x.Content || h.attri != x.Attri || h.f != x.Fields) {
			return fmt.Sprintf("%s returns %s with %q %v %v", ev.op, h.id, h.content, h.attri, h.f)
		}
	}
	for id, x := range docs {
		if !free[id] && hasKey(x, ev.key) && got[id] == 0 {
			return fmt.Sprintf("%s does not return %s", ev.op, id)
		}
	}
	if ev.ans.n != len(ev.ans.hits) {
		return fmt.Sprintf("%s: NumDocs = %d with %d documents", ev.op, ev.ans.n, len(ev.ans.hits))
	}
	return ""
}

// crashHistories: every history, cut at every storage operation.
func crashPart(name string, c cfg, n [2]int) rep.Part {
	menu := sq(version("a", 1), version("a", 2), version("b", 1), rm("a"), fl())
	keys := probes(menu)
	again := sq(version("a", 5), fl(), op{k: 'Z'})
	return rep.Part{Name: name, Run: func(w *rep.W) {
		mkScratch()
		k := n[0]
		if w.Tier == "thorough" {
			k = n[1]
		}
		w.St.Bound = fmt.Sprintf("%d operations, every prefix of the storage log", k)
		sequences(menu, k, separated, func(s []op) {
			if w.Done() || !w.Next() {
				return
			}
			w.Case(func() string { return fmt.Sprintf("[%v] %s", c, ops(s)) }, func() string {
				return run1(w, int(w.St.Cases)%2, func() string {
					theDisk = newDisk()
					r := &run{c: c}
					r.e = c.open()
					r.doAll(s)
					r.do(fl())
					if m := r.judge(); m != "" {
						return m
					}
					if m := r.durable(); m != "" {
						return m
					}
					for i := 0; i <= len(theDisk.ops); i++ {
						w.Nontrivial()
						d := theDisk.prefix(i)
						w.State(fmt.Sprint(d.data))
						m := serves(c, d, keys, nil, func(r2 *run) string {
							// the recovered engine goes on working and stays durable
							r2.doAll(again)
							ev := r2.do(se("a5"))
							if len(ev.ans.hits) != 1 || ev.ans.hits[0].id != "a" {
								return "after recovery, a new version is not durable"
							}
							return ""
						})
						if m != "" {
							return fmt.Sprintf("crash after %d of %d storage operations: %s", i, len(theDisk.ops), m)
						}
					}
					return ""
				})
			})
		})
	}}
}

// damagePart: every stored value truncated at every length and with every byte changed.
func damagePart(name string, c cfg, masks [2][]byte) rep.Part {
	set := sq(version("a", 2), version("b", 1), version("c", 1))
	keys := probes(set)
	return rep.Part{Name: name, Run: func(w *rep.W) {
		mkScratch()
		var ref *disk
		run1(w, 0, func() string {
			theDisk = newDisk()
			r := &run{c: c}
			r.e = c.open()
			r.doAll(set)
			r.do(fl())
			ref = theDisk
			return ""
		})
		ms := masks[0]
		if w.Tier == "thorough" {
			ms = masks[1]
		}
		w.St.Bound = fmt.Sprintf("every truncation and %d changes of every byte", len(ms))
		try := func(path, key, val, what string) {
			if w.Done() || !w.Next() {
				return
			}
			w.Case(func() string { return what }, func() string {
				return run1(w, 0, func() string {
					d := ref.prefix(len(ref.ops))
					d.data[path][key] = val
					_, readable := decode(val)
					free := map[string]bool{}
					if readable {
						free[key] = true
						w.Outcome("still readable")
					} else {
						w.Outcome("unreadable")
						w.Nontrivial()
					}
					w.State(what)
					return serves(c, d, keys, free, func(r *run) string {
						// a rewrite makes the damaged document durable again
						r.doAll(sq(version(key, 7), fl(), zz()))
						ev := r.do(se(key + "7"))
						if len(ev.ans.hits) != 1 || ev.ans.hits[0].id != key || ev.ans.hits[0].content != version(key, 7).d.content() && !c.idOnly {
							return "a rewrite of the damaged document is not durable"
						}
						for _, o := range set {
							if o.d.id != key && len(r.do(se(fmt.Sprintf("%s%d", o.d.id, o.d.ver))).ans.hits) != 1 {
								return "another document is lost after the rewrite"
							}
						}
						return ""
					})
				})
			})
		}
		var paths []string
		for p := range ref.data {
			paths = append(paths, p)
		}
		sort.Strings(paths)
		for _, p := range paths {
			var ks []string
			for k := range ref.data[p] {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				v := ref.data[p][k]
				for i := 0; i < len(v); i++ {
					try(p, k, v[:i], fmt.Sprintf("value of %s truncated to %d of %d bytes", k, i, len(v)))
				}
				for i := 0; i < len(v); i++ {
					for _, m := range ms {
						b := []byte(v)
						b[i] ^= m
						try(p, k, string(b), fmt.Sprintf("value of %s, byte %d xor %#x", k, i, m))
					}
				}
				for _, x := range []string{strings.Repeat("\x00", len(v)), strings.Repeat("\xff", len(v)), v + v, "x"} {
					try(p, k, x, fmt.Sprintf("value of %s replaced by %d other bytes", k, len(x)))
				}
			}
		}
	}}
}

// failPart: every single failing write of every history.
func failPart(name string, c cfg, n [2]int) rep.Part {
	menu := sq(version("a", 1), version("a", 2), version("b", 1), rm("a"), fl())
	keys := probes(menu)
	return rep.Part{Name: name, Run: func(w *rep.W) {
		mkScratch()
		k := n[0]
		if w.Tier == "thorough" {
			k = n[1]
		}
		w.St.Bound = fmt.Sprintf("%d operations, every single failing write", k)
		sequences(menu, k, separated, func(s []op) {
			for f := 1; f <= k; f++ {
				if w.Done() {
					return
				}
				if !w.Next() {
					continue
				}
				w.Case(func() string { return fmt.Sprintf("[%v] %s, write %d fails", c, ops(s), f) }, func() string {
					return run1(w, int(w.St.Cases)%2, func() string {
						theDisk = newDisk()
						theDisk.fail = f
						r := &run{c: c}
						r.e = c.open()
						for _, o := range s {
							r.do(o)
							if isFlush(o) {
								r.doAll(keys)
							}
						}
						r.do(fl())
						r.doAll(keys)
						if theDisk.writes < f {
							return ""
						}
						w.Nontrivial()
						if m := r.judge(); m != "" {
							return m
						}
						w.State(fmt.Sprint(theDisk.data))
						// the failed document is written again
						d := theDisk.prefix(len(theDisk.ops))
						return serves(c, d, keys, nil, func(r2 *run) string {
							r2.doAll(sq(version("a", 5), version("b", 5), fl(), zz()))
							if len(r2.do(se("a5")).ans.hits) != 1 || len(r2.do(se("b5")).ans.hits) != 1 {
								return "a later write is not durable"
							}
							return ""
						})
					})
				})
			}
		})
	}}
}

// encodePart: documents that cannot be encoded among others.
func encodePart(name string, c cfg, n [2]int) rep.Part {
	raw := func(o op) op { o.d.raw = true; return o }
	menu := sq(version("a", 1), raw(version("a", 2)), version("b", 1), raw(version("b", 3)), rm("a"), fl())
	keys := probes(menu)
	return rep.Part{Name: name, Run: func(w *rep.W) {
		mkScratch()
		k := n[0]
		if w.Tier == "thorough" {
			k = n[1]
		}
		w.St.Bound = fmt.Sprintf("%d operations, some on documents that cannot be encoded", k)
		sequences(menu, k, separated, func(s []op) {
			any := false
			for _, o := range s {
				any = any || o.d.raw
			}
			if !any || w.Done() || !w.Next() {
				return
			}
			w.Case(func() string { return fmt.Sprintf("[%v] %s", c, ops(s)) }, func() string {
				return run1(w, int(w.St.Cases)%2, func() string {
					theDisk = newDisk()
					r := &run{c: c}
					r.e = c.open()
					for _, o := range s {
						r.do(o)
						if isFlush(o) {
							r.doAll(keys)
						}
					}
					r.do(fl())
					r.doAll(keys)
					w.Nontrivial()
					if m := r.judge(); m != "" {
						return m
					}
					docs, bad := theDisk.latest()
					for _, id := range r.ids() {
						v := r.view(id, r.clock, r.clock)
						if bad[id] {
							return "document " + id + " is stored unreadably"
						}
						if v.must && (!v.there || !v.vers[0].d.raw) {
							x, ok := docs[id]
							if ok != v.there || ok && !sameData(x, v.vers[0].d.data()) {
								return fmt.Sprintf("document %s is stored: %v with %v", id, ok, x)
							}
						}
					}
					w.State(fmt.Sprint(theDisk.data))
					return serves(c, theDisk.prefix(len(theDisk.ops)), keys, nil, func(r2 *run) string {
						r2.doAll(sq(version("a", 5), version("b", 5), fl(), zz()))
						if len(r2.do(se("a5")).ans.hits) != 1 || len(r2.do(se("b5")).ans.hits) != 1 {
							return "a later write is not durable"
						}
						return ""
					})
				})
			})
		})
	}}
}

// crashSched: under every schedule, every prefix of the storage log is consistent with the completed flushes;
// every distinct prefix is recovered once.
func crashSched(tier string) []rep.Part {
	s1 := small().st(1)
	setup := sq(version("a", 1), version("b", 1), fl())
	d, e := [2]int{2, 3}, [2]int{1, 2}
	ss := []scenario{
		{name: "crash: update and remove", c: s1, setup: setup, clients: one(version("a", 2), fl(), rm("b"), fl()), dev: d},
		{name: "crash: two storage shards", c: s1.st(2).sh(2), setup: setup, clients: one(version("a", 2), rm("b"), fl(), version("c", 1), fl()), dev: e},
		{name: "crash: two clients", c: s1.st(2), setup: setup, clients: cl(sq(version("a", 2), fl()), sq(rm("b"), fl())), dev: d},
		{name: "crash: two clients, one document each, two rounds", c: s1, setup: setup, clients: cl(sq(version("a", 2), fl(), rm("a"), fl()), sq(version("b", 2), fl())), dev: e},
		{name: "crash: flush beside writes", c: s1.st(2), setup: setup, clients: cl(sq(version("a", 2), rm("b"), version("c", 1)), sq(fl(), fl())), dev: e},
	}
	var ps []rep.Part
	for _, s := range ss {
		s := s
		ps = append(ps, rep.Part{Name: s.name, Run: func(w *rep.W) {
			mkScratch()
			n := s.dev[0]
			if tier == "thorough" {
				n = s.dev[1]
			}
			seen := map[uint64]bool{}
			keys := probes(sq(version("a", 1), version("a", 2), version("b", 1), version("b", 2), version("c", 1)))
			expl.Run(w, expl.Scen{Bases: []int{0, 1, 4, 5}, Dev: n, Body: func() string {
				theDisk = newDisk()
				r := &run{c: s.c}
				r.e = s.c.open()
				r.doAll(s.setup)
				mc.Explore(true)
				left := len(s.clients)
				for _, c := range s.clients {
					c := c
					mc.Go(func() { r.doAll(c); left-- })
				}
				mc.Block("join", func() bool { return left == 0 })
				mc.Explore(false)
				r.do(fl())
				if m := r.judge(); m != "" {
					mc.Fail(m)
				}
				if m := r.durable(); m != "" {
					mc.Fail(m)
				}
				for i := 0; i <= len(theDisk.ops); i++ {
					p := theDisk.prefix(i)
					h := mc.Hash(fmt.Sprint(p.data))
					if seen[h] && w.Only < 0 {
						continue
					}
					seen[h] = true
					if m := serves(s.c, p, keys, nil, nil); m != "" {
						mc.Fail(fmt.Sprintf("crash after storage operation %d: %s", i, m))
					}
				}
				o := ""
				for _, x := range theDisk.ops {
					o += fmt.Sprintf("%s/%v ", x.key, x.del)
				}
				return o
			}})
		}})
	}
	return ps
}

func c16(tier string) []rep.Part {
	s := small()
	ps := []rep.Part{
		crashPart("crash, one of each", s.st(1), [2]int{5, 7}),
		crashPart("crash, two shards, two storage shards", s.st(2).sh(2), [2]int{5, 6}),
		crashPart("crash, ids, three storage shards", s.st(3).sh(2).ids(), [2]int{4, 6}),
		damagePart("damage, one storage shard", s.st(1), [2][]byte{{0xff, 1}, {0xff, 1, 2, 4, 8, 16, 32, 64, 128, 0x55}}),
		damagePart("damage, two storage shards", s.st(2).sh(2), [2][]byte{{0x80}, {0x80, 0xff, 1}}),
		failPart("failing write, one storage shard", s.st(1), [2]int{4, 6}),
		failPart("failing write, two storage shards", s.st(2).sh(2), [2]int{4, 5}),
		encodePart("unencodable documents, one storage shard", s.st(1), [2]int{4, 6}),
		encodePart("unencodable documents, two storage shards", s.st(2).sh(2), [2]int{3, 5}),
	}
	ps = append(ps, c16wide()...)
	return append(ps, crashSched(tier)...)
}
