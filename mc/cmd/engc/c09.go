package main

import (
	"fmt"

	"github.com/go-ego/murmur"
	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"

	"vmc/mc"
)

func (c cfg) sh(n int) cfg { c.shards = n; return c }
func (c cfg) st(n int) cfg { c.store = n; return c }
func (c cfg) ca(n int) cfg { c.cache = n; return c }
func (c cfg) sg(n int) cfg { c.gse = n; return c }
func (c cfg) bf(n int) cfg { c.buf = n; return c }
func (c cfg) th(n int) cfg { c.ixThreads, c.rkThreads = n, n; return c }
func (c cfg) ids() cfg     { c.idOnly = true; return c }
func (c cfg) it(i int) cfg { c.index = i; return c }
func one(os ...op) [][]op  { return [][]op{os} }
func cl(cs ...[]op) [][]op { return cs }
func sq(os ...op) []op     { return os }
func tm(o op, ms int) op   { o.timeout = ms; return o }
func lb(o op, l string) op { o.d.labels = append(o.d.labels, l); return o }
func all(k string) []op    { return sq(se(k), ct(k), ol(k)) }
func cat(a ...[]op) []op {
	var r []op
	for _, x := range a {
		r = append(r, x...)
	}
	return r
}

func c09() []scenario {
	s1 := small()
	q2, q3 := [2]int{2, 3}, [2]int{1, 2}
	two := s1.sh(2).sg(2)
	list := []scenario{
		{name: "index flush", c: s1, clients: one(cat(sq(ix("a", 1, "k"), fl()), all("k"), sq(hd("a"), nn()))...), dev: q2, late: true},
		{name: "index flush, ids", c: s1.ids().it(types.DocIdsIndex), clients: one(cat(sq(ix("a", 1, "k"), fl()), all("k"))...), dev: q2},
		{name: "two documents, two shards", c: two, clients: one(cat(sq(ix("a", 1, "k"), ix("b", 1, "k"), fl()), all("k"), sq(nn()))...), dev: q3},
		{name: "remove", c: s1, setup: sq(ix("a", 1, "k"), fl()), clients: one(cat(sq(rm("a"), fl()), all("k"), sq(hd("a"), nn()))...), dev: q2},
		{name: "remove, two shards", c: two, setup: sq(ix("a", 1, "k"), ix("b", 1, "k"), fl()), clients: one(cat(sq(rm("a"), fl()), all("k"), sq(hd("a"), nn()))...), dev: q3},
		{name: "remove, flush, add", c: s1, setup: sq(ix("a", 1, "k"), fl()), clients: one(cat(sq(rm("a"), fl(), ix("a", 2, "k"), fl()), all("k"), sq(hd("a")))...), dev: q2},
		{name: "update", c: s1, setup: sq(ix("a", 1, "k", "m"), fl()), clients: one(cat(sq(ix("a", 2, "k", "n"), fl()), all("k"), sq(se("m"), se("n")))...), dev: q2},
		{name: "update, two shards", c: two, setup: sq(ix("a", 1, "k", "m"), fl()), clients: one(cat(sq(ix("a", 2, "k", "n"), fl()), all("k"), sq(se("m"), se("n")))...), dev: q3},
		{name: "forced", c: s1.sh(2), clients: one(cat(sq(forced(ix("a", 1, "k")), ix("b", 1, "k"), fl()), all("k"))...), dev: q3},
		{name: "forced remove", c: s1, setup: sq(ix("a", 1, "k"), ix("b", 1, "k"), fl()), clients: one(cat(sq(forced(rm("a")), fl()), all("k"))...), dev: q2},
		{name: "small cache", c: s1.ca(1), clients: one(cat(sq(ix("a", 1, "k"), ix("b", 1, "k"), ix("c", 1, "k"), fl()), all("k"))...), dev: q3},
		{name: "two adders", c: s1, clients: cl(sq(ix("b", 1, "k")), cat(sq(ix("a", 1, "k"), fl()), all("k"))), final: cat(sq(fl()), all("k")), dev: q2},
		{name: "two flushers", c: s1.sg(2), clients: cl(cat(sq(ix("b", 1, "k"), fl()), all("k")), cat(sq(ix("a", 1, "k"), fl()), all("k"))), dev: q3},
		{name: "adder and remover", c: s1, setup: sq(ix("b", 1, "k"), fl()), clients: cl(cat(sq(rm("b"), fl()), all("k")), cat(sq(ix("a", 1, "k"), fl()), all("k"))), dev: q3},
		{name: "remover and remover", c: s1, setup: sq(ix("a", 1, "k"), ix("b", 1, "k"), fl()), clients: cl(sq(rm("b"), fl(), se("k")), sq(rm("a"), fl(), se("k"))), final: all("k"), dev: q3},
		{name: "remover and flushing remover", c: s1, setup: sq(ix("a", 1, "k"), ix("b", 1, "k"), fl()), clients: cl(sq(rm("b")), sq(rm("a"), fl(), ct("k"), hd("a"))), final: cat(sq(fl()), all("k")), dev: q2, quiet: true},
		{name: "adder and flushing adder, two segmenters", c: s1.sg(2), clients: cl(sq(ix("b", 1, "k")), sq(ix("a", 1, "k"), fl(), ct("k"), hd("a"))), final: cat(sq(fl()), all("k")), dev: q2, quiet: true},
		{name: "flush beside updates", c: s1.sh(2), setup: sq(ix("a", 1, "k"), fl()), clients: cl(sq(ix("a", 2, "k"), ix("c", 1, "k")), sq(ix("b", 1, "k"), fl(), se("k"), ct("k"))), final: sq(fl(), se("k"), ct("k")), dev: q3},
		{name: "persistent add", c: s1.st(1), clients: one(cat(sq(ix("a", 1, "k"), fl()), all("k"))...), dev: q2, disk: true},
		{name: "persistent remove", c: s1.st(2), setup: sq(ix("a", 1, "k"), ix("b", 1, "k"), fl()), clients: one(cat(sq(rm("a"), fl()), all("k"))...), dev: q2, disk: true},
		{name: "persistent two clients", c: s1.st(2), setup: sq(ix("b", 1, "k"), fl()), clients: cl(sq(ix("a", 1, "k"), fl(), se("k")), sq(rm("b"), fl(), se("k"))), dev: q3, disk: true},
		{name: "three clients", c: s1, setup: sq(ix("b", 1, "k"), fl()), clients: cl(sq(ix("a", 1, "k")), sq(rm("b")), sq(fl(), se("k"))), final: cat(sq(fl()), all("k")), dev: q3},
		{name: "added again after a mixed-up add and remove", c: s1, clients: cl(sq(ix("a", 1, "k"), fl()), sq(rm("a"))), final: cat(sq(fl(), ix("a", 2, "k"), fl()), all("k"), sq(hd("a"), rm("a"), fl(), se("k"), hd("a"))), dev: q2, quiet: true},
		{name: "force requests without a document", c: s1.sh(2), setup: sq(ix("a", 1, "k"), fl()), clients: one(cat(sq(ix("b", 1, "k"), fi(), rm("a"), fr(), fx()), all("k"), sq(hd("0")))...), dev: q3},
		{name: "force requests without a document by two clients", c: s1, setup: sq(ix("a", 1, "k"), fl()), clients: cl(cat(sq(fi(), ix("b", 1, "k"), fl()), all("k")), sq(fr(), rm("a"), fl(), se("k"))), final: sq(fr(), fi(), fl(), se("k")), dev: q3},
		{name: "new document by two clients, two shards", c: s1.sh(2), clients: cl(sq(ix("a", 1, "k")), sq(ix("a", 2, "k"))), final: cat(sq(fl()), all("k"), sq(hd("a"), rm("a"), fl(), se("k"))), dev: q2, quiet: true},
		{name: "new document by two clients, three shards", c: s1.sh(3).sg(2), clients: cl(sq(ix("b", 1, "k")), sq(ix("b", 4, "k"))), final: cat(sq(fl()), all("k"), sq(rm("b"), fl(), se("k"))), dev: q3, quiet: true},
		{name: "adder and forced adder", c: s1, clients: cl(sq(forced(ix("b", 1, "k"))), cat(sq(ix("a", 1, "k"), fl()), all("k"))), final: cat(sq(fl()), all("k")), dev: q2, quiet: true},
		{name: "adder and forced remover", c: s1, setup: sq(ix("b", 1, "k"), fl()), clients: cl(sq(forced(rm("b"))), cat(sq(ix("a", 1, "k"), fl()), all("k"))), final: cat(sq(fl()), all("k")), dev: q2, quiet: true},
		{name: "two rounds", c: s1.sh(2).sg(2), clients: one(ix("a", 1, "k"), fl(), ix("b", 1, "k"), rm("a"), fl(), se("k"), ct("k"), ix("a", 2, "k"), fl(), se("k"), ct("k")), dev: q3},
	}
	// another client asks for a forced refresh at every stage of a flush of documents that wait in the cache of one shard
	var docs []op
	for i := 0; len(docs) < 3; i++ {
		if o := ix(fmt.Sprint("w", i), 1, "k"); murmur.Sum32(o.d.id+o.d.content())%2 == 1 {
			docs = append(docs, o)
		}
	}
	for n := 0; n <= 1; n++ {
		var w []op
		for i := 0; i < n; i++ {
			w = append(w, hd("a"))
		}
		list = append(list, scenario{name: fmt.Sprintf("flush beside a force request %d", n), c: s1.sh(2).bf(4).ca(16), setup: cat(docs, sq(ct("k"), ct("k"), ct("k"))), clients: cl(sq(fl(), ct("k")), cat(w, sq(fi()))), final: sq(fl(), ct("k")), dev: [2]int{2, 4}, low: 1, quiet: true})
		list = append(list, scenario{name: fmt.Sprintf("flush beside a force request %d, the other order", n), c: s1.sh(2).bf(4).ca(16), setup: cat(docs, sq(ct("k"), ct("k"), ct("k"))), clients: cl(cat(w, sq(fi())), sq(fl(), ct("k"))), final: sq(fl(), ct("k")), dev: [2]int{2, 4}, low: 1, quiet: true})
	}
	return list
}

func c10() []scenario {
	var out []scenario
	menu := []op{ix("a", 2, "k"), forced(ix("a", 2, "k")), rm("a"), forced(rm("a")), fl(), se("k"), ct("k"), ix("c", 1, "k"), fi(), fr()}
	base := small().ca(1)
	add := func(name string, c cfg, dev [2]int, th bool, setup []op, clients ...[]op) {
		out = append(out, scenario{name: name, c: c, setup: setup, clients: clients, final: sq(fl(), se("k")), dev: dev, thorough: th})
	}
	setup := sq(ix("a", 1, "k"), ix("b", 1, "k"), fl())
	for i, a := range menu {
		for j := i; j < len(menu); j++ {
			b := menu[j]
			add(fmt.Sprintf("pair %s / %s", a, b), base, [2]int{2, 3}, false, setup, sq(a), sq(b))
			add(fmt.Sprintf("two shards, pair %s / %s", a, b), base.sh(2).ca(4), [2]int{1, 2}, false, setup, sq(a), sq(b))
		}
	}
	for i, a := range menu {
		for j, b := range menu {
			if (a.k == 'i' || a.k == 'r') && (b.k == 'i' || b.k == 'r') {
				add(fmt.Sprintf("double %d%d", i, j), base.sh(2), [2]int{1, 2}, true, setup, sq(a, b), sq(b, a))
				add(fmt.Sprintf("double %d%d flush", i, j), base.sh(2), [2]int{1, 2}, true, setup, sq(a, b, fl()), sq(b, a, fl()))
			}
		}
	}
	add("persistent clients", base.st(1), [2]int{1, 2}, false, setup, sq(ix("a", 2, "k"), fl()), sq(rm("b"), fl()))
	add("persistent three clients", base.st(2), [2]int{1, 2}, false, setup, sq(ix("a", 2, "k"), rm("b")), sq(rm("a")), sq(fl(), se("k")))
	add("removes and updates in opposite order", base, [2]int{2, 3}, false, setup, sq(ix("a", 2, "k"), rm("b")), sq(rm("a"), ix("b", 2, "k")))
	add("three clients, two shards", base.sh(2).sg(2), [2]int{1, 2}, false, setup, sq(ix("a", 2, "k")), sq(rm("b")), sq(se("k"), fl()))
	add("searches and flushes", base.sh(2).th(2), [2]int{1, 2}, false, setup, sq(se("k"), fl()), sq(ct("k"), fl()), sq(se("k"), rm("a")))
	add("many adds", base.sg(2), [2]int{1, 2}, false, nil, sq(ix("a", 1, "k"), ix("b", 1, "k"), ix("c", 1, "k")), sq(ix("d", 1, "k"), ix("a", 2, "k"), forced(ix("b", 2, "k"))))
	return out
}

func c11() []scenario {
	s1 := small()
	q2, q3 := [2]int{2, 3}, [2]int{1, 2}
	setup := sq(ix("a", 1, "k", "m"), ix("b", 1, "k", "j"), fl())
	return []scenario{
		{name: "search beside add", c: s1, setup: setup, clients: cl(sq(ix("c", 1, "k"), fl()), sq(se("k"), se("j"))), final: all("k"), dev: q2},
		{name: "search beside forced add", c: s1, setup: setup, clients: cl(sq(forced(ix("c", 1, "k"))), sq(se("k"), se("k"))), final: cat(sq(fl()), all("k")), dev: q2},
		{name: "search beside remove", c: s1, setup: setup, clients: cl(sq(rm("a"), fl()), sq(se("k"), ct("j"), se("m"))), final: all("k"), dev: q2},
		{name: "search beside update", c: s1, setup: setup, clients: cl(sq(ix("a", 2, "k", "n"), fl()), sq(se("k"), se("m"), se("n"))), final: cat(all("k"), sq(se("m"), se("n"))), dev: q2},
		{name: "search beside update, ids", c: s1.ids(), setup: setup, clients: cl(sq(ix("a", 2, "k", "n"), fl()), sq(se("k"), se("m"))), final: all("k"), dev: q2},
		{name: "search beside update and remove, cache 1", c: s1.ca(1), setup: setup, clients: cl(sq(ix("a", 2, "k"), rm("b"), fl()), sq(se("k"), se("j"))), final: all("k"), dev: q2},
		{name: "two searches", c: s1.th(2).sh(2), setup: setup, clients: cl(sq(se("m"), se("j")), sq(se("j"), se("m"))), final: all("k"), dev: q3},
		{name: "two searches and orderless", c: s1, setup: setup, clients: cl(sq(se("m"), ct("k")), sq(ol("j"), ct("m")), sq(se("k"))), dev: q2},
		{name: "two searches beside update, two shards", c: s1.sh(2).th(2), setup: setup, clients: cl(sq(ix("a", 2, "k", "n")), sq(se("m"), se("n")), sq(se("k"), se("j"))), final: cat(sq(fl()), all("k")), dev: q3},
		{name: "orderless beside remove", c: s1, setup: setup, clients: cl(sq(rm("a"), fl()), sq(ol("k"), ct("k"), ol("j"))), final: all("k"), dev: q2},
		{name: "search after removal beside add", c: s1, setup: cat(setup, sq(rm("a"), fl())), clients: cl(sq(ix("c", 1, "k"), ix("b", 2, "k", "j"), fl()), sq(se("k"), se("j"), se("m"))), final: all("k"), dev: q2},
		{name: "search beside re-add", c: s1, setup: cat(setup, sq(rm("a"), fl())), clients: cl(sq(ix("a", 2, "k", "n"), fl()), sq(se("k"), se("m"), se("n"))), final: all("k"), dev: q2},
		{name: "labels beside update", c: s1.it(types.FrequenciesIndex), setup: sq(lb(ix("a", 1, "k"), "L"), ix("b", 1, "k"), fl()), clients: cl(sq(lb(ix("a", 2, "k"), "M"), fl()), sq(se("k"), se("L"), se("M"))), final: cat(all("k"), sq(se("L"), se("M"))), dev: q2},
		{name: "search beside flushes", c: s1.sh(2), setup: setup, clients: cl(sq(rm("a"), fl(), ix("a", 3, "k"), fl()), sq(se("k"), se("k"), se("k"))), final: all("k"), dev: q3},
		{name: "persistent, search beside changes", c: s1.st(1), setup: setup, clients: cl(sq(rm("a"), ix("b", 2, "k")), sq(se("k"), se("j"))), final: cat(sq(fl()), all("k")), dev: q2, disk: true},
	}
}

// c12 are the scenarios run under the race detector: every call documented as thread safe, in pairs and triples.
func c12() []scenario {
	var out []scenario
	setup := sq(ix("a", 1, "k"), ix("b", 1, "k"), fl())
	menu := []op{ix("a", 2, "k"), forced(ix("a", 2, "k")), rm("a"), forced(rm("a")), fl(), se("k"), ct("k"), ol("k"), hd("a"), nn(), tm(se("k"), 5)}
	for i, a := range menu {
		for j := i; j < len(menu); j++ {
			b := menu[j]
			out = append(out, scenario{name: fmt.Sprintf("pair %s / %s %d", a, b, i*20+j), c: small().ca(2), setup: setup, clients: cl(sq(a), sq(b)), final: sq(fl()),
				noVisib: true, dev: [2]int{2, 3}, bases: []int{0, 4}})
		}
	}
	x := func(name string, c cfg, dev [2]int, cs ...[]op) {
		out = append(out, scenario{name: name, c: c, setup: setup, clients: cs, final: sq(fl(), se("k")), noVisib: true, dev: dev, bases: []int{0, 4}})
	}
	d := [2]int{1, 1}
	x("two shards", small().sh(2).sg(2).th(2), d, sq(ix("a", 2, "k"), rm("b")), sq(se("k"), hd("a")), sq(fl(), nn()))
	x("cache 1", small().ca(1), d, sq(ix("a", 2, "k"), ix("c", 1, "k")), sq(se("k"), rm("b")), sq(ix("d", 1, "k"), se("k")))
	x("persistent", small().st(2), d, sq(ix("a", 2, "k"), rm("b")), sq(rm("a"), fl()), sq(se("k"), nn()))
	x("ids", small().ids(), d, sq(ix("a", 2, "k"), se("k")), sq(se("k"), rm("b")))
	x("add and query", small().sh(2), d, sq(ix("c", 1, "k"), hd("c")), sq(ix("d", 1, "k"), hd("d"), se("k")))
	out[len(out)-1].late = true
	py := small().sg(2)
	py.py = true
	x("pinyin of phrases", py, d, sq(ix("c", 1, "k")), sq(ix("d", 1, "k")))
	return out
}

// c13: searches with a timeout; the timer can fire at any point.
func c13() []scenario {
	q2, q3 := [2]int{3, 4}, [2]int{2, 3}
	setup := sq(ix("a", 1, "k"), ix("b", 1, "k"), ix("c", 1, "k"), fl())
	s1 := small()
	mk := func(name string, c cfg, d [2]int, cs ...[]op) scenario {
		return scenario{name: name, c: c, setup: setup, clients: cs, final: sq(se("k"), ct("k"), tm(se("k"), -1), fl(), se("k")), dev: d, quiet: true, timed: name != "two timed clients", bases: []int{0, 1, 4}}
	}
	return []scenario{
		mk("one shard", s1, q2, sq(tm(se("k"), 5))),
		mk("one shard, ids", s1.ids(), q2, sq(tm(se("k"), 5))),
		mk("two shards", s1.sh(2), q2, sq(tm(se("k"), 5))),
		mk("two shards, ids", s1.sh(2).ids(), q2, sq(tm(se("k"), 5))),
		mk("three shards", s1.sh(3), q3, sq(tm(se("k"), 1))),
		mk("three shards, ids", s1.sh(3).ids(), q3, sq(tm(se("k"), 1))),
		mk("count", s1.sh(2), q2, sq(tm(ct("k"), 5))),
		mk("orderless", s1.sh(2), q2, sq(tm(ol("k"), 5))),
		mk("no match", s1.sh(2), q2, sq(tm(se("none"), 5))),
		mk("timed searches in a row", s1.sh(2), q3, sq(tm(se("k"), 5), tm(se("k"), 7), tm(ct("k"), 5))),
		mk("two timed clients", s1.sh(2), [2]int{1, 2}, sq(tm(se("k"), 5)), sq(tm(se("k"), 9))),
		mk("beside an update", s1.sh(2), [2]int{1, 2}, sq(ix("a", 2, "k"), fl()), sq(tm(se("k"), 5), se("k"))),
		mk("typed search", s1.sh(2), q2, sq(ty(tm(se("k"), 5)), ty(tm(ct("k"), 7)))),
		mk("typed search, ids", s1.sh(2).ids(), q2, sq(ty(tm(se("k"), 5)), ty(tm(ct("k"), 7)))),
		mk("without limit", s1.sh(2), q2, sq(tm(se("k"), 0), tm(se("k"), -3))),
	}
}

// ---- one index or ranker used directly by several goroutines ----

type direct struct {
	name  string
	setup []op
	cls   [][]op
	final []op
	cache int
	dev   [2]int
	race  bool
}

func (d direct) run() string {
	var in core.Indexer
	var rk core.Ranker
	in.Init(types.IndexerOpts{IndexType: types.LocsIndex, DocCacheSize: d.cache, BM25Parameters: &types.BM25Parameters{K1: 2, B: 0.75}})
	rk.Init()
	r := &run{c: small()}
	step := func(o op) {
		ev := &event{op: o, ret: 1 << 30, inv: r.tick()}
		r.ev = append(r.ev, ev)
		switch o.k {
		case 'i':
			dt := o.d.data()
			di := &types.DocIndex{DocId: o.d.id, TokenLen: float32(len(dt.Tokens))}
			for _, t := range dt.Tokens {
				di.Keywords = append(di.Keywords, types.KeywordIndex{Text: t.Text, Frequency: 1, Starts: t.Locations})
			}
			in.AddDocToCache(di, o.force)
			rk.AddDoc(o.d.id, dt.Fields, dt.Content, dt.Attri)
		case 'r':
			in.RemoveDocToCache(o.d.id, o.force)
			rk.RemoveDoc(o.d.id)
		case 'f':
			in.AddDocToCache(nil, true)
		case 'h':
			ev.has = in.HasDoc(o.d.id)
		case 's', 'c':
			docs, n := in.Lookup([]string{o.key}, nil, nil, o.k == 'c')
			ev.ans.n = n
			if o.k == 's' {
				ds, m := rk.Rank(docs, types.RankOpts{ScoringCriteria: crit{}}, false)
				ev.ans = touchDocs(types.SearchResp{BaseResp: types.BaseResp{NumDocs: m}, Docs: ds}, false)
			}
		}
		ev.ret = r.tick()
	}
	for _, o := range d.setup {
		step(o)
	}
	mc.Explore(true)
	done := 0
	for _, c := range d.cls {
		c := c
		mc.Go(func() {
			for _, o := range c {
				step(o)
			}
			done++
		})
	}
	mc.Block("join", func() bool { return done == len(d.cls) })
	for _, o := range d.final {
		step(o)
	}
	mc.Explore(false)
	if !d.race {
		if m := r.judge(); m != "" {
			mc.Fail(m)
		}
	}
	return r.digest()
}

func directs() []direct {
	setup := sq(ix("a", 1, "k", "m"), ix("b", 1, "k"), fl())
	fin := sq(fl(), se("k"), ct("k"), ix("a", 3, "k"), ix("b", 3, "k"), ix("c", 4, "k"), fl(), se("k"), ct("k"), hd("a"), hd("c"))
	mk := func(name string, cache int, cs ...[]op) direct {
		return direct{name: "index: " + name, setup: setup, cls: cs, final: fin, cache: cache, dev: [2]int{3, 5}}
	}
	return []direct{
		mk("add / remove", 4, sq(ix("a", 2, "k")), sq(rm("b"))),
		mk("update / forced remove", 4, sq(ix("a", 2, "k"), ix("c", 1, "k")), sq(forced(rm("b")))),
		mk("forced update / forced remove", 4, sq(forced(ix("a", 2, "k"))), sq(forced(rm("b")))),
		mk("forced update / forced remove of the same", 4, sq(forced(ix("a", 2, "k"))), sq(forced(rm("a")))),
		mk("add / remove of the same", 4, sq(ix("c", 1, "k")), sq(rm("c"))),
		mk("add / remove of the same, forced", 4, sq(ix("c", 1, "k"), fl()), sq(forced(rm("c")), ix("c", 2, "k"))),
		mk("overflow / remove", 1, sq(ix("c", 1, "k"), ix("d", 1, "k")), sq(rm("a"), rm("b"))),
		mk("update overflow / lookup", 1, sq(ix("a", 2, "k"), ix("b", 2, "k")), sq(se("k"), ct("k"))),
		mk("remove / lookup", 4, sq(rm("a"), fl()), sq(se("k"), se("m"), hd("a"))),
		mk("remove / lookup / add", 2, sq(rm("a"), fl()), sq(se("k")), sq(ix("c", 1, "k"), fl())),
		mk("add / add", 1, sq(ix("c", 1, "k"), fl()), sq(ix("d", 1, "k"), fl())),
		mk("update / update", 2, sq(ix("a", 2, "k"), fl()), sq(ix("b", 2, "k"), fl())),
		mk("flush / flush / remove", 4, sq(ix("a", 2, "k"), fl()), sq(fl()), sq(rm("b"))),
	}
}
