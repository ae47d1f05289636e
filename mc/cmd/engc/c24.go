package main

import (
	"fmt"
	"sort"
	"strings"

	riot "github.com/go-ego/riot"
	"github.com/go-ego/riot/types"

	"vmc/expl"
	"vmc/mc"
	"vmc/rep"
)

// Engines, callers and answers do not disturb each other.

// iop is a call on one of the engines: i index (ver), r remove, s flush and look at everything, Z close and reopen.
type iop struct {
	e   int
	k   byte
	id  string
	ver int
}

func (o iop) String() string {
	n := string(rune('A' + o.e))
	switch o.k {
	case 'i':
		return fmt.Sprintf("%s.index(%s v%d)", n, o.id, o.ver)
	case 'r':
		return fmt.Sprintf("%s.remove(%s)", n, o.id)
	case 'R':
		return n + ".three documents in, two out"
	case 'Z':
		return n + ".reopen"
	}
	return n + ".flush,search"
}

// ipair is how the two engines are made.
type ipair struct {
	name  string
	same  bool // both from the very same options value, with its pointers
	store bool
	a, b  cfg
	gse   bool
}

// iworld is one execution.
type iworld struct {
	p       ipair
	opt     [2]types.EngineOpts
	was     [2]string
	e       [2]*riot.Engine
	pending [2]map[string]bool
	inputs  []kept
	answers []kept
	obs     [2][]string
	conc    bool
}

// kept is something that must stay as it was.
type kept struct {
	what, was string
	now       func() string
}

func (x *iworld) keep(l *[]kept, what string, now func() string) {
	*l = append(*l, kept{what, now(), now})
}

func (x *iworld) changed() string {
	for _, k := range append(append([]kept(nil), x.inputs...), x.answers...) {
		if n := k.now(); n != k.was {
			return fmt.Sprintf("%s was changed from %s to %s", k.what, k.was, n)
		}
	}
	return ""
}

func showOpts(o types.EngineOpts) string {
	// unset options may be filled in; set ones stay
	s := fmt.Sprint(o.NotUseGse, o.NumGseThreads, o.NumShards, o.IndexerBufLen, o.NumIndexerThreads, o.RankerBufLen, o.NumRankerThreads, o.IDOnly, o.UseStore, o.StoreFolder, o.StoreShards, o.StoreEngine, o.PinYin, o.Using)
	if o.IndexerOpts != nil {
		s += fmt.Sprint(o.IndexerOpts.IndexType, o.IndexerOpts.DocCacheSize)
		if o.IndexerOpts.BM25Parameters != nil {
			s += fmt.Sprint(*o.IndexerOpts.BM25Parameters)
		}
	}
	if o.DefRankOpts != nil {
		s += fmt.Sprintf("%#v", *o.DefRankOpts)
	}
	return s
}

func newIWorld(p ipair) *iworld {
	x := &iworld{p: p}
	theDisk = newDisk()
	cs := [2]cfg{p.a, p.b}
	for i := range x.opt {
		if i == 1 && p.same {
			x.opt[1] = x.opt[0]
		} else {
			x.opt[i] = cs[i].opts()
			x.opt[i].IndexerOpts.BM25Parameters = &types.BM25Parameters{K1: 2, B: 0.75}
			if p.gse {
				x.opt[i].NotUseGse, x.opt[i].PinYin, x.opt[i].Using = false, i == 1, 1
			}
			if i == 1 {
				x.opt[i].IndexerOpts.BM25Parameters = &types.BM25Parameters{K1: 1.5, B: 0.5}
			}
		}
		x.pending[i] = map[string]bool{}
	}
	for i := range x.opt {
		if p.store {
			x.opt[i].UseStore, x.opt[i].StoreEngine, x.opt[i].StoreShards = true, "vmem", 2
			x.opt[i].StoreFolder = rep.Scratch + "/db" + string(rune('A'+i))
		}
		i := i
		x.keep(&x.inputs, "an engine option of "+string(rune('A'+i)), func() string { return showOpts(x.opt[i]) })
	}
	return x
}

func (x *iworld) start(i int) {
	x.e[i] = &riot.Engine{}
	if x.p.gse {
		x.e[i].WithGse(segmenter())
	}
	x.e[i].Init(x.opt[i])
}

func (x *iworld) flush(i int) {
	x.e[i].Flush()
	x.pending[i] = map[string]bool{}
}

// idoc depends on the engine's own data only through the id and version.
func idoc(id string, ver int) types.DocData {
	d := types.DocData{Content: fmt.Sprintf("hello%d World", ver), Attri: att{id, ver}, Fields: fields{id, ver, float32(10*ver) + float32(id[0]-'a')}}
	// nothing is in order, or in lower case, that the engine might like to be
	d.Tokens = []types.TokenData{{Text: fmt.Sprintf("v%d", ver), Locations: []int{4 + ver}}, {Text: "k", Locations: []int{9, ver}}, {Text: "K", Locations: []int{3, 3}}}
	// room behind the slices: an append by the engine would show
	l := make([]string, 2, 6)
	l[0], l[1] = fmt.Sprintf("L%d", ver%2), "B"
	d.Labels = l
	return d
}

func showDoc(d types.DocData) string {
	return fmt.Sprintf("%#v %q", d, d.Labels[:cap(d.Labels)])
}

func showAnswer(r types.SearchResp) string {
	s := fmt.Sprintf("%d %v %q", r.NumDocs, r.Timeout, r.Tokens)
	switch ds := r.Docs.(type) {
	case types.ScoredDocs:
		for _, d := range ds {
			s += fmt.Sprintf(" %s %q %v %v %v %v %v", d.DocId, d.Content, d.Fields, d.Attri, d.Scores, d.TokenSnippetLocs, d.TokenLocs)
		}
	case types.ScoredIDs:
		for _, d := range ds {
			s += fmt.Sprintf(" %s %v %v %v", d.DocId, d.Scores, d.TokenSnippetLocs, d.TokenLocs)
		}
	}
	return s
}

func ireqs() []types.SearchReq {
	toks := func(ts ...string) []string { return append(make([]string, 0, 6), ts...) }
	return []types.SearchReq{
		{Tokens: toks("k")},
		{Text: "hello1 WORLD", Tokens: toks("k"), Labels: toks("L1")},
		{Tokens: toks("v2"), Labels: toks("L0"), CountDocsOnly: true},
		{Tokens: toks("v1", "k"), Labels: toks("L1", "B"), RankOpts: &types.RankOpts{OutputOffset: 0, MaxOutputs: 1, ReverseOrder: true}},
		{Tokens: toks("k"), DocIds: map[string]bool{"b": true, "zz": false}, RankOpts: &types.RankOpts{ScoringCriteria: types.RankByBM25{}}},
		{Tokens: toks("k"), Logic: types.Logic{Must: true, Expr: types.Expr{Should: toks("v2", "v1", "v2"), NotIn: toks("L1", "K1")}}},
		{Tokens: toks("k"), Orderless: true, Timeout: 100000},
	}
}

func showReq(q types.SearchReq) string {
	full := func(s []string) string { return fmt.Sprintf("%q/%d", s[:cap(s)], len(s)) }
	ro := "-"
	if q.RankOpts != nil {
		ro = fmt.Sprintf("%#v", *q.RankOpts)
	}
	ids := make([]string, 0)
	for k, v := range q.DocIds {
		ids = append(ids, fmt.Sprint(k, v))
	}
	sort.Strings(ids)
	return fmt.Sprint(q.Text, full(q.Tokens), full(q.Labels), ids, q.CountDocsOnly, ro, q.Timeout, q.Orderless, q.Logic.Must, q.Logic.Should, q.Logic.NotIn,
		full(q.Logic.Expr.Must), full(q.Logic.Expr.Should), full(q.Logic.Expr.NotIn))
}

func (x *iworld) look(i int) {
	x.flush(i)
	e := x.e[i]
	var b strings.Builder
	for _, q := range ireqs() {
		q := q
		if x.conc {
			q.Timeout = 0 // an explored timer may fire
		}
		x.keep(&x.inputs, "a search request", func() string { return showReq(q) })
		r := e.Search(q)
		kr := r
		x.keep(&x.answers, "an earlier answer", func() string { return showAnswer(kr) })
		if ds, ok := r.Docs.(types.ScoredDocs); ok && q.Orderless {
			ds = append(types.ScoredDocs(nil), ds...)
			sort.Slice(ds, func(i, j int) bool { return ds[i].DocId < ds[j].DocId })
			r.Docs = ds
		}
		if ds, ok := r.Docs.(types.ScoredIDs); ok && q.Orderless {
			ds = append(types.ScoredIDs(nil), ds...)
			sort.Slice(ds, func(i, j int) bool { return ds[i].DocId < ds[j].DocId })
			r.Docs = ds
		}
		b.WriteString(showAnswer(r))
		b.WriteString("; ")
	}
	fmt.Fprint(&b, e.HasDoc("a"), e.HasDoc("b"), e.HasDoc("c"), e.NumIndexed(), e.NumRemoved(), e.NumTokenAdded(), e.Tokens(types.SearchReq{Text: "Hello2 world", Tokens: []string{"Q"}}))
	if x.p.store {
		ids := e.GetDBAllIds()
		sort.Strings(ids)
		fmt.Fprint(&b, ids, e.HasDocDB("a"), e.HasDocDB("b"))
	}
	x.obs[i] = append(x.obs[i], b.String())
}

func (x *iworld) do(o iop) {
	if x.e[o.e] == nil {
		x.start(o.e)
	}
	if (o.k == 'i' || o.k == 'r') && x.pending[o.e][o.id] {
		x.flush(o.e)
	}
	switch o.k {
	case 'i':
		d := idoc(o.id, o.ver)
		x.keep(&x.inputs, "a document handed to Index", func() string { return showDoc(d) })
		x.e[o.e].Index(o.id, d, o.ver == 2)
		x.pending[o.e][o.id] = true
	case 'r':
		x.e[o.e].RemoveDoc(o.id)
		x.pending[o.e][o.id] = true
	case 'R':
		// a batch of changes around a document with the same keys
		x.flush(o.e)
		for i, id := range []string{"p", "q", "r", "s"} {
			d := idoc(id, i%2+1)
			x.keep(&x.inputs, "a document handed to Index", func() string { return showDoc(d) })
			x.e[o.e].Index(id, d)
		}
		x.look(o.e)
		x.e[o.e].RemoveDoc("p")
		x.e[o.e].RemoveDoc("r")
		x.look(o.e)
	case 'Z':
		x.e[o.e].Close()
		x.start(o.e)
		x.flush(o.e)
	}
}

func (x *iworld) finish(i int) {
	if x.e[i] == nil {
		x.start(i)
	}
	x.look(i)
}

func imenu(store bool) []iop {
	var m []iop
	for e := 0; e < 2; e++ {
		m = append(m, iop{e, 'i', "a", 1}, iop{e, 'i', "a", 2}, iop{e, 'i', "b", 3 + e}, iop{e, 'r', "a", 0}, iop{e, 's', "", 0}, iop{e, 'R', "", 0})
		if store {
			m = append(m, iop{e, 'Z', "", 0})
		}
	}
	return m
}

func isoPart(p ipair, n [2]int) rep.Part {
	return rep.Part{Name: p.name, Run: func(w *rep.W) {
		d := n[0]
		if w.Tier == "thorough" {
			d = n[1]
		}
		w.St.Bound = fmt.Sprintf("%d calls on two engines, each followed by a look at both", d)
		menu := imenu(p.store)
		solo := map[string][]string{}
		alone := func(base, i int, s []iop) ([]string, string) {
			k := fmt.Sprint(base, i, s)
			if r, ok := solo[k]; ok {
				return r, ""
			}
			var obs []string
			m := run1(w, base, func() string {
				x := newIWorld(p)
				for _, o := range s {
					x.do(o)
				}
				x.finish(i)
				obs = x.obs[i]
				return ""
			})
			if m == "" {
				solo[k] = obs
			}
			return obs, m
		}
		cur := make([]iop, 0, d)
		var rec func()
		rec = func() {
			if w.Done() {
				return
			}
			if len(cur) < d {
				for _, o := range menu {
					cur = append(cur, o)
					rec()
					cur = cur[:len(cur)-1]
				}
				return
			}
			if !w.Next() {
				return
			}
			s := append([]iop(nil), cur...)
			base := 0
			w.Case(func() string { return fmt.Sprintf("[%s] %v", p.name, s) }, func() string {
				var x *iworld
				m := run1(w, base, func() string {
					x = newIWorld(p)
					for _, o := range s {
						x.do(o)
					}
					x.finish(0)
					x.finish(1)
					if m := x.changed(); m != "" {
						return m
					}
					return theDisk.misuse
				})
				if m != "" {
					return m
				}
				for i := 0; i < 2; i++ {
					var own []iop
					for _, o := range s {
						if o.e == i {
							own = append(own, o)
						}
					}
					want, m := alone(base, i, own)
					if m != "" {
						return m
					}
					if fmt.Sprint(x.obs[i]) != fmt.Sprint(want) {
						return fmt.Sprintf("engine %c answers\n%s\nbut alone it answers\n%s", 'A'+i, strings.Join(x.obs[i], "\n"), strings.Join(want, "\n"))
					}
				}
				w.Nontrivial()
				w.StateHash(mc.Hash(fmt.Sprint(x.obs)))
				return ""
			})
		}
		rec()
	}}
}

// isoRace: two clients, each on its own engine, or both with the same request on one.
func isoRace(name string, dev [2]int, body func() string) rep.Part {
	return rep.Part{Name: name, Run: func(w *rep.W) {
		mkScratch()
		d := dev[0]
		if w.Tier == "thorough" {
			d = dev[1]
		}
		expl.Run(w, expl.Scen{Body: body, Bases: []int{0, 1, 4, 5}, Dev: d, Race: true})
	}}
}

func twoClients(p ipair, hist [2][]iop) func() string {
	return func() string {
		x := newIWorld(p)
		y := newIWorld(p) // the second client's own bookkeeping
		theDisk = newDisk()
		x.conc, y.conc = true, true
		y.opt = x.opt
		x.start(0)
		y.start(1)
		mc.Explore(true)
		done := false
		mc.Go(func() {
			for _, o := range hist[1] {
				y.do(o)
			}
			y.finish(1)
			done = true
		})
		for _, o := range hist[0] {
			x.do(o)
		}
		x.finish(0)
		mc.Block("join", func() bool { return done })
		mc.Explore(false)
		for i, z := range []*iworld{x, y} {
			if m := z.changed(); m != "" {
				mc.Fail(m)
			}
			last := z.obs[i][len(z.obs[i])-1]
			o := newIWorld(p)
			o.opt, o.conc = x.opt, true
			for _, c := range hist[i] {
				o.do(c)
			}
			o.finish(i)
			if w := o.obs[i][len(o.obs[i])-1]; w != last {
				mc.Fail(fmt.Sprintf("engine %c answers %s but alone it answers %s", 'A'+i, last, w))
			}
		}
		return fmt.Sprint(mc.Hash(fmt.Sprint(x.obs, y.obs)))
	}
}

// sharedReq: several searches with the very same request on one engine, while documents come in.
func sharedReq() string {
	theDisk = newDisk()
	c := small().sh(2)
	c.ixThreads, c.rkThreads = 2, 2
	e := c.open()
	for i, id := range []string{"a", "b", "c"} {
		e.Index(id, idoc(id, i%2+1))
	}
	e.Flush()
	q := types.SearchReq{Text: "HELLO1 world k", Labels: append(make([]string, 0, 4), "L1"), DocIds: map[string]bool{"a": true, "c": true},
		RankOpts: &types.RankOpts{MaxOutputs: 2}}
	q.Text = "k"
	was := showReq(q)
	var rs [2]types.SearchResp
	n := 0
	mc.Explore(true)
	for i := 0; i < 2; i++ {
		i := i
		mc.Go(func() {
			rs[i] = e.Search(q)
			n++
		})
	}
	e.Index("d", idoc("d", 1))
	e.Index("b", idoc("b", 2))
	mc.Block("join", func() bool { return n == 2 })
	a, b := showAnswer(rs[0]), showAnswer(rs[1])
	e.Flush()
	mc.Explore(false)
	if a != b {
		mc.Fail("the same request was answered with " + a + " and " + b)
	}
	if showAnswer(rs[0]) != a || showAnswer(rs[1]) != b {
		mc.Fail("an answer changed after it was returned")
	}
	if showReq(q) != was {
		mc.Fail("the request was changed to " + showReq(q))
	}
	return a
}

func c24(string) []rep.Part {
	s := small()
	s.cache = 2
	two := s.sh(2)
	two.buf = 2
	st := s
	other := s.sh(2).ids()
	other.index, other.bm25 = types.FrequenciesIndex, true
	freq := s.sh(1)
	freq.bm25 = true
	ps := []ipair{
		{name: "same options", same: true, a: two, b: two},
		{name: "same options, BM25", same: true, a: freq, b: freq},
		{name: "different options", a: s, b: other},
		{name: "same options, storage in two folders", same: true, store: true, a: st, b: st},
		{name: "same segmenter, one with pinyin", gse: true, a: s, b: s},
	}
	var r []rep.Part
	for i, p := range ps {
		n := [2]int{3, 4}
		if i == 0 {
			n[1] = 5
		}
		r = append(r, isoPart(p, n))
	}
	h := [2][]iop{{{0, 'i', "a", 1}, {0, 'i', "b", 3}, {0, 'r', "a", 0}}, {{1, 'i', "a", 2}, {1, 'i', "b", 4}, {1, 's', "", 0}}}
	hz := [2][]iop{{{0, 'i', "a", 1}, {0, 'i', "b", 3}}, {{1, 'i', "a", 2}, {1, 's', "", 0}}}
	r = append(r,
		isoRace("concurrent clients on engines with the same options", [2]int{1, 2}, twoClients(ps[0], h)),
		isoRace("concurrent clients on engines with the same options, BM25", [2]int{1, 2}, twoClients(ps[1], h)),
		isoRace("concurrent clients on engines with storage", [2]int{1, 2}, twoClients(ps[3], hz)),
		isoRace("concurrent clients on engines with one segmenter", [2]int{1, 2}, twoClients(ps[4], hz)),
		isoRace("one request used by concurrent searches", [2]int{2, 3}, sharedReq))
	return r
}
