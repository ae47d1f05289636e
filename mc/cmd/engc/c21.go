package main

import (
	"fmt"

	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"

	"vmc/expl"
	"vmc/mc"
	"vmc/rep"
)

// The process-wide registries of package core.

type regOp struct {
	k     byte // S document shard, D document info, E query, I inverted shard, K keyword indices
	shard int
	key   string
}

func (o regOp) String() string {
	switch o.k {
	case 'S':
		return fmt.Sprintf("AddDocInfosShard(%d)", o.shard)
	case 'D':
		return fmt.Sprintf("AddDocInfo(%d,%s)", o.shard, o.key)
	case 'E':
		return fmt.Sprintf("IsDocExist(%s)", o.key)
	case 'I':
		return fmt.Sprintf("AddInvertedIndexShard(%d)", o.shard)
	}
	return fmt.Sprintf("AddKeywordIndices(%d,%s)", o.shard, o.key)
}

type regEv struct {
	regOp
	inv, ret int
	info     *types.DocInfo
	kw       *types.KeywordIndices
	has      bool
}

type regRun struct {
	ev    []*regEv
	clock int
	ds    map[int]*types.DocInfosShard
	is    map[int]*types.InvertedIndexShard
}

func newReg() *regRun {
	core.DocInfoGroup = make(map[int]*types.DocInfosShard)
	core.InvertedIndexGroup = make(map[int]*types.InvertedIndexShard)
	return &regRun{ds: map[int]*types.DocInfosShard{}, is: map[int]*types.InvertedIndexShard{}}
}

func (r *regRun) do(o regOp) *regEv {
	e := &regEv{regOp: o}
	r.ev = append(r.ev, e)
	r.clock++
	e.inv = r.clock
	e.ret = 1 << 30
	switch o.k {
	case 'S':
		core.AddDocInfosShard(o.shard)
	case 'D':
		e.info = &types.DocInfo{TokenLens: float32(e.inv)}
		core.AddDocInfo(o.shard, o.key, e.info)
	case 'E':
		e.has = core.IsDocExist(o.key)
	case 'I':
		core.AddInvertedIndexShard(o.shard)
	case 'K':
		e.kw = &types.KeywordIndices{DocIds: []uint64{uint64(e.inv)}}
		core.AddKeywordIndices(o.shard, o.key, e.kw)
	}
	r.clock++
	e.ret = r.clock
	return e
}

// keep notes the identity of the shards; none may be replaced later.
func (r *regRun) keep() string {
	for s, p := range r.ds {
		if core.DocInfoGroup[s] != p {
			return fmt.Sprintf("document shard %d was discarded or replaced", s)
		}
	}
	for s, p := range r.is {
		if core.InvertedIndexGroup[s] != p {
			return fmt.Sprintf("inverted-index shard %d was discarded or replaced", s)
		}
	}
	for s, p := range core.DocInfoGroup {
		r.ds[s] = p
	}
	for s, p := range core.InvertedIndexGroup {
		r.is[s] = p
	}
	return ""
}

// last: e is not followed by a later registration of the same key in the same shard.
func (r *regRun) last(e *regEv) bool {
	for _, x := range r.ev {
		if x.k == e.k && x.shard == e.shard && x.key == e.key && x.inv > e.ret {
			return false
		}
	}
	return true
}

func (r *regRun) judge() string {
	docs, kws := map[int]int{}, map[int]int{}
	dk, kk := map[string]bool{}, map[string]bool{}
	for _, e := range r.ev {
		switch e.k {
		case 'S':
			docs[e.shard] += 0
		case 'I':
			kws[e.shard] += 0
		case 'D':
			docs[e.shard]++
			dk[fmt.Sprint(e.shard, e.key)] = true
		case 'K':
			kws[e.shard]++
			kk[fmt.Sprint(e.shard, e.key)] = true
		case 'E':
			must, may := false, false
			for _, x := range r.ev {
				if x.k == 'D' && x.key == e.key {
					must = must || x.ret < e.inv
					may = may || x.inv < e.ret
				}
			}
			if e.has && !may || !e.has && must {
				return fmt.Sprintf("%s = %v", e.regOp, e.has)
			}
		}
	}
	if len(core.DocInfoGroup) != len(docs) || len(core.InvertedIndexGroup) != len(kws) {
		return fmt.Sprintf("%d document shards and %d inverted-index shards, want %d and %d", len(core.DocInfoGroup), len(core.InvertedIndexGroup), len(docs), len(kws))
	}
	n := 0
	for s, c := range docs {
		g := core.DocInfoGroup[s]
		if g == nil || g.DocInfos == nil {
			return fmt.Sprintf("document shard %d is missing", s)
		}
		if g.NumDocs != uint64(c) {
			return fmt.Sprintf("document shard %d counts %d registrations, want %d", s, g.NumDocs, c)
		}
		n += len(g.DocInfos)
	}
	if n != len(dk) {
		return fmt.Sprintf("%d document registrations kept, want %d", n, len(dk))
	}
	n = 0
	for s, c := range kws {
		g := core.InvertedIndexGroup[s]
		if g == nil || g.InvertedIndex == nil {
			return fmt.Sprintf("inverted-index shard %d is missing", s)
		}
		if g.TotalTokenLen != float32(c) {
			return fmt.Sprintf("inverted-index shard %d counts %v registrations, want %d", s, g.TotalTokenLen, c)
		}
		n += len(g.InvertedIndex)
	}
	if n != len(kk) {
		return fmt.Sprintf("%d keyword registrations kept, want %d", n, len(kk))
	}
	for _, e := range r.ev {
		if e.k != 'D' && e.k != 'K' {
			continue
		}
		ok := false
		for _, x := range r.ev {
			if x.k == e.k && x.shard == e.shard && x.key == e.key && r.last(x) {
				if e.k == 'D' && core.DocInfoGroup[e.shard].DocInfos[e.key] == x.info && x.info != nil && x.info.TokenLens == float32(x.inv) ||
					e.k == 'K' && core.InvertedIndexGroup[e.shard].InvertedIndex[e.key] == x.kw && x.kw != nil && len(x.kw.DocIds) == 1 {
					ok = true
				}
			}
		}
		if !ok {
			return fmt.Sprintf("the last registration by %s is not kept", e.regOp)
		}
	}
	return ""
}

var regMenu = []regOp{{k: 'S', shard: 0}, {k: 'S', shard: 1}, {k: 'D', shard: 0, key: "a"}, {k: 'D', shard: 0, key: "b"}, {k: 'D', shard: 1, key: "a"}, {k: 'D', shard: 1, key: "b"},
	{k: 'E', key: "a"}, {k: 'E', key: "b"}, {k: 'I', shard: 0}, {k: 'I', shard: 1}, {k: 'K', shard: 0, key: "a"}, {k: 'K', shard: 0, key: "b"}, {k: 'K', shard: 1, key: "a"}}

func c21(tier string) []rep.Part {
	ps := []rep.Part{{Name: "histories", Run: func(w *rep.W) {
		n := 4
		if tier == "thorough" {
			n = 5
		}
		w.St.Bound = fmt.Sprintf("%d operations", n)
		idx := make([]int, n)
		for {
			if w.Done() {
				return
			}
			if w.Next() {
				w.Case(func() string { return regStr(idx) }, func() string {
					r := newReg()
					for _, i := range idx {
						r.do(regMenu[i])
						if m := r.keep(); m != "" {
							return m
						}
						if m := r.judge(); m != "" {
							return m
						}
						w.Trans(1)
					}
					for _, k := range []string{"a", "b", "c"} {
						r.do(regOp{k: 'E', key: k})
					}
					w.Nontrivial()
					w.State(r.sig())
					return r.judge()
				})
			}
			i := n - 1
			for i >= 0 && idx[i] == len(regMenu)-1 {
				idx[i] = 0
				i--
			}
			if i < 0 {
				return
			}
			idx[i]++
		}
	}}}
	type sc struct {
		name string
		cls  [][]regOp
	}
	var ss []sc
	for i, a := range regMenu {
		for j := i; j < len(regMenu); j++ {
			ss = append(ss, sc{fmt.Sprintf("pair %s / %s", a, regMenu[j]), [][]regOp{{a}, {regMenu[j]}}})
		}
	}
	d := func(s int, k string) regOp { return regOp{k: 'D', shard: s, key: k} }
	kw := func(s int, k string) regOp { return regOp{k: 'K', shard: s, key: k} }
	ex := func(k string) regOp { return regOp{k: 'E', key: k} }
	sh := func(s int) regOp { return regOp{k: 'S', shard: s} }
	ish := func(s int) regOp { return regOp{k: 'I', shard: s} }
	ss = append(ss,
		sc{"three registering", [][]regOp{{d(0, "a"), d(0, "b")}, {d(0, "a"), ex("b")}, {sh(0), d(1, "a")}}},
		sc{"three registering keywords", [][]regOp{{kw(0, "a"), kw(0, "b")}, {kw(0, "a"), ish(0)}, {ish(0), kw(1, "a")}}},
		sc{"mixed", [][]regOp{{d(0, "a"), kw(0, "a")}, {kw(0, "a"), d(0, "a")}, {ex("a"), sh(0), ish(0)}}},
	)
	for _, s := range ss {
		s := s
		dev := 3
		if tier == "thorough" {
			dev = 6
		}
		ps = append(ps, rep.Part{Name: s.name, Run: func(w *rep.W) {
			expl.Run(w, expl.Scen{Bases: []int{0, 1, 4, 5}, Dev: dev, Race: true, Body: func() string {
				r := newReg()
				left := len(s.cls)
				mc.Explore(true)
				for _, c := range s.cls {
					c := c
					mc.Go(func() {
						for _, o := range c {
							r.do(o)
						}
						left--
					})
				}
				mc.Block("join", func() bool { return left == 0 })
				mc.Explore(false)
				if m := r.judge(); m != "" {
					mc.Fail(m)
				}
				return r.sig()
			}})
		}})
	}
	return ps
}

func regStr(idx []int) string {
	s := ""
	for _, i := range idx {
		s += regMenu[i].String() + "; "
	}
	return s
}

func (r *regRun) sig() string {
	s := ""
	for _, e := range r.ev {
		s += e.regOp.String()
		if e.k == 'E' {
			s += fmt.Sprint(e.has)
		}
	}
	return s
}
