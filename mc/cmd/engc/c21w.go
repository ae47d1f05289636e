package main

import (
	"fmt"
	"math"

	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"

	"vmc/rep"
)

// c21wide: many shards (also negative and far apart), many keys and many registrations of one key.
func c21wide(tier string) []rep.Part {
	th := tier == "thorough"
	max, ns := 40, mul(40, 1, 100, 255, 256, 257, 600)
	if th {
		max, ns = 150, mul(300, 1, 1000, 4097, 70000)
	}
	ps := []rep.Part{
		{Name: fmt.Sprintf("many shards %d", max), Run: func(w *rep.W) {
			w.St.Bound = fmt.Sprintf("1 to %d shards numbered from 0, from -5, and far apart; 9 keys in each", max)
			for n := 1; n <= max; n++ {
				for kind := 0; kind < 3; kind++ {
					if w.Done() || !w.Next() {
						continue
					}
					var sh []int
					for i := 0; i < n; i++ {
						sh = append(sh, []int{i, i - 5, (i%2*2 - 1) * (math.MaxInt/64*(i%64) - i)}[kind])
					}
					w.Case(func() string { return fmt.Sprintf("shards %v", sh) }, func() string { return regBulk(w, sh, 9, 2) })
				}
			}
		}},
		{Name: fmt.Sprintf("many keys %d", len(ns)), Run: func(w *rep.W) {
			w.St.Bound = fmt.Sprintf("%d numbers of keys up to %d, in three shards", len(ns), ns[len(ns)-1])
			for _, n := range ns {
				if w.Done() || !w.Next() {
					continue
				}
				w.Case(func() string { return fmt.Sprintf("%d keys in each of three shards", n) }, func() string { return regBulk(w, []int{0, 1, 7}, n, 3) })
			}
		}},
		{Name: "registrations of one shard", Run: func(w *rep.W) {
			l := []int{1000, 65537, 1 << 24, 1<<24 + 1, 1<<24 + 3}
			w.St.Bound = fmt.Sprintf("%v registrations", l)
			for _, n := range l {
				for kind := 0; kind < 2; kind++ {
					if w.Done() || !w.Next() {
						continue
					}
					w.Case(func() string { return fmt.Sprintf("%d registrations of one key, kind %d", n, kind) }, func() string {
						newReg()
						w.Trans(n)
						w.Nontrivial()
						w.State(fmt.Sprint(n, kind))
						if kind == 0 {
							in := &types.DocInfo{}
							for i := 0; i < n; i++ {
								core.AddDocInfo(3, "a", in)
							}
							if g := core.DocInfoGroup[3]; g.NumDocs != uint64(n) {
								return fmt.Sprintf("document shard counts %d registrations, want %d", g.NumDocs, n)
							}
							return ""
						}
						in := &types.KeywordIndices{}
						for i := 0; i < n; i++ {
							core.AddKeywordIndices(3, "a", in)
						}
						if g := core.InvertedIndexGroup[3]; g.TotalTokenLen != float32(n) || float64(g.TotalTokenLen) != float64(n) {
							const id = "C21-keyword-total"
							if n > 1<<24 && g.TotalTokenLen == 1<<24 && rep.IsKnown(id) {
								w.KnownFinding(id)
								return ""
							}
							return fmt.Sprintf("inverted-index shard counts %v registrations, want %d", float64(g.TotalTokenLen), n)
						}
						return ""
					})
				}
			}
		}},
	}
	return ps
}

// regBulk registers every key in every shard rounds times, queries in between, and compares the registries.
func regBulk(w *rep.W, shards []int, keys, rounds int) string {
	r := newReg()
	key := func(i int) string { return fmt.Sprintf("key%d", i*i) }
	docs := map[int]map[string]*types.DocInfo{}
	kws := map[int]map[string]*types.KeywordIndices{}
	for round := 0; round < rounds; round++ {
		for i, s := range shards {
			if round == 0 {
				docs[s], kws[s] = map[string]*types.DocInfo{}, map[string]*types.KeywordIndices{}
			}
			if (i+round)%3 == 0 {
				core.AddDocInfosShard(s)
				core.AddInvertedIndexShard(s)
			}
			for k := 0; k < keys; k++ {
				own := fmt.Sprint(s, "-", k)
				for _, x := range []string{key(k), own} {
					if round == 0 && x == own && core.IsDocExist(own) {
						return fmt.Sprintf("%s exists before it is registered", own)
					}
					d, kw := &types.DocInfo{TokenLens: float32(round*1000 + k)}, &types.KeywordIndices{}
					docs[s][x], kws[s][x] = d, kw
					core.AddDocInfo(s, x, d)
					core.AddKeywordIndices(s, x, kw)
					if !core.IsDocExist(x) {
						return fmt.Sprintf("%s does not exist after its registration in shard %d", x, s)
					}
					w.Trans(3)
				}
			}
			core.AddDocInfosShard(s)
			core.AddInvertedIndexShard(s)
			if m := r.keep(); m != "" {
				return m
			}
		}
	}
	if len(core.DocInfoGroup) != len(docs) || len(core.InvertedIndexGroup) != len(kws) {
		return fmt.Sprintf("%d document shards and %d inverted-index shards, want %d", len(core.DocInfoGroup), len(core.InvertedIndexGroup), len(docs))
	}
	for _, s := range shards {
		g, h := core.DocInfoGroup[s], core.InvertedIndexGroup[s]
		if g == nil || h == nil {
			return fmt.Sprintf("shard %d is missing", s)
		}
		n := rounds * keys * 2
		if len(g.DocInfos) != len(docs[s]) || len(h.InvertedIndex) != len(kws[s]) || g.NumDocs != uint64(n) || h.TotalTokenLen != float32(n) {
			return fmt.Sprintf("shard %d holds %d documents and %d keywords with totals %d and %v, want %d, %d, %d, %d", s, len(g.DocInfos), len(h.InvertedIndex), g.NumDocs, h.TotalTokenLen, len(docs[s]), len(kws[s]), n, n)
		}
		for x, d := range docs[s] {
			if g.DocInfos[x] != d || h.InvertedIndex[x] != kws[s][x] {
				return fmt.Sprintf("shard %d does not hold the last registration of %s", s, x)
			}
			if !core.IsDocExist(x) {
				return fmt.Sprintf("%s does not exist", x)
			}
		}
	}
	if core.IsDocExist("nobody") || core.IsDocExist("") {
		return "a document that was never registered exists"
	}
	w.Nontrivial()
	w.State(fmt.Sprint(shards, keys, rounds))
	w.Outcome(fmt.Sprintf("%d shards", len(shards)))
	return ""
}
