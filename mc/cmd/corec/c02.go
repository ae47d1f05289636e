package main

import (
	"fmt"
	"sort"

	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"

	"vmc/rep"
)

type lquery struct {
	query
	logic types.Logic
}

func (q lquery) String() string {
	l := q.logic
	return fmt.Sprintf("%s flags(must=%v should=%v notin=%v) expr(must=%v should=%v notin=%v)",
		q.query, l.Must, l.Should, l.NotIn, l.Expr.Must, l.Expr.Should, l.Expr.NotIn)
}

// clauses returns the effective clause keys and whether the query has a positive clause.
func (q lquery) clauses() (must, should, not []string, positive bool) {
	kw := append(append([]string{}, q.tokens...), q.labels...)
	pick := func(flag bool, expr []string) []string {
		if len(expr) > 0 {
			return expr
		}
		if flag {
			return kw
		}
		return nil
	}
	l := q.logic
	must, should, not = pick(l.Must, l.Expr.Must), pick(l.Should, l.Expr.Should), pick(l.NotIn, l.Expr.NotIn)
	return must, should, not, len(must) > 0 || len(should) > 0
}

// wantLogic returns the set of matching documents (sorted ascending).
func wantLogic(c *corpus, removed map[int]bool, q lquery, useFilter bool) []string {
	must, should, not, _ := q.clauses()
	var out []string
	for d := range c.ids {
		if c.kinds[d] == nil || removed[d] {
			continue
		}
		if useFilter && q.filter != nil {
			if _, ok := q.filter[c.ids[d]]; !ok {
				continue
			}
		}
		ok := true
		for _, k := range must {
			ok = ok && c.has(d, k)
		}
		if len(should) > 0 {
			any := false
			for _, k := range should {
				any = any || c.has(d, k)
			}
			ok = ok && any
		}
		for _, k := range not {
			ok = ok && !c.has(d, k)
		}
		if ok {
			out = append(out, c.ids[d])
		}
	}
	return out
}

const fShouldFilter = "C02-should-docids"

func checkLogic(w *rep.W, ix *core.Indexer, c *corpus, removed map[int]bool, q lquery) string {
	return rep.Guard(func() string {
		docs, n := ix.Lookup(q.tokens, q.labels, q.filter, q.count, q.logic)
		must, should, _, positive := q.clauses()
		if !positive {
			for _, d := range docs { // only required not to crash and not to return removed documents
				for i, id := range c.ids {
					if id == d.DocId && (removed[i] || c.kinds[i] == nil) {
						return "returned the removed document " + id
					}
				}
			}
			return ""
		}
		want := wantLogic(c, removed, q, true)
		got := ids(docs)
		sort.Strings(got)
		cmp := func(want []string) string {
			if n != len(want) {
				return fmt.Sprintf("reported %d matches, want %d (%v)", n, len(want), want)
			}
			if q.count {
				if len(got) != 0 {
					return fmt.Sprintf("count-only query returned documents %v", got)
				}
				return ""
			}
			if !eqStr(got, want) {
				return fmt.Sprintf("returned %v, want %v", got, want)
			}
			return ""
		}
		m := cmp(want)
		if m != "" && q.filter != nil && len(must) == 0 && len(should) > 0 && rep.IsKnown(fShouldFilter) &&
			cmp(wantLogic(c, removed, q, false)) == "" {
			w.KnownFinding(fShouldFilter)
			return ""
		}
		if m == "" && len(want) > 0 {
			w.Nontrivial()
		}
		return m
	})
}

func logicQueries(small bool) []lquery {
	musts := [][]string{nil, {"a"}, {"b"}, {"a", "b"}, {"x"}, {"a", "x"}}
	shoulds := [][]string{nil, {"b"}, {"b", "c"}, {"x"}, {"x", "b"}}
	nots := [][]string{nil, {"c"}, {"b"}, {"x"}, {"a", "c"}}
	toks := [][]string{{}, {"a"}, {"b", "a"}, {"x"}}
	labs := [][]string{{}, {"c"}}
	fs := []map[string]bool{nil, {"1": true, "2": false, "30": false}}
	if small {
		musts, shoulds, nots = musts[:4], shoulds[:3], nots[:3]
		toks = toks[:3]
	}
	var out []lquery
	for fl := 0; fl < 8; fl++ {
		for _, m := range musts {
			for _, s := range shoulds {
				for _, n := range nots {
					for _, t := range toks {
						for _, l := range labs {
							for _, f := range fs {
								for _, cnt := range []bool{false, true} {
									out = append(out, lquery{query{t, l, f, cnt},
										types.Logic{Must: fl&1 != 0, Should: fl&2 != 0, NotIn: fl&4 != 0,
											Expr: types.Expr{Must: m, Should: s, NotIn: n}}})
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

func logicPart(name string, nd int, its []int, small, replaced bool) rep.Part {
	return rep.Part{Name: name, Run: func(w *rep.W) {
		keys := []string{"a", "b", "c"}
		idl := []string{"1", "10", "2", "30"}[:nd]
		qs := logicQueries(small)
		total := 1
		for i := 0; i < nd; i++ {
			total *= 8
		}
		for c0 := 0; c0 < total && !w.Done(); c0++ {
			// pending: -1 none, d: removal of d still cached; nd: all removals cached
			for pend := -1; pend <= nd && !w.Done(); pend++ {
				if !w.Next() {
					continue
				}
				c := &corpus{keys: keys, ids: idl}
				x := c0
				for d := 0; d < nd; d++ {
					v := x % 8
					x /= 8
					c.kinds = append(c.kinds, []int{v & 1, v >> 1 & 1, v >> 2 & 1})
				}
				var cur lquery
				var it int
				w.Case(func() string {
					return fmt.Sprintf("index type %d, corpus %s, pending removal %d, %s", it, c, pend, cur)
				}, func() string {
					for _, it = range its {
						ix := newIndexer(it, 100)
						for i, d := range perm(nd, c0) {
							ix.AddDocToCache(mkDoc(idl[d], c.kinds[d], keys), i == nd-1)
						}
						removed := map[int]bool{}
						if pend == nd {
							for d := 0; d < nd; d += 2 {
								ix.RemoveDocToCache(idl[d], false)
								removed[d] = true
							}
						} else if pend >= 0 {
							ix.RemoveDocToCache(idl[pend], false)
							removed[pend] = true
							if replaced && pend%2 == 1 {
								ix.RemoveDocToCache(idl[0], true) // flushes the removals
								removed[0] = true
							}
						}
						for _, cur = range qs {
							if m := checkLogic(w, ix, c, removed, cur); m != "" {
								return m
							}
						}
						w.Trans(len(qs))
					}
					return ""
				})
				w.State(c.String(), fmt.Sprint(pend))
			}
		}
	}}
}

func c02(tier string) []rep.Part {
	ps := []rep.Part{
		logicPart("3docs-all-queries", 3, []int{types.DocIdsIndex}, false, true),
		logicPart("2docs-all-types", 2, idxTypes, false, false),
	}
	if tier == "thorough" {
		ps = append(ps,
			logicPart("3docs-all-queries-all-types", 3, idxTypes, false, true),
			logicPart("4docs", 4, []int{types.DocIdsIndex}, true, true))
	}
	ps = append(ps, widePart("wide-queries", wideNs(tier), []int{types.DocIdsIndex, types.LocsIndex}, wideLogic02))
	return append(ps, longParts(tier, []int{types.DocIdsIndex}, (*longCase).logic02)...)
}
