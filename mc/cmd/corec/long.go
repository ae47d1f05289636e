package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"

	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"

	"vmc/rep"
)

// Long posting lists: the small scopes of the other parts never have lists of more than a few documents,
// so searching, inserting into and shrinking longer lists is explored here: every choice of document sets of
// a family for three keys, in several insertion orders and batches, with a set of documents removed in one
// batch and another added afterwards. Each property looks at its own side of the same indexes.

type docSet struct {
	name string
	has  func(i int) bool
}

// family is a set of structured document sets over n documents.
func family(n int) []docSet {
	fs := []docSet{
		{"all", func(i int) bool { return true }},
		{"none", func(i int) bool { return false }},
		{"first half", func(i int) bool { return i < n/2 }},
		{"second half", func(i int) bool { return i >= n/2 }},
		{"middle", func(i int) bool { return i >= n/3 && i <= 2*n/3 }},
		{"ends", func(i int) bool { return i < n/3 || i > 2*n/3 }},
		{"triangular", func(i int) bool { r := int(math.Sqrt(float64(2 * i))); return r*(r+1)/2 == i }},
	}
	for p := 2; p <= 8; p++ {
		for _, o := range []int{0, 1, p - 1} {
			if p == 2 && o == 1 && len(fs) > 8 {
				continue
			}
			p, o := p, o
			fs = append(fs, docSet{fmt.Sprintf("%d mod %d", o, p), func(i int) bool { return i%p == o }})
		}
	}
	for _, k := range []int{0, 1, n / 2, n - 2, n - 1} {
		k := k
		fs = append(fs, docSet{fmt.Sprintf("only %d", k), func(i int) bool { return i == k }},
			docSet{fmt.Sprintf("all but %d", k), func(i int) bool { return i != k }})
	}
	return fs
}

// subsets is every subset of n documents.
func subsets(n int) []docSet {
	var fs []docSet
	for m := 0; m < 1<<n; m++ {
		m := m
		fs = append(fs, docSet{fmt.Sprintf("set %b", m), func(i int) bool { return m>>i&1 == 1 }})
	}
	return fs
}

var lkeys = []string{"a", "bb", "c"}

type longCase struct {
	n       int
	sets    [3]docSet // documents of each key
	removed docSet
	readd   bool // a third of the removed documents comes back
	order   int
	cache   int
	it      int
	idl     []string // ids, ascending
	live    []bool
}

func (c *longCase) String() string {
	return fmt.Sprintf("%d documents, a: %s, bb: %s, c: %s, removed: %s (some again: %v), insertion order %d, cache %d, index type %d",
		c.n, c.sets[0].name, c.sets[1].name, c.sets[2].name, c.removed.name, c.readd, c.order, c.cache, c.it)
}

// freq and positions of key k in document d; every fifth document has the third key as a label only.
func (c *longCase) positions(d, k int) []int {
	if !c.sets[k].has(d) {
		return nil
	}
	if k == 2 && d%5 == 2 {
		return []int{}
	}
	ps := make([]int, 1+(d*3+k)%3)
	for j := range ps {
		ps[j] = (d*5+k*3)%11 + j*(3+d%4)
	}
	return ps
}

func (c *longCase) tlen(d int) int { return 1 + d*7%5 }

func (c *longCase) doc(d int) *types.DocIndex {
	x := &types.DocIndex{DocId: c.idl[d], TokenLen: float32(c.tlen(d))}
	for k := range lkeys {
		if ps := c.positions(d, k); ps != nil {
			x.Keywords = append(x.Keywords, types.KeywordIndex{Text: lkeys[k], Frequency: float32(len(ps)), Starts: ps})
		}
	}
	return x
}

func longIds(n int) []string {
	idl := make([]string, n)
	for i := range idl {
		idl[i] = strconv.Itoa(i + 1) // string order is not numeric order
	}
	sort.Strings(idl)
	return idl
}

func (c *longCase) build() *core.Indexer {
	ix := newIndexer(c.it, c.cache)
	c.live = make([]bool, c.n)
	at := func(i int) int {
		switch c.order {
		case 1:
			return c.n - 1 - i
		case 2:
			s := 7
			for c.n%s == 0 {
				s += 4
			}
			return i * s % c.n
		}
		return i
	}
	for i := 0; i < c.n; i++ {
		ix.AddDocToCache(c.doc(at(i)), false)
		c.live[at(i)] = true
	}
	ix.AddDocToCache(nil, true)
	for i := 0; i < c.n; i++ {
		if c.removed.has(at(i)) {
			ix.RemoveDocToCache(c.idl[at(i)], false)
			c.live[at(i)] = false
		}
	}
	ix.RemoveDocToCache("0", true)
	if c.readd {
		for i := 0; i < c.n; i++ {
			if d := at(i); !c.live[d] && d%3 == 1 {
				ix.AddDocToCache(c.doc(d), false)
				c.live[d] = true
			}
		}
		ix.AddDocToCache(nil, true)
	}
	return ix
}

func (c *longCase) key(s string) int {
	for k := range lkeys {
		if lkeys[k] == s {
			return k
		}
	}
	return -1
}

func (c *longCase) has(d int, s string) bool {
	k := c.key(s)
	return k >= 0 && c.live[d] && c.sets[k].has(d)
}

func (c *longCase) want(toks []string, filter map[string]bool) []int {
	var o []int
	for d := c.n - 1; d >= 0; d-- {
		ok := c.live[d]
		for _, t := range toks {
			ok = ok && c.has(d, t)
		}
		if filter != nil {
			_, in := filter[c.idl[d]]
			ok = ok && in
		}
		if ok {
			o = append(o, d)
		}
	}
	return o
}

var longQueries = [][]string{{"a"}, {"bb"}, {"a", "bb"}, {"bb", "a"}, {"c", "a"}, {"a", "c", "bb"}, {"c", "bb", "a"}, {"a", "bb", "a"}}

// keys01 looks at which documents are returned (C01).
func (c *longCase) keys01(w *rep.W, ix *core.Indexer) string {
	even := map[string]bool{}
	for d := 0; d < c.n; d += 2 {
		even[c.idl[d]] = true
	}
	for _, q := range longQueries {
		for _, f := range []map[string]bool{nil, even} {
			docs, n := ix.Lookup(q, nil, f, false)
			_, cnt := ix.Lookup(q, nil, f, true)
			want := c.want(q, f)
			if m := c.same(docs, want); m != "" {
				return fmt.Sprintf("keys %v, filter %v: %s", q, f != nil, m)
			}
			if n != len(want) || cnt != n {
				return fmt.Sprintf("keys %v, filter %v: reported %d and, counting only, %d of %d", q, f != nil, n, cnt, len(want))
			}
			if len(want) > 0 {
				w.Nontrivial()
			}
		}
	}
	w.Trans(4 * len(longQueries))
	return ""
}

func (c *longCase) same(docs []types.IndexedDoc, want []int) string {
	for i := 0; i < len(docs) || i < len(want); i++ {
		if i >= len(docs) || i >= len(want) || docs[i].DocId != c.idl[want[i]] {
			var ws []string
			for _, d := range want {
				ws = append(ws, c.idl[d])
			}
			return fmt.Sprintf("returned %v, want %v", ids(docs), ws)
		}
	}
	return ""
}

// logic02 looks at logical queries (C02).
func (c *longCase) logic02(w *rep.W, ix *core.Indexer) string {
	sets := [][]string{nil, {"a"}, {"bb"}, {"a", "c"}, {"c", "bb"}}
	for _, must := range sets {
		for _, should := range sets {
			for _, not := range [][]string{nil, {"a"}, {"c"}, {"bb", "c"}} {
				if len(must)+len(should) == 0 {
					continue
				}
				var want []int
				for d := c.n - 1; d >= 0; d-- {
					ok := c.live[d]
					for _, k := range must {
						ok = ok && c.has(d, k)
					}
					any := len(should) == 0
					for _, k := range should {
						any = any || c.has(d, k)
					}
					for _, k := range not {
						ok = ok && !c.has(d, k)
					}
					if ok && any {
						want = append(want, d)
					}
				}
				l := types.Logic{Must: len(must) > 0, Should: len(should) > 0, NotIn: len(not) > 0,
					Expr: types.Expr{Must: must, Should: should, NotIn: not}}
				if l.Must && l.Should && l.NotIn {
					l.Must, l.Should, l.NotIn = false, false, false
				}
				docs, n := ix.Lookup(nil, nil, nil, false, l)
				// no order is promised for logical queries
				sort.Slice(docs, func(i, j int) bool { return docs[i].DocId > docs[j].DocId })
				if m := c.same(docs, want); m != "" || n != len(want) {
					return fmt.Sprintf("must %v should %v not %v: %s (count %d of %d)", must, should, not, m, n, len(want))
				}
				if len(want) > 0 {
					w.Nontrivial()
				}
				w.Trans(1)
			}
		}
	}
	return ""
}

// bm03 looks at the scores (C03).
func (c *longCase) bm03(w *rep.W, ix *core.Indexer) string {
	n, total := 0, 0
	for d := range c.live {
		if c.live[d] {
			n++
			total += c.tlen(d)
		}
	}
	for _, q := range longQueries {
		docs, _ := ix.Lookup(q, nil, nil, false)
		want := c.want(q, nil)
		if m := c.same(docs, want); m != "" {
			return fmt.Sprintf("tokens %v: %s", q, m)
		}
		for i, d := range want {
			s, all := 0.0, true
			for _, t := range q {
				k := c.key(t)
				f := float64(len(c.positions(d, k)))
				if f == 0 {
					all = false
					continue
				}
				df := 0
				for e := range c.live {
					if c.has(e, t) {
						df++
					}
				}
				s += math.Log2(float64(n)/float64(df)+1) * f * 3 / (f + 2*(0.25+0.75*float64(c.tlen(d))/(float64(total)/float64(n))))
			}
			if !all && c.it == types.LocsIndex {
				continue
			}
			w.Nontrivial()
			if !close32(docs[i].BM25, s) {
				return fmt.Sprintf("tokens %v: document %s scored %v, want %v", q, c.idl[d], docs[i].BM25, s)
			}
		}
		w.Trans(1)
	}
	return ""
}

// pos04 looks at the positions (C04).
func (c *longCase) pos04(w *rep.W, ix *core.Indexer) string {
	for _, q := range longQueries {
		docs, _ := ix.Lookup(q, nil, nil, false)
		want := c.want(q, nil)
		if m := c.same(docs, want); m != "" {
			return fmt.Sprintf("tokens %v: %s", q, m)
		}
		for i, d := range want {
			all := true
			var ls [][]int
			for _, t := range q {
				ls = append(ls, c.positions(d, c.key(t)))
				all = all && len(ls[len(ls)-1]) > 0
			}
			x := docs[i]
			if !all {
				if x.TokenLocs != nil || x.TokenSnippetLocs != nil {
					return fmt.Sprintf("tokens %v: document %s has a token without positions but was returned with %v", q, x.DocId, x.TokenLocs)
				}
				continue
			}
			w.Nontrivial()
			if fmt.Sprint(x.TokenLocs) != fmt.Sprint(ls) {
				return fmt.Sprintf("tokens %v: document %s was returned with positions %v, recorded are %v", q, x.DocId, x.TokenLocs, ls)
			}
			sum, best := 0, minProx(ls, q, 0, 0)
			for j := range ls {
				in := false
				for _, p := range ls[j] {
					in = in || p == x.TokenSnippetLocs[j]
				}
				if !in {
					return fmt.Sprintf("tokens %v: document %s: snippet position %v is not a recorded one", q, x.DocId, x.TokenSnippetLocs)
				}
				if j > 0 {
					sum += absInt(x.TokenSnippetLocs[j] - x.TokenSnippetLocs[j-1] - len(q[j-1]))
				}
			}
			if int(x.TokenProximity) != best || sum != best {
				return fmt.Sprintf("tokens %v: document %s: proximity %d with snippet %v (sum %d), the minimum is %d", q, x.DocId, x.TokenProximity, x.TokenSnippetLocs, sum, best)
			}
		}
		w.Trans(1)
	}
	return ""
}

func longPart(name string, look func(*longCase, *rep.W, *core.Indexer) string, its []int, gen func(f func(c longCase))) rep.Part {
	return rep.Part{Name: name, Run: func(w *rep.W) {
		memo := map[int][]string{}
		gen(func(c longCase) {
			for _, it := range its {
				if w.Done() || !w.Next() {
					continue
				}
				c := c
				c.it = it
				if memo[c.n] == nil {
					memo[c.n] = longIds(c.n)
				}
				c.idl = memo[c.n]
				w.Case(c.String, func() string {
					if m := look(&c, w, c.build()); m != "" {
						return m
					}
					w.StateHash(uint64(c.n)<<32 ^ hashLive(c.live))
					return ""
				})
			}
		})
	}}
}

func hashLive(l []bool) (h uint64) {
	for _, b := range l {
		h *= 3
		if b {
			h++
		}
	}
	return
}

// structuredSets: pairs of family sets for two keys; the third key, removals, order and caches vary along.
func structuredSets(ns []int, full bool) func(f func(c longCase)) {
	return func(f func(c longCase)) {
		for _, n := range ns {
			fam := family(n)
			k := 0
			for ai, a := range fam {
				for bi, b := range fam {
					vars := []int{(ai*31 + bi*17) % 6}
					if full {
						vars = rng(0, 5)
					}
					for _, v := range vars {
						k++
						f(longCase{n: n, sets: [3]docSet{a, b, fam[(ai*5+bi*3+v*7)%len(fam)]}, removed: fam[[]int{1, 2, 4, 5, 7, 12}[v]],
							readd: v%2 == 1, order: k % 3, cache: []int{n + 1, 5, 1, 9}[k%4]})
					}
				}
			}
		}
	}
}

// everySubset: every subset of n documents for one key against a few sets of the other.
func everySubset(n int, removal bool) func(f func(c longCase)) {
	return func(f func(c longCase)) {
		fam := family(n)
		for si, s := range subsets(n) {
			for oi, o := range []docSet{fam[0], {"even", func(i int) bool { return i%2 == 0 }}, {"complement", func(i int) bool { return !s.has(i) }}, fam[4]} {
				if removal {
					// every subset is removed in one batch
					f(longCase{n: n, sets: [3]docSet{fam[0], o, fam[(si+oi)%len(fam)]}, removed: s, readd: oi%2 == 1, order: (si + oi) % 3, cache: []int{n + 1, 3}[si%2]})
				} else {
					f(longCase{n: n, sets: [3]docSet{s, o, fam[(si+oi)%len(fam)]}, removed: fam[1], order: (si + oi) % 3, cache: []int{n + 1, 3}[si%2]})
				}
			}
		}
	}
}

func longParts(tier string, its []int, look func(*longCase, *rep.W, *core.Indexer) string) []rep.Part {
	ps := []rep.Part{
		longPart("long-lists", look, its, structuredSets([]int{9, 14, 23, 34}, false)),
		longPart("every-key-set-of-10", look, its[len(its)-1:], everySubset(10, false)),
		longPart("every-removal-of-9", look, its, everySubset(9, true)),
	}
	if tier == "thorough" {
		ps = append(ps,
			longPart("long-lists-all-removals", look, its, structuredSets([]int{8, 11, 16, 17, 29, 33, 64, 65, 130}, true)),
			longPart("every-key-set-of-14", look, its[len(its)-1:], everySubset(14, false)),
			longPart("every-removal-of-12", look, its, everySubset(12, true)))
	}
	return ps
}
