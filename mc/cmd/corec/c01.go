package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"

	"vmc/rep"
)

// occurrence kinds of a key in a document
const (
	absent  = 0
	token   = 1 // has a position
	label   = 2 // no position
	token2  = 3 // two positions
	numKind = 4
)

var idxTypes = []int{types.DocIdsIndex, types.FrequenciesIndex, types.LocsIndex}

func newIndexer(it, cache int) *core.Indexer {
	var ix core.Indexer
	ix.Init(types.IndexerOpts{IndexType: it, DocCacheSize: cache, BM25Parameters: &types.BM25Parameters{K1: 2, B: 0.75}})
	return &ix
}

func mkDoc(id string, kinds []int, keys []string) *types.DocIndex {
	d := &types.DocIndex{DocId: id}
	n := 0
	for k, kd := range kinds {
		switch kd {
		case token:
			d.Keywords = append(d.Keywords, types.KeywordIndex{Text: keys[k], Frequency: 1, Starts: []int{4 * k}})
			n++
		case token2:
			d.Keywords = append(d.Keywords, types.KeywordIndex{Text: keys[k], Frequency: 2, Starts: []int{4 * k, 4*k + 20}})
			n += 2
		case label:
			d.Keywords = append(d.Keywords, types.KeywordIndex{Text: keys[k], Frequency: 0, Starts: []int{}})
		}
	}
	d.TokenLen = float32(n)
	return d
}

func ids(docs []types.IndexedDoc) []string {
	out := make([]string, len(docs))
	for i := range docs {
		out[i] = docs[i].DocId
	}
	return out
}

func eqStr(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type query struct {
	tokens, labels []string
	filter         map[string]bool
	count          bool
}

func (q query) String() string {
	var f []string
	for k := range q.filter {
		f = append(f, k)
	}
	sort.Strings(f)
	fs := "nil"
	if q.filter != nil {
		fs = "{" + strings.Join(f, ",") + "}"
	}
	return fmt.Sprintf("tokens=%v labels=%v docIds=%s countOnly=%v", q.tokens, q.labels, fs, q.count)
}

// seqs returns all sequences over al of length 0..n.
func seqs(al []string, n int) [][]string {
	out := [][]string{{}}
	prev := [][]string{{}}
	for i := 0; i < n; i++ {
		var next [][]string
		for _, p := range prev {
			for _, a := range al {
				next = append(next, append(append([]string{}, p...), a))
			}
		}
		out = append(out, next...)
		prev = next
	}
	return out
}

type corpus struct {
	keys  []string
	ids   []string // ascending
	kinds [][]int  // per doc; nil: document absent
}

func (c *corpus) has(d int, key string) bool {
	for k, s := range c.keys {
		if s == key {
			return c.kinds[d][k] != absent
		}
	}
	return false
}

func (c *corpus) String() string {
	var b strings.Builder
	for d, id := range c.ids {
		if c.kinds[d] == nil {
			continue
		}
		fmt.Fprintf(&b, "%s:", id)
		for k, kd := range c.kinds[d] {
			b.WriteString([]string{"", c.keys[k], c.keys[k] + "(label)", c.keys[k] + c.keys[k]}[kd])
		}
		b.WriteByte(' ')
	}
	return b.String()
}

// want is the boring reference: documents containing all keys, descending ids.
func (c *corpus) want(q query) []string {
	if len(q.tokens)+len(q.labels) == 0 {
		return nil
	}
	var out []string
	for d := len(c.ids) - 1; d >= 0; d-- {
		if c.kinds[d] == nil {
			continue
		}
		if q.filter != nil {
			if _, ok := q.filter[c.ids[d]]; !ok {
				continue
			}
		}
		ok := true
		for _, t := range q.tokens {
			ok = ok && c.has(d, t)
		}
		for _, t := range q.labels {
			ok = ok && c.has(d, t)
		}
		if ok {
			out = append(out, c.ids[d])
		}
	}
	return out
}

func checkLookup(ix *core.Indexer, c *corpus, q query) string {
	w := c.want(q)
	return rep.Guard(func() string {
		docs, n := ix.Lookup(q.tokens, q.labels, q.filter, q.count)
		if n != len(w) {
			return fmt.Sprintf("reported %d matches, want %d (%v)", n, len(w), w)
		}
		if q.count {
			if len(docs) != 0 {
				return fmt.Sprintf("count-only query returned documents %v", ids(docs))
			}
			return ""
		}
		if g := ids(docs); !eqStr(g, w) {
			return fmt.Sprintf("returned %v, want %v", g, w)
		}
		return ""
	})
}

func filters(idl []string, all bool) []map[string]bool {
	out := []map[string]bool{nil, {}}
	n := len(idl)
	for m := 1; m < 1<<n; m++ {
		if !all && !(m == 1<<n-1 || m&(m-1) == 0 || m == 5) {
			continue
		}
		f := map[string]bool{"zz": true}
		for i := 0; i < n; i++ {
			if m>>i&1 == 1 {
				f[idl[i]] = i%2 == 0 // the value must not matter
			}
		}
		out = append(out, f)
	}
	return out
}

// lookupPart enumerates corpora of nd docs over nk keys with the given kinds.
func lookupPart(name string, nd, nk, nkinds, maxTok, maxLab int, allFilters bool, its []int, insertion string) rep.Part {
	return rep.Part{Name: name, Run: func(w *rep.W) {
		keys := []string{"a", "b", "c", "d"}[:nk]
		// ids whose string order differs from numeric and insertion order
		idl := []string{"1", "10", "2", "30", "4", "7"}[:nd]
		qal := append(append([]string{}, keys...), "x")
		var qs []query
		for _, t := range seqs(qal, maxTok) {
			for _, l := range seqs(qal, maxLab) {
				for _, f := range filters(idl, allFilters) {
					qs = append(qs, query{t, l, f, false}, query{t, l, f, true})
				}
			}
		}
		per := 1
		for i := 0; i < nk; i++ {
			per *= nkinds
		}
		per++ // absent document
		total := 1
		for i := 0; i < nd; i++ {
			total *= per
		}
		for c0 := 0; c0 < total && !w.Done(); c0++ {
			if !w.Next() {
				continue
			}
			c := &corpus{keys: keys, ids: idl}
			x := c0
			for d := 0; d < nd; d++ {
				v := x % per
				x /= per
				if v == 0 {
					c.kinds = append(c.kinds, nil)
					continue
				}
				v--
				ks := make([]int, nk)
				for k := range ks {
					ks[k] = v % nkinds
					v /= nkinds
				}
				c.kinds = append(c.kinds, ks)
			}
			var cur query
			var it int
			w.Case(func() string { return fmt.Sprintf("index type %d, corpus %s, %s", it, c, cur) }, func() string {
				for _, it = range its {
					ix := newIndexer(it, 100)
					order := perm(nd, c0)
					for i, d := range order {
						if c.kinds[d] != nil {
							force := insertion == "each" || insertion == "mixed" && (c0>>uint(i))&1 == 1
							ix.AddDocToCache(mkDoc(idl[d], c.kinds[d], keys), force)
						}
					}
					ix.AddDocToCache(nil, true)
					for _, cur = range qs {
						if m := checkLookup(ix, c, cur); m != "" {
							return m
						}
						if len(c.want(cur)) > 0 {
							w.Nontrivial()
						}
					}
					w.Trans(len(qs))
				}
				return ""
			})
			w.State(c.String())
		}
	}}
}

// perm returns the k-th permutation (mod n!) of 0..n-1.
func perm(n, k int) []int {
	avail := make([]int, n)
	for i := range avail {
		avail[i] = i
	}
	var out []int
	for i := n; i > 0; i-- {
		j := k % i
		k /= i
		out = append(out, avail[j])
		avail = append(avail[:j], avail[j+1:]...)
	}
	return out
}

// orderPart: every insertion order and batching of a few corpora.
func orderPart(nd int) rep.Part {
	return rep.Part{Name: fmt.Sprintf("insertion-orders-%d", nd), Run: func(w *rep.W) {
		keys := []string{"a", "b"}
		idl := []string{"1", "10", "2", "30", "4", "7"}[:nd]
		fact := 1
		for i := 2; i <= nd; i++ {
			fact *= i
		}
		var qs []query
		for _, t := range seqs(keys, 2) {
			qs = append(qs, query{t, nil, nil, false})
		}
		total := 1
		for i := 0; i < nd; i++ {
			total *= 3
		}
		for c0 := 0; c0 < total && !w.Done(); c0++ {
			c := &corpus{keys: keys, ids: idl}
			x := c0
			for d := 0; d < nd; d++ {
				c.kinds = append(c.kinds, [][]int{{1, 0}, {0, 1}, {1, 1}}[x%3])
				x /= 3
			}
			for o := 0; o < fact && !w.Done(); o++ {
				for batch := 0; batch < 1<<(nd-1) && !w.Done(); batch++ {
					if !w.Next() {
						continue
					}
					var cur query
					w.Case(func() string {
						return fmt.Sprintf("corpus %s, insertion order %v, flush mask %b, %s", c, perm(nd, o), batch, cur)
					}, func() string {
						ix := newIndexer(types.LocsIndex, 100)
						for i, d := range perm(nd, o) {
							ix.AddDocToCache(mkDoc(idl[d], c.kinds[d], keys), i == nd-1 || batch>>uint(i)&1 == 1)
						}
						for _, cur = range qs {
							if m := checkLookup(ix, c, cur); m != "" {
								return m
							}
						}
						w.Trans(len(qs) + nd)
						w.Nontrivial()
						return ""
					})
				}
			}
		}
	}}
}

func c01(tier string) []rep.Part {
	ps := []rep.Part{
		lookupPart("3keys-4docs", 4, 3, 2, 2, 1, false, idxTypes, "mixed"),
		lookupPart("3keys-3docs-3tokens", 3, 3, 2, 3, 0, false, idxTypes, "mixed"),
		lookupPart("2keys-4docs-positions-and-labels", 4, 2, 3, 2, 1, false, []int{types.LocsIndex, types.FrequenciesIndex}, "mixed"),
		lookupPart("2keys-6docs", 6, 2, 2, 2, 0, false, []int{types.DocIdsIndex}, "mixed"),
		orderPart(4),
	}
	if tier == "thorough" {
		ps = append(ps,
			lookupPart("3keys-4docs-all-filters", 4, 3, 2, 3, 1, true, idxTypes, "mixed"),
			lookupPart("3keys-5docs", 5, 3, 2, 3, 0, false, []int{types.DocIdsIndex, types.LocsIndex}, "mixed"),
			lookupPart("4keys-3docs", 3, 4, 2, 4, 0, false, idxTypes, "each"),
			lookupPart("2keys-6docs-labels", 6, 2, 2, 2, 1, false, idxTypes, "each"),
			orderPart(5))
	}
	ps = append(ps, widePart("wide-queries", wideNs(tier), idxTypes, wideKeys01), filterSizes(map[bool]int{false: 70, true: 300}[tier == "thorough"]))
	return append(ps, longParts(tier, idxTypes, (*longCase).keys01)...)
}
