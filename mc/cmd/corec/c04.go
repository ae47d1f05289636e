package main

import (
	"fmt"
	"strings"

	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"

	"vmc/rep"
)

func absInt(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

// minProx is the minimum of sum |P(i+1)-P(i)-len(i)| by trying every choice.
func minProx(locs [][]int, toks []string, i, prev int) int {
	if i == len(locs) {
		return 0
	}
	best := -1
	for _, p := range locs[i] {
		c := 0
		if i > 0 {
			c = absInt(p - prev - len(toks[i-1]))
		}
		if best >= 0 && c >= best {
			continue
		}
		if v := c + minProx(locs, toks, i+1, p); best < 0 || v < best {
			best = v
		}
	}
	return best
}

// posCase puts every combination of position sets into one index and compares the whole answer of one query.
// masks enumerate the positions; mask 0 means the key is present without positions.
func posCase(w *rep.W, nkeys int, query []int, lens []int, bits, stride int, lab bool, cache int) string {
	letters := "abcd"
	keys := make([]string, nkeys)
	for k := range keys {
		keys[k] = strings.Repeat(letters[k:k+1], lens[k])
	}
	ix := &core.Indexer{}
	total := 1
	for k := 0; k < nkeys; k++ {
		total *= 1 << bits
	}
	if cache == 0 {
		cache = total + 1
	}
	ix.Init(types.IndexerOpts{IndexType: types.LocsIndex, DocCacheSize: cache, BM25Parameters: &types.BM25Parameters{K1: 2, B: 0.75}})
	locsOf := func(doc int) [][]int {
		ls := make([][]int, nkeys)
		for k := range ls {
			m := doc >> (k * bits) & (1<<bits - 1)
			ls[k] = []int{}
			for b := 0; b < bits; b++ {
				if m>>b&1 == 1 {
					ls[k] = append(ls[k], b*stride)
				}
			}
		}
		return ls
	}
	all := make([][][]int, total)
	for doc := 0; doc < total; doc++ {
		ls := locsOf(doc)
		all[doc] = ls
		d := &types.DocIndex{DocId: fmt.Sprintf("%08d", doc), TokenLen: 3}
		for k := range keys {
			d.Keywords = append(d.Keywords, types.KeywordIndex{Text: keys[k], Frequency: float32(len(ls[k])), Starts: append([]int{}, ls[k]...)})
		}
		if lab {
			d.Keywords = append(d.Keywords, types.KeywordIndex{Text: "label", Starts: []int{}})
		}
		ix.AddDocToCache(d, false)
	}
	ix.AddDocToCache(nil, true)
	var toks, labels []string
	for _, k := range query {
		toks = append(toks, keys[k])
	}
	if lab {
		labels = []string{"label"}
	}
	docs, n := ix.Lookup(toks, labels, nil, false)
	if n != total || len(docs) != total {
		return fmt.Sprintf("query %v returned %d of %d documents (count %d)", toks, len(docs), total, n)
	}
	ql := make([][]int, len(query))
	for i, d := range docs {
		doc := total - 1 - i
		if d.DocId != fmt.Sprintf("%08d", doc) {
			return fmt.Sprintf("query %v: result %d is %s, want %08d", toks, i, d.DocId, doc)
		}
		full := true
		for j, k := range query {
			ql[j] = all[doc][k]
			full = full && len(ql[j]) > 0
		}
		w.Trans(1)
		if !full {
			if d.TokenSnippetLocs != nil || d.TokenLocs != nil || d.TokenProximity != 0 {
				return fmt.Sprintf("tokens %v positions %v: a token has no position but position data was returned: %+v", toks, ql, d)
			}
			continue
		}
		w.Nontrivial()
		if len(d.TokenLocs) != len(query) || len(d.TokenSnippetLocs) != len(query) {
			return fmt.Sprintf("tokens %v positions %v: returned %+v", toks, ql, d)
		}
		for j := range ql {
			if fmt.Sprint(d.TokenLocs[j]) != fmt.Sprint(ql[j]) {
				return fmt.Sprintf("tokens %v positions %v: returned token positions %v", toks, ql, d.TokenLocs)
			}
			in := false
			for _, p := range ql[j] {
				in = in || p == d.TokenSnippetLocs[j]
			}
			if !in {
				return fmt.Sprintf("tokens %v positions %v: snippet position %v is not a recorded one", toks, ql, d.TokenSnippetLocs)
			}
		}
		best := minProx(ql, toks, 0, 0)
		sum := 0
		for j := 1; j < len(ql); j++ {
			sum += absInt(d.TokenSnippetLocs[j] - d.TokenSnippetLocs[j-1] - len(toks[j-1]))
		}
		if int(d.TokenProximity) != best || sum != best {
			return fmt.Sprintf("tokens %v positions %v: proximity %d with snippet %v (sum %d), the minimum is %d", toks, ql, d.TokenProximity, d.TokenSnippetLocs, sum, best)
		}
	}
	if len(query) > 0 {
		w.Outcome(fmt.Sprint(len(query), docs[0].TokenProximity, docs[0].TokenSnippetLocs))
	}
	return ""
}

func posPart(name string, nkeys, qlen, maxLen, bits int, strides []int, cache int, distinct bool) rep.Part {
	return rep.Part{Name: name, Run: func(w *rep.W) {
		nq, nl := 1, 1
		for i := 0; i < qlen; i++ {
			nq *= nkeys
		}
		for i := 0; i < nkeys; i++ {
			nl *= maxLen
		}
		for _, st := range strides {
			for l := 0; l < nl; l++ {
				for q := 0; q < nq; q++ {
					query := make([]int, qlen)
					used := 0
					for i, x := 0, q; i < qlen; i++ {
						query[i] = x % nkeys
						used |= 1 << query[i]
						x /= nkeys
					}
					if distinct && used != 1<<nkeys-1 {
						continue
					}
					if distinct {
						if q != firstPerm(query, nkeys) {
							continue
						}
					}
					lens := make([]int, nkeys)
					for i, x := 0, l; i < nkeys; i++ {
						lens[i] = 1 + x%maxLen
						x /= maxLen
					}
					for _, lab := range []bool{false, true} {
						if w.Done() {
							return
						}
						if !w.Next() {
							continue
						}
						w.Case(func() string {
							return fmt.Sprintf("query over keys %v, token lengths %v, %d positions, stride %d, label %v", query, lens, bits, st, lab)
						}, func() string { return posCase(w, nkeys, query, lens, bits, st, lab, cache) })
					}
				}
			}
		}
	}}
}

// firstPerm keeps only the identity order for the wide parts (other orders are relabelings of the positions).
func firstPerm(query []int, nkeys int) int {
	q, m := 0, 1
	for i := range query {
		q += (i % nkeys) * m
		m *= nkeys
	}
	return q
}

func c04(tier string) []rep.Part {
	ps := []rep.Part{
		posPart("1token-7positions", 1, 1, 3, 7, []int{1, 3}, 0, false),
		posPart("2tokens-6positions", 2, 2, 3, 6, []int{1, 2}, 0, false),
		posPart("3tokens-repeats-3positions", 2, 3, 3, 3, []int{1, 2}, 7, false),
		posPart("3tokens-4positions", 3, 3, 3, 4, []int{1, 3}, 0, true),
		posPart("4tokens-3positions", 4, 4, 2, 3, []int{1}, 0, true),
	}
	if tier == "thorough" {
		ps = append(ps,
			posPart("2tokens-8positions", 2, 2, 4, 8, []int{1, 2, 3}, 0, true),
			posPart("3tokens-6positions", 3, 3, 3, 6, []int{1, 2}, 0, true),
			posPart("4tokens-4positions", 4, 4, 3, 4, []int{1, 2}, 0, true))
	}
	ps = append(ps, widePart("wide-queries", wideNs(tier), []int{types.LocsIndex}, widePos04), posSizes(tier))
	return append(ps, longParts(tier, []int{types.LocsIndex}, (*longCase).pos04)...)
}
