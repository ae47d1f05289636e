package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"

	"vmc/rep"
)

// A document version: frequency per key, labels, total token length.
type ver struct {
	freq  []int // per key; 0: absent
	label []bool
	tlen  int
}

// versions per document slot: chosen so that lengths, frequencies and key sets all differ.
var vers = [][]ver{
	{{[]int{1, 0}, []bool{false, false}, 1}, {[]int{2, 3}, []bool{false, false}, 5}},
	{{[]int{3, 1}, []bool{false, false}, 7}, {[]int{0, 2}, []bool{true, false}, 2}},
	{{[]int{0, 0}, []bool{true, true}, 0}, {[]int{1, 1}, []bool{false, false}, 4}},
}

var vkeys = []string{"a", "b"}

func mkVer(id string, v ver) *types.DocIndex {
	d := &types.DocIndex{DocId: id, TokenLen: float32(v.tlen)}
	for k := range vkeys {
		if v.freq[k] > 0 {
			st := make([]int, v.freq[k])
			for i := range st {
				st[i] = i*7 + k*3
			}
			d.Keywords = append(d.Keywords, types.KeywordIndex{Text: vkeys[k], Frequency: float32(v.freq[k]), Starts: st})
		} else if v.label[k] {
			d.Keywords = append(d.Keywords, types.KeywordIndex{Text: vkeys[k], Starts: []int{}})
		}
	}
	return d
}

// bmOp is one operation of a history.
type bmOp struct {
	kind  int // 0 add, 1 remove, 2 flush
	doc   int
	ver   int
	force bool
}

func (o bmOp) String() string {
	f := ""
	if o.force {
		f = "!"
	}
	switch o.kind {
	case 0:
		return fmt.Sprintf("add%s(%d,v%d)", f, o.doc, o.ver)
	case 1:
		return fmt.Sprintf("rm%s(%d)", f, o.doc)
	}
	return "flush"
}

func opsString(h []bmOp) string {
	var s []string
	for _, o := range h {
		s = append(s, o.String())
	}
	return strings.Join(s, " ")
}

// bm25Model: live version per document (-1 none) and whether additions are pending.
func runBM(h []bmOp, it, cache int, par types.BM25Parameters) (*core.Indexer, []int, bool) {
	ix := &core.Indexer{}
	ix.Init(types.IndexerOpts{IndexType: it, DocCacheSize: cache, BM25Parameters: &par})
	live := []int{-1, -1, -1}
	pend := []bool{false, false, false}
	for _, o := range h {
		switch o.kind {
		case 0:
			live[o.doc] = o.ver
			pend[o.doc] = true
			ix.AddDocToCache(mkVer(fmt.Sprint(o.doc+1), vers[o.doc][o.ver]), o.force)
			if o.force {
				pend = []bool{false, false, false}
			}
		case 1:
			if pend[o.doc] {
				return nil, nil, false // removing a pending addition is unsupported
			}
			live[o.doc] = -1
			ix.RemoveDocToCache(fmt.Sprint(o.doc+1), o.force)
		case 2:
			ix.AddDocToCache(nil, true)
			pend = []bool{false, false, false}
		}
	}
	ix.AddDocToCache(nil, true)
	return ix, live, true
}

// bm25Want is the documented formula over the live documents.
func bm25Want(live []int, tokens []string, d int, par types.BM25Parameters) float64 {
	n, total := 0, 0
	for i, v := range live {
		if v >= 0 {
			n++
			total += vers[i][v].tlen
		}
	}
	avg := float64(total) / float64(n)
	if avg == 0 {
		return 0
	}
	s := 0.0
	for _, t := range tokens {
		k := strings.Index("ab", t)
		f := float64(vers[d][live[d]].freq[k])
		if f == 0 {
			continue
		}
		df := 0
		for i, v := range live {
			if v >= 0 && (vers[i][v].freq[k] > 0 || vers[i][v].label[k]) {
				df++
			}
		}
		idf := math.Log2(float64(n)/float64(df) + 1)
		k1, b := float64(par.K1), float64(par.B)
		s += idf * f * (k1 + 1) / (f + k1*(1-b+b*float64(vers[d][live[d]].tlen)/avg))
	}
	return s
}

func close32(a float32, b float64) bool {
	return math.Abs(float64(a)-b) <= 1e-4*(1+math.Abs(b))
}

func checkBM(w *rep.W, ix *core.Indexer, live []int, it int, par types.BM25Parameters) string {
	for _, q := range [][]string{{"a"}, {"b"}, {"a", "b"}, {"b", "a"}, {"a", "a"}} {
		for _, lab := range [][]string{nil, {"b"}} {
			docs, n := ix.Lookup(q, lab, nil, false)
			want := 0
			for d := 2; d >= 0; d-- {
				if live[d] < 0 {
					continue
				}
				v := vers[d][live[d]]
				ok := true
				for _, t := range append(append([]string{}, q...), lab...) {
					k := strings.Index("ab", t)
					ok = ok && (v.freq[k] > 0 || v.label[k])
				}
				if !ok {
					continue
				}
				if want >= len(docs) || docs[want].DocId != fmt.Sprint(d+1) {
					return fmt.Sprintf("query %v labels %v returned %v, missing document %d (live %v)", q, lab, ids(docs), d+1, live)
				}
				allPos := true
				for _, t := range q {
					allPos = allPos && v.freq[strings.Index("ab", t)] > 0
				}
				g := docs[want].BM25
				want++
				if it == types.LocsIndex && !allPos {
					continue // matches without positions carry no score with this index type
				}
				if e := bm25Want(live, q, d, par); !close32(g, e) {
					return fmt.Sprintf("query %v labels %v: document %d scored %v, want %v (live versions %v)", q, lab, d+1, g, e, live)
				}
				w.Nontrivial()
			}
			if n != want || len(docs) != want {
				return fmt.Sprintf("query %v labels %v reported %d/%d matches, want %d (live %v)", q, lab, n, len(docs), want, live)
			}
		}
	}
	return ""
}

func bmPart(name string, depth, ndocs int, forced bool, caches []int, pars []types.BM25Parameters) rep.Part {
	return rep.Part{Name: name, Run: func(w *rep.W) {
		var al []bmOp
		for d := 0; d < ndocs; d++ {
			for v := 0; v < 2; v++ {
				al = append(al, bmOp{0, d, v, false})
				if forced {
					al = append(al, bmOp{0, d, v, true})
				}
			}
			al = append(al, bmOp{1, d, 0, false})
			if forced {
				al = append(al, bmOp{1, d, 0, true})
			}
		}
		al = append(al, bmOp{kind: 2})
		for dep := 1; dep <= depth; dep++ {
			enum(w, len(al), dep, func(sel []int) {
				h := make([]bmOp, dep)
				for i, s := range sel {
					h[i] = al[s]
				}
				if dep > 1 && h[dep-1].kind == 2 {
					return // a final flush is always done
				}
				var it, cache int
				w.Case(func() string { return fmt.Sprintf("index type %d cache %d: %s flush", it, cache, opsString(h)) }, func() string {
					for _, it = range []int{types.FrequenciesIndex, types.LocsIndex} {
						for _, cache = range caches {
							for _, par := range pars {
								ix, live, ok := runBM(h, it, cache, par)
								if !ok {
									return ""
								}
								if m := checkBM(w, ix, live, it, par); m != "" {
									return m
								}
								w.State(fmt.Sprint(live, it, par))
								w.Trans(len(h) + 1)
							}
						}
					}
					return ""
				})
			})
		}
	}}
}

// enum enumerates all selections of length dep over n symbols that belong to this worker.
func enum(w *rep.W, n, dep int, f func(sel []int)) {
	sel := make([]int, dep)
	for !w.Done() {
		if w.Next() {
			f(sel)
		}
		i := dep - 1
		for ; i >= 0; i-- {
			sel[i]++
			if sel[i] < n {
				break
			}
			sel[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

func c03(tier string) []rep.Part {
	def := types.BM25Parameters{K1: 2, B: 0.75}
	ps := []rep.Part{
		bmPart("3docs-unforced-depth5", 5, 3, false, []int{100}, []types.BM25Parameters{def}),
		bmPart("2docs-forced-depth5", 5, 2, true, []int{3}, []types.BM25Parameters{def}),
		bmPart("3docs-depth3-parameters", 3, 3, true, []int{1, 2, 100}, []types.BM25Parameters{def, {K1: 1.2, B: 0}, {K1: 0, B: 1}, {K1: 0.5, B: 1}}),
	}
	if tier == "thorough" {
		ps = append(ps,
			bmPart("2docs-forced-depth6", 6, 2, true, []int{3}, []types.BM25Parameters{def}),
			bmPart("3docs-unforced-depth6", 6, 3, false, []int{2, 100}, []types.BM25Parameters{def}),
			bmPart("3docs-forced-depth5", 5, 3, true, []int{2}, []types.BM25Parameters{def}))
	}
	ps = append(ps, widePart("wide-queries", wideNs(tier), []int{types.FrequenciesIndex, types.LocsIndex}, wideBM03), bmSizes(tier))
	return append(ps, longParts(tier, []int{types.FrequenciesIndex, types.LocsIndex}, (*longCase).bm03)...)
}
