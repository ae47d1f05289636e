package main

import (
	"fmt"
	"math"
	"time"

	"github.com/go-ego/riot/types"

	"vmc/mc"
	"vmc/rep"
)

// c13wide: scoring takes time (on the virtual clock), for every number of shards, document count, slow
// document and timeout of the grid: a search ends in time and says truthfully whether it is complete.
func c13wide(tier string) []rep.Part {
	th := tier == "thorough"
	ps := append(append(busyTimed(), timedRequests()...), partialRequests()...)
	shards := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 33}
	if th {
		shards = mul(40, 1)
	}
	timeouts := []int{1, 2, 3, 5, 10, 16, 100, 999, 1000, 1001, 2147, 2148, 4294, 4295, 4999, 5000, 5001, 10000, 32767, 32768, 60000, 65535, 65536, 3600000, 86400000, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32 + 1, 1e12}
	for _, ids := range []bool{false, true} {
		for _, sh := range shards {
			c := small().sh(sh)
			if ids {
				c = c.ids()
			}
			ps = append(ps, slowPart(fmt.Sprintf("slow scoring, %d shards, ids %v", sh, ids), c, 6, timeouts))
		}
		c := small().sh(3).th(2).sg(2)
		c.idOnly = ids
		for _, n := range []int{1, 17, 40} {
			ps = append(ps, slowPart(fmt.Sprintf("slow scoring, %d documents, ids %v", n, ids), c, n, []int{1, 7, 2148, 60000}))
		}
		ps = append(ps, hugePart(fmt.Sprintf("timeouts without an end, ids %v", ids), c))
	}
	return ps
}

// slowCase runs the searches on an engine with slow documents; want tells whether the answer must be complete
// (1), must be marked (2), or may be either (0).
func slowCase(c cfg, n, timeout, base int, slow map[string]time.Duration, want int) (string, string) {
	theDisk = newDisk()
	slowDocs = nil
	defer func() { slowDocs = nil }()
	r := &run{c: c, timed: true}
	r.e = c.open()
	for i := 0; i < n; i++ {
		r.do(version(docID(i), 1))
	}
	r.do(fl())
	slowDocs = slow
	first := r.do(tm(se("k"), timeout))
	for _, o := range []op{tm(ct("k"), timeout), tm(ol("k"), timeout), tm(se("none"), timeout)} {
		if want == 1 {
			if ev := r.do(o); ev.ans.timeout {
				return fmt.Sprintf("%s with timeout %d is marked although no shard is slow", o, timeout), ""
			}
		}
	}
	if want == 1 && first.ans.timeout {
		return fmt.Sprintf("a search with timeout %d ms is marked although every shard answers in time", timeout), ""
	}
	if want == 2 && !first.ans.timeout {
		return fmt.Sprintf("a search with timeout %d ms is not marked although a shard needs longer", timeout), ""
	}
	slowDocs = nil
	r.do(se("k"))
	r.do(ct("k"))
	r.do(tm(se("k"), -1))
	r.do(version(docID(0), 2))
	r.do(fl())
	r.do(se("k"))
	r.do(se(docID(0) + "2"))
	if m := r.judgeFast(); m != "" {
		return m, ""
	}
	return "", r.digest()
}

func slowPart(name string, c cfg, n int, timeouts []int) rep.Part {
	return rep.Part{Name: name, Run: func(w *rep.W) {
		mkScratch()
		w.St.Bound = fmt.Sprintf("%d timeouts, %d documents, no, each and every document slow, four base orders", len(timeouts), n)
		for _, T := range timeouts {
			ms := time.Duration(T) * time.Millisecond
			try := func(what string, slow map[string]time.Duration, want int) {
				for base := 0; base < 4; base++ {
					if w.Done() || !w.Next() {
						continue
					}
					w.Case(func() string {
						return fmt.Sprintf("[%v] %d documents, timeout %d ms, %s, order %d", c, n, T, what, base)
					}, func() string {
						m, dig := "", ""
						r := mc.Run(mc.Config{Base: base, MaxSteps: 1000000}, func() { m, dig = slowCase(c, n, T, base, slow, want) })
						w.Trans(r.Steps)
						if r.Viol != "" {
							return r.Viol
						}
						if m == "" {
							w.Nontrivial()
							w.StateHash(r.Trace)
							w.Outcome(fmt.Sprintf("%x", mc.Hash(dig)))
						}
						return m
					})
				}
			}
			all := func(d time.Duration) map[string]time.Duration {
				m := map[string]time.Duration{}
				for i := 0; i < n; i++ {
					m[docID(i)] = d
				}
				return m
			}
			try("no delay", nil, 1)
			try("all documents together take half the time", all(ms/time.Duration(2*n)), 1)
			try("every document takes twice the time", all(2*ms), 2)
			for i := 0; i < n; i++ {
				try(fmt.Sprintf("document %d takes three times the timeout", i), map[string]time.Duration{docID(i): 3 * ms}, 2)
				if n > 8 && i%5 > 0 {
					continue
				}
				try(fmt.Sprintf("document %d takes nine tenths of the timeout", i), map[string]time.Duration{docID(i): ms / 10 * 9}, 1)
			}
		}
	}}
}

// hugePart: timeouts that no clock reaches.
func hugePart(name string, c cfg) rep.Part {
	return rep.Part{Name: name, Run: func(w *rep.W) {
		mkScratch()
		for _, T := range []int{9000000000000, 9223372036854, 9223372036855, 1 << 53, math.MaxInt64 / 1000, math.MaxInt64 - 1, math.MaxInt64} {
			for base := 0; base < 4; base++ {
				if w.Done() || !w.Next() {
					continue
				}
				w.Case(func() string { return fmt.Sprintf("[%v] timeout %d ms, order %d", c, T, base) }, func() string {
					m, dig := "", ""
					r := mc.Run(mc.Config{Base: base, MaxSteps: 1000000}, func() {
						theDisk = newDisk()
						r := &run{c: c}
						r.e = c.open()
						for i := 0; i < 5; i++ {
							r.do(version(docID(i), 1))
						}
						r.do(fl())
						slowDocs = map[string]time.Duration{docID(1): time.Hour, docID(2): time.Second, docID(3): time.Minute}
						defer func() { slowDocs = nil }()
						for _, o := range []op{tm(se("k"), T), tm(ct("k"), T), tm(ol("k"), T)} {
							if ev := r.do(o); ev.ans.timeout {
								m = fmt.Sprintf("%s with timeout %d is marked after less than a day", o, T)
								return
							}
						}
						m, dig = r.judgeFast(), r.digest()
					})
					w.Trans(r.Steps)
					if r.Viol != "" {
						return r.Viol
					}
					if m == "" {
						w.Nontrivial()
						w.StateHash(r.Trace)
						w.Outcome(dig)
					}
					return m
				})
			}
		}
	}}
}

// busyTimed: crowded histories whose searches all have a timeout.
func busyTimed() []rep.Part {
	s := small()
	qs := [2]int{30, 200}
	var ps []rep.Part
	for _, n := range []int{6, 14} {
		for _, t := range []int{1, 1000} {
			ps = append(ps,
				busy(fmt.Sprintf("three clients, %d documents, timeout %d, one shard", n, t), s, n, t, false, qs),
				busy(fmt.Sprintf("three clients, %d documents, timeout %d, seven shards", n, t), s.sh(7).th(2), n, t, false, qs),
				busy(fmt.Sprintf("three clients, %d documents, timeout %d, ids", n, t), s.sh(3).ids().bf(2), n, t, false, qs))
		}
	}
	return ps
}

// timedRequests: the request grid of C08, every request with a timeout that no shard reaches.
func timedRequests() []rep.Part {
	s := small()
	var ps []rep.Part
	for _, c := range []cfg{s, s.sh(2), s.sh(3).ids(), s.sh(2).ids().it(types.DocIdsIndex), s.sh(5), s.sh(9).th(2)} {
		c := c
		ps = append(ps, rep.Part{Name: fmt.Sprintf("requests with a timeout [%v]", c), Run: func(w *rep.W) {
			w.St.Bound = "three documents of four kinds, every request of the grid"
			corpora(3, []int{1, 3, 6, 4}, func(ds []kdoc) {
				if w.Done() || !w.Next() {
					return
				}
				k := &kcase{c: kcfg{cfg: c}, docs: ds, qs: allQueries, wins: windows([]int{0, 1, 2, 4}, []int{0, 1, 2, math.MaxInt}), tmo: 60000}
				w.Case(func() string { return fmt.Sprintf("[%v] timeout 60 s, corpus %+v", c, ds) }, func() string { return k.run(w, int(w.St.Cases)%2) })
			})
		}})
	}
	return ps
}

// partialRequests: one document is slow; whatever the window, order and criterion, the answer is marked and
// is the window of a scored and ordered subset.
func partialRequests() []rep.Part {
	s := small()
	var ps []rep.Part
	const n, T = 6, 10
	for _, c := range []cfg{s, s.sh(2), s.sh(3), s.sh(4).ids(), s.sh(7), s.sh(7).ids()} {
		c := c
		ps = append(ps, rep.Part{Name: fmt.Sprintf("partial answers [%v]", c), Run: func(w *rep.W) {
			w.St.Bound = fmt.Sprintf("%d documents, each one slow, every window, order and criterion", n)
			for slow := 0; slow < n; slow++ {
				for base := 0; base < 4; base++ {
					if w.Done() || !w.Next() {
						continue
					}
					w.Case(func() string { return fmt.Sprintf("[%v] document %d is slow, order %d", c, slow, base) }, func() string {
						m := ""
						asked := 0
						r := mc.Run(mc.Config{Base: base, MaxSteps: 4000000}, func() { m = partialCase(c, n, T, slow, &asked) })
						w.Trans(r.Steps)
						if r.Viol != "" {
							return r.Viol
						}
						if m == "" {
							w.Nontrivial()
							w.StateHash(r.Trace)
							w.Outcome(fmt.Sprintf("%d requests", asked))
						}
						return m
					})
				}
			}
		}})
	}
	return ps
}

func partialCase(c cfg, n, T, slow int, asked *int) string {
	slowDocs = nil
	defer func() { slowDocs = nil }()
	e := c.open()
	perm := []float32{4, 1, 7, 2, 9, 5, 8, 10}
	var docs []kdoc
	for i := 0; i < n; i++ {
		d := kdoc{id: docID(i), x: true, score: perm[i]}
		docs = append(docs, d)
		e.Index(d.id, d.data())
	}
	e.Flush()
	ms := time.Duration(T) * time.Millisecond
	slowDocs = map[string]time.Duration{docID(slow): 3 * ms}
	for _, wn := range windows([]int{0, 1, 3, 6, 7}, []int{0, 1, 2, 6, math.MaxInt}) {
		for _, rev := range []bool{false, true} {
			for _, cr := range []types.ScoringCriteria{nil, odd{}} {
				*asked++
				_, isOdd := cr.(odd)
				what := fmt.Sprintf("window (%d,%d) reverse=%v criterion %T", wn[0], wn[1], rev, cr)
				mc.Nap(20 * ms)
				start := mc.Now()
				r := e.Search(types.SearchReq{Tokens: []string{"x"}, Timeout: T, RankOpts: &types.RankOpts{ScoringCriteria: cr, ReverseOrder: rev, OutputOffset: wn[0], MaxOutputs: wn[1]}})
				took := mc.Since(start)
				a := touchDocs(r, c.idOnly)
				if a.bad != "" {
					return what + ": " + a.bad
				}
				if isOdd { // scores at once
					if a.timeout {
						return what + ": marked although nothing is slow"
					}
				} else if !a.timeout {
					return fmt.Sprintf("%s: not marked after %v", what, took)
				} else if took < ms-ms/10 || took > ms+ms/2 {
					return fmt.Sprintf("%s: timed out after %v", what, took)
				}
				// the subset before the window
				all := map[string]kdoc{}
				for _, d := range docs {
					if len(oddScore(isOdd, d)) > 0 {
						all[d.id] = d
					}
				}
				if a.n < 0 || a.n > len(all) {
					return fmt.Sprintf("%s: reports %d documents of %d", what, a.n, len(all))
				}
				left := a.n - wn[0]
				if left < 0 {
					left = 0
				}
				if wn[1] > 0 && left > wn[1] {
					left = wn[1]
				}
				if len(a.hits) != left {
					return fmt.Sprintf("%s: %d documents returned, %d reported", what, len(a.hits), a.n)
				}
				seen := map[string]bool{}
				for i, h := range a.hits {
					d, ok := all[h.id]
					if !ok || seen[h.id] {
						return fmt.Sprintf("%s: returns %s (again: %v)", what, h.id, seen[h.id])
					}
					seen[h.id] = true
					if fmt.Sprint(h.scores) != fmt.Sprint(oddScore(isOdd, d)) {
						return fmt.Sprintf("%s: %s has scores %v", what, h.id, h.scores)
					}
					if x := d.data(); !c.idOnly && (h.content != x.Content || h.f != x.Fields || h.attri != x.Attri) {
						return fmt.Sprintf("%s: %s comes with foreign data", what, h.id)
					}
					if i > 0 {
						p := all[a.hits[i-1].id]
						x, y := oddScore(isOdd, p), oddScore(isOdd, d)
						if rev {
							x, y = y, x
						}
						if lexLess(x, y) {
							return fmt.Sprintf("%s: %s before %s", what, p.id, d.id)
						}
					}
				}
			}
		}
	}
	return ""
}

func oddScore(isOdd bool, d kdoc) []float32 {
	if isOdd {
		return odd{}.Score(types.IndexedDoc{}, fields{d.id, 1, d.score})
	}
	return []float32{d.score}
}
