package main

import (
	"fmt"
	"sort"

	"github.com/go-ego/riot/core"

	"vmc/rep"
)

type sorter struct {
	name string
	f    func([]uint64)
	desc bool
}

var sorters = []sorter{{"Asc", core.Asc, false}, {"Desc", core.Desc, true}, {"StableAsc", core.StableAsc, false}, {"StableDesc", core.StableDesc, true}}

// sortCase runs all helpers on one input.
func sortCase(w *rep.W, in, buf, ref []uint64) string {
	ref = append(ref[:0], in...)
	// reference: insertion for tiny, library otherwise
	if len(ref) <= 16 {
		for i := 1; i < len(ref); i++ {
			for j := i; j > 0 && ref[j] < ref[j-1]; j-- {
				ref[j], ref[j-1] = ref[j-1], ref[j]
			}
		}
	} else {
		sort.Slice(ref, func(i, j int) bool { return ref[i] < ref[j] })
	}
	asc, desc := true, true
	for i := 1; i < len(in); i++ {
		asc = asc && in[i-1] <= in[i]
		desc = desc && in[i-1] >= in[i]
	}
	if !asc && !desc {
		w.Nontrivial()
	}
	if core.IsSortedAsc(in) != asc {
		return fmt.Sprintf("IsSortedAsc is %v", !asc)
	}
	if core.IsSortedDesc(in) != desc {
		return fmt.Sprintf("IsSortedDesc is %v", !desc)
	}
	for _, s := range sorters {
		buf = append(buf[:0], in...)
		s.f(buf)
		for i := range ref {
			x := ref[i]
			if s.desc {
				x = ref[len(ref)-1-i]
			}
			if buf[i] != x {
				return fmt.Sprintf("%s returned %v", s.name, buf)
			}
		}
	}
	w.Trans(len(sorters) + 2)
	return ""
}

// sortPart runs gen's inputs; gen must call f with every input.
func sortPart(name string, gen func(w *rep.W, f func(in []uint64))) rep.Part {
	return rep.Part{Name: name, Run: func(w *rep.W) {
		var buf, ref []uint64
		gen(w, func(in []uint64) {
			if w.Done() || !w.Next() {
				return
			}
			w.Case(func() string { return fmt.Sprintf("input %v", in) }, func() string { return sortCase(w, in, buf, ref) })
		})
	}}
}

// every array of length lo..hi over the values
func allArrays(lo, hi int, vals []uint64) func(*rep.W, func([]uint64)) {
	return func(w *rep.W, f func([]uint64)) {
		for n := lo; n <= hi; n++ {
			in := make([]uint64, n)
			sel := make([]int, n)
			for i := range in {
				in[i] = vals[0]
			}
			for !w.Done() {
				f(in)
				i := n - 1
				for ; i >= 0; i-- {
					sel[i]++
					if sel[i] < len(vals) {
						in[i] = vals[sel[i]]
						break
					}
					sel[i] = 0
					in[i] = vals[0]
				}
				if i < 0 {
					break
				}
			}
		}
	}
}

func permutations(hi int) func(*rep.W, func([]uint64)) {
	return func(w *rep.W, f func([]uint64)) {
		for n := 1; n <= hi; n++ {
			a := make([]uint64, n)
			for i := range a {
				a[i] = uint64(i) * 3
			}
			var rec func(k int)
			rec = func(k int) {
				if w.Done() {
					return
				}
				if k == n {
					f(a)
					return
				}
				for i := k; i < n; i++ {
					a[k], a[i] = a[i], a[k]
					rec(k + 1)
					a[k], a[i] = a[i], a[k]
				}
			}
			rec(0)
		}
	}
}

// arrays of two values with at most k alternations
func alternations(ns []int, k int) func(*rep.W, func([]uint64)) {
	return func(w *rep.W, f func([]uint64)) {
		for _, n := range ns {
			in := make([]uint64, n)
			var rec func(from int, left int, v uint64)
			rec = func(from, left int, v uint64) {
				if w.Done() {
					return
				}
				for i := from; i < n; i++ {
					in[i] = v
				}
				f(in)
				if left == 0 {
					return
				}
				for c := from + 1; c < n; c++ {
					for i := from; i < c; i++ {
						in[i] = v
					}
					rec(c, left-1, 1-v)
				}
			}
			rec(0, k, 0)
			rec(0, k, 1)
		}
	}
}

// blocks of 20 that are sorted 0/1 arrays: every combination of counts (drives every merge of the stable sort)
func stableBlocks(ns []int, rev bool) func(*rep.W, func([]uint64)) {
	return func(w *rep.W, f func([]uint64)) {
		for _, n := range ns {
			in := make([]uint64, n)
			var rec func(from int)
			rec = func(from int) {
				if w.Done() {
					return
				}
				if from >= n {
					f(in)
					return
				}
				l := 20
				if from+l > n {
					l = n - from
				}
				for c := 0; c <= l; c++ {
					for i := 0; i < l; i++ {
						v := uint64(0)
						if (i >= c) != rev {
							v = 1
						}
						in[from+i] = v
					}
					rec(from + 20)
				}
			}
			rec(0)
		}
	}
}

// structured permutations: base order with every swap, every move, every rotation
func structured(ns []int) func(*rep.W, func([]uint64)) {
	return func(w *rep.W, f func([]uint64)) {
		for _, n := range ns {
			for _, base := range [][]uint64{mk(n, func(i int) uint64 { return uint64(i) }), mk(n, func(i int) uint64 { return uint64(n - i) }),
				mk(n, func(i int) uint64 { return uint64(i / 2) }), mk(n, func(i int) uint64 { return uint64(min2(i, n-i)) }),
				mk(n, func(i int) uint64 { return uint64(i*7919) % uint64(n+1) }), mk(n, func(i int) uint64 { return uint64(i & 3) }),
				mk(n, func(i int) uint64 { return ^uint64(0) - uint64((i*i)%97) })} {
				for i := 0; i < n && !w.Done(); i++ {
					for j := i + 1; j < n; j++ {
						a := append([]uint64{}, base...)
						a[i], a[j] = a[j], a[i]
						f(a)
						a = append([]uint64{}, base...)
						x := a[i]
						copy(a[i:j], a[i+1:j+1])
						a[j] = x
						f(a)
					}
					a := append(append([]uint64{}, base[i:]...), base[:i]...)
					f(a)
				}
			}
		}
	}
}

func mk(n int, g func(i int) uint64) []uint64 {
	a := make([]uint64, n)
	for i := range a {
		a[i] = g(i)
	}
	return a
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// killer builds, by McIlroy's adversary against median-of-three quicksort, inputs that exhaust its depth limit.
func killer(n int, desc bool) []uint64 {
	val := make([]int, n)
	gas := n
	for i := range val {
		val[i] = gas
	}
	nsolid, cand := 0, 0
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	less := func(x, y int) bool { // x, y: original elements
		if val[x] == gas && val[y] == gas {
			if x == cand {
				val[x] = nsolid
			} else {
				val[y] = nsolid
			}
			nsolid++
		}
		if val[x] == gas {
			cand = x
		} else if val[y] == gas {
			cand = y
		}
		if desc {
			return val[x] > val[y]
		}
		return val[x] < val[y]
	}
	qs(idx, 0, n, less, 0)
	out := make([]uint64, n)
	for i := range out {
		out[i] = uint64(val[i])
	}
	return out
}

// qs is a plain quicksort with the usual median-of-three / ninther pivot choice.
func qs(a []int, lo, hi int, less func(x, y int) bool, depth int) {
	for hi-lo > 7 && depth < 10000 {
		med := func(m1, m0, m2 int) {
			if less(a[m1], a[m0]) {
				a[m1], a[m0] = a[m0], a[m1]
			}
			if less(a[m2], a[m1]) {
				a[m2], a[m1] = a[m1], a[m2]
				if less(a[m1], a[m0]) {
					a[m1], a[m0] = a[m0], a[m1]
				}
			}
		}
		m := lo + (hi-lo)/2
		if hi-lo > 40 {
			s := (hi - lo) / 8
			med(lo, lo+s, lo+2*s)
			med(m, m-s, m+s)
			med(hi-1, hi-1-s, hi-1-2*s)
		}
		med(lo, m, hi-1)
		pv := lo
		b, c := lo+1, hi
		for b < c {
			if !less(a[pv], a[b]) {
				b++
			} else if less(a[pv], a[c-1]) {
				c--
			} else {
				a[b], a[c-1] = a[c-1], a[b]
				b++
				c--
			}
		}
		a[pv], a[b-1] = a[b-1], a[pv]
		qs(a, lo, b-1, less, depth+1)
		lo = b
	}
	for i := lo + 1; i < hi; i++ {
		for j := i; j > lo && less(a[j], a[j-1]); j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func killers(ns []int) func(*rep.W, func([]uint64)) {
	return func(w *rep.W, f func([]uint64)) {
		for _, n := range ns {
			for _, d := range []bool{false, true} {
				k := killer(n, d)
				f(k)
				for r := 1; r < 20; r++ { // and with a few coarsenings (ties)
					a := append([]uint64{}, k...)
					for i := range a {
						a[i] /= uint64(r)
					}
					f(a)
				}
			}
		}
	}
}

func rng(a, b int) []int {
	var o []int
	for i := a; i <= b; i++ {
		o = append(o, i)
	}
	return o
}

func c20(tier string) []rep.Part {
	ext := []uint64{0, 1, 1 << 63, ^uint64(0)}
	ps := []rep.Part{
		sortPart("all-arrays-4values-len<=9", allArrays(0, 9, ext)),
		sortPart("all-permutations-len<=9", permutations(9)),
		sortPart("all-arrays-3values-len10..12", allArrays(10, 12, []uint64{5, 6, ^uint64(0)})),
		sortPart("all-01-arrays-len13..21", allArrays(13, 21, []uint64{0, ^uint64(0)})),
		sortPart("alternations", alternations([]int{41, 50, 64}, 3)),
		sortPart("stable-blocks", stableBlocks([]int{21, 39, 40, 41, 45, 59, 60, 61, 70}, false)),
		sortPart("stable-blocks-desc", stableBlocks([]int{21, 39, 40, 41, 60, 61}, true)),
		sortPart("structured", structured([]int{8, 12, 20, 21, 40, 41, 42, 48, 63, 80})),
		sortPart("depth-limit", killers([]int{64, 100, 200, 300, 500, 801, 1000, 2000})),
	}
	if tier == "thorough" {
		ps = append(ps,
			sortPart("all-permutations-len<=10", permutations(10)),
			sortPart("all-arrays-4values-len<=11", allArrays(10, 11, ext)),
			sortPart("all-01-arrays-len22..25", allArrays(22, 25, []uint64{0, 1})),
			sortPart("alternations-4", alternations([]int{41, 45, 57, 64, 80}, 4)),
			sortPart("stable-blocks-80", stableBlocks([]int{79, 80, 81, 95}, false)),
			sortPart("stable-blocks-desc-80", stableBlocks([]int{79, 80, 81, 95}, true)),
			sortPart("structured-all", structured(append(rng(9, 64), 79, 81, 100, 127, 128, 129, 160, 200))),
			sortPart("depth-limit-all", killers(rng(41, 1200))))
	}
	return ps
}
