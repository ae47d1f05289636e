// Command engc decides the properties of the engine on the instrumented copy of /repo under the
// controlled scheduler.
package main

import (
	"io"
	"log"

	"vmc/expl"
	"vmc/rep"
)

func main() {
	log.SetOutput(io.Discard)
	rep.Main([]*rep.Check{
		{Prop: "C07", Level: "model_checking", Parts: c07, Rule: "every text within the bound x every mode x every combination of caller tokens and labels; non-trivial: the number of keys, every key and the text queries were compared", Assumptions: []string{
			"segmentation and pinyin conversion themselves are those of the libraries gse and gpy, which the reference model calls too"}},
		{Prop: "C08", Level: "model_checking", Parts: c08, Rule: "every assignment of key sets to the documents x every configuration x every request of the grid; non-trivial: all answers of the case were compared", Assumptions: []string{
			"the scoring criterion depends only on the document (BM25 is computed per shard by design)", "a count-only request counts the matches before the criterion drops any", "an unordered answer has neither scores nor content, and ignores the window"}},
		{Prop: "C09", Level: "model_checking", Parts: both(parts(c09), func(string) []rep.Part {
			return append(append(bulkMem(small().sh(2)), bulkStore()...), busyParts(false)...)
		}), Rule: ruleM, Assumptions: assumeM},
		{Prop: "C10", Level: "model_checking", Parts: both(both(parts(c10), direct10), func(string) []rep.Part {
			return append(append(bulkMem(small().sh(5)), bulkStore()...), busyParts(true)...)
		}), Rule: ruleM, Assumptions: assumeM},
		{Prop: "C11", Level: "model_checking", Parts: both(both(parts(c11), direct11), func(string) []rep.Part { return busyParts(false) }), Rule: ruleM, Assumptions: assumeM},
		{Prop: "C12", Level: "model_checking", Parts: both(parts(c12), direct12), Rule: ruleM, Assumptions: assumeM},
		{Prop: "C15", Level: "model_checking", Parts: c15, Rule: ruleS, Assumptions: assumeM},
		{Prop: "C16", Level: "fault_enumeration", Parts: c16, Rule: ruleS, Assumptions: assumeM},
		{Prop: "C22", Level: "model_checking", Parts: c22, Rule: ruleS, Assumptions: assumeM},
		{Prop: "C23", Level: "model_checking", Parts: c23, Rule: ruleS, Assumptions: assumeM},
		{Prop: "C21", Level: "model_checking", Parts: both(c21, c21wide), Rule: ruleS, Assumptions: []string{"the registries are only changed through the functions of package core"}},
		{Prop: "C24", Level: "model_checking", Parts: c24, Rule: "every sequence of calls on two engines, compared with each engine alone (self-composition), with snapshots of all inputs and answers compared at the end; plus every schedule with at most the stated number of deviations of the concurrent scenarios under the race detector", Assumptions: []string{
			"calls on the same document are separated by a flush", "unset options may be filled in with their defaults"}},
		{Prop: "C13", Level: "model_checking", Parts: both(parts(c13), c13wide), Rule: ruleM, Assumptions: assumeM},
	})
}

var assumeM = []string{
	"sequentially consistent memory between synchronisation operations (the race check C12 covers the rest)",
	"calls on the same document that are not separated by a flush may take effect in either order",
	"the storage backend used here keeps its data in memory and is atomic per operation",
	"the document id 0 is used only for force requests, as the documentation describes it",
}

func both(a, b func(string) []rep.Part) func(string) []rep.Part {
	return func(t string) []rep.Part { return append(a(t), b(t)...) }
}

func directParts(race bool, dev [2]int) func(string) []rep.Part {
	return func(tier string) []rep.Part {
		var ps []rep.Part
		for _, d := range directs() {
			d := d
			d.race = race
			n := dev[0]
			if tier == "thorough" {
				n = dev[1]
			}
			ps = append(ps, rep.Part{Name: d.name, Run: func(w *rep.W) {
				expl.Run(w, expl.Scen{Body: d.run, Bases: []int{0, 4}, Dev: n, Race: race})
			}})
		}
		return ps
	}
}

var (
	direct10 = directParts(true, [2]int{3, 5}) // termination only
	direct11 = directParts(false, [2]int{3, 5})
	direct12 = directParts(true, [2]int{2, 3})
)

const ruleS = "every operation sequence of the stated length (histories under the two default schedules), plus every schedule with at most the stated number of deviations of the concurrent scenarios; non-trivial: the execution ended and every observation was judged"

const ruleM = "every schedule with at most the stated number of deviations from each base order, of every scenario; distinct states are distinct schedules; non-trivial: the execution ended and every observation was judged"

func parts(f func() []scenario) func(string) []rep.Part {
	return func(tier string) []rep.Part {
		var ps []rep.Part
		for _, s := range f() {
			s := s
			ps = append(ps, rep.Part{Name: s.name, Thorough: s.thorough, Run: func(w *rep.W) {
				mkScratch()
				d := s.dev[0]
				if tier == "thorough" {
					d = s.dev[1]
				}
				if w.Slice == 0 {
					w.Sample(s.String())
				}
				b := s.bases
				if b == nil {
					b = []int{0, 1, 4, 5}
				}
				expl.Run(w, expl.Scen{Body: s.body, Bases: b, Dev: d, Low: s.low, Race: true})
			}})
		}
		return ps
	}
}
