// Command corec decides the properties of the index, the ranker and the registries
// by exhaustive enumeration of inputs and histories on the real package.
package main

import (
	"io"
	"log"

	"vmc/rep"
)

func main() {
	log.SetOutput(io.Discard)
	rep.Main([]*rep.Check{
		{Prop: "C01", Level: "model_checking", Loose: true, Parts: c01,
			Rule: "every corpus within the bound x every query within the bound; non-trivial: the reference answer is non-empty"},
		{Prop: "C02", Level: "model_checking", Loose: true, Parts: c02,
			Rule: "every corpus within the bound x every pending removal x every logical query of the grid; non-trivial: the reference answer is non-empty"},
		{Prop: "C03", Level: "model_checking", Loose: true, Parts: c03,
			Rule: "every history up to the depth, then every query of the grid on the flushed index; non-trivial: a returned score was compared with the formula"},
		{Prop: "C04", Level: "model_checking", Loose: true, Parts: c04,
			Rule:        "every combination of ascending position lists within the bound for every query shape; non-trivial: all tokens have positions and the minimum over all choices was compared",
			Assumptions: []string{"recorded positions of a token are in ascending order, as the segmenter produces them"}},
		{Prop: "C05", Level: "model_checking", Loose: true, Parts: c05,
			Rule:        "every sequence of operations up to the depth, observed through every key at its end and after a flush; non-trivial: all observations compared",
			Assumptions: []string{"a removal of a document whose addition still waits in the cache may or may not drop that addition (documented as unsupported in RemoveDocToCache)"}},
		{Prop: "C06", Level: "model_checking", Loose: true, Parts: c06,
			Rule: "every assignment of registrations and score vectors x every window x both orders x both modes; non-trivial: more than one document in the window"},
		{Prop: "C20", Level: "model_checking", Loose: true, Parts: c20,
			Rule: "every array within the bounds and the structured families of longer arrays; non-trivial: neither ascending nor descending already"},
	})
}
