// Command netd decides C18 (distributed search) and C19 (heartbeat) on the instrumented copy of /repo
// under the controlled scheduler, with scripted nodes, replies and a virtual clock.
package main

import (
	"io"
	"log"
	"os"
	"strings"

	"vmc/mc"
	"vmc/rep"
)

func main() {
	log.SetOutput(io.Discard)
	if strings.Contains(strings.Join(os.Args, " "), "-slice") {
		if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout = n
		}
	}
	rep.Main([]*rep.Check{
		{Prop: "C18", Level: "model_checking", Parts: c18,
			Rule: "every assignment of answers and failures to up to three nodes x every arrival order x every maximum, and every schedule of concurrent distributed searches up to the bound; non-trivial: the merged answer has documents",
			Assumptions: []string{"a node honours the window it is asked for", "a node that answers with anything but a JSON response has failed",
				"document ids differ between nodes"}},
		{Prop: "C19", Level: "model_checking", Parts: c19,
			Rule:        "every sequence of replies up to the length x every behaviour of the restart command; non-trivial: at least one restart was due",
			Assumptions: []string{"one heartbeat per process", "the restart command is run through the shell, as configured"}},
	})
}

func run1(w *rep.W, base int, f func() string) string {
	m := ""
	r := mc.Run(mc.Config{Base: base, MaxSteps: 4000000}, func() { m = f() })
	w.Trans(r.Steps)
	if r.Viol != "" {
		return r.Viol
	}
	return m
}
