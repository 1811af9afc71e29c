package main

import (
	"strconv"
	"strings"

	"verif/harness/mon"
)

// G05 runs the workloads of the other properties, under their monitors, on a
// platform with 32-bit words: run.sh builds it for that.

// some is how many of a stage's cases are run there.
func some(n, share int) int { return max(n/share, min(n, 24)) }

// spread gives the k-th of n cases in an order in which any few of them are far
// apart, in whatever way a workload divides its cases.
func spread(k, n int) int {
	step := n*618/1000 + 1
	for gcd(step, n) != 1 || gcd(step, 2*3*5*7*11*13*17) != 1 {
		step++
	}
	return int(int64(k) * int64(step) % int64(n))
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// words makes G05 from all the properties there are.
func words() {
	p := &mon.Prop{
		ID:   "G05",
		Rule: "the cases of the other properties' workloads, a share of each stage's, run by their monitors in a process built for a platform with 32-bit words; distinct as there",
		Need: map[string]int{"32-bit words": 20000},
	}
	for _, id := range ids() {
		q := props[id]
		if q.Race {
			continue
		}
		for _, st := range q.Stages {
			st := st
			if id == "G04" && st.Name != "output" && st.Name != "secrets" { // it would take long
				continue
			}
			p.Stages = append(p.Stages, mon.Stage{
				Name: id + " " + st.Name, Quick: some(st.Quick, 12), Deep: some(st.Count("thorough"), 12),
				MeasureAlloc: st.MeasureAlloc, NoGuide: true,
				Run: func(c *C) {
					if strconv.IntSize == 32 {
						c.Hit("32-bit words")
					}
					c.Index = spread(c.Index, st.Count(c.Tier))
					st.Run(c)
				},
			})
		}
	}
	if len(p.Stages) < 100 || strings.Contains(p.Stages[0].Name, "G05") {
		die("G05 lacks the other properties")
	}
	register(p)
}
