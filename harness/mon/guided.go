package mon

import (
	"math"
	"math/bits"
	"os"
	"strconv"
	"time"

	"verif/harness/cov"
)

// Choice is one decision of a case: what the generator returned, and out of how
// many (0: all 64 bits).
type Choice struct {
	V uint64
	N uint64
}

// recorder replays recorded choices, then follows the generator, and records
// all of it.
type recorder struct {
	in   []Choice
	pos  int
	out  []Choice
	tail uint64 // the generator's state when the record was full
}

const maxChoices = 1024

func (r *R) next(n uint64) uint64 {
	rec := r.rec
	var v uint64
	if rec.pos < len(rec.in) {
		v = rec.in[rec.pos].V
	} else {
		r.s += 0x9e3779b97f4a7c15
		v = mix(r.s)
	}
	rec.pos++
	if len(rec.out) < maxChoices {
		rec.out = append(rec.out, Choice{v, n})
		rec.tail = r.s
	}
	return v
}

// entry is a case that showed something new.
type entry struct {
	choices []Choice
	tail    uint64
	index   int
	work    uint64
}

// guide holds the cases of a stage from which others are made.
type guide struct {
	st      *Stage
	entries []entry
	tries   int
	// of all cases observed: how many, and the logarithms of the work they made
	cases int
	work  float64
	// the entries still to be tried first, the newest at the end
	queue []queued
}

type queued struct {
	e    entry
	left int
}

const maxEntries = 600
const firstTries = 48

func (g *guide) add(e entry) {
	e.choices = append([]Choice{}, e.choices...)
	g.queue = append(g.queue, queued{e, firstTries})
	if len(g.queue) > 200 {
		g.queue = append([]queued{}, g.queue[100:]...)
	}
	if len(g.entries) < maxEntries {
		g.entries = append(g.entries, e)
		return
	}
	g.entries[g.tries%maxEntries] = e
}

// guidable stages are those whose cases the generator decides alone.
func (st *Stage) guidable() bool { return !st.NoGuide && st.Quick >= 100 }

// mutate makes a sequence of choices from recorded ones.
func (g *guide) mutate(r *R) entry {
	pick := func() *entry {
		n := len(g.entries)
		var e *entry
		for t := r.In(1, 6); t > 0; t-- {
			i := r.N(n)
			if r.P(40) { // late ones show rarer things
				i = n - 1 - r.N(n/5+1)
			}
			// of some, the one that costs least
			if e == nil || g.entries[i].work < e.work {
				e = &g.entries[i]
			}
		}
		return e
	}
	src := pick()
	if n := len(g.queue); n > 0 && r.P(75) {
		q := &g.queue[n-1]
		src = &entry{q.e.choices, q.e.tail, q.e.index, q.e.work}
		if q.left--; q.left == 0 {
			g.queue = g.queue[:n-1]
		}
	}
	e := entry{append([]Choice{}, src.choices...), src.tail, src.index, 0}
	for k := 1 + bits.TrailingZeros64(r.U64()|16); k > 0 && len(e.choices) > 0; k-- {
		cs := e.choices
		i := r.N(len(cs))
		if r.P(40) {
			i = r.N(min(len(cs), 48))
		}
		c := &cs[i]
		switch op := r.N(14); op {
		case 0, 1:
			c.V = r.U64()
		case 2, 3, 4: // a neighbour, or the first or the last
			if c.N > 1 {
				hi, _ := bits.Mul64(c.V, c.N)
				switch r.N(4) {
				case 0:
					hi = (hi + 1) % c.N
				case 1:
					hi = (hi + c.N - 1) % c.N
				case 2:
					hi = 0
				case 3:
					hi = c.N - 1
				}
				step := ^uint64(0) / c.N
				c.V = hi*step + step/2
				break
			}
			fallthrough
		case 5, 6:
			switch r.N(5) {
			case 0:
				c.V ^= 1 << r.N(64)
			case 1:
				c.V += 1 << r.N(64)
			case 2:
				c.V -= 1 << r.N(64)
			case 3:
				s := 8 * r.N(8)
				c.V = c.V&^(0xff<<s) | uint64(Pick(r, 0, 1, 0x7f, 0x80, 0xff, r.N(256)))<<s
			case 4:
				c.V = Pick(r, uint64(0), ^uint64(0), 1, uint64(r.N(256)), uint64(r.N(256))<<56, 1<<63, c.V<<8, c.V>>8, bits.ReverseBytes64(c.V))
			}
		case 7, 8: // as somewhere else
			j := r.N(len(cs))
			for t := 0; t < 6 && cs[j].N != c.N; t++ {
				j = r.N(len(cs))
			}
			c.V = cs[j].V
		case 9: // as in another case, from here on or for a while
			o := pick()
			if i < len(o.choices) {
				n := min(len(o.choices)-i, len(cs)-i)
				if r.Bool() {
					n = min(n, 1+r.N(12))
				}
				copy(cs[i:i+n], o.choices[i:i+n])
			}
		case 10: // a piece less
			n := min(len(cs)-i, 1+r.N(8))
			e.choices = append(cs[:i], cs[i+n:]...)
		case 11: // a piece twice
			n := min(len(cs)-i, 1+r.N(8))
			e.choices = append(append(append([]Choice{}, cs[:i+n]...), cs[i:i+n]...), cs[i+n:]...)
		case 12: // the rest at random
			e.choices = cs[:i+1]
			e.tail = r.U64()
		case 13: // something in between
			e.choices = append(append(append([]Choice{}, cs[:i]...), Choice{V: r.U64()}), cs[i:]...)
		}
	}
	if len(e.choices) > maxChoices {
		e.choices = e.choices[:maxChoices]
	}
	return e
}

// GuidedName is how a case made from others is called.
const GuidedName = "guided"

func guideSeconds(tier string) float64 {
	if s := os.Getenv("VERIF_GUIDED"); s != "" {
		if v, err := strconv.ParseFloat(s, 64); err == nil {
			return v
		}
	}
	if tier == "thorough" {
		return 600
	}
	return 8
}

// runGuided makes cases from recorded ones, and records those that show
// something new about the code of libsv in turn.
func (s *Shard) runGuided() *Found {
	if !cov.On() || s.Prop.Race {
		return nil
	}
	var gs []*guide
	for _, g := range s.guides {
		if len(g.entries) > 0 {
			gs = append(gs, g)
		}
	}
	if len(gs) == 0 {
		return nil
	}
	r := NewR(s.Seed, HashStr(s.Prop.ID), 0x9a1d, uint64(s.Shard))
	limit := guideSeconds(s.Tier)
	start := time.Now()
	for k := s.Shard; ; k += s.Shards {
		last := s.Replaying && s.UntilStage == GuidedName && k == s.UntilIndex
		if n := k / s.Shards; !s.Replaying && n%16 == 0 && time.Since(start).Seconds() >= limit {
			return nil
		}
		g := gs[r.N(len(gs))]
		e := g.mutate(r)
		g.tries++
		st := *g.st
		st.Name = GuidedName
		c := s.newCase(&st, k, last)
		c.Index = e.index
		c.R = &R{s: e.tail, rec: &recorder{in: e.choices}}
		if s.Slot != nil {
			s.Slot.Case(GuidedName, k)
		}
		f := s.observe(g, c)
		if f != nil {
			f.Stage, f.Index = GuidedName, k
			f.Of, f.OfIndex, f.Choices, f.Tail = g.st.Name, e.index, e.choices, e.tail
			return f
		}
		s.Cnt.Cases++
		s.Cnt.Stages[GuidedName]++
		if !c.triv && len(s.Cnt.Sigs) < 8*maxRemembered {
			s.Cnt.Sigs[mix(c.sig^HashStr(g.st.Name))] = struct{}{}
		}
		if last {
			return nil
		}
	}
}

// observe runs a case, and keeps it if it shows something new.
func (s *Shard) observe(g *guide, c *C) *Found {
	cov.Start()
	f := s.runCase(c)
	fresh := cov.Stop()
	g.cases++
	work := cov.Work() + 4*uint64(c.R.rec.pos)
	g.work += math.Log2(float64(work + 1))
	// what costs far more than others do is not worth keeping
	if fresh > 0 && math.Log2(float64(work+1)) < g.work/float64(g.cases)+4 {
		e := entry{c.R.rec.out, c.R.rec.tail, c.Index, work}
		g.add(e)
		s.Cnt.Kept++
	}
	return f
}

// runChoices runs one case with given choices.
func (s *Shard) runChoices(f *Found) *Found {
	for i := range s.Prop.Stages {
		st := &s.Prop.Stages[i]
		if st.Name != f.Of {
			continue
		}
		c := s.newCase(st, f.OfIndex, true)
		c.R = &R{s: f.Tail, rec: &recorder{in: f.Choices}}
		if got := s.runCase(c); got != nil {
			got.Stage, got.Index = f.Stage, f.Index
			got.Of, got.OfIndex, got.Choices, got.Tail = f.Of, f.OfIndex, f.Choices, f.Tail
			return got
		}
	}
	return nil
}
