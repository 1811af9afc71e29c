package mon

import (
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"

	"verif/harness/cov"
)

// Found is a violation a shard found.
type Found struct {
	Stage string   `json:"stage"`
	Index int      `json:"index"`
	Msg   string   `json:"message"`
	Trace []string `json:"trace"`
	Stack string   `json:"stack,omitempty"`
	// of a guided case: the stage and the choices made
	Of      string   `json:"guided_case_of_stage,omitempty"`
	OfIndex int      `json:"guided_case_of_index,omitempty"`
	Choices []Choice `json:"choices,omitempty"`
	Tail    uint64   `json:"tail,omitempty"`
}

// Shard runs its part of a property's cases, one after another.
type Shard struct {
	Prop   *Prop
	Seed   uint64
	Tier   string
	Shard  int
	Shards int
	Slot   *Slot
	Cnt    *Counters
	ring   *Ring
	// Until stops after the given case (for replays); Trace traces that case.
	UntilStage string
	UntilIndex int
	Replaying  bool
	// Only runs a single guided case.
	Only   *Found
	guides []*guide
}

func (st *Stage) Count(tier string) int {
	if tier == "thorough" {
		if st.Deep > 0 {
			return st.Deep
		}
		return st.Quick * 20
	}
	if scale > 0 { // of mutation runs
		return max(1, st.Quick*scale/100)
	}
	return st.Quick
}

var scale, _ = strconv.Atoi(os.Getenv("VERIF_SCALE"))

// Run runs the shard's cases. It stops at the first violation.
func (s *Shard) Run() *Found {
	s.Cnt = NewCounters()
	s.ring = &Ring{}
	if s.Only != nil {
		return s.runChoices(s.Only)
	}
	defer func() {
		s.Cnt.CodeCounters, s.Cnt.CodeReached, s.Cnt.CodeFeatures = int64(cov.Counters()), int64(cov.Reached()), int64(cov.Features())
	}()
	samples := 0
	for i := range s.Prop.Stages {
		st := &s.Prop.Stages[i]
		if only := os.Getenv("VERIF_STAGE"); only != "" && only != st.Name {
			continue
		}
		n := st.Count(s.Tier)
		var g *guide
		if cov.On() && !s.Prop.Race && st.guidable() {
			g = &guide{st: st}
			s.guides = append(s.guides, g)
		}
		for k := s.Shard; k < n; k += s.Shards {
			last := s.Replaying && st.Name == s.UntilStage && k == s.UntilIndex
			trace := last || (s.Shard == 0 && samples < 12 && (k == 0 || k == 3*s.Shards || k == 11*s.Shards))
			c := s.newCase(st, k, trace)
			if s.Slot != nil {
				s.Slot.Case(st.Name, k)
			}
			var f *Found
			if g != nil {
				c.R.rec = &recorder{}
				f = s.observe(g, c)
			} else {
				f = s.runCase(c)
			}
			if f != nil {
				return f
			}
			s.Cnt.Cases++
			s.Cnt.Stages[st.Name]++
			if !c.triv && len(s.Cnt.Sigs) < 8*maxRemembered {
				s.Cnt.Sigs[mix(c.sig^HashStr(st.Name))] = struct{}{}
			}
			if trace && !s.Replaying {
				samples++
				tr := c.Trace
				if len(tr) > 24 {
					tr = tr[:24]
				}
				s.Cnt.Samples = append(s.Cnt.Samples, Sample{st.Name, k, tr})
			}
			if last {
				return nil
			}
		}
	}
	return s.runGuided()
}

func (s *Shard) newCase(st *Stage, k int, trace bool) *C {
	return &C{
		spoils: mix(HashStr(st.Name)+uint64(k))&1 == 1,
		R:      NewR(s.Seed, HashStr(s.Prop.ID), HashStr(st.Name), uint64(k)),
		Seed:   s.Seed, Index: k, Tier: s.Tier, Cnt: s.Cnt, Stage: st, Slot: s.Slot, Tracing: trace, ring: s.ring, slotIndex: k,
	}
}

func (s *Shard) runCase(c *C) (f *Found) {
	defer func() {
		if r := recover(); r != nil {
			f = &Found{Stage: c.Stage.Name, Index: c.Index, Trace: c.Trace}
			if v, ok := r.(Violation); ok {
				f.Msg = v.Msg
				return
			}
			buf := make([]byte, 1<<14)
			f.Stack = string(buf[:runtime.Stack(buf, false)])
			if c.inCall != "" {
				f.Msg = fmt.Sprintf("%s panicked: %v", c.inCall, r)
			} else {
				f.Msg = fmt.Sprintf("a result of the library broke the oracle: %v", r)
			}
		}
	}()
	c.Stage.Run(c)
	c.CheckGuards("the last call")
	if s.Cnt.Cases%4 == 0 {
		c.checkRing()
	}
	c.spoilOwned()
	return nil
}

// Trim shortens a stack for display.
func Trim(s string, lines int) string {
	l := strings.Split(s, "\n")
	if len(l) > lines {
		l = l[:lines]
	}
	return strings.Join(l, "\n")
}
