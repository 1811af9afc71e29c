package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"

	"verif/harness/mon"
)

// inst is one instance of an operation: an operation with arguments.
type inst struct {
	o     *op
	seed  uint64
	tweak int
	how   uint64
	run   func() result
}

func (i *inst) question() uint64 {
	return mon.HashStr(fmt.Sprintf("%s %d %d %d", i.o.name, i.seed, i.tweak, i.how))
}

// fresh makes the same arguments once more.
func (i *inst) fresh(c *C) func() result {
	return i.o.mk(&A{c: c, seed: i.seed, tweak: i.tweak, how: i.how})
}

// variants makes instances of an operation: some arguments, and others that
// differ from them in one argument only, slightly.
func variants(r *R, o *op, n int) (l []*inst) {
	seed := r.U64()
	a := &A{seed: seed}
	o.mk(a)
	for k := 0; k < n; k++ {
		i := &inst{o: o, seed: seed}
		if k > 0 && a.n > 0 {
			i.tweak, i.how = 1+r.N(a.n), r.U64()
		} else if k > 0 {
			break
		}
		l = append(l, i)
	}
	return
}

// group makes the instances that all processes look at in the cases of a group.
func group(c *C, id string, nops, nvar int) (l []*inst) {
	r := mon.NewR(c.Seed, mon.HashStr(id), uint64(c.Index/shards))
	for k := 0; k < nops; k++ {
		o := &allOps[r.N(len(allOps))]
		if nops == 1 { // one operation after another
			o = &allOps[c.Index/shards%len(allOps)]
		}
		l = append(l, variants(r, o, nvar)...)
	}
	return
}

func render(f result) string {
	s := f.show()
	if len(s) > 64 {
		// only compared
		return fmt.Sprintf("%s... %x", s[:24], mon.HashStr(s))
	}
	return s
}

// again makes the same arguments once more, in the memory that mem says.
func (i *inst) again(mem map[int][][]byte) func() result {
	return i.o.mk(&A{seed: i.seed, tweak: i.tweak, how: i.how, mem: mem})
}

// g01Memory makes calls whose arguments lie, one after another, in the same
// memory, as those of a caller that reuses its buffers.
func g01Memory(c *C) {
	r := c.R
	l := group(c, "G01 memory", 1, 6)
	mem := map[int][][]byte{}
	want := make([]string, len(l))
	for i, k := range l {
		c.In("call", fmt.Sprintf("%s arguments %d, %d changed (%x)", k.o.name, k.seed, k.tweak, k.how))
		k.run = k.fresh(nil)
		if i%2 == 0 {
			c.Call(k.o.name, func() { want[i] = render(k.run()) })
		}
	}
	order := uint64(0)
	for n := 0; n < 16; n++ {
		i := r.N(len(l))
		k := l[i]
		order = order*31 + uint64(i)
		run := k.again(mem)
		var f result
		c.Call(k.o.name, func() { f = run() })
		s := render(f)
		if want[i] == "" {
			c.Call(k.o.name, func() { want[i] = render(k.run()) })
		}
		mon.Eq(c, "result of "+k.o.name+" with arguments in reused memory", s, want[i])
		if r.P(40) {
			f.spoil()
			c.Hit("result edited")
		} else if !f.part && r.P(40) {
			c.Keep(k.o.name, func() string { return render(f) })
			c.Hit("result kept whose arguments change")
		}
		c.Agree(k.question(), s, fmt.Sprintf("%s (arguments from seed %d, number %d changed by %x)", k.o.name, k.seed, k.tweak, k.how))
		c.Hit("arguments in reused memory")
	}
	c.In("order", order)
}

// bytesOf gives the bytes in objects of the library, without the objects.
func bytesOf(own []any) (l [][]byte) {
	scr := func(s *Script) {
		if s != nil {
			l = append(l, *s)
		}
	}
	for _, v := range own {
		switch x := v.(type) {
		case []byte:
			l = append(l, x)
		case [][]byte:
			l = append(l, x...)
		case mon.List:
			l = append(l, x...)
		case *Script:
			scr(x)
		case *input.Input:
			if x != nil {
				l = append(l, bytesOf([]any{x.PreviousTxScript, x.UnlockingScript})...)
			}
		case *output.Output:
			if x != nil {
				scr(x.LockingScript)
			}
		case *Tx:
			if x != nil {
				for _, i := range x.Inputs {
					l = append(l, bytesOf([]any{i})...)
				}
				for _, o := range x.Outputs {
					l = append(l, bytesOf([]any{o})...)
				}
			}
		}
	}
	return
}

// g01Many makes thousands of calls of one operation, each with other arguments,
// and then makes them all again: what the library kept of the first, and threw
// away or not, may not show. Nothing is kept of the first round but what the
// results were, so that the memory of its arguments is used again by others.
func g01Many(c *C) {
	r := mon.NewR(c.Seed, mon.HashStr("G01 many"), uint64(c.Index))
	o := &allOps[c.Index%len(allOps)]
	c.In("operation", o.name)
	c.In("seed", r.U64())
	var l []*inst
	var want []uint64
	type keptPart struct {
		b []byte
		h uint64
		n int
	}
	var kept []keptPart // of results that are gone
	t0 := time.Now()
	base := r.U64()
	a := &A{seed: base}
	o.mk(a)
	one := func(k *inst, first int) {
		run := k.fresh(nil)
		var f result
		c.Call(o.name, func() { f = run() })
		s := f.show()
		h := mon.HashStr(s)
		if first < 0 {
			l = append(l, k)
			want = append(want, h)
		} else if h != want[first] {
			c.Fail("%s (arguments from seed %d, number %d changed by %x): call %d gave another result than when the same call was made again, %d calls of other arguments later: now %s", o.name, k.seed, k.tweak, k.how, first, len(l), mon.Show(s))
		}
		if r.P(10) {
			f.spoil()
		} else if len(kept) < 2000 && (len(kept) < 100 || r.P(20)) {
			for _, b := range bytesOf(f.own) {
				if len(b) < 1000 {
					kept = append(kept, keptPart{b, mon.HashStr(string(b)), len(l)})
				}
			}
		}
	}
	for n := 0; n < 24000 && (n < 64 || time.Since(t0) < 300*time.Millisecond); n++ {
		k := &inst{o: o, seed: base}
		if n%2 == 0 || a.n == 0 {
			k.seed = r.U64()
		} else {
			k.tweak, k.how = 1+r.N(a.n), r.U64()
		}
		one(k, -1)
		if n%700 == 300 {
			runtime.GC()
		}
	}
	runtime.GC()
	for _, order := range r.Perm(3)[:2] {
		p := r.Perm(len(l))
		for i := range l {
			switch order {
			case 0:
				one(l[i], i)
			case 1:
				one(l[len(l)-1-i], len(l)-1-i)
			case 2:
				one(l[p[i]], p[i])
			}
		}
	}
	runtime.GC()
	for _, k := range kept {
		c.Check(mon.HashStr(string(k.b)) == k.h, "a part of what %s returned (call %d) is another one after later calls: %x", o.name, k.n, k.b)
	}
	c.HitN("calls made again after many others", 2*len(l))
	c.Cnt.Checks += int64(2 * len(l))
	if len(l) > 4000 {
		c.Hit("operation called with thousands of arguments")
	}
}

// g01Marathon makes the same few calls as often as it can: what is counted, or
// kept until there is too much of it, may not show either.
func g01Marathon(c *C) {
	r := c.R
	o := &allOps[c.Index%len(allOps)]
	c.In("operation", o.name)
	// the fastest of several that give something
	var l []*inst
	var want []uint64
	solo := 0
	best := time.Duration(0)
	for k := 0; k < 8; k++ {
		x := variants(r, o, 4)
		w := make([]uint64, len(x))
		result, first := false, 0
		for i := range x {
			x[i].run = x[i].fresh(nil)
			s := x[i].run().show()
			w[i] = mon.HashStr(s)
			if !result && !strings.HasPrefix(s, "error") {
				result, first = true, i
			}
		}
		t0 := time.Now()
		for i := range x {
			_ = x[i].run().show()
		}
		if d := time.Since(t0); l == nil || result && d < best {
			l, want, solo = x, w, first
			if best = d; !result {
				best = time.Hour
			}
		}
	}
	for _, k := range l {
		c.In("arguments", fmt.Sprintf("%d, %d changed (%x)", k.seed, k.tweak, k.how))
	}
	budget := 250 * time.Millisecond
	if c.Tier == "thorough" {
		budget = 4 * time.Second
	}
	type keptResult struct {
		f    result
		i, n int
	}
	var kept []keptResult
	t0 := time.Now()
	n := 0
	for n < 1<<24 && (time.Since(t0) < budget || n < 70000 && time.Since(t0) < 4*budget) {
		c.Call(o.name, func() {
			for j := 0; j < 64; j++ {
				i := (n >> 1) % len(l)
				if n < 66000 { // one of them, without anything between
					i = solo
				}
				n++
				f := l[i].run()
				s := f.show()
				if h := mon.HashStr(s); h != want[i] {
					c.Fail("%s (arguments from seed %d, number %d changed by %x): call %d of few, made again and again, gave another result than the first: now %s", o.name, l[i].seed, l[i].tweak, l[i].how, n, mon.Show(s))
				}
				if n&(n-1) == 0 || n%10007 == 0 && len(kept) < 200 {
					if !f.part {
						kept = append(kept, keptResult{f, i, n})
					}
				} else if n%3 == 0 {
					f.spoil()
				}
			}
		})
	}
	for _, k := range kept {
		s := k.f.show()
		c.Check(mon.HashStr(s) == want[k.i], "what call %d of %s returned (arguments from seed %d, number %d changed by %x) is something else after %d calls: %s", k.n, o.name, l[k.i].seed, l[k.i].tweak, l[k.i].how, n, mon.Show(s))
	}
	c.Cnt.Calls[o.name] += int64(n - n/64)
	c.Cnt.Checks += int64(n)
	c.HitN("same calls made again and again", n)
	if n > 1<<16 {
		c.Hit("operation called more than 2^16 times on end")
	}
}

func g01(c *C, id string, nops, nvar, calls int) {
	r := c.R
	l := group(c, id, nops, nvar)
	for _, k := range l {
		c.In("call", fmt.Sprintf("%s arguments %d, %d changed (%x)", k.o.name, k.seed, k.tweak, k.how))
		k.run = k.fresh(c)
	}
	first := make([]string, len(l))
	order := uint64(0)
	var late []result
	for n := 0; n < calls; n++ {
		i := r.N(len(l))
		k := l[i]
		order = order*31 + uint64(i)
		run, what := k.run, k.o.name
		if r.P(25) {
			run, what = k.fresh(nil), k.o.name+" with equal arguments"
		}
		var f result
		c.Call(k.o.name, func() { f = run() })
		s := render(f)
		if first[i] == "" {
			first[i] = s
			c.Note("%s -> %s", k.o.name, mon.Show(s))
		} else {
			mon.Eq(c, "result of "+what+" after other calls", s, first[i])
			c.Hit("repeated")
		}
		c.Agree(k.question(), s, fmt.Sprintf("%s (arguments from seed %d, number %d changed by %x)", k.o.name, k.seed, k.tweak, k.how))
		if r.P(40) {
			f.spoil()
			c.CheckGuards("editing the result of " + k.o.name)
			c.Hit("result edited")
		} else if r.P(30) {
			c.Keep(k.o.name, func() string { return render(f) })
		} else if r.P(40) {
			late = append(late, f)
		}
		if len(late) > 0 && r.P(25) {
			// a result of before is edited: those kept may not change
			late[0].spoil()
			late = late[1:]
			c.Hit("result edited after other calls")
		}
		if len(s) >= 5 && s[:5] != "error" {
			c.Hit("result")
		}
	}
	for _, f := range late {
		f.spoil()
	}
	c.In("order", order)
	// every guarded argument once more, after everything
	c.CheckGuards("the calls of the case")
}

// call is one call of a worker.
type call struct {
	i          int
	start, end int64
	res        result
	edited     bool   // by the worker that made the call
	got        string // what it was before that
}

// concurrently lets workers make calls at the same time, without synchronising
// them in between, and gives what they returned.
func concurrently(c *C, what string, l []*inst, workers, calls int, pick func(r *R, w, n int) int) [][]call {
	out := make([][]call, workers)
	var ready, done sync.WaitGroup
	start := make(chan struct{})
	seeds := make([]uint64, workers)
	for w := range seeds {
		seeds[w] = c.R.U64()
	}
	if c.R.P(25) { // a process in which many other goroutines wait for something
		idle := make(chan struct{})
		defer close(idle)
		for k := mon.Pick(c.R, 30, 60, 120, 250, 500, 1000); k > 0; k-- {
			go func() { <-idle }()
		}
		c.Hit("calls next to waiting goroutines")
	}
	t0 := time.Now()
	for w := 0; w < workers; w++ {
		ready.Add(1)
		done.Add(1)
		go func(w int) {
			defer done.Done()
			r := mon.NewR(seeds[w])
			cs := make([]call, calls)
			for n := range cs {
				cs[n].i = pick(r, w, n)
			}
			ready.Done()
			<-start
			for n := range cs {
				x := &cs[n]
				x.start = int64(time.Since(t0))
				x.res = l[x.i].run()
				x.end = int64(time.Since(t0))
				if r.P(35) {
					// results of other goroutines may not change by this
					x.edited, x.got = true, render(x.res)
					x.res.spoil()
				}
				if r.P(10) {
					runtime.Gosched()
				}
			}
			out[w] = cs
		}(w)
	}
	ready.Wait()
	c.Call(what, func() { close(start); done.Wait() })
	return out
}

// judge compares what concurrent calls returned with what the same calls return
// one after another, and counts the interleavings.
func judge(c *C, l []*inst, out [][]call) {
	want := make([]string, len(l))
	for i, k := range l {
		f := k.fresh(nil)()
		want[i] = render(f)
		mon.Eq(c, "sequential results of "+k.o.name+" with equal and the same arguments", render(k.run()), want[i])
		c.Agree(k.question(), want[i], k.o.name)
	}
	type ev struct {
		t    int64
		w, n int
		i    int
		end  bool
	}
	var evs []ev
	for w, cs := range out {
		for n, x := range cs {
			c.Cnt.Calls[l[x.i].o.name]++
			got := x.got
			if !x.edited {
				got = render(x.res)
			} else {
				c.Hit("result edited while others call")
			}
			if got != want[x.i] {
				c.Fail("%s (arguments from seed %d, number %d changed by %x) gave another result while other goroutines made calls: %s instead of %s", l[x.i].o.name, l[x.i].seed, l[x.i].tweak, l[x.i].how, mon.Show(got), mon.Show(want[x.i]))
			}
			c.Cnt.Checks++
			evs = append(evs, ev{x.start, w, n, x.i, false}, ev{x.end, w, n, x.i, true})
		}
	}
	sort.Slice(evs, func(a, b int) bool { return evs[a].t < evs[b].t })
	h := uint64(0)
	open, overlap := 0, 0
	for _, e := range evs {
		h = h*1000003 + uint64(e.w*2) + uint64(e.i)*64
		if e.end {
			h++
			open--
		} else {
			if open > 0 {
				overlap++
			}
			open++
		}
	}
	c.Cnt.Hits["calls that overlapped others"] += int64(overlap)
	c.In("interleaving", h)
	for _, cs := range out {
		for k := range cs {
			if x := cs[k]; k%7 == 0 && !x.edited {
				c.Keep(l[x.i].o.name, func() string { return render(x.res) })
			}
		}
	}
}

// g02First makes all processes' first call of each operation from eight
// goroutines at the same time.
func g02First(c *C) {
	for _, i := range c.R.Perm(len(allOps)) {
		o := &allOps[i]
		l := variants(c.R, o, 2)
		for _, k := range l {
			k.run = k.fresh(nil)
		}
		c.In("operation", o.name)
		out := concurrently(c, "concurrent first calls of "+o.name, l, 8, 2, func(r *R, w, n int) int { return (w + n) % len(l) })
		judge(c, l, out)
		c.Hit("operation first called by all goroutines at the same time")
	}
}

func g02Storm(c *C) {
	l := group(c, "G02 storm", 1, 6)
	// other instances of the same, each goroutine its own argument memory
	for _, k := range l {
		k.run = k.fresh(nil)
	}
	c.In("operation", l[0].o.name)
	own := c.R.Bool()
	if own {
		n := len(l)
		for w := 1; w < 4; w++ {
			for _, k := range l[:n] {
				x := *k
				x.run = x.fresh(nil)
				l = append(l, &x)
			}
		}
		c.Hit("goroutines with arguments of their own")
	} else {
		c.Hit("goroutines with shared arguments")
	}
	out := concurrently(c, "concurrent calls of "+l[0].o.name, l, 8, 12, func(r *R, w, n int) int { return r.N(len(l)) })
	judge(c, l, out)
}

func g02Mix(c *C) {
	l := group(c, "G02 mix", 10, 3)
	for _, k := range l {
		k.run = k.fresh(nil)
	}
	out := concurrently(c, "concurrent calls of many operations", l, 8, 30, func(r *R, w, n int) int { return r.N(len(l)) })
	judge(c, l, out)
	c.Hit("mixed operations")
}

// g02Objects lets all goroutines read the same objects in every way, and sign
// different transactions with the same signer.
func g02Objects(c *C) {
	r := mon.NewR(c.Seed, 4242, uint64(c.Index/shards))
	seed := r.U64()
	var l []*inst
	add := func(name string, mk func(a *A) func() result) {
		o := &op{name, mk}
		l = append(l, &inst{o: o, seed: seed})
	}
	// one object each, made afresh for the sequential results
	t := mkTx(opTx(mon.NewR(seed, 1)))
	for len(t.Inputs) == 0 || len(t.Outputs) == 0 {
		seed++
		t = mkTx(opTx(mon.NewR(seed, 1)))
	}
	s := seed
	for n, x := range readTx {
		x, n := x, n
		for k := 0; k < 2; k++ {
			nn := n*7 + k
			first := true
			add(x.name, func(a *A) func() result {
				tt := t
				if !first {
					tt = mkTx(opTx(mon.NewR(s, 1)))
				}
				first = false
				return func() result { return x.f(tt, nn) }
			})
		}
	}
	sc := scr(genClass(mon.NewR(seed, 2)))
	for _, x := range readScript {
		x := x
		first := true
		add(x.name, func(a *A) func() result {
			ss := sc
			if !first {
				ss = scr(genClass(mon.NewR(s, 2)))
			}
			first = false
			return func() result { return x.f(ss) }
		})
	}
	rs := (&A{seed: seed}).mkRS()
	for _, x := range readRS {
		x := x
		first := true
		add(x.name, func(a *A) func() result {
			rr := rs
			if !first {
				rr = (&A{seed: s}).mkRS()
			}
			first = false
			return func() result { return x.f(rr) }
		})
	}
	for i, k := range l {
		k.seed = seed + uint64(i)<<32
		k.run = k.fresh(nil)
	}
	c.In("objects", seed)
	out := concurrently(c, "concurrent reading of one transaction, script and redeem script", l, 8, 40, func(r *R, w, n int) int { return r.N(len(l)) })
	judge(c, l, out)
	c.Hit("shared objects")
}

func g02Signer(c *C) {
	r := mon.NewR(c.Seed, 777, uint64(c.Index/shards))
	k := keyN(r.N(12))
	sg, flag := genSigner(r, k)
	var l []*inst
	for i := 0; i < 6; i++ {
		seed := r.U64()
		auto := r.Bool()
		name := "Transaction.Sign"
		if auto {
			name = "Transaction.SignAuto"
		}
		o := &op{name + " with a shared signer", func(a *A) func() result {
			mr := mon.NewR(seed)
			var owners []*key
			for i := mr.In(1, 3); i > 0; i-- {
				owners = append(owners, mon.Pick(mr, k, k, keyN(mr.N(12))))
			}
			m := signTx(mr, owners)
			n := mr.N(len(owners))
			return func() result {
				t := mkTx(m)
				var err error
				if auto {
					err = t.SignAuto(sg)
				} else {
					err = t.Sign(uint32(n), sg)
				}
				return shown(func() string { return fmt.Sprint(err != nil, validSigs(t, k, flag)) }, signatures(t)...)
			}
		}}
		l = append(l, &inst{o: o, seed: seed})
	}
	before := signerState(sg)
	for _, i := range l {
		i.run = i.fresh(nil)
	}
	c.In("signer", fmt.Sprint(before))
	out := concurrently(c, "concurrent signing with one signer", l, 8, 4, func(r *R, w, n int) int { return r.N(len(l)) })
	judge(c, l, out)
	mon.Eq(c, "the signer after signing", signerState(sg), before)
	c.Hit("shared signer")
}

func init() {
	nops := len(allOps)
	register(&mon.Prop{
		ID:   "G01",
		Rule: "each case makes calls of one or several operations (of all of the library's) with some arguments and slight changes of them, in random order, repeatedly and with equal arguments in other memory; arguments lie between guarded margins and have guarded spare capacity; or makes up to 24,000 calls of one operation with different arguments and then all of them again, in other orders and other memory; or makes the same few calls for a quarter of a second on end, mostly more than 2^16 times; all eight processes look at the same calls in different orders and their results are compared; distinct by the calls and their order",
		Stages: []mon.Stage{
			{Name: "one operation", Quick: shards * nops * 8, Deep: shards * nops * 200, Run: func(c *C) { g01(c, "G01 one", 1, 6, 20) }},
			{Name: "reused memory", Quick: shards * nops * 4, Deep: shards * nops * 100, Run: g01Memory},
			{Name: "many", Quick: nops, Deep: nops * 40, Run: g01Many},
			{Name: "marathon", Quick: nops, Deep: nops * 8, NoGuide: true, Run: g01Marathon},
			{Name: "mixed", Quick: shards * 500, Deep: shards * 20000, Run: func(c *C) { g01(c, "G01 mix", 8, 3, 48) }},
			// the calls of the first stage, seconds and thousands of calls later
			{Name: "again", Quick: shards * nops * 2, Deep: shards * nops * 8, Run: func(c *C) { g01(c, "G01 one", 1, 6, 20) }},
		},
		Need: map[string]int{"repeated": 30000, "result": 20000, "arguments in reused memory": 10000},
	})
	register(&mon.Prop{
		ID:   "G02",
		Race: true,
		Rule: "in the race-detector build, eight goroutines make calls at the same time, in a quarter of the cases next to up to 1000 waiting ones (the process's first calls of every operation; one operation with slightly different arguments, shared or their own; many operations; all reads of shared objects; signing with a shared signer); every result is compared with sequential ones afterwards; distinct by calls and interleaving (order of call starts and ends)",
		Stages: []mon.Stage{
			{Name: "first use", Quick: shards, Deep: shards * 10, Run: g02First},
			{Name: "storm", Quick: shards * nops, Deep: shards * nops * 12, Run: g02Storm},
			{Name: "mix", Quick: shards * 20, Deep: shards * 400, Run: g02Mix},
			{Name: "objects", Quick: shards * 40, Deep: shards * 800, Run: g02Objects},
			{Name: "signer", Quick: shards * 5, Deep: shards * 200, Run: g02Signer},
		},
		Need: map[string]int{"calls that overlapped others": 5000, "operation first called by all goroutines at the same time": shards * nops, "calls next to waiting goroutines": 100},
	})
}
