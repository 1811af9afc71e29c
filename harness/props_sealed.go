package main

import (
	"context"
	"fmt"
	"log"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"

	"verif/harness/mon"
)

// What calls do outside of the process is watched by the kernel: a process makes
// calls of all operations after it has given up opening files, sockets and
// processes. The first attempt ends it, and shows where it was made.

// sealed is what that process does with its part of the operations.
func sealed(a []string) {
	part, _ := strconv.Atoi(a[0])
	parts, _ := strconv.Atoi(a[1])
	seed, _ := strconv.ParseUint(a[2], 10, 64)
	ms, _ := strconv.Atoi(a[3])
	// what the harness and Go themselves look up once
	_ = time.Now().Local().String()
	log.Print("sealing")
	_ = dict()
	if err := seal(); err != nil {
		fmt.Println("skipped:", err)
		return
	}
	n, k := 0, 0
	st := &mon.Stage{Name: "sealed"}
	c := &C{Cnt: mon.NewCounters(), Stage: st, Seed: seed}
	one := func(f func(i int)) {
		k++
		if k%parts != part {
			return
		}
		t0 := time.Now()
		for i := 0; i < 20 || i < 2000 && time.Since(t0) < time.Duration(ms)*time.Millisecond; i++ {
			n++
			func() {
				defer func() { _ = recover() }() // crashes are the business of others
				f(i)
			}()
		}
	}
	for i := range allOps {
		o := &allOps[i]
		one(func(i int) { _ = o.mk(&A{seed: seed + uint64(i)*0x9e3779b97f4a7c15})().show() })
	}
	for i := range hostileTargets {
		t := &hostileTargets[i]
		one(func(i int) {
			r := mon.NewR(seed, uint64(i))
			t.run(&hostile{c: aside(c, r)}, r)
		})
	}
	for i := range leakWide {
		t := &leakWide[i]
		one(func(i int) { t.do(mon.NewR(seed, uint64(i))) })
	}
	for i := range leakLarge {
		t := &leakLarge[i]
		one(func(i int) { t.mk(mon.NewR(seed, uint64(i)))() })
	}
	time.Sleep(20 * time.Millisecond) // for goroutines started
	fmt.Println("done", n)
}

const sealedParts = 16

func g04Sealed(c *C) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	ms := 30
	if c.Tier == "thorough" {
		ms *= 5
	}
	seed := c.R.U64()
	c.In("part", c.Index%sealedParts)
	c.In("seed", seed)
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, "sealed", strconv.Itoa(c.Index%sealedParts), strconv.Itoa(sealedParts), strconv.FormatUint(seed, 10), strconv.Itoa(ms))
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMAXPROCS=4", // no updates from control group files
		"GLIBC_TUNABLES=glibc.malloc.arena_max=1") // the C library looks up the processors for another
	out, err := cmd.Output()
	if _, m, ok := strings.Cut(string(out), "done "); ok {
		n, _ := strconv.Atoi(strings.TrimSpace(m))
		c.HitN("calls while files, network and processes were out of reach", n)
		c.Cnt.Checks += int64(n)
		return
	}
	if e, ok := err.(*exec.ExitError); ok {
		s := string(e.Stderr)
		if i := strings.Index(s, "SIGSYS"); i >= 0 {
			s = s[i:]
			// the first frame in the library
			for _, l := range strings.Split(s, "\n") {
				if strings.HasPrefix(l, "github.com/libsv/libsv/") || strings.HasPrefix(l, "created by github.com/libsv/libsv/") {
					c.Check(false, "a call tries to reach something outside of the process (a file, the network or another process): %s\n%s", l, mon.Trim(s, 60))
				}
			}
		}
	}
}
