package main

import (
	"context"
	"crypto/rand"
	"flag"
	"fmt"
	"log"
	"log/slog"
	"os"
	"os/signal"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"syscall"
	"time"
)

// settings are the settings of the process that any code in it can change.
func settings() map[string]string {
	m := map[string]string{}
	env := os.Environ()
	sort.Strings(env)
	m["environment"] = strings.Join(env, "\n")
	m["working directory"], _ = os.Getwd()
	m["arguments"] = fmt.Sprintf("%q", os.Args)
	ms := []metrics.Sample{{Name: "/gc/gogc:percent"}, {Name: "/gc/gomemlimit:bytes"}, {Name: "/sched/gomaxprocs:threads"}}
	metrics.Read(ms)
	for _, s := range ms {
		if s.Value.Kind() == metrics.KindUint64 {
			m[s.Name] = fmt.Sprint(s.Value.Uint64())
		}
	}
	m["memory profile rate"] = fmt.Sprint(runtime.MemProfileRate)
	m["mutex profile fraction"] = fmt.Sprint(runtime.SetMutexProfileFraction(-1))
	n := debug.SetMaxStack(256 << 20)
	debug.SetMaxStack(n)
	m["greatest stack"] = fmt.Sprint(n)
	n = debug.SetMaxThreads(10000)
	debug.SetMaxThreads(n)
	m["number of threads allowed"] = fmt.Sprint(n)
	m["flags of the logger"] = fmt.Sprint(log.Flags())
	m["prefix of the logger"] = log.Prefix()
	m["writer of the logger"] = fmt.Sprintf("%T %p", log.Writer(), log.Writer())
	m["structured logger"] = fmt.Sprintf("%p %v %v", slog.Default(), slog.Default().Enabled(context.Background(), slog.LevelDebug), slog.Default().Enabled(context.Background(), slog.LevelInfo))
	m["time zone"] = fmt.Sprintf("%p %s", time.Local, time.Local)
	m["source of random bytes"] = fmt.Sprintf("%T %p", rand.Reader, rand.Reader)
	m["standard files"] = fmt.Sprintf("%p %p %p", os.Stdin, os.Stdout, os.Stderr)
	m["command line"] = fmt.Sprintf("%p", flag.CommandLine)
	flag.VisitAll(func(f *flag.Flag) { m["command line"] += " " + f.Name + "=" + f.Value.String() })
	for i := 1; i < 32; i++ {
		if s := syscall.Signal(i); signal.Ignored(s) {
			m["ignored signals"] += " " + s.String()
		}
	}
	for i := 0; i < 16; i++ {
		var l syscall.Rlimit
		if syscall.Getrlimit(i, &l) == nil {
			m["limit "+fmt.Sprint(i)] = fmt.Sprint(l)
		}
	}
	b, _ := os.ReadFile("/proc/self/status")
	for _, l := range strings.Split(string(b), "\n") {
		if k, v, ok := strings.Cut(l, ":"); ok && (k == "Umask" || k == "SigIgn" || k == "SigCgt" || k == "NoNewPrivs") {
			m["status "+k] = v
		}
	}
	return m
}

// g04Keeps checks that the calls of a case leave the settings of the process as
// they are.
func g04Keeps(run func(c *C)) func(c *C) {
	return func(c *C) {
		before := settings()
		run(c)
		after := settings()
		for k := range after {
			if _, ok := before[k]; !ok {
				before[k] = ""
			}
		}
		ks := make([]string, 0, len(before))
		for k := range before {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			c.Check(after[k] == before[k], "the calls of the case changed a setting of the process: %s was %q and is %q", k, trimSetting(before[k]), trimSetting(after[k]))
		}
		c.HitN("settings compared", len(ks))
	}
}

func trimSetting(s string) string {
	if len(s) > 200 {
		return s[:100] + " ... " + s[len(s)-100:]
	}
	return s
}
