package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/harness/mon"
)

const shards = 8

// the most address space a shard may use: an allocation out of all proportion
// ends the shard with a fatal error instead of filling the machine
const addressSpace = 3 << 30

type shardOut struct {
	Cnt   *mon.Counters
	Found *mon.Found
}

type replayFile struct {
	Property string     `json:"property"`
	Tier     string     `json:"tier"`
	Seed     uint64     `json:"seed"`
	Shard    int        `json:"shard"`
	Shards   int        `json:"shards"`
	Found    *mon.Found `json:"violation"`
	Kind     string     `json:"kind"`
	How      string     `json:"how_to_replay"`
}

// shardMain: ID seed tier k n dir [stage index]
func shardMain(a []string) {
	p := props[a[0]]
	seed, _ := strconv.ParseUint(a[1], 10, 64)
	k, _ := strconv.Atoi(a[3])
	n, _ := strconv.Atoi(a[4])
	dir := a[5]
	slot, err := mon.OpenSlot(filepath.Join(dir, fmt.Sprintf("slot%d", k)), true)
	if err != nil {
		die("%v", err)
	}
	syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
	if p.Race {
		runtime.GOMAXPROCS(8)
	} else {
		lim := syscall.Rlimit{Max: addressSpace}
		syscall.Getrlimit(syscall.RLIMIT_AS, &lim)
		lim.Cur = addressSpace
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
		runtime.GOMAXPROCS(2)
		if surroundings(p) {
			runtime.GOMAXPROCS([]int{2, 2, 2, 2, 1, 2, 4, 2}[k%8])
		}
		debug.SetMaxStack(256 << 20)
	}
	s := &mon.Shard{Prop: p, Seed: seed, Tier: a[2], Shard: k, Shards: n, Slot: slot}
	if len(a) > 6 {
		s.Replaying = true
		s.UntilStage = a[6]
		s.UntilIndex, _ = strconv.Atoi(a[7])
	}
	if file := os.Getenv("VERIF_CHOICES"); file != "" {
		b, err := os.ReadFile(file)
		if err != nil || json.Unmarshal(b, &s.Only) != nil {
			die("cannot read the choices in %s: %v", file, err)
		}
	}
	if file := os.Getenv("VERIF_PROF"); file != "" {
		if w, err := os.Create(fmt.Sprintf("%s.%d", file, k)); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	f := s.Run()
	sigs := make([]byte, 0, 8*len(s.Cnt.Sigs))
	for h := range s.Cnt.Sigs {
		sigs = binary.LittleEndian.AppendUint64(sigs, h)
	}
	if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("sigs%d", k)), sigs, 0o600); err != nil {
		die("%v", err)
	}
	b, err := json.Marshal(shardOut{s.Cnt, f})
	if err != nil {
		die("%v", err)
	}
	out := filepath.Join(dir, fmt.Sprintf("out%d", k))
	if err := os.WriteFile(out+".tmp", b, 0o600); err != nil {
		die("%v", err)
	}
	if err := os.Rename(out+".tmp", out); err != nil {
		die("%v", err)
	}
}

type verdict struct {
	out          *shardOut
	found        *mon.Found
	kind         string // how the violation showed
	inconclusive string
}

// statFields are the fields of a stat file behind the name; nil if there is none.
func statFields(name string) []string {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	if len(f) < 13 {
		return nil
	}
	return f
}

// cpuAndState gives the processor time the process has used, ended threads
// included, and whether all its threads sleep.
func cpuAndState(pid int) (ticks uint64, sleeping bool, ok bool) {
	f := statFields(fmt.Sprintf("/proc/%d/stat", pid))
	if f == nil {
		return
	}
	u, err1 := strconv.ParseUint(f[11], 10, 64)
	v, err2 := strconv.ParseUint(f[12], 10, 64)
	tasks, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/stat", pid))
	sleeping = len(tasks) > 0
	for _, t := range tasks {
		if f := statFields(t); f == nil || f[0] != "S" {
			sleeping = false
		}
	}
	return u + v, sleeping, err1 == nil && err2 == nil
}

// surroundings tells whether the processes of p run in different surroundings, on
// which no result may depend; not where time or memory is measured.
func surroundings(p *mon.Prop) bool { return !p.Race && p.ID != "G03" && p.ID != "G04" }

// around gives the k-th process its environment and directory.
func around(p *mon.Prop, cmd *exec.Cmd, k int, dir string) {
	if !surroundings(p) {
		return
	}
	set := func(l ...string) { cmd.Env = append(cmd.Env, l...) }
	switch k % 8 {
	case 1:
		set("TZ=Asia/Kathmandu", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "LANGUAGE=tr")
	case 2: // hardly any environment
		var l []string
		for _, e := range cmd.Env {
			if strings.HasPrefix(e, "VERIF_") || strings.HasPrefix(e, "PATH=") || strings.HasPrefix(e, "GO") {
				l = append(l, e)
			}
		}
		cmd.Env = l
	case 3:
		set("DEBUG=1", "VERBOSE=1", "TRACE=1", "LOG_LEVEL=debug", "LIBSV_DEBUG=1")
	case 5:
		set("ENV=production", "NETWORK=testnet", "TESTNET=1", "REGTEST=1", "CI=true", "TEST=1", "HOME=/nonexistent", "USER=nobody")
	case 6:
		set("GOGC=30")
	case 7:
		if d := filepath.Join(dir, fmt.Sprintf("wd%d", k)); os.MkdirAll(d, 0o700) == nil {
			cmd.Dir = d
		}
	}
}

// runShard starts one shard and watches it.
func runShard(p *mon.Prop, seed uint64, tier string, k, n int, dir string, env []string, extra ...string) verdict {
	args := append([]string{"shard", p.ID, fmt.Sprint(seed), tier, fmt.Sprint(k), fmt.Sprint(n), dir}, extra...)
	exe, err := os.Executable()
	if err != nil {
		return verdict{inconclusive: err.Error()}
	}
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), env...)
	around(p, cmd, k, dir)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	errName := filepath.Join(dir, fmt.Sprintf("stderr%d", k))
	ef, err := os.Create(errName)
	if err != nil {
		return verdict{inconclusive: err.Error()}
	}
	cmd.Stderr = ef
	cmd.Stdout = ef
	slotName := filepath.Join(dir, fmt.Sprintf("slot%d", k))
	slot, err := mon.OpenSlot(slotName, true)
	if err != nil {
		return verdict{inconclusive: err.Error()}
	}
	if err := cmd.Start(); err != nil {
		return verdict{inconclusive: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	var lastSeq, startTicks, lastTicks uint64
	var asleep int
	var hung string
	var werr error
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-tick.C:
			seq, stage, index, api := slot.Read()
			if seq&1 == 0 || seq != lastSeq {
				var ok bool
				if startTicks, _, ok = cpuAndState(cmd.Process.Pid); ok {
					lastSeq = seq
				} else {
					lastSeq = 0
				}
				asleep = 0
				continue
			}
			t, sl, ok := cpuAndState(cmd.Process.Pid)
			if !ok {
				continue
			}
			if sl && t == lastTicks {
				asleep++
			} else {
				asleep = 0
			}
			lastTicks = t
			// 100 ticks are one second of processor time
			if t >= startTicks+4000 {
				hung = fmt.Sprintf("%s did not return: it used %d s of processor time in one call", api, (t-startTicks)/100)
			} else if asleep >= 120 {
				hung = fmt.Sprintf("%s did not return: it blocked with all threads asleep", api)
			}
			if hung != "" {
				cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(300 * time.Millisecond)
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				ef.Close()
				st, _ := os.ReadFile(errName)
				return verdict{found: &mon.Found{Stage: stage, Index: index, Msg: hung, Stack: mon.Trim(string(st), 60)}, kind: "no return"}
			}
		}
	}
	ef.Close()
	b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("out%d", k)))
	if err == nil {
		var o shardOut
		if err := json.Unmarshal(b, &o); err != nil {
			return verdict{inconclusive: err.Error()}
		}
		if o.Found != nil {
			return verdict{out: &o, found: o.Found, kind: "observed"}
		}
		if werr != nil && !p.Race {
			return verdict{out: &o, inconclusive: werr.Error()}
		}
		return verdict{out: &o}
	}
	st, _ := os.ReadFile(errName)
	text := string(st)
	_, stage, index, api := slot.Read()
	fatal := ""
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") || strings.HasPrefix(l, "unexpected fault") || strings.HasPrefix(l, "SIG") {
			fatal = l
			break
		}
	}
	// only a crash with libsv on the stack, or inside an observed call, counts
	seq, _, _, _ := slot.Read()
	if fatal != "" && (seq&1 == 1 || strings.Contains(text, "/repo/")) {
		return verdict{found: &mon.Found{Stage: stage, Index: index, Msg: fmt.Sprintf("%s ended the process: %s", api, fatal), Stack: mon.Trim(text, 60)}, kind: "crash"}
	}
	return verdict{inconclusive: fmt.Sprintf("shard %d ended without a result (%v) at stage %s case %d: %s", k, werr, stage, index, mon.Trim(text, 20))}
}

// root is /verif, the directory above the harness.
func root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "."
}

func check(p *mon.Prop, seed uint64, tier string) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(dir)
	n := shards
	vs := make([]verdict, n)
	var races []raceReport
	if p.Race {
		races = runRace(p, seed, tier, dir, vs)
	} else {
		var wg sync.WaitGroup
		sem := make(chan struct{}, max(2, runtime.NumCPU()))
		for k := 0; k < n; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				vs[k] = runShard(p, seed, tier, k, n, dir, nil)
			}(k)
		}
		wg.Wait()
	}
	code := 0
	bad := -1
	for k, v := range vs {
		if v.found != nil && bad < 0 {
			bad = k
		}
	}
	total := mon.NewCounters()
	for k, v := range vs {
		if v.out == nil || v.out.Cnt == nil {
			continue
		}
		merge(total, v.out.Cnt)
		b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("sigs%d", k)))
		for ; len(b) >= 8; b = b[8:] {
			total.Sigs[binary.LittleEndian.Uint64(b)] = struct{}{}
		}
	}
	clash, clashShard := crossCheck(vs)
	violations := 0
	switch {
	case bad < 0 && clash != nil:
		violations = 1
		code = 1
		path := writeReplay(&replayFile{Property: p.ID, Tier: tier, Seed: seed, Shard: clashShard, Shards: n, Found: clash, Kind: "between processes"})
		fmt.Printf("%s: stage %s, case %d: %s\n", p.ID, clash.Stage, clash.Index, clash.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	case bad >= 0 || len(races) > 0:
		violations = 1
		code = 1
		rf := replayFile{Property: p.ID, Tier: tier, Seed: seed, Shards: n}
		if bad >= 0 {
			v := vs[bad]
			rf.Shard, rf.Found, rf.Kind = bad, v.found, v.kind
			if v.kind == "observed" && !p.Race {
				if r := again(&rf); r.found != nil {
					rf.Found = r.found
				}
			}
		} else {
			r := races[0]
			rf.Kind = "data race"
			rf.Shard = r.shard
			rf.Found = &mon.Found{Msg: "data race: " + r.key, Stack: r.text}
			violations = len(races)
		}
		path := writeReplay(&rf)
		fmt.Printf("%s: stage %s, case %d: %s\n", p.ID, rf.Found.Stage, rf.Found.Index, rf.Found.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	default:
		for _, v := range vs {
			if v.inconclusive != "" {
				fmt.Fprintf(os.Stderr, "%s: inconclusive: %s\n", p.ID, v.inconclusive)
				code = 2
			}
		}
		var missing []string
		for f, min := range p.Need {
			if total.Hits[f] < int64(min) {
				missing = append(missing, fmt.Sprintf("%s (%d of %d)", f, total.Hits[f], min))
			}
		}
		if code == 0 && len(missing) > 0 && os.Getenv("VERIF_STAGE") == "" {
			sort.Strings(missing)
			fmt.Fprintf(os.Stderr, "%s: inconclusive: the workload did not reach %s\n", p.ID, strings.Join(missing, ", "))
			code = 2
		}
	}
	wall := time.Since(start).Seconds()
	if err := writeEvidence(p, total, seed, tier, wall, violations, code, races); err != nil {
		die("%v", err)
	}
	if code == 0 {
		var calls int64
		for _, c := range total.Calls {
			calls += c
		}
		fmt.Printf("%s held: %d cases, %d distinct, %d calls observed, %d checks, %.1f s\n", p.ID, total.Cases, len(total.Sigs), calls, total.Checks, wall)
	}
	return code
}

// crossCheck compares what shards answered to the same question, and the values
// that may occur only once.
func crossCheck(vs []verdict) (*mon.Found, int) {
	agreed := map[uint64]mon.Answer{}
	unique := map[string]string{}
	for k, v := range vs {
		if v.out == nil || v.out.Cnt == nil {
			continue
		}
		for q, a := range v.out.Cnt.Agreed {
			if b, ok := agreed[q]; !ok {
				agreed[q] = a
			} else if a.Hash != b.Hash {
				return &mon.Found{Stage: "between processes", Msg: fmt.Sprintf("the same call gave different results in two processes with different histories: %s / %s", a.What, b.What)}, k
			}
		}
		for x, w := range v.out.Cnt.Unique {
			if w2, ok := unique[x]; ok {
				return &mon.Found{Stage: "between processes", Msg: fmt.Sprintf("a value that may occur only once (%s) occurred in two processes: %s / %s", x, w, w2)}, k
			}
			unique[x] = w
		}
	}
	return nil, 0
}

func merge(t, c *mon.Counters) {
	t.Cases += c.Cases
	t.Checks += c.Checks
	t.Retained += c.Retained
	t.Spoiled += c.Spoiled
	t.Guarded += c.Guarded
	t.Kept += c.Kept
	t.CodeCounters = max(t.CodeCounters, c.CodeCounters)
	t.CodeReached = max(t.CodeReached, c.CodeReached)
	t.CodeFeatures = max(t.CodeFeatures, c.CodeFeatures)
	t.MaxAlloc = max(t.MaxAlloc, c.MaxAlloc)
	for _, p := range []struct{ a, b map[string]int64 }{{t.Calls, c.Calls}, {t.Errors, c.Errors}, {t.Hits, c.Hits}, {t.Stages, c.Stages}} {
		for k, v := range p.b {
			p.a[k] += v
		}
	}
	if len(t.Samples) < 6 {
		t.Samples = append(t.Samples, c.Samples...)
	}
}

func writeReplay(rf *replayFile) string {
	dir := filepath.Join(root(), "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-seed%d.json", rf.Property, rf.Tier, rf.Seed))
	rf.How = fmt.Sprintf("cd /verif && bash run.sh %s --replay %s", rf.Property, path)
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	return path
}

// again runs the case of a violation again, with a trace: a guided case alone,
// if that suffices, else all cases of its shard up to it.
func again(rf *replayFile) verdict {
	dir, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		return verdict{inconclusive: err.Error()}
	}
	defer os.RemoveAll(dir)
	p, f := props[rf.Property], rf.Found
	if f.Of != "" {
		name := filepath.Join(dir, "choices")
		b, _ := json.Marshal(f)
		if err := os.WriteFile(name, b, 0o600); err == nil {
			if v := runShard(p, rf.Seed, rf.Tier, rf.Shard, rf.Shards, dir, []string{"VERIF_CHOICES=" + name}, f.Stage, fmt.Sprint(f.Index)); v.found != nil {
				return v
			}
			os.Remove(filepath.Join(dir, fmt.Sprintf("out%d", rf.Shard)))
		}
	}
	return runShard(p, rf.Seed, rf.Tier, rf.Shard, rf.Shards, dir, nil, f.Stage, fmt.Sprint(f.Index))
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil || props[rf.Property] == nil || rf.Found == nil {
		die("not a replay file: %v", err)
	}
	p := props[rf.Property]
	if rf.Kind == "between processes" {
		// only a whole run shows it
		return check(p, rf.Seed, rf.Tier)
	}
	dir, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(dir)
	if p.Race {
		vs := make([]verdict, shards)
		races := runRace(p, rf.Seed, rf.Tier, dir, vs)
		for _, r := range races {
			fmt.Println(r.text)
		}
		bad := len(races) > 0
		for _, v := range vs {
			if v.found != nil {
				bad = true
				fmt.Println(v.found.Msg)
				fmt.Println(v.found.Stack)
			}
		}
		if bad {
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	v := again(&rf)
	if v.found == nil {
		fmt.Println("not reproduced", v.inconclusive)
		return 0
	}
	fmt.Printf("stage %s, case %d\n", v.found.Stage, v.found.Index)
	for _, t := range v.found.Trace {
		fmt.Println("  ", t)
	}
	fmt.Println(v.found.Msg)
	fmt.Println(v.found.Stack)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
	return 1
}

func writeEvidence(p *mon.Prop, t *mon.Counters, seed uint64, tier string, wall float64, violations, code int, races []raceReport) error {
	samples := t.Samples
	if len(samples) > 6 {
		samples = samples[:6]
	}
	var calls int64
	for _, c := range t.Calls {
		calls += c
	}
	verdictText := map[int]string{0: "held on everything observed", 1: "violated", 2: "inconclusive"}[code]
	cov := map[string]any{
		"evaluations":         t.Cases,
		"distinct_nontrivial": len(t.Sigs),
		"rule":                p.Rule,
		"samples":             samples,
		"verdict":             verdictText,
		"cases_by_stage":      t.Stages,
		"api_calls_observed":  t.Calls,
		"api_calls_total":     calls,
		"api_errors_observed": t.Errors,
		"features_observed":   t.Hits,
		"oracle_checks":       t.Checks,
		"guarded_arguments":   t.Guarded,
		"retained_results":    t.Retained,
		"results_edited":      t.Spoiled,
	}
	if t.CodeCounters > 0 {
		cov["guided_by_coverage"] = map[string]any{
			"counters_in_the_code_linked": t.CodeCounters, "counters_reached_by_one_process": t.CodeReached,
			"features_seen_by_one_process": t.CodeFeatures, "cases_kept": t.Kept, "cases_made_from_kept_ones": t.Stages[mon.GuidedName],
		}
	}
	if t.MaxAlloc > 0 {
		cov["largest_allocation_of_a_call_bytes"] = t.MaxAlloc
	}
	if p.Race {
		cov["data_race_reports"] = len(races)
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": wall, "violations": violations,
		"assumptions": []string{
			"the reference models in harness/ref (checked against published vectors at the start of every run) state the protocol correctly",
			"nothing is said about inputs, histories and schedules that the workload did not produce",
		},
	}
	dir := filepath.Join(root(), "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644)
}
