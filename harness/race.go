package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"verif/harness/mon"
)

// raceReport is one report of the race detector, deduplicated by the stacks of
// the two accesses with line numbers stripped.
type raceReport struct {
	shard int
	key   string
	text  string
}

var funcLine = regexp.MustCompile(`(?m)^  ([A-Za-z0-9_./\-*()\[\]·]+)\(\)`)

func runRace(p *mon.Prop, seed uint64, tier string, dir string, vs []verdict) []raceReport {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for k := range vs {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			env := []string{fmt.Sprintf("GORACE=halt_on_error=0 exitcode=0 log_path=%s", filepath.Join(dir, fmt.Sprintf("race%d", k)))}
			vs[k] = runShard(p, seed, tier, k, len(vs), dir, env)
		}(k)
	}
	wg.Wait()
	seen := map[string]bool{}
	var out []raceReport
	for k := range vs {
		logs, _ := filepath.Glob(filepath.Join(dir, fmt.Sprintf("race%d.*", k)))
		for _, l := range logs {
			b, _ := os.ReadFile(l)
			for _, blk := range strings.Split(string(b), "==================") {
				if !strings.Contains(blk, "WARNING: DATA RACE") {
					continue
				}
				// a race inside the harness alone would be the harness's own
				if !strings.Contains(blk, "/repo/") && !strings.Contains(blk, "libsv/libsv") {
					vs[k].inconclusive = "data race in the harness: " + mon.Trim(blk, 40)
					continue
				}
				var fs []string
				for _, m := range funcLine.FindAllStringSubmatch(blk, -1) {
					if strings.Contains(m[1], "libsv") {
						fs = append(fs, m[1][strings.LastIndex(m[1], "/")+1:])
					}
				}
				if len(fs) > 4 {
					fs = fs[:4]
				}
				key := strings.Join(fs, " / ")
				if !seen[key] {
					seen[key] = true
					out = append(out, raceReport{k, key, mon.Trim(blk, 60)})
				}
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].key < out[j].key })
	return out
}
