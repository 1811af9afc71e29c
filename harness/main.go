// Command harness runs libsv under the workloads and monitors of one property.
//
//	harness check ID      run all shards of the property's workload, judge, write evidence
//	harness replay FILE   rerun the case of a violation
//	harness shard ...     one shard (started by check)
//	harness list          the properties it knows
package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"

	"verif/harness/mon"
	"verif/harness/ref"
)

var props = map[string]*mon.Prop{}

func register(p *mon.Prop) {
	if props[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	props[p.ID] = p
}

func ids() (l []string) {
	for id := range props {
		l = append(l, id)
	}
	sort.Strings(l)
	return
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		die("usage: harness check ID | replay FILE | list")
	}
	words()
	switch os.Args[1] {
	case "list":
		for _, id := range ids() {
			fmt.Println(id)
		}
	case "selftest":
		if err := ref.SelfTest(); err != nil {
			die("%v", err)
		}
	case "huge":
		huge(os.Args[2])
	case "sealed":
		sealed(os.Args[2:])
	case "grind":
		grindMain(os.Args[2:])
	case "randfault":
		randFault(os.Args[2:])
	case "shard":
		shardMain(os.Args[2:])
	case "check":
		if len(os.Args) < 3 || props[os.Args[2]] == nil {
			die("unknown property")
		}
		if err := ref.SelfTest(); err != nil {
			die("%v", err)
		}
		seed := uint64(1)
		if s := os.Getenv("VERIF_SEED"); s != "" {
			v, err := strconv.ParseUint(s, 10, 64)
			if err != nil {
				v = mon.HashStr(s) >> 1
			}
			seed = v
		}
		tier := "quick"
		if os.Getenv("VERIF_TIER") == "thorough" {
			tier = "thorough"
		}
		os.Exit(check(props[os.Args[2]], seed, tier))
	case "replay":
		if len(os.Args) < 3 {
			die("replay which file?")
		}
		os.Exit(replay(os.Args[2]))
	default:
		die("unknown command %s", os.Args[1])
	}
}
