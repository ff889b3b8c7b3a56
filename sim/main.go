//go:debug x509usefallbackroots=1
package main

import (
	"fmt"
	"os"
	"strconv"
	"time"

	"verif/sim/core"
	_ "verif/sim/props"
)

func main() {
	a := os.Args[1:]
	if len(a) < 1 {
		fmt.Fprintln(os.Stderr, "HARNESS: usage")
		os.Exit(3)
	}
	atoi := func(s string) int {
		n, err := strconv.Atoi(s)
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS:", err)
			os.Exit(3)
		}
		return n
	}
	u64 := func(s string) uint64 {
		n, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS:", err)
			os.Exit(3)
		}
		return n
	}
	switch a[0] {
	case "worker":
		core.Worker(a[1], u64(a[2]), atoi(a[3]), atoi(a[4]), len(a) > 5)
	case "one":
		core.One(a[1], len(a) > 2)
	case "plan":
		core.PrintPlan(a[1], u64(a[2]), atoi(a[3]))
	case "twice":
		core.Twice(a[1], u64(a[2]), atoi(a[3]), atoi(a[4]))
	case "check": // ID TIER SEED VERIFDIR SECONDS WORKERS
		os.Exit(core.Check(a[1], a[2], u64(a[3]), a[4], time.Duration(atoi(a[5]))*time.Second, atoi(a[6])))
	case "determinism":
		os.Exit(core.Determinism(a[1], u64(a[2]), atoi(a[3]), atoi(a[4])))
	case "replay":
		os.Exit(core.Replay(a[1]))
	case "list":
		for _, id := range core.SortedKeys(core.Props) {
			fmt.Println(id, core.Props[id].Title)
		}
	}
}
