// Command mc runs the checks: mc run PROP TIER | mc worker ... | mc replay FILE | mc list.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"time"

	"verifmc/checks"
	"verifmc/engine"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc run PROP TIER | replay FILE | list")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "worker":
		ms, _ := strconv.ParseInt(os.Args[4], 10, 64)
		t := time.Time{}
		if ms > 0 {
			t = time.UnixMilli(ms)
		}
		engine.Worker(get(os.Args[2]), os.Args[3], t, os.Args[5])
	case "run":
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		o := engine.Options{Tier: os.Args[3], Seed: seed, Workers: runtime.NumCPU(), Hang: 120 * time.Second,
			Evidence: os.Getenv("MC_EVIDENCE"), Replays: os.Getenv("MC_REPLAYS"), Budget: 400 * time.Second, Confirm: 380 * time.Second}
		if o.Tier == "thorough" {
			o.Budget, o.Confirm = 780*time.Second, 80*time.Second
		}
		if s := os.Getenv("MC_BUDGET"); s != "" {
			n, _ := strconv.Atoi(s)
			o.Budget = time.Duration(n) * time.Second
		}
		os.Exit(engine.Run(get(os.Args[2]), o))
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		var f engine.Failure
		if err == nil {
			err = json.Unmarshal(b, &f)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		os.Exit(engine.Replay(get(f.Prop), &f))
	case "list":
		for _, c := range checks.All {
			for _, t := range []string{"quick", "thorough"} {
				for _, u := range c.Units(t) {
					fmt.Println(c.Prop, t, u.Name)
				}
			}
		}
	}
}

func get(prop string) *engine.Check {
	for i := range checks.All {
		if checks.All[i].Prop == prop {
			return &checks.All[i]
		}
	}
	fmt.Fprintln(os.Stderr, "no check for", prop)
	os.Exit(3)
	return nil
}
