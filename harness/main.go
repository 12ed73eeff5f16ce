// Command pbt decides the properties of /verif/properties.jsonl by searching
// generated inputs against explicit oracles.
package main

import (
	"fmt"
	"os"
	"strconv"

	_ "time/tzdata"

	"verif/harness/engine"
	"verif/harness/props"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: pbt run ID | worker ... | replay FILE | list")
		os.Exit(2)
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	switch os.Args[1] {
	case "worker":
		os.Exit(engine.Worker(os.Args[2:]))
	case "replay":
		os.Exit(engine.ReplayOne(os.Args[2], verif+"/known_findings.txt"))
	case "apart":
		if err := props.Apart(os.Stdin, os.Stdout); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	case "list":
		for _, id := range engine.IDs() {
			fmt.Println(id)
		}
	case "run":
		seed := int64(1)
		if s := os.Getenv("VERIF_SEED"); s != "" {
			if v, err := strconv.ParseInt(s, 10, 64); err == nil {
				seed = v
			}
		}
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		scale := 1.0
		if s := os.Getenv("VERIF_SCALE"); s != "" {
			if v, err := strconv.ParseFloat(s, 64); err == nil {
				scale = v
			}
		}
		work, err := os.MkdirTemp("", "pbt-")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		code := engine.Run(os.Args[2], engine.Options{Tier: tier, Seed: seed, Verif: verif, Work: work, Scale: scale})
		_ = os.RemoveAll(work)
		os.Exit(code)
	default:
		os.Exit(2)
	}
}
