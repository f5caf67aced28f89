// Command mc runs the model-checking checks.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"

	"verifmc/checks"
	"verifmc/core"
	"verifmc/instr"
	"verifmc/vocab"
)

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	root := os.Getenv("MC_ROOT")
	if root == "" {
		root = "/verif"
	}
	switch os.Args[1] {
	case "vocab":
		b, _ := json.MarshalIndent(vocab.Extract(), "", " ")
		fmt.Println(string(b))
	case "list":
		for _, id := range checks.IDs() {
			fmt.Println(id)
		}
	case "describe":
		for _, id := range checks.IDs() {
			k := checks.Get(id)
			b, _ := json.Marshal(map[string]any{"id": id, "rule": k.Rule, "bounds": k.Bounds, "assumptions": k.Assumptions})
			fmt.Println(string(b))
		}
	case "probe":
		checks.ProbeC09()
	case "instrument":
		if len(os.Args) < 5 {
			usage()
		}
		of, st, err := instr.Make(os.Args[2], os.Args[3], os.Args[4], len(os.Args) > 5 && os.Args[5] == "fine")
		if err != nil {
			fmt.Fprintln(os.Stderr, "not instrumented:", err)
			os.Exit(3)
		}
		fmt.Fprintf(os.Stderr, "%s: %+v\n", of, *st)
	case "shard":
		core.RunShard(get(2), root)
	case "run":
		ck := get(2)
		tier := core.Quick
		if t := os.Getenv("VERIF_TIER"); t == core.Thorough {
			tier = t
		}
		only := int64(-1)
		for i := 3; i < len(os.Args); i++ {
			switch os.Args[i] {
			case core.Quick, core.Thorough:
				tier = os.Args[i]
			case "--case":
				if i+1 < len(os.Args) {
					only, _ = strconv.ParseInt(os.Args[i+1], 10, 64)
					i++
				}
			}
		}
		if only >= 0 {
			os.Exit(core.Only(ck, root, tier, only))
		}
		os.Exit(core.Supervise(ck, root, tier))
	default:
		usage()
	}
}

func get(i int) *core.Check {
	if len(os.Args) <= i {
		usage()
	}
	ck := checks.Get(os.Args[i])
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown check", os.Args[i])
		os.Exit(2)
	}
	return ck
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: mc run ID [quick|thorough] [--case N] | shard ID | list | vocab")
	os.Exit(2)
}
