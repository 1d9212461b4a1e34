// watersim is the simulator's command line.
//
//	watersim check -prop C01 ...   search for a violation of one property
//	watersim replay FILE           run a replay file again
//	watersim selftest              same seeds, different processes, same hashes
//	watersim worker                (internal) run one batch
package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: watersim check|replay|selftest|worker|gen")
		os.Exit(2)
	}
	cmd := os.Args[1]
	os.Args = append(os.Args[:1], os.Args[2:]...)
	switch cmd {
	case "worker":
		worker()
	case "check":
		os.Exit(check())
	case "replay":
		os.Exit(replay())
	case "selftest":
		os.Exit(selftest())
	case "gen":
		os.Exit(genCase())
	default:
		os.Exit(2)
	}
}
