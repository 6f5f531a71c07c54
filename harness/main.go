package main

import (
	"fmt"
	"os"
	"testing"
)

// The harness is one binary.  "vh run <prop> <tier> <seed> <verifdir>" is the
// supervisor: it re-executes itself as a worker that drives the real code, and
// turns the worker's result, crash, race report or stall into a verdict.
func main() {
	if os.Getenv("VH_WORKER") != "" {
		os.Args = os.Args[:1]
		testing.Main(func(a, b string) (bool, error) { return true, nil },
			[]testing.InternalTest{{Name: "worker", F: workerMain}}, nil, nil)
		return
	}
	if len(os.Args) >= 6 && os.Args[1] == "run" {
		os.Exit(supervise(os.Args[2], os.Args[3], os.Args[4], os.Args[5]))
	}
	if len(os.Args) >= 2 && os.Args[1] == "list" {
		for _, id := range propIDs() {
			fmt.Println(id)
		}
		return
	}
	fmt.Fprintln(os.Stderr, "usage: vh run PROP TIER SEED VERIFDIR | vh list")
	os.Exit(2)
}
