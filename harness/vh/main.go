// Command vh drives the real bento code of /repo and records what it does as ndjson traces, which TLC
// checks against the specifications in /verif/specs.
//
//	vh run   SUITE -seed N -tier quick|thorough -out DIR [-shards N] [-scripts FILE]
//	vh exec  SUITE -cases FILE -out DIR      re-executes recorded cases (replay)
package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
)

// A Suite generates cases and executes them against the real code.
type Suite struct {
	// Gen emits cases through x.Case; random choices come from x.R only.
	Gen func(x *Ctx)
	// Exec runs one case and records its events with x.Ev.
	Exec func(x *Ctx, c M)
}

var suites = map[string]*Suite{}

func main() {
	if len(os.Args) >= 2 && os.Args[1] == "worker" {
		workerMain(os.Args[2:])
		return
	}
	if len(os.Args) < 3 {
		names := []string{}
		for n := range suites {
			names = append(names, n)
		}
		sort.Strings(names)
		fmt.Fprintln(os.Stderr, "usage: vh run|exec SUITE ...; suites:", names)
		os.Exit(2)
	}
	mode, name := os.Args[1], os.Args[2]
	s := suites[name]
	if s == nil {
		fmt.Fprintln(os.Stderr, "no suite", name)
		os.Exit(2)
	}
	fs := flag.NewFlagSet("vh", flag.ExitOnError)
	seed := fs.Int64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	out := fs.String("out", ".", "")
	shards := fs.Int("shards", 8, "")
	cases := fs.String("cases", "", "")
	scripts := fs.String("scripts", "", "")
	fs.Parse(os.Args[3:])
	x := newCtx(name, s, *seed, *tier, *out, *shards)
	x.ScriptFile = *scripts
	switch mode {
	case "run":
		s.Gen(x)
	case "exec":
		for _, c := range readCases(*cases) {
			x.Case(c)
		}
	default:
		os.Exit(2)
	}
	x.finish()
}
