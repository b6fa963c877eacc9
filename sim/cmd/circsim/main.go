// circsim decides one property by simulating proving sessions against circuits compiled from /repo.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"

	"github.com/consensys/gnark/logger"
	"github.com/rs/zerolog"
	"zksim/circ"
	"zksim/engine"
)

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	evid := flag.String("evidence", "", "evidence file to write")
	rdir := flag.String("replays", "", "directory for replay files")
	known := flag.String("known", "", "known-findings file")
	replay := flag.String("replay", "", "replay a violation file")
	workers := flag.Int("workers", runtime.NumCPU(), "workers")
	scale := flag.Float64("scale", 0, "scale the number of cases")
	only := flag.String("only", "", "only scenarios containing this text")
	capS := flag.Int("cap", 0, "safety cap in seconds")
	self := flag.Bool("digest", false, "print the trace digest only")
	verbose := flag.Bool("v", false, "verbose")
	prof := flag.String("cpuprofile", "", "write a CPU profile")
	flag.Parse()
	debug.SetMemoryLimit(16 << 30)
	out := os.Stdout
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	logger.Set(zerolog.Nop())
	die := func(err error) {
		fmt.Fprintln(out, "ERROR:", err)
		os.Exit(2)
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			die(err)
		}
		var v engine.Violation
		if err := json.Unmarshal(b, &v); err != nil {
			die(err)
		}
		for _, sc := range circ.Scenarios(v.Property, "thorough") {
			if sc.Name == v.Scenario {
				ok, msg := engine.Replay(&v, sc)
				if ok {
					fmt.Fprintf(out, "REPRODUCED property=%s scenario=%s: %s\n", v.Property, v.Scenario, msg)
					os.Exit(1)
				}
				fmt.Fprintf(out, "not reproduced: %s\n", msg)
				os.Exit(0)
			}
		}
		die(fmt.Errorf("scenario %q not found", v.Scenario))
	}
	if *prof != "" {
		f, err := os.Create(*prof)
		if err != nil {
			die(err)
		}
		pprof.StartCPUProfile(f)
	}
	all := circ.Scenarios(*prop, *tier)
	var scens []*engine.Scenario
	for _, s := range all {
		if *only == "" || strings.Contains(s.Name, *only) {
			scens = append(scens, s)
		}
	}
	if len(scens) == 0 {
		die(fmt.Errorf("no scenarios for %q", *prop))
	}
	var kn []engine.Known
	if *known != "" {
		var err error
		if kn, err = engine.LoadKnown(*known); err != nil {
			die(err)
		}
	}
	cp := time.Duration(*capS) * time.Second
	if *capS == 0 {
		cp = 420 * time.Second
		if *tier == "thorough" {
			cp = 100 * time.Minute
		}
	}
	rep := engine.Run(&engine.Options{Property: *prop, Tier: *tier, Seed: *seed, Workers: *workers, Known: kn, Cap: cp, Scale: *scale}, scens)
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	if rep.Err != nil {
		die(rep.Err)
	}
	if *self {
		fmt.Fprintln(out, *prop, rep.Digest)
		os.Exit(0)
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": *seed, "level": "exploration", "coverage": rep.Coverage,
		"wall_s": rep.Wall, "violations": len(rep.Viol),
		"assumptions": circ.Assumptions(*prop),
	}
	if *evid != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(*evid, b, 0o644); err != nil {
			die(err)
		}
	}
	if *verbose {
		b, _ := json.MarshalIndent(rep.Coverage, "", " ")
		fmt.Fprintln(out, string(b))
	}
	for _, k := range kn {
		if w, ok := rep.KnownHits[fmt.Sprintf("%s/%s/%s", k.Scenario, k.Class, k.Kind)]; ok && k.Property == *prop {
			fmt.Fprintf(out, "KNOWN-FINDING: property=%s %s\n", *prop, w)
		}
	}
	for _, v := range rep.Viol {
		p, err := v.Save(*rdir)
		if err != nil {
			die(err)
		}
		fmt.Fprintf(out, "  %s in scenario %s, class %s: %s\n  case: %s\n", v.Kind, v.Scenario, v.Class, v.Msg, v.Desc)
		fmt.Fprintf(out, "VIOLATION property=%s replay=%s\n", v.Property, p)
	}
	fmt.Fprintf(out, "%s: %v sessions, %d violations, %.1fs\n", *prop, rep.Coverage["evaluations"], len(rep.Viol), rep.Wall)
	if len(rep.Viol) > 0 {
		os.Exit(1)
	}
}
