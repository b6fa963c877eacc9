// hostsim decides one property of the host-side code by simulating it in one process: disk, network, clock and
// randomness are the simulator's.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"testing"
	"time"

	"zksim/engine"
	"zksim/host"
)

func main() {
	testing.Init()
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	evid := flag.String("evidence", "", "evidence file to write")
	rdir := flag.String("replays", "", "directory for replay files")
	known := flag.String("known", "", "known-findings file")
	replay := flag.String("replay", "", "replay a violation file")
	inner := flag.Bool("inner", false, "replay in this process")
	worker := flag.String("worker", "", "internal")
	workers := flag.Int("workers", runtime.NumCPU(), "worker processes")
	scale := flag.Float64("scale", 0, "scale the number of runs")
	capS := flag.Int("cap", 0, "safety cap in seconds")
	self := flag.Bool("digest", false, "print the trace digest only")
	verbose := flag.Bool("v", false, "verbose")
	flag.Parse()
	die := func(err error) {
		fmt.Println("ERROR:", err)
		os.Exit(2)
	}
	if *worker != "" {
		var k, n, from int
		fmt.Sscanf(*worker, "%d/%d/%d", &k, &n, &from)
		host.Worker(*prop, *tier, *seed, *scale, k, n, from)
		return
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			die(err)
		}
		var v host.Violation
		if err := json.Unmarshal(b, &v); err != nil {
			die(err)
		}
		if !*inner { // a run may take the process down
			me, _ := os.Executable()
			out, err := exec.Command(me, "-replay", *replay, "-inner").CombinedOutput()
			os.Stdout.Write(out)
			if err != nil {
				fmt.Printf("REPRODUCED property=%s scenario=%s\n", v.Property, v.Scenario)
				os.Exit(1)
			}
			return
		}
		host.ReplayHere(&v, os.Stdout)
		return
	}
	var kn []engine.Known
	if *known != "" {
		var err error
		if kn, err = engine.LoadKnown(*known); err != nil {
			die(err)
		}
	}
	cp := time.Duration(*capS) * time.Second
	if *capS == 0 {
		cp = 420 * time.Second
		if *tier == "thorough" {
			cp = 100 * time.Minute
		}
	}
	if len(host.Scenarios(*prop)) == 0 {
		die(fmt.Errorf("no scenarios for %q", *prop))
	}
	rep, err := host.Drive(*prop, *tier, *seed, *scale, *workers, cp)
	if err != nil {
		die(err)
	}
	if *self {
		fmt.Println(*prop, rep.Digest)
		return
	}
	var open []*host.Violation
	hits := map[int]string{}
	for _, v := range rep.Viol {
		matched := false
		for i, k := range kn {
			if k.Matches(&engine.Violation{Property: v.Property, Scenario: v.Scenario, Class: v.Class, Kind: v.Kind, Msg: v.Msg}) {
				hits[i] = k.What
				matched = true
			}
		}
		if !matched {
			open = append(open, v)
		}
	}
	cov := map[string]interface{}{
		"evaluations": rep.Runs, "distinct_nontrivial": rep.Nontrivial, "rule": "distinct event traces (digests over system calls, messages, virtual times, faults and outcome) of runs with at least one event", "samples": rep.Samples, "runs": rep.Runs, "seeds_per_hour": int(float64(rep.Runs) / rep.Wall * 3600), "events": rep.Steps,
		"simulated_seconds": rep.Simmed, "distinct_traces": rep.Distinct, "faults_injected": rep.Faults, "scenarios": rep.Scens,
		"classes": rep.Classes, "trace_digest": rep.Digest,
		"real_code": "everything in /repo and its dependencies, the Go standard library above the system call and HTTP round trip seams",
		"stubs":     "system calls on simulated files, HTTP servers, the clock (testing/synctest), crypto/rand, the AWS client's backoff jitter",
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": *seed, "level": "exploration", "coverage": cov,
		"wall_s": rep.Wall, "violations": len(open), "assumptions": host.Assumptions(*prop),
	}
	if *evid != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(*evid, b, 0o644); err != nil {
			die(err)
		}
	}
	if *verbose {
		b, _ := json.MarshalIndent(cov, "", " ")
		fmt.Println(string(b))
	}
	var said []string
	for _, w := range hits {
		said = append(said, w)
	}
	sort.Strings(said)
	for _, w := range said {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, w)
	}
	for i, v := range open {
		b, _ := json.MarshalIndent(v, "", " ")
		os.MkdirAll(*rdir, 0o755)
		p := filepath.Join(*rdir, fmt.Sprintf("%s-%d.json", v.Property, i))
		if err := os.WriteFile(p, b, 0o644); err != nil {
			die(err)
		}
		fmt.Printf("  %s in scenario %s, class %s: %s\n", v.Kind, v.Scenario, v.Class, v.Msg)
		for j, l := range v.Trace {
			if j > 30 {
				break
			}
			fmt.Println("    ", l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, p)
	}
	fmt.Printf("%s: %d runs, %d violations, %.1fs\n", *prop, rep.Runs, len(open), rep.Wall)
	if len(open) > 0 {
		os.Exit(1)
	}
}
