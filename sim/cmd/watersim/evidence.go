package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"time"
)

func (k *coord) evidence(verif, tier string, seed uint64, t *tally, explore, wall time.Duration, code, runs, secs int) {
	perHour := func(n int) int {
		if explore <= 0 {
			return 0
		}
		return int(float64(n) / explore.Hours())
	}
	samples := []any{}
	for _, s := range t.samples {
		samples = append(samples, s)
	}
	faults := map[string]int{}
	for n, c := range t.fired {
		faults[n] = c
	}
	viol := 0
	if code == 1 {
		viol = 1
	}
	cov := map[string]any{
		"evaluations":                      t.runs,
		"distinct_nontrivial":              len(t.nontriv),
		"rule":                             "A run is one case generated from one seed (routers, engines, clients with scripted handlers, bodies, connections, disk and log faults, scheduling policy), executed under the seeded scheduler and compared request by request with the reference model. It counts as non-trivial when it had more than one request, or requests overlapped, or at least one fault fired; runs are distinct when handler history, statuses or the schedule (hash over every scheduling decision) differ.",
		"samples":                          samples,
		"requests":                         t.requests,
		"runs_with_overlap":                t.overlap,
		"runs_per_hour":                    perHour(t.runs),
		"seeds_per_hour":                   perHour(t.runs),
		"simulated_seconds":                float64(t.sim) / 1e9,
		"scheduling_steps":                 t.steps,
		"preemptions":                      t.switches,
		"distinct_schedules":               len(t.sched),
		"distinct_schedules_measure":       "hash over the sequence (task, yield site) of every step and every hand-over of a run",
		"sites_total":                      k.build.Sites,
		"sites_executed":                   len(t.visited),
		"sites_preempted_at":               len(t.preempted),
		"context_pool_reuses":              t.reuses,
		"faults_fired":                     faults,
		"rare_conditions":                  t.probes,
		"mismatches_outside_this_property": t.other,
		"unconfirmed_candidates":           t.unconf,
		"determinism":                      map[string]int{"re_executed": t.reexec, "differing": t.reexecBad},
		"workers_crashed":                  t.crashes,
		"workers_ended_by_watchdog":        t.hung,
		"build":                            k.build,
		"limits":                           map[string]int{"runs": runs, "seconds": secs},
		"real_components": []string{
			"all packages of the repository (built from its working tree, every statement preceded by a scheduling point)",
			"standard library (net/http helpers such as ServeContent and Redirect, mime/multipart, encoding/*), json-iterator, validator",
			"logx formatting (its store replaced)",
			"the operating system's files in a scratch directory, behind the simulated disk's fault hooks",
		},
		"stub_components": []string{
			"HTTP connection: response writer and request body with net/http's handler-side rules, failing, stalling and fragmenting as the seed says",
			"net/http server loop: clients call the engine's ServeHTTP and apply the server's epilogue",
			"packages sync and time as used by the repository (scheduler-controlled), sync.Pool recycling policy",
			"http.FileSystem of static routes (in-memory, versioned)",
			"log store",
		},
	}
	ev := map[string]any{
		"property": k.prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall.Seconds(), "violations": viol,
		"assumptions": []string{
			"preemption happens at statement boundaries of the repository's code and at I/O seams, not inside standard-library calls",
			"the reference model (sim/wsim/model.go) states the documented behaviour correctly",
			"handlers, configurations and faults outside the generator's vocabulary (sim/wsim/gen*.go) are not covered",
		},
	}
	if k.prop == "C24" {
		cov["rule"] = "A run is 24 waves of requests generated from one seed (routers, engines, 8 clients with scripted handlers, connections, disk and log faults, scheduling policy), executed under the seeded scheduler; after a wave nothing is in progress and a simulated day passes, at six points goroutines, heap objects, heap bytes and descriptors of the process are counted, and growth in every segment beyond the thresholds of sim/wsim/waves.go, still there when the run is made four times as long, is the violation. Runs are distinct when statuses or the schedule (hash over every scheduling decision) differ."
		ev["assumptions"] = []string{
			"what fewer than 0.4% of the requests of a kind generated here leave behind is below the threshold",
			"preemption happens at statement boundaries of the repository's code and at I/O seams, not inside standard-library calls",
			"handlers, configurations and faults outside the generator's vocabulary (sim/wsim/gen*.go) are not covered",
		}
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	raw, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", k.prop+".json"), append(raw, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
}
