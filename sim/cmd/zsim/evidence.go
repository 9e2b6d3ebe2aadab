package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func writeIndented(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}

// files of the library in which statements were executed
func reached(hits []int) (map[string]string, int) {
	tot, hit := map[string]int{}, map[string]int{}
	file := func(i int) string {
		n := siteNames[i]
		if k := strings.LastIndex(n, ":"); k > 0 {
			n = n[:k]
		}
		return n
	}
	for i := range siteNames {
		tot[file(i)]++
	}
	for _, i := range hits {
		if i < len(siteNames) {
			hit[file(i)]++
		}
	}
	out := map[string]string{}
	for f, n := range tot {
		if hit[f] > 0 {
			out[f] = fmt.Sprintf("%d of %d statements", hit[f], n)
		}
	}
	return out, len(hits)
}

func writeEvidence(verif, prop, tier string, seed uint64, tot *totals, distinct int, simWall, wall float64, asked uint64, procs int, rep *Spec, audited, diverged int) {
	files, sites := reached(tot.sites())
	zero := []string{}
	for _, p := range expectedProbes[prop] {
		if tot.Probes[p] == 0 && tot.Faults[p] == 0 {
			zero = append(zero, p)
		}
	}
	sort.Strings(zero)
	perHour := 0.0
	if simWall > 0 {
		perHour = float64(tot.Runs) / simWall * 3600
	}
	samples := tot.Samples
	if len(samples) > 6 {
		samples = samples[:6]
	}
	if len(samples) == 0 {
		samples = []string{"(none: the run ended at its first failure)"}
	}
	n := 0
	if rep != nil {
		n = 1
		samples = append(samples, "violation: "+rep.Message)
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"wall_s": wall, "violations": n,
		"assumptions": append([]string{
			"sampled, not enumerated: a clean batch is evidence, not proof",
			"types outside the catalog and its run-time compositions are not exercised; nil pointers, zero-size elements, zero limits and unexported fields are outside the property",
		}, assumptions[prop]...),
		"coverage": map[string]interface{}{
			"evaluations":                     tot.Runs,
			"distinct_nontrivial":             distinct,
			"rule":                            "one evaluation = one complete simulated execution decided by one seed (VERIF_SEED, property, run index). " + rules[prop] + " Distinct: different execution hash, which folds in every task switch with the statement or callback it happened at and every observable result of every operation.",
			"samples":                         samples,
			"executions_requested":            asked,
			"processes":                       procs,
			"seeds_per_hour":                  int64(perHour),
			"largest_worker_kb":               tot.maxRSS,
			"library_operations":              tot.Ops,
			"library_statements_executed":     tot.Steps,
			"simulated_time_s":                float64(tot.SimTime) / 1e9,
			"task_switches":                   tot.Switches,
			"preemptions_inside_library_code": tot.Preempts,
			"forced_collections":              tot.GC,
			"executions_with_faults":          tot.FaultyRuns,
			"executions_with_task_switches":   tot.SchedRuns,
			"faults_fired":                    tot.Faults,
			"probes":                          tot.Probes,
			"probes_at_zero":                  zero,
			"statement_sites_reached":         fmt.Sprintf("%d of %d", sites, len(siteNames)),
			"real_code":                       files,
			"stubs":                           stubs[prop],
			"executions_under_race_detector":  tot.raceRuns,
			"executions_with_32_bit_words":    tot.narrowRuns,
			"statement_level_scheduling":      !coarse,
			"determinism_audit":               map[string]int{"re_executed_in_fresh_processes": audited, "diverged": diverged},
		},
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	writeIndented(filepath.Join(verif, "evidence", prop+".json"), ev)
}
