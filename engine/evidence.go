package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func writeEvidence(root, prop, tier string, seed int64, pc PropConf, cfg *Config, l *Loaded, res *Results, cr *candRun, known []string, start time.Time, explored time.Duration, limit int) {
	var own, std []string
	for f := range res.funcs {
		if strings.Contains(f, "internal/vh/") || strings.Contains(f, "internal/vref") || strings.Contains(f, "internal/vsym") {
			continue
		}
		if strings.Contains(f, "romshark") {
			own = append(own, f)
		} else {
			std = append(std, f)
		}
	}
	sort.Strings(own)
	sort.Strings(std)
	var samples []any
	for i := 0; i < len(res.witnesses) && len(samples) < 6; i += 1 + len(res.witnesses)/6 {
		w := res.witnesses[i]
		samples = append(samples, map[string]any{"harness": w.Harness, "inputs": showInputs(w.Inputs), "observed": w.Obs})
	}
	if len(samples) == 0 {
		samples = append(samples, "no finished path was sampled")
	}
	per := map[string]any{}
	jobs, unfinished, unsupported, asserts := 0, 0, 0, 0
	for k, h := range res.perH {
		per[k] = map[string]any{"paths": h.Paths, "jobs": h.Jobs, "unfinished": h.Unfinished, "unsupported": h.Unsupported, "assertions": h.Asserts, "instructions": h.Steps, "candidates": h.Violations}
		jobs += h.Jobs
		unfinished += h.Unfinished
		unsupported += h.Unsupported
		asserts += h.Asserts
	}
	var unreached []string
	for _, r := range pc.Reach {
		if res.reach[r] == 0 {
			unreached = append(unreached, r)
		}
	}
	st := res.stats
	cov := map[string]any{
		"states":                         st.Forks + jobs,
		"transitions":                    st.Steps,
		"traces_validated_against_impl":  cr.validated,
		"samples":                        samples,
		"paths_completed":                st.Paths,
		"paths_infeasible":               st.Infeasible,
		"exploration_complete":           unfinished == 0 && unsupported == 0 && len(l.broken) == 0,
		"unfinished":                     unfinished,
		"unsupported":                    unsupported,
		"unsupported_reasons":            res.unsup,
		"harness_packages_not_compiling": l.broken,
		"exploration_limit_s":            limit,
		"assertions_executed":            asserts,
		"assertions_decided_by":          map[string]int{"term_rewriting": st.AssertsFolded, "byte_domains": st.AssertsInterval, "smt": st.AssertsSolver, "undecided": st.AssertsUnknown},
		"branches_decided_by":            map[string]int{"byte_domains": st.Domain, "interval": st.Interval, "undecided": st.UnknownBranch},
		"smt": map[string]any{"solver": strings.Join(cfg.solver, " "), "queries": res.queries, "sat": res.sat, "unsat": res.unsat, "unknown": res.unknown,
			"cached": st.Cached, "decided_by_interval_splitting": st.Split, "time_s": res.solverTime.Seconds()},
		"audit":                     map[string]int{"verdicts_rechecked_by_smt": st.Audited, "disagreements": st.AuditWrong, "models_rejected": st.ModelWrong},
		"merges":                    st.Merges,
		"functions_encoded":         own,
		"std_functions_encoded":     std,
		"modelled_functions":        sortedKeys(res.natives),
		"harnesses":                 per,
		"reached":                   res.reach,
		"not_reached":               unreached,
		"bounds":                    pc.Bounds,
		"outside_bounds":            pc.Outside,
		"candidates_replayed":       cr.total,
		"candidates_not_reproduced": cr.unrepro,
		"not_reproduced":            cr.unreproS,
		"encoding_mismatches":       cr.mismatches,
		"known_findings":            known,
		"explore_s":                 explored.Seconds(),
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": append([]string{
			"Go 1.21 gc/amd64 semantics as written down in the symbolic executor (engine/*.go); sampled path models are replayed natively and compared",
			"functions listed under modelled_functions are replaced by models instead of their bodies",
			"z3's unsat answers are correct",
		}, pc.Assumptions...),
		"wall_s": time.Since(start).Seconds(), "violations": cr.violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return
	}
	dir := filepath.Join(root, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644)
}
