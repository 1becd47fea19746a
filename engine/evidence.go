package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type evidence struct {
	Property string
	Tier     string
	Seed     int
	Level    string
	Bounds   []string
	Notes    []string

	Validated    int
	Blind        int
	Divergent    []string
	Unreproduced []string
	Vacuous      []string
	Known        []string
	Viol         int

	cov      map[string]any
	exploreT time.Duration
	scratch  string
	line     string
}

func (e *evidence) note(s string) { e.Notes = append(e.Notes, s) }

var stdAssumptions = []string{
	"standard-library and dependency code is executed symbolically from its own source, except for the functions replaced by models (harness/model) or intrinsics: fmt formatting, strconv float parsing/formatting (decimals of at most 15 significant digits), strings.Replacer and strings.Join, sort.Slice, ISO-8859-1 charmap, crc32, encoding/json.Marshal, encoding/base64 (abstract: a mark and the raw data), Year/Month/Day of time.Time (by a calibrated lemma on civil dates), math.Max/Min, internal/bytealg searches, sync/atomic, reflect (basic operations), math/big (decimal strings modulo small numbers), time.Now (the start time of the run)",
	"error message texts with symbolic parts are not modelled; no property depends on them",
	"log output is dropped, sync primitives are no-ops and goroutines run one after the other until they wait for each other: one schedule is explored",
	"where a path meets a construct that cannot be encoded, up to 6 inputs that reach it are run natively; that can only find violations and is counted separately, nothing is claimed for such a path",
	"inputs are bounded as listed under bounds; nothing is claimed outside these bounds",
}

func (e *evidence) fill(x *Explorer, tasks []*Task, cov map[string]map[string]int64, loadT time.Duration) {
	var st SolverStats
	var steps, forks int64
	for _, w := range x.workers {
		st.add(&w.sol.stats)
		steps += w.instrs
		forks += w.forks
	}
	var paths, infeasible, incomplete int64
	inc := map[string]int64{}
	var tl []map[string]any
	var samples []any
	for _, t := range tasks {
		paths += t.Paths
		infeasible += t.Infeasible
		ti := int64(0)
		for k, n := range t.Incomplete {
			inc[k] += n
			ti += n
		}
		incomplete += ti
		tl = append(tl, map[string]any{"harness": t.Harness, "params": t.Params, "paths": t.Paths, "assumed_away": t.Infeasible, "incomplete": ti, "violating": t.violN, "wall_s": t.dur.Seconds()})
		for i, s := range t.Samples {
			if i < 2 && len(samples) < 24 {
				samples = append(samples, map[string]any{"harness": t.Name(), "inputs": s.desc, "path_constraints": s.PC, "observed": trunc(s.Obs, 6)})
			}
		}
	}
	var fs []string
	for f := range x.funcs {
		if f.inRepo && !strings.Contains(f.name, "/zzverif/") {
			fs = append(fs, strings.ReplaceAll(f.name, modPath+"/", ""))
		}
	}
	sort.Strings(fs)
	other := 0
	for f := range x.funcs {
		if !f.inRepo {
			other++
		}
	}
	nasrt := int64(0)
	for _, n := range x.asserts {
		nasrt += n
	}
	e.cov = map[string]any{
		"states":                        paths + infeasible + incomplete,
		"transitions":                   steps,
		"traces_validated_against_impl": e.Validated,
		"inputs_of_unencodable_paths_run_natively": e.Blind,
		"samples":                     samples,
		"states_meaning":              "symbolic paths (each covers every input satisfying its path condition); transitions are SSA instructions executed symbolically",
		"paths_completed":             paths,
		"paths_ended_by_assumption":   infeasible,
		"paths_incomplete":            incomplete,
		"incomplete_reasons":          topCounts(inc, 20),
		"forks":                       forks,
		"tasks":                       tl,
		"bounds":                      e.Bounds,
		"repo_functions_encoded":      fs,
		"library_functions_encoded":   other,
		"assertion_instances":         nasrt,
		"assertions_by_label":         x.asserts,
		"assertions_discharged_by_z3": st.AssertQ,
		"assertions_constant_true":    st.AssertConst,
		"assertions_unknown":          x.unkAsrt,
		"solver": map[string]any{
			"name": "z3 4.8.12 (z3 -in)", "queries": st.Z3Queries, "sat": st.Z3Sat, "unsat": st.Z3Unsat, "unknown": st.Z3Unknown, "errors": st.Z3Errors,
			"time_s": st.Z3Time.Seconds(), "query_cache_hits": st.CacheHits, "byte_domain_decisions": st.DomainHits, "small_domain_decisions": st.EnumHits, "domain_decisions_confirmed_by_z3": st.Audited,
		},
		"cover_labels":            cov,
		"vacuous_covers":          e.Vacuous,
		"divergences":             e.Divergent,
		"unreproduced":            e.Unreproduced,
		"known_findings":          e.Known,
		"dropped_work_items":      x.dropped,
		"exhaustive_within_bound": incomplete == 0 && x.dropped == 0 && len(x.unkAsrt) == 0,
		"load_and_build_s":        loadT.Seconds(),
	}
	e.line = fmt.Sprintf("paths=%d assumed_away=%d incomplete=%d violating=%d forks=%d z3=%d (sat %d unsat %d unknown %d, %.1fs) asserts=%d (z3 %d) validated=%d diverged=%d", paths, infeasible, incomplete, e.Viol, forks, st.Z3Queries, st.Z3Sat, st.Z3Unsat, st.Z3Unknown, st.Z3Time.Seconds(), nasrt, st.AssertQ, e.Validated, len(e.Divergent))
	for _, s := range topCounts(inc, 8) {
		e.line += "\n  incomplete: " + s
	}
	for _, t := range tasks {
		e.line += fmt.Sprintf("\n  %-28s paths=%d assumed=%d incomplete=%d viol=%d %.1fs", t.Name(), t.Paths, t.Infeasible, sum(t.Incomplete), t.violN, t.dur.Seconds())
	}
}

func sum(m map[string]int64) int64 {
	r := int64(0)
	for _, n := range m {
		r += n
	}
	return r
}

func trunc(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (e *evidence) summary(w io.Writer, t0 time.Time) {
	fmt.Fprintf(w, "%s %s: %s\n  total %.1fs\n", e.Property, e.Tier, e.line, time.Since(t0).Seconds())
}

func (e *evidence) write(t0 time.Time) {
	if *noevF {
		return
	}
	if e.cov == nil {
		e.cov = map[string]any{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []any{}}
	}
	if len(e.Notes) > 0 {
		e.cov["notes"] = e.Notes
	}
	out := map[string]any{
		"property": e.Property, "tier": e.Tier, "seed": e.Seed, "level": e.Level, "coverage": e.cov,
		"assumptions": stdAssumptions, "wall_s": time.Since(t0).Seconds(), "violations": e.Viol,
	}
	b, _ := json.MarshalIndent(out, "", " ")
	dir := filepath.Join(*verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, e.Property+".json"), append(b, '\n'), 0o644)
}

// ---- known findings ---------------------------------------------------------------------

type knownFinding struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Outcome  string   `json:"outcome"`
	Inputs   []uint64 `json:"inputs"`
	What     string   `json:"what"`
}
type knownSet []knownFinding

func loadKnown() knownSet {
	b, err := os.ReadFile(filepath.Join(*verifDir, "known-findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []knownFinding `json:"findings"`
	}
	json.Unmarshal(b, &f)
	return f.Findings
}

// match identifies a violation by harness, failed assertion and, if given, the exact inputs.
func (k knownSet) match(id string, t *Task, outcome string, in []uint64) string {
	for _, f := range k {
		if f.Property != id || f.Harness != t.Harness || f.Outcome != outcome {
			continue
		}
		if f.Inputs != nil && fmt.Sprint(f.Inputs) != fmt.Sprint(in) {
			continue
		}
		return f.What
	}
	return ""
}
