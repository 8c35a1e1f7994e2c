package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// checks.json: property id -> what decides it.
type checkDef struct {
	Pkg       string       `json:"pkg"`
	Harnesses []harnessDef `json:"harnesses"`
	Bounds    string       `json:"bounds"`
	Outside   string       `json:"outside"`
}

type harnessDef struct {
	Name     string   `json:"name"`
	Quick    float64  `json:"quick"`    // seconds; 0 = thorough tier only
	Thorough float64  `json:"thorough"` // seconds
	Budget   int64    `json:"budget"`
	MapOrder bool     `json:"maporder"`
	Race     bool     `json:"race"`
	Sched    bool     `json:"sched"`
	Covers   []string `json:"covers"` // witnesses that must be reached for the verdict not to be vacuous
	Bound    string   `json:"bound"`
}

type knownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // finding | fixed
	Harness  string `json:"harness"`
	Kind     string `json:"kind"`
	Msg      string `json:"msg"`  // exact message of the violation
	Note     string `json:"note"` // exact last note: the specific input, call site or history
	What     string `json:"what"`
	Commit   string `json:"commit"`
}

func runCheck(repo, verif, id, tier string, nw int, solver string) (code int) {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "model_checking", "violations": 0,
		"assumptions": []string{"see DESIGN.md: trusted base (engine semantics of Go SSA, models of sync/os/io/time primitives, logging is inert)"}}
	cov := map[string]any{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []string{}}
	ev["coverage"] = cov
	write := func() {
		ev["wall_s"] = time.Since(t0).Seconds()
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644)
	}
	inconclusive := func(msg string) int {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", id, clip(msg, 1500))
		cov["inconclusive"] = clip(msg, 3000)
		cov["exhaustive"] = false
		write()
		return 0
	}
	defer func() {
		if x := recover(); x != nil {
			code = inconclusive(fmt.Sprint("engine failure: ", x))
		}
	}()
	defs := map[string]*checkDef{}
	b, err := os.ReadFile(filepath.Join(verif, "checks.json"))
	if err == nil {
		err = json.Unmarshal(b, &defs)
	}
	def := defs[id]
	if err != nil || def == nil {
		fmt.Println("no such check", id, err)
		return 2
	}
	var known []knownFinding
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			fmt.Println("known_findings.json:", err)
			return 2
		}
	}
	pkg := def.Pkg
	if pkg == "" {
		pkg = "./zz_verif/harness"
	}
	e, err := newEngine(repo, verif, nw, solver, pkg)
	if err != nil {
		return inconclusive("the harness does not load on this tree: " + err.Error())
	}
	defer e.close()
	var nr, nrRace *replayer
	defer func() {
		for _, r := range []*replayer{nr, nrRace} {
			if r != nil {
				r.close()
			}
		}
	}()
	var buildErr error
	replayerFor := func() *replayer {
		if nr == nil && buildErr == nil {
			nr, buildErr = newReplayer(repo, verif, pkg, false)
		}
		return nr
	}
	// confirm runs a counterexample against the real code
	confirm := func(v *Violation, h *harnessDef) *ReplayResult {
		r := replayerFor()
		if r == nil {
			return &ReplayResult{Kind: "error", Msg: buildErr.Error()}
		}
		n := 1
		if h.MapOrder || h.Sched {
			n = 60
		}
		var rr *ReplayResult
		for i := 0; i < n; i++ {
			rr = r.run(v.Harness, v.Inputs, 20*time.Second)
			if reproduced(rr) {
				return rr
			}
		}
		if h.Race && strings.HasPrefix(v.Msg, "data race") {
			if nrRace == nil {
				nrRace, _ = newReplayer(repo, verif, pkg, true)
			}
			if nrRace != nil {
				for i := 0; i < 15; i++ {
					rr = nrRace.run(v.Harness, v.Inputs, 60*time.Second)
					if reproduced(rr) {
						return rr
					}
				}
			}
		}
		return rr
	}

	var states, trans, validated, solverQ, solverUnsat, solverSat, solverUnk, lem, steps, asserts, assertSym int64
	var solverS float64
	exhaustive := true
	var samples []string
	hs := map[string]any{}
	var problems []string
	unlisted := 0
	seenKnown := map[string]bool{}
	for i := range def.Harnesses {
		h := &def.Harnesses[i]
		dl := h.Quick
		if tier == "thorough" {
			dl = h.Thorough
			if dl == 0 {
				dl = 6 * h.Quick
			}
		}
		if dl == 0 {
			continue
		}
		bud := h.Budget
		if bud == 0 {
			bud = 200_000_000
		}
		r, err := e.run(HarnessOpts{Name: h.Name, Deadline: time.Duration(dl * float64(time.Second)), Budget: bud, MapOrder: h.MapOrder, Race: h.Race, Sched: h.Sched})
		if err != nil {
			problems = append(problems, h.Name+": "+err.Error())
			exhaustive = false
			continue
		}
		states += r.Forks + r.Paths
		trans += r.Decides
		solverQ += r.Queries
		solverUnsat += r.Unsat
		solverSat += r.Sat
		solverUnk += r.Unknown
		solverS += r.SolverS
		lem += r.Lemmas
		steps += r.Steps
		asserts += r.Asserts
		assertSym += r.AssertSym
		complete := !r.TimedOut && r.Ends["unsupported"] == 0 && r.Unknown == 0
		for _, c := range h.Covers {
			if r.Covers[c] == 0 {
				problems = append(problems, h.Name+": witness "+c+" not reached")
				complete = false
			}
		}
		if r.Paths == 0 || r.Ends["done"] == 0 && len(r.Viols) == 0 {
			problems = append(problems, h.Name+": no path completed")
			complete = false
		}
		if !complete {
			exhaustive = false
		}
		hinfo := map[string]any{"bound": h.Bound, "paths": r.Paths, "path_ends": r.Ends, "covers": r.Covers, "complete_within_bound": complete, "timed_out": r.TimedOut,
			"wall_s": r.Wall, "asserts_evaluated": r.Asserts, "asserts_on_symbolic_values": r.AssertSym, "solver_queries": r.Queries, "solver_s": r.SolverS}
		if len(r.Notes) > 0 {
			hinfo["notes"] = r.Notes
		}
		hs[h.Name] = hinfo
		for k, s := range r.Samples {
			if k >= 3 {
				break
			}
			samples = append(samples, h.Name+":"+inputStr(s))
		}
		// native runs of sampled paths: the real code must agree that the path is fine
		if rp := replayerFor(); rp != nil {
			for k, s := range r.Samples {
				if k >= 4 {
					break
				}
				rr := rp.run(h.Name, s, 20*time.Second)
				if rr.Kind == "done" {
					validated++
				} else if reproduced(rr) && !h.MapOrder && !h.Sched {
					problems = append(problems, fmt.Sprintf("%s: a path the executor completed fails natively (%s %s) on%s", h.Name, rr.Kind, clip(rr.Msg, 200), inputStr(s)))
				}
			}
		}
		fmt.Printf("%s %s: paths %d ends %v complete %v wall %.1fs solver %.1fs/%d queries\n", id, h.Name, r.Paths, r.Ends, complete, r.Wall, r.SolverS, r.Queries)
		sort.SliceStable(r.Viols, func(a, b int) bool { return len(r.Viols[a].Inputs) < len(r.Viols[b].Inputs) })
		for k := range r.Viols {
			v := &r.Viols[k]
			if unlisted >= 5 {
				break
			}
			if kf := matchKnown(known, id, v); kf != nil {
				if !seenKnown[kf.What] {
					seenKnown[kf.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, kf.What)
				}
				continue
			}
			v.Replay = confirm(v, h)
			if !reproduced(v.Replay) {
				problems = append(problems, fmt.Sprintf("%s: counterexample not reproduced natively (%s %s): %s on%s", h.Name, v.Replay.Kind, clip(v.Replay.Msg, 200), clip(v.Msg, 300), inputStr(v.Inputs)))
				exhaustive = false
				continue
			}
			unlisted++
			f := filepath.Join(verif, "evidence", fmt.Sprintf("%s-replay-%d.json", id, unlisted))
			os.MkdirAll(filepath.Dir(f), 0o755)
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(f, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
			fmt.Printf("  %s: %s %s notes %q inputs%s native: %s %s\n", h.Name, v.Kind, clip(v.Msg, 600), v.Notes, inputStr(v.Inputs), v.Replay.Kind, clip(v.Replay.Msg, 200))
		}
		if unlisted > 0 {
			break
		}
	}
	for _, p := range problems {
		fmt.Println("NOTE", clip(p, 900))
	}
	cov["states"] = states
	cov["transitions"] = trans
	cov["traces_validated_against_impl"] = validated
	if len(samples) > 12 {
		samples = samples[:12]
	}
	cov["samples"] = samples
	cov["exhaustive"] = exhaustive && unlisted == 0
	cov["meaning"] = "states: symbolic states (forks of the path condition plus path ends); transitions: branch conditions decided over the whole remaining input set; traces_validated: sampled path witnesses executed natively with the same verdict"
	cov["harnesses"] = hs
	cov["bounds"] = def.Bounds
	cov["outside_bounds"] = def.Outside
	cov["functions_encoded"] = e.functions()
	cov["functions_encoded_count"] = len(e.functions())
	cov["ssa_instructions_executed"] = steps
	cov["solver"] = map[string]any{"binary": solver, "queries": solverQ, "unsat": solverUnsat, "sat": solverSat, "unknown": solverUnk, "byte_domain_lemmas_discharged": lem, "time_s": solverS}
	cov["asserts"] = map[string]any{"evaluated": asserts, "on_symbolic_conditions": assertSym}
	if len(problems) > 0 {
		cov["problems"] = problems
	}
	ev["violations"] = unlisted
	write()
	if unlisted > 0 {
		return 1
	}
	return 0
}

func reproduced(r *ReplayResult) bool {
	switch r.Kind {
	case "violation", "panic", "crash", "timeout":
		return true
	}
	return false
}

func matchKnown(known []knownFinding, id string, v *Violation) *knownFinding {
	for i := range known {
		k := &known[i]
		if k.Status != "finding" || k.Property != id {
			continue
		}
		if k.Harness != "" && k.Harness != v.Harness || k.Kind != "" && k.Kind != v.Kind || k.Msg == "" && k.Note == "" {
			continue
		}
		if k.Msg != "" && k.Msg != v.Msg {
			continue
		}
		if k.Note != "" && (len(v.Notes) == 0 || v.Notes[len(v.Notes)-1] != k.Note) {
			continue
		}
		return k
	}
	return nil
}
