package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type harnessDoc struct {
	name, file, dir string
	opts            HOpts
	tier            string
	bound           string
	desc            string
}

// parseHarness reads the directives of a harness file: "//verif:pkg DIR" and, above each
// harness function, "// verif: key=value ...", "// bound: text".
func parseHarness(f string) (dir string, hs []*harnessDoc, err error) {
	fs := token.NewFileSet()
	af, err := parser.ParseFile(fs, f, nil, parser.ParseComments)
	if err != nil {
		return "", nil, err
	}
	for _, cg := range af.Comments {
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//verif:pkg ") {
				dir = strings.TrimSpace(strings.TrimPrefix(c.Text, "//verif:pkg "))
			}
		}
	}
	for _, d := range af.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || !strings.HasPrefix(fd.Name.Name, "VH_") {
			continue
		}
		h := &harnessDoc{name: fd.Name.Name, file: f, dir: dir}
		h.opts = HOpts{Name: h.name, MaxSteps: 3000000, MaxFanout: 64, Preempt: 2, Retries: 2}
		if fd.Doc != nil {
			for _, c := range fd.Doc.List {
				t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
				switch {
				case strings.HasPrefix(t, "verif:"):
					for _, kv := range strings.Fields(strings.TrimPrefix(t, "verif:")) {
						k, v, _ := strings.Cut(kv, "=")
						n, _ := strconv.Atoi(v)
						o := &h.opts
						switch k {
						case "tier":
							h.tier = v
						case "preempt":
							o.Preempt = n
						case "ticks":
							o.Ticks = n
						case "chancap":
							o.ChanCap = n
						case "fanout":
							o.MaxFanout = n
						case "maxsteps":
							o.MaxSteps = int64(n)
						case "maxpaths":
							o.MaxPaths = int64(n)
						case "retries":
							o.Retries = n
						case "timeout":
							o.Timeout = time.Duration(n) * time.Second
						case "deadlockok":
							o.DeadlockOK = true
						case "nomerge":
							o.NoMerge = true
						case "concidx":
							o.ConcIdx = true
						case "permmaps":
							o.PermMaps = true
						case "nonative":
							o.NoNative = true
						case "sched":
							o.Sched = true
						case "nowitness":
							o.NoWitness = true
						default:
							return "", nil, fmt.Errorf("%s: unknown option %s", h.name, k)
						}
					}
				case strings.HasPrefix(t, "bound:"):
					h.bound = strings.TrimSpace(strings.TrimPrefix(t, "bound:"))
				default:
					h.desc += t + " "
				}
			}
		}
		hs = append(hs, h)
	}
	return
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Msg      string `json:"msg"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

func loadKnown(file string) (ks []knownFinding) {
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil && k.Status == "known" {
			ks = append(ks, k)
		}
	}
	return
}

type hReport struct {
	Harness    string   `json:"harness"`
	Bound      string   `json:"bound,omitempty"`
	Paths      int64    `json:"paths"`
	Completed  int64    `json:"completed_paths"`
	Pruned     int64    `json:"paths_outside_assumptions"`
	Redundant  int64    `json:"redundant_interleavings_skipped,omitempty"`
	Queries    int64    `json:"assertion_queries"`
	Trivial    int64    `json:"assertions_true_by_folding"`
	Schedules  int64    `json:"schedule_formulas,omitempty"`
	Events     int64    `json:"memory_events_encoded,omitempty"`
	Steps      int64    `json:"instructions"`
	Cut        int64    `json:"paths_cut_at_bound,omitempty"`
	Unsup      int64    `json:"paths_not_encodable,omitempty"`
	Unknown    int64    `json:"undecided_queries,omitempty"`
	Incomplete string   `json:"incomplete,omitempty"`
	Notes      []string `json:"notes,omitempty"`
	Unreached  []string `json:"assertions_never_reached,omitempty"`
	Witness    int      `json:"native_witness_replays"`
	WitnessBad []string `json:"native_witness_mismatches,omitempty"`
	WallS      float64  `json:"wall_s"`
}

func main() {
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "", "")
	only := flag.String("only", "", "substring of harness names")
	nw := flag.Int("j", runtime.NumCPU(), "")
	budget := flag.Int("budget", 0, "seconds")
	nonat := flag.Bool("nonative", false, "")
	flag.Parse()
	debug.SetMemoryLimit(14 << 30)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	gTier = *tier
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	if *budget == 0 {
		*budget = 540
		if *tier == "thorough" {
			*budget = 840
		}
	}
	t0 := time.Now()
	deadline := t0.Add(time.Duration(*budget) * time.Second)
	files, _ := filepath.Glob(filepath.Join(*verif, "harness", *prop+"_*.go"))
	if len(files) == 0 {
		fatal("no harness for " + *prop)
	}
	var hs []*harnessDoc
	for _, f := range files {
		_, l, err := parseHarness(f)
		if err != nil {
			fatal(err.Error())
		}
		hs = append(hs, l...)
	}
	if err := copyMod(*repo); err != nil {
		fatal(err.Error())
	}
	defer dropMod()
	ov, pats, err := buildOverlay(*repo, *verif, files)
	if err != nil {
		fatal(err.Error())
	}
	P, err := loadProgram(*repo, ov, pats)
	var dropped []string
	for err != nil && len(files) > 1 {
		// a harness file that leans on a detail the tree no longer has is left out; the others still decide
		var keep []string
		for _, f := range files {
			if strings.Contains(err.Error(), "zz_verif_"+filepath.Base(f)) {
				dropped = append(dropped, filepath.Base(f))
				fmt.Printf("harness file %s does not fit the current tree, left out: %s\n", filepath.Base(f), tail(err.Error(), 300))
			} else {
				keep = append(keep, f)
			}
		}
		if len(keep) == 0 || len(keep) == len(files) {
			break
		}
		files = keep
		hs = nil
		for _, f := range files {
			_, l, _ := parseHarness(f)
			hs = append(hs, l...)
		}
		if ov, pats, err = buildOverlay(*repo, *verif, files); err != nil {
			fatal(err.Error())
		}
		P, err = loadProgram(*repo, ov, pats)
	}
	if err != nil {
		fatal(err.Error())
	}
	loadS := time.Since(t0).Seconds()
	fnOf := map[string]*ssa.Function{}
	for _, f := range P.harnesses(*prop) {
		fnOf[f.Name()] = f
	}
	known := loadKnown(filepath.Join(*verif, "known_findings.jsonl"))
	nat := newNative(*repo, *verif, ov)
	defer nat.close()
	if !*nonat {
		nat.prebuild(hs)
	}
	var reps []*hReport
	fns := map[string]bool{}
	var samples []string
	var asserted, unknown, discharged int64
	nviol := 0
	var knownHit []string
	dirty := false
	for _, h := range hs {
		if h.tier == "thorough" && *tier != "thorough" || !strings.Contains(h.name, *only) {
			continue
		}
		fn := fnOf[h.name]
		if fn == nil {
			fatal("harness not found: " + h.name)
		}
		left := time.Until(deadline)
		if h.opts.Timeout > 0 && h.opts.Timeout < left {
			left = h.opts.Timeout
		}
		rep := &hReport{Harness: h.name, Bound: h.bound}
		reps = append(reps, rep)
		if left < 2*time.Second {
			rep.Incomplete = "not run: time budget exhausted"
			continue
		}
		o := h.opts
		x := NewExplorer(P, fn, &o)
		x.KnownMsgs = map[string]bool{}
		for _, k := range known {
			if k.Property == *prop && k.Harness == h.name {
				x.KnownMsgs[k.Msg] = true
			}
		}
		x.Run(*nw, left)
		rep.Paths, rep.Completed, rep.Pruned, rep.Redundant = x.Paths, x.Completed, x.Pruned, x.Redundant
		rep.Queries, rep.Trivial, rep.Schedules, rep.Events, rep.Steps = x.Asserts, x.Trivial, x.POQueries, x.Events, x.Steps
		rep.Cut, rep.Unsup, rep.Unknown, rep.Incomplete = x.Limits, x.Unsup, x.Unknowns, x.Incomplete
		rep.WallS = x.Wall.Seconds()
		for _, k := range sortedKeys(x.Notes) {
			if len(rep.Notes) < 6 {
				rep.Notes = append(rep.Notes, fmt.Sprintf("%s (x%d)", k, x.Notes[k]))
			}
		}
		for _, msg := range assertMsgs(fn) {
			if x.AssertHits[msg] == 0 {
				rep.Unreached = append(rep.Unreached, msg)
			}
		}
		for f := range x.Fns {
			fns[f] = true
		}
		asserted += x.Asserts + x.Trivial
		unknown += x.Unknowns
		discharged += x.Completed
		if len(samples) < 40 {
			samples = append(samples, x.Samples...)
		}
		// known findings, replay, report
		sort.Slice(x.Viol, func(i, j int) bool { return x.Viol[i].Msg < x.Viol[j].Msg })
		for i, v := range x.Viol {
			isKnown := false
			for _, k := range known {
				if k.Property == *prop && k.Harness == h.name && k.Msg == v.Msg {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.What)
					knownHit = append(knownHit, k.What)
					isKnown = true
				}
			}
			if isKnown {
				continue
			}
			path := filepath.Join(*verif, "evidence", fmt.Sprintf("replay_%s_%s_%d.json", *prop, h.name, i))
			writeReplay(path, h, v)
			res := "native replay skipped"
			if !o.NoNative && !*nonat {
				// replay a private copy: a check of another tree may rewrite the evidence meanwhile
				priv := path
				if f, err := os.CreateTemp("", "gosmt-replay"); err == nil {
					f.Close()
					priv = f.Name()
					writeReplay(priv, h, v)
				}
				res = nat.replay(h, v, priv)
				if priv != path {
					os.Remove(priv)
				}
			}
			fmt.Printf("%s: counterexample: %s\n", h.name, v.Msg)
			fmt.Printf("   at %s\n   inputs:", v.Stack)
			for _, in := range v.Inputs {
				fmt.Printf(" %s=%d", in.Label, int64(in.Val))
			}
			fmt.Println()
			if len(v.Sched) > 0 {
				fmt.Print("   schedule:")
				for k, s := range v.Sched {
					if k < 60 {
						fmt.Printf(" %d:%s", s.Thread, s.Op)
					}
				}
				fmt.Println()
			}
			fmt.Println("   replay against the real code:", res)
			if res == natRefuted {
				rep.WitnessBad = append(rep.WitnessBad, "counterexample not reproduced by the real code: "+v.Msg)
				continue
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
			nviol++
		}
		// the encoding against the real code: replay the models of completed paths
		if !o.NoNative && !o.NoWitness && !*nonat && len(x.Viol) == 0 {
			for i, w := range x.Witness {
				r := nat.witness(h, w, i)
				if r == "" {
					rep.Witness++
				} else if r != "skip" && !x.WitEnv[i] {
					rep.WitnessBad = append(rep.WitnessBad, r)
				}
			}
		}
		flag := ""
		if rep.Unsup+rep.Unknown+rep.Cut > 0 || rep.Incomplete != "" || len(rep.Unreached) > 0 || len(rep.WitnessBad) > 0 {
			flag = fmt.Sprintf(" REDUCED: unsup=%d unknown=%d cut=%d %s unreached=%q mismatch=%q %v", rep.Unsup, rep.Unknown, rep.Cut, rep.Incomplete, rep.Unreached, rep.WitnessBad, rep.Notes)
		}
		if rep.Completed == 0 && rep.Schedules == 0 {
			dirty = true
		}
		fmt.Printf("%s: paths=%d completed=%d queries=%d folded=%d schedules=%d witness=%d viol=%d %.1fs%s\n", h.name, rep.Paths, rep.Completed, rep.Queries, rep.Trivial, rep.Schedules, rep.Witness, len(x.Viol), rep.WallS, flag)
		if nviol > 0 {
			break
		}
	}
	// evidence
	var wit int
	var paths, steps, sched int64
	for _, r := range reps {
		wit += r.Witness
		paths += r.Paths
		steps += r.Steps
		sched += r.Schedules
	}
	var fl []string
	for f := range fns {
		if !strings.Contains(f, "zzverif") && !strings.Contains(f, ".VH_") {
			fl = append(fl, f)
		}
	}
	sort.Strings(fl)
	st := gStats.snapshot()
	level := "model_checking"
	cov := map[string]interface{}{
		"states":                        paths + sched,
		"transitions":                   steps,
		"traces_validated_against_impl": wit,
		"samples":                       samples,
		"harnesses":                     reps,
		"functions_encoded":             fl,
		"solver":                        st,
		"meaning":                       "states = symbolic path conditions and schedule formulas decided; transitions = SSA instructions executed symbolically; traces_validated = solver models of completed paths re-run on the compiled code",
		"load_s":                        loadS,
	}
	if len(knownHit) > 0 {
		cov["known_findings"] = knownHit
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": []string{
			"sequentially consistent memory for sync/atomic and lock-ordered accesses (Go memory model for race-free code)",
			"standard-library primitives (sync, sync/atomic, time, channels, fmt, strconv, strings) behave as modelled by the engine",
			"bounds are those listed per harness; behaviour outside them is not covered",
		},
		"wall_s": time.Since(t0).Seconds(), "violations": nviol, "harness_files_left_out": dropped,
	}
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if *only == "" {
		os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), b, 0o644)
	}
	fmt.Printf("%s %s: %d harnesses, solver %v, wall %.1fs\n", *prop, *tier, len(reps), st, time.Since(t0).Seconds())
	printForks()
	if nviol > 0 {
		nat.close()
		dropMod()
		os.Exit(1)
	}
	if discharged == 0 || (dirty && asserted == 0) {
		nat.close()
		fatal("nothing was decided")
	}
}

var gTier = "quick"

func fatal(s string) {
	fmt.Fprintln(os.Stderr, "ERROR:", s)
	dropMod()
	os.Exit(2)
}

func writeReplay(path string, h *harnessDoc, v *Violation) {
	os.MkdirAll(filepath.Dir(path), 0o755)
	b, _ := json.MarshalIndent(map[string]interface{}{
		"harness": h.name, "package": h.dir, "harness_file": h.file, "violation": v.Msg, "stack": v.Stack,
		"inputs": v.Inputs, "sched": v.Sched,
	}, "", " ")
	os.WriteFile(path, b, 0o644)
}

// assertMsgs lists the constant messages of the rt.Assert calls in a harness and its closures.
func assertMsgs(fn *ssa.Function) []string {
	var r []string
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(*ssa.Call); ok {
					if sf := c.Call.StaticCallee(); sf != nil && strings.HasSuffix(sf.String(), "/zzverif/rt.Assert") {
						if k, ok := c.Call.Args[1].(*ssa.Const); ok && k.Value != nil {
							s, _ := strconv.Unquote(k.Value.ExactString())
							r = append(r, s)
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(fn)
	return r
}
