// Command engine decides properties of github.com/lkmio/avformat by symbolic
// execution of its SSA form, with an SMT solver deciding every branch and
// assertion over all input values within the harness bounds.
package main

import (
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	modfile string
	tmpDir  string
	repoDir = "/repo"
)

func sprintf(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }
func errorf(f string, a ...interface{}) error   { return fmt.Errorf(f, a...) }
func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "engine: "+f+"\n", a...)
	os.RemoveAll(tmpDir)
	os.Exit(2)
}

func relRepo(s string) string {
	s = strings.ReplaceAll(s, repoDir+"/", "")
	if i := strings.Index(s, "/verif/harness/"); i >= 0 {
		s = s[:i] + s[i+len("/verif/"):]
	}
	return s
}

type hInfo struct {
	fn   *ssa.Function
	doc  string
	name string
}

func load(dir string) (*ssa.Program, *ssa.Package, map[string]string) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: goEnv()}
	pkgs, err := packages.Load(cfg, "./props")
	if err != nil {
		fatal("load: %v", err)
	}
	bad := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if isTargetPkg(p.PkgPath) || isHarnessPkg(p.PkgPath) {
			for _, e := range p.Errors {
				fmt.Fprintln(os.Stderr, e)
				bad++
			}
		}
	})
	if bad > 0 {
		fatal("the code does not type-check")
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	docs := map[string]string{}
	for _, f := range pkgs[0].Syntax {
		for _, d := range f.Decls {
			if name, doc := declDoc(d); name != "" {
				docs[name] = doc
			}
		}
	}
	return prog, spkgs[0], docs
}

type hResult struct {
	Name        string                    `json:"harness"`
	Doc         string                    `json:"bounds"`
	Paths       int64                     `json:"paths"`
	Complete    int64                     `json:"complete_paths"`
	Infeasible  int64                     `json:"paths_ended_by_assumption"`
	Branches    int64                     `json:"branch_decisions"`
	Asserts     int64                     `json:"assertions_decided"`
	Instrs      int64                     `json:"instructions"`
	Queries     int64                     `json:"solver_queries"`
	QSat        int64                     `json:"sat"`
	QUnsat      int64                     `json:"unsat"`
	QUnknown    int64                     `json:"unknown"`
	CacheHits   int64                     `json:"query_cache_hits"`
	SolverS     float64                   `json:"solver_s"`
	MaxQ        float64                   `json:"max_query_s"`
	WallS       float64                   `json:"wall_s"`
	Exhausted   bool                      `json:"bound_exhausted"`
	Reduced     map[string]map[string]int `json:"reduced,omitempty"`
	Validated   int                       `json:"native_replays_agreeing"`
	Mismatch    int                       `json:"native_replays_disagreeing"`
	MismatchEx  string                    `json:"disagreement_example,omitempty"`
	Recheck     *recheckResult            `json:"solver_recheck_without_rewriting,omitempty"`
	Reached     []string                  `json:"witnesses_reached"`
	Missing     []string                  `json:"witnesses_missing,omitempty"`
	Unconfirmed []string                  `json:"unconfirmed_candidates,omitempty"`
}

type finding struct {
	kind, property, harness, msg, text string
}

// loadFindings reads "known: property=.. harness=.. msg=<exact>" lines.
func loadFindings(path string) []finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := finding{kind: "known"}
		rest := strings.TrimPrefix(l, "known: ")
		for _, k := range []string{"property=", "harness="} {
			if strings.HasPrefix(rest, k) {
				v, after, _ := strings.Cut(rest[len(k):], " ")
				rest = after
				if k == "property=" {
					f.property = v
				} else {
					f.harness = v
				}
			}
		}
		if strings.HasPrefix(rest, "msg=") {
			m, t, _ := strings.Cut(rest[4:], " | ")
			f.msg, f.text = m, t
		}
		r = append(r, f)
	}
	return r
}

func main() {
	prop := flag.String("prop", "", "property id")
	hpat := flag.String("h", "", "only harnesses containing this")
	tier := flag.String("tier", envOr("VERIF_TIER", "quick"), "quick or thorough")
	root := flag.String("root", "/verif", "framework directory")
	solver := flag.String("solver", "z3-new", "solver binary")
	budget := flag.Int("budget", 0, "seconds for all harnesses of the property")
	workers := flag.Int("workers", 0, "workers")
	noNative := flag.Bool("nonative", false, "skip native validation")
	noMerge := flag.Bool("nomerge", false, "no if-conversion")
	selfc := flag.Bool("selfcheck", false, "check solver models")
	list := flag.Bool("list", false, "list harnesses")
	replay := flag.String("replay", "", "replay a counterexample file natively")
	verbose := flag.Bool("v", false, "verbose")
	noRecheck := flag.Bool("norecheck", false, "skip the solver recheck of rewritten assertions")
	evid := flag.String("evidence", "", "evidence file")
	first := flag.Bool("first", false, "stop after the first harness with a violation")
	maxp := flag.Int64("maxpaths", 1<<40, "path limit")
	prof := flag.String("cpuprofile", "", "write a CPU profile")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(12 << 30)
	var err error
	tmpDir, err = os.MkdirTemp("", "avverif")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmpDir)
	hdir := filepath.Join(*root, "harness")
	if r := os.Getenv("VERIF_REPO"); r != "" && r != "/repo" {
		repoDir = r
		b, err := os.ReadFile(filepath.Join(hdir, "go.mod"))
		if err != nil {
			fatal("%v", err)
		}
		modfile = filepath.Join(tmpDir, "go.mod")
		os.WriteFile(modfile, []byte(strings.ReplaceAll(string(b), "=> /repo", "=> "+r)), 0644)
	}
	thorough := *tier == "thorough"
	if *replay != "" {
		os.Exit(doReplay(*replay, hdir))
	}
	natCh := make(chan *Native, 1)
	natErr := make(chan error, 1)
	if !*noNative && !*list {
		go func() {
			n, err := buildNative(hdir)
			natErr <- err
			natCh <- n
		}()
	}
	prog, pkg, docs := load(hdir)
	var hs []hInfo
	for name, mem := range pkg.Members {
		fn, ok := mem.(*ssa.Function)
		if !ok || !strings.HasPrefix(name, "C") || !strings.Contains(name, "_") {
			continue
		}
		if *prop != "" && !strings.HasPrefix(name, *prop+"_") {
			continue
		}
		if *hpat != "" && !strings.Contains(name, *hpat) {
			continue
		}
		if !thorough && strings.HasSuffix(name, "_deep") {
			continue
		}
		hs = append(hs, hInfo{fn, docs[name], name})
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].name < hs[j].name })
	if *list {
		for _, h := range hs {
			fmt.Println(h.name, "-", strings.ReplaceAll(h.doc, "\n", " "))
		}
		return
	}
	if len(hs) == 0 {
		fatal("no harness for %q", *prop)
	}
	nw := *workers
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	total := *budget
	if total == 0 {
		total = 420
		if thorough {
			total = 700
		}
	}
	end := time.Now().Add(time.Duration(total) * time.Second)
	var nat *Native
	if !*noNative {
		if err := <-natErr; err != nil {
			fatal("%v", err)
		}
		nat = <-natCh
		defer nat.Close()
	}
	findings := loadFindings(filepath.Join(*root, "known_findings.txt"))
	var results []hResult
	funcs := map[string]string{}
	var violLines []string
	knownSeen := map[string]bool{}
	var samples []interface{}
	nviol := 0
	for i, h := range hs {
		if *first && nviol > 0 {
			break
		}
		left := time.Until(end)
		share := left / time.Duration(len(hs)-i)
		// later harnesses are usually quick: allow a harness twice its share
		if d := share * 2; d < left {
			share = d
		} else {
			share = left
		}
		e := &Engine{prog: prog, harness: h.fn, name: h.name, workers: nw, solverBin: *solver, timeoutMs: 8000, maxSteps: 3000000,
			useMerge: !*noMerge, selfCheck: *selfc, maxPaths: *maxp, maxViol: 60, maxSample: 1500, thorough: thorough}
		if thorough {
			e.timeoutMs = 30000
		}
		e.deadline = time.Now().Add(share)
		ts := time.Now()
		e.run()
		r := hResult{Name: h.name, Doc: h.doc, Paths: e.paths.Load(), Complete: e.complete.Load(), Infeasible: e.infeas.Load(), Branches: e.branches.Load(),
			Asserts: e.asserts.Load(), Instrs: e.instrs.Load(), Queries: e.solver.Queries, QSat: e.solver.Sat, QUnsat: e.solver.Unsat, QUnknown: e.solver.Unknown,
			CacheHits: e.cacheHits.Load(), SolverS: round3(e.solver.Time.Seconds()), MaxQ: round3(e.solver.MaxQ.Seconds()), Exhausted: e.finished && len(e.notes) == 0, Reduced: e.notes}
		if e.timedOut {
			if r.Reduced == nil {
				r.Reduced = map[string]map[string]int{}
			}
			r.Reduced["budget"] = map[string]int{"exploration stopped before the bound was exhausted": 1}
		}
		for k := range e.reached {
			r.Reached = append(r.Reached, k)
		}
		sort.Strings(r.Reached)
		for _, w := range witnesses(h.fn) {
			if !e.reached[w] {
				r.Missing = append(r.Missing, w)
			}
		}
		for k, p := range e.funcs {
			funcs[k] = p
		}
		// put assertions the rewriter decided to the solver
		if !*noRecheck {
			n, lim := 200, 10*time.Second
			if thorough {
				n, lim = 1500, 60*time.Second
			}
			if d := time.Until(end) / 4; d < lim {
				lim = d
			}
			r.Recheck = e.recheck(n, lim)
			e.samples = append(e.samples, r.Recheck.cex...)
			r.Queries, r.QSat, r.QUnsat, r.QUnknown = e.solver.Queries, e.solver.Sat, e.solver.Unsat, e.solver.Unknown
			r.SolverS = round3(e.solver.Time.Seconds())
		}
		// candidate violations
		confirmed := map[string]bool{}
		steps, nrep := 0, 0
		report := func(v Violation, how string) {
			for _, f := range findings {
				if f.property == h.name[:3] && f.harness == h.name && f.msg == v.Msg {
					if !knownSeen[f.msg+f.harness] {
						knownSeen[f.msg+f.harness] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", f.property, f.text)
					}
					return
				}
			}
			nviol++
			if nrep++; nrep > 4 {
				return
			}
			v.Native = how
			path := writeReplay(*root, h.name, v, thorough, h.doc)
			violLines = append(violLines, fmt.Sprintf("VIOLATION property=%s replay=%s", h.name[:3], path))
			fmt.Printf("%s: %s: %s (%s)\n", h.name, v.Kind, v.Msg, how)
		}
		for _, v := range e.viol {
			key := v.Kind + "|" + v.Msg
			if confirmed[key] {
				continue
			}
			if nat == nil {
				confirmed[key] = true
				report(v, "not replayed")
				continue
			}
			to := 10000
			if v.Kind == "steps" {
				steps++
				if steps > 3 {
					continue
				}
				to = 8000
			}
			o := nat.Run(natReq{H: h.name, In: v.Inputs, Deep: thorough, TO: to}, true)
			switch o.Outcome {
			case "assert", "panic", "crash", "timeout", "memory":
				confirmed[key] = true
				v.Msg = msgOf(v, o)
				report(v, "native: "+o.Outcome+" "+o.Msg)
			default:
				if len(v.Sched) > 0 && v.Kind != "steps" {
					confirmed[key] = true
					report(v, "schedule "+strings.Join(v.Sched, "")+" of the encoded code; the native scheduler did not produce it")
					continue
				}
				if v.Random && v.Kind != "steps" {
					confirmed[key] = true
					report(v, "an outcome of the random source in the encoded code; the native runs did not draw it")
					continue
				}
				if len(r.Unconfirmed) < 8 {
					r.Unconfirmed = append(r.Unconfirmed, fmt.Sprintf("%s %s: native outcome %s", v.Kind, v.Msg, o.Outcome))
				}
			}
		}
		if len(r.Unconfirmed) > 0 {
			r.Exhausted = false
		}
		if r.Exhausted {
			for msg, ok := range e.possible {
				if !ok {
					report(Violation{Harness: h.name, Msg: msg, Kind: "impossible"}, "no input or random outcome gives it")
				}
			}
		}
		// native validation of explored paths
		if nat != nil {
			badMsgs := map[string]bool{}
			for _, s := range e.samples {
				if len(confirmed) > 0 && s.Outcome == "panic" {
					continue
				}
				o := nat.Run(natReq{H: h.name, In: s.Inputs, Deep: thorough}, false)
				switch {
				case o.Outcome == "assert" || (o.Outcome == "panic" && s.Outcome != "panic") || o.Outcome == "timeout" || o.Outcome == "memory" || o.Outcome == "crash":
					m := o.Outcome + " " + o.Msg
					if badMsgs[m] || len(confirmed) > 0 {
						r.Mismatch++
						continue
					}
					// a failure on the real code is a violation however it was found
					badMsgs[m] = true
					v := Violation{Harness: h.name, Msg: o.Msg, Inputs: s.Inputs, Kind: o.Outcome}
					if f := nat.Run(natReq{H: h.name, In: s.Inputs, Deep: thorough}, true); f.Outcome == o.Outcome {
						report(v, "native replay of an explored path: "+m)
					} else {
						r.Mismatch++
						r.MismatchEx = m + " (not in a fresh process)"
					}
				case s.Outcome == "recheck" && o.Outcome == "infeasible":
				case s.Outcome == o.Outcome && (s.Outcome != "ok" || eqU64(s.Obs, o.Obs)):
					r.Validated++
				case s.fallback: // the engine left this path; only the real run counts
				default:
					r.Mismatch++
					if r.MismatchEx == "" {
						r.MismatchEx = fmt.Sprintf("inputs %v: engine %s %v, native %s %s %v", s.Inputs, s.Outcome, s.Obs, o.Outcome, o.Msg, o.Obs)
					}
				}
			}
		}
		if len(e.samples) > 0 {
			for k := 0; k < 2 && k < len(e.samples); k++ {
				s := e.samples[len(e.samples)*k/2]
				samples = append(samples, map[string]interface{}{"harness": h.name, "inputs": s.Inputs, "outcome": s.Outcome, "observed": s.Obs, "instructions": s.Steps})
			}
		}
		r.WallS = round3(time.Since(ts).Seconds())
		results = append(results, r)
		st := "exhausted"
		if !r.Exhausted {
			st = "REDUCED"
		}
		fmt.Printf("%-34s %s paths=%d infeas=%d branches=%d asserts=%d queries=%d (unk %d, hits %d, max %.2fs) solver=%.1fs wall=%.1fs validated=%d mismatch=%d\n", h.name, st, r.Paths, r.Infeasible, r.Branches, r.Asserts, r.Queries, r.QUnknown, r.CacheHits, r.MaxQ, r.SolverS, r.WallS, r.Validated, r.Mismatch)
		if rc := r.Recheck; rc != nil {
			fmt.Printf("    recheck without rewriting: %d paths, %d assertions confirmed by the solver, %d without answer, %d contradicted\n", rc.Paths, rc.Assertions, rc.Unknown, rc.Sat)
		}
		if len(r.Missing) > 0 {
			fmt.Printf("    witnesses not reached: %v\n", r.Missing)
		}
		if r.Mismatch > 0 {
			fmt.Printf("    MISMATCH %s\n", r.MismatchEx)
		}
		for k, v := range r.Reduced {
			n := 0
			for msg, c := range v {
				if n++; n > 6 {
					break
				}
				fmt.Printf("    reduced: %s: %s (%d)\n", k, msg, c)
			}
		}
		for _, u := range r.Unconfirmed {
			fmt.Printf("    unconfirmed: %s\n", u)
		}
		if *verbose {
			for _, k := range sortedKeys(e.funcs) {
				fmt.Println("     ", k, e.funcs[k])
			}
		}
	}
	ev := *evid
	if ev == "" && *prop != "" && *hpat == "" {
		ev = filepath.Join(*root, "evidence", *prop+".json")
	}
	if ev != "" {
		writeEvidence(ev, *prop, *tier, results, funcs, samples, nviol, time.Since(t0).Seconds(), *solver, prog)
	}
	for _, l := range violLines {
		fmt.Println(l)
	}
	fmt.Printf("%s %s: %d violation(s), %.1f s\n", *prop, *tier, nviol, time.Since(t0).Seconds())
	if nviol > 0 {
		nat.CloseIf()
		os.RemoveAll(tmpDir)
		os.Exit(1)
	}
}

func (n *Native) CloseIf() {
	if n != nil {
		n.Close()
	}
}

func msgOf(v Violation, o natRes) string {
	if v.Kind == "assert" && o.Outcome == "assert" {
		return o.Msg
	}
	return v.Msg
}

func eqU64(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func round3(f float64) float64 { return float64(int64(f*1000)) / 1000 }

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

type replayFile struct {
	Harness  string   `json:"harness"`
	Bounds   string   `json:"bounds"`
	Kind     string   `json:"kind"`
	Message  string   `json:"message"`
	Position string   `json:"position"`
	Inputs   []uint64 `json:"inputs"`
	Schedule []string `json:"schedule,omitempty"`
	Native   string   `json:"native"`
	Thorough bool     `json:"thorough"`
	How      string   `json:"how_to_replay"`
}

func writeReplay(root, h string, v Violation, deep bool, doc string) string {
	dir := filepath.Join(root, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	sum := sha256.Sum256([]byte(fmt.Sprint(h, v.Msg, v.Inputs)))
	p := filepath.Join(dir, fmt.Sprintf("%s-%x.json", h, sum[:5]))
	r := replayFile{h, doc, v.Kind, v.Msg, relRepo(v.Pos), v.Inputs, v.Sched, v.Native, deep, filepath.Join(root, "check.sh") + " --replay " + p}
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(p, b, 0644)
	return p
}

func doReplay(path, hdir string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%v", err)
	}
	n, err := buildNative(hdir)
	if err != nil {
		fatal("%v", err)
	}
	o := n.Run(natReq{H: r.Harness, In: r.Inputs, Deep: r.Thorough}, true)
	n.Close()
	fmt.Printf("%s on %v\nnative outcome: %s %s\n", r.Harness, r.Inputs, o.Outcome, o.Msg)
	os.RemoveAll(tmpDir)
	if o.Outcome == "ok" || o.Outcome == "infeasible" {
		return 0
	}
	return 1
}

func writeEvidence(path, prop, tier string, rs []hResult, funcs map[string]string, samples []interface{}, nviol int, wall float64, solver string, prog *ssa.Program) {
	var paths, branches, asserts, instrs, q, unk, val, mis int64
	var st float64
	exhaustive := true
	for _, r := range rs {
		paths += r.Paths
		branches += r.Branches
		asserts += r.Asserts
		instrs += r.Instrs
		q += r.Queries
		unk += r.QUnknown
		val += int64(r.Validated)
		mis += int64(r.Mismatch)
		st += r.SolverS
		if !r.Exhausted {
			exhaustive = false
		}
	}
	var fl []string
	for _, k := range sortedKeys(funcs) {
		fl = append(fl, k+" ("+funcs[k]+")")
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": paths, "transitions": branches, "traces_validated_against_impl": val, "samples": samples,
			"bounds_exhausted":                   exhaustive,
			"assertions_decided":                 asserts,
			"instructions_executed_symbolically": instrs,
			"solver":                             solver,
			"solver_queries":                     q,
			"solver_unknown":                     unk,
			"solver_s":                           round3(st),
			"native_disagreements":               mis,
			"functions_encoded":                  fl,
			"harnesses":                          rs,
			"meaning":                            "states: path classes of the symbolic execution of the real code (each covers every input satisfying its path condition); transitions: symbolic branch decisions explored; every branch and assertion was decided by the SMT solver for all inputs within the bounds stated per harness; traces_validated_against_impl: path models replayed natively on the compiled real code with identical observations",
		},
		"assumptions": assumptions,
		"wall_s":      round3(wall),
		"violations":  nviol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	os.MkdirAll(filepath.Dir(path), 0755)
	if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
		fatal("%v", err)
	}
}

var assumptions = []string{
	"bounds: exactly those stated per harness under coverage.harnesses[].bounds; nothing is claimed outside them",
	"the encoder follows Go's semantics of go/ssa (checked on every run by replaying path models on the compiled code)",
	"64-bit platform; allocation never fails; no data races outside v.Par",
	"stubs: fmt/log output and formatted strings are opaque, hex dumps opaque, clock and runtime introspection return zero values, math/rand returns an arbitrary value of its documented range, sync.Pool.Get returns any earlier Put or a new object, map iteration in any order (maps of up to 4 entries; of more in one order and its reverse)",
	"models: bytes/strings Index, Compare, Equal, Count, IndexByte; math/bits; math.Floor/Ceil/Trunc/Abs; slice growth follows the Go runtime's size classes",
}

// witnesses lists the v.Reach names a harness mentions.
func witnesses(fn *ssa.Function) []string {
	seen := map[*ssa.Function]bool{}
	names := map[string]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			rec(a)
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil {
					continue
				}
				if fnPkgPath(g) == vPkg && g.Name() == "Reach" {
					if k, ok := c.Common().Args[0].(*ssa.Const); ok {
						s, _ := strconv.Unquote(k.Value.ExactString())
						names[s] = true
					}
				} else if isHarnessPkg(fnPkgPath(g)) {
					rec(g)
				}
			}
		}
	}
	rec(fn)
	var r []string
	for k := range names {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
