package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var noInit = map[string]bool{"runtime": true, "syscall": true, "os": true, "reflect": true, "testing": true, "net": true, "internal/poll": true}

func (e *Engine) canInit(p *ssa.Package) bool { return !noInit[p.Pkg.Path()] }

type Config struct {
	Prop, Tier, Repo, Harness, Out, Evidence string
	Seed                                     int64
	Only                                     string
	Verbose                                  bool
}

func die(code int, f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(code)
}

// overlayFiles maps virtual paths inside the repository to harness files.
func overlayFiles(cfg *Config) (map[string]string, error) {
	m := map[string]string{}
	low := strings.ToLower(cfg.Prop)
	dirs := []string{"sym", "libmod", "models", "mcsv", "hlib", "hfat", low}
	if usesOS(cfg) {
		var err error
		if m, err = osOverlay(cfg); err != nil {
			return nil, err
		}
		dirs = append(dirs, "hos")
	}
	for _, d := range dirs {
		fs, _ := filepath.Glob(filepath.Join(cfg.Harness, d, "*.go"))
		for _, f := range fs {
			m[filepath.Join(cfg.Repo, "zz_verif", d, filepath.Base(f))] = f
		}
	}
	fs, _ := filepath.Glob(filepath.Join(cfg.Harness, low, "export", "*", "*.go"))
	for _, f := range fs {
		// harness/cXX/export/<pkg dir with __ for />/file.go goes into the package
		dir := strings.ReplaceAll(filepath.Base(filepath.Dir(f)), "__", "/")
		m[filepath.Join(cfg.Repo, dir, "zz_verif_"+filepath.Base(f))] = f
	}
	if err := dataOverlay(cfg, m); err != nil {
		return nil, err
	}
	return m, commandOverlay(cfg, m)
}

// dataOverlay gives the harness the contents of the repository's data files
// listed in its file "data" ("path name" per line) as string constants.
func dataOverlay(cfg *Config, m map[string]string) error {
	low := strings.ToLower(cfg.Prop)
	list, err := os.ReadFile(filepath.Join(cfg.Harness, low, "data"))
	if err != nil {
		return nil
	}
	text := "package " + low + "\n"
	w := strings.Fields(string(list))
	for i := 0; i+1 < len(w); i += 2 {
		b, err := os.ReadFile(filepath.Join(cfg.Repo, w[i]))
		if err != nil {
			return err
		}
		text += "\nconst " + w[i+1] + " = " + strconv.Quote(string(b)) + "\n"
	}
	dir := filepath.Join(cfg.Out, "build", cfg.Prop)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	f := filepath.Join(dir, "zz_data.go")
	m[filepath.Join(cfg.Repo, "zz_verif", low, "zz_data.go")] = f
	return os.WriteFile(f, []byte(text), 0o644)
}

// embedded finds the variables of the packages that //go:embed one file.
func embedded(pkgs []*packages.Package) map[string]string {
	m := map[string]string{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.Module == nil || p.Module.Path != modPath {
			return
		}
		for i, f := range p.Syntax {
			for _, d := range f.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok || g.Tok != token.VAR {
					continue
				}
				for _, sp := range g.Specs {
					v := sp.(*ast.ValueSpec)
					for _, c := range []*ast.CommentGroup{g.Doc, v.Doc} {
						if c == nil {
							continue
						}
						for _, l := range c.List {
							if pat, ok := strings.CutPrefix(l.Text, "//go:embed "); ok && len(v.Names) == 1 && i < len(p.CompiledGoFiles) {
								b, err := os.ReadFile(filepath.Join(filepath.Dir(p.CompiledGoFiles[i]), strings.Trim(strings.TrimSpace(pat), "\"`")))
								if err == nil {
									m[p.PkgPath+"."+v.Names[0].Name] = string(b)
								}
							}
						}
					}
				}
			}
		}
	})
	return m
}

// commandOverlay makes the main packages listed in the harness's file
// "commands" importable as zz_verif/cmds/<name>, with Main calling main; the
// sources are the repository's but for their package clause.
func commandOverlay(cfg *Config, m map[string]string) error {
	low := strings.ToLower(cfg.Prop)
	list, err := os.ReadFile(filepath.Join(cfg.Harness, low, "commands"))
	if err != nil {
		return nil
	}
	for _, dir := range strings.Fields(string(list)) {
		name := filepath.Base(dir)
		out := filepath.Join(cfg.Out, "build", cfg.Prop, "cmds", name)
		if err := os.MkdirAll(out, 0o755); err != nil {
			return err
		}
		put := func(base, text string) error {
			f := filepath.Join(out, base)
			m[filepath.Join(cfg.Repo, "zz_verif", "cmds", name, base)] = f
			return os.WriteFile(f, []byte(text), 0o644)
		}
		fs, _ := filepath.Glob(filepath.Join(cfg.Repo, dir, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			text, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			set := token.NewFileSet()
			af, err := parser.ParseFile(set, f, text, parser.PackageClauseOnly)
			if err != nil {
				return err
			}
			at := set.Position(af.Name.Pos()).Offset
			t := string(text[:at]) + name + string(text[at+len(af.Name.Name):])
			if err := put(filepath.Base(f), t); err != nil {
				return err
			}
		}
		if err := put("zz_main.go", "package "+name+"\n\n// Main runs the command.\nfunc Main() { main() }\n"); err != nil {
			return err
		}
	}
	return nil
}

func goEnv() []string {
	env := append([]string{}, os.Environ()...)
	return append(env, "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
}

func goEnvVar(cfg *Config, name string) (string, error) {
	cmd := exec.Command("go", "env", name)
	cmd.Dir = cfg.Repo
	cmd.Env = goEnv()
	out, err := cmd.Output()
	return strings.TrimSpace(string(out)), err
}

func main() {
	var cfg Config
	mode := "check"
	args := os.Args[1:]
	if len(args) > 0 && !strings.HasPrefix(args[0], "-") {
		mode = args[0]
		args = args[1:]
	}
	fl := flag.NewFlagSet("gosym", flag.ExitOnError)
	fl.StringVar(&cfg.Prop, "prop", "", "property id")
	fl.StringVar(&cfg.Tier, "tier", "quick", "quick|thorough")
	fl.StringVar(&cfg.Repo, "repo", "/repo", "")
	fl.StringVar(&cfg.Harness, "harness", "/verif/harness", "")
	fl.StringVar(&cfg.Out, "out", "/verif/out", "")
	fl.StringVar(&cfg.Evidence, "evidence", "/verif/evidence", "")
	fl.StringVar(&cfg.Only, "only", "", "only harnesses with this substring")
	fl.BoolVar(&cfg.Verbose, "v", false, "")
	first := fl.Bool("first", false, "stop at the first counterexample")
	cross := fl.Int("cross", 0, "cross-check every n-th query")
	budget := fl.Int("budget", 0, "seconds")
	workers := fl.Int("j", 0, "workers")
	file := fl.String("file", "", "replay file")
	fl.Parse(args)
	cfg.Seed = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			cfg.Seed = n
		}
	}
	if mode == "replay" {
		replayFile(&cfg, *file)
		return
	}
	os.Exit(runCheck(&cfg, *cross, *budget, *workers, *first))
}

func loadProgram(cfg *Config) (*Engine, *ssa.Package, error) {
	ov, err := overlayFiles(cfg)
	if err != nil {
		return nil, nil, err
	}
	bytesOv := map[string][]byte{}
	for k, v := range ov {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, nil, err
		}
		bytesOv[k] = b
	}
	low := strings.ToLower(cfg.Prop)
	pc := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     cfg.Repo,
		Overlay: bytesOv,
		Env:     goEnv(),
	}
	pkgs, err := packages.Load(pc, "./zz_verif/"+low, "./zz_verif/libmod")
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, ssaPkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, fset: prog.Fset, repo: cfg.Repo, sizes: types.SizesFor("gc", "amd64"), rtErrType: types.Typ[types.String],
		tier: cfg.Tier, solver: "z3-new", seed: cfg.Seed, notes: map[string]int{}, funcs: map[string]int{}}
	if _, err := lookPath("z3-new"); err != nil {
		e.solver = "z3"
	}
	e.lib = prog.ImportedPackage(modPath + "/zz_verif/libmod")
	e.models = prog.ImportedPackage(modelsPkg)
	e.mcsv = prog.ImportedPackage(modPath + "/zz_verif/mcsv")
	e.embeds = embedded(pkgs)
	for _, p := range ssaPkgs {
		if p != nil && strings.HasSuffix(p.Pkg.Path(), "/zz_verif/"+low) {
			return e, p, nil
		}
	}
	return nil, nil, fmt.Errorf("no package for %s", cfg.Prop)
}

func lookPath(n string) (string, error) {
	for _, d := range filepath.SplitList(os.Getenv("PATH")) {
		p := filepath.Join(d, n)
		if st, err := os.Stat(p); err == nil && !st.IsDir() {
			return p, nil
		}
	}
	return "", os.ErrNotExist
}

// harness documentation: the doc comment of each harness function
func docOf(pkg *ssa.Package, e *Engine, name string) string {
	fn := pkg.Func(name)
	if fn == nil {
		return ""
	}
	if d, ok := fn.Syntax().(*ast.FuncDecl); ok && d.Doc != nil {
		return strings.TrimSpace(d.Doc.Text())
	}
	return ""
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
}

func loadKnown(prop string) []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile("/verif/known_findings.json")
	if err != nil {
		return nil
	}
	var f struct {
		Findings []knownFinding `json:"findings"`
	}
	if json.Unmarshal(b, &f) != nil {
		return nil
	}
	for _, k := range f.Findings {
		if k.Property == prop {
			out = append(out, k)
		}
	}
	return out
}

func runCheck(cfg *Config, cross, budget, workers int, first bool) int {
	t0 := time.Now()
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(20 << 30)
	debug.SetMaxStack(4 << 30)
	e, pkg, err := loadProgram(cfg)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		fmt.Printf("ERROR property=%s the harness does not build against this tree\n", cfg.Prop)
		return 2
	}
	loadT := time.Since(t0)
	// native replay binary, built in the background
	type built struct {
		r   *Replayer
		err error
	}
	bc := make(chan built, 1)
	var names []string
	for n, m := range pkg.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "H_") && f.Signature.Params().Len() == 0 {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	go func() {
		r, err := buildReplayer(cfg, names)
		bc <- built{r, err}
	}()
	e.nWorkers = runtime.NumCPU()
	if workers > 0 {
		e.nWorkers = workers
	}
	e.maxSteps = 5_000_000
	e.maxViol = 12
	e.firstOnly = first
	e.timeout = 600
	e.cross = cross
	tot := 300 * time.Second
	if cfg.Tier == "thorough" {
		tot = 700 * time.Second
		e.timeout = 4000
		if cross == 0 {
			e.cross = 400
		}
	} else if cross == 0 {
		e.cross = 1500
	}
	if budget > 0 {
		tot = time.Duration(budget) * time.Second
	}
	e.deadline = time.Now().Add(tot)
	for _, n := range names {
		if cfg.Only != "" && !strings.Contains(n, cfg.Only) {
			continue
		}
		j := &Job{Name: n, fn: pkg.Func(n), Asserts: map[string]int{}, Covers: map[string]int{}, Unsup: map[string]int{}, Limits: map[string]int{},
			vcount: map[string]int{}, Bounds: map[string]int{}, rng: rand.New(rand.NewSource(cfg.Seed)), deadline: e.deadline}
		e.jobs = append(e.jobs, j)
	}
	if len(e.jobs) == 0 {
		fmt.Printf("ERROR property=%s no harness\n", cfg.Prop)
		return 2
	}
	t1 := time.Now()
	e.explore()
	exploreT := time.Since(t1)
	b := <-bc
	if b.err != nil {
		fmt.Fprintln(os.Stderr, b.err)
		fmt.Printf("ERROR property=%s the replay program does not build against this tree\n", cfg.Prop)
		return 2
	}
	return report(cfg, e, pkg, b.r, t0, loadT, exploreT)
}

func report(cfg *Config, e *Engine, pkg *ssa.Package, rp *Replayer, t0 time.Time, loadT, exploreT time.Duration) int {
	known := loadKnown(cfg.Prop)
	var st SolverStats
	for _, s := range e.st {
		st.Queries += s.Queries
		st.Sat += s.Sat
		st.Unsat += s.Unsat
		st.Unknown += s.Unknown
		st.Errors += s.Errors
		st.Fallback += s.Fallback
		st.CrossChecked += s.CrossChecked
		st.CrossDisagree += s.CrossDisagree
		st.BadModels += s.BadModels
		st.Time += s.Time
	}
	exhaustive := true
	var problems []string
	nViol := 0
	exit := 0
	paths, decs := 0, 0
	validated := 0
	var samples []any
	harnesses := map[string]any{}
	knownSeen := map[string]bool{}
	os.MkdirAll(filepath.Join(cfg.Out, "replay"), 0o755)
	for _, j := range e.jobs {
		paths += j.Paths
		decs += j.Decs
		ok := j.Dropped == 0 && j.NUnsup == 0 && j.unk == 0
		if !ok && !j.stop {
			exhaustive = false
			problems = append(problems, fmt.Sprintf("%s: %d dropped, %d unsupported, %d unknown", j.Name, j.Dropped, j.NUnsup, j.unk))
		}
		if j.Paths == 0 {
			exhaustive = false
			problems = append(problems, j.Name+": no path completed")
			if exit == 0 && len(j.Viols) == 0 {
				exit = 2 // nothing was explored, which is no success
			}
		}
		h := map[string]any{"paths": j.Paths, "decisions": j.Decs, "cut_by_assumption": j.Ended, "basic_blocks": j.Steps, "bounds": j.Bounds,
			"assertions": j.Asserts, "covered": j.Covers, "symbolic_inputs_max": j.maxVars, "path_time_s": round2(j.Time.Seconds()), "exhaustive": ok}
		if d := docOf(pkg, e, j.Name); d != "" {
			h["what"] = d
		}
		if len(j.Unsup) > 0 {
			h["unsupported"] = j.Unsup
		}
		if j.Dropped > 0 {
			h["dropped"] = j.Dropped
		}
		// counterexamples
		byLabel := map[string][]*Violation{}
		var labels []string
		for _, v := range j.Viols {
			k := v.Kind + "|" + v.Label
			if byLabel[k] == nil {
				labels = append(labels, k)
			}
			byLabel[k] = append(byLabel[k], v)
		}
		reported := 0
		for _, k := range labels {
			confirmed := false
			for i, v := range byLabel[k] {
				res := rp.runOne(j.Name, v.Vals)
				if cfg.Verbose {
					fmt.Fprintf(os.Stderr, "counterexample %s %s [%s] where=%s native=%s %s vals=%v\n", j.Name, v.Label, v.Kind, v.Where, res.Status, res.Msg, trunc(fmt.Sprint(v.Vals), 300))
				}
				if !res.bad() {
					continue
				}
				confirmed = true
				kf := matchKnown(known, j.Name, res)
				if kf != nil {
					if !knownSeen[kf.What] {
						knownSeen[kf.What] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", cfg.Prop, kf.What)
					}
					break
				}
				nViol++
				reported++
				if reported <= 5 {
					p := filepath.Join(cfg.Out, "replay", fmt.Sprintf("%s-%s-%d-%d.json", cfg.Prop, j.Name, nViol, i))
					writeJSON(p, map[string]any{"property": cfg.Prop, "harness": j.Name, "tier": cfg.Tier, "values": v.Vals, "label": v.Label,
						"kind": v.Kind, "where": v.Where, "native": res.Status + ": " + res.Msg, "observed": res.Obs})
					fmt.Printf("VIOLATION property=%s replay=%s\n", cfg.Prop, p)
					fmt.Printf("  %s: %s\n  native run: %s: %s\n", j.Name, v.Label, res.Status, trunc(res.Msg, 400))
				}
				exit = 1
				break
			}
			if !confirmed {
				exhaustive = false
				problems = append(problems, fmt.Sprintf("%s: counterexample for %q did not reproduce natively", j.Name, k))
				fmt.Fprintf(os.Stderr, "UNCONFIRMED %s %s %s: not reproduced natively, not reported\n", cfg.Prop, j.Name, k)
			}
		}
		// validation of the encoding on sampled paths
		var cases [][]uint64
		for _, s := range j.Samples {
			cases = append(cases, s.vals)
		}
		results := rp.runMany(j.Name, cases)
		for i, r := range results {
			s := j.Samples[i]
			if r.bad() {
				kf := matchKnown(known, j.Name, r)
				if kf != nil {
					continue
				}
				nViol++
				p := filepath.Join(cfg.Out, "replay", fmt.Sprintf("%s-%s-sample-%d.json", cfg.Prop, j.Name, i))
				writeJSON(p, map[string]any{"property": cfg.Prop, "harness": j.Name, "tier": cfg.Tier, "values": s.vals, "label": r.Label,
					"kind": "path replay", "native": r.Status + ": " + r.Msg})
				fmt.Printf("VIOLATION property=%s replay=%s\n", cfg.Prop, p)
				fmt.Printf("  %s: native run of an explored path: %s: %s\n", j.Name, r.Status, trunc(r.Msg, 400))
				exit = 1
				continue
			}
			if r.Status != "ok" || !sameObs(s.obs, r.Obs) {
				exhaustive = false
				problems = append(problems, fmt.Sprintf("%s: encoding differs from the implementation on a sampled path (%s)", j.Name, r.Status))
				fmt.Fprintf(os.Stderr, "ENCODING MISMATCH %s %s: native %s %s\n  symbolic %v\n  native   %v\n  vals %v\n", cfg.Prop, j.Name, r.Status, r.Msg, s.obs, r.Obs, trunc(fmt.Sprint(s.vals), 400))
				continue
			}
			validated++
			if i < 2 {
				samples = append(samples, map[string]any{"harness": j.Name, "inputs": truncVals(s.vals), "observed": truncStrs(s.obs)})
			}
		}
		harnesses[j.Name] = h
	}
	fns := sortedKeys(e.funcs)
	cov := map[string]any{
		"states": paths, "transitions": decs, "traces_validated_against_impl": validated, "samples": samples, "exhaustive": exhaustive,
		"harnesses": harnesses, "functions_encoded": fns, "functions_encoded_count": len(fns),
		"solver": map[string]any{"name": e.solver, "queries": st.Queries, "sat": st.Sat, "unsat": st.Unsat, "unknown": st.Unknown, "errors": st.Errors,
			"second_opinions": st.Fallback, "cross_checked_with_cvc5": st.CrossChecked, "disagreements": st.CrossDisagree, "models_refused": st.BadModels, "time_s": round2(st.Time.Seconds())},
		"load_s": round2(loadT.Seconds()), "explore_s": round2(exploreT.Seconds()),
		"meaning": "states: completed symbolic paths (each stands for every input satisfying its path condition); transitions: branch, concretisation and assertion decisions made with the solver",
	}
	if len(problems) > 0 {
		cov["incomplete"] = problems
	}
	if len(e.notes) > 0 {
		cov["notes"] = e.notes
	}
	ev := map[string]any{"property": cfg.Prop, "tier": cfg.Tier, "seed": cfg.Seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{"bounds and assumptions are those listed per harness", "go/ssa and the executor's instruction semantics (validated on sampled paths against the compiled code)",
			"library models: fmt, errors.Is/As, encoding/binary.Read/Write, bytealg, sync, local time UTC+5:30 (see DESIGN.md)"},
		"wall_s": round2(time.Since(t0).Seconds()), "violations": nViol}
	if _, err := os.Stat(cfg.Evidence); err != nil {
		os.MkdirAll(cfg.Evidence, 0o755)
	}
	if cfg.Only == "" {
		writeJSON(filepath.Join(cfg.Evidence, cfg.Prop+".json"), ev)
	}
	for _, p := range problems {
		fmt.Fprintln(os.Stderr, "INCOMPLETE", p)
	}
	if cfg.Verbose {
		for _, j := range e.jobs {
			fmt.Fprintf(os.Stderr, "%-40s paths=%d ended=%d decs=%d viol=%d unsup=%d dropped=%d maxdecs=%d time=%.1fs covers=%v asserts=%v\n", j.Name, j.Paths, j.Ended, j.Decs, len(j.Viols), j.NUnsup, j.Dropped, j.MaxDecs, j.Time.Seconds(), j.Covers, j.Asserts)
			for _, k := range sortedKeys(j.Unsup) {
				fmt.Fprintf(os.Stderr, "    unsupported %dx %s\n", j.Unsup[k], k)
			}
		}
		for _, n := range sortedKeys(e.notes) {
			fmt.Fprintln(os.Stderr, "note:", n)
		}
		fmt.Fprintf(os.Stderr, "load %.1fs explore %.1fs solver %.1fs queries %d (sat %d unsat %d unknown %d err %d) funcs %d\n", loadT.Seconds(), exploreT.Seconds(), st.Time.Seconds(), st.Queries, st.Sat, st.Unsat, st.Unknown, st.Errors, len(fns))
	}
	verdict := "held on everything explored"
	if exit == 1 {
		verdict = "VIOLATED"
	}
	fmt.Printf("property %s %s: %s; %d paths, %d decisions, %d solver queries, %d paths replayed natively, exhaustive within bounds: %v, %.1f s\n",
		cfg.Prop, cfg.Tier, verdict, paths, decs, st.Queries, validated, exhaustive, time.Since(t0).Seconds())
	return exit
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func truncVals(v []uint64) any {
	if len(v) > 48 {
		return map[string]any{"first": v[:48], "count": len(v)}
	}
	return v
}

func truncStrs(v []string) []string {
	var out []string
	for i, s := range v {
		if i == 12 {
			out = append(out, "...")
			break
		}
		out = append(out, trunc(s, 160))
	}
	return out
}

func sameObs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			fa, fb := strings.Fields(a[i]), strings.Fields(b[i])
			if len(fa) != len(fb) {
				return false
			}
			for k := range fa {
				if fa[k] != fb[k] && fa[k] != "?" && fb[k] != "?" {
					return false
				}
			}
		}
	}
	return true
}

func matchKnown(known []knownFinding, harness string, r *caseResult) *knownFinding {
	for i := range known {
		k := &known[i]
		if k.Harness == harness && strings.Contains(r.Status+": "+r.Msg, k.Label) {
			return k
		}
	}
	return nil
}

func writeJSON(p string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		die(3, "json: %v", err)
	}
	if err := os.WriteFile(p, append(b, '\n'), 0o644); err != nil {
		die(3, "write: %v", err)
	}
}
