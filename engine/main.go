package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modRoot = "github.com/bytesparadise/libasciidoc"

var modelMap = map[string]string{
	"(*fmt.pp).printValue":              "fmt_pp_printValue",
	"(*sync.Pool).Get":                  "sync_Pool_Get",
	"(*sync.Pool).Put":                  "sync_Pool_Put",
	"os.Open":                           "os_Open",
	"os.Create":                         "os_Create",
	"(*os.File).Read":                   "os_File_Read",
	"(*os.File).Write":                  "os_File_Write",
	"(*os.File).WriteString":            "os_File_WriteString",
	"(*os.File).Close":                  "os_File_Close",
	"(*os.File).Name":                   "os_File_Name",
	"os.Chdir":                          "os_Chdir",
	"os.Getwd":                          "os_Getwd",
	"os.Stat":                           "os_Stat",
	"os.Lstat":                          "os_Stat",
	"os.ReadFile":                       "os_ReadFile",
	"os.Getenv":                         "os_Getenv",
	"strings.LastIndex":                 "strings_LastIndex",
	"os.LookupEnv":                      "os_LookupEnv",
	"github.com/sirupsen/logrus.Error":  "logrus_Error",
	"github.com/sirupsen/logrus.Errorf": "logrus_Errorf",
	"(*github.com/sirupsen/logrus.Entry).Error":  "logrus_Entry_Error",
	"(*github.com/sirupsen/logrus.Entry).Errorf": "logrus_Entry_Errorf",
	modRoot + "/zz_verif/sym.Errors":             "sym_Errors",
	"(*text/template.Template).Funcs":            "tmpl_Funcs",
	"(*text/template.Template).Parse":            "tmpl_Parse",
	"(*text/template.Template).Execute":          "tmpl_Execute",
}

var stubPrefixes = []string{
	"github.com/sirupsen/logrus",
	"github.com/davecgh/go-spew",
	"github.com/alecthomas/chroma",
	"github.com/dlclark/regexp2",
	"gopkg.in/yaml",
	"golang.org/x/sys",
	"runtime", "internal/cpu", "internal/godebug", "internal/poll", "internal/runtime",
	"internal/bisect", "internal/sysinfo", "internal/testlog", "internal/race", "internal/asan", "internal/msan",
	"reflect", "internal/syscall", "internal/abi",
	"encoding/json", "encoding/xml", "encoding/gob", "encoding/binary", "net", "crypto", "compress", "hash", "log", "math/big", "math/rand",
	"os/exec", "os/signal", "os/user", "regexp", "go/", "debug", "expvar", "testing", "internal/reflectlite", "internal/bytealg",
	"embed", "weak", "unique", "internal/concurrent", "internal/sync", "internal/synctest",
}

// quietStub: calls into these packages are no-ops returning zero values.
func quietStub(p string) bool {
	return strings.HasPrefix(p, "github.com/sirupsen/logrus") || strings.HasPrefix(p, "github.com/davecgh/go-spew") || p == "log"
}

func stubPkg(p string) bool {
	if p == "net/url" {
		return false
	}
	for _, s := range stubPrefixes {
		if p == s || strings.HasPrefix(p, s) && (s[len(s)-1] == '/' || strings.HasPrefix(p[len(s):], "/") || strings.Contains(s, ".")) {
			return true
		}
	}
	return false
}

func overlayFiles(repo, verif string) map[string]string {
	m := map[string]string{}
	root := filepath.Join(verif, "zz")
	filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(root, p)
			if strings.HasPrefix(rel, "cmd/") {
				m[filepath.Join(repo, "cmd/libasciidoc", filepath.Base(rel))] = p
			} else {
				m[filepath.Join(repo, "zz_verif", rel)] = p
			}
		}
		return nil
	})
	return m
}

func load(repo, verif string, pats ...string) (*Program, map[string]*ssa.Package, error) {
	ov := map[string][]byte{}
	for dst, src := range overlayFiles(repo, verif) {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, nil, err
		}
		ov[dst] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "CGO_ENABLED=0", "GOPROXY=off")}
	ps, err := packages.Load(cfg, append([]string{"./zz_verif/models"}, pats...)...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	sp, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	sp.Build()
	p := &Program{prog: sp, funcs: map[*ssa.Function]*Func{}, globals: map[*ssa.Global]int{}, models: map[string]*ssa.Function{},
		stubPkg: stubPkg, repoPfx: modRoot, symPkg: symPath, modPkg: modPath}
	out := map[string]*ssa.Package{}
	for _, q := range pkgs {
		if q != nil && q.Pkg.Path() != modPath {
			out[q.Pkg.Path()] = q
		}
	}
	for _, q := range sp.AllPackages() {
		if q.Pkg.Path() == modPath {
			for name, m := range modelMap {
				f := q.Func(m)
				if f == nil {
					return nil, nil, fmt.Errorf("model %s missing", m)
				}
				p.models[name] = f
			}
			p.modelPkg = q
		}
	}
	if p.modelPkg == nil {
		return nil, nil, fmt.Errorf("models package not loaded")
	}
	return p, out, nil
}

func newWorker(id int, p *Program, solverBin string) *Worker {
	w := &Worker{id: id, prog: p, tt: newTermTable(), solver: newSolver(solverBin), varIdx: map[[2]int]int{},
		unaryCache: map[unaryKey]bool{}, narrowCache: map[narrowKey]bool{}, multiCache: map[string]multiRes{}, fpool: map[*Func][]*Frame{},
		implCache: map[implKey]bool{}, methCache: map[methKey]*Func{}, funcsSeen: map[*Func]bool{}, side: map[any]any{},
		cache: map[string]Value{}, live: map[*Func]*liveInfo{}, vfs: newVFS(), merge: true, maxAlloc: 1 << 26}
	w.epoch, w.epochCtr = 1, 1
	w.rtErrType = p.rt(p.modelPkg.Type("RuntimeError").Type())
	return w
}

// initPackages interprets the package initialisers reachable from pkg.
func (w *Worker) initPackages(pkg *ssa.Package) error {
	for _, n := range []*ssa.Package{w.prog.modelPkg, pkg} {
		j := &Job{name: "init", fn: n.Func("init"), budget: 2_000_000_000}
		w.job = j
		w.start(j)
		w.run()
		if w.end.kind != "done" {
			return fmt.Errorf("package initialisation: %s %s", w.end.kind, w.end.msg)
		}
	}
	w.journal = nil
	w.epochCtr += 2
	w.epoch = w.epochCtr
	return nil
}

type HarnessOpts struct {
	Name     string
	Deadline time.Duration
	Budget   int64
	MapOrder bool
	Race     bool
	Sched    bool
	MaxPaths int64
	NoMerge  bool
}

type HarnessResult struct {
	Name      string                `json:"name"`
	Paths     int64                 `json:"paths"`
	Ends      map[string]int64      `json:"ends"`
	Covers    map[string]int64      `json:"covers"`
	Notes     map[string]int64      `json:"notes,omitempty"`
	Examples  map[string][]InputVal `json:"examples,omitempty"`
	TimedOut  bool                  `json:"timed_out"`
	Wall      float64               `json:"wall_s"`
	Queries   int64                 `json:"solver_queries"`
	Unsat     int64                 `json:"solver_unsat"`
	Sat       int64                 `json:"solver_sat"`
	Unknown   int64                 `json:"solver_unknown"`
	SolverS   float64               `json:"solver_s"`
	Lemmas    int64                 `json:"byte_domain_lemmas"`
	Steps     int64                 `json:"steps"`
	Forks     int64                 `json:"forks"`
	Decides   int64                 `json:"decides"`
	Asserts   int64                 `json:"asserts"`
	AssertSym int64                 `json:"asserts_symbolic"`
	Regions   int64                 `json:"merged_regions"`
	Viols     []Violation           `json:"violations"`
	Samples   [][]InputVal          `json:"samples"`
	Recovered map[string]int64      `json:"recovered,omitempty"`
}

type Engine struct {
	prog    *Program
	pkgs    map[string]*ssa.Package
	workers []*Worker
	loadS   float64
	initS   float64
}

func newEngine(repo, verif string, nw int, solverBin string, pats ...string) (*Engine, error) {
	t0 := time.Now()
	p, pkgs, err := load(repo, verif, pats...)
	if err != nil {
		return nil, err
	}
	e := &Engine{prog: p, pkgs: pkgs, loadS: time.Since(t0).Seconds()}
	t0 = time.Now()
	for i := 0; i < nw; i++ {
		e.workers = append(e.workers, newWorker(i, p, solverBin))
	}
	var wg sync.WaitGroup
	errs := make([]error, nw)
	for i, w := range e.workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, q := range pkgs {
				if err := w.initPackages(q); err != nil {
					errs[i] = err
				}
			}
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return nil, err
		}
	}
	e.initS = time.Since(t0).Seconds()
	return e, nil
}

func (e *Engine) close() {
	for _, w := range e.workers {
		w.solver.close()
	}
}

func (e *Engine) fn(name string) *ssa.Function {
	for _, q := range e.pkgs {
		if f := q.Func(name); f != nil {
			return f
		}
	}
	return nil
}

func (e *Engine) run(o HarnessOpts) (*HarnessResult, error) {
	fn := e.fn(o.Name)
	if fn == nil {
		return nil, fmt.Errorf("no harness %s", o.Name)
	}
	t0 := time.Now()
	lem0 := lemmas.total
	j := &Job{name: o.Name, fn: fn, deadline: t0.Add(o.Deadline), seenV: map[string]int{}, covers: map[string]int64{}, notes: map[string]int64{},
		ends: map[string]int64{}, examples: map[string][]InputVal{}, maxViol: 400, maxPaths: o.MaxPaths, budget: o.Budget, mapOrder: o.MapOrder, race: o.Race,
		sched: o.Sched, found: map[string]int64{}, recovered: map[string]int64{}}
	j.cond = sync.NewCond(&j.mu)
	j.queue = [][]int32{{}}
	idleCount = 0
	var wg sync.WaitGroup
	base := make([]Stats, len(e.workers))
	type sb struct {
		q, s, u, k int64
		t          time.Duration
		d          int64
	}
	sbase := make([]sb, len(e.workers))
	for i, w := range e.workers {
		base[i] = w.stats
		sbase[i] = sb{w.solver.Queries, w.solver.Sat, w.solver.Unsat, w.solver.Unknown, w.solver.Time, w.sstats.Decides}
		w.merge = !o.NoMerge
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.work(j)
		}()
	}
	wg.Wait()
	lemmas.flush(e.workers[0])
	r := &HarnessResult{Lemmas: lemmas.total - lem0, Name: o.Name, Paths: j.paths, Ends: j.ends, Covers: j.covers, Notes: j.notes, Examples: j.examples, TimedOut: j.timedOut,
		Wall: time.Since(t0).Seconds(), Viols: j.viols, Samples: j.samples, Recovered: j.recovered}
	for i, w := range e.workers {
		b, s := base[i], sbase[i]
		r.Queries += w.solver.Queries - s.q
		r.Sat += w.solver.Sat - s.s
		r.Unsat += w.solver.Unsat - s.u
		r.Unknown += w.solver.Unknown - s.k
		r.SolverS += (w.solver.Time - s.t).Seconds()
		r.Decides += w.sstats.Decides - s.d
		r.Steps += w.stats.Steps - b.Steps
		r.Forks += w.stats.Forks - b.Forks
		r.Asserts += w.stats.Asserts - b.Asserts
		r.AssertSym += w.stats.AssertSym - b.AssertSym
		r.Regions += w.stats.Regions - b.Regions
	}
	return r, nil
}

// functions returns the repo functions executed so far.
func (e *Engine) functions() []string {
	m := map[string]bool{}
	for _, w := range e.workers {
		for f := range w.funcsSeen {
			if f.isRepo && !strings.Contains(f.name, "/zz_verif/") && !f.stub {
				m[shortName(f.name)] = true
			}
		}
	}
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func main() {
	debug.SetGCPercent(200)
	if len(os.Args) < 2 {
		fmt.Println("usage: gosym run|check ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	names := fs.String("h", "", "harnesses")
	nw := fs.Int("workers", 8, "")
	dl := fs.Duration("deadline", 60*time.Second, "")
	budget := fs.Int64("budget", 200_000_000, "")
	maxPaths := fs.Int64("maxpaths", 0, "")
	dbg := fs.Bool("debug", false, "")
	nomerge := fs.Bool("nomerge", false, "")
	mo := fs.Bool("maporder", false, "")
	race := fs.Bool("race", false, "")
	sched := fs.Bool("sched", false, "")
	sol := fs.String("solver", "z3", "")
	sites := fs.Bool("sites", false, "")
	prof := fs.Bool("prof", false, "")
	cpuprof := fs.String("cpuprofile", "", "")
	pat := fs.String("pkg", "./zz_verif/harness", "")
	replay := fs.Bool("replay", true, "")
	inputs := fs.String("inputs", "", "concrete inputs file")
	tier := fs.String("tier", "quick", "")
	if cmd == "check" {
		id := os.Args[2]
		fs.Parse(os.Args[3:])
		os.Exit(runCheck(*repo, *verif, id, *tier, *nw, *sol))
	}
	fs.Parse(os.Args[2:])
	if *cpuprof != "" {
		startProfile(*cpuprof)
		defer stopProfile()
	}
	switch cmd {
	case "validate":
		os.Exit(validate(*repo, *verif, *inputs, *nw, *sol))
	case "run":
		e, err := newEngine(*repo, *verif, *nw, *sol, strings.Split(*pat, ",")...)
		if err != nil {
			fmt.Println("ERROR", err)
			os.Exit(2)
		}
		defer e.close()
		fmt.Printf("load %.1fs init %.1fs\n", e.loadS, e.initS)
		for _, w := range e.workers {
			w.debug = *dbg
			if *sites {
				w.forkSites = map[string]int64{}
			}
			if *prof {
				w.profile = map[*Func]int64{}
			}
			if *inputs != "" {
				b, err := os.ReadFile(*inputs)
				if err == nil {
					err = json.Unmarshal(b, &w.replayIn)
				}
				if err != nil {
					fmt.Println("ERROR", err)
					os.Exit(2)
				}
				w.isReplay = true
			}
		}
		for _, n := range strings.Split(*names, ",") {
			r, err := e.run(HarnessOpts{Name: n, Deadline: *dl, Budget: *budget, MaxPaths: *maxPaths, NoMerge: *nomerge, MapOrder: *mo, Race: *race, Sched: *sched})
			if err != nil {
				fmt.Println("ERROR", err)
				os.Exit(2)
			}
			if *replay && len(r.Viols) > 0 {
				nr, err := newReplayer(*repo, *verif, *pat, false)
				if err != nil {
					fmt.Println("ERROR", err)
					os.Exit(2)
				}
				for i := range r.Viols {
					rr := nr.run(r.Viols[i].Harness, r.Viols[i].Inputs, 20*time.Second)
					r.Viols[i].Replay = rr
				}
				nr.close()
			}
			smp := r.Samples
			r.Samples = nil
			_ = smp
			printResult(r)
			if *sites {
				m := map[string]int64{}
				for _, w := range e.workers {
					for k, v := range w.forkSites {
						m[k] += v
					}
				}
				top(m, 40)
			}
			if *prof {
				m := map[string]int64{}
				for _, w := range e.workers {
					for k, v := range w.profile {
						m[shortName(k.name)] += v
					}
				}
				top(m, 60)
			}
		}
	}
}

func top(m map[string]int64, n int) {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] })
	for i, k := range ks {
		if i >= n {
			break
		}
		fmt.Printf("%10d %s\n", m[k], k)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func printResult(r *HarnessResult) {
	fmt.Printf("== %s: paths %d ends %v timedout %v wall %.1fs | queries %d (unsat %d sat %d unk %d) solver %.1fs | steps %d forks %d decides %d asserts %d/%d regions %d\n",
		r.Name, r.Paths, r.Ends, r.TimedOut, r.Wall, r.Queries, r.Unsat, r.Sat, r.Unknown, r.SolverS, r.Steps, r.Forks, r.Decides, r.AssertSym, r.Asserts, r.Regions)
	fmt.Printf("   covers %v lemmas %d\n", r.Covers, r.Lemmas)
	for k, v := range r.Recovered {
		fmt.Printf("   recovered %d %s\n", v, clip(k, 300))
	}
	n := 0
	for k, v := range r.Notes {
		if n++; n > 8 {
			break
		}
		fmt.Printf("   note %d %s\n", v, clip(k, 500))
	}
	n = 0
	for k, v := range r.Examples {
		if n++; n > 3 {
			break
		}
		fmt.Printf("   ex %s: %s\n", clip(k, 60), inputStr(v))
	}
	for i, v := range r.Viols {
		if i > 400 {
			break
		}
		rp := "-"
		if v.Replay != nil {
			rp = v.Replay.Kind + " " + clip(v.Replay.Msg, 160)
		}
		fmt.Printf("   VIOL %s %s\n      notes %q\n      inputs %s\n      replay %s\n", v.Kind, clip(v.Msg, 500), v.Notes, inputStr(v.Inputs), rp)
	}
}

func inputStr(in []InputVal) string {
	s := ""
	inb := false
	for _, v := range in {
		if v.Kind == "byte" {
			if !inb {
				s += " \""
			}
			inb = true
			q := fmt.Sprintf("%q", string([]byte{byte(v.Val)}))
			s += q[1 : len(q)-1]
			continue
		}
		if inb {
			s += "\""
			inb = false
		}
		s += fmt.Sprintf(" %s=%d", v.Name, v.Val)
	}
	if inb {
		s += "\""
	}
	return s
}
