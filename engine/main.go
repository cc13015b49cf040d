package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"golang.org/x/tools/go/ssa"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

const modPath = "github.com/ipfs/go-unixfs"

type HarnessCfg struct {
	Pkg    string                    `json:"pkg"`
	Fn     string                    `json:"fn"`
	Bound  string                    `json:"bound"`
	Params map[string]map[string]int `json:"params"` // tier -> name -> value
	Time   map[string]int            `json:"time"`   // tier -> seconds
	Reach  []string                  `json:"reach"`  // witnesses that must be reached
	Steps  int                       `json:"steps"`
	QTime  int                       `json:"qtime"`
	NoNat  bool                      `json:"nonative"` // schedules: replay in the engine only
	Pkgs   []string                  `json:"pkgs"`
}

type PropCfg struct {
	Harness     []HarnessCfg `json:"harness"`
	Assumptions []string     `json:"assumptions"`
	Outside     string       `json:"outside"`
}

type Known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Assert   string `json:"assert"`
	Where    string `json:"where"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit,omitempty"`
}

type Assignment struct {
	Harness string                       `json:"harness"`
	Vars    map[string]uint64            `json:"vars"`
	Mem     map[string]map[string]uint64 `json:"mem"`
	Params  map[string]int               `json:"params"`
}

type NativeResult struct {
	Status string   `json:"status"` // ok, assert, panic, hang, skip, crash
	ID     string   `json:"id"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

func goEnv(root string) []string {
	env := os.Environ()
	var out []string
	for _, e := range env {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") {
			continue
		}
		out = append(out, e)
	}
	return append(out, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=readonly")
}

type nativeBin struct {
	path string
	err  error
	once sync.Once
	done chan struct{}
}

var entryRe = regexp.MustCompile(`(?m)^func ([A-Z]\w*)\(\) *\{`)

// registry lists the harness entry points of the packages for the native runner.
func registry(hdir string, pkgs []string) []byte {
	var imp, ent strings.Builder
	for _, p := range pkgs {
		fs, _ := filepath.Glob(filepath.Join(hdir, p, "*.go"))
		any := false
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			for _, m := range entryRe.FindAllSubmatch(b, -1) {
				any = true
				fmt.Fprintf(&ent, "\t%q: %s.%s,\n", p+"."+string(m[1]), p, m[1])
			}
		}
		if any {
			fmt.Fprintf(&imp, "\t%q\n", modPath+"/zzverif/"+p)
		}
	}
	return []byte("package main\n\nimport (\n" + imp.String() + ")\n\nvar registry = map[string]func(){\n" + ent.String() + "}\n")
}

func buildNative(root, hdir, work string, pkgs []string) *nativeBin {
	nb := &nativeBin{done: make(chan struct{}), path: filepath.Join(work, "native")}
	go func() {
		defer close(nb.done)
		rep := map[string]string{}
		harnessOverlay(root, hdir, func(dst, src string) error { rep[dst] = src; return nil })
		reg := filepath.Join(work, "registry.go")
		if err := os.WriteFile(reg, registry(hdir, pkgs), 0o644); err != nil {
			nb.err = err
			return
		}
		rep[filepath.Join(root, "zzverif", "cmd", "registry.go")] = reg
		j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
		of := filepath.Join(work, "overlay.json")
		if err := os.WriteFile(of, j, 0o644); err != nil {
			nb.err = err
			return
		}
		cmd := exec.Command("go", "build", "-overlay", of, "-tags", "verif", "-o", nb.path, "./zzverif/cmd")
		cmd.Dir = root
		cmd.Env = goEnv(root)
		o, err := cmd.CombinedOutput()
		if err != nil {
			nb.err = fmt.Errorf("native harness build: %v\n%s", err, o)
		}
	}()
	return nb
}

func (nb *nativeBin) wait() error { <-nb.done; return nb.err }

// run executes assignments on the real code. Each case runs under a time limit.
func (nb *nativeBin) run(as []Assignment, perCase time.Duration) []NativeResult {
	res := make([]NativeResult, len(as))
	if nb.wait() != nil {
		for i := range res {
			res[i] = NativeResult{Status: "nobuild", Msg: nb.err.Error()}
		}
		return res
	}
	i := 0
	for i < len(as) {
		cmd := exec.Command(nb.path)
		cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMEMLIMIT=4GiB")
		in, _ := cmd.StdinPipe()
		out, _ := cmd.StdoutPipe()
		var errb bytes.Buffer
		cmd.Stderr = &errb
		if err := cmd.Start(); err != nil {
			res[i] = NativeResult{Status: "nobuild", Msg: err.Error()}
			i++
			continue
		}
		rd := bufio.NewReaderSize(out, 1<<20)
		crashed := false
		for i < len(as) && !crashed {
			j, _ := json.Marshal(as[i])
			in.Write(append(j, '\n'))
			ch := make(chan string, 1)
			go func() {
				for {
					l, err := rd.ReadString('\n')
					if strings.HasPrefix(l, "SYMRESULT ") || err != nil {
						ch <- l
						return
					}
				}
			}()
			select {
			case l := <-ch:
				if strings.HasPrefix(l, "SYMRESULT ") {
					json.Unmarshal([]byte(l[10:]), &res[i])
				} else {
					cmd.Wait()
					msg := errb.String()
					res[i] = NativeResult{Status: "panic", ID: "panic", Msg: firstLines(msg, 12)}
					if strings.Contains(msg, "all goroutines are asleep") {
						res[i].Status, res[i].ID = "hang", "deadlock"
					}
					crashed = true
				}
			case <-time.After(perCase):
				res[i] = NativeResult{Status: "hang", ID: "hang", Msg: fmt.Sprintf("no result within %v", perCase)}
				cmd.Process.Kill()
				crashed = true
			}
			i++
		}
		in.Close()
		cmd.Process.Kill()
		cmd.Wait()
	}
	return res
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

func toAssignment(h string, m *Model, params map[string]int) Assignment {
	a := Assignment{Harness: h, Vars: map[string]uint64{}, Mem: map[string]map[string]uint64{}, Params: params}
	for k, v := range m.v {
		a.Vars[k] = v
	}
	for k, t := range m.m {
		x := map[string]uint64{}
		for i, v := range t {
			x[strconv.FormatUint(i, 10)] = v
		}
		a.Mem[k] = x
	}
	return a
}

func main() {
	var (
		prop     = flag.String("prop", "", "property id")
		tier     = flag.String("tier", "quick", "tier")
		root     = flag.String("root", "/repo", "repository under test")
		verif    = flag.String("verif", "/verif", "verification directory")
		hname    = flag.String("harness", "", "run a single harness pkg.Func (debugging)")
		secs     = flag.Int("t", 0, "override time per harness")
		workers  = flag.Int("j", runtime.NumCPU(), "workers")
		one      = flag.String("replay", "", "replay an assignment file natively and exit")
		maxPaths = flag.Int("paths", 0, "maximum paths")
	)
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	os.Exit(run(*prop, *tier, *root, *verif, *hname, *one, *secs, *workers, *maxPaths))
}

type hres struct {
	cfg    HarnessCfg
	e      *Explorer
	nat    int // native traces compared
	natBad []string
	unsupN int
}

func run(prop, tier, root, verif, hname, one string, secs, workers, maxPaths int) int {
	t0 := time.Now()
	work, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Println("error:", err)
		return 3
	}
	defer os.RemoveAll(work)
	hdir := filepath.Join(verif, "harness")
	if one != "" {
		b, err := os.ReadFile(one)
		if err != nil {
			fmt.Println(err)
			return 3
		}
		var rp struct {
			Assignment Assignment `json:"assignment"`
		}
		if err := json.Unmarshal(b, &rp); err != nil {
			fmt.Println(err)
			return 3
		}
		nb := buildNative(root, hdir, work, []string{strings.Split(rp.Assignment.Harness, ".")[0]})
		r := nb.run([]Assignment{rp.Assignment}, 20*time.Second)[0]
		fmt.Printf("native replay: %s %s %s\n", r.Status, r.ID, r.Msg)
		if r.Status == "ok" || r.Status == "skip" {
			return 0
		}
		return 1
	}
	cfgs := map[string]PropCfg{}
	b, err := os.ReadFile(filepath.Join(verif, "checks.json"))
	if err == nil {
		err = json.Unmarshal(b, &cfgs)
	}
	if err != nil {
		fmt.Println("error: checks.json:", err)
		return 3
	}
	pc, ok := cfgs[prop]
	if hname != "" {
		parts := strings.Split(hname, ".")
		found := false
		for _, c := range cfgs {
			for _, h := range c.Harness {
				if h.Pkg == parts[0] && h.Fn == parts[1] {
					pc = PropCfg{Harness: []HarnessCfg{h}}
					found = true
				}
			}
		}
		if !found {
			pc = PropCfg{Harness: []HarnessCfg{{Pkg: parts[0], Fn: parts[1]}}}
		}
	} else if !ok {
		fmt.Println("error: unknown property", prop)
		return 3
	}
	var known []Known
	if b, err := os.ReadFile(filepath.Join(verif, "known-findings.json")); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			fmt.Println("error: known-findings.json:", err)
			return 3
		}
	}
	pats := map[string]bool{}
	for _, h := range pc.Harness {
		pats[h.Pkg] = true
	}
	var pl, hp []string
	for p := range pats {
		pl = append(pl, "./zzverif/"+p)
		hp = append(hp, p)
	}
	sort.Strings(pl)
	sort.Strings(hp)
	nb := buildNative(root, hdir, work, hp)
	prog, err := loadProgram(root, hdir, pl, filepath.Join(verif, "depoverlay"))
	if err != nil {
		fmt.Println("cannot encode the current tree:", err)
		// the tree does not compile with the harness: nothing was decided
		writeEvidence(verif, prop, tier, nil, pc, time.Since(t0), 0, nil, []string{"load failed: " + err.Error()})
		return 2
	}
	loadT := time.Since(t0)
	var results []*hres
	var lines []string
	violations := 0
	knownHit := map[string]string{}
	replayDir := filepath.Join(verif, "replays")
	var notes []string
	for _, h := range pc.Harness {
		entry := prog.findEntry(modPath+"/zzverif/"+h.Pkg, h.Fn)
		if entry == nil {
			fmt.Println("error: no harness", h.Pkg, h.Fn)
			return 3
		}
		e := NewExplorer(prog, entry)
		e.workers = workers
		if h.Steps > 0 {
			e.maxSteps = h.Steps
		}
		if h.QTime > 0 {
			e.qTimeout = h.QTime
		}
		e.params = h.Params[tier]
		if e.params == nil {
			e.params = h.Params["quick"]
		}
		if e.params == nil {
			e.params = map[string]int{}
		}
		e.params["thorough"] = 0
		if tier == "thorough" {
			e.params["thorough"] = 1
		}
		e.maxPaths = maxPaths
		t := h.Time[tier]
		if t == 0 {
			t = 30
			if tier == "thorough" {
				t = 300
			}
		}
		if secs > 0 {
			t = secs
		}
		e.deadline = time.Now().Add(time.Duration(t) * time.Second)
		e.Run()
		r := &hres{cfg: h, e: e}
		results = append(results, r)
		hn := h.Pkg + "." + h.Fn
		// candidate violations -> native replay
		seen := map[string]bool{}
		for _, v := range e.Viol {
			a := toAssignment(hn, v.Model, e.params)
			var nr NativeResult
			if !h.NoNat {
				nr = nb.run([]Assignment{a}, 20*time.Second)[0]
				if nr.Status == "ok" || nr.Status == "skip" || nr.Status == "nobuild" {
					msg := fmt.Sprintf("%s: candidate %s (%s) not reproduced natively (%s %s): encoding gap, not reported", hn, v.ID, v.Msg, nr.Status, nr.Msg)
					r.natBad = append(r.natBad, msg)
					notes = append(notes, msg)
					continue
				}
			} else {
				nr = NativeResult{Status: "engine", ID: v.ID, Msg: v.Msg}
			}
			id := nr.ID
			if id == "" {
				id = v.ID
			}
			report := func() {
				key := hn + "|" + id
				if seen[key] {
					return
				}
				seen[key] = true
				if k := matchKnown(known, prop, hn, id, v.Msg+" "+nr.Msg); k != nil {
					knownHit[k.Assert+"|"+k.Harness+"|"+k.Where] = k.What
					return
				}
				violations++
				os.MkdirAll(replayDir, 0o755)
				rp := filepath.Join(replayDir, fmt.Sprintf("%s-%s-%s.json", prop, h.Fn, sanitize(id)))
				j, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "harness": hn, "assert": id, "message": v.Msg, "native": nr, "assignment": a, "decisions": v.Trail,
					"how": "bash /verif/check.sh --replay " + rp}, "", " ")
				os.WriteFile(rp, j, 0o644)
				lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, rp))
				fmt.Printf("  counterexample in %s: %s -- %s\n    native: %s %s %s\n", hn, id, v.Msg, nr.Status, nr.ID, firstLines(nr.Msg, 4))
			}
			report()
		}
		// translator validation: completed paths and unsupported paths run natively
		if !h.NoNat {
			n := 12
			if tier == "thorough" {
				n = 60
			}
			var as []Assignment
			var smp []PathInfo
			step := 1
			if len(e.Samples) > n {
				step = len(e.Samples) / n
			}
			for i := 0; i < len(e.Samples) && len(as) < n; i += step {
				as = append(as, toAssignment(hn, e.Samples[i].Model, e.params))
				smp = append(smp, e.Samples[i])
			}
			nsm := len(as)
			for i := 0; i < len(e.UnsupModels) && i < n; i++ {
				as = append(as, toAssignment(hn, e.UnsupModels[i], e.params))
			}
			rs := nb.run(as, 20*time.Second)
			for i, nr := range rs {
				if nr.Status == "nobuild" {
					notes = append(notes, "native harness did not build: "+firstLines(nr.Msg, 5))
					break
				}
				switch nr.Status {
				case "ok":
					if i < nsm {
						if d := diffObs(smp[i].Obs, nr.Obs); d != "" {
							msg := fmt.Sprintf("%s: trace mismatch between engine and native run: %s", hn, d)
							r.natBad = append(r.natBad, msg)
							notes = append(notes, msg)
						} else {
							r.nat++
						}
					}
				case "skip":
					r.natBad = append(r.natBad, hn+": native run rejected an engine path's assumptions: "+nr.Msg)
					notes = append(notes, hn+": native run rejected an engine path's assumptions: "+nr.Msg)
				default:
					// the real code violates the property on this input
					key := hn + "|" + nr.ID
					if seen[key] {
						continue
					}
					seen[key] = true
					if k := matchKnown(known, prop, hn, nr.ID, nr.Msg); k != nil {
						knownHit[k.Assert+"|"+k.Harness+"|"+k.Where] = k.What
						continue
					}
					violations++
					os.MkdirAll(replayDir, 0o755)
					rp := filepath.Join(replayDir, fmt.Sprintf("%s-%s-%s.json", prop, h.Fn, sanitize(nr.ID)))
					j, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "harness": hn, "assert": nr.ID, "message": "native run of an explored path", "native": nr, "assignment": as[i]}, "", " ")
					os.WriteFile(rp, j, 0o644)
					lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, rp))
					fmt.Printf("  native violation on an explored path of %s: %s %s %s\n", hn, nr.Status, nr.ID, firstLines(nr.Msg, 4))
				}
			}
		}
		for _, id := range h.Reach {
			if e.Reached[id] == 0 {
				notes = append(notes, fmt.Sprintf("%s: witness %s not reached", hn, id))
			}
		}
		printSummary(hn, r)
	}
	var ks []string
	for _, w := range knownHit {
		ks = append(ks, w)
	}
	sort.Strings(ks)
	for _, w := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, w)
	}
	for i, n := range notes {
		if i < 12 {
			fmt.Println("  note:", firstN(n, 600))
		}
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	if hname == "" {
		writeEvidence(verif, prop, tier, results, pc, time.Since(t0), violations, ks, notes)
	}
	fmt.Printf("%s %s: %d harnesses, load %.1fs, wall %.1fs, violations %d\n", prop, tier, len(results), loadT.Seconds(), time.Since(t0).Seconds(), violations)
	if violations > 0 {
		return 1
	}
	return 0
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_' {
			return r
		}
		return '_'
	}, s)
}

func matchKnown(ks []Known, prop, h, id, msg string) *Known {
	for i := range ks {
		k := &ks[i]
		if k.Status == "known" && k.Property == prop && k.Harness == h && k.Assert == id && (k.Where == "" || strings.Contains(msg, k.Where)) {
			return k
		}
	}
	return nil
}

func diffObs(a, b []string) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d observations vs %d: %v vs %v", len(a), len(b), a, b)
	}
	for i := range a {
		if a[i] != b[i] && !strings.HasSuffix(a[i], "=<sym>") {
			return fmt.Sprintf("%q vs %q", a[i], b[i])
		}
	}
	return ""
}

func printSummary(hn string, r *hres) {
	e := r.e
	st := "complete"
	if e.LeftQueue > 0 {
		st = fmt.Sprintf("PARTIAL (%s, %d queued)", e.stopWhy, e.LeftQueue)
	}
	fmt.Printf("%s: %s paths=%d done=%d pruned=%d limit=%d unsup=%d unknown=%d steps=%d decisions=%d queries=%d (sat %d unsat %d) cache=%d solver=%.1fs max=%.2fs wall=%.1fs native-traces=%d\n",
		hn, st, e.Paths, e.Done, e.Assumed, e.Limit, sum(e.Unsup), e.Unknown, e.Steps, e.Decisions, e.Solver.Queries, e.Solver.Sat, e.Solver.Unsat, e.Solver.CacheHits, e.Solver.Time.Seconds(), e.Solver.Max.Seconds(), e.Wall.Seconds(), r.nat)
	var ids []string
	for id := range e.Asserts {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		s := e.Asserts[id]
		fmt.Printf("    assert %-28s discharged=%d (syntactic %d) violated=%d unknown=%d\n", id, s.Discharged, s.Trivial, s.Violated, s.Unknown)
	}
	for _, k := range sortedKeys(e.Reached) {
		fmt.Printf("    reach  %-28s %d\n", k, e.Reached[k])
	}
	for k, v := range e.Unsup {
		fmt.Printf("    unsupported x%d: %s\n", v, k)
	}
	for k, v := range e.LimitMsg {
		fmt.Printf("    limit x%d: %s\n", v, k)
	}
	for i, s := range e.EngineErrs {
		if i > 0 {
			break
		}
		fmt.Println("    ENGINE:", firstLines(s, 24))
	}
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func writeEvidence(verif, prop, tier string, rs []*hres, pc PropCfg, wall time.Duration, viol int, known, notes []string) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{}
	states, trans, nat := int64(0), int64(0), 0
	var samples []interface{}
	var hs []interface{}
	exhaustive := len(rs) > 0
	fnset := map[string]map[string]interface{}{}
	visited := map[string][]bool{}
	visfn := map[string]*ssa.Function{}
	q, sa, un, uk, ch := 0, 0, 0, 0, 0
	var st time.Duration
	for _, r := range rs {
		e := r.e
		states += e.Decisions
		trans += e.Steps
		nat += r.nat
		q += e.Solver.Queries
		sa += e.Solver.Sat
		un += e.Solver.Unsat
		uk += e.Unknown
		ch += e.Solver.CacheHits
		st += e.Solver.Time
		hn := r.cfg.Pkg + "." + r.cfg.Fn
		complete := e.LeftQueue == 0 && sum(e.Unsup) == 0 && e.Limit == 0 && e.Unknown == 0
		if !complete {
			exhaustive = false
		}
		as := map[string]interface{}{}
		for id, s := range e.Asserts {
			as[id] = map[string]int{"discharged": s.Discharged, "of_which_syntactic": s.Trivial, "violated": s.Violated, "unknown": s.Unknown}
		}
		hs = append(hs, map[string]interface{}{"harness": hn, "bound": r.cfg.Bound, "params": e.params, "paths": e.Paths, "paths_completed": e.Done, "pruned_by_assumption": e.Assumed,
			"complete_within_bound": complete, "reduced_bound": map[string]interface{}{"unexplored_branches": e.LeftQueue, "why": e.stopWhy, "unsupported": e.Unsup, "limits": e.LimitMsg, "solver_unknown": e.Unknown},
			"assertions": as, "witnesses": e.Reached, "queries": e.Solver.Queries, "solver_s": e.Solver.Time.Seconds(), "wall_s": e.Wall.Seconds(), "native_traces_agreeing": r.nat, "native_disagreements": r.natBad})
		for i, s := range e.Samples {
			if i >= 2 {
				break
			}
			samples = append(samples, map[string]interface{}{"harness": hn, "inputs": s.Model.v, "decisions": len(s.Trail), "observed": s.Obs})
		}
		for f, vis := range e.Funcs {
			k := f.String()
			if !strings.Contains(k, modPath) || strings.Contains(k, "/zzverif/") || strings.HasSuffix(k, ".init") {
				continue
			}
			u := visited[k]
			if u == nil {
				u = make([]bool, len(vis))
				visited[k] = u
				visfn[k] = f
			}
			for i, v := range vis {
				u[i] = u[i] || v
			}
		}
	}
	for k, vis := range visited {
		n := 0
		seen := map[int]bool{}
		var miss []int
		for i, v := range vis {
			if v {
				n++
				continue
			}
			if i < len(visfn[k].Blocks) {
				for _, in := range visfn[k].Blocks[i].Instrs {
					if in.Pos().IsValid() {
						l := visfn[k].Prog.Fset.Position(in.Pos()).Line
						if !seen[l] {
							seen[l] = true
							miss = append(miss, l)
						}
						break
					}
				}
			}
		}
		sort.Ints(miss)
		o := map[string]interface{}{"function": strings.ReplaceAll(k, modPath, "."), "blocks": len(vis), "blocks_executed": n}
		if len(miss) > 0 {
			o["lines_of_blocks_not_executed"] = miss
		}
		fnset[k] = o
	}
	var fns []interface{}
	var names []string
	for k := range fnset {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		fns = append(fns, fnset[k])
	}
	cov["states"] = states
	cov["transitions"] = trans
	cov["traces_validated_against_impl"] = nat
	cov["samples"] = samples
	cov["exhaustive"] = exhaustive
	cov["what_the_counts_mean"] = "states: symbolic branch decisions taken; transitions: SSA instructions executed symbolically; traces_validated_against_impl: explored paths whose solver model was run on the natively compiled code with identical observations"
	cov["queries"] = map[string]interface{}{"solver": q, "sat": sa, "unsat": un, "unknown": uk, "cache_hits": ch, "solver_s": st.Seconds()}
	cov["harnesses"] = hs
	cov["functions_encoded"] = fns
	cov["outside_the_bound"] = pc.Outside
	cov["known_findings_hit"] = known
	cov["notes"] = notes
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": pc.Assumptions, "wall_s": wall.Seconds(), "violations": viol}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	j, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), j, 0o644)
}
