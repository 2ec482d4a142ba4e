package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A failed obligation is replayed by driving the real functions with random
// worlds (harness/replay) until a run contradicts a contract of the property.

type replayTarget struct {
	Root    string
	Params  []string
	Results []string
	Panics  bool // a panic is a violation
}

type replayConfig struct {
	Prop      string
	Contracts string
	Targets   []replayTarget
	Consts    []string
	Novel     []string
	NovelInts []int64
	Exclude   []string
	Leaks     bool
	Races     bool
}

const replayPkg = "zz_verif_replay"

type replayer struct {
	dir, bin, cfg string
	races         bool // several requests at once, under the race detector
}

// target describes a function the harness can call, and the Go expression naming it.
func (p *Program) target(root string, isFunc bool) (replayTarget, string, string, bool) {
	var f *ssa.Function
	if isFunc {
		f = p.findFunc(root)
	} else if rp := p.pkgs[rootsPkg]; rp != nil {
		f = rp.Func(root)
	}
	if f == nil || f.Pkg == nil {
		return replayTarget{}, "", "", false
	}
	t := replayTarget{Root: root}
	for _, q := range f.Params {
		t.Params = append(t.Params, q.Name())
	}
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		t.Results = append(t.Results, rs.At(i).Name())
	}
	if !isFunc {
		return t, "roots." + root, f.Pkg.Pkg.Path(), true
	}
	parts := strings.Split(root, ".")
	for _, n := range parts[1:] {
		if n == "" || n[0] < 'A' || n[0] > 'Z' {
			return t, "", "", false
		}
	}
	expr := f.Pkg.Pkg.Name() + "." + strings.Join(parts[1:], ".")
	if recv := f.Signature.Recv(); recv != nil {
		if _, ok := recv.Type().(*types.Pointer); ok {
			expr = "(*" + f.Pkg.Pkg.Name() + "." + parts[1] + ")." + parts[2]
		}
	}
	return t, expr, f.Pkg.Pkg.Path(), true
}

// constants are the string and integer literals of the repository's own code.
func (p *Program) constants() (strs []string, ints []int64) {
	m, n := map[string]bool{}, map[int64]bool{}
	for _, f := range p.allFuncs() {
		if !isRepoFunc(f) || f.Pkg == nil || strings.HasSuffix(f.Pkg.Pkg.Path(), rootsPkg) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					c, ok := (*op).(*ssa.Const)
					if !ok || c.Value == nil {
						continue
					}
					switch c.Value.Kind() {
					case constant.String:
						if s := constant.StringVal(c.Value); len(s) < 80 && !strings.Contains(s, "<") {
							m[s] = true
						}
					case constant.Int:
						if v, ok := constant.Int64Val(c.Value); ok {
							n[v] = true
						}
					}
				}
			}
		}
	}
	for s := range m {
		strs = append(strs, s)
	}
	for v := range n {
		ints = append(ints, v)
	}
	sort.Strings(strs)
	sort.Slice(ints, func(i, j int) bool { return ints[i] < ints[j] })
	return
}

// novel are the literals that knownConsts does not list: the inputs most worth trying first.
func novel(strs []string, ints []int64) (ns []string, ni []int64) {
	b, err := os.ReadFile(filepath.Join(*flagVerif, "harness", "known-consts.txt"))
	if err != nil {
		return
	}
	known := map[string]bool{}
	for _, l := range strings.Split(string(b), "\n") {
		known[l] = true
	}
	for _, s := range strs {
		if !known[strconv.Quote(s)] {
			ns = append(ns, s)
		}
	}
	for _, v := range ints {
		if !known[strconv.FormatInt(v, 10)] {
			ni = append(ni, v)
		}
	}
	return
}

// cmdConsts prints the literals of the repository (harness/known-consts.txt).
func cmdConsts() error {
	P, _, clean, err := setup()
	defer clean()
	if err != nil {
		return err
	}
	strs, ints := P.constants()
	for _, v := range ints {
		fmt.Println(v)
	}
	for _, s := range strs {
		fmt.Println(strconv.Quote(s))
	}
	return nil
}

// newReplayer builds the harness against the current tree.
func newReplayer(c *checkRun, exclude []string) (*replayer, error) {
	dir, err := os.MkdirTemp("", "replay")
	if err != nil {
		return nil, err
	}
	r := &replayer{dir: dir, bin: filepath.Join(dir, "replay"), cfg: filepath.Join(dir, "cfg.json"), races: c.prop == "C26"}
	if err := r.build(c, exclude); err != nil {
		os.RemoveAll(dir)
		return nil, err
	}
	return r, nil
}

func (r *replayer) build(c *checkRun, exclude []string) error {
	strs, ints := c.P.constants()
	cfg := replayConfig{Prop: c.prop, Contracts: filepath.Join(*flagVerif, "contracts"), Consts: strs, Exclude: exclude,
		Leaks: c.prop == "C27", Races: r.races}
	cfg.Novel, cfg.NovelInts = novel(strs, ints)
	imps := map[string]bool{}
	tab := map[string]string{}
	add := func(root string, isFunc bool, params []string) {
		t, expr, imp, ok := c.P.target(root, isFunc)
		if isFunc && len(params) > 0 {
			t.Params = params
		}
		if !ok || tab[root] != "" {
			return
		}
		tab[root] = expr
		t.Panics = c.propKinds(root, isFunc)["panic"]
		imps[imp] = true
		cfg.Targets = append(cfg.Targets, t)
	}
	for _, k := range c.set.ForProp(c.prop) {
		add(k.Root, k.IsFunc, k.Params)
	}
	var src bytes.Buffer
	src.WriteString("package main\n\nimport (\n")
	for _, i := range sortedKeys(imps) {
		fmt.Fprintf(&src, "%q\n", i)
	}
	src.WriteString(")\n\nvar table = map[string]any{\n")
	for _, k := range sortedKeys(tab) {
		fmt.Fprintf(&src, "%q: %s,\n", k, tab[k])
	}
	src.WriteString("}\n")
	tf := filepath.Join(r.dir, "table.go")
	if err := os.WriteFile(tf, src.Bytes(), 0o644); err != nil {
		return err
	}
	b, err := json.Marshal(cfg)
	if err != nil {
		return err
	}
	if err := os.WriteFile(r.cfg, b, 0o644); err != nil {
		return err
	}
	over := map[string]string{
		filepath.Join(*flagRepo, rootsPkg, "roots.go"):  filepath.Join(*flagVerif, "harness/roots/roots.go"),
		filepath.Join(*flagRepo, replayPkg, "table.go"): tf,
	}
	fs, _ := filepath.Glob(filepath.Join(*flagVerif, "harness/replay/*.go"))
	for _, f := range fs {
		over[filepath.Join(*flagRepo, replayPkg, filepath.Base(f))] = f
	}
	ob, _ := json.Marshal(map[string]any{"Replace": over})
	of := filepath.Join(r.dir, "overlay.json")
	if err := os.WriteFile(of, ob, 0o644); err != nil {
		return err
	}
	mf, err := prepareModfile(*flagRepo, *flagVerif, r.dir)
	if err != nil {
		return err
	}
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Minute)
	defer cancel()
	args := []string{"build", "-modfile=" + mf, "-overlay=" + of, "-o", r.bin}
	if r.races {
		args = append(args, "-race")
	}
	cmd := exec.CommandContext(ctx, "go", append(args, "./"+replayPkg)...)
	cmd.Dir, cmd.Env = *flagRepo, toolEnv()
	if r.races {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("replay harness: %v: %s", err, clipS(string(out), 2000))
	}
	return nil
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (r *replayer) close() { os.RemoveAll(r.dir) }

// search runs the harness with several seeds; it returns the first violation
// found, or nil, and the number of runs made.
func (r *replayer) search(seed int64, secs float64, stats bool) ([]byte, int, []string) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration((secs+30)*float64(time.Second)))
	defer cancel()
	n := runtime.NumCPU() - 2
	if n < 1 {
		n = 1
	}
	var mu sync.Mutex
	var found []byte
	var extra []string
	total := 0
	stat := map[string][2]int{}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			run := func(sd int64, secs float64) {
				args := []string{"-cfg", r.cfg, "-seed", fmt.Sprint(sd), "-secs", fmt.Sprint(secs)}
				if stats {
					args = append(args, "-stats")
				}
				cmd := exec.CommandContext(ctx, r.bin, args...)
				cmd.Env = append(os.Environ(), "GOMEMLIMIT=1GiB", "TMPDIR="+r.dir, "GORACE=halt_on_error=1 exitcode=66")
				cmd.Dir = r.dir
				var eb bytes.Buffer
				cmd.Stderr = &eb
				out, err := cmd.Output()
				mu.Lock()
				defer mu.Unlock()
				if ee, ok := err.(*exec.ExitError); ok {
					f := out
					if r.races {
						f = raceFound(ee.ExitCode(), out, eb.String())
					}
					if (ee.ExitCode() == 1 || r.races) && f != nil && json.Valid(f) {
						if found == nil {
							found = f
						}
						cancel()
						return
					}
				}
				if err != nil && found == nil {
					extra = append(extra, fmt.Sprintf("seed %d: %v %s", sd, err, clipS(eb.String(), 600)))
				} else if stats && i == 0 && eb.Len() > 0 {
					extra = append(extra, clipS(eb.String(), 3000))
				}
				for _, l := range strings.Split(strings.TrimSpace(string(out)), "\n") {
					var k int
					if _, err := fmt.Sscanf(l, "runs %d", &k); err == nil {
						total += k
						continue
					}
					var name string
					var y, no, u int
					if _, err := fmt.Sscanf(l, "%s true %d false %d undecided %d", &name, &y, &no, &u); err == nil {
						t := stat[name]
						stat[name] = [2]int{t[0] + y, t[1] + u}
					}
				}
			}
			if !r.races {
				run(seed+int64(i), secs)
				return
			}
			// what a process keeps for good is made by its first requests: many short runs
			end := time.Now().Add(time.Duration(secs * float64(time.Second)))
			for k := int64(0); ctx.Err() == nil; k++ {
				left := time.Until(end).Seconds()
				if left < 1 {
					return
				}
				run(seed+int64(i)+k*1009, min(left, 5))
			}
		}(i)
	}
	wg.Wait()
	for _, k := range sortedKeys(stat) {
		extra = append(extra, fmt.Sprintf("%-44s decided %8d undecided %8d", k, stat[k][0], stat[k][1]))
	}
	return found, total, extra
}

var raceFrame = regexp.MustCompile(`(?m)^\s+(\S+)\(`)

// raceFound describes what a run of the race harness reported.
func raceFound(code int, out []byte, stderr string) []byte {
	if i := bytes.Index(out, []byte("\n{")); i >= 0 && code == 1 {
		return bytes.TrimSpace(out[i+1:])
	}
	if code != 66 || !strings.Contains(stderr, "DATA RACE") {
		return nil
	}
	// one of the two accesses comes from the repository's own code
	own := false
	for _, b := range strings.Split(stderr, "\n\n") {
		for _, m := range raceFrame.FindAllStringSubmatch(b, -1) {
			if strings.Contains(m[1], replayPkg) || strings.HasPrefix(m[1], "main.") {
				break
			}
			if strings.Contains(m[1], repoPath) {
				own = true
			}
		}
	}
	lines := strings.Split(strings.TrimSpace(string(out)), "\n")
	var root string
	var seed int64
	var it int
	if _, err := fmt.Sscanf(lines[len(lines)-1], "at %s %d %d", &root, &seed, &it); !own || err != nil {
		return nil
	}
	f, _ := json.MarshalIndent(map[string]any{"property": "C26", "root": root, "clause": "race", "seed": seed, "iteration": it,
		"what": "data race between requests served at the same time", "stack": clipS(stderr, 6000)}, "", " ")
	return f
}

// cmdSearch drives the harness alone: gover search PROP SECONDS.
func cmdSearch(prop string, secs float64, seed int64) (int, error) {
	P, set, clean, err := setup()
	defer clean()
	if err != nil {
		return 2, err
	}
	c := &checkRun{prop: prop, P: P, set: set}
	finds, err := loadFindings(filepath.Join(*flagVerif, "known-findings.txt"))
	if err != nil {
		return 2, err
	}
	r, err := newReplayer(c, excluded(prop, finds))
	if err != nil {
		return 2, err
	}
	defer r.close()
	f, n, extra := r.search(seed, secs, *flagV)
	for _, e := range extra {
		fmt.Println(e)
	}
	if f != nil {
		fmt.Printf("%s: found\n%s", prop, f)
		return 1, nil
	}
	fmt.Printf("%s: %d runs, nothing found\n", prop, n)
	return 0, nil
}

func excluded(prop string, finds []finding) []string {
	var r []string
	for _, f := range finds {
		if f.prop == prop {
			r = append(r, f.obl)
		}
	}
	return r
}

// cmdReplay runs one recorded violation again against the current tree.
func cmdReplay(path string) (int, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return 2, err
	}
	var d struct {
		Property string
		Found    *struct {
			Root      string
			Seed      int64
			Iteration int
		}
	}
	if err := json.Unmarshal(b, &d); err != nil {
		return 2, err
	}
	if d.Found == nil {
		return 2, fmt.Errorf("%s holds failed obligations only, no failing input", path)
	}
	P, set, clean, err := setup()
	defer clean()
	if err != nil {
		return 2, err
	}
	r, err := newReplayer(&checkRun{prop: d.Property, P: P, set: set}, nil)
	if err != nil {
		return 2, err
	}
	defer r.close()
	tries := 1
	if r.races {
		tries = 10 // which request comes first is up to the scheduler
	}
	for ; tries > 0; tries-- {
		cmd := exec.Command(r.bin, "-cfg", r.cfg, "-seed", fmt.Sprint(d.Found.Seed), "-iter", fmt.Sprint(d.Found.Iteration), "-root", d.Found.Root)
		cmd.Env = append(os.Environ(), "TMPDIR="+r.dir, "GORACE=halt_on_error=1 exitcode=66")
		cmd.Stdout, cmd.Stderr, cmd.Dir = os.Stdout, os.Stderr, r.dir
		err := cmd.Run()
		if err == nil {
			continue
		}
		if ee, ok := err.(*exec.ExitError); ok {
			if r.races && ee.ExitCode() == 66 {
				return 1, nil
			}
			return ee.ExitCode(), nil
		}
		return 2, err
	}
	return 0, nil
}
