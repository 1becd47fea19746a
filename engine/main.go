package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/mitch000001/go-hbci"
const zz = modPath + "/zzverif"

var (
	repoDir  = flag.String("repo", "/repo", "tree under test")
	verifDir = flag.String("verif", "", "directory of the framework")
	tierF    = flag.String("tier", "", "quick or thorough")
	workersF = flag.Int("workers", 0, "number of workers")
	budgetF  = flag.Duration("budget", 0, "time budget of the exploration")
	onlyF    = flag.String("only", "", "run only the harness of this name")
	paramF   = flag.String("params", "", "override parameters, e.g. 3,1")
	verboseF = flag.Bool("v", false, "progress on stderr")
	dbgF     = flag.Bool("sites", false, "print fork sites")
	profF    = flag.String("prof", "", "write a CPU profile")
	noevF    = flag.Bool("noevidence", false, "do not write the evidence file")
)

type hinfo struct {
	Name     string
	Quick    [][]int
	Thorough [][]int
	Covers   []string
	Bound    string
	Steps    int64
}

func env() []string {
	e := os.Environ()
	return append(e, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "TZ=UTC", "CGO_ENABLED=0", "GO111MODULE=on")
}

// overlay maps virtual files inside /repo to their real content.
func overlay(prop string, scratch string) (map[string]string, error) {
	m := map[string]string{}
	base := filepath.Join(*repoDir, "zzverif")
	add := func(sub string) error {
		dir := filepath.Join(*verifDir, "harness", sub)
		fs, err := os.ReadDir(dir)
		if err != nil {
			return err
		}
		for _, f := range fs {
			if strings.HasSuffix(f.Name(), ".go") {
				m[filepath.Join(base, sub, f.Name())] = filepath.Join(dir, f.Name())
			}
		}
		return nil
	}
	for _, s := range []string{"nd", "model", "lib", prop} {
		if err := add(s); err != nil {
			return nil, err
		}
	}
	// accessors added to packages of the repository
	in := filepath.Join(*verifDir, "harness", prop, "inpkg")
	filepath.Walk(in, func(path string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(path, ".go") {
			rel, _ := filepath.Rel(in, path)
			m[filepath.Join(*repoDir, filepath.Dir(rel), "zzverif_"+filepath.Base(rel))] = path
		}
		return nil
	})
	main := fmt.Sprintf("package main\n\nimport (\n\t\"%s/nd\"\n\th \"%s/%s\"\n\t_ \"%s/model\"\n)\n\nfunc main() { nd.Main(h.Harnesses) }\n", zz, zz, prop, zz)
	mf := filepath.Join(scratch, "main.go")
	if err := os.WriteFile(mf, []byte(main), 0o644); err != nil {
		return nil, err
	}
	m[filepath.Join(base, "replay", "main.go")] = mf
	// the build must not touch go.mod and go.sum of the tree under test
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(*repoDir, f))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(scratch, f), b, 0o644); err != nil {
			return nil, err
		}
	}
	return m, nil
}

func main() {
	flag.Parse()
	if *verifDir == "" {
		wd, _ := os.Getwd()
		*verifDir = wd
	}
	if flag.NArg() < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsym [flags] check <ID> | replay <file>")
		os.Exit(2)
	}
	if *profF != "" {
		f, _ := os.Create(*profF)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	switch flag.Arg(0) {
	case "check":
		code := check(flag.Arg(1))
		pprof.StopCPUProfile()
		os.Exit(code)
	case "replay":
		os.Exit(replayCmd(flag.Arg(1)))
	}
	fmt.Fprintln(os.Stderr, "unknown command")
	os.Exit(2)
}

type native struct {
	bin     string
	scratch string
}

func buildNative(prop, scratch string, ov map[string]string) (*native, error) {
	type rep struct{ Replace map[string]string }
	b, _ := json.Marshal(rep{ov})
	of := filepath.Join(scratch, "overlay.json")
	if err := os.WriteFile(of, b, 0o644); err != nil {
		return nil, err
	}
	bin := filepath.Join(scratch, "replay")
	cmd := exec.Command("go", "build", "-overlay", of, "-modfile", filepath.Join(scratch, "go.mod"), "-o", bin, "./zzverif/replay")
	cmd.Dir = *repoDir
	cmd.Env = env()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("%v\n%s", err, out)
	}
	return &native{bin, scratch}, nil
}

func (n *native) list() ([]hinfo, error) {
	out, err := exec.Command(n.bin, "-list").Output()
	if err != nil {
		return nil, err
	}
	var l []hinfo
	return l, json.Unmarshal(out, &l)
}

type result struct {
	Outcome string   `json:"outcome"`
	Obs     []string `json:"obs"`
	Unused  int      `json:"unused"`
}

// run executes the samples natively; one result per sample (crashes are isolated).
func (n *native) run(ss []Sample) []result {
	var res []result
	for len(res) < len(ss) {
		rest := ss[len(res):]
		in, _ := json.Marshal(rest)
		cmd := exec.Command("bash", "-c", "ulimit -v 12000000; exec timeout 120 "+n.bin)
		cmd.Stdin = bytes.NewReader(in)
		cmd.Env = append(env(), "GOTRACEBACK=none")
		cmd.Dir = n.scratch
		var o, e bytes.Buffer
		cmd.Stdout, cmd.Stderr = &o, &e
		err := cmd.Run()
		dec := json.NewDecoder(&o)
		k := 0
		for {
			var r result
			if dec.Decode(&r) != nil {
				break
			}
			res = append(res, r)
			k++
		}
		if len(res) < len(ss) && (err != nil || k == 0) {
			if k > 0 && res[len(res)-1].Outcome == "hang" {
				continue
			}
			msg := strings.TrimSpace(e.String())
			if i := strings.IndexByte(msg, '\n'); i > 0 {
				msg = msg[:i]
			}
			res = append(res, result{Outcome: "crash: " + msg})
		}
	}
	return res
}

func loadProgram(prop string, ov map[string]string, scratch string) (*Program, *ssa.Package, error) {
	files := map[string][]byte{}
	for v, r := range ov {
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, nil, err
		}
		files[v] = b
	}
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax, Dir: *repoDir, Overlay: files, Env: env(),
		BuildFlags: []string{"-modfile=" + filepath.Join(scratch, "go.mod"), "-tags=purego"},
	}
	ps, err := packages.Load(cfg, "./zzverif/"+prop, "./zzverif/model", "./zzverif/nd")
	if err != nil {
		return nil, nil, err
	}
	bad := ""
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			bad += e.Error() + "\n"
		}
	})
	if bad != "" {
		return nil, nil, fmt.Errorf("load errors:\n%s", bad)
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	P := NewProgram(prog)
	P.repo = modPath
	prog.Build()
	for _, p := range prog.AllPackages() {
		switch p.Pkg.Path() {
		case "runtime":
			if t := p.Type("errorString"); t != nil {
				P.runtimeErr = P.Canon(t.Type())
			}
		case "reflect":
			if t := p.Type("rtype"); t != nil {
				P.rtypePtr = P.Canon(types.NewPointer(t.Type()))
			}
		case modPath + "/zzverif/model":
			for from, to := range map[string]string{
				"fmt.Sprintf": "Sprintf", "fmt.Sprint": "Sprint", "fmt.Sprintln": "Sprintln", "fmt.Errorf": "Errorf",
				"fmt.Fprintf": "Fprintf", "fmt.Fprint": "Fprint", "fmt.Fprintln": "Fprintln",
				"fmt.Printf": "Printf", "fmt.Print": "Print", "fmt.Println": "Println",
				"strconv.ParseFloat": "ParseFloat", "(*strings.Replacer).Replace": "Replace", "(*strings.Replacer).WriteString": "WriteString",
				"(golang.org/x/text/encoding/charmap.charmapDecoder).Transform": "CharmapDecode", "(golang.org/x/text/encoding/charmap.charmapEncoder).Transform": "CharmapEncode",
				"strings.Join": "Join", "math.Max": "Max", "math.Min": "Min",
				"sort.Slice": "Slice", "sort.SliceStable": "Slice",
				"(time.Time).Year": "TimeYear", "(time.Time).Month": "TimeMonth", "(time.Time).Day": "TimeDay",
				"encoding/json.Marshal": "JSONMarshal",
				"(*log.Logger).Printf":  "LogPrintf", "(*log.Logger).Println": "LogPrintln", "(*log.Logger).Print": "LogPrintln",
				"log.Printf": "Printlogf", "log.Println": "Printlogln", "log.Print": "Printlogln",
				"(*encoding/base64.Encoding).EncodeToString": "Base64EncodeToString", "(*encoding/base64.Encoding).DecodeString": "Base64DecodeString", "(*encoding/base64.Encoding).EncodedLen": "Base64EncodedLen", "(*encoding/base64.Encoding).DecodedLen": "Base64DecodedLen", "(*encoding/base64.Encoding).Encode": "Base64Encode", "(*encoding/base64.Encoding).Decode": "Base64Decode", "(*encoding/base64.Encoding).AppendEncode": "Base64AppendEncode", "(*encoding/base64.Encoding).AppendDecode": "Base64AppendDecode",
				"encoding/base64.NewEncoder": "Base64Encoder", "encoding/base64.NewDecoder": "Base64Decoder",
				"hash/crc32.NewIEEE": "NewIEEE", "hash/crc32.ChecksumIEEE": "ChecksumIEEE",
			} {
				P.models[from] = p.Func(to)
			}
		}
	}
	if P.rtypePtr == nil {
		P.rtypePtr = types.Typ[types.Invalid]
	}
	hp := prog.ImportedPackage(zz + "/" + prop)
	if hp == nil {
		return nil, nil, fmt.Errorf("harness package not found")
	}
	return P, hp, nil
}

func check(id string) int {
	t0 := time.Now()
	tier := *tierF
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	prop := strings.ToLower(id)
	scratch, err := os.MkdirTemp("", "vsym-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	ev := &evidence{Property: id, Tier: tier, Seed: seed, Level: "model_checking", scratch: scratch}
	ov, err := overlay(prop, scratch)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	nat, err := buildNative(prop, scratch, ov)
	if err != nil {
		// the harness does not compile against this tree: nothing can be decided
		fmt.Fprintf(os.Stderr, "REDUCED property=%s: the harness does not build against this tree: %v\n", id, err)
		ev.note("the harness does not build against this tree; nothing was decided: " + err.Error())
		ev.write(t0)
		return 0
	}
	hs, err := nat.list()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	P, hp, err := loadProgram(prop, ov, scratch)
	if err != nil {
		fmt.Fprintf(os.Stderr, "REDUCED property=%s: %v\n", id, err)
		ev.note("the tree could not be loaded for encoding: " + err.Error())
		ev.write(t0)
		return 0
	}
	loadT := time.Since(t0)
	var tasks []*Task
	want := map[string][]string{}
	for _, h := range hs {
		if *onlyF != "" && h.Name != *onlyF {
			continue
		}
		f := hp.Func(h.Name)
		if f == nil {
			fmt.Fprintf(os.Stderr, "harness %s not found\n", h.Name)
			return 2
		}
		ps := h.Quick
		if tier == "thorough" {
			ps = append(append([][]int(nil), h.Quick...), h.Thorough...)
		}
		if *paramF != "" {
			var p []int
			for _, s := range strings.Split(*paramF, ",") {
				n, _ := strconv.Atoi(s)
				p = append(p, n)
			}
			ps = [][]int{p}
		}
		st := h.Steps
		if st == 0 {
			st = 3000000
		}
		for _, p := range ps {
			tasks = append(tasks, &Task{Prop: id, Harness: h.Name, Func: f, Params: p, Step: st, Incomplete: map[string]int64{}, Covers: map[string]int64{}, Asserts: map[string]int64{}})
		}
		want[h.Name] = h.Covers
		ev.Bounds = append(ev.Bounds, fmt.Sprintf("%s%v: %s", h.Name, ps, h.Bound))
	}
	nw := *workersF
	if nw == 0 {
		nw = min(8, runtime.NumCPU())
	}
	budget := *budgetF
	if budget == 0 {
		budget = 400 * time.Second
		if tier == "thorough" {
			budget = 3 * time.Hour
		}
	}
	x := &Explorer{auditN: 400, P: P, nw: nw, z3ms: 20000, deadline: time.Now().Add(budget), maxViol: 3, sampleN: 24, verbose: *verboseF, asserts: map[string]int64{}, unkAsrt: map[string]int64{}, nowSec: time.Now().Unix(), funcs: map[*cfunc]int64{}, dbg: *dbgF}
	if tier == "thorough" {
		x.z3ms = 120000
		x.auditN = 20000
	}
	if n := len(tasks); n > 0 {
		x.sampleN = max(4, min(24, 400/n))
	}
	known := loadKnown()
	x.settle = 20 * time.Second
	x.confirm = func(t *Task, s Sample) bool {
		r := nat.run([]Sample{s})
		return len(r) == 1 && violates(r[0].Outcome) && known.match(id, t, r[0].Outcome, s.Inputs) == ""
	}
	tx := time.Now()
	x.Run(tasks)
	ev.exploreT = time.Since(tx)

	// native confirmation of candidates
	exit := 0
	var reported int
	for _, t := range tasks {
		var ss []Sample
		for _, c := range t.Viol {
			ss = append(ss, Sample{Harness: t.Harness, Params: t.Params, Inputs: c.Inputs})
		}
		if len(ss) == 0 {
			continue
		}
		rs := nat.run(ss)
		seen := map[string]bool{}
		for i, c := range t.Viol {
			o := rs[i].Outcome
			if !violates(o) {
				if c.Kind == "violation" {
					ev.Unreproduced = append(ev.Unreproduced, fmt.Sprintf("%s: %s [%s] at %s: native outcome %q", t.Name(), c.What, c.Desc, c.Where, o))
					fmt.Fprintf(os.Stderr, "UNREPRODUCED %s: %s [%s]\n  at %s\n  native: %s\n", t.Name(), c.What, c.Desc, c.Where, o)
				}
				continue
			}
			if seen[c.What] {
				continue
			}
			seen[c.What] = true
			if k := known.match(id, t, o, c.Inputs); k != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
				ev.Known = append(ev.Known, k)
				continue
			}
			if reported >= 8 {
				ev.Viol++
				continue
			}
			reported++
			path := writeReplay(id, reported, t, c.Inputs, o, c.What, c.Where, c.Desc)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			fmt.Printf("  harness %s: %s\n  inputs: %s\n  native outcome: %s\n  at: %s\n", t.Name(), c.What, c.Desc, o, c.Where)
			ev.Viol++
			exit = 1
		}
	}
	// validation of the encoding on sampled paths
	var all []Sample
	for _, t := range tasks {
		all = append(all, t.Samples...)
	}
	if len(all) > 0 {
		rs := nat.run(all)
		for i, s := range all {
			r := rs[i]
			d := ""
			switch {
			case violates(r.Outcome):
				// the real code violates the property on this input although the encoding did not: a
				// confirmed violation all the same
				d = "native outcome " + r.Outcome
				if k := known.match(id, &Task{Harness: s.Harness, Params: s.Params}, r.Outcome, s.Inputs); k != "" {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
				} else if reported < 5 {
					reported++
					path := writeReplay(id, reported, &Task{Harness: s.Harness, Params: s.Params}, s.Inputs, r.Outcome, "found while validating the encoding", "", s.desc)
					fmt.Printf("VIOLATION property=%s replay=%s\n  harness %s%v inputs %s native outcome: %s (encoding predicted none)\n", id, path, s.Harness, s.Params, s.desc, r.Outcome)
					ev.Viol++
					exit = 1
				}
			case r.Outcome != "done":
				d = "native outcome " + r.Outcome
			case r.Unused != 0:
				d = "native run consumed fewer inputs"
			case !obsEq(r.Obs, s.Obs):
				d = fmt.Sprintf("observations differ: native %v, encoding %v", r.Obs, s.Obs)
			}
			if d != "" {
				ev.Divergent = append(ev.Divergent, fmt.Sprintf("%s%v [%s]: %s", s.Harness, s.Params, s.desc, d))
				fmt.Fprintf(os.Stderr, "DIVERGENCE %s%v [%s]: %s\n", s.Harness, s.Params, s.desc, d)
			} else {
				ev.Validated++
			}
		}
	}
	// paths the encoding could not follow: their inputs run on the real code, where they can only show violations
	var blind []Sample
	for _, t := range tasks {
		blind = append(blind, t.Blind...)
	}
	if len(blind) > 600 {
		blind = blind[:600]
	}
	if len(blind) > 0 {
		ev.Blind = len(blind)
		for i, r := range nat.run(blind) {
			s := blind[i]
			if !violates(r.Outcome) {
				continue
			}
			if k := known.match(id, &Task{Harness: s.Harness, Params: s.Params}, r.Outcome, s.Inputs); k != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
				continue
			}
			ev.Viol++
			exit = 1
			if reported < 5 {
				reported++
				path := writeReplay(id, reported, &Task{Harness: s.Harness, Params: s.Params}, s.Inputs, r.Outcome, "on a path the encoding could not follow to its end", "", s.desc)
				fmt.Printf("VIOLATION property=%s replay=%s\n  harness %s%v inputs %s native outcome: %s (path not encodable to its end)\n", id, path, s.Harness, s.Params, s.desc, r.Outcome)
			}
		}
	}
	// vacuity
	cov := map[string]map[string]int64{}
	for _, t := range tasks {
		if cov[t.Harness] == nil {
			cov[t.Harness] = map[string]int64{}
		}
		for k, n := range t.Covers {
			cov[t.Harness][k] += n
		}
	}
	for h, ls := range want {
		for _, l := range ls {
			if cov[h][l] == 0 {
				ev.Vacuous = append(ev.Vacuous, h+": "+l)
				fmt.Fprintf(os.Stderr, "VACUOUS harness %s never reaches %q\n", h, l)
			}
		}
	}
	sort.Strings(ev.Vacuous)
	ev.fill(x, tasks, cov, loadT)
	ev.write(t0)
	ev.summary(os.Stdout, t0)
	if *dbgF {
		m := map[string]int64{}
		for _, w := range x.workers {
			for k, v := range w.dbgSites {
				m[k] += v
			}
		}
		for _, s := range topCounts(m, 25) {
			fmt.Fprintln(os.Stderr, s)
		}
	}
	return exit
}

func violates(o string) bool {
	return strings.HasPrefix(o, "assert:") || strings.HasPrefix(o, "panic:") || strings.HasPrefix(o, "crash:") || o == "hang"
}

func obsEq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !strings.HasSuffix(b[i], "=?") {
			return false
		}
	}
	return true
}

type replayFile struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Params   []int    `json:"params"`
	Inputs   []uint64 `json:"inputs"`
	Outcome  string   `json:"outcome"`
	What     string   `json:"what"`
	Where    string   `json:"where"`
	Desc     string   `json:"inputs_readable"`
	Command  string   `json:"command"`
}

func writeReplay(id string, n int, t *Task, in []uint64, outcome, what, where, desc string) string {
	dir := filepath.Join(*verifDir, "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, n))
	b, _ := json.MarshalIndent(replayFile{id, t.Harness, t.Params, in, outcome, what, where, desc, "bin/vsym replay " + p}, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

func replayCmd(p string) int {
	b, err := os.ReadFile(p)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	scratch, _ := os.MkdirTemp("", "vsym-replay-")
	defer os.RemoveAll(scratch)
	prop := strings.ToLower(r.Property)
	ov, err := overlay(prop, scratch)
	if err == nil {
		var n *native
		if n, err = buildNative(prop, scratch, ov); err == nil {
			o := n.run([]Sample{{Harness: r.Harness, Params: r.Params, Inputs: r.Inputs}})
			fmt.Printf("property %s, harness %s%v\ninputs: %s\noutcome on the real code: %s\n", r.Property, r.Harness, r.Params, r.Desc, o[0].Outcome)
			if violates(o[0].Outcome) {
				return 1
			}
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, err)
	return 2
}
