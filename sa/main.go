package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	rtdebug "runtime/debug"
	"runtime/pprof"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Property is one check: probe programs over the repository's own API, and
// structural rules over its SSA form.
type Property struct {
	id     string
	pkg    string                     // directory of the probe file ("" = the root package)
	probes func() []Probe             // client code that is analysed together with the repository
	rules  func(c *Checker)           // rules on the program itself
	setup  func(c *Checker, ex *Exec) // contracts and models of this property
	note   string
	// also with elements that may be nil
	nilable bool
}

// Probe is a function of a virtual file of the package; all its parameters
// are unknown.
type Probe struct {
	name string
	src  string
	// declarations the probe needs besides the prelude
	decls string
	// follow: the inputs are partitioned by size, loops are followed
	follow int
	steps0 bool // the loops of the specification's functions are followed
	once   bool // no extra sizes
	sizes  int  // the largest size of the input slices when partitioned
}

// allProbes are the probes, with their variants.
func (p *Property) allProbes() []Probe {
	ps := p.probes()
	if p.nilable {
		ps = withNilElements(ps)
	}
	return ps
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.id] = p }

// Checker is the state of one check.
type Checker struct {
	prop     *Property
	p        *Program
	failures []Failure
	visited  map[string]bool
	oblig    int
	ok       int
	loops    int
	probes   int
	steps    int
	rulesN   map[string]int
	samples  []string
	notes    map[string]bool
	later    []func() // after all probes
}

// more tells whether there is time and memory for what is only done if there is.
func more() bool {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc < 2<<30 && time.Since(started) < 150*time.Second
}

func (c *Checker) fail(probe, where, msg, detail string) {
	c.failures = append(c.failures, Failure{probe, msg, where, detail})
}

// rule counts one decided instance of a structural rule.
func (c *Checker) rule(name string, ok bool, where, msg string) {
	c.rulesN[name]++
	c.oblig++
	if ok {
		c.ok++
		return
	}
	c.fail(name, where, msg, "")
}

var prelude = `
type saInt int64
func saAssume[B ~bool](b B) { panic("intrinsic") }
func saAssert[B ~bool](b B, msg string) { panic("intrinsic") }
func saPanics(f func()) bool
func saMod(a, b saInt, w int) bool
func saNote(x any)
`

func overlayFor(p *Property, probes []Probe) (map[string]string, string) {
	dir := p.pkg
	pkg := "gost"
	if dir == "gokio" {
		pkg = "gokio"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n", pkg)
	seen := map[string]bool{}
	var body strings.Builder
	body.WriteString(prelude + prelude2)
	for _, pr := range probes {
		for _, d := range strings.Split(pr.decls, "//--") {
			d = strings.TrimSpace(d)
			if !seen[d] {
				seen[d] = true
				body.WriteString(d + "\n")
			}
		}
	}
	for _, pr := range probes {
		body.WriteString(pr.src + "\n")
	}
	for _, imp := range []string{"os", "errors", "fmt", "math", "strings", "strconv", "bufio", "sort", "reflect", "sync", "unicode/utf16", "io", "time"} {
		base := imp[strings.LastIndex(imp, "/")+1:]
		if strings.Contains(body.String(), base+".") {
			fmt.Fprintf(&b, "import %q\n", imp)
		}
	}
	if pkg == "gokio" {
		fmt.Fprintf(&b, "import %q\n", "github.com/myyrakle/gost")
	}
	if pkg == "gokio" {
		b.WriteString("type String = gost.String\n")
	}
	b.WriteString(body.String())
	name := filepath.Join(dir, "zz_sa_probe.go")
	return map[string]string{name: b.String()}, name
}

func (c *Checker) runProbe(pr Probe) {
	pkg := c.p.gost
	if c.prop.pkg == "gokio" {
		pkg = c.p.gokio
	}
	fn := pkg.Func(pr.name)
	if fn == nil {
		c.fail(pr.name, "", "the probe does not exist", "")
		return
	}
	c.probes++
	var ex *Exec
	if os.Getenv("SA_FORCE") != "" && pr.follow == 0 {
		ex = c.tryProbe(pr, fn, fallbackBound+deeper, true)
	} else {
		ex = c.tryProbe(pr, fn, pr.follow, false)
	}
	if len(ex.failures) > 0 && pr.follow == 0 {
		unsure := ex.inexact
		for _, f := range ex.failures {
			unsure = unsure || strings.HasPrefix(f.msg, "undecided") || strings.HasPrefix(f.msg, "the probe decided")
		}
		for d := range ex.details {
			// little is known of a quantity that is only given by a recurrence
			unsure = unsure || strings.Contains(d, "rec(")
		}
		if unsure {
			// the general argument fails: partition by the number of iterations
			ex2 := c.tryProbe(pr, fn, fallbackBound+deeper, true)
			bad := false
			for _, f := range ex2.failures {
				bad = bad || strings.HasPrefix(f.msg, "violated") || strings.HasPrefix(f.msg, "panics")
			}
			for _, k := range ex.cuts() {
				if bad {
					break
				}
				// the sizes around the constants that the argument depends on
				ex3 := c.tryProbeAt(pr, fn, int(k)+4, true, []int{0, 1, int(k) - 1, int(k), int(k) + 1}, 20*time.Second)
				for _, f := range ex3.failures {
					bad = bad || strings.HasPrefix(f.msg, "violated") || strings.HasPrefix(f.msg, "panics")
				}
				if bad {
					ex2 = ex3
				}
			}
			if bad || len(ex2.failures) == 0 {
				ex2.cut = true
				c.notes[fmt.Sprintf("%s: decided up to %d iterations per loop only (%s)", pr.name, fallbackBound+deeper, ex.failures[0].msg)] = true
				ex = ex2
			}
		}
	}
	if len(ex.failures) == 0 && !pr.once {
		c.later = append(c.later, func() {
			if bad := c.larger(pr, fn, ex); bad != nil {
				c.failures = append(c.failures, bad.failures...)
			}
		})
	}
	c.failures = append(c.failures, ex.failures...)
	c.oblig += ex.oblig
	c.ok += ex.obligOK
	c.loops += ex.loopsN
	c.steps += ex.steps
}

const fallbackBound = 4

// part is the largest size that the slices among the inputs have in a
// partitioned analysis.
func (pr Probe) part(cut bool) int {
	if pr.sizes > 0 {
		return pr.sizes + deeper
	}
	if cut {
		return fallbackBound - 1 + deeper
	}
	return 0
}

// partition gives the slices of the arguments every length up to the bound.
func partition(st *State, args []*Term, sizes []int) []*State {
	sts := []*State{st}
	if len(sizes) == 0 {
		return sts
	}
	for _, a := range args {
		for _, s := range slicesIn(a) {
			var next []*State
			for _, st := range sts {
				for _, n := range sizes {
					if s.op == "map" {
						next = append(next, st.symMap(s, n)...)
						continue
					}
					for _, pc := range st.pc.assumeAll(mkEq(s.args[2], intConst(int64(n)))) {
						next = append(next, st.withPC(pc).clone())
					}
				}
			}
			sts = next
		}
	}
	return sts
}

func slicesIn(t *Term) []*Term {
	switch t.op {
	case "slice", "map":
		return []*Term{t}
	case "struct", "tuple":
		var r []*Term
		for _, a := range t.args {
			r = append(r, slicesIn(a)...)
		}
		return r
	}
	return nil
}

func (c *Checker) tryProbe(pr Probe, fn *ssa.Function, follow int, cut bool) *Exec {
	var sizes []int
	if m := pr.part(cut); m > 0 {
		for n := 0; n <= m; n++ {
			sizes = append(sizes, n)
		}
	}
	return c.tryProbeAt(pr, fn, follow, cut, sizes, probeLimit)
}

var lenConst = regexp.MustCompile(` ([-+]) (\d+)\)`)

// cuts are the constants that lengths are compared with where the argument
// failed, as far as they are beyond the sizes that are always looked at.
func (ex *Exec) cuts() []int64 {
	set := map[int64]bool{}
	for d := range ex.details {
		for _, m := range lenConst.FindAllStringSubmatch(d, -1) {
			if k, err := strconv.ParseInt(m[2], 10, 64); err == nil && k >= fallbackBound && k <= 24 {
				set[k] = true
			}
		}
	}
	var r []int64
	for k := range set {
		r = append(r, k)
	}
	slices.Sort(r)
	if len(r) > 4 {
		r = r[:4]
	}
	return r
}

// definite are the failures that are not for want of an argument, or time.
func (ex *Exec) definite() bool {
	late := false
	for _, f := range ex.failures {
		late = late || strings.HasPrefix(f.msg, "undecided")
	}
	for _, f := range ex.failures {
		if late && len(f.detail) > 600 {
			continue
		}
		if strings.HasPrefix(f.msg, "violated") || strings.HasPrefix(f.msg, "panics") {
			return true
		}
	}
	return false
}

// larger looks at a probe that holds for the sizes that are always looked at
// once more: where slices grow both in place and by moving, if a slice that
// has grown is used again; and with larger containers, of the sizes that
// the constants in the analysed code suggest.
func (c *Checker) larger(pr Probe, fn *ssa.Function, ex *Exec) *Exec {
	try := func(forks bool, extra int, follow int, sizes []int) *Exec {
		limit := 12 * time.Second
		if extra > 36 {
			limit = 45 * time.Second
		}
		e := c.tryProbeWith(pr, fn, follow, true, sizes, limit, func(e *Exec) { e.forks, e.extra = forks, extra })
		if os.Getenv("SA_TIME") != "" {
			fmt.Fprintf(os.Stderr, "  larger: forks %v extra %d\n", forks, extra)
		}
		return e
	}
	hi := pr.part(ex.cut)
	done, late := 0, 0
	for _, k := range ex.constants() {
		if !ex.sized && (ex.follow == 0 && !ex.cut || !ex.sliced) {
			break
		}
		k := int(k)
		if k <= max(hi, done) || k > 36 && !ex.sized {
			continue
		}
		if !more() {
			break
		}
		follow := ex.follow
		if follow > 0 {
			follow = max(follow, k+4)
		}
		var sizes []int
		if hi > 0 {
			sizes = []int{0, 1, k}
		}
		e := try(false, k, follow, sizes)
		if e.definite() {
			return e
		}
		if len(e.failures) > 0 {
			if late++; late > 1 {
				break
			}
			continue
		}
		done = k
		c.notes[fmt.Sprintf("%s: also with containers of %d elements", pr.name, k)] = true
	}
	if ex.stale && more() {
		follow, sizes := ex.follow, pr.part(ex.cut)
		if follow == 0 {
			follow, sizes = fallbackBound, fallbackBound-1
		}
		e := try(true, 0, follow, upTo(sizes))
		if e.definite() {
			return e
		}
		if len(e.failures) == 0 {
			c.notes[pr.name+": also with slices that move when they grow"] = true
		}
	}
	return nil
}

func upTo(n int) []int {
	var r []int
	for i := 0; n > 0 && i <= n; i++ {
		r = append(r, i)
	}
	return r
}

// constants are sizes that behaviour may depend on: next to the integer
// constants in the functions of the repository that were interpreted.
func (ex *Exec) constants() []int64 {
	set := map[int64]bool{}
	if n, err := strconv.ParseInt(os.Getenv("SA_LARGE"), 10, 64); err == nil {
		set[n] = true
	}
	for fn := range ex.fns {
		f := fn
		if o := fn.Origin(); o != nil {
			f = o
		}
		for f.Parent() != nil {
			f = f.Parent()
		}
		file := ex.prog.Fset.Position(f.Pos()).Filename
		if file == "" || strings.HasSuffix(file, "zz_sa_probe.go") || (f.Pkg != nil && f.Pkg.Pkg.Path() != ex.pkg.Pkg.Path() && !strings.Contains(f.Pkg.Pkg.Path(), "gost")) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					k, ok := (*op).(*ssa.Const)
					if !ok || k.Value == nil || k.Value.Kind() != constant.Int || !isIntType(k.Type()) {
						continue
					}
					if n, ok := constant.Int64Val(k.Value); ok && n > 36 && n <= 5000 {
						if b := k.Type().Underlying().(*types.Basic).Kind(); b == types.Int32 || b == types.Uint8 {
							// a character
							continue
						}
						set[n] = true
						set[n+1] = true
					} else if ok && n >= 3 && n <= 36 {
						near := []int64{n, n + 1}
						if n <= 16 {
							near = []int64{n - 1, n, n + 1, n + 2, 2*n + 1, 3*n + 2}
						}
						for _, m := range near {
							if m <= 26 || n > 16 {
								set[m] = true
							}
						}
					}
				}
			}
		}
	}
	var r []int64
	for k := range set {
		r = append(r, k)
	}
	slices.Sort(r)
	return r
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (c *Checker) tryProbeAt(pr Probe, fn *ssa.Function, follow int, cut bool, sizes []int, limit time.Duration) *Exec {
	return c.tryProbeWith(pr, fn, follow, cut, sizes, limit, nil)
}

func (c *Checker) tryProbeWith(pr Probe, fn *ssa.Function, follow int, cut bool, sizes []int, limit time.Duration, setup func(*Exec)) *Exec {
	pkg := fn.Pkg
	ex := &Exec{follow: follow, part: follow > 0, cut: cut, mustEnd: true, prog: c.p.prog, pkg: pkg, visited: c.visited, fns: map[*ssa.Function]bool{}, regrown: map[*Term]map[*Term]bool{}, loopInfo: map[*ssa.Function]*loopInfo{}, notes: c.notes,
		replace: map[string]func(ex *Exec, fr *Frame, call *ssa.CallCommon, args []*Term, st *State) ([]branch, bool){}}
	ex.probe = pr.name
	ex.steps0 = pr.steps0
	if setup != nil {
		setup(ex)
	}
	if c.prop.setup != nil {
		c.prop.setup(c, ex)
	}
	t0 := time.Now()
	if left := budget - time.Since(started); left < limit {
		limit = max(left, 5*time.Second)
	}
	ex.deadline = t0.Add(limit)
	timer := time.AfterFunc(limit+limit/8, func() { expired.Store(true) })
	func() {
		defer func() {
			r := recover()
			timer.Stop()
			expired.Store(false)
			if r != nil {
				if u, ok := r.(undecided); ok {
					ex.fail("undecided: "+u.msg, "", "")
					return
				}
				if os.Getenv("SA_PANIC") != "" {
					panic(r)
				}
				ex.fail(fmt.Sprintf("undecided: %v", r), "", "")
			}
		}()
		st := newState()
		var args []*Term
		for _, p := range fn.Params {
			args = append(args, symValue(p.Name(), p.Type()))
		}
		for _, a := range args {
			ex.sliced = ex.sliced || len(slicesIn(a)) > 0
		}
		for _, st := range partition(st, args, sizes) {
			for _, o := range ex.call(fn, args, nil, st, nil) {
				if o.kind == OutPanic {
					ex.oblig++
					ex.fail("panics: "+o.why, "", o.st.pc.String())
				}
			}
		}
	}()
	if ex.oblig == 0 {
		ex.fail("the probe decided nothing", "", "")
	}
	if debug || os.Getenv("SA_TIME") != "" {
		fmt.Fprintf(os.Stderr, "%-40s %6.2fs steps=%d oblig=%d ok=%d fail=%d\n", pr.name, time.Since(t0).Seconds(), ex.steps, ex.oblig, ex.obligOK, len(ex.failures))
	}
	return ex
}

var probeLimit = 120 * time.Second

// all probes of a check together
var started = time.Now()

var budget = func() time.Duration {
	if n, err := strconv.Atoi(os.Getenv("SA_LEFT")); err == nil {
		return time.Duration(n) * time.Second
	}
	return 600 * time.Second
}()

// deeper is how much larger the containers of the partitioned probes are in
// the thorough tier.
var deeper = 0

func (ex *Exec) fail(msg, where, detail string) {
	if expired.Load() && !strings.HasPrefix(msg, "undecided") {
		// what cannot be shown any more need not be wrong
		msg = "undecided: time limit of the probe reached"
	}
	if ex.details == nil {
		ex.details = map[string]bool{}
	}
	ex.details[detail] = true
	for _, f := range ex.failures {
		if f.msg == msg && f.where == where {
			return
		}
	}
	ex.failures = append(ex.failures, Failure{ex.probe, msg, where, detail})
}

func main() {
	rtdebug.SetGCPercent(400)
	prop := flag.String("prop", "", "property")
	only := flag.String("only", "", "run only probes whose name contains this")
	dump := flag.Bool("dump", false, "print the probe file")
	shard := flag.String("shard", "", "i/n")
	out := flag.String("out", "", "shard result file")
	list := flag.Bool("list", false, "list the properties")
	if pf := os.Getenv("SA_PROF"); pf != "" {
		w, _ := os.Create(pf)
		pprof.StartCPUProfile(w)
		go func() { time.Sleep(8 * time.Second); pprof.StopCPUProfile(); w.Close() }()
	}
	flag.IntVar(&deeper, "deeper", 0, "add this much to the sizes of the containers")
	flag.StringVar(&repoDir, "repo", "/repo", "tree to analyse")
	verif := flag.String("verif", "/verif", "the framework's directory")
	flag.Parse()
	if *list {
		var ids []string
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	p := properties[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	start := time.Now()
	var res result
	if *shard != "" || *only != "" || *dump {
		res = runShard(p, *shard, *only, *dump)
		if *out != "" {
			b, _ := json.Marshal(res)
			os.WriteFile(*out, b, 0o644)
			return
		}
	} else {
		res = runAll(p)
	}
	os.Exit(report(p, res, *verif, start, *only == ""))
}

// Failure etc. for the transfer between processes
type result struct {
	Failures []jsonFailure
	Visited  []string
	Oblig    int
	OK       int
	Loops    int
	Probes   int
	Steps    int
	Decides  int
	Solves   int
	Rules    map[string]int
	Samples  []string
	Notes    []string
}

type jsonFailure struct{ Probe, Msg, Where, Detail string }

func runShard(p *Property, shard, only string, dump bool) result {
	var probes []Probe
	if p.probes != nil {
		probes = p.allProbes()
	}
	ov := map[string]string{}
	name := ""
	if len(probes) > 0 {
		ov, name = overlayFor(p, probes)
	}
	if dump {
		fmt.Println(ov[name])
	}
	c := &Checker{prop: p, visited: map[string]bool{}, rulesN: map[string]int{}, notes: map[string]bool{}}
	prog, err := load(ov)
	if err != nil {
		c.fail("load", "", "the repository cannot be loaded: "+err.Error(), "")
		return c.result()
	}
	c.p = prog
	if len(prog.errs) > 0 {
		for i, e := range prog.errs {
			if i < 5 {
				c.fail("load", "", "does not type-check: "+e, "")
			}
		}
		return c.result()
	}
	i, n := 0, 1
	if shard != "" {
		fmt.Sscanf(shard, "%d/%d", &i, &n)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("SA_PANIC") != "" {
					panic(r)
				}
				c.fail("init", "", fmt.Sprintf("undecided: initialisation of the package: %v", r), "")
			}
		}()
		initGlobalsOf(c)
	}()
	for j, pr := range probes {
		if j%n != i {
			continue
		}
		if only != "" && !strings.Contains(pr.name, only) {
			continue
		}
		c.runProbe(pr)
		if len(c.samples) < 3 {
			c.samples = append(c.samples, strings.TrimSpace(pr.src))
		}
	}
	t0 := time.Now()
	for _, f := range c.later {
		if !more() || time.Since(t0) > 60*time.Second {
			break
		}
		f()
	}
	if p.rules != nil && i == 0 {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if os.Getenv("SA_PANIC") != "" {
						panic(r)
					}
					c.fail("rules", "", fmt.Sprintf("undecided: %v", r), "")
				}
			}()
			p.rules(c)
		}()
	}
	return c.result()
}

func (c *Checker) result() result {
	r := result{Oblig: c.oblig, OK: c.ok, Loops: c.loops, Probes: c.probes, Steps: c.steps, Decides: statDecides, Solves: statSolves, Rules: c.rulesN, Samples: c.samples}
	for _, f := range c.failures {
		r.Failures = append(r.Failures, jsonFailure{f.probe, f.msg, f.where, f.detail})
	}
	for v := range c.visited {
		r.Visited = append(r.Visited, v)
	}
	for v := range c.notes {
		r.Notes = append(r.Notes, v)
	}
	return r
}

// initGlobalsOf evaluates the package-level variables.
func initGlobalsOf(c *Checker) {
	initGlobals = map[*Term]*Cell{}
	for _, pkg := range []*ssa.Package{c.p.gost, c.p.gokio} {
		if pkg == nil {
			continue
		}
		fn := pkg.Func("init")
		if fn == nil {
			continue
		}
		ex := &Exec{prog: c.p.prog, pkg: pkg, visited: map[string]bool{}, fns: map[*ssa.Function]bool{}, regrown: map[*Term]map[*Term]bool{}, loopInfo: map[*ssa.Function]*loopInfo{}, notes: map[string]bool{}, deadline: time.Now().Add(20 * time.Second)}
		outs := ex.call(fn, nil, nil, newState(), nil)
		stored := storedGlobals(pkg)
		for _, o := range outs {
			if o.kind != OutReturn {
				continue
			}
			for k, v := range o.st.heap {
				if stored[k.name] {
					continue
				}
				initGlobals[k] = v
			}
		}
	}
}

// storedGlobals are the variables that something other than the initialiser writes.
func storedGlobals(pkg *ssa.Package) map[string]bool {
	r := map[string]bool{}
	for _, m := range pkg.Members {
		fn, ok := m.(*ssa.Function)
		if !ok || fn.Name() == "init" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						r["global:"+g.String()] = true
					}
				}
			}
		}
	}
	return r
}

var initGlobals = map[*Term]*Cell{}
var globalType = map[*Term]types.Type{}
