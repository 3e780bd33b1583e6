package main

// Exhaustive enumeration.  A family enumerates its finite space of cases
// deterministically.  The master forks one worker per core, each worker walks
// the whole enumeration and executes the cases of its shard; a worker that
// dies or hangs in the implementation is a violation of the case it was on.

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Kind int

const (
	KRun    Kind = iota // accepted, valid, and prints Want
	KAccept             // accepted and compiled without an internal error
	KReject             // refused with a diagnostic before the compilation
	KTotal              // accepted or refused, never a crash, never an internal error
	KFront              // accepted or refused by the front end, nothing else
	KCustom             // decided by Fn
)

type Case struct {
	Kind  Kind
	Src   string
	Want  string
	Files map[string]string // other modules
	LLVM  bool              // let the installed LLVM verify the module
	Skip  string            // outside of the specified language: not a case
	Line  int               // rejected: a line some diagnostic has to name
	Fn    func() Outcome
}

type Outcome struct {
	Bad    string // what is wrong; empty: the case holds
	States int
	Trans  int
	Traces int
}

type Family struct {
	ID        string
	Technique string
	Note      string
	Rule      string
	Level     string        // model_checking unless set
	Diagnoses bool          // the compiler may end the process after a diagnostic
	Gen       func(x *Enum) `json:"-"`
}

var families = map[string]*Family{}

func register(f *Family) {
	if f.Level == "" {
		f.Level = "model_checking"
	}
	if many := wideRule(f.ID); many != "" {
		f.Rule = strings.TrimRight(f.Rule, ". ") + "; and the same program with 1, 2, 3, ... of something: " + many + "."
	}
	families[f.ID] = f
}

type Enum struct {
	tier    string
	idx     int
	visit   func(idx int, key string, mk func() Case) bool
	stopped bool
}

// Thorough tells whether the deep bounds are wanted.
func (x *Enum) Thorough() bool { return x.tier == "thorough" }

// Pick is q in the quick tier and t in the thorough one.
func (x *Enum) Pick(q, t int) int {
	if x.Thorough() {
		return t
	}
	return q
}

func (x *Enum) Case(key string, mk func() Case) {
	if x.stopped {
		return
	}
	if !x.visit(x.idx, key, mk) {
		x.stopped = true
	}
	x.idx++
}

// Prog is a case whose expected output comes from the reference model.
func (x *Enum) Prog(key string, mk func() *Pg) {
	x.Case(key, func() Case { return progCase(mk()) })
}

func progCase(g *Pg) Case {
	r := g.Run(2_000_000)
	if r.Err != "" {
		return Case{Skip: r.Err, Src: g.Src()}
	}
	return Case{Kind: KRun, Src: g.Src(), Want: r.Out}
}

type message struct {
	T       string
	Idx     int
	Key     string
	Src     string            `json:",omitempty"`
	Files   map[string]string `json:",omitempty"`
	What    string            `json:",omitempty"`
	Cases   int
	Trans   int
	Extra   int
	Traces  int
	Skipped int
	Interp  int
	Hashes  []byte `json:",omitempty"`
	Samples []string
	Last    int
	Stopped bool
}

var replayLimit = 4

func init() {
	if n, err := strconv.Atoi(os.Getenv("VERIF_MAXV")); err == nil {
		replayLimit = n
	}
}

func deadline(tier string) time.Duration {
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			return time.Duration(n) * time.Second
		}
	}
	if tier == "thorough" {
		return 780 * time.Second
	}
	return 240 * time.Second
}

// -------------------------------------------------------------------- worker

type worker struct {
	fam    *Family
	tier   string
	status []byte
	out    *bufio.Writer
	mu     sync.Mutex
	tally  message
	hash   map[uint64]bool
	nrun   int
	viols  int
}

func (w *worker) send(m message) {
	w.mu.Lock()
	defer w.mu.Unlock()
	b, _ := json.Marshal(m)
	w.out.Write(b)
	w.out.WriteByte('\n')
	w.out.Flush()
}

const hangLimit = 60 * time.Second

func workerMain(id, tier string, shard, n, from int, statusFile string, dl time.Duration) {
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(400)
	start := time.Now()
	f := os.NewFile(3, "results")
	sf, err := os.OpenFile(statusFile, os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	st, err := syscall.Mmap(int(sf.Fd()), 0, 16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	w := &worker{fam: families[id], tier: tier, status: st, out: bufio.NewWriter(f), hash: map[uint64]bool{}}
	os.Chdir(scratch())
	defer os.RemoveAll(scratchDir)
	x := &Enum{tier: tier}
	x.visit = func(idx int, key string, mk func() Case) bool {
		if idx%n != shard || idx < from {
			return true
		}
		if time.Since(start) > dl || w.viols >= replayLimit {
			w.tally.Stopped = true
			return false
		}
		binary.LittleEndian.PutUint64(st, uint64(idx)+1)
		binary.LittleEndian.PutUint64(st[8:], uint64(time.Now().UnixNano()))
		w.one(idx, key, mk)
		return true
	}
	w.fam.Gen(x)
	binary.LittleEndian.PutUint64(st, 0)
	w.flush("done")
	os.RemoveAll(scratchDir)
}

func (w *worker) flush(t string) {
	m := w.tally
	m.T = t
	for h := range w.hash {
		m.Hashes = binary.LittleEndian.AppendUint64(m.Hashes, h)
	}
	w.send(m)
	w.tally = message{}
	w.hash = map[uint64]bool{}
}

func (w *worker) one(idx int, key string, mk func() Case) {
	c := mk()
	if c.Skip != "" {
		w.tally.Skipped++
		if os.Getenv("VERIF_SHOWSKIP") != "" {
			if f, err := os.OpenFile(os.Getenv("VERIF_SHOWSKIP"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
				fmt.Fprintln(f, "SKIP", idx, key, c.Skip)
				f.Close()
			}
		}
		return
	}
	h := fnv.New64a()
	h.Write([]byte(key))
	h.Write([]byte(c.Src))
	names := make([]string, 0, len(c.Files))
	for n := range c.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		h.Write([]byte(n + "\x00" + c.Files[n]))
	}
	w.hash[h.Sum64()] = true
	validate := w.nrun < 2 || h.Sum64()%w.stride() == 0
	w.nrun++
	r := evalCase(c, validate)
	if r.bad != "" {
		// Once more, from scratch, before it is believed.
		if r2 := evalCase(mk(), true); r2.bad == "" {
			w.tally.Interp += r2.interp
			r = r2
		} else {
			r = r2
			w.viols++
			w.send(message{T: "viol", Idx: idx, Key: key, Src: c.Src, Files: c.Files, What: r.bad})
		}
	}
	w.tally.Cases++
	w.tally.Trans += r.trans
	w.tally.Extra += r.states
	w.tally.Traces += r.traces
	w.tally.Interp += r.interp
	if w.nrun <= 2 || w.nrun%997 == 0 && len(w.tally.Samples) < 3 {
		s := "[" + key + "] " + c.Src
		if c.Kind == KRun {
			s += "\n-> prints " + strconv.Quote(clip(c.Want, 300))
		}
		w.tally.Samples = append(w.tally.Samples, clip(s, 900))
	}
	if w.nrun%2000 == 0 {
		w.flush("part")
	}
}

func (w *worker) stride() uint64 {
	if w.tier == "thorough" {
		return 24
	}
	return 12
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

type evalResult struct {
	bad    string
	trans  int
	states int
	traces int
	interp int
}

func writeFiles(fs map[string]string) func() {
	for n, s := range fs {
		p := filepath.Join(scratch(), n)
		os.MkdirAll(filepath.Dir(p), 0o755)
		os.WriteFile(p, []byte(s), 0o644)
	}
	return func() {
		for n := range fs {
			os.Remove(filepath.Join(scratch(), n))
		}
	}
}

func evalCase(c Case, validate bool) (r evalResult) {
	defer func() {
		if p := recover(); p != nil {
			if rp, ok := p.(refPanic); ok {
				r.bad = "harness: " + rp.msg
				return
			}
			r.bad = fmt.Sprintf("panic outside of the pipeline: %v %s", p, clip(string(debug.Stack()), 1500))
		}
	}()
	if c.Kind == KCustom {
		o := c.Fn()
		r.bad, r.states, r.trans, r.traces = o.Bad, o.States, o.Trans, o.Traces
		return
	}
	if len(c.Files) > 0 {
		defer writeFiles(c.Files)()
	}
	comp := compileSrc(c.Src, opts{dir: "", noModule: c.Kind == KFront, noText: !(validate || c.LLVM || c.Kind != KRun)})
	r.trans = 1
	switch c.Kind {
	case KReject:
		switch {
		case comp.Stage == StOK:
			r.bad = "the program has to be refused, and it was accepted"
		case comp.Stage == StPanic && (comp.PanicIn == "compile" || comp.PanicIn == "print"):
			r.bad = "the program has to be refused, it was accepted: " + comp.why()
		case comp.Stage == StPanic:
			r.bad = "instead of a diagnostic: " + comp.why()
		}
		if r.bad == "" && c.Line > 0 {
			ok := false
			for _, e := range comp.Errs {
				if strings.Contains(e, fmt.Sprintf("[%d:", c.Line)) || strings.Contains(e, fmt.Sprintf("on %d:", c.Line)) {
					ok = true
				}
			}
			if !ok {
				r.bad = fmt.Sprintf("no diagnostic names line %d: %s", c.Line, comp.why())
			}
		}
		r.traces = 1
		return
	case KTotal, KFront:
		if comp.Stage == StPanic {
			r.bad = comp.why()
		}
		r.traces = 1
		if comp.Stage != StOK || r.bad != "" || c.Kind == KFront {
			return
		}
	default:
		if comp.Stage != StOK {
			r.bad = "the program has to be accepted: " + comp.why()
			return
		}
	}
	if c.LLVM || validate && c.Kind == KAccept || fastVerify(comp.Mod) != "" {
		ok, msg := verifyLLVM(c.textOf(comp))
		r.traces++
		if !ok && !constExprIssue(msg) {
			r.bad = "LLVM refuses the module: " + msg
			return
		}
	}
	if c.Kind != KRun {
		return
	}
	res := RunModule(comp.Mod, 20_000_000)
	r.trans += res.Steps
	got := ""
	switch {
	case res.Unsupported != "":
		r.interp++
	case res.Trap != "":
		got = fmt.Sprintf("%s (%s) after printing %q", res.Trap, res.TrapMsg, clip(res.Output, 600))
	case res.Output != c.Want:
		got = diff(c.Want, res.Output)
	}
	if got == "" && res.Unsupported == "" && !validate {
		return
	}
	if res.Trap != "" && !validate {
		r.bad = got // it is looked at again, with the machine
		return
	}
	text := c.textOf(comp)
	limit := 60 * time.Second
	if res.Trap != "" {
		limit = 5 * time.Second // the answer is known, this one is for the report
	}
	real := realExec(text, limit)
	r.traces++
	if real.err != "" && got == "" && strings.HasPrefix(real.err, "cannot") {
		if res.Unsupported != "" {
			r.bad = "cannot execute: " + res.Unsupported + "; " + real.err + " " + firstLines(real.stderr, 2)
		}
		return
	}
	switch {
	case got != "" && res.Trap != "":
		// Undefined behaviour: whatever the machine made of it.
		r.bad = got + "; on the machine: " + realWhat(real, c.Want)
	case real.err != "":
		r.bad = "on the machine: " + real.err + " " + firstLines(real.stderr, 3) + "; interpreted: " + got
	case real.out != c.Want:
		r.bad = diff(c.Want, real.out)
	case got != "":
		r.interp++ // the machine does what is expected: the interpreter is wrong
	}
	return
}

func realWhat(r realRun, want string) string {
	if r.err != "" {
		return r.err + " " + firstLines(r.stderr, 2)
	}
	if r.out == want {
		return "the expected output"
	}
	return strconv.Quote(clip(r.out, 300))
}

func (c Case) textOf(comp *Compiled) string {
	if comp.Text == "" {
		comp.Text = comp.Mod.String()
	}
	return comp.Text
}

// constExprIssue: LLVM 15 removed constant expressions that older versions
// accept; that is about the installed version and not about the module.
func constExprIssue(msg string) bool {
	return strings.Contains(msg, "constexpr") && strings.Contains(msg, "longer supported")
}

func diff(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	from := strings.LastIndexByte(want[:i], '\n') + 1
	return fmt.Sprintf("expected %q, got %q (byte %d of %d)", clip(want[from:], 160), clip(got[mini(from, len(got)):], 160), i, len(want))
}

// realExec runs the module with the installed LLVM.  An "cannot" error means
// that the installation does not take the module.
func realExec(text string, limit time.Duration) realRun {
	r := runLLI(text, limit)
	if r.err == "" && r.exit == 1 && constExprIssue(r.stderr) {
		// An older compiler still takes it.
		cc := tool("/usr/bin/clang-14", "/usr/bin/clang-15", "/usr/bin/clang-16", "/usr/bin/clang-17", "/opt/vp/bin/clang")
		if cc == "" {
			return realRun{err: "cannot: no older clang", stderr: r.stderr}
		}
		f := filepath.Join(scratch(), "prog.ll")
		b := filepath.Join(scratch(), "prog.bin")
		k := runCmd(60*time.Second, scratch(), cc, "-w", "-x", "ir", f, "-o", b, "-lm")
		if k.err != "" || k.exit != 0 {
			return realRun{err: "cannot: " + k.err, stderr: k.stderr}
		}
		return runCmd(limit, scratch(), b)
	}
	if r.err == "" && r.exit == 1 && strings.Contains(r.stderr, "error:") {
		return realRun{err: "LLVM refuses the module", stderr: r.stderr}
	}
	return r
}

// -------------------------------------------------------------------- master

type violation struct {
	idx   int
	key   string
	what  string
	src   string
	files map[string]string
}

func checkMain(id, tier string) int {
	fam := families[id]
	if fam == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	start := time.Now()
	dl := deadline(tier)
	n := runtime.NumCPU()
	if n > 16 {
		n = 16
	}
	dir := scratch()
	defer os.RemoveAll(dir)
	var mu sync.Mutex
	var viols []violation
	var sum message
	hashes := map[uint64]bool{}
	stopped := false
	var wg sync.WaitGroup
	for s := 0; s < n; s++ {
		wg.Add(1)
		go func(shard int) {
			defer wg.Done()
			from := 0
			for {
				left := dl - time.Since(start)
				if left <= 0 {
					mu.Lock()
					stopped = true
					mu.Unlock()
					return
				}
				status := filepath.Join(dir, fmt.Sprintf("st%d", shard))
				os.WriteFile(status, make([]byte, 16), 0o644)
				errf := filepath.Join(dir, fmt.Sprintf("err%d", shard))
				ef, _ := os.Create(errf)
				pr, pw, _ := os.Pipe()
				self, _ := os.Executable()
				cmd := exec.Command(self, "worker", id, tier, fmt.Sprint(shard), fmt.Sprint(n), fmt.Sprint(from), status, fmt.Sprint(int(left.Seconds())))
				cmd.Env = append(os.Environ(), "TMPDIR="+dir, "GOMAXPROCS=2")
				cmd.ExtraFiles = []*os.File{pw}
				cmd.Stderr = ef
				if err := cmd.Start(); err != nil {
					panic(err)
				}
				pw.Close()
				ef.Close()
				done := false
				// watch for hangs
				stop := make(chan bool)
				hung := false
				go func() {
					t := time.NewTicker(time.Second)
					defer t.Stop()
					for {
						select {
						case <-stop:
							return
						case <-t.C:
							b, _ := os.ReadFile(status)
							if len(b) == 16 && binary.LittleEndian.Uint64(b) != 0 {
								ns := binary.LittleEndian.Uint64(b[8:])
								if time.Since(time.Unix(0, int64(ns))) > hangLimit+120*time.Second || cpuHung(cmd.Process.Pid, ns) {
									hung = true
									cmd.Process.Kill()
									return
								}
							}
						}
					}
				}()
				rd := bufio.NewReaderSize(pr, 1<<20)
				for {
					line, err := rd.ReadBytes('\n')
					if err != nil {
						break
					}
					var m message
					if json.Unmarshal(line, &m) != nil {
						continue
					}
					mu.Lock()
					switch m.T {
					case "viol":
						viols = append(viols, violation{m.Idx, m.Key, m.What, m.Src, m.Files})
					case "part", "done":
						sum.Cases += m.Cases
						sum.Trans += m.Trans
						sum.Extra += m.Extra
						sum.Traces += m.Traces
						sum.Skipped += m.Skipped
						sum.Interp += m.Interp
						sum.Samples = append(sum.Samples, m.Samples...)
						stopped = stopped || m.Stopped
						for i := 0; i+8 <= len(m.Hashes); i += 8 {
							hashes[binary.LittleEndian.Uint64(m.Hashes[i:])] = true
						}
						done = done || m.T == "done"
					}
					mu.Unlock()
				}
				cmd.Wait()
				close(stop)
				pr.Close()
				if done {
					return
				}
				b, _ := os.ReadFile(status)
				at := -1
				if len(b) == 16 {
					at = int(binary.LittleEndian.Uint64(b)) - 1
				}
				tail, _ := os.ReadFile(errf)
				what := "the process died: " + cmd.ProcessState.String() + " " + clip(string(tail), 600)
				if hung {
					what = "no answer after " + hangLimit.String()
				}
				if at < 0 {
					mu.Lock()
					viols = append(viols, violation{idx: -1, key: "harness", what: what})
					mu.Unlock()
					return
				}
				v := violation{idx: at, what: what}
				v.key, v.src, v.files = describe(fam, tier, at)
				// Again, alone, before it is believed.
				if w, ok := confirmDeath(id, tier, at, dir); ok && !(fam.Diagnoses && diagnosed(w)) {
					v.what = w
					mu.Lock()
					viols = append(viols, v)
					enough := len(viols) >= 3*replayLimit
					mu.Unlock()
					if enough {
						return
					}
				}
				from = at + 1
			}
		}(s)
	}
	wg.Wait()
	return report(fam, tier, start, viols, sum, len(hashes), stopped)
}

// cpuHung: the case has used more processor time than any case needs.
func cpuHung(pid int, since uint64) bool {
	return time.Since(time.Unix(0, int64(since))) > hangLimit && procState(pid) == 'R'
}

func procState(pid int) byte {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	i := strings.LastIndexByte(string(b), ')')
	if i < 0 || i+2 >= len(b) {
		return 0
	}
	if b[i+2] == 'S' || b[i+2] == 'R' {
		return 'R'
	}
	return b[i+2]
}

func describe(fam *Family, tier string, at int) (key, src string, files map[string]string) {
	x := &Enum{tier: tier}
	x.visit = func(idx int, k string, mk func() Case) bool {
		if idx == at {
			c := mk()
			key, src, files = k, c.Src, c.Files
			return false
		}
		return true
	}
	fam.Gen(x)
	return
}

// diagnosed: the compiler ended the process after it told what is wrong where.
func diagnosed(out string) bool {
	return strings.Contains(out, " Compiler ") && strings.Contains(out, "on [") && !strings.Contains(out, "goroutine ")
}

// confirmDeath runs one case in a process of its own.
func confirmDeath(id, tier string, at int, dir string) (string, bool) {
	self, _ := os.Executable()
	cmd := exec.Command("timeout", "-s", "KILL", "100", self, "one", id, tier, fmt.Sprint(at))
	cmd.Env = append(os.Environ(), "TMPDIR="+dir)
	out, err := cmd.CombinedOutput()
	if err == nil {
		return "", false
	}
	return "the process died: " + err.Error() + ": " + clip(string(out), 800), true
}

// oneMain executes one case; exit 0 when it holds.
func oneMain(id, tier string, at int) int {
	debug.SetMaxStack(256 << 20)
	os.Chdir(scratch())
	defer os.RemoveAll(scratchDir)
	code := 3
	x := &Enum{tier: tier}
	x.visit = func(idx int, k string, mk func() Case) bool {
		if idx != at {
			return true
		}
		r := evalCase(mk(), true)
		if r.bad == "" {
			code = 0
		} else {
			fmt.Println(r.bad)
			code = 1
		}
		return false
	}
	families[id].Gen(x)
	return code
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type known struct{ prop, key, what string }

func loadKnown() (ks []known) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property=")
		p := strings.SplitN(rest, " ", 2)
		if len(p) != 2 || !strings.HasPrefix(p[1], "key=") {
			continue
		}
		q := strings.SplitN(strings.TrimPrefix(p[1], "key="), " ", 2)
		k := known{prop: p[0], key: q[0]}
		if len(q) > 1 {
			k.what = q[1]
		}
		ks = append(ks, k)
	}
	return
}

func report(fam *Family, tier string, start time.Time, viols []violation, sum message, distinct int, stopped bool) int {
	sort.Slice(viols, func(i, j int) bool { return viols[i].idx < viols[j].idx })
	ks := loadKnown()
	var bad []violation
	knownHit := map[string]bool{}
	for _, v := range viols {
		hit := false
		for _, k := range ks {
			if k.prop == fam.ID && k.key == v.key {
				hit = true
				if !knownHit[k.key] {
					knownHit[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", fam.ID, k.key, k.what)
				}
			}
		}
		if !hit {
			bad = append(bad, v)
		}
	}
	rdir := filepath.Join(verifDir(), "replay")
	os.MkdirAll(rdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(rdir, fam.ID+"-*.json"))
	for _, o := range old {
		os.Remove(o)
	}
	for i, v := range bad {
		if i >= replayLimit {
			break
		}
		p := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", fam.ID, i))
		b, _ := json.MarshalIndent(map[string]any{
			"property": fam.ID, "tier": tier, "index": v.idx, "case": v.key, "what": v.what,
			"source": v.src, "files": v.files,
			"rerun": fmt.Sprintf("bash /verif/check.sh %s %s one %d", fam.ID, tier, v.idx),
		}, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", fam.ID, p)
		fmt.Printf("  case %s: %s\n", v.key, clip(v.what, 700))
	}
	exhaustive := !stopped && len(bad) == 0
	cov := map[string]any{
		"exhaustive":                        exhaustive,
		"samples":                           sum.Samples[:mini(len(sum.Samples), 12)],
		"rule":                              fam.Rule,
		"bounds":                            fam.Note,
		"cases":                             sum.Cases,
		"outside_of_the_specified_language": sum.Skipped,
		"interpreter_gaps":                  sum.Interp,
	}
	if fam.Level == "model_checking" {
		cov["states"] = distinct + sum.Extra
		cov["transitions"] = sum.Trans
		cov["traces_validated_against_impl"] = sum.Traces
	} else {
		cov["evaluations"] = sum.Cases + sum.Extra
		cov["distinct_nontrivial"] = distinct
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": fam.ID, "tier": tier, "seed": seed, "level": fam.Level,
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(bad),
		"assumptions": []string{
			"no random choice is made: the space is enumerated, the seed is unused",
			"the explicit-state interpreter of LLVM IR agrees with LLVM: every mismatch, and the first programs of each worker, and a twelfth (quick) or a 24th (thorough) of all, chosen by the hash of the source,, are executed by the installed LLVM too",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir(), "evidence", fam.ID+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s %s: %d cases, %d distinct, %d transitions, %d real executions, %d skipped, %d interpreter gaps, exhaustive=%v, %.1fs, %d violations\n",
		fam.ID, tier, sum.Cases, distinct, sum.Trans, sum.Traces, sum.Skipped, sum.Interp, exhaustive, time.Since(start).Seconds(), len(bad))
	if len(bad) > 0 {
		return 1
	}
	return 0
}
