package main

// Drives the real pipeline (lexer, parser, semantic analysis, compiler) the
// way internals/tests and internals/build do, and executes the module either
// under the explicit-state interpreter or under the installed LLVM.

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"

	"github.com/gabivlj/candice/internals/ast"
	"github.com/gabivlj/candice/internals/compiler"
	"github.com/gabivlj/candice/internals/lexer"
	"github.com/gabivlj/candice/internals/parser"
	"github.com/gabivlj/candice/internals/semantic"
	"github.com/llir/llvm/ir"
)

// Stage at which the pipeline stopped.
const (
	StParse    = "parse-error"
	StSemantic = "semantic-error"
	StPanic    = "panic"
	StCompile  = "compile-error"
	StOK       = "ok"
)

type Compiled struct {
	Stage    string
	Errs     []string
	Panic    string
	PanicIn  string // parse, semantic, compile, print
	Mod      *ir.Module
	Text     string
	Root     *ast.Program
	Warnings int
	Flags    []string // compiler flags that the program adds
}

func (c *Compiled) accepted() bool {
	return c.Stage == StOK || c.Stage == StCompile || (c.Stage == StPanic && (c.PanicIn == "compile" || c.PanicIn == "print"))
}

func (c *Compiled) why() string {
	if c.Panic != "" {
		return c.Stage + " in " + c.PanicIn + ": " + c.Panic
	}
	return c.Stage + ": " + strings.Join(c.Errs, " | ")
}

type opts struct {
	dir      string // directory of imports, relative to the working directory
	noText   bool
	noModule bool // stop after the semantic analysis

	keepPaths bool // keep the modules that were imported before
}

func compileSrc(src string, o opts) (c *Compiled) {
	c = &Compiled{}
	stage := "parse"
	defer func() {
		if r := recover(); r != nil {
			c.Stage, c.Panic, c.PanicIn = StPanic, fmt.Sprint(r), stage
			if os.Getenv("VERIF_STACK") != "" {
				os.Stderr.Write(debug.Stack())
			}
		}
	}()
	p := parser.New(lexer.New(src))
	root := p.Parse()
	c.Root = root
	if len(p.Errors) > 0 {
		c.Stage = StParse
		for _, e := range p.Errors {
			c.Errs = append(c.Errs, e.Error())
		}
		return
	}
	stage = "semantic"
	s := semantic.New()
	if !o.keepPaths {
		semantic.ResetPaths()
	}
	s.ContextDirectoryPath = o.dir
	s.Analyze(root)
	c.Warnings = len(s.Warnings)
	if len(s.Errors) > 0 {
		c.Stage = StSemantic
		for _, e := range s.Errors {
			c.Errs = append(c.Errs, e.Error())
		}
		return
	}
	if o.noModule {
		c.Stage = StOK
		return
	}
	stage = "compile"
	cp := compiler.New(s)
	cp.CompileWithEventHandler(root, func(e compiler.Event) {
		if e.Kind == compiler.AddFlags {
			c.Flags = append(c.Flags, e.Data)
		}
	})
	c.Mod = findModule(cp)
	if c.Mod == nil {
		c.Stage = StCompile
		c.Errs = []string{"harness: module not found"}
		return
	}
	if !o.noText {
		stage = "print"
		c.Text = c.Mod.String()
	}
	c.Stage = StOK
	return
}

// findModule locates the LLVM module held by the compiler, whatever the field
// is called.
func findModule(cp interface{}) *ir.Module {
	want := reflect.TypeOf((*ir.Module)(nil))
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value, depth int) *ir.Module
	walk = func(v reflect.Value, depth int) *ir.Module {
		if depth > 4 {
			return nil
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				return nil
			}
			if v.Type() == want {
				return (*ir.Module)(unsafe.Pointer(v.Pointer()))
			}
			if seen[v.Pointer()] {
				return nil
			}
			seen[v.Pointer()] = true
			if v.Elem().Kind() == reflect.Struct && strings.Contains(v.Type().String(), "compiler") {
				return walk(v.Elem(), depth+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if m := walk(v.Field(i), depth+1); m != nil {
					return m
				}
			}
		}
		return nil
	}
	return walk(reflect.ValueOf(cp), 0)
}

// ------------------------------------------------------------ real execution

type realRun struct {
	out    string
	exit   int
	err    string // non-empty: did not produce a normal process exit
	stderr string
}

func tool(names ...string) string {
	for _, n := range names {
		if strings.HasPrefix(n, "/") {
			if _, err := os.Stat(n); err == nil {
				return n
			}
			continue
		}
		if p, err := exec.LookPath(n); err == nil {
			return p
		}
	}
	return ""
}

var scratchDir string

func scratch() string {
	if scratchDir == "" {
		d, err := os.MkdirTemp("", "vhw")
		if err != nil {
			panic(err)
		}
		scratchDir = d
	}
	return scratchDir
}

// runLLI executes IR text with the installed LLVM interpreter/JIT.
func runLLI(text string, timeout time.Duration) realRun {
	f := filepath.Join(scratch(), "prog.ll")
	os.WriteFile(f, []byte(text), 0o644)
	lli := tool("/usr/bin/lli-18", "/usr/bin/lli", "lli")
	if lli == "" {
		return realRun{err: "lli not available"}
	}
	return runCmd(timeout, scratch(), lli, f)
}

func runCmd(timeout time.Duration, dir, name string, args ...string) realRun {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	r := realRun{out: so.String(), stderr: se.String()}
	if ctx.Err() != nil {
		r.err = "timeout"
		return r
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			if ee.Exited() {
				r.exit = ee.ExitCode()
			} else {
				r.err = "signal " + ee.String()
			}
			return r
		}
		r.err = err.Error()
	}
	return r
}

// verifyLLVM asks the installed LLVM whether the text is a valid module.
func verifyLLVM(text string) (bool, string) {
	f := filepath.Join(scratch(), "v.ll")
	os.WriteFile(f, []byte(text), 0o644)
	as := tool("/usr/bin/llvm-as-18", "/usr/bin/llvm-as", "/usr/lib/llvm-18/bin/llvm-as", "llvm-as")
	if as == "" {
		return true, "no llvm-as"
	}
	r := runCmd(60*time.Second, scratch(), as, "-o", "/dev/null", f)
	return r.err == "" && r.exit == 0, firstLines(r.stderr, 3)
}

func firstLines(s string, n int) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, " / ")
}
