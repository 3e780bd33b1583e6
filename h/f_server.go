package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/gabivlj/candice/internals/autocomplete/state"
	"github.com/gabivlj/candice/internals/lexer"
	"github.com/gabivlj/candice/internals/parser"
	"github.com/gabivlj/candice/internals/semantic"
)

// C25: the language server answers, and sees the document as it is.

func init() {
	register(&Family{
		ID:        "C25",
		Technique: "explicit-state exploration of all histories of messages to the real language server and of requests to the state of a document",
		Rule: "Every history of 3 (4 of 18) of 22 messages - requests and notifications that the server knows and does not, with numbers and strings as ids, with right, empty and wrong parameters, changes to documents with every kind of content - written at once to the server process, and every history of 2 sent one after the other answer; " +
			"every document of 60 programs, every sequence of 2 (3) of its lines (and of the lines around it) processed without.",
		Note: "The server is the binary that cmd/autocomplete builds; a message that is not JSON-RPC is not explored.",
		Gen:  genServer,
	})
}

// builtTool is a binary that check.sh built next to the harness.
func builtTool(name string) string {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return filepath.Join(filepath.Dir(exe), name)
}

type lspMsg struct {
	name   string
	method string
	params string // JSON, "" is none
	id     string // "": a notification; "#": a number, "$": a string
	text   string // of the document after the change
	change bool
	known  bool
	wrong  bool // the parameters are not those of the method
}

func lspMessages() []lspMsg {
	doc := func(texts ...string) string {
		var cs []string
		for _, t := range texts {
			b, _ := json.Marshal(t)
			cs = append(cs, `{"text":`+string(b)+`}`)
		}
		return `{"textDocument":{"uri":"file:///a.cd","version":2},"contentChanges":[` + strings.Join(cs, ",") + `]}`
	}
	ch := func(name string, texts ...string) lspMsg {
		m := lspMsg{name: name, method: "textDocument/didChange", params: doc(texts...), known: true}
		if len(texts) > 0 {
			m.change, m.text = true, texts[len(texts)-1]
		}
		return m
	}
	r := []lspMsg{
		{name: "init", method: "initialize", params: `{"processId":1,"rootUri":null,"capabilities":{}}`, id: "#", known: true},
		ch("good", "func main() { a := 1 + 2 * 3; @print(a); }\n"),
		{name: "hover", method: "textDocument/hover", params: `{"textDocument":{"uri":"file:///a.cd"},"position":{"line":0,"character":1}}`, id: "#"},
		ch("broken", "func main( { x := ; }"),
		{name: "initialized", method: "initialized", params: "{}"},
		ch("none"),
		{name: "shutdown", method: "shutdown", id: "$"},
		ch("multi", "func f() (i32, i32) { return 1, 2; }\nfunc main() { a, b := f(); }"),
		{name: "badparams", method: "textDocument/didChange", params: `{"contentChanges":5}`, known: true, wrong: true},
		ch("two", "struct A { v i32 }\n", "union B { w i64\n x i8 }\n"),
		{name: "init2", method: "initialize", id: "$", known: true},
		{name: "unknown", method: "candice/nothing", params: `[1,2]`, id: "#"},
		{name: "didOpen", method: "textDocument/didOpen", params: `{"textDocument":{"uri":"file:///a.cd","languageId":"candice","version":1,"text":"x"}}`},
		{name: "unknownNote", method: "$/setTrace", params: `{"value":"off"}`},
		{name: "completion", method: "textDocument/completion", params: `{}`, id: "$"},
		ch("empty", ""),
		ch("lexical", "func main() { s := \"abc"),
		ch("unicode", "func main() { @print(\"é ✓\"); }"),
		ch("block", "func main() { x := :i32 { return 4; }; for i := 0; i < 2; i = i + 1 { } }"),
		{name: "changeRequest", method: "textDocument/didChange", params: doc("g := 4;\n"), id: "#", known: true, change: true, text: "g := 4;\n"},
		{name: "noneRequest", method: "textDocument/didChange", params: doc(), id: "#", known: true},
		{name: "noparams", method: "textDocument/didChange", known: true, wrong: true},
		{name: "badRequest", method: "textDocument/didChange", params: `"text"`, id: "$", known: true, wrong: true},
	}
	return r
}

type lspReply struct {
	ID     json.RawMessage `json:"id"`
	Method string          `json:"method"`
	Result json.RawMessage `json:"result"`
	Error  *struct {
		Code    int    `json:"code"`
		Message string `json:"message"`
	} `json:"error"`
}

func (m lspMsg) frame(n int) (string, string) {
	b := `{"jsonrpc":"2.0"`
	id := ""
	switch m.id {
	case "#":
		id = strconv.Itoa(n)
	case "$":
		id = fmt.Sprintf(`"r%d"`, n)
	}
	if id != "" {
		b += `,"id":` + id
	}
	b += `,"method":"` + m.method + `"`
	if m.params != "" {
		b += `,"params":` + m.params
	}
	b += "}"
	return fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(b), b), id
}

func readReplies(b []byte) (r []lspReply, err error) {
	for len(b) > 0 {
		i := bytes.Index(b, []byte("\r\n\r\n"))
		if i < 0 {
			return r, fmt.Errorf("not a message: %q", clip(string(b), 200))
		}
		n := 0
		if _, err := fmt.Sscanf(string(b[:i]), "Content-Length: %d", &n); err != nil || len(b) < i+4+n {
			return r, fmt.Errorf("not a message: %q", clip(string(b), 200))
		}
		var one lspReply
		if err := json.Unmarshal(b[i+4:i+4+n], &one); err != nil {
			return r, fmt.Errorf("not JSON: %q", b[i+4:i+4+n])
		}
		r = append(r, one)
		b = b[i+4+n:]
	}
	return
}

// lspHistory runs one history on a server of its own.
func lspHistory(h []lspMsg) string {
	var in bytes.Buffer
	type want struct {
		id string
		m  lspMsg
	}
	var wants []want
	var trees []string
	for i, m := range h {
		s, id := m.frame(i)
		in.WriteString(s)
		if id != "" {
			wants = append(wants, want{id, m})
		}
		if m.change {
			t, _, _ := printTree(m.text)
			trees = append(trees, t)
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, builtTool("lsp"))
	var out, log bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = &in, &out, &log
	err := cmd.Run()
	if ctx.Err() != nil {
		return "the server does not end when the editor closes the connection"
	}
	if err != nil {
		return fmt.Sprintf("the server ends with %v: %s", err, clip(log.String(), 400))
	}
	rs, err := readReplies(out.Bytes())
	if err != nil {
		return err.Error()
	}
	if len(rs) != len(wants) {
		return fmt.Sprintf("%d requests have %d answers: %s", len(wants), len(rs), clip(out.String(), 600))
	}
	for i, r := range rs {
		w := wants[i]
		if string(r.ID) != w.id || r.Method != "" {
			return fmt.Sprintf("answer %d is to %s, and has to be to %s", i, r.ID, w.id)
		}
		switch {
		case !w.m.known:
			if r.Error == nil || r.Error.Code != -32601 {
				return fmt.Sprintf("%s is not a method of the server, and the answer is %s", w.m.method, clip(out.String(), 500))
			}
		case w.m.wrong:
			if r.Error == nil {
				return fmt.Sprintf("wrong parameters of %s have no error in the answer", w.m.name)
			}
		case r.Error != nil:
			return fmt.Sprintf("%s is answered with the error %s", w.m.name, r.Error.Message)
		case w.m.method == "initialize":
			var res struct {
				Capabilities struct {
					TextDocumentSync struct {
						OpenClose bool
						Change    int
					}
				}
			}
			if json.Unmarshal(r.Result, &res) != nil || res.Capabilities.TextDocumentSync.Change != 1 || !res.Capabilities.TextDocumentSync.OpenClose {
				return fmt.Sprintf("the server does not ask for the whole documents: %s", r.Result)
			}
		}
	}
	text := log.String()
	for i, t := range trees {
		j := strings.Index(text, t)
		if j < 0 {
			return fmt.Sprintf("the tree of change %d is missing:\n%sin\n%s", i, t, clip(text, 1500))
		}
		text = text[j+len(t):]
	}
	return ""
}

// lspDialog sends each message after the answer to the one before.
func lspDialog(h []lspMsg) string {
	cmd := exec.Command(builtTool("lsp"))
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	kill := time.AfterFunc(30*time.Second, func() { cmd.Process.Kill() })
	defer kill.Stop()
	buf := make([]byte, 1<<16)
	for i, m := range h {
		s, id := m.frame(i)
		if _, err := in.Write([]byte(s)); err != nil {
			cmd.Process.Kill()
			cmd.Wait()
			return fmt.Sprintf("the server does not read message %d (%s): %v", i, m.name, err)
		}
		if id == "" {
			continue
		}
		var got []byte
		for {
			if rs, err := readReplies(got); err == nil && len(rs) == 1 && string(rs[0].ID) == id {
				break
			}
			n, err := out.Read(buf)
			got = append(got, buf[:n]...)
			if err != nil {
				cmd.Process.Kill()
				cmd.Wait()
				return fmt.Sprintf("request %d (%s) has no answer: %q", i, m.name, got)
			}
		}
	}
	in.Close()
	if err := cmd.Wait(); err != nil {
		return fmt.Sprintf("the server ends with %v", err)
	}
	return ""
}

// fieldOf finds a field of the state by its type.
func fieldOf(s *state.State, want reflect.Type) (reflect.Value, bool) {
	v := reflect.ValueOf(s).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == want {
			f := v.Field(i)
			return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem(), true
		}
	}
	return reflect.Value{}, false
}

func analysisOf(p *parser.Parser, s *semantic.Semantic) string {
	var l []string
	for _, e := range p.Errors {
		l = append(l, "parse "+e.Error())
	}
	for _, e := range s.Errors {
		l = append(l, "analysis "+e.Error())
	}
	return strings.Join(l, "\n")
}

// exceptCheck processes a document without some of its lines, one at a time.
func exceptCheck(doc string, lines []int) (bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprint("it panics: ", r)
		}
	}()
	semantic.ResetPaths()
	st := state.New(doc)
	all := strings.Split(doc, "\n")
	for i, n := range lines {
		semantic.ResetPaths()
		st.ProcessExcept(n)
		var rest []string
		for j, l := range all {
			if j != n {
				rest = append(rest, l)
			}
		}
		if t, ok := fieldOf(st, reflect.TypeOf([]string{})); ok {
			if got := strings.Join(t.Interface().([]string), "\n"); got != doc {
				return fmt.Sprintf("step %d: the document became %q", i, got)
			}
		}
		pv, ok1 := fieldOf(st, reflect.TypeOf((*parser.Parser)(nil)))
		sv, ok2 := fieldOf(st, reflect.TypeOf((*semantic.Semantic)(nil)))
		if !ok1 || !ok2 {
			return ""
		}
		got := analysisOf(pv.Interface().(*parser.Parser), sv.Interface().(*semantic.Semantic))
		semantic.ResetPaths()
		p := parser.New(lexer.New(strings.Join(rest, "\n")))
		root := p.Parse()
		s := semantic.New()
		s.Analyze(root)
		if want := analysisOf(p, s); got != want {
			return fmt.Sprintf("step %d, without line %d: %q, and has to be %q", i, n, got, want)
		}
	}
	return ""
}

func genServer(x *Enum) {
	ms := lspMessages()
	hist := func(l []int) {
		l = append([]int{}, l...)
		x.Case(fmt.Sprint("history:", l), func() Case {
			var h []lspMsg
			var ns []string
			for _, i := range l {
				h = append(h, ms[i])
				ns = append(ns, ms[i].name)
			}
			return Case{Kind: KCustom, Src: strings.Join(ns, " "), Fn: func() Outcome { return Outcome{Bad: lspHistory(h), Trans: len(l), Traces: 1} }}
		})
	}
	var tuples func(n, m int, f func([]int))
	tuples = func(n, m int, f func([]int)) {
		var rec func(p []int)
		rec = func(p []int) {
			if len(p) == n {
				f(p)
				return
			}
			for i := 0; i < m; i++ {
				rec(append(p, i))
			}
		}
		rec(nil)
	}
	for n := 0; n <= 2; n++ {
		tuples(n, len(ms), hist)
	}
	tuples(3, len(ms), hist)
	if x.Thorough() {
		tuples(4, 18, hist)
	}
	tuples(2, len(ms), func(l []int) {
		l = append([]int{}, l...)
		x.Case(fmt.Sprint("dialog:", l), func() Case {
			// the request at the end shows that the server is still there
			h := []lspMsg{ms[l[0]], ms[l[1]], ms[2]}
			return Case{Kind: KCustom, Src: h[0].name + " " + h[1].name, Fn: func() Outcome { return Outcome{Bad: lspDialog(h), Trans: 3, Traces: 1} }}
		})
	})
	var docs []string
	for _, p := range totalProgs {
		docs = append(docs, strings.NewReplacer("; ", ";\n", "{ ", "{\n", "} ", "}\n").Replace(p))
	}
	for _, p := range histProgs() {
		if p.want == "" && !strings.Contains(p.src, "import") {
			docs = append(docs, p.src)
		}
	}
	for di, d := range docs {
		d := d
		n := strings.Count(d, "\n") + 1
		for i := -1; i <= n+1; i++ {
			i := i
			x.Case(fmt.Sprintf("except:%d:%d", di, i), func() Case {
				return Case{Kind: KCustom, Src: d, Fn: func() Outcome {
					steps := 0
					for j := -1; j <= n+1; j++ {
						ls := [][]int{{i, j}}
						if x.Thorough() {
							ls = nil
							for k := -1; k <= n; k++ {
								ls = append(ls, []int{i, j, k})
							}
						}
						for _, l := range ls {
							steps += len(l)
							if bad := exceptCheck(d, l); bad != "" {
								return Outcome{Bad: fmt.Sprintf("lines %v: %s", l, bad), Trans: steps, Traces: steps}
							}
						}
					}
					return Outcome{Trans: steps, Traces: steps}
				}}
			})
		}
	}
}
