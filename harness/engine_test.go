package verifharness

import (
	"bufio"
	_ "embed"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
)

// A real SQL engine, SQLite as of Python's standard library, in a process of its own.

//go:embed engine.py
var enginePy string

type engine struct {
	in  io.WriteCloser
	out *bufio.Reader
}

var (
	theEngine     *engine
	theEngineOnce sync.Once
)

// noEngine ends the check without an answer: there is nothing to run queries with.
func noEngine(format string, a ...any) {
	fmt.Printf("VERIF-ERROR: SQL engine: "+format+"\n", a...)
	os.Exit(3)
}

func sqlEngine() *engine {
	theEngineOnce.Do(func() {
		for _, py := range []string{"python3", "/usr/local/bin/python3", "/usr/bin/python3", "python3-vt", "/opt/veriftools/pyvenv/bin/python3"} {
			path, err := exec.LookPath(py)
			if err != nil {
				continue
			}
			cmd := exec.Command(path, "-I", "-c", enginePy)
			cmd.Stderr = os.Stderr
			in, err := cmd.StdinPipe()
			if err != nil {
				continue
			}
			out, err := cmd.StdoutPipe()
			if err != nil {
				continue
			}
			if err := cmd.Start(); err != nil {
				continue
			}
			e := &engine{in: in, out: bufio.NewReaderSize(out, 1<<20)}
			line, err := e.out.ReadString('\n')
			var hello struct{ Version []int }
			if err != nil || json.Unmarshal([]byte(line), &hello) != nil || len(hello.Version) < 2 || hello.Version[0] != 3 || hello.Version[1] < 39 {
				in.Close()
				cmd.Process.Kill()
				continue
			}
			theEngine = e
			return
		}
	})
	if theEngine == nil {
		noEngine("no python3 with SQLite 3.39 or newer")
	}
	return theEngine
}

type engineQuery struct {
	SQL   string `json:"sql"`
	Args  []any  `json:"args"`
	Named bool   `json:"named"` // $1 instead of ?
}

type engineResult struct {
	Rows [][]any
	Cols int
	Err  string
}

// run runs the queries in a new database.
func (e *engine) run(setup []string, queries ...engineQuery) []engineResult {
	for i, q := range queries {
		args := make([]any, len(q.Args))
		for k, a := range q.Args {
			args[k] = a
			if f, ok := a.(float64); ok {
				args[k] = map[string]string{"f": strconv.FormatFloat(f, 'g', -1, 64)}
			}
		}
		queries[i].Args = args
	}
	req, err := json.Marshal(map[string]any{"setup": setup, "queries": queries})
	if err != nil {
		noEngine("%v", err)
	}
	if _, err := e.in.Write(append(req, '\n')); err != nil {
		noEngine("%v", err)
	}
	line, err := e.out.ReadString('\n')
	if err != nil {
		noEngine("%v", err)
	}
	dec := json.NewDecoder(strings.NewReader(line))
	dec.UseNumber()
	var ans struct {
		Results []struct {
			Rows  [][]any
			Cols  int
			Error string
		}
	}
	if err := dec.Decode(&ans); err != nil || len(ans.Results) != len(queries) {
		noEngine("%v: %s", err, line)
	}
	var out []engineResult
	for _, r := range ans.Results {
		for _, row := range r.Rows {
			for i, v := range row {
				row[i] = engineValue(v)
			}
		}
		out = append(out, engineResult{r.Rows, r.Cols, r.Error})
	}
	return out
}

func engineValue(v any) any {
	switch v := v.(type) {
	case nil, string:
		return v
	case json.Number:
		i, err := v.Int64()
		if err != nil {
			noEngine("number %s", v)
		}
		return i
	case map[string]any:
		if s, ok := v["f"].(string); ok {
			f, err := strconv.ParseFloat(s, 64)
			if err != nil && !math.IsInf(f, 0) {
				noEngine("number %s", s)
			}
			return f
		}
		return fmt.Sprint(v)
	}
	noEngine("value %T", v)
	return nil
}
