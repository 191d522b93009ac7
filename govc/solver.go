package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Unsat
	Sat
)

func (r Result) String() string { return [...]string{"unknown", "unsat", "sat"}[r] }

// Z3 is a persistent z3 process used for path feasibility, invariants and
// first attempts at obligations.
type Z3 struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

var solverStats struct {
	sync.Mutex
	queries int
	time    time.Duration
	byName  map[string]int
}

func noteSolver(name string, d time.Duration) {
	solverStats.Lock()
	defer solverStats.Unlock()
	solverStats.queries++
	solverStats.time += d
	if solverStats.byName == nil {
		solverStats.byName = map[string]int{}
	}
	solverStats.byName[name]++
}

func z3Binary() string {
	if p, err := exec.LookPath("z3-new"); err == nil {
		return p
	}
	return "z3"
}

func (z *Z3) start() error {
	z.cmd = exec.Command(z3Binary(), "-in", "-smt2")
	in, err := z.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := z.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	z.cmd.Stderr = io.Discard
	if err := z.cmd.Start(); err != nil {
		return err
	}
	z.in = in
	z.out = bufio.NewReaderSize(out, 1<<16)
	return nil
}

func (z *Z3) Close() {
	if z.cmd != nil {
		z.in.Close()
		z.cmd.Process.Kill()
		z.cmd.Wait()
		z.cmd = nil
	}
}

// Check runs body + check-sat. timeoutMs is a soft z3 timeout.
func (z *Z3) Check(body string, timeoutMs int) Result { return z.check(body, timeoutMs, true) }

func (z *Z3) check(body string, timeoutMs int, mbqi bool) Result {
	start := time.Now()
	defer func() { noteSolver("z3-new", time.Since(start)) }()
	for attempt := 0; attempt < 2; attempt++ {
		if z.cmd == nil {
			if err := z.start(); err != nil {
				fmt.Fprintln(os.Stderr, "z3:", err)
				return Unknown
			}
		}
		script := fmt.Sprintf("(reset)\n(set-option :timeout %d)\n(set-option :auto_config %v)\n(set-option :smt.mbqi %v)\n%s(check-sat)\n(echo \"<done>\")\n", timeoutMs, mbqi, mbqi, body)
		res := Unknown
		done := make(chan bool, 1)
		go func() {
			if _, err := io.WriteString(z.in, script); err != nil {
				done <- false
			}
		}()
		errText := ""
		go func() {
			for {
				line, err := z.out.ReadString('\n')
				if err != nil {
					done <- false
					return
				}
				line = strings.TrimSpace(line)
				switch {
				case line == "sat":
					res = Sat
				case line == "unsat":
					res = Unsat
				case line == "unknown":
					res = Unknown
				case strings.HasPrefix(line, "(error"):
					errText = line
				case line == "<done>" || line == "\"<done>\"":
					done <- true
					return
				}
			}
		}()
		select {
		case ok := <-done:
			if ok {
				if errText != "" {
					if !strings.Contains(errText, "canceled") && !strings.Contains(errText, "timeout") {
						dump := "/tmp/govc_err.smt2"
						os.WriteFile(dump, []byte(script), 0o644)
						panic("z3 error: " + errText + " (script in " + dump + ")")
					}
				}
				return res
			}
			z.Close()
		case <-time.After(time.Duration(timeoutMs)*time.Millisecond*2 + 5*time.Second):
			z.Close()
			return Unknown
		}
	}
	return Unknown
}

type attempt struct {
	name string
	args []string
}

func portfolio(sec int) []attempt {
	return []attempt{
		{"z3-new", []string{z3Binary(), "-smt2", fmt.Sprintf("-T:%d", sec), "-in"}},
		{"cvc5", []string{"cvc5", "--lang=smt2", "--full-saturate-quant", fmt.Sprintf("--tlimit=%d", sec*1000), "-"}},
		{"z3-4.8", []string{"z3", "-smt2", fmt.Sprintf("-T:%d", sec), "-in"}},
		{"z3-new-noauto", []string{z3Binary(), "-smt2", "auto_config=false", "smt.mbqi=false", fmt.Sprintf("-T:%d", sec), "-in"}},
	}
}

// portfolio2 is a second round for queries the first leaves open: the same
// query under other search orders.
func portfolio2(sec int) []attempt {
	t := fmt.Sprintf("-T:%d", sec)
	return []attempt{
		{"z3-new-noauto", []string{z3Binary(), "-smt2", "auto_config=false", "smt.mbqi=false", "smt.random_seed=7", t, "-in"}},
		{"z3-new-noauto", []string{z3Binary(), "-smt2", "auto_config=false", "smt.mbqi=false", "smt.random_seed=42", "smt.arith.solver=2", t, "-in"}},
		{"z3-new-noauto", []string{z3Binary(), "-smt2", "auto_config=false", "smt.mbqi=false", "smt.case_split=3", "smt.random_seed=3", t, "-in"}},
		{"z3-4.8", []string{"z3", "-smt2", "auto_config=false", "smt.mbqi=false", "smt.random_seed=5", t, "-in"}},
	}
}

// Portfolio runs all back ends in parallel, first definite answer wins.
func Portfolio(body string, sec int) (Result, string) { return race(body, sec, portfolio(sec)) }

func race(body string, sec int, as []attempt) (Result, string) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(sec+5)*time.Second)
	defer cancel()
	type ans struct {
		r Result
		n string
	}
	ch := make(chan ans, 8)
	n := 0
	for _, a := range as {
		n++
		go func(a attempt) {
			start := time.Now()
			script := "(set-logic ALL)\n" + body + "(check-sat)\n"
			cmd := exec.CommandContext(ctx, a.args[0], a.args[1:]...)
			cmd.Stdin = strings.NewReader(script)
			var out bytes.Buffer
			cmd.Stdout = &out
			cmd.Run()
			noteSolver(a.name, time.Since(start))
			r := Unknown
			for _, l := range strings.Split(out.String(), "\n") {
				switch strings.TrimSpace(l) {
				case "sat":
					r = Sat
				case "unsat":
					r = Unsat
				}
			}
			ch <- ans{r, a.name}
		}(a)
	}
	var sat *ans
	for i := 0; i < n; i++ {
		a := <-ch
		if a.r == Unsat {
			return a.r, a.n
		}
		if a.r == Sat && sat == nil {
			x := a
			sat = &x
			// a sat answer is definite too
			return a.r, a.n
		}
	}
	return Unknown, ""
}

// Model asks for values of the given symbols.
func Model(body string, syms []string, sec int) (Result, map[string]string) {
	if len(syms) == 0 {
		return Unknown, nil
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(sec+5)*time.Second)
	defer cancel()
	script := "(set-option :produce-models true)\n" + body + "(check-sat)\n"
	for _, s := range syms {
		script += fmt.Sprintf("(echo \"@@%s\")\n(get-value (%s))\n", strings.ReplaceAll(s, "\"", ""), quoteSym(s))
	}
	cmd := exec.CommandContext(ctx, z3Binary(), "-smt2", fmt.Sprintf("-T:%d", sec), "-in")
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	start := time.Now()
	cmd.Run()
	noteSolver("z3-new", time.Since(start))
	text := out.String()
	r := Unknown
	if strings.HasPrefix(text, "sat") {
		r = Sat
	} else if strings.HasPrefix(text, "unsat") {
		r = Unsat
	}
	m := map[string]string{}
	for _, chunk := range strings.Split(text, "@@")[1:] {
		nl := strings.IndexByte(chunk, '\n')
		if nl < 0 {
			continue
		}
		name := strings.Trim(strings.TrimSpace(chunk[:nl]), "\"")
		val := strings.TrimSpace(strings.Trim(strings.TrimSpace(chunk[nl+1:]), "\""))
		val = strings.Join(strings.Fields(val), " ")
		val = strings.TrimPrefix(val, "((")
		val = strings.TrimSuffix(val, "))")
		val = strings.TrimPrefix(val, quoteSym(name)+" ")
		if !strings.Contains(val, "error") {
			m[name] = val
		}
	}
	return r, m
}
