// Command optc decides C26: every way to start an engine (options, constructors, configuration files, the
// network configuration) against an engine whose options are all written out, and against direct readings
// of the options (directories, backends, window, score formula). Every case runs in a process of its own.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"vmc/rep"
)

func main() {
	log.SetOutput(io.Discard)
	if c := os.Getenv("OPTC_CASE"); c != "" {
		child(c)
		return
	}
	if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil && strings.Contains(strings.Join(os.Args, " "), "-slice") {
		os.Stdout = n
	}
	rep.Main([]*rep.Check{
		{Prop: "C26", Level: "model_checking", Parts: c26,
			Rule:        "every combination of given and missing options of each group over each way to start an engine; the engine indexes, searches, removes, closes and is opened again beside an engine with all options written out; non-trivial: documents were found",
			Assumptions: []string{"the options are values the documentation allows; numbers of workers and buffer sizes are only required not to change answers"}},
	})
}

// Case is one case, executed in a child process whose working directory is Dir.
type Case struct {
	Route  string // init, withgse, new, newengine, toml, com, rpc, comtoml, misuse
	Given  Spec   // init, withgse: the options given
	Args   []interface{}
	Toml   string
	Conf   Conf
	Env    string
	Before bool // another engine with other options was started before in the same process
	Shared bool // the same option values (and what they point to) are used for two engines
	Want   Spec // the same options written out
	Misuse string
	Tokens bool // the documents carry tokens only
}

var exe, _ = os.Executable()
var caseN int

// run executes the case in a child process and returns the violation ("" if none).
func run(w *rep.W, c Case) string {
	caseN++
	// in memory where that is possible: databases synchronise often
	base := rep.Scratch
	if _, err := os.Stat("/dev/shm/."); err == nil && os.Getenv("OPTC_DISK") == "" {
		if d, err := os.MkdirTemp("/dev/shm", "vmc.opt."); err == nil {
			base = d
			defer os.RemoveAll(d)
		}
	}
	dir := filepath.Join(base, fmt.Sprintf("opt%d-%d", os.Getpid(), caseN))
	if err := os.MkdirAll(dir, 0700); err != nil {
		return "harness: " + err.Error()
	}
	defer os.RemoveAll(dir)
	b, _ := json.Marshal(c)
	var out []byte
	code := -1
	for try := 0; try < 2; try++ {
		cmd := exec.Command(exe)
		cmd.Dir = dir
		cmd.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin", "TMPDIR=" + dir, "GOMAXPROCS=2", "OPTC_CASE=" + string(b)}
		if c.Env != "" {
			cmd.Env = append(cmd.Env, "Riot_Store_Engine="+c.Env)
		}
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		var so, se strings.Builder
		cmd.Stdout, cmd.Stderr = &so, &se
		done := make(chan error, 1)
		if err := cmd.Start(); err != nil {
			return "harness: " + err.Error()
		}
		go func() { done <- cmd.Wait() }()
		late := false
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			late = true
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-done
		}
		out, code = []byte(so.String()), cmd.ProcessState.ExitCode()
		if late {
			if try == 0 {
				os.RemoveAll(dir)
				os.MkdirAll(dir, 0700)
				continue
			}
			return "the engine did not finish within 30 s"
		}
		if c.Route == "misuse" {
			if code == 0 || strings.Contains(se.String(), "goroutine ") {
				return "not refused: " + strings.TrimSpace(string(out)) + last(se.String())
			}
			if strings.Contains(string(out), "BAD:") {
				return strings.TrimSpace(string(out))
			}
			w.Nontrivial()
			w.Outcome("refused")
			return ""
		}
		if code != 0 {
			return fmt.Sprintf("the process ended with status %d: %s", code, last(se.String()))
		}
		break
	}
	var r result
	if err := json.Unmarshal(out, &r); err != nil {
		return "the process gave no result: " + last(string(out))
	}
	w.Trans(r.Ops)
	w.StateHash(r.Hash)
	if r.Found > 0 {
		w.Nontrivial()
	}
	if r.Msg == "" {
		w.Outcome(r.Sum)
	}
	return r.Msg
}

func last(s string) string {
	s = strings.TrimSpace(s)
	if len(s) > 400 {
		s = s[:200] + " ... " + s[len(s)-200:]
	}
	return s
}

type result struct {
	Msg   string
	Ops   int
	Found int
	Sum   string
	Hash  uint64
}
