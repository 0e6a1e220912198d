package main

import (
	"bufio"
	"io"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// inproc is a persistent solver used only for pruning infeasible branches.
type inprocSolver struct {
	mu   sync.Mutex
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	secs float64
}

var inproc = &inprocSolver{}

func (s *inprocSolver) start() bool {
	c := exec.Command("z3-new", "-in", "-smt2", "smt.mbqi=false", "auto_config=false")
	in, e1 := c.StdinPipe()
	out, e2 := c.StdoutPipe()
	if e1 != nil || e2 != nil || c.Start() != nil {
		return false
	}
	s.cmd, s.in, s.out = c, in, bufio.NewReader(out)
	return true
}

func (s *inprocSolver) stop() {
	if s.cmd != nil {
		s.in.Close()
		_ = s.cmd.Process.Kill()
		_ = s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *inprocSolver) check(q string) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	t0 := time.Now()
	defer func() { s.secs += time.Since(t0).Seconds() }()
	if s.cmd == nil && !s.start() {
		return "unknown"
	}
	q = strings.TrimPrefix(q, "(set-logic ALL)\n")
	_, err := io.WriteString(s.in, "(reset)\n(set-option :timeout 400)\n"+q+"(echo \"done!\")\n")
	if err != nil {
		s.stop()
		return "unknown"
	}
	res := "unknown"
	ch := make(chan struct{})
	cmd := s.cmd
	go func() {
		select {
		case <-ch:
		case <-time.After(5 * time.Second):
			_ = cmd.Process.Kill()
		}
	}()
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			close(ch)
			s.stop()
			return "unknown"
		}
		l = strings.TrimSpace(l)
		if l == "done!" {
			break
		}
		if l == "unsat" || l == "sat" {
			res = l
		}
	}
	close(ch)
	return res
}
