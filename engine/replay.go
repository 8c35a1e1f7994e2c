package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/pprof"
	"strings"
	"syscall"
	"time"
)

// ReplayResult is the outcome of running a counterexample natively.
type ReplayResult struct {
	Kind   string   `json:"kind"`
	Msg    string   `json:"msg"`
	Covers []string `json:"covers,omitempty"`
	Notes  []string `json:"notes,omitempty"`
	Logs   []string `json:"logs,omitempty"`
}

type replayer struct {
	dir  string
	bin  string
	n    int
	race bool
}

func newReplayer(repo, verif, pkg string, race bool) (*replayer, error) {
	dir, err := os.MkdirTemp("", "gosym-replay")
	if err != nil {
		return nil, err
	}
	r := &replayer{dir: dir, bin: filepath.Join(dir, "replay")}
	ov := map[string]map[string]string{"Replace": overlayFiles(repo, verif)}
	b, _ := json.Marshal(ov)
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, b, 0o644)
	target := "./zz_verif/replay"
	if !strings.Contains(pkg, "zz_verif") {
		target = pkg // the package under test is a main package carrying its own replay entry
	}
	args := []string{"build", "-overlay", of, "-o", r.bin}
	cgo := "CGO_ENABLED=0"
	if race {
		args = append(args, "-race")
		cgo = "CGO_ENABLED=1"
		r.race = true
	}
	c := exec.Command("go", append(args, target)...)
	c.Dir = repo
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", cgo, "GOPROXY=off")
	if out, err := c.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("building replay: %v\n%s", err, out)
	}
	return r, nil
}

func (r *replayer) close() {
	if strings.HasPrefix(r.dir, os.TempDir()) {
		os.RemoveAll(r.dir)
	}
}

func (r *replayer) run(harness string, in []InputVal, limit time.Duration) *ReplayResult {
	scratch, _ := os.MkdirTemp(r.dir, "s")
	job, _ := json.Marshal(map[string]any{"harness": harness, "inputs": in, "scratch": scratch})
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	lim := "ulimit -v 8000000; "
	if r.race {
		lim = "" // the race runtime reserves a large address range
	}
	c := exec.CommandContext(ctx, "/bin/sh", "-c", lim+"exec "+r.bin)
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
	c.Env = append(os.Environ(), "GOMAXPROCS=4", "GOSYM_REPLAY=1")
	c.Stdin = bytes.NewReader(job)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	err := c.Run()
	os.RemoveAll(scratch)
	res := &ReplayResult{}
	if ctx.Err() != nil {
		return &ReplayResult{Kind: "timeout", Msg: fmt.Sprintf("no result within %v", limit)}
	}
	if err != nil {
		s := se.String()
		if len(s) > 4000 {
			s = s[:4000]
		}
		return &ReplayResult{Kind: "crash", Msg: s}
	}
	if err := json.Unmarshal(so.Bytes(), res); err != nil {
		return &ReplayResult{Kind: "error", Msg: err.Error() + ": " + so.String()}
	}
	return res
}

func startProfile(f string) {
	fd, _ := os.Create(f)
	pprof.StartCPUProfile(fd)
}

func stopProfile() { pprof.StopCPUProfile() }
