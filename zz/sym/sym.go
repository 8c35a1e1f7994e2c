//go:build go1.22

// Package sym is the interface between the harnesses and the symbolic executor.
// Compiled natively (replay mode) every input is taken, in order, from a list of
// recorded values; under the executor the functions are implemented by it.
package sym

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/sirupsen/logrus"
)

type Val struct {
	Kind string `json:"kind"`
	Name string `json:"name"`
	Val  int64  `json:"val"`
}

type stop struct{ kind, msg string }

var (
	vals    []Val
	pos     int
	covers  []string
	notes   []string
	logs    []string
	Scratch string
)

func next(name string) int64 {
	for pos < len(vals) && (vals[pos].Kind == "sched" || vals[pos].Kind == "maporder") {
		pos++
	}
	if pos >= len(vals) {
		panic(stop{"diverged", "no recorded value for " + name})
	}
	v := vals[pos]
	if v.Name != name {
		panic(stop{"diverged", "recorded value " + v.Name + " used for " + name})
	}
	pos++
	return v.Val
}

func Byte(name string) byte                    { return byte(next(name)) }
func ByteIn(name string, alphabet string) byte { return byte(next(name)) }
func Int(name string, lo, hi int) int          { return int(next(name)) }
func Bool(name string) bool                    { return next(name) != 0 }
func Choice(name string, n int) int {
	if n == 1 {
		// recorded too
	}
	return int(next(name))
}

func Assume(c bool) {
	if !c {
		panic(stop{"assume", ""})
	}
}

func Assert(c bool, msg string) {
	if !c {
		panic(stop{"violation", msg})
	}
}

func Fail(msg string)       { panic(stop{"violation", msg}) }
func Cover(name string)     { covers = append(covers, name) }
func Note(msg string)       { notes = append(notes, msg) }
func Log(msg string)        { logs = append(logs, msg) }
func Symbolic() bool        { return false }
func Stop()                 { panic(stop{"done", ""}) }
func OutOfBound(msg string) { panic(stop{"bound", msg}) }
func Budget(steps int)      {}
func MapOrder(on bool)      {}
func MapDeviate(n int)      {} // up to n of the following iterations over maps go the other way round
func Race(on bool)          {}
func Sched(on bool)         {}

func Goroutines() int { return runtime.NumGoroutine() - baseG }

var baseG int

// Drain waits for the other goroutines; returns how many are still alive.
func Drain() int {
	for i := 0; i < 100; i++ {
		if runtime.NumGoroutine() <= baseG {
			return 0
		}
		time.Sleep(5 * time.Millisecond)
	}
	return runtime.NumGoroutine() - baseG
}

func EqBytes(a, b string) bool           { return a == b }
func And(a, b bool) bool                 { return a && b }
func Or(a, b bool) bool                  { return a || b }
func Not(a bool) bool                    { return !a }
func InSet(b byte, alphabet string) bool { return strings.IndexByte(alphabet, b) >= 0 }

// File system: the executor has an in-memory one with working directory /work;
// natively everything lives below a scratch directory.
func real(p string) string {
	if strings.HasPrefix(p, "/") {
		p = filepath.Clean(p)
		if !strings.HasPrefix(p, Scratch) {
			p = Scratch + p
		}
	}
	return p
}

// Root is the prefix of absolute paths ("" under the executor).
func Root() string { return Scratch }

func WriteFile(p, content string) {
	p = real(p)
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
		panic(stop{"diverged", err.Error()})
	}
}

func Mkdir(p string) { os.MkdirAll(real(p), 0o755) }

func ReadFile(p string) (string, bool) {
	b, err := os.ReadFile(real(p))
	return string(b), err == nil
}

func Getwd() string {
	d, _ := os.Getwd()
	return strings.TrimPrefix(d, Scratch)
}

// OpenFiles returns the number of files open.
func OpenFiles() int {
	n := 0
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, f := range fds {
		if l, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil && strings.HasPrefix(l, Scratch+"/") {
			n++
		}
	}
	return n
}

// Errors returns the messages logged as errors.
func Errors() []string { return logged }

var (
	logged  []string
	loggedM sync.Mutex
)

type hook struct{}

func (hook) Levels() []logrus.Level { return []logrus.Level{logrus.ErrorLevel} }
func (hook) Fire(e *logrus.Entry) error {
	loggedM.Lock()
	logged = append(logged, e.Message)
	loggedM.Unlock()
	return nil
}

func init() { logrus.AddHook(hook{}) }

// Result of a native run.
type Result struct {
	Kind   string   `json:"kind"`
	Msg    string   `json:"msg"`
	Covers []string `json:"covers"`
	Notes  []string `json:"notes"`
	Logs   []string `json:"logs"`
}

// Replay runs h with the recorded values.
func Replay(h func(), v []Val, scratch string) (r Result) {
	vals, pos, covers, notes, logs = v, 0, nil, nil, nil
	Scratch = scratch
	os.MkdirAll(scratch+"/work", 0o755)
	os.MkdirAll(scratch+"/tmp", 0o755)
	os.Chdir(scratch + "/work")
	baseG = runtime.NumGoroutine()
	logged = nil
	defer func() {
		if x := recover(); x != nil {
			if s, ok := x.(stop); ok {
				r.Kind, r.Msg = s.kind, s.msg
			} else {
				r.Kind, r.Msg = "panic", fmt.Sprint(x)
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, false)]
				logs = append(logs, string(buf))
			}
		}
		r.Covers, r.Notes, r.Logs = covers, notes, logs
	}()
	h()
	r.Kind = "done"
	return
}
