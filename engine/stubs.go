package main

// Body-less runtime hooks that only matter to the real runtime.
func init() {
	for _, n := range []string{
		"sync.runtime_registerPoolCleanup", "sync.runtime_notifyListCheck", "os.runtime_beforeExit", "os.runtime_args", "syscall.runtime_envs", "syscall.runtimeSetenv",
		"syscall.rawSyscallNoError", "syscall.runtime_BeforeFork", "os.NewFile", "os.newFile", "os.runtime_rand", "os.checkPidfdOnce", "os.ignoringEINTR",
		"internal/godebug.New", "(*internal/godebug.Setting).Value", "syscall.Getpagesize", "syscall.runtime_doAllThreadsSyscall",
		"os.init#1", "os.init#2", "syscall.init#1", "time.registerLoadFromEmbeddedTZData",
	} {
		if intrinsics[n] == nil {
			intrinsics[n] = func(w *Worker, args []Value) Value {
				f := w.curFn
				if f == nil {
					return Value{}
				}
				return zeroResults(f)
			}
		}
	}
}
