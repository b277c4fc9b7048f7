package main

// Faults of the storage: file size limits, failing system calls, and processes stopped inside a save.
// Linux on amd64 or arm64.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"unsafe"

	"github.com/williamflynt/topolith/pkg/persistence"
	"github.com/williamflynt/topolith/pkg/world"
)

// errnos are what failing calls answer. Not EINTR, EAGAIN and EEXIST, which ask for another try.
var errnos = []int{int(syscall.ENOSPC), int(syscall.EIO), int(syscall.EDQUOT), int(syscall.EACCES), int(syscall.EXDEV),
	int(syscall.EROFS), int(syscall.EPERM), int(syscall.EINVAL), int(syscall.EBUSY), int(syscall.ENOTSUP), int(syscall.ENOSYS)}

var ignoreSize sync.Once

// saveLimited saves while no file can grow beyond n bytes.
func saveLimited(p persistence.Persistence, w world.World, n int) (err error) {
	ignoreSize.Do(func() { signal.Ignore(syscall.SIGXFSZ) })
	var old syscall.Rlimit
	if e := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); e != nil {
		return harnessError{e}
	}
	if e := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max}); e != nil {
		return harnessError{e}
	}
	defer func() {
		if e := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); e != nil {
			err = harnessError{e}
		}
	}()
	return p.Save(w)
}

// numbers of the system calls on each architecture
var callNumbers = map[string]map[string][]uint32{
	"amd64": {"write": {1, 18, 20, 296, 328, 40, 326}, "fsync": {74, 75, 277, 162}, "fchmod": {91, 90, 268}, "close": {3},
		"rename": {82, 264, 316}, "unlink": {87, 263}, "open": {2, 257, 437, 85}, "truncate": {76, 77}, "mkdir": {83, 258}, "link": {86, 265, 88, 266}},
	"arm64": {"write": {64, 66, 68, 70, 71, 285}, "fsync": {82, 83, 84, 81}, "fchmod": {52, 53}, "close": {57},
		"rename": {38, 276}, "unlink": {35}, "open": {56, 437}, "truncate": {45, 46}, "mkdir": {34}, "link": {36, 37}},
}

type bpf struct {
	code   uint16
	jt, jf uint8
	k      uint32
}

type bpfProg struct {
	n      uint16
	filter *bpf
}

const seccompKillProcess, seccompErrno, seccompAllow = 0x80000000, 0x00050000, 0x7fff0000

// storageCalls are the kinds of system calls that change what is stored.
var storageCalls = []string{"write", "fsync", "fchmod", "close", "rename", "unlink", "open", "truncate", "mkdir", "link"}

// onSteppedThread runs f on a thread of its own and calls at before each of its calls that would change what is
// stored under dir, with the number of the call, from 1. The call fails with the errno that at returns, if any.
func onSteppedThread(dir string, at func(n int, call string) int, f func() error) error {
	kind := map[uint32]string{}
	var nrs []uint32
	for _, c := range storageCalls {
		for _, nr := range callNumbers[runtime.GOARCH][c] {
			kind[nr] = c
			nrs = append(nrs, nr)
		}
	}
	if len(nrs) == 0 {
		return harnessError{fmt.Errorf("no system call numbers for %s", runtime.GOARCH)}
	}
	done := make(chan error)
	go func() {
		runtime.LockOSThread() // never unlocked: the thread is thrown away
		fd, err := installListener(nrs)
		if err != nil {
			done <- harnessError{err}
			return
		}
		go supervise(fd, dir, kind, at)
		func() {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("panic: %v", r)
				}
			}()
			err = f()
		}()
		done <- err
	}()
	return <-done
}

// installListener stops this thread at each of the given system calls until the listener has answered.
func installListener(nrs []uint32) (int, error) {
	var f []bpf
	f = append(f, bpf{0x20, 0, 0, 0})
	for i, nr := range nrs {
		f = append(f, bpf{0x15, uint8(len(nrs) - i), 0, nr})
	}
	f = append(f, bpf{0x06, 0, 0, seccompAllow}, bpf{0x06, 0, 0, 0x7fc00000})
	prog := bpfProg{uint16(len(f)), &f[0]}
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 38, 1, 0, 0, 0, 0); e != 0 {
		return 0, e
	}
	nr := map[string]uintptr{"amd64": 317, "arm64": 277}[runtime.GOARCH]
	fd, _, e := syscall.RawSyscall(nr, 1, 8, uintptr(unsafe.Pointer(&prog))) // set a filter, with a listener
	if e != 0 {
		return 0, e
	}
	runtime.KeepAlive(f)
	return int(fd), nil
}

type notification struct {
	id         uint64
	pid, flags uint32
	nr         int32
	arch       uint32
	ip         uint64
	args       [6]uint64
}

type notificationAnswer struct {
	id    uint64
	val   int64
	errno int32
	flags uint32
}

// supervise answers the calls of a stepped thread until that thread is gone.
func supervise(fd int, dir string, kind map[uint32]string, at func(int, string) int) {
	defer syscall.Close(fd)
	count := 0
	for {
		p := struct {
			fd              int32
			events, revents int16
		}{int32(fd), 1, 0}
		_, _, e := syscall.Syscall6(ppoll, uintptr(unsafe.Pointer(&p)), 1, 0, 0, 0, 0)
		if e == syscall.EINTR {
			continue
		}
		if e != 0 || p.revents&1 == 0 {
			return
		}
		var n notification
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), 0xc0502100, uintptr(unsafe.Pointer(&n))); e != 0 {
			if e == syscall.EINTR || e == syscall.ENOENT {
				continue
			}
			return
		}
		a := notificationAnswer{id: n.id, flags: 1} // go on with the call
		call := kind[uint32(n.nr)]
		if concerns(call, &n, dir) {
			count++
			if errno := at(count, call); errno != 0 {
				if call == "close" {
					syscall.Close(int(n.args[0])) // a close that fails closes all the same
				}
				a.flags, a.errno = 0, -int32(errno)
			}
		}
		syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), 0xc0182101, uintptr(unsafe.Pointer(&a)))
	}
}

const ppoll = uintptr(syscall.SYS_PPOLL)

// concerns tells whether a call is about a file under dir.
func concerns(call string, n *notification, dir string) bool {
	switch call {
	case "rename", "unlink", "mkdir", "link":
		return true
	case "open":
		flags := n.args[2]
		if runtime.GOARCH == "amd64" && (n.nr == 2 || n.nr == 85) {
			flags = n.args[1]
			if n.nr == 85 {
				return true
			}
		}
		if n.nr == 437 {
			return true
		}
		return flags&uint64(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC) != 0
	case "fchmod", "truncate":
		if n.args[0] > 1<<20 {
			return true // a path, or the working directory
		}
	}
	path, err := os.Readlink(fmt.Sprintf("/proc/self/fd/%d", int32(n.args[0])))
	return err == nil && strings.HasPrefix(path, dir)
}

var stepOnce sync.Once
var stepOK bool

// stepWorks tells whether calls can be stepped here.
func stepWorks() bool {
	stepOnce.Do(func() {
		dir, err := os.MkdirTemp("", "topolith-verif-")
		if err != nil {
			panic(harnessError{err})
		}
		defer os.RemoveAll(dir)
		seen := 0
		err = onSteppedThread(dir, func(n int, call string) int {
			seen++
			if call == "write" {
				return int(syscall.EIO)
			}
			return 0
		}, func() error { return os.WriteFile(dir+"/x", []byte("x"), 0o644) })
		_, isHarness := err.(harnessError)
		stepOK = err != nil && !isHarness && seen >= 2
	})
	return stepOK
}

// saveStepped saves while the calls on the storage for which fails is true fail with the errno. It tells how many
// calls there were.
func saveStepped(p persistence.Persistence, w world.World, dir string, errno int, fails func(n int) bool) (int, error) {
	var calls atomic.Int64
	err := onSteppedThread(dir, func(n int, call string) int {
		calls.Store(int64(n))
		if fails(n) {
			return errno
		}
		return 0
	}, func() error { return p.Save(w) })
	return int(calls.Load()), err
}

// install makes some system calls of this thread answer with the given action, for good. Writes to the
// standard streams stay as they are.
func install(call string, action uint32) error {
	nrs := callNumbers[runtime.GOARCH][call]
	if len(nrs) == 0 {
		return fmt.Errorf("no numbers for %s on %s", call, runtime.GOARCH)
	}
	var f []bpf
	f = append(f, bpf{0x20, 0, 0, 0}) // load the number
	for i, nr := range nrs {
		f = append(f, bpf{0x15, uint8(len(nrs) - i), 0, nr}) // equal: to the action
	}
	f = append(f, bpf{0x06, 0, 0, seccompAllow})
	if call == "write" {
		f = append(f, bpf{0x20, 0, 0, 16}, // low half of the first argument
			bpf{0x25, 1, 0, 2}, // above 2: on to the action
			bpf{0x06, 0, 0, seccompAllow})
	}
	f = append(f, bpf{0x06, 0, 0, action})
	prog := bpfProg{uint16(len(f)), &f[0]}
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 38, 1, 0, 0, 0, 0); e != 0 { // no new privileges
		return e
	}
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 22, 2, uintptr(unsafe.Pointer(&prog)), 0, 0, 0); e != 0 { // filter
		return e
	}
	runtime.KeepAlive(f)
	return nil
}

// onFilteredThread runs f on a thread of its own whose system calls are filtered; the thread ends with it.
func onFilteredThread(call string, action uint32, f func() error) error {
	done := make(chan error)
	go func() {
		runtime.LockOSThread() // never unlocked: the thread is thrown away
		if err := install(call, action); err != nil {
			done <- harnessError{err}
			return
		}
		var err error
		func() {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("panic: %v", r)
				}
			}()
			err = f()
		}()
		done <- err
	}()
	return <-done
}

var seccompOnce sync.Once
var seccompOK bool

func seccompWorks() bool {
	seccompOnce.Do(func() {
		err := onFilteredThread("fsync", seccompErrno|uint32(syscall.EIO), func() error {
			f, err := os.CreateTemp("", "topolith-verif-")
			if err != nil {
				return harnessError{err}
			}
			defer os.Remove(f.Name())
			defer f.Close()
			return f.Sync()
		})
		_, isHarness := err.(harnessError)
		seccompOK = err != nil && !isHarness
	})
	return seccompOK
}

func saveFaulty(p persistence.Persistence, w world.World, f Fault) error {
	return onFilteredThread(f.K, seccompErrno|uint32(f.N), func() error { return p.Save(w) })
}

type childCase struct {
	Dir, Name string
	Ops       []Op
	Expanded  string
	Fault     string
	N         int
}

// child saves a world and is stopped on the way.
func child(args []string) {
	if len(args) > 0 && args[0] == "lanes" {
		childLanes()
	}
	var c childCase
	if err := json.NewDecoder(os.Stdin).Decode(&c); err != nil {
		fmt.Println("machinery:", err)
		os.Exit(3)
	}
	w := build(c.Name, c.Ops)
	w.SetName(c.Name)
	w.SetExpanded(c.Expanded)
	p := persistence.NewFilePersistence()
	p.SetSourcePath(c.Dir)
	call := strings.TrimPrefix(c.Fault, "crash-")
	runtime.GC()
	fmt.Println("saving")
	var err error
	if call == "size" {
		// Crossing the limit raises a signal, which ends the process by default.
		lim := syscall.Rlimit{Cur: uint64(c.N), Max: uint64(c.N)}
		if e := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); e != nil {
			fmt.Println("machinery:", e)
			os.Exit(3)
		}
		err = p.Save(w)
	} else if call == "step" {
		err = onSteppedThread(c.Dir, func(n int, call string) int {
			if n == c.N {
				syscall.Kill(os.Getpid(), syscall.SIGKILL)
				select {}
			}
			return 0
		}, func() error { return p.Save(w) })
		if h, ok := err.(harnessError); ok {
			fmt.Println("no seccomp:", h)
			os.Exit(4)
		}
	} else {
		err = onFilteredThread(call, seccompKillProcess, func() error { return p.Save(w) })
		if h, ok := err.(harnessError); ok {
			fmt.Println("no seccomp:", h)
			os.Exit(4)
		}
	}
	if err != nil {
		fmt.Println("failed")
	} else {
		fmt.Println("saved")
	}
	os.Exit(0)
}
