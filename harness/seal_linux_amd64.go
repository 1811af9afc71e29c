package main

import (
	"runtime"
	"syscall"
	"unsafe"
)

type bpf struct {
	code   uint16
	jt, jf uint8
	k      uint32
}

// seal makes the kernel send SIGSYS, on which Go ends the process with the stack of
// the goroutine, when a thread of this process asks for something outside of it:
// files by name, the network, other processes.
func seal() error {
	runtime.LockOSThread()
	deny := []uint32{
		syscall.SYS_OPEN, syscall.SYS_OPENAT, 437 /* openat2 */, syscall.SYS_CREAT, syscall.SYS_STAT, syscall.SYS_LSTAT, syscall.SYS_NEWFSTATAT, 332, /* statx */
		syscall.SYS_ACCESS, syscall.SYS_FACCESSAT, 439 /* faccessat2 */, syscall.SYS_READLINK, syscall.SYS_READLINKAT,
		syscall.SYS_RENAME, syscall.SYS_RENAMEAT, 316 /* renameat2 */, syscall.SYS_MKDIR, syscall.SYS_MKDIRAT, syscall.SYS_RMDIR,
		syscall.SYS_LINK, syscall.SYS_LINKAT, syscall.SYS_UNLINK, syscall.SYS_UNLINKAT, syscall.SYS_SYMLINK, syscall.SYS_SYMLINKAT,
		syscall.SYS_CHMOD, syscall.SYS_FCHMODAT, syscall.SYS_CHOWN, syscall.SYS_LCHOWN, syscall.SYS_FCHOWNAT, syscall.SYS_TRUNCATE, syscall.SYS_MKNOD, syscall.SYS_MKNODAT,
		syscall.SYS_CHDIR, syscall.SYS_FCHDIR, 319, /* memfd_create */
		syscall.SYS_SHMGET, syscall.SYS_MQ_OPEN, syscall.SYS_INOTIFY_INIT1,
		syscall.SYS_SOCKET, syscall.SYS_SOCKETPAIR, syscall.SYS_CONNECT, syscall.SYS_BIND, syscall.SYS_SENDTO,
		syscall.SYS_EXECVE, 322 /* execveat */, syscall.SYS_FORK, syscall.SYS_VFORK,
		syscall.SYS_KILL, syscall.SYS_PTRACE, syscall.SYS_UMASK, syscall.SYS_SETRLIMIT,
	}
	const ld, jeq, jset, ret = 0x20, 0x15, 0x45, 0x06
	var p []bpf
	n := len(deny)
	// the architecture, the number, a test for each, then clone, allow, trap
	p = append(p, bpf{ld, 0, 0, 4}, bpf{jeq, 0, uint8(n + 6), 0xc000003e}, bpf{ld, 0, 0, 0})
	for i, nr := range deny {
		p = append(p, bpf{jeq, uint8(n - i + 5), 0, nr})
	}
	p = append(p,
		bpf{jeq, 0, 1, 435}, // clone3 is not there: the C library falls back to clone
		bpf{ret, 0, 0, 0x00050000 | uint32(syscall.ENOSYS)},
		bpf{jeq, 0, 2, syscall.SYS_CLONE},
		bpf{ld, 0, 0, 16},
		bpf{jset, 0, 1, syscall.CLONE_THREAD}, // a thread is fine, a process not
		bpf{ret, 0, 0, 0x7fff0000},
		bpf{ret, 0, 0, 0x00030000},
	)
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 38, 1, 0, 0, 0, 0); e != 0 {
		return e
	}
	prog := struct {
		n uint16
		p *bpf
	}{uint16(len(p)), &p[0]}
	const setFilter, allThreads = 1, 1
	if r, _, e := syscall.RawSyscall(317, setFilter, allThreads, uintptr(unsafe.Pointer(&prog))); e != 0 || r != 0 {
		if e == 0 {
			e = syscall.EAGAIN
		}
		return e
	}
	runtime.KeepAlive(p)
	return nil
}
