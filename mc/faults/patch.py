#!/usr/bin/env python3
"""patch.py GOROOT SCRATCH OUT: makes an overlay of package syscall which lets
the calls that change files fail as told by the environment:

VERIF_FAULT_DIR    files below are watched
VERIF_FAULT_STD    watch the standard streams, too
VERIF_FAULT_AT     number of the watched call that fails (from 1)
VERIF_FAULT_ERRNO  with this error
VERIF_FAULT_MODE   once | on (this and all later ones) | short (a write is cut
                   in half and the next one fails)
VERIF_FAULT_SIGNAL instead of failing the process gets this signal before the
                   call, and is given VERIF_FAULT_WAIT milliseconds to act on it
VERIF_FAULT_LIMIT  bytes that can be written before ENOSPC
VERIF_FAULT_LOG    file descriptor the watched calls are listed on
"""
import json, os, re, sys
goroot, scratch, out = sys.argv[1:4]
f = os.path.join(goroot, 'src/syscall/zsyscall_linux_amd64.go')
s = open(f).read()
def hook(sig, code):
    global s
    assert s.count(sig) == 1, sig
    s = s.replace(sig, sig + '\n' + code)
hook('func write(fd int, p []byte) (n int, err error) {', '''	if n, err, done := verifWrite(fd, p); done {
		return n, err
	}''')
hook('func pwrite(fd int, p []byte, offset int64) (n int, err error) {', '''	if verifFd(fd) {
		if err := verifEvent("pwrite", ""); err != 0 {
			return -1, err
		}
	}''')
s = re.sub(r'func openat\((.*?)\) \(fd int, err error\) \{', r'''func openat(\1) (fd int, err error) {
	if flags&(O_WRONLY|O_RDWR|O_CREAT|O_TRUNC) != 0 && verifPath(path) {
		if err := verifEvent("open", path); err != 0 {
			return -1, err
		}
		defer func() {
			if err == nil && fd < len(verifFds) {
				verifFds[fd] = true
			}
		}()
	}''', s)
for name in ['unlinkat', 'Mkdirat', 'Truncate', 'fchmodat']:
    sig = re.search(r'func %s\(.*?\) \(err error\) \{' % name, s).group(0)
    hook(sig, '''	if verifPath(path) {
		if err := verifEvent("%s", path); err != 0 {
			return err
		}
	}''' % name)
for name, p in [('Renameat', 'newpath'), ('linkat', 'newpath'), ('symlinkat', 'newpath')]:
    sig = re.search(r'func %s\(.*?\) \(err error\) \{' % name, s).group(0)
    hook(sig, '''	if verifPath(%s) {
		if err := verifEvent("%s", %s); err != 0 {
			return err
		}
	}''' % (p, name, p))
for name in ['Fsync', 'Fdatasync', 'Ftruncate', 'Fchmod']:
    sig = re.search(r'func %s\(.*?\) \(err error\) \{' % name, s).group(0)
    hook(sig, '''	if verifFd(fd) {
		if err := verifEvent("%s", ""); err != 0 {
			return err
		}
	}''' % name)
hook('func Close(fd int) (err error) {', '''	if fd >= 0 && fd < len(verifFds) {
		verifFds[fd] = false
	}''')
s += '''
var (
	verifFds   [1024]bool
	verifCount int
	verifLeft  = -1
	verifInit  bool
	verifCut   bool
)

func verifNum(name string) int {
	s, ok := Getenv(name)
	if !ok || s == "" {
		return -1
	}
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n
}

func verifPath(p string) bool {
	d, ok := Getenv("VERIF_FAULT_DIR")
	return ok && len(p) > len(d) && p[:len(d)] == d
}

func verifFd(fd int) bool {
	if fd < 0 || fd >= len(verifFds) {
		return false
	}
	if fd == 1 || fd == 2 {
		_, ok := Getenv("VERIF_FAULT_STD")
		return ok
	}
	return verifFds[fd]
}

func verifEvent(name, path string) Errno {
	verifCount++
	if l := verifNum("VERIF_FAULT_LOG"); l > 0 {
		b := []byte(name + " " + path + "\\n")
		Syscall(SYS_WRITE, uintptr(l), uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)))
	}
	at := verifNum("VERIF_FAULT_AT")
	mode, _ := Getenv("VERIF_FAULT_MODE")
	if sig := verifNum("VERIF_FAULT_SIGNAL"); sig > 0 {
		if verifCount == at {
			Kill(Getpid(), Signal(sig))
			ms := verifNum("VERIF_FAULT_WAIT")
			ts := NsecToTimespec(int64(ms) * 1000000)
			Syscall(SYS_NANOSLEEP, uintptr(unsafe.Pointer(&ts)), 0, 0)
		}
		return 0
	}
	if at > 0 && (verifCount == at || mode == "on" && verifCount > at) {
		return Errno(verifNum("VERIF_FAULT_ERRNO"))
	}
	return 0
}

func verifWrite(fd int, p []byte) (int, error, bool) {
	if !verifFd(fd) {
		return 0, nil, false
	}
	if !verifInit {
		verifInit = true
		verifLeft = verifNum("VERIF_FAULT_LIMIT")
	}
	mode, _ := Getenv("VERIF_FAULT_MODE")
	part := -1
	if mode == "short" && len(p) > 1 && verifCount+1 == verifNum("VERIF_FAULT_AT") {
		verifCount++
		verifCut = true
		part = len(p) / 2
	} else if verifCut {
		return -1, Errno(verifNum("VERIF_FAULT_ERRNO")), true
	} else if e := verifEvent("write", ""); e != 0 {
		return -1, e, true
	} else if verifLeft >= 0 && len(p) > verifLeft {
		if verifLeft == 0 {
			return -1, ENOSPC, true
		}
		part = verifLeft
	}
	if part >= 0 {
		r, _, e := Syscall(SYS_WRITE, uintptr(fd), uintptr(unsafe.Pointer(&p[0])), uintptr(part))
		if e != 0 {
			return -1, e, true
		}
		if verifLeft >= 0 {
			verifLeft -= int(r)
		}
		return int(r), nil, true
	}
	if verifLeft >= 0 {
		verifLeft -= len(p)
	}
	return 0, nil, false
}
'''
g = os.path.join(scratch, 'zsyscall_fault.go')
open(g, 'w').write(s)
json.dump({'Replace': {f: g}}, open(out, 'w'))
