//go:build go1.21

package mclib

import (
	"encoding/binary"
	"os"
	"syscall"
)

// shm is a memory mapped file holding the choices of the execution in progress,
// so that the coordinator knows which one it was when a worker process dies.
type shm struct {
	b []byte
	n int
}

const shmSize = 1 << 16

func openShm(path string, create bool) *shm {
	flags := os.O_RDWR
	if create {
		flags |= os.O_CREATE | os.O_TRUNC
	}
	f, err := os.OpenFile(path, flags, 0o600)
	if err != nil {
		fatalf("shm: %v", err)
	}
	defer f.Close()
	if create {
		if err := f.Truncate(shmSize); err != nil {
			fatalf("shm: %v", err)
		}
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, shmSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fatalf("shm: %v", err)
	}
	return &shm{b: b}
}

func (s *shm) setSpace(i int) { binary.LittleEndian.PutUint32(s.b[0:], uint32(i)) }

func (s *shm) reset() {
	s.n = 0
	binary.LittleEndian.PutUint32(s.b[4:], 0)
	binary.LittleEndian.PutUint64(s.b[8:], binary.LittleEndian.Uint64(s.b[8:])+1)
}

func (s *shm) push(c int) {
	off := 16 + s.n*4
	if off+4 > len(s.b) {
		fatalf("too many choices in one execution")
	}
	binary.LittleEndian.PutUint32(s.b[off:], uint32(c))
	s.n++
	binary.LittleEndian.PutUint32(s.b[4:], uint32(s.n))
}

func (s *shm) execs() uint64 { return binary.LittleEndian.Uint64(s.b[8:]) }

func (s *shm) read() (space int, choices []int) {
	space = int(binary.LittleEndian.Uint32(s.b[0:]))
	n := int(binary.LittleEndian.Uint32(s.b[4:]))
	for i := 0; i < n; i++ {
		choices = append(choices, int(binary.LittleEndian.Uint32(s.b[16+i*4:])))
	}
	return
}
