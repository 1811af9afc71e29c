package mon

import (
	"encoding/binary"
	"os"
	"sync/atomic"
	"syscall"
	"unsafe"
)

// Slot is a small file mapped into memory, in which a shard notes the call it is
// in: it survives the crash of the process, and shows a call that never returns.
type Slot struct {
	mem []byte
	seq *uint64
}

const slotSize = 4096

func OpenSlot(path string, create bool) (*Slot, error) {
	flags := os.O_RDWR
	if create {
		flags |= os.O_CREATE
	}
	f, err := os.OpenFile(path, flags, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(slotSize); err != nil {
		return nil, err
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &Slot{m, (*uint64)(unsafe.Pointer(&m[0]))}, nil
}

func put(b []byte, s string) {
	if len(s) > len(b)-1 {
		s = s[:len(b)-1]
	}
	b[0] = byte(len(s))
	copy(b[1:], s)
}

func get(b []byte) string { return string(b[1 : 1+int(b[0])]) }

// Enter notes that a call begins; the sequence number is odd during a call.
func (s *Slot) Enter(stage string, index int, api string) {
	binary.LittleEndian.PutUint64(s.mem[8:], uint64(index))
	put(s.mem[64:128], stage)
	put(s.mem[128:256], api)
	atomic.StoreUint64(s.seq, atomic.LoadUint64(s.seq)|1)
}

func (s *Slot) Leave() { atomic.StoreUint64(s.seq, (atomic.LoadUint64(s.seq)|1)+1) }

// Case notes which case the shard is at, outside of calls.
func (s *Slot) Case(stage string, index int) {
	binary.LittleEndian.PutUint64(s.mem[8:], uint64(index))
	put(s.mem[64:128], stage)
}

func (s *Slot) Read() (seq uint64, stage string, index int, api string) {
	return atomic.LoadUint64(s.seq), get(s.mem[64:128]), int(binary.LittleEndian.Uint64(s.mem[8:])), get(s.mem[128:256])
}
