package mc

import (
	"encoding/binary"
	"os"
	"syscall"
)

// journal is a small shared file that always holds the choices of the
// execution a worker is in, readable by the master also after the worker
// died.
type journal struct {
	b []byte
}

const journalSize = 1 << 16

func openJournal(path string) (*journal, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(journalSize); err != nil {
		return nil, err
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, journalSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &journal{b}, nil
}

// layout: 0..8 heartbeat, 8..12 number of choices, 12..16 started flag, then int16 pairs (choice, alternatives)
func (j *journal) begin() {
	binary.LittleEndian.PutUint64(j.b, binary.LittleEndian.Uint64(j.b)+1)
	binary.LittleEndian.PutUint32(j.b[8:], 0)
	binary.LittleEndian.PutUint32(j.b[12:], 0)
}

func (j *journal) started() {
	binary.LittleEndian.PutUint32(j.b[12:], 1)
}

func (j *journal) put(i int, c, n int32) {
	off := 16 + 4*i
	if off+4 > len(j.b) {
		return
	}
	binary.LittleEndian.PutUint16(j.b[off:], uint16(c))
	binary.LittleEndian.PutUint16(j.b[off+2:], uint16(n))
	binary.LittleEndian.PutUint32(j.b[8:], uint32(i+1))
}

func (j *journal) beat() uint64 { return binary.LittleEndian.Uint64(j.b) }

func (j *journal) isStarted() bool { return binary.LittleEndian.Uint32(j.b[12:]) == 1 }

func (j *journal) seq() []choice {
	n := int(binary.LittleEndian.Uint32(j.b[8:]))
	s := make([]choice, 0, n)
	for i := 0; i < n && 20+4*i <= len(j.b); i++ {
		s = append(s, choice{
			int32(binary.LittleEndian.Uint16(j.b[16+4*i:])),
			int32(binary.LittleEndian.Uint16(j.b[18+4*i:]))})
	}
	return s
}
