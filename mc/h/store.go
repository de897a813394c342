package h

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sync"

	"github.com/gostor/gotgt/pkg/api"
	"github.com/gostor/gotgt/pkg/scsi"
)

// StoreOp is one call the SCSI layer made on a backing store.
type StoreOp struct {
	Kind string // read write sync advise unmap
	Off  int64
	Len  int64
	Data []byte
	Err  bool
}

// Mem is a backing store the harness owns: bytes in memory, a log of all calls, and faults on demand.
type Mem struct {
	mu    sync.Mutex
	Name  string
	Data  []byte
	Log   []StoreOp
	Keep  bool // record Log
	Fault func(op StoreOp) FaultKind
	// OnOp is called without the lock before an operation takes effect (a scheduling point).
	OnOp func(kind string)
	Lu   *api.SCSILu
	OOB  []string // accesses outside the medium
	// Sparse, when not nil, holds the medium in 4096-byte pages (Data is unused) and Bytes is its size.
	Sparse map[int64][]byte
	Bytes  int64
}

func (m *Mem) size() int64 {
	if m.Sparse != nil {
		return m.Bytes
	}
	return int64(len(m.Data))
}

func (m *Mem) get(off, n int64) []byte {
	if m.Sparse == nil {
		return append([]byte{}, m.Data[off:off+n]...)
	}
	b := make([]byte, n)
	for i := int64(0); i < n; {
		p, o := (off+i)>>12, (off+i)&4095
		l := min(4096-o, n-i)
		if pg := m.Sparse[p]; pg != nil {
			copy(b[i:i+l], pg[o:])
		}
		i += l
	}
	return b
}

func (m *Mem) put(b []byte, off int64) {
	if m.Sparse == nil {
		copy(m.Data[off:], b)
		return
	}
	for i := int64(0); i < int64(len(b)); {
		p, o := (off+i)>>12, (off+i)&4095
		l := min(4096-o, int64(len(b))-i)
		if m.Sparse[p] == nil {
			m.Sparse[p] = make([]byte, 4096)
		}
		copy(m.Sparse[p][o:], b[i:i+l])
		i += l
	}
}

type FaultKind int

const (
	FaultNone FaultKind = iota
	FaultErr
	FaultEOF
	FaultShort // remote store only: a short count without an error
)

var (
	storesMu sync.Mutex
	stores   = map[string]*Mem{}
)

func init() {
	scsi.RegisterBackingStore("vmem", func() (api.BackingStore, error) { return &vmem{}, nil })
}

func NewMem(name string, size int) *Mem {
	m := &Mem{Name: name, Data: make([]byte, size)}
	storesMu.Lock()
	stores[name] = m
	storesMu.Unlock()
	return m
}

func (m *Mem) Drop() {
	storesMu.Lock()
	delete(stores, m.Name)
	storesMu.Unlock()
}

var ErrInjected = errors.New("injected I/O error")

func (m *Mem) op(o StoreOp) error {
	if m.OnOp != nil {
		m.OnOp(o.Kind)
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	var err error
	if m.Fault != nil {
		switch m.Fault(o) {
		case FaultErr:
			err = ErrInjected
		case FaultEOF:
			err = io.EOF
		}
	}
	o.Err = err != nil
	if m.Keep {
		if o.Data != nil {
			o.Data = append([]byte{}, o.Data...)
		}
		m.Log = append(m.Log, o)
	}
	return err
}

func (m *Mem) ReadOp(off, n int64) ([]byte, error) {
	if err := m.op(StoreOp{Kind: "read", Off: off, Len: n}); err != nil {
		return nil, err
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if off < 0 || n < 0 || off+n < 0 || off+n > m.size() {
		m.OOB = append(m.OOB, fmt.Sprintf("read [%d,%d) of %d", off, off+n, m.size()))
		return nil, io.EOF
	}
	return m.get(off, n), nil
}

func (m *Mem) WriteOp(b []byte, off int64) error {
	if err := m.op(StoreOp{Kind: "write", Off: off, Len: int64(len(b)), Data: b}); err != nil {
		return err
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if off < 0 || off+int64(len(b)) < 0 || off+int64(len(b)) > m.size() {
		m.OOB = append(m.OOB, fmt.Sprintf("write [%d,%d) of %d", off, off+int64(len(b)), m.size()))
		return errors.New("write outside the medium")
	}
	m.put(b, off)
	return nil
}

func (m *Mem) inside(kind string, off, n int64) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if off < 0 || n < 0 || off+n < 0 || off+n > m.size() {
		m.OOB = append(m.OOB, fmt.Sprintf("%s [%d,%d) of %d", kind, off, off+n, m.size()))
	}
}
func (m *Mem) SyncOp(off, n int64) error {
	m.inside("sync", off, n)
	return m.op(StoreOp{Kind: "sync", Off: off, Len: n})
}
func (m *Mem) AdviseOp(off, n int64) error {
	m.inside("advise", off, n)
	return m.op(StoreOp{Kind: "advise", Off: off, Len: n})
}
func (m *Mem) UnmapOp(off, n int64) error {
	if err := m.op(StoreOp{Kind: "unmap", Off: off, Len: n}); err != nil {
		return err
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if off < 0 || n < 0 || off+n < 0 || off+n > m.size() {
		m.OOB = append(m.OOB, fmt.Sprintf("unmap [%d,%d) of %d", off, off+n, m.size()))
		return nil
	}
	if m.Sparse == nil || n < 1<<20 {
		m.put(make([]byte, n), off)
	}
	return nil
}

func (m *Mem) Snapshot() []byte {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]byte{}, m.Data...)
}

// Touched returns a copy of the non-zero pages of a sparse medium.
func (m *Mem) Touched() map[int64][]byte {
	m.mu.Lock()
	defer m.mu.Unlock()
	r := map[int64][]byte{}
	for p, b := range m.Sparse {
		for _, x := range b {
			if x != 0 {
				r[p] = append([]byte{}, b...)
				break
			}
		}
	}
	return r
}

// Reset clears a sparse medium.
func (m *Mem) Reset() {
	m.mu.Lock()
	m.Sparse = map[int64][]byte{}
	m.mu.Unlock()
}

func (m *Mem) Equal(b []byte) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return bytes.Equal(m.Data, b)
}

func (m *Mem) Ops() []StoreOp {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]StoreOp{}, m.Log...)
}

// vmem is Mem as an api.BackingStore.
type vmem struct{ m *Mem }

func (v *vmem) Open(dev *api.SCSILu, path string) error {
	storesMu.Lock()
	defer storesMu.Unlock()
	v.m = stores[path]
	if v.m == nil {
		return fmt.Errorf("no store %q", path)
	}
	v.m.Lu = dev
	return nil
}
func (v *vmem) Close(dev *api.SCSILu) error               { return nil }
func (v *vmem) Init(dev *api.SCSILu, o string) error      { return nil }
func (v *vmem) Exit(dev *api.SCSILu) error                { return nil }
func (v *vmem) Size(dev *api.SCSILu) uint64               { return uint64(v.m.size()) }
func (v *vmem) Read(off, n int64) ([]byte, error)         { return v.m.ReadOp(off, n) }
func (v *vmem) Write(b []byte, off int64) error           { return v.m.WriteOp(b, off) }
func (v *vmem) DataSync(off, n int64) error               { return v.m.SyncOp(off, n) }
func (v *vmem) DataAdvise(off, n int64, adv uint32) error { return v.m.AdviseOp(off, n) }
func (v *vmem) Unmap(bd []api.UnmapBlockDescriptor) error {
	for _, d := range bd {
		if err := v.m.UnmapOp(int64(d.Offset), int64(d.TL)); err != nil {
			return err
		}
	}
	return nil
}

// RemoteStore is Mem as the library user's api.RemoteBackingStore.
type RemoteStore struct {
	M     *Mem
	Short func(kind string, n int) int // how many bytes to claim; nil: all
}

func (r *RemoteStore) ReadAt(b []byte, off int64) (int, error) {
	d, err := r.M.ReadOp(off, int64(len(b)))
	if err != nil {
		return 0, err
	}
	n := len(b)
	if r.Short != nil {
		n = r.Short("read", n)
	}
	copy(b[:n], d)
	return n, nil
}
func (r *RemoteStore) WriteAt(b []byte, off int64) (int, error) {
	n := len(b)
	if r.Short != nil {
		n = r.Short("write", n)
	}
	if err := r.M.WriteOp(b[:n], off); err != nil {
		return 0, err
	}
	return n, nil
}
func (r *RemoteStore) Sync() (int, error)              { return 0, r.M.SyncOp(0, 0) }
func (r *RemoteStore) Unmap(off, n int64) (int, error) { return 0, r.M.UnmapOp(off, n) }

// Set replaces the content.
func (m *Mem) Set(b []byte) {
	m.mu.Lock()
	m.Data = append([]byte{}, b...)
	m.mu.Unlock()
}
