package h

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"testing"
	"testing/synctest"

	"github.com/gostor/gotgt/pkg/api"
	"github.com/gostor/gotgt/pkg/config"
	"github.com/gostor/gotgt/pkg/port/iscsit"
	"github.com/gostor/gotgt/pkg/scsi"
	_ "github.com/gostor/gotgt/pkg/scsi/backingstore"
	"github.com/gostor/gotgt/pkg/scsi/backingstore/remote"
	log "github.com/sirupsen/logrus"

	"io"
	"verifmc/shim"
)

func init() {
	log.SetOutput(io.Discard)
	log.SetLevel(log.PanicLevel)
}

// LUN describes one logical unit of a target.
type LUN struct {
	LUN    uint64
	Kind   string // "vmem" (default), "file", "RemBs"
	Blocks int
	Sparse bool // vmem only: Blocks may be huge
	Extra  int  // bytes beyond the last whole block
	Shift  uint // 0: default
	Thin   bool
	Online bool
	Off    bool   // configured offline
	Dev    uint64 // device id, 0: assigned
}

// Target describes one target.
type Target struct {
	Name    string              // suffix; "" -> t<index>
	Portals map[uint16][]string // tpgt -> portals; nil: {1: 127.0.0.1:3260}
	LUNs    []LUN
}

type Cfg struct {
	Targets []Target
	Stats   bool
	Block   bool   // block multiple host login
	Cluster string // cluster IP
	Ctl     bool   // attach a scheduler
	NoRun   bool
	Single  bool // the service the daemon uses
	Order   int  // order in which maps are walked: 0 DefaultOrder, else shim.Order+1
}

// DefaultOrder is the map order of worlds that do not name one.
var DefaultOrder int

// Simple is a world with one target, one portal and the given LUNs.
func Simple(luns ...LUN) Cfg { return Cfg{Targets: []Target{{LUNs: luns}}} }

// World is one system under test.
type World struct {
	S      *shim.World
	Svc    *scsi.SCSITargetService
	Drv    scsi.SCSITargetDriver
	Names  []string
	Conf   *config.Config
	Stores map[string]*Mem // "t/lun"
	Dir    string
	RunErr error
	ran    bool
	devs   []uint64
	Remote map[string]*RemoteStore
	lus    map[string]LUN
}

var worldSeq uint64

// Bubble runs f in a fresh synctest bubble.
func Bubble(t *testing.T, f func()) {
	synctest.Test(t, func(t *testing.T) { f() })
}

// Settle waits until no goroutine of the world can do anything any more.
func Settle() { synctest.Wait() }

func LKey(t int, lun uint64) string { return strconv.Itoa(t) + "/" + strconv.FormatUint(lun, 10) }

const Portal = "127.0.0.1:3260"

// NewWorld builds the system through its exported configuration interface and starts it. Call in a bubble.
func NewWorld(c Cfg) *World {
	worldSeq++
	w := &World{S: shim.NewWorld(), Stores: map[string]*Mem{}, Remote: map[string]*RemoteStore{}, lus: map[string]LUN{}}
	resetGlobals()
	shim.Order = DefaultOrder
	if c.Order > 0 {
		shim.Order = c.Order - 1
	}
	if c.Ctl {
		w.S.NewController()
	}
	w.Svc = &scsi.SCSITargetService{Targets: []*api.SCSITarget{}}
	if c.Single {
		w.Svc = scsi.NewSCSITargetService()
		w.Svc.Targets = []*api.SCSITarget{}
	}
	iscsit.EnableStats = c.Stats
	w.Conf = &config.Config{ISCSITargets: map[string]config.ISCSITarget{}}
	pid := uint64(0)
	for ti := range c.Targets {
		tg := &c.Targets[ti]
		name := tg.Name
		if name == "" {
			name = fmt.Sprintf("t%d", ti)
		}
		full := fmt.Sprintf("iqn.2016-09.com.verif:w%d.%s", worldSeq, name)
		w.Names = append(w.Names, full)
		ct := config.ISCSITarget{TPGTs: map[string][]uint64{}, LUNs: map[string]uint64{}}
		ports := tg.Portals
		if ports == nil {
			ports = map[uint16][]string{1: {Portal}}
		}
		for tag := 0; tag < 65536; tag++ {
			ps, ok := ports[uint16(tag)]
			if !ok {
				if tag > 4096 {
					break
				}
				continue
			}
			var ids []uint64
			for _, p := range ps {
				w.Conf.ISCSIPortals = append(w.Conf.ISCSIPortals, config.ISCSIPortalInfo{ID: uint16(pid), Portal: p})
				ids = append(ids, pid)
				pid++
			}
			ct.TPGTs[strconv.Itoa(tag)] = ids
		}
		for _, l := range tg.LUNs {
			w.addLUN(ti, full, l, &ct)
		}
		w.Conf.ISCSITargets[full] = ct
	}
	if err := scsi.InitSCSILUMap(w.Conf); err != nil {
		panic(fmt.Sprintf("harness: InitSCSILUMap: %v", err))
	}
	d, err := scsi.NewTargetDriver("iscsi", w.Svc)
	if err != nil {
		panic(err)
	}
	w.Drv = d
	for _, n := range w.Names {
		if err := d.NewTarget(n, w.Conf); err != nil {
			panic(err)
		}
	}
	if c.Cluster != "" {
		d.SetClusterIP(c.Cluster)
	}
	if c.Block {
		d.EnableBlockMultipleHostLogin()
	}
	if !c.NoRun {
		w.Start()
	}
	return w
}

func (w *World) Start() {
	t := shim.PreGo()
	go func() {
		defer shim.Exit(shim.Enter(t))
		w.RunErr = w.Drv.Run(3260)
		w.ran = true
	}()
	Settle()
}

func (w *World) Returned() bool { return w.ran }

var devSeq uint64 = 1000

func (w *World) addLUN(ti int, full string, l LUN, ct *config.ISCSITarget) {
	shift := l.Shift
	sh := shift
	if sh == 0 {
		sh = 9
	}
	if l.Blocks == 0 {
		l.Blocks = 8
	}
	size := l.Blocks<<sh + l.Extra
	dev := l.Dev
	if dev == 0 {
		devSeq++
		dev = devSeq
	}
	key := LKey(ti, l.LUN)
	id := fmt.Sprintf("w%d/%s", worldSeq, key)
	w.lus[key] = l
	var path string
	switch l.Kind {
	case "", "vmem":
		var m *Mem
		if l.Sparse {
			m = NewMem(id, 0)
			m.Sparse, m.Bytes = map[int64][]byte{}, int64(size)
		} else {
			m = NewMem(id, size)
		}
		w.Stores[key] = m
		path = "vmem:" + id
	case "file":
		if w.Dir == "" {
			d, err := os.MkdirTemp(ScratchDir(), "w")
			if err != nil {
				panic(err)
			}
			w.Dir = d
		}
		f := filepath.Join(w.Dir, fmt.Sprintf("d%d.img", dev))
		if err := os.WriteFile(f, make([]byte, size), 0o600); err != nil {
			panic(err)
		}
		path = "file:" + f
	case "RemBs":
		m := NewMem(id, size)
		w.Stores[key] = m
		r := &RemoteStore{M: m}
		w.Remote[key] = r
		remote.Size = uint64(size)
		w.devs = append(w.devs, dev)
		err := scsi.InitSCSILUMapEx(&config.BackendStorage{DeviceID: dev, Path: "RemBs:" + full, Online: !l.Off, ThinProvisioning: l.Thin, BlockShift: shift}, full, l.LUN, r)
		if err != nil {
			panic(err)
		}
		return
	}
	known := false
	for _, d := range w.devs {
		known = known || d == dev
	}
	if !known {
		w.devs = append(w.devs, dev)
		w.Conf.Storages = append(w.Conf.Storages, config.BackendStorage{DeviceID: dev, Path: path, Online: !l.Off, ThinProvisioning: l.Thin, BlockShift: shift})
	}
	ct.LUNs[strconv.FormatUint(l.LUN, 10)] = dev
}

// FileOf is the backing file of a "file" LUN.
func (w *World) FileOf(ti int, lun uint64) string {
	dev := w.Conf.ISCSITargets[w.Names[ti]].LUNs[strconv.FormatUint(lun, 10)]
	return filepath.Join(w.Dir, fmt.Sprintf("d%d.img", dev))
}

// Medium returns the current bytes of a LUN's medium, whatever its store.
func (w *World) Medium(ti int, lun uint64) []byte {
	if m := w.Stores[LKey(ti, lun)]; m != nil {
		return m.Snapshot()
	}
	b, err := os.ReadFile(w.FileOf(ti, lun))
	if err != nil {
		panic(err)
	}
	return b
}

func (w *World) SetMedium(ti int, lun uint64, b []byte) {
	if m := w.Stores[LKey(ti, lun)]; m != nil {
		m.mu.Lock()
		m.Data = append([]byte{}, b...)
		m.mu.Unlock()
		return
	}
	if err := os.WriteFile(w.FileOf(ti, lun), b, 0o600); err != nil {
		panic(err)
	}
}

// End stops everything the world started. The bubble can end afterwards.
func (w *World) End() {
	if w.S.Ctl != nil {
		w.S.Ctl.Off()
	}
	w.S.Kill()
	Settle()
	for i, n := range w.Names {
		for l := range w.Conf.ISCSITargets[n].LUNs {
			lun, _ := strconv.ParseUint(l, 10, 64)
			scsi.DelLUNMapping(scsi.LUNMapping{TargetName: n, LUN: lun})
		}
		_ = i
	}
	for _, d := range w.devs {
		scsi.DelBackendStorage(d)
	}
	for _, m := range w.Stores {
		m.Drop()
	}
	if w.Dir != "" {
		os.RemoveAll(w.Dir)
	}
}

// ScratchDir is where file-backed media live.
func ScratchDir() string {
	if d := os.Getenv("VERIF_SCRATCH"); d != "" {
		return d
	}
	return os.TempDir()
}
