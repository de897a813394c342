package h

import (
	"strconv"

	"github.com/gostor/gotgt/pkg/api"
	"github.com/gostor/gotgt/pkg/config"
	"github.com/gostor/gotgt/pkg/port/iscsit"
	"github.com/gostor/gotgt/pkg/scsi"
	"verifmc/shim"
)

// FromConfig brings a service up from a configuration the way the daemon does. NewErr holds the targets that were
// refused; a world is returned in any case, and has to be ended.
func FromConfig(c *config.Config) (w *World, initErr error, newErr map[string]error) {
	worldSeq++
	w = &World{S: shim.NewWorld(), Stores: map[string]*Mem{}, Remote: map[string]*RemoteStore{}, lus: map[string]LUN{}}
	resetGlobals()
	shim.Order = DefaultOrder
	iscsit.EnableStats = false
	w.Svc = &scsi.SCSITargetService{Targets: []*api.SCSITarget{}}
	w.Conf = c
	for _, s := range c.Storages {
		w.devs = append(w.devs, s.DeviceID)
	}
	for n := range c.ISCSITargets {
		w.Names = append(w.Names, n)
	}
	newErr = map[string]error{}
	if initErr = scsi.InitSCSILUMap(c); initErr != nil {
		return
	}
	d, err := scsi.NewTargetDriver("iscsi", w.Svc)
	if err != nil {
		panic(err)
	}
	w.Drv = d
	for n := range c.ISCSITargets {
		if err := d.NewTarget(n, c); err != nil {
			newErr[n] = err
		}
	}
	w.Start()
	return
}

// DropConfig removes what a configuration mapped, in a way that needs no parsing to have succeeded.
func DropConfig(c *config.Config) {
	for n, t := range c.ISCSITargets {
		for l := range t.LUNs {
			lun, _ := strconv.ParseUint(l, 10, 64)
			scsi.DelLUNMapping(scsi.LUNMapping{TargetName: n, LUN: lun})
		}
	}
	for _, s := range c.Storages {
		scsi.DelBackendStorage(s.DeviceID)
	}
}
