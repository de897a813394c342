package h

import "github.com/gostor/gotgt/pkg/port/iscsit"

// resetGlobals brings exported package state back to its initial value between worlds.
func resetGlobals() {
	iscsit.CurrentHostIP = ""
}
