package shim

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// Order is how loops over maps walk them: 0 by key, 1 in reverse, n>1 rotated by n-1.
var Order int

// Entry is one step of a loop over a map.
type Entry[M ~map[K]V, K comparable, V any] struct {
	m M
	k K
}

func (e Entry[M, K, V]) Key() K     { return e.k }
func (e Entry[M, K, V]) Val() V     { return e.m[e.k] }
func (e Entry[M, K, V]) Live() bool { _, ok := e.m[e.k]; return ok }

// Entries lists a map in the order of the harness.
func Entries[M ~map[K]V, K comparable, V any](m M) []Entry[M, K, V] {
	type ent struct {
		s string
		e Entry[M, K, V]
	}
	var l []ent
	for k := range m {
		s := ""
		switch x := reflect.ValueOf(k); x.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			s = fmt.Sprintf("%020d", x.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			s = fmt.Sprintf("%020d", x.Uint())
		case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
			s = fmt.Sprintf("%016x", x.Pointer())
		default:
			s = fmt.Sprint(k)
		}
		l = append(l, ent{s, Entry[M, K, V]{m, k}})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].s < l[j].s })
	out := make([]Entry[M, K, V], len(l))
	for i := range l {
		j := i
		if Order == 1 {
			j = len(l) - 1 - i
		} else if Order > 1 {
			j = (i + Order - 1) % len(l)
		}
		out[i] = l[j].e
	}
	return out
}

// R and W announce a read or write access to a map and return it.
func R[M ~map[K]V, K comparable, V any](m M, pos string) M {
	access2(reflect.ValueOf(m).Pointer(), m, m == nil, false, pos)
	return m
}

func W[M ~map[K]V, K comparable, V any](m M, pos string) M {
	access2(reflect.ValueOf(m).Pointer(), m, m == nil, true, pos)
	return m
}

// P and PT are the value of an assignment to something shared, with a scheduling point before the store.
func P[T any](v T, pos string) T {
	Point("set "+pos, nil)
	return v
}

func PT[T any](_ *T, v T) T {
	Point("set", nil)
	return v
}

func access2(p uintptr, m any, isNil, write bool, pos string) {
	w := cur.Load()
	if w == nil || w.Ctl == nil || isNil {
		return
	}
	if write {
		Point("mapw "+pos, nil)
	} else if w.Ctl.written(p) {
		Point("mapr "+pos, nil)
	}
	w.Ctl.mapAccess(p, m, write, pos)
}

// RF and WF announce a read or write access to a variable or field and return its address.
func RF[T any](p *T, pos string) *T {
	access3(p, false, pos)
	return p
}

func WF[T any](p *T, pos string) *T {
	access3(p, true, pos)
	return p
}

func access3[T any](p *T, write bool, pos string) {
	if w := cur.Load(); w != nil && w.Ctl != nil && p != nil && unsafe.Sizeof(*p) != 0 {
		w.Ctl.mapAccess(uintptr(unsafe.Pointer(p)), p, write, pos)
	}
}

// RE and WE announce an access to an element of a slice, WP one that changes what a pointer points to.
func RE[S ~[]E, E any](s S, pos string) S {
	if len(s) > 0 {
		access3(unsafe.SliceData(s), false, pos)
	}
	return s
}

func WE[S ~[]E, E any](s S, pos string) S {
	if len(s) > 0 {
		access3(unsafe.SliceData(s), true, pos)
	}
	return s
}

func RP[T any](p *T, pos string) *T {
	access3(p, false, pos)
	return p
}

func WP[T any](p *T, pos string) *T {
	access3(p, true, pos)
	return p
}
