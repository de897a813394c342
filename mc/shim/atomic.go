package shim

// AtomicR and AtomicW announce an atomic load, and an atomic operation which may store.
func AtomicR[T any](p *T) { atomicOp(p, false) }
func AtomicW[T any](p *T) { atomicOp(p, true) }

func atomicOp[T any](p *T, write bool) {
	w := cur.Load()
	if w == nil || w.Ctl == nil {
		return
	}
	if write {
		Point("atomic", nil)
	}
	w.Ctl.atomic(p, write)
}

// atomic orders the operation after the stores to the same address so far.
func (c *Controller) atomic(p any, write bool) {
	c.mu.Lock()
	if c.atoms == nil {
		c.atoms = map[any]VC{}
	}
	v := c.atoms[p]
	c.mu.Unlock()
	c.acquire(v)
	if write {
		v = c.release(v)
		c.mu.Lock()
		c.atoms[p] = v
		c.mu.Unlock()
	}
}
