package world

import (
	"errors"
	"sort"

	rt "github.com/sisu-network/dheart/zzsim/rt"
)

// Disk is one simulated key-value directory. Writes that were not synced may be lost by a machine
// crash; a process crash keeps them.
type Disk struct {
	Path  string
	KV    map[string][]byte
	log   []diskOp // writes since the last sync, oldest first
	owner *rt.Node
	gen   int
	open  bool

	Quiet       bool
	PErr, PFull float64
}

type diskOp struct {
	key string
	old []byte
	had bool
}

func (w *World) Disk(path string) *Disk {
	d := w.Disks[path]
	if d == nil {
		d = &Disk{Path: path, KV: map[string][]byte{}}
		w.Disks[path] = d
	}
	return d
}

// Open locks the directory for the current node.
func (d *Disk) Open() error {
	rt.P()
	if d.open && !d.owner.Dead && d.owner.Gen == d.gen {
		return errors.New("resource temporarily unavailable")
	}
	if !d.Quiet && W.S.Chance("disk:"+d.Path, d.PErr) {
		W.Count("disk.err")
		return errors.New("input/output error")
	}
	d.open, d.owner, d.gen = true, rt.Cur().Node, rt.Cur().Node.Gen
	return nil
}

func (d *Disk) Close() { d.open = false }

func (d *Disk) Put(k string, v []byte, sync bool, del bool) error {
	rt.P()
	if !d.Quiet {
		if W.S.Chance("disk:"+d.Path, d.PErr) {
			W.Count("disk.err")
			return errors.New("input/output error")
		}
		if W.S.Chance("disk:"+d.Path, d.PFull) {
			W.Count("disk.full")
			return errors.New("no space left on device")
		}
	}
	old, had := d.KV[k]
	d.log = append(d.log, diskOp{k, old, had})
	if del {
		delete(d.KV, k)
	} else {
		d.KV[k] = append([]byte(nil), v...)
	}
	if sync {
		d.log = nil
	}
	return nil
}

func (d *Disk) Get(k string) ([]byte, bool, error) {
	rt.P()
	if !d.Quiet && W.S.Chance("disk:"+d.Path, d.PErr) {
		W.Count("disk.err")
		return nil, false, errors.New("input/output error")
	}
	v, ok := d.KV[k]
	return append([]byte(nil), v...), ok, nil
}

func (d *Disk) Keys() []string {
	var l []string
	for k := range d.KV {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// PowerLoss drops a suffix of the unsynced writes.
func (d *Disk) PowerLoss(keep int) {
	for len(d.log) > keep {
		o := d.log[len(d.log)-1]
		d.log = d.log[:len(d.log)-1]
		if o.had {
			d.KV[o.key] = o.old
		} else {
			delete(d.KV, o.key)
		}
	}
	d.log = nil
}

// Unsynced is the number of writes a power loss may drop.
func (d *Disk) Unsynced() int { return len(d.log) }
