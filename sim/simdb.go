package main

// SimDB is the simulated disk. One Disk survives node crashes; each node
// incarnation talks to it through its own handle, which a crash severs: any
// goroutine of the dead incarnation that touches the disk again parks forever.

import (
	"errors"
	"fmt"
	"sync"
	"time"

	dbm "github.com/cosmos/cosmos-db"
	"github.com/google/btree"
)

type kvItem struct{ k, v string }

func (a kvItem) Less(b btree.Item) bool { return a.k < b.(kvItem).k }

type undoRec struct {
	k   string
	old string
	had bool
}

type Disk struct {
	mu     sync.Mutex
	name   string
	t      *btree.BTree
	undo   [][]undoRec // journal since the last sync, one entry per atomic write
	writes uint64
	syncs  uint64
}

func NewDisk(name string) *Disk { return &Disk{name: name, t: btree.New(16)} }

// powerLoss drops a suffix of the unsynced atomic writes; keep says how many survive.
func (d *Disk) powerLoss(keep int) int {
	d.mu.Lock()
	defer d.mu.Unlock()
	lost := 0
	for len(d.undo) > keep {
		e := d.undo[len(d.undo)-1]
		d.undo = d.undo[:len(d.undo)-1]
		for i := len(e) - 1; i >= 0; i-- {
			if e[i].had {
				d.t.ReplaceOrInsert(kvItem{e[i].k, e[i].old})
			} else {
				d.t.Delete(kvItem{k: e[i].k})
			}
		}
		lost++
	}
	d.undo = nil
	return lost
}

func (d *Disk) len() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.t.Len()
}

// clone gives an independent copy with the same contents.
func (d *Disk) clone() *Disk {
	d.mu.Lock()
	defer d.mu.Unlock()
	return &Disk{name: d.name, t: d.t.Clone()}
}

type batchOp struct {
	del  bool
	k, v string
}

// apply performs one atomic write unless the writer died meanwhile.
func (d *Disk) apply(inc *Inc, ops []batchOp, sync bool) {
	d.mu.Lock()
	if inc != nil && inc.dead {
		d.mu.Unlock()
		inc.park()
	}
	defer d.mu.Unlock()
	rec := make([]undoRec, 0, len(ops))
	for _, o := range ops {
		var old btree.Item
		if o.del {
			old = d.t.Delete(kvItem{k: o.k})
		} else {
			old = d.t.ReplaceOrInsert(kvItem{o.k, o.v})
		}
		if old != nil {
			rec = append(rec, undoRec{o.k, old.(kvItem).v, true})
		} else {
			rec = append(rec, undoRec{k: o.k})
		}
	}
	d.writes++
	if sync {
		d.syncs++
		d.undo = nil
	} else {
		d.undo = append(d.undo, rec)
	}
}

// Inc is one life of a node: everything that dies together.
type Inc struct {
	dead   bool
	deadCh chan struct{}
	why    string
	// fault plan for this life
	crashAtWrite int64 // crash just before the n-th atomic write (counted over all disks); <0 off
	failAtWrite  int64 // the n-th and later writes return an error; <0 off
	failOnce     bool
	writes       int64
	readStall    uint64 // 1 in n reads sleeps (0 off)
	rng          *Rng
	onFault      func(kind string)
}

func NewInc(r *Rng) *Inc {
	return &Inc{deadCh: make(chan struct{}), crashAtWrite: -1, failAtWrite: -1, rng: r}
}

func (i *Inc) kill(why string) {
	if !i.dead {
		i.dead = true
		i.why = why
		close(i.deadCh)
	}
}

func (i *Inc) park() {
	select {}
}

func (i *Inc) gate() {
	if i != nil && i.dead {
		i.park()
	}
}

var errDisk = errors.New("simulated disk error: no space left on device")

// SimDB implements dbm.DB.
type SimDB struct {
	d   *Disk
	inc *Inc
}

var _ dbm.DB = (*SimDB)(nil)

func (s *SimDB) write(ops []batchOp, sync bool) error {
	s.inc.gate()
	i := s.inc
	if i != nil {
		n := i.writes
		i.writes++
		if i.crashAtWrite >= 0 && n >= i.crashAtWrite {
			if i.onFault != nil {
				i.onFault("crash_at_write")
			}
			i.kill(fmt.Sprintf("crash before write %d on %s", n, s.d.name))
			i.park()
		}
		if i.failAtWrite >= 0 && n >= i.failAtWrite {
			if i.failOnce {
				i.failAtWrite = -1
			}
			if i.onFault != nil {
				i.onFault("disk_write_error")
			}
			return errDisk
		}
	}
	s.d.apply(i, ops, sync)
	return nil
}

func (s *SimDB) stall() {
	s.inc.gate()
	if i := s.inc; i != nil && i.readStall > 0 && i.rng.Next()%i.readStall == 0 {
		time.Sleep(time.Duration(1+i.rng.Next()%20) * time.Millisecond)
		s.inc.gate()
	}
}

func (s *SimDB) Get(k []byte) ([]byte, error) {
	if len(k) == 0 {
		return nil, errors.New("key empty")
	}
	s.stall()
	s.d.mu.Lock()
	it := s.d.t.Get(kvItem{k: string(k)})
	s.d.mu.Unlock()
	if it == nil {
		return nil, nil
	}
	return []byte(it.(kvItem).v), nil
}

func (s *SimDB) Has(k []byte) (bool, error) {
	if len(k) == 0 {
		return false, errors.New("key empty")
	}
	s.stall()
	s.d.mu.Lock()
	defer s.d.mu.Unlock()
	return s.d.t.Has(kvItem{k: string(k)}), nil
}

func (s *SimDB) Set(k, v []byte) error {
	if len(k) == 0 || v == nil {
		return errors.New("bad key or value")
	}
	return s.write([]batchOp{{k: string(k), v: string(v)}}, false)
}
func (s *SimDB) SetSync(k, v []byte) error {
	if len(k) == 0 || v == nil {
		return errors.New("bad key or value")
	}
	return s.write([]batchOp{{k: string(k), v: string(v)}}, true)
}
func (s *SimDB) Delete(k []byte) error {
	if len(k) == 0 {
		return errors.New("key empty")
	}
	return s.write([]batchOp{{del: true, k: string(k)}}, false)
}
func (s *SimDB) DeleteSync(k []byte) error {
	return s.write([]batchOp{{del: true, k: string(k)}}, true)
}
func (s *SimDB) Close() error             { return nil }
func (s *SimDB) Print() error             { return nil }
func (s *SimDB) Stats() map[string]string { return nil }
func (s *SimDB) NewBatch() dbm.Batch      { return &simBatch{s: s} }
func (s *SimDB) NewBatchWithSize(int) dbm.Batch {
	return &simBatch{s: s}
}

type simBatch struct {
	s    *SimDB
	ops  []batchOp
	size int
	done bool
}

var errBatchClosed = errors.New("batch has been written or closed")

func (b *simBatch) Set(k, v []byte) error {
	if b.done {
		return errBatchClosed
	}
	if len(k) == 0 || v == nil {
		return errors.New("bad key or value")
	}
	b.ops = append(b.ops, batchOp{k: string(k), v: string(v)})
	b.size += len(k) + len(v)
	return nil
}
func (b *simBatch) Delete(k []byte) error {
	if b.done {
		return errBatchClosed
	}
	if len(k) == 0 {
		return errors.New("key empty")
	}
	b.ops = append(b.ops, batchOp{del: true, k: string(k)})
	b.size += len(k)
	return nil
}
func (b *simBatch) write(sync bool) error {
	if b.done {
		return errBatchClosed
	}
	if err := b.s.write(b.ops, sync); err != nil {
		return err
	}
	b.done = true
	b.ops = nil
	return nil
}
func (b *simBatch) Write() error     { return b.write(false) }
func (b *simBatch) WriteSync() error { return b.write(true) }
func (b *simBatch) Close() error     { b.done = true; b.ops = nil; return nil }
func (b *simBatch) GetByteSize() (int, error) {
	if b.done {
		return 0, errBatchClosed
	}
	return b.size, nil
}

type simIter struct {
	s          *SimDB
	t          *btree.BTree
	start, end []byte
	rev        bool
	cur        kvItem
	ok         bool
}

func (s *SimDB) iter(start, end []byte, rev bool) (dbm.Iterator, error) {
	if (start != nil && len(start) == 0) || (end != nil && len(end) == 0) {
		return nil, errors.New("key empty")
	}
	s.stall()
	s.d.mu.Lock()
	t := s.d.t.Clone()
	s.d.mu.Unlock()
	it := &simIter{s: s, t: t, start: append([]byte(nil), start...), end: append([]byte(nil), end...), rev: rev}
	if start == nil {
		it.start = nil
	}
	if end == nil {
		it.end = nil
	}
	it.seek(nil, true)
	return it, nil
}

func (it *simIter) seek(from *string, first bool) {
	it.ok = false
	if !it.rev {
		lo := string(it.start)
		if from != nil {
			lo = *from
		}
		it.t.AscendGreaterOrEqual(kvItem{k: lo}, func(i btree.Item) bool {
			x := i.(kvItem)
			if from != nil && x.k == *from {
				return true
			}
			if it.end != nil && x.k >= string(it.end) {
				return false
			}
			it.cur, it.ok = x, true
			return false
		})
		return
	}
	visit := func(i btree.Item) bool {
		x := i.(kvItem)
		if from != nil && x.k == *from {
			return true
		}
		if from == nil && it.end != nil && x.k >= string(it.end) {
			return true
		}
		if it.start != nil && x.k < string(it.start) {
			return false
		}
		it.cur, it.ok = x, true
		return false
	}
	if from != nil {
		it.t.DescendLessOrEqual(kvItem{k: *from}, visit)
	} else if it.end != nil {
		it.t.DescendLessOrEqual(kvItem{k: string(it.end)}, visit)
	} else {
		it.t.Descend(visit)
	}
}

func (it *simIter) Domain() ([]byte, []byte) { return it.start, it.end }
func (it *simIter) Valid() bool              { return it.ok }
func (it *simIter) Next() {
	if !it.ok {
		panic("iterator is invalid")
	}
	it.s.stall()
	k := it.cur.k
	it.seek(&k, false)
}
func (it *simIter) Key() []byte {
	if !it.ok {
		panic("iterator is invalid")
	}
	return []byte(it.cur.k)
}
func (it *simIter) Value() []byte {
	if !it.ok {
		panic("iterator is invalid")
	}
	return []byte(it.cur.v)
}
func (it *simIter) Error() error { return nil }
func (it *simIter) Close() error { it.ok = false; it.t = nil; return nil }

func (s *SimDB) Iterator(start, end []byte) (dbm.Iterator, error) { return s.iter(start, end, false) }
func (s *SimDB) ReverseIterator(start, end []byte) (dbm.Iterator, error) {
	return s.iter(start, end, true)
}
