// Package leveldb replaces goleveldb by a simulated directory.
package leveldb

import (
	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/comparer"
	"github.com/syndtr/goleveldb/leveldb/iterator"
	"github.com/syndtr/goleveldb/leveldb/memdb"
	"github.com/syndtr/goleveldb/leveldb/opt"
	"github.com/syndtr/goleveldb/leveldb/util"

	"github.com/sisu-network/dheart/zzsim/world"
)

var (
	ErrNotFound = leveldb.ErrNotFound
	ErrClosed   = leveldb.ErrClosed
)

type Batch = leveldb.Batch

type DB struct {
	d      *world.Disk
	closed bool
}

func OpenFile(path string, o *opt.Options) (*DB, error) {
	d := world.W.Disk(path)
	if err := d.Open(); err != nil {
		return nil, err
	}
	return &DB{d: d}, nil
}

func (db *DB) Put(key, value []byte, wo *opt.WriteOptions) error {
	if db.closed {
		return ErrClosed
	}
	return db.d.Put(string(key), value, wo.GetSync(), false)
}

func (db *DB) Delete(key []byte, wo *opt.WriteOptions) error {
	if db.closed {
		return ErrClosed
	}
	return db.d.Put(string(key), nil, wo.GetSync(), true)
}

func (db *DB) Get(key []byte, ro *opt.ReadOptions) ([]byte, error) {
	if db.closed {
		return nil, ErrClosed
	}
	v, ok, err := db.d.Get(string(key))
	if err != nil {
		return nil, err
	}
	if !ok {
		return nil, ErrNotFound
	}
	return v, nil
}

func (db *DB) Has(key []byte, ro *opt.ReadOptions) (bool, error) {
	_, err := db.Get(key, ro)
	if err == ErrNotFound {
		return false, nil
	}
	return err == nil, err
}

func (db *DB) NewIterator(r *util.Range, ro *opt.ReadOptions) iterator.Iterator {
	m := memdb.New(comparer.DefaultComparer, 1024)
	for _, k := range db.d.Keys() {
		v, _, _ := db.d.Get(k)
		m.Put([]byte(k), v)
	}
	return m.NewIterator(r)
}

func (db *DB) Close() error {
	if db.closed {
		return ErrClosed
	}
	db.closed = true
	db.d.Close()
	return nil
}
