// Package migrate replaces golang-migrate: it applies the *.up.sql files of a directory in order and
// records the version, with the dirty flag of the original.
package migrate

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	mysql "github.com/sisu-network/dheart/zzsim/migratemysql"
)

var (
	ErrNoChange = errors.New("no change")
	ErrLocked   = errors.New("database locked")

	ErrNilVersion     = errors.New("no migration")
	ErrInvalidVersion = errors.New("version must be >= -1")
)

type ErrDirty struct{ Version int }

func (e ErrDirty) Error() string {
	return fmt.Sprintf("Dirty database version %v. Fix and force version.", e.Version)
}

type Logger interface {
	Printf(format string, v ...interface{})
	Verbose() bool
}

type Migrate struct {
	Log Logger
	dir string
	d   *mysql.Driver
}

func NewWithDatabaseInstance(src, name string, d *mysql.Driver) (*Migrate, error) {
	dir := strings.TrimPrefix(src, "file://")
	if _, err := os.Stat(dir); err != nil {
		return nil, err
	}
	return &Migrate{dir: dir, d: d}, nil
}

func (m *Migrate) Close() (error, error) { return nil, m.d.DB.Close() }

func (m *Migrate) Version() (uint, bool, error) {
	v, dirty, err := m.version()
	if err == nil && v == 0 {
		return 0, false, ErrNilVersion
	}
	return v, dirty, err
}

// Force sets a version and clears the dirty flag; -1 means that no migration has been applied.
func (m *Migrate) Force(v int) error {
	if v < -1 {
		return ErrInvalidVersion
	}
	if v == -1 {
		_, err := m.d.DB.Exec("DELETE FROM schema_migrations")
		return err
	}
	return m.setVersion(v, false)
}

func (m *Migrate) version() (uint, bool, error) {
	rows, err := m.d.DB.Query("SELECT version, dirty FROM schema_migrations LIMIT 1")
	if err != nil {
		return 0, false, err
	}
	defer rows.Close()
	if !rows.Next() {
		return 0, false, rows.Err()
	}
	var v uint
	var dirty bool
	err = rows.Scan(&v, &dirty)
	return v, dirty, err
}

func (m *Migrate) setVersion(v int, dirty bool) error {
	tx, err := m.d.DB.Begin()
	if err != nil {
		return err
	}
	if _, err := tx.Exec("DELETE FROM schema_migrations"); err != nil {
		tx.Rollback()
		return err
	}
	if _, err := tx.Exec("INSERT INTO schema_migrations (version, dirty) VALUES (?, ?)", v, dirty); err != nil {
		tx.Rollback()
		return err
	}
	return tx.Commit()
}

func (m *Migrate) Up() error {
	cur, dirty, err := m.version()
	if err != nil {
		return err
	}
	if dirty {
		return ErrDirty{int(cur)}
	}
	fs, err := os.ReadDir(m.dir)
	if err != nil {
		return err
	}
	var names []string
	for _, f := range fs {
		if strings.HasSuffix(f.Name(), ".up.sql") {
			names = append(names, f.Name())
		}
	}
	sort.Strings(names)
	n := 0
	for _, f := range names {
		v, err := strconv.Atoi(f[:strings.Index(f, "_")])
		if err != nil || v <= int(cur) {
			continue
		}
		body, err := os.ReadFile(filepath.Join(m.dir, f))
		if err != nil {
			return err
		}
		if err := m.setVersion(v, true); err != nil {
			return err
		}
		if _, err := m.d.DB.Exec(string(body)); err != nil {
			return fmt.Errorf("migration failed: %w", err)
		}
		if err := m.setVersion(v, false); err != nil {
			return err
		}
		n++
	}
	if n == 0 {
		return ErrNoChange
	}
	return nil
}
