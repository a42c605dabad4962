// Package mysql replaces golang-migrate's MySQL driver.
package mysql

import (
	"errors"

	"github.com/sisu-network/dheart/zzsim/sql"
)

type Config struct {
	MigrationsTable  string
	DatabaseName     string
	NoLock           bool
	StatementTimeout int64
}

type Driver struct{ DB *sql.DB }

var ErrNilConfig = errors.New("no config")

// WithInstance pings the server and makes the version table, like the real driver.
func WithInstance(db *sql.DB, c *Config) (*Driver, error) {
	if c == nil {
		return nil, ErrNilConfig
	}
	if err := db.Ping(); err != nil {
		return nil, err
	}
	if _, err := db.Exec("CREATE TABLE IF NOT EXISTS schema_migrations (version bigint not null primary key, dirty boolean not null)"); err != nil {
		return nil, err
	}
	return &Driver{db}, nil
}
