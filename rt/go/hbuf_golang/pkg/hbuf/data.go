// Package hbuf stands in for the package of the same name of hbuf_golang: the
// types that generated code uses, with the JSON and SQL forms of the original.
package hbuf

import (
	"database/sql"
	"database/sql/driver"
	"strconv"
	"strings"
	"time"
)

type Data interface {
	ToData() ([]byte, error)
	FormData([]byte) error
}

type Time time.Time

func (t *Time) UnmarshalJSON(data []byte) error {
	if string(data) == "null" {
		return nil
	}
	n, err := strconv.ParseInt(string(data), 10, 64)
	if err != nil {
		return err
	}
	*t = Time(time.UnixMilli(n))
	return nil
}

func (t Time) MarshalJSON() ([]byte, error) {
	return []byte(strconv.FormatInt(time.Time(t).UnixMilli(), 10)), nil
}

func (t Time) UnixMilli() int64 { return time.Time(t).UnixMilli() }

func (t *Time) Scan(value any) error {
	n := sql.NullTime{}
	if err := n.Scan(value); err != nil {
		return err
	}
	if n.Valid {
		*t = Time(n.Time)
	}
	return nil
}

func (t Time) Value() (driver.Value, error) { return time.Time(t), nil }

type Int64 int64

func (t Int64) String() string { return strconv.FormatInt(int64(t), 10) }

func (t *Int64) UnmarshalJSON(data []byte) error {
	if string(data) == "null" {
		return nil
	}
	n, err := strconv.ParseInt(strings.Trim(string(data), "\""), 10, 64)
	if err != nil {
		return err
	}
	*t = Int64(n)
	return nil
}

func (t Int64) MarshalJSON() ([]byte, error) {
	return []byte("\"" + strconv.FormatInt(int64(t), 10) + "\""), nil
}

func (t *Int64) Scan(value any) error {
	n := sql.NullInt64{}
	if err := n.Scan(value); err != nil {
		return err
	}
	if n.Valid {
		*t = Int64(n.Int64)
	}
	return nil
}

func (t Int64) Value() (driver.Value, error) { return int64(t), nil }

type Uint64 uint64

func (t *Uint64) UnmarshalJSON(data []byte) error {
	if string(data) == "null" {
		return nil
	}
	n, err := strconv.ParseUint(strings.Trim(string(data), "\""), 10, 64)
	if err != nil {
		return err
	}
	*t = Uint64(n)
	return nil
}

func (t Uint64) MarshalJSON() ([]byte, error) {
	return []byte("\"" + strconv.FormatUint(uint64(t), 10) + "\""), nil
}

func (t *Uint64) Scan(value any) error {
	n := sql.NullInt64{}
	if err := n.Scan(value); err != nil {
		return err
	}
	if n.Valid {
		*t = Uint64(n.Int64)
	}
	return nil
}

func (t Uint64) Value() (driver.Value, error) { return int64(t), nil }
