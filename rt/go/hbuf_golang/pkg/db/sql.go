// Package db stands in for the db package of hbuf_golang: the same statement
// builder, over a small SQL engine in memory (engine.go).
package db

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
)

type Context struct {
	context.Context
	Conn *Conn
}

var cType = reflect.TypeOf(&Context{})

func (d *Context) Value(key any) any {
	if cType == key {
		return d.Conn
	}
	return d.Context.Value(key)
}

// Conn is what GET gives: the connection of the context
type Conn struct {
	DB     *sql.DB
	Prefix string
}

func (c *Conn) Table(name string) string { return c.Prefix + name }

func GET(ctx context.Context) *Conn {
	c, _ := ctx.Value(cType).(*Conn)
	return c
}

type Sql struct {
	text   strings.Builder
	params []any
	del    string
}

func NewSql() *Sql { return &Sql{} }

func (s *Sql) T(query string) *Sql {
	s.text.WriteString(s.removeStart(strings.Trim(strings.Trim(query, " "), "\t")))
	s.text.WriteString(" ")
	return s
}

func (s *Sql) V(a any) *Sql {
	s.text.WriteString("? ")
	s.params = append(s.params, a)
	return s
}

func (s *Sql) P(args ...any) { s.params = append(s.params, args...) }

func (s *Sql) L(question string, args ...any) *Sql {
	for i := range args {
		if i != 0 {
			s.text.WriteString(s.removeStart(question))
		}
		s.text.WriteString("? ")
	}
	s.params = append(s.params, args...)
	return s
}

func (s *Sql) removeStart(question string) string {
	if len(s.del) > 0 {
		question = strings.TrimPrefix(question, s.del)
		s.del = ""
	}
	return question
}

func (s *Sql) Del(text string) { s.del = text }

// ToText identifies the statement and its parameters
func (s *Sql) ToText() string {
	b, _ := json.Marshal(s.params)
	return s.text.String() + string(b)
}

func (s *Sql) Query(ctx context.Context, scan func(*sql.Rows) (bool, error)) (int64, error) {
	rows, err := GET(ctx).DB.Query(s.text.String(), s.params...)
	if err != nil {
		return 0, err
	}
	defer rows.Close()
	var count int64
	more := true
	for rows.Next() {
		count++
		if more {
			if more, err = scan(rows); err != nil {
				return 0, err
			}
		}
	}
	return count, rows.Err()
}

func (s *Sql) Exec(ctx context.Context) (int64, int64, error) {
	res, err := GET(ctx).DB.Exec(s.text.String(), s.params...)
	if err != nil {
		return 0, 0, err
	}
	count, _ := res.RowsAffected()
	id, _ := res.LastInsertId()
	return count, id, nil
}

type ConverterJson struct{ data any }

func (t *ConverterJson) Scan(value any) error {
	switch v := value.(type) {
	case nil:
		return nil
	case []byte:
		return json.Unmarshal(v, t.data)
	case string:
		return json.Unmarshal([]byte(v), t.data)
	}
	return fmt.Errorf("cannot convert %T from json", value)
}

func (t ConverterJson) Value() (driver.Value, error) { return json.Marshal(t.data) }

func NewJson(data any) *ConverterJson { return &ConverterJson{data} }
