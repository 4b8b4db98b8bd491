// Package cache stands in for the cache package of hbuf_golang: a store in
// memory with the original's protocol.  A read looks a result up under a key made
// of the table, the calling function and the statement; a write drops all keys
// of the table while it holds the table's lock.  SETNX does not wait.
package cache

import (
	"context"
	"encoding/json"
	"errors"
	"reflect"
	"runtime"
	"strings"
	"time"

	"github.com/wskfjtheqian/hbuf_golang/pkg/db"
)

type Store struct {
	Data map[string]string
	Lock map[string]bool
	TTL  map[string]time.Duration
	Fail map[string]bool // "get", "set", "del": the next such call fails
	Log  []string
	Hook func(kind string)
}

func NewStore() *Store {
	return &Store{map[string]string{}, map[string]bool{}, map[string]time.Duration{}, map[string]bool{}, nil, nil}
}

type Context struct {
	context.Context
	Store *Store
}

var cType = reflect.TypeOf(&Context{})

func (d *Context) Value(key any) any {
	if cType == key {
		return d.Store
	}
	return d.Context.Value(key)
}

func store(ctx context.Context) *Store { return ctx.Value(cType).(*Store) }

func (s *Store) event(kind, table string) error {
	if s.Hook != nil {
		s.Hook(kind)
	}
	s.Log = append(s.Log, kind+" "+table)
	if s.Fail[kind] {
		delete(s.Fail, kind)
		return errors.New("injected failure")
	}
	return nil
}

func DbGet[T any](ctx context.Context, key, dbName string, sql *db.Sql, value *T) (*T, string, error) {
	s := store(ctx)
	if key == "" {
		pc, _, _, ok := runtime.Caller(1)
		if !ok {
			return nil, "", errors.New("no caller")
		}
		key = "db:" + dbName + ":" + runtime.FuncForPC(pc).Name() + ":" + sql.ToText()
	}
	if err := s.event("get", dbName); err != nil {
		return nil, key, err
	}
	text, ok := s.Data[key]
	if !ok {
		return nil, key, nil
	}
	if err := json.Unmarshal([]byte(text), value); err != nil {
		return nil, key, err
	}
	return value, key, nil
}

func DbSet(ctx context.Context, key, dbName string, sql *db.Sql, value any, duration time.Duration) (string, error) {
	s := store(ctx)
	if err := s.event("set", dbName); err != nil {
		return "", err
	}
	if s.Lock[dbName] {
		return "", nil
	}
	s.Lock[dbName] = true
	if key == "" || !strings.HasPrefix(key, "db:"+dbName+":") {
		return "", errors.New("bad key")
	}
	text, err := json.Marshal(value)
	if err != nil {
		return "", err
	}
	s.Data[key] = string(text)
	s.TTL[key] = duration
	return key, nil
}

func DbDel(ctx context.Context, dbName string) error {
	s := store(ctx)
	if err := s.event("del", dbName); err != nil {
		return err
	}
	s.Lock[dbName] = true
	for k := range s.Data {
		if strings.HasPrefix(k, "db:"+dbName+":") {
			delete(s.Data, k)
		}
	}
	return nil
}

func DbUnlock(ctx context.Context, dbName string) error {
	s := store(ctx)
	_ = s.event("unlock", dbName)
	delete(s.Lock, dbName)
	return nil
}
