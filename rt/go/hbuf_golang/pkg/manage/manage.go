package manage

import (
	"context"
	"reflect"

	"github.com/wskfjtheqian/hbuf_golang/pkg/rpc"
)

type Manage interface {
	Get(router rpc.ServerClient) any
}

type Context struct {
	context.Context
	Manage Manage
}

var cType = reflect.TypeOf(&Context{})

func (d *Context) Value(key any) any {
	if cType == key {
		return d.Manage
	}
	return d.Context.Value(key)
}

func GET(ctx context.Context) Manage {
	if m, ok := ctx.Value(cType).(Manage); ok {
		return m
	}
	return empty{}
}

type empty struct{}

func (empty) Get(router rpc.ServerClient) any { return nil }

// Servers finds servers by name
type Servers map[string]any

func (s Servers) Get(router rpc.ServerClient) any { return s[router.GetName()] }
