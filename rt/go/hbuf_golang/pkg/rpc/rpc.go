// Package rpc stands in for the rpc package of hbuf_golang, without networks.
package rpc

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"io"
	"reflect"

	"github.com/wskfjtheqian/hbuf_golang/pkg/hbuf"
)

type Context struct {
	context.Context
	Tags   map[string][]string
	Method string
}

var contextType = reflect.TypeOf(&Context{})

func NewContext(ctx context.Context) *Context {
	return &Context{Context: ctx, Tags: map[string][]string{}}
}

func (c *Context) Value(key any) any {
	if contextType == key {
		return c
	}
	return c.Context.Value(key)
}

func SetTag(ctx context.Context, key string, value ...string) {
	if c, ok := ctx.Value(contextType).(*Context); ok {
		c.Tags[key] = value
	}
}

type ServerClient interface {
	GetName() string
	GetId() uint32
}

type Init interface {
	Init(ctx context.Context)
}

type ServerRouter interface {
	GetName() string
	GetId() uint32
	GetInvoke() map[string]*ServerInvoke
	GetServer() Init
}

type Client interface {
	Invoke(ctx context.Context, param hbuf.Data, name string, nameInvoke *ClientInvoke, id int64, idInvoke *ClientInvoke) (hbuf.Data, error)
}

type ClientInvoke struct {
	ToData   func(buf []byte) (hbuf.Data, error)
	FormData func(data hbuf.Data) ([]byte, error)
}

type ServerInvoke struct {
	ToData   func(buf []byte) (hbuf.Data, error)
	FormData func(data hbuf.Data) ([]byte, error)
	Invoke   func(cxt context.Context, data hbuf.Data) (hbuf.Data, error)
	SetInfo  func(cxt context.Context)
}

type Server struct {
	Routes map[string]*ServerInvoke
}

func NewServer() *Server { return &Server{map[string]*ServerInvoke{}} }

func (s *Server) Add(router ServerRouter) {
	for key, value := range router.GetInvoke() {
		s.Routes["/"+router.GetName()+"/"+key] = value
	}
}

type Raw []byte

func (m Raw) MarshalJSON() ([]byte, error) {
	if len(m) == 0 {
		return []byte("null"), nil
	}
	return m, nil
}

func (m *Raw) UnmarshalJSON(data []byte) error {
	*m = append((*m)[0:0], data...)
	return nil
}

type Result struct {
	Code int    `json:"code"`
	Msg  string `json:"msg"`
	Data Raw    `json:"data"`
}

func (r *Result) Error() string { return r.Msg }

// Handle answers one request as the HTTP transport does: the path, the body, the answer.
func (s *Server) Handle(ctx context.Context, path string, in io.Reader, out io.Writer) error {
	answer := func(r Result) error {
		b, err := json.Marshal(r)
		if err != nil {
			return err
		}
		_, err = out.Write(b)
		return err
	}
	value, ok := s.Routes[path]
	if !ok {
		return answer(Result{Code: 404, Msg: "not found"})
	}
	body, err := io.ReadAll(in)
	if err != nil {
		return err
	}
	fail := func(err error) error {
		var r *Result
		if errors.As(err, &r) {
			return answer(Result{Code: r.Code, Msg: r.Msg})
		}
		return answer(Result{Code: 500, Msg: err.Error()})
	}
	data, err := value.ToData(body)
	if err != nil {
		return fail(err)
	}
	value.SetInfo(ctx)
	data, err = value.Invoke(ctx, data)
	if err != nil {
		return fail(err)
	}
	res := Result{Code: 0, Msg: "Ok"}
	if value.FormData != nil {
		if res.Data, err = value.FormData(data); err != nil {
			return fail(err)
		}
	}
	return answer(res)
}

// Wire is what went over the wire in one call
type Wire struct {
	Path, Request, Response string
}

// Memory is a client that talks to a server of the same process
type Memory struct {
	Server *Server
	Last   Wire
	Ctx    *Context // context of the last call at the server
	Canned string   // when set, what comes back whatever the server says
}

func (m *Memory) Invoke(ctx context.Context, param hbuf.Data, name string, nameInvoke *ClientInvoke, id int64, idInvoke *ClientInvoke) (hbuf.Data, error) {
	body, err := nameInvoke.FormData(param)
	if err != nil {
		return nil, err
	}
	m.Ctx = NewContext(context.Background())
	out := bytes.NewBuffer(nil)
	err = m.Server.Handle(m.Ctx, "/"+name, bytes.NewReader(body), out)
	if m.Canned != "" {
		out = bytes.NewBufferString(m.Canned)
	}
	m.Last = Wire{"/" + name, string(body), out.String()}
	if err != nil {
		return nil, err
	}
	var res Result
	if err = json.Unmarshal(out.Bytes(), &res); err != nil {
		return nil, err
	}
	if res.Code != 0 {
		return nil, &res
	}
	if nameInvoke.ToData == nil {
		return nil, nil
	}
	return nameInvoke.ToData(res.Data)
}
