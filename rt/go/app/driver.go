// The driver performs, on generated code, what it reads line by line, and writes
// down what happened.  It knows the generated code through reflection only.
package main

import (
	"bufio"
	"context"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/wskfjtheqian/hbuf_golang/pkg/cache"
	"github.com/wskfjtheqian/hbuf_golang/pkg/db"
	"github.com/wskfjtheqian/hbuf_golang/pkg/hbuf"
	"github.com/wskfjtheqian/hbuf_golang/pkg/manage"
	"github.com/wskfjtheqian/hbuf_golang/pkg/rpc"
)

type Enum struct {
	Type   reflect.Type
	Values any // map[string]E
	Consts map[string]int
}

type Server struct {
	Iface   reflect.Type
	Router  any // func(Server) *Router
	Client  any // func(rpc.Client) *Client
	Default any // *DefaultServer
	Get     any // func(ctx) Server
	Fake    func(*Fake) any
}

var (
	datas   = map[string]reflect.Type{}
	enums   = map[string]Enum{}
	servers = map[string]Server{}
	names   = map[reflect.Type]string{}
	fields  = map[string][][2]string{}
)

// V is a value of the schema language
type V struct {
	K string `json:"k"`
	V string `json:"v,omitempty"`
	L []V    `json:"l,omitempty"` // list elements
	M []E    `json:"m,omitempty"` // map entries, data fields
}

type E struct {
	K V      `json:"k,omitempty"`
	N string `json:"n,omitempty"`
	V V      `json:"v"`
}

var (
	timeT    = reflect.TypeOf(hbuf.Time{})
	decimalT = reflect.TypeOf(decimal.Decimal{})
)

func set(dst reflect.Value, v V) error {
	t := dst.Type()
	if t.Kind() == reflect.Ptr {
		if v.K == "null" {
			dst.Set(reflect.Zero(t))
			return nil
		}
		p := reflect.New(t.Elem())
		if err := set(p.Elem(), v); err != nil {
			return err
		}
		dst.Set(p)
		return nil
	}
	bad := fmt.Errorf("a %s value for a Go %s", v.K, t)
	switch {
	case t == timeT:
		if v.K != "date" {
			return bad
		}
		n, err := strconv.ParseInt(v.V, 10, 64)
		dst.Set(reflect.ValueOf(hbuf.Time(time.UnixMilli(n))))
		return err
	case t == decimalT:
		if v.K != "dec" {
			return bad
		}
		d, err := decimal.NewFromString(v.V)
		dst.Set(reflect.ValueOf(d))
		return err
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if (v.K == "enum") != (t.Kind() == reflect.Int) || v.K != "enum" && v.K != "int" {
			return bad
		}
		n, err := strconv.ParseInt(v.V, 10, t.Bits())
		dst.SetInt(n)
		return err
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.K != "int" {
			return bad
		}
		n, err := strconv.ParseUint(v.V, 10, t.Bits())
		dst.SetUint(n)
		return err
	case reflect.Bool:
		if v.K != "bool" {
			return bad
		}
		dst.SetBool(v.V == "true")
	case reflect.Float32, reflect.Float64:
		if v.K != "num" {
			return bad
		}
		n, err := strconv.ParseFloat(v.V, t.Bits())
		dst.SetFloat(n)
		return err
	case reflect.String:
		if v.K != "str" {
			return bad
		}
		dst.SetString(v.V)
	case reflect.Slice:
		if v.K == "null" {
			return nil
		}
		if v.K != "list" {
			return bad
		}
		s := reflect.MakeSlice(t, len(v.L), len(v.L))
		for i, e := range v.L {
			if err := set(s.Index(i), e); err != nil {
				return err
			}
		}
		dst.Set(s)
	case reflect.Map:
		if v.K == "null" {
			return nil
		}
		if v.K != "map" {
			return bad
		}
		m := reflect.MakeMap(t)
		for _, e := range v.M {
			k, x := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			if err := set(k, e.K); err != nil {
				return err
			}
			if err := set(x, e.V); err != nil {
				return err
			}
			m.SetMapIndex(k, x)
		}
		dst.Set(m)
	case reflect.Struct:
		if v.K != "data" {
			return bad
		}
		for _, e := range v.M {
			name := goName(names[t], e.N)
			f := dst.FieldByName(name)
			if name == "" || !f.IsValid() {
				return fmt.Errorf("%s has no field %s", t, e.N)
			}
			if err := set(f, e.V); err != nil {
				return fmt.Errorf("%s: %w", e.N, err)
			}
		}
	default:
		return bad
	}
	return nil
}

func goName(typ, field string) string {
	for _, f := range fields[typ] {
		if f[0] == field {
			return f[1]
		}
	}
	return ""
}

func get(src reflect.Value) V {
	t := src.Type()
	if t.Kind() == reflect.Ptr {
		if src.IsNil() {
			return V{K: "null"}
		}
		return get(src.Elem())
	}
	switch t {
	case timeT:
		return V{K: "date", V: strconv.FormatInt(time.Time(src.Interface().(hbuf.Time)).UnixMilli(), 10)}
	case decimalT:
		return V{K: "dec", V: src.Interface().(decimal.Decimal).String()}
	}
	switch t.Kind() {
	case reflect.Int:
		return V{K: "enum", V: strconv.FormatInt(src.Int(), 10)}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return V{K: "int", V: strconv.FormatInt(src.Int(), 10)}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return V{K: "int", V: strconv.FormatUint(src.Uint(), 10)}
	case reflect.Bool:
		return V{K: "bool", V: strconv.FormatBool(src.Bool())}
	case reflect.Float32, reflect.Float64:
		return V{K: "num", V: strconv.FormatFloat(src.Float(), 'f', -1, t.Bits())}
	case reflect.String:
		return V{K: "str", V: src.String()}
	case reflect.Slice:
		if src.IsNil() {
			return V{K: "null"}
		}
		r := V{K: "list"}
		for i := 0; i < src.Len(); i++ {
			r.L = append(r.L, get(src.Index(i)))
		}
		return r
	case reflect.Map:
		if src.IsNil() {
			return V{K: "null"}
		}
		r := V{K: "map"}
		for _, k := range src.MapKeys() {
			r.M = append(r.M, E{K: get(k), V: get(src.MapIndex(k))})
		}
		sort.Slice(r.M, func(i, j int) bool { return r.M[i].K.V < r.M[j].K.V })
		return r
	case reflect.Struct:
		r := V{K: "data"}
		for _, f := range fields[names[t]] {
			x := src.FieldByName(f[1])
			if x.IsValid() {
				r.M = append(r.M, E{N: f[0], V: get(x)})
			} else {
				r.M = append(r.M, E{N: f[0], V: V{K: "missing"}})
			}
		}
		return r
	}
	return V{K: "odd", V: t.String()}
}

// getters calls every getter
func getters(p reflect.Value) V {
	r := V{K: "data"}
	for _, f := range fields[names[p.Type().Elem()]] {
		m := p.MethodByName("Get" + f[1])
		x := V{K: "missing"}
		if m.IsValid() && m.Type().NumIn() == 0 && m.Type().NumOut() == 1 {
			x = get(m.Call(nil)[0])
		}
		r.M = append(r.M, E{N: f[0], V: x})
	}
	return r
}

// setters builds a value through its setters, which take values, not pointers
func setters(p reflect.Value, v V) error {
	for _, e := range v.M {
		m := p.MethodByName("Set" + goName(names[p.Type().Elem()], e.N))
		if !m.IsValid() || m.Type().NumIn() != 1 {
			return fmt.Errorf("no setter of %s", e.N)
		}
		if e.V.K == "null" {
			continue
		}
		x := reflect.New(m.Type().In(0)).Elem()
		if err := set(x, e.V); err != nil {
			return err
		}
		m.Call([]reflect.Value{x})
	}
	return nil
}

type Cmd struct {
	Op     string                       `json:"op"`
	Fields map[string][][2]string       `json:"fields"`
	Type   string                       `json:"type"`
	Value  V                            `json:"value"`
	Values []V                          `json:"values"`
	Text   string                       `json:"text"`
	Method string                       `json:"method"`
	Tables map[string]*TableDump        `json:"tables"`
	Fail   []string                     `json:"fail"`
	Script map[string]Answer            `json:"script"`
	Names  []string                     `json:"names"`
	Binds  map[string]map[string]Answer `json:"binds"`
	Probes []string                     `json:"probes"`
}

type Answer struct {
	Value V      `json:"value"`
	Err   string `json:"err"`
	Code  int    `json:"code"`
}

type TableDump struct {
	Cols []string          `json:"cols"`
	Rows [][]*string       `json:"rows"`
	Kind map[string]string `json:"kind,omitempty"`
}

type Out struct {
	Err     string                `json:"err,omitempty"`
	Panic   string                `json:"panic,omitempty"`
	Text    string                `json:"text,omitempty"`
	Value   *V                    `json:"value,omitempty"`
	Getters *V                    `json:"getters,omitempty"`
	Types   map[string]any        `json:"types,omitempty"`
	Result  []V                   `json:"result,omitempty"`
	Tables  map[string]*TableDump `json:"tables,omitempty"`
	Log     []string              `json:"log,omitempty"`
	Locked  bool                  `json:"locked,omitempty"`
	Cached  int                   `json:"cached,omitempty"`
	TTL     []int64               `json:"ttl,omitempty"`
	Code    int                   `json:"code,omitempty"`
	Path    string                `json:"path,omitempty"`
	Request string                `json:"request,omitempty"`
	Answer  string                `json:"answer,omitempty"`
	Tags    map[string][]string   `json:"tags,omitempty"`
	Seen    []Seen                `json:"seen,omitempty"`
	Routes  []string              `json:"routes,omitempty"`
	Name    string                `json:"name,omitempty"`
}

type Seen struct {
	Server string `json:"server"`
	Method string `json:"method"`
	Param  V      `json:"param"`
}

// Fake stands behind the fake servers: it answers from a script and remembers
type Fake struct {
	Server string
	Script map[string]Answer
	Seen   *[]Seen
}

func (f *Fake) Call(method string, param any) (V, error) {
	*f.Seen = append(*f.Seen, Seen{f.Server, method, get(reflect.ValueOf(param))})
	a := f.Script[method]
	if a.Code != 0 {
		return V{}, &rpc.Result{Code: a.Code, Msg: a.Err}
	}
	if a.Err != "" {
		return V{}, errors.New(a.Err)
	}
	return a.Value, nil
}

func answer[T any](v V, err error) (*T, error) {
	if err != nil {
		return nil, err
	}
	var t T
	if err = set(reflect.ValueOf(&t).Elem(), v); err != nil {
		return nil, err
	}
	return &t, nil
}

var (
	engine *db.Engine
	store  *cache.Store
)

func ctxDB() context.Context {
	c := context.Context(&db.Context{Context: context.Background(), Conn: &db.Conn{DB: engine.Open(), Prefix: "app_"}})
	return &cache.Context{Context: c, Store: store}
}

func parseCell(kind string, s *string) driver.Value {
	if s == nil {
		return nil
	}
	switch kind {
	case "int":
		n, _ := strconv.ParseInt(*s, 10, 64)
		return n
	case "num":
		n, _ := strconv.ParseFloat(*s, 64)
		return n
	case "date":
		n, _ := strconv.ParseInt(*s, 10, 64)
		return time.UnixMilli(n)
	case "json":
		return []byte(*s)
	}
	return *s
}

func dump() map[string]*TableDump {
	r := map[string]*TableDump{}
	for n, t := range engine.Tables {
		d := &TableDump{Cols: t.Cols, Rows: [][]*string{}}
		for _, row := range t.Rows {
			var cells []*string
			for _, c := range t.Cols {
				if row[c] == nil {
					cells = append(cells, nil)
				} else {
					s := db.Text(row[c])
					cells = append(cells, &s)
				}
			}
			d.Rows = append(d.Rows, cells)
		}
		r[n] = d
	}
	return r
}

func errOut(o *Out, err error) {
	if err == nil {
		return
	}
	o.Err = err.Error()
	if o.Err == "" {
		o.Err = "error"
	}
	var r *rpc.Result
	if errors.As(err, &r) {
		o.Code = r.Code
	}
}

func do(c Cmd) (o Out) {
	defer func() {
		if e := recover(); e != nil {
			o.Panic = fmt.Sprint(e)
		}
	}()
	switch c.Op {
	case "init":
		fields = c.Fields
		for n, t := range datas {
			names[t] = n
		}
	case "types":
		o.Types = map[string]any{}
		for n, t := range datas {
			o.Types[n] = structure(t)
		}
	case "enum":
		o.Types = map[string]any{"enum": lookup(enums[c.Type], c.Probes, c.Names)}
	case "enums":
		o.Types = map[string]any{}
		for n, e := range enums {
			o.Types[n] = enumeration(e)
		}
	case "ifaces":
		o.Types = map[string]any{}
		for n, s := range servers {
			r := []signature{}
			for i := 0; i < s.Iface.NumMethod(); i++ {
				m := s.Iface.Method(i)
				r = append(r, signature{m.Name, m.Type.String()})
			}
			o.Types[n] = r
		}
	case "encode":
		p := reflect.New(datas[c.Type])
		if err := set(p.Elem(), c.Value); err != nil {
			o.Err = "cannot build: " + err.Error()
			return
		}
		b, err := p.Interface().(hbuf.Data).ToData()
		errOut(&o, err)
		o.Text = string(b)
		g := getters(p)
		o.Getters = &g
		q := reflect.New(datas[c.Type])
		if err := setters(q, c.Value); err != nil {
			o.Err = "setters: " + err.Error()
			return
		}
		v := get(q.Elem())
		o.Value = &v
	case "decode":
		p := reflect.New(datas[c.Type])
		errOut(&o, p.Interface().(hbuf.Data).FormData([]byte(c.Text)))
		v := get(p.Elem())
		o.Value = &v
	case "verify":
		p := reflect.New(datas[c.Type])
		if err := set(p.Elem(), c.Value); err != nil {
			o.Err = "cannot build: " + err.Error()
			return
		}
		m := p.MethodByName(c.Method)
		if !m.IsValid() {
			o.Err = "missing"
			return
		}
		r := m.Call([]reflect.Value{reflect.ValueOf(context.Background())})
		if err, ok := r[0].Interface().(error); ok {
			errOut(&o, err)
		}
	case "tables":
		engine = db.NewEngine()
		store = cache.NewStore()
		for n, t := range c.Tables {
			tab := &db.Table{Cols: t.Cols}
			for _, row := range t.Rows {
				r := db.Row{}
				for i, col := range t.Cols {
					r[col] = parseCell(t.Kind[col], row[i])
				}
				tab.Rows = append(tab.Rows, r)
			}
			engine.Tables[n] = tab
		}
	case "db":
		engine.Log, store.Log = nil, nil
		engine.Fail = map[string]bool{}
		store.Fail = map[string]bool{}
		for _, f := range c.Fail {
			if f == "exec" || f == "query" {
				engine.Fail[f] = true
			} else {
				store.Fail[f] = true
			}
		}
		engine.Hook = func(kind string) { store.Log = append(store.Log, kind) }
		p := reflect.New(datas[c.Type])
		if err := set(p.Elem(), c.Value); err != nil {
			o.Err = "cannot build: " + err.Error()
			return
		}
		m := p.MethodByName(c.Method)
		if !m.IsValid() {
			o.Err = "missing"
			return
		}
		in := []reflect.Value{reflect.ValueOf(ctxDB())}
		if m.Type().NumIn() == 2 {
			l := reflect.New(m.Type().In(1)).Elem()
			if c.Values != nil {
				if err := set(l, V{K: "list", L: c.Values}); err != nil {
					o.Err = "cannot build: " + err.Error()
					return
				}
			}
			in = append(in, l)
		}
		out := m.Call(in)
		if err, ok := out[len(out)-1].Interface().(error); ok {
			errOut(&o, err)
		}
		for _, r := range out[:len(out)-1] {
			o.Result = append(o.Result, get(r))
		}
		o.Tables = dump()
		o.Log = store.Log
		o.Text = strings.Join(engine.Log, "\n")
		o.Locked = len(store.Lock) > 0
		o.Cached = len(store.Data)
		for _, d := range store.TTL {
			o.TTL = append(o.TTL, int64(d/time.Second))
		}
	case "routes":
		s := servers[c.Type]
		var seen []Seen
		f := &Fake{c.Type, c.Script, &seen}
		router := call(s.Router, s.Fake(f)).(rpc.ServerRouter)
		for k := range router.GetInvoke() {
			o.Routes = append(o.Routes, k)
		}
		sort.Strings(o.Routes)
		o.Name = router.GetName() + " " + call(s.Client, (rpc.Client)(nil)).(rpc.ServerClient).GetName()
	case "call", "raw", "default":
		var seen []Seen
		srv := rpc.NewServer()
		ctx := context.Context(context.Background())
		reg := manage.Servers{}
		for n, s := range servers {
			if !contains(c.Names, n) {
				continue
			}
			f := s.Fake(&Fake{n, c.Binds[n], &seen})
			router := call(s.Router, f).(rpc.ServerRouter)
			srv.Add(router)
			reg[router.GetName()] = f
		}
		ctx = &manage.Context{Context: ctx, Manage: reg}
		mem := &rpc.Memory{Server: srv}
		if c.Op == "call" {
			mem.Canned = c.Text
		}
		s := servers[c.Type]
		if c.Op == "raw" {
			var sb strings.Builder
			m := rpc.NewContext(ctx)
			errOut(&o, srv.Handle(m, c.Text, strings.NewReader(c.Method), &sb))
			o.Answer = sb.String()
			o.Tags = m.Tags
			o.Seen = seen
			return
		}
		var target reflect.Value
		if c.Op == "call" {
			target = reflect.ValueOf(call(s.Client, mem))
		} else {
			target = reflect.ValueOf(s.Default)
		}
		m := target.MethodByName(c.Method)
		if !m.IsValid() {
			o.Err = "missing"
			return
		}
		p := reflect.New(m.Type().In(1).Elem())
		if err := set(p.Elem(), c.Value); err != nil {
			o.Err = "cannot build: " + err.Error()
			return
		}
		out := m.Call([]reflect.Value{reflect.ValueOf(ctx), p})
		if err, ok := out[len(out)-1].Interface().(error); ok {
			errOut(&o, err)
		}
		for _, r := range out[:len(out)-1] {
			o.Result = append(o.Result, get(r))
		}
		o.Path, o.Request, o.Answer = mem.Last.Path, mem.Last.Request, mem.Last.Response
		o.Seen = seen
		if mem.Ctx != nil {
			o.Tags = mem.Ctx.Tags
		}
	case "getserver":
		s := servers[c.Type]
		var seen []Seen
		f := s.Fake(&Fake{c.Type, nil, &seen})
		reg := manage.Servers{}
		router := call(s.Router, f).(rpc.ServerRouter)
		if c.Text == "here" {
			reg[router.GetName()] = f
		}
		ctx := &manage.Context{Context: context.Background(), Manage: reg}
		got := reflect.ValueOf(s.Get).Call([]reflect.Value{reflect.ValueOf(ctx)})[0].Interface()
		o.Text = fmt.Sprintf("%v", got == f)
	default:
		o.Err = "unknown command"
	}
	return
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// call calls a function with one argument
func call(f any, arg any) any {
	v := reflect.ValueOf(f)
	a := reflect.New(v.Type().In(0)).Elem()
	if arg != nil {
		a.Set(reflect.ValueOf(arg))
	}
	return v.Call([]reflect.Value{a})[0].Interface()
}

type field struct {
	Name  string `json:"name"`
	Type  string `json:"type"`
	JSON  string `json:"json"`
	Embed bool   `json:"embed"`
}

type signature struct {
	Name string `json:"name"`
	Type string `json:"type"`
}

func structure(t reflect.Type) []field {
	r := []field{}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		ty := f.Type.String()
		r = append(r, field{f.Name, ty, strings.TrimSuffix(f.Tag.Get("json"), ",omitempty"), f.Anonymous})
	}
	return r
}

type item struct {
	Name  string `json:"name"`
	Value string `json:"value"`
	Back  string `json:"back"`
	Same  bool   `json:"same"`
}

func enumeration(e Enum) []item {
	r := []item{}
	it := reflect.ValueOf(e.Values).MapRange()
	for it.Next() {
		p := it.Value().MethodByName("Pointer").Call(nil)[0]
		r = append(r, item{it.Key().String(), strconv.FormatInt(it.Value().Int(), 10),
			it.Value().MethodByName("ToName").Call(nil)[0].String(), p.Elem().Int() == it.Value().Int()})
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name < r[j].Name })
	return r
}

// lookup says what the numbers and the names are in an enum
func lookup(e Enum, numbers []string, names []string) any {
	vs := reflect.ValueOf(e.Values)
	items, consts, byValue, byName, equal := []any{}, map[string]string{}, []string{}, []string{}, [][]string{}
	for _, it := range enumeration(e) {
		items = append(items, map[string]string{"name": it.Name, "value": it.Value, "text": it.Back})
	}
	for n, v := range e.Consts {
		consts[n] = strconv.Itoa(v)
	}
	for _, n := range numbers {
		i, _ := strconv.Atoi(n)
		x := reflect.ValueOf(i).Convert(e.Type).MethodByName("ToName").Call(nil)[0].String()
		if x == "" {
			x = "none"
		}
		byValue = append(byValue, x)
	}
	for _, n := range names {
		x := vs.MapIndex(reflect.ValueOf(n))
		if x.IsValid() {
			byName = append(byName, strconv.FormatInt(x.Int(), 10))
		} else {
			byName = append(byName, "none")
		}
	}
	return map[string]any{"items": items, "consts": consts, "byValue": byValue, "byName": byName, "equal": equal}
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	defer out.Flush()
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			var c Cmd
			if e := json.Unmarshal(line, &c); e != nil {
				fmt.Fprintln(os.Stderr, e)
				os.Exit(3)
			}
			b, _ := json.Marshal(do(c))
			out.Write(b)
			out.WriteByte('\n')
		}
		if err != nil {
			return
		}
	}
}
