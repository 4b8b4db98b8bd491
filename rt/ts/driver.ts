// Performs commands on generated TypeScript: one JSON object per line in, one per line out.
import * as readline from "readline"
import Long from "long"
import {Decimal} from "decimal.js"
import {classes, langs, verifies, views} from "./registry"

type Type = { shape: string, of: string, opt: boolean, copt: boolean, key: string }
type Field = { n: string, ts: string, t: Type }
type Value = { k: string, v?: string, l?: Value[], m?: { n: string, v: Value }[] }

let fields: Record<string, Field[]> = {}
let kinds: Record<string, string> = {}

const ints = ["int8", "int16", "int32", "uint8", "uint16", "uint32"]

function elem(t: Type): Type {
    return {...t, shape: "one"}
}

function build(key: string, t: Type, v: Value): any {
    if (v.k === "null") {
        return null
    }
    if (v.k === "list") {
        return v.l!.map((x) => build(key, elem(t), x))
    }
    if (v.k === "map") {
        const r: any = {}
        for (const e of v.m!) {
            r[e.n] = build(key, elem(t), e.v)
        }
        return r
    }
    if (v.k === "data") {
        return make(key + "." + t.of, v)
    }
    switch (t.of) {
        case "bool":
            return v.v === "true"
        case "string":
            return v.v
        case "int64":
            return Long.fromString(v.v!)
        case "uint64":
            return Long.fromString(v.v!, true)
        case "decimal":
            return new Decimal(v.v!)
        case "date":
            return new Date(Number(v.v))
        case "float":
        case "double":
            return Number(v.v)
    }
    if (ints.includes(t.of)) {
        return Number(v.v)
    }
    for (const e of classes[key + "." + t.of].values) {
        if (e.value === Number(v.v)) {
            return e
        }
    }
    throw "no enum value " + v.v
}

function make(q: string, v: Value): any {
    const x = new classes[q]()
    const key = q.split(".")[0]
    for (const e of v.m!) {
        const f = fields[q].find((f) => f.n === e.n)!
        if (!(f.ts in x)) {
            throw "no field " + f.ts
        }
        x[f.ts] = build(key, f.t, e.v)
    }
    return x
}

function bad(x: any): Value {
    return {k: "bad", v: typeof x + " " + String(x)}
}

function read(key: string, t: Type, x: any): Value {
    if (x === null) {
        return {k: "null"}
    }
    if (t.shape === "list") {
        return Array.isArray(x) ? {k: "list", l: x.map((y) => read(key, elem(t), y))} : bad(x)
    }
    if (t.shape === "map") {
        if (typeof x !== "object" || Array.isArray(x)) {
            return bad(x)
        }
        return {k: "map", m: Object.keys(x).sort().map((n) => ({n: n, v: read(key, elem(t), x[n])}))}
    }
    switch (t.of) {
        case "bool":
            return typeof x === "boolean" ? {k: "bool", v: String(x)} : bad(x)
        case "string":
            return typeof x === "string" ? {k: "str", v: x} : bad(x)
        case "int64":
        case "uint64":
            return x instanceof Long ? {k: "int", v: x.toString()} : bad(x)
        case "decimal":
            return x instanceof Decimal ? {k: "dec", v: x.toString()} : bad(x)
        case "date":
            return x instanceof Date ? {k: "date", v: String(x.getTime())} : bad(x)
        case "float":
        case "double":
            return typeof x === "number" ? {k: "num", v: String(x)} : bad(x)
    }
    if (ints.includes(t.of)) {
        return typeof x === "number" ? {k: "int", v: String(x)} : bad(x)
    }
    const q = key + "." + t.of
    if (kinds[q] === "enum") {
        return classes[q].values.includes(x) ? {k: "enum", v: String(x.value)} : bad(x)
    }
    return x instanceof classes[q] ? show(q, x) : bad(x)
}

function show(q: string, x: any): Value {
    const key = q.split(".")[0]
    return {k: "data", m: fields[q].map((f) => ({n: f.n, v: x[f.ts] === undefined ? {k: "missing"} : read(key, f.t, x[f.ts])}))}
}

// changes everything that can be changed
function spoil(key: string, t: Type, x: any): void {
    if (x === null || x === undefined) {
        return
    }
    if (t.shape === "list" && Array.isArray(x)) {
        x.forEach((y) => spoil(key, elem(t), y))
        x.push(null)
    } else if (t.shape === "map") {
        Object.keys(x).forEach((n) => spoil(key, elem(t), x[n]))
        x["spoilt"] = null
    } else if (x instanceof Date) {
        x.setTime(12345)
    } else if (kinds[key + "." + t.of] === "data") {
        for (const f of fields[key + "." + t.of]) {
            spoil(key, f.t, x[f.ts])
            x[f.ts] = null
        }
    }
}

function message(e: any): string {
    return e instanceof Error ? e.message : String(e)
}

async function call(c: any): Promise<any> {
    const seen: any[] = []
    const client = {
        invoke(server: string, name: string, id: number, param: any, fromJson: any, fromData: any): Promise<any> {
            seen.push({server: server, name: name, id: id, text: JSON.stringify(param.toJson())})
            if (c.fail) {
                return Promise.reject(new Error(c.fail))
            }
            return Promise.resolve(fromJson ? fromJson(JSON.parse(c.text)) : undefined)
        }
    }
    const [key] = c.type.split(".")
    const x = new classes[c.type + "Client"](client)
    const a: any = {seen: seen, name: x.name}
    try {
        const r = await x[c.method](make(c.param, c.value), undefined)
        a.result = r === undefined ? [] : [show(c.result, r)]
    } catch (e) {
        a.err = message(e)
    }
    return a
}

async function route(c: any): Promise<any> {
    const seen: any[] = []
    const server: any = {}
    for (const m of c.methods) {
        server[m.ts] = (param: any, ctx: any): Promise<any> => {
            seen.push({method: m.n, param: show(m.par, param)})
            if (c.fail) {
                return Promise.reject(new Error(c.fail))
            }
            return Promise.resolve(m.res === "" ? undefined : make(m.res, c.value))
        }
    }
    const r = new classes[c.type + "Router"](server)
    const inv = r.getInvoke()
    const a: any = {name: r.getName(), routes: Object.keys(inv), seen: seen}
    if (c.path in inv) {
        const i = inv[c.path]
        try {
            const res = await i.invoke(i.formData(JSON.parse(c.text)), undefined)
            a.text = res === undefined ? "" : JSON.stringify(i.toData(res))
        } catch (e) {
            a.err = message(e)
        }
    }
    return a
}

// ---- views: local time is an hour ahead

const HOUR = 3600000

function shift(d: any, by: number): any {
    if (d === null || d === undefined) {
        return null
    }
    if (!(d instanceof Date)) {
        throw Error("not a date: " + String(d))
    }
    return new Date(d.getTime() + by)
}

function context(model: any, c: any): any {
    const slots: any = {}
    for (const s of c.slots || []) {
        slots[s] = () => "slot:" + s
    }
    return {
        model: model,
        position: c.position,
        hide: c.hide,
        $slots: slots,
        $t: (s: string) => "t:" + s,
        $fd: (d: Date, format: string) => "fd:" + Math.floor(d.getTime() / 86400000) + ":" + ((d.getTime() % 86400000) + 86400000) % 86400000 + ":" + format,
        $timeToLocal: (d: any) => shift(d, HOUR),
        $timeToUtc: (d: any) => shift(d, -HOUR),
        $datePackerShortcuts: () => []
    }
}

function text(x: any): Value {
    return x === null || x === undefined ? {k: "str", v: ""} : typeof x === "string" ? {k: "str", v: x} : bad(x)
}

// a value, or a text that is none (yet)
function field(key: string, t: Type, x: any): Value {
    return typeof x === "string" && !(t.of === "string" && t.shape === "one") ? {k: "text", v: x} : x === undefined ? {k: "missing"} : read(key, t, x)
}

const flag = (x: any) => x !== undefined && x !== false

function formItem(key: string, q: string, e: any): any {
    const f = fields[q].find((f) => f.ts === e.props.prop)
    const x = e.children[0]
    let rule = ""
    for (const r of e.props.rules || []) {
        r.validator(null, "~", (err?: any) => rule += err === undefined ? "nothing" : message(err))
    }
    return {
        prop: e.props.prop, label: e.props.label, rule: rule, tag: x.tag, type: x.props.type || "",
        disabled: flag(x.props.disabled), clearable: flag(x.props.clearable), multiple: flag(x.props.multiple), unlink: flag(x.props["unlink-panels"]),
        options: x.children.filter((o: any) => o).map((o: any) => ({tag: o.tag, key: String(o.props.key), label: o.props.label, value: String(o.props.value.value)})),
        shown: !f ? bad(x) : x.tag === "el-input" ? text(x.props.modelValue) : field(key, f.t, x.props.modelValue)
    }
}

function column(key: string, q: string, e: any, model: any): any {
    const f = fields[q].find((f) => f.ts === e.props.prop)
    let x = e.children[0].default({row: model})
    const a: any = {prop: e.props.prop, label: e.props.label, width: e.props["min-width"], tag: "text", disabled: false}
    if (x !== null && typeof x === "object" && x.tag === "fragment") {
        x = x.children[0]
    }
    if (x !== null && typeof x === "object" && x.tag === "el-popover") {
        const s = x.children[0]
        const one = s.default(), two = s.reference()
        a.tag = x.tag
        a.shown = one.props.src === two.props.src && f ? field(key, f.t, one.props.src) : bad(one.props.src)
    } else if (x !== null && typeof x === "object" && x.tag) {
        a.tag = x.tag
        a.disabled = flag(x.props.disabled)
        a.shown = f ? field(key, f.t, x.props.modelValue) : bad(x)
    } else {
        a.shown = text(x)
    }
    return a
}

function keyOf(e: any): string {
    return typeof e === "string" ? e : e.props.prop
}

function view(c: any): any {
    const q = c.type
    const key = q.split(".")[0]
    const v = views[q + "." + c.view]
    if (v === undefined) {
        return {exists: false}
    }
    const model = make(q, c.value)
    const ctx = context(c.view === "form" ? model : undefined, c)
    const nodes = () => v.setup({size: "small"})(ctx)
    const a: any = {exists: true, keys: nodes().map(keyOf)}
    if (c.keysOnly) {
        return a
    }
    a.items = nodes().map((e: any) => c.view === "form" ? formItem(key, q, e) : column(key, q, e, model))
    a.after = {k: "data", m: fields[q].map((f) => ({n: f.n, v: field(key, f.t, model[f.ts])}))}
    a.events = (c.events || []).map((e: any) => {
        const m = make(q, c.value)
        const f = fields[q].find((f) => f.n === e.field)!
        const one = v.setup({size: "small"})(context(m, {})).find((n: any) => n.props.prop === f.ts).children[0]
        try {
            const x = e.event.k === "text" ? e.event.v : e.event.k === "local" ? (e.event.l ? e.event.l.map((d: string) => new Date(Number(d))) : new Date(Number(e.event.v)))
                : build(key, f.t, e.event)
            one.props["onUpdate:modelValue"](x)
            return field(key, f.t, m[f.ts])
        } catch (x) {
            return {k: "bad", v: message(x)}
        }
    })
    return a
}

async function perform(c: any): Promise<any> {
    const q = c.type
    switch (c.op) {
        case "init":
            fields = c.fields
            kinds = c.kinds
            return {}
        case "encode":
            return {text: JSON.stringify(make(q, c.value).toJson())}
        case "decode":
            return {value: show(q, classes[q].fromJson(JSON.parse(c.text)))}
        case "again":
            return {text: JSON.stringify(classes[q].fromJson(JSON.parse(c.text)).toJson())}
        case "new":
            return {value: show(q, new classes[q]())}
        case "clone": {
            const x = make(q, c.value)
            const y = x.clone()
            const a: any = {copy: y instanceof classes[q] ? show(q, y) : bad(y)}
            spoil(q.split(".")[0], {shape: "one", of: q.split(".")[1], opt: false, copt: false, key: ""}, y)
            a.after = show(q, x)
            return a
        }
        case "enum": {
            const e = classes[q]
            const at = (f: () => any) => {
                try {
                    return f()
                } catch (x) {
                    return "none"
                }
            }
            return {
                items: e.values.map((x: any) => ({name: x.name, value: String(x.value), text: x.toString()})),
                consts: Object.fromEntries(Object.getOwnPropertyNames(e).filter((n) => e[n] instanceof e).map((n) => [n, String(e[n].value)])),
                byValue: c.values.map((v: string) => String(at(() => e.valueOf(Number(v)).name))),
                byName: c.names.map((n: string) => String(at(() => e.nameOf(n).value))),
                equal: []
            }
        }
        case "call":
            return call(c)
        case "route":
            return route(c)
        case "verify": {
            const said: any[] = []
            const x = "text" in c ? c.text : build(q.split(".")[0], c.t, c.value)
            verifies[q]({t: (s: string) => s})({}, x, (e?: any) => said.push(e === undefined ? "" : e instanceof Error ? e.message : "bad " + e))
            return {said: said}
        }
        case "view":
            return view(c)
        case "lang":
            return {lang: langs[c.type] === undefined ? null : langs[c.type]}
    }
    throw "unknown op " + c.op
}

async function main() {
    for await (const line of readline.createInterface({input: process.stdin, crlfDelay: Infinity})) {
        if (line === "") {
            continue
        }
        let a: any
        try {
            a = await perform(JSON.parse(line))
        } catch (e) {
            a = {panic: message(e)}
        }
        process.stdout.write(JSON.stringify(a) + "\n")
    }
}

main()
