// node facts.js TYPESCRIPT DIR: type-checks all generated files below DIR/gen and prints what they declare.
const [ts, dir] = [require(process.argv[2]), process.argv[3]]
const path = require("path")
const fs = require("fs")

const stub = (n) => [path.join(dir, "stub", n, "index.ts")]
const options = {
    target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.ESNext, moduleResolution: ts.ModuleResolutionKind.Node10,
    strict: true, noEmit: true, types: [], lib: ["lib.es2020.d.ts", "lib.dom.d.ts"], baseUrl: dir, esModuleInterop: true, jsx: ts.JsxEmit.Preserve,
    paths: {"hbuf_ts": stub("hbuf_ts"), "long": stub("long"), "decimal.js": stub("decimal"), "element-plus": stub("element-plus"), "vue": stub("vue")}
}
const files = []
for (const key of fs.readdirSync(path.join(dir, "gen"))) {
    for (const f of fs.readdirSync(path.join(dir, "gen", key))) {
        files.push(path.join(dir, "gen", key, f))
    }
}
const program = ts.createProgram(files, options)
const checker = program.getTypeChecker()
const errors = {}
const owner = (f) => path.relative(path.join(dir, "gen"), f).split(path.sep)[0]

function report(key, f, pos, text) {
    (errors[key] = errors[key] || []).push(path.basename(f.fileName) + ":" + (f.getLineAndCharacterOfPosition(pos).line + 1) + " " + text)
}

for (const d of ts.getPreEmitDiagnostics(program)) {
    const text = ts.flattenDiagnosticMessageText(d.messageText, " ")
    if (!d.file || !d.file.fileName.startsWith(path.join(dir, "gen"))) {
        console.error(d.file ? d.file.fileName : "", text)
        process.exit(1)
    }
    report(owner(d.file.fileName), d.file, d.start, text)
}
const flags = ts.TypeFormatFlags.NoTruncation
const show = (t) => checker.typeToString(t, undefined, flags)
const decls = []
for (const name of files) {
    const f = program.getSourceFile(name)
    const symbol = checker.getSymbolAtLocation(f)
    if (!symbol) {
        continue
    }
    const kind = path.basename(name).split(".").slice(-2)[0]
    for (const e of checker.getExportsOfModule(symbol)) {
        const d = {key: owner(name), file: path.basename(name), kind: kind, name: e.name, fields: [], methods: [], statics: []}
        const type = e.flags & ts.SymbolFlags.Value && !(e.flags & ts.SymbolFlags.Class) ? checker.getTypeOfSymbol(e) : checker.getDeclaredTypeOfSymbol(e)
        d.what = e.flags & ts.SymbolFlags.Class ? "class" : e.flags & ts.SymbolFlags.Interface ? "interface" : "value"
        for (const p of d.what === "value" ? [] : checker.getPropertiesOfType(type)) {
            if (p.valueDeclaration && ts.getCombinedModifierFlags(p.valueDeclaration) & (ts.ModifierFlags.Private | ts.ModifierFlags.Protected)) {
                continue
            }
            const t = checker.getTypeOfSymbol(p)
            const s = t.getCallSignatures()[0]
            if (s) {
                d.methods.push({name: p.name, params: s.parameters.map((x) => show(checker.getTypeOfSymbol(x))), result: show(s.getReturnType())})
            } else {
                d.fields.push({name: p.name, type: show(t)})
            }
        }
        if (d.what === "class") {
            for (const p of checker.getPropertiesOfType(checker.getTypeOfSymbol(e))) {
                if (p.name !== "prototype") {
                    const t = checker.getTypeOfSymbol(p)
                    const s = t.getCallSignatures()[0]
                    d.statics.push({name: p.name, type: s ? s.parameters.map((x) => show(checker.getTypeOfSymbol(x))).join(", ") + " => " + show(s.getReturnType()) : show(t)})
                }
            }
        }
        decls.push(d)
    }
}
console.log(JSON.stringify({errors: errors, decls: decls}))
