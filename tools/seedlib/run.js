// usage: node run.js GENERATED.ts TEST.js — runs TEST.js with the generated module and a byte-level Reader/Writer
const fs = require('fs');
const path = require('path');
let ts;
for (const p of ['typescript', '/opt/veriftools/node/node_modules/typescript', '/usr/local/lib/node_modules/typescript', '/usr/lib/node_modules/typescript']) {
    try { ts = require(p); break; } catch (e) {}
}
if (!ts) { console.error('no typescript'); process.exit(2); }
const SIZE = { uint8: 1, uint16: 2, uint32: 4, int8: 1, int16: 2, int32: 4, float: 4 };
const DV = { uint8: 'Uint8', uint16: 'Uint16', uint32: 'Uint32', int8: 'Int8', int16: 'Int16', int32: 'Int32', float: 'Float32' };
class Writer {
    constructor() { this.bytes = []; this.ops = []; Writer.last = this; }
    finish() { return new Uint8Array(this.bytes).buffer; }
    write_string(s) { this.ops.push('string'); for (const c of Buffer.from(s, 'latin1')) this.bytes.push(c); }
}
class Reader {
    constructor(data) { this.view = new DataView(data); this.pos = 0; this.failed = false; Reader.last = this; }
    read_string(n) {
        if (this.failed || this.pos + n > this.view.byteLength) { this.failed = true; return ''; }
        let s = '';
        for (let i = 0; i < n; ++i) s += String.fromCharCode(this.view.getUint8(this.pos++));
        return s;
    }
    left() { return this.view.byteLength - this.pos; }
}
for (const t of Object.keys(SIZE)) {
    Writer.prototype['write_' + t] = function (v) {
        this.ops.push(t);
        const b = new DataView(new ArrayBuffer(SIZE[t]));
        b['set' + DV[t]](0, v, true);
        for (let i = 0; i < SIZE[t]; ++i) this.bytes.push(b.getUint8(i));
    };
    Reader.prototype['read_' + t] = function () {
        if (this.failed || this.pos + SIZE[t] > this.view.byteLength) { this.failed = true; return 0; }
        const v = this.view['get' + DV[t]](this.pos, true);
        this.pos += SIZE[t];
        return v;
    };
}
const src = fs.readFileSync(process.argv[2], 'utf8');
// a whole-program compile: const enums are inlined, as with tsc
const opts = { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2019, noLib: true, noResolve: true, types: [] };
let outputText = '';
const host = {
    getSourceFile: (n, t) => n === 'x.ts' ? ts.createSourceFile(n, src, t, true) : undefined,
    writeFile: (n, t) => { outputText = t; }, getDefaultLibFileName: () => 'lib.d.ts', useCaseSensitiveFileNames: () => true,
    getCanonicalFileName: n => n, getCurrentDirectory: () => '', getNewLine: () => '\n', fileExists: n => n === 'x.ts', readFile: () => src,
};
const program = ts.createProgram(['x.ts'], opts, host);
const syntax = program.getSyntacticDiagnostics().map(d => ts.flattenDiagnosticMessageText(d.messageText, ' '));
program.emit();
const js = { outputText };
const mod = { exports: {} };
if (!syntax.length) {
    new Function('require', 'exports', 'module', js.outputText)(n => { if (n !== 'packet') throw new Error(n); return { Reader, Writer }; }, mod.exports, mod);
}
function same(a, b) {
    if (a === b) return true;
    if (typeof a !== 'object' || typeof b !== 'object' || !a || !b) return false;
    const ka = Object.keys(a).filter(k => a[k] !== undefined), kb = Object.keys(b).filter(k => b[k] !== undefined);
    return ka.length === kb.length && ka.every(k => same(a[k], b[k]));
}
const fail = m => { console.error('FAIL: ' + m); process.exit(1); };
require(path.resolve(process.argv[3]))({ mod: mod.exports, Reader, Writer, same, syntax, src, fail, ts });
console.log('ok');
