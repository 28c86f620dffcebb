// A stand-in for ulight.wasm: real WebAssembly memory and function table, the exports of the module
// implemented by the native library (jsrpc), in the memory layout that the header has on wasm32.
import fs from 'node:fs';
import path from 'node:path';
import { spawn, spawnSync } from 'node:child_process';
import { fail, check } from './engine.mjs';

const enc = new TextEncoder();

export class Native {
    constructor(o) {
        const a = path.join(o.tmp, `rpc-${process.pid}-a`), b = path.join(o.tmp, `rpc-${process.pid}-b`);
        spawnSync('mkfifo', [a, b]);
        this.child = spawn(process.env.VP_JSRPC, [a, b], { stdio: ['ignore', 'ignore', 'inherit'] });
        this.w = fs.openSync(a, 'w');
        this.r = fs.openSync(b, 'r');
        this.buf = Buffer.alloc(0);
        this.list = this.fetch_list();
        this.types = this.fetch_types();
    }
    close() { fs.closeSync(this.w); fs.closeSync(this.r); this.child.kill(); }
    send(head, body) {
        fs.writeFileSync(this.w, Buffer.concat([Buffer.from(head + '\n'), Buffer.from(body ?? [])]));
    }
    more() {
        const b = Buffer.alloc(1 << 18);
        const n = fs.readSync(this.r, b, 0, b.length, null);
        if (n === 0) { throw new Error('the native library ended'); }
        this.buf = this.buf.length ? Buffer.concat([this.buf, b.subarray(0, n)]) : b.subarray(0, n);
    }
    line() {
        for (let i; ;) {
            if ((i = this.buf.indexOf(10)) >= 0) {
                const s = this.buf.toString('utf8', 0, i);
                this.buf = this.buf.subarray(i + 1);
                return s;
            }
            this.more();
        }
    }
    bytes(n) {
        while (this.buf.length < n) { this.more(); }
        const r = Uint8Array.from(this.buf.subarray(0, n));
        this.buf = this.buf.subarray(n);
        return r;
    }
    /** @returns {{status:number, chunks:Uint8Array[], error:string}} */
    html(source, lang, flags, tokens, text) {
        this.send(`html ${lang} ${flags} ${tokens} ${text} ${source.length}`, source);
        const [status, n] = this.line().split(' ').map(Number);
        const chunks = [];
        for (let i = 0; i < n; ++i) { chunks.push(this.bytes(Number(this.line()))); }
        const error = Buffer.from(this.bytes(Number(this.line()))).toString();
        return { status, chunks, error };
    }
    lang(name) { this.send(`lang ${name.length}`, name); return Number(this.line()); }
    fetch_list() {
        this.send('list');
        const [n, count] = this.line().split(' ').map(Number);
        const entries = [], display = [];
        for (let i = 0; i < n; ++i) {
            const [id, len] = this.line().split(' ').map(Number);
            entries.push({ id, name: Buffer.from(this.bytes(len)).toString() });
        }
        for (let i = 0; i < count; ++i) { display.push(Buffer.from(this.bytes(Number(this.line()))).toString()); }
        return { entries, display };
    }
    fetch_types() {
        this.send('types');
        const r = [];
        for (let n = Number(this.line()); n > 0; --n) {
            const [value, long, short] = this.line().split(' ');
            r.push({ value: Number(value), long, short });
        }
        return r;
    }
}

export function load_layout() {
    const v = [...fs.readFileSync(process.env.VP_LAYOUT, 'utf8').matchAll(/\.int32\s+(\d+)/g)].map(m => Number(m[1]));
    let i = 0;
    const n = () => v[i++];
    return {
        state: {
            size: n(), align: n(), source: n(), source_length: n(), lang: n(), flags: n(), token_buffer: n(), token_buffer_length: n(),
            flush_tokens_data: n(), flush_tokens: n(), html_tag_name: n(), html_tag_name_length: n(), html_attr_name: n(),
            html_attr_name_length: n(), text_buffer: n(), text_buffer_length: n(), flush_text_data: n(), flush_text: n(), error: n(),
            error_length: n()
        },
        token: { size: n(), align: n() },
        entry: { size: n(), name: n(), name_length: n(), lang: n() },
        view: { size: n(), text: n(), length: n() }
    };
}

/** One instantiated module. `faults` decides when memory grows and when allocations fail. */
export class Module {
    constructor(native, layout, faults, imports) {
        this.native = native;
        this.layout = layout;
        this.faults = faults;
        this.imports = imports;
        this.live = new Map();
        this.initialized = 0;
        this.memory = new WebAssembly.Memory({ initial: 2 + faults.below(3), maximum: 4096 });
        this.table = new WebAssembly.Table({ element: 'anyfunc', initial: 1 + faults.below(5) });
        this.top = 16 + faults.below(64);
        this.fail_after = -1;
        this.html_calls = 0;
        this.build_static();
        const self = this;
        this.exports = {
            memory: this.memory,
            __indirect_function_table: this.table,
            _initialize() { ++self.initialized; },
            ulight_lang_list: this.list_address,
            ulight_lang_list_length: this.list_length_address,
            ulight_lang_display_names: this.display_address,
            ulight_alloc: (size, align) => self.alloc(size, align),
            ulight_free: (address, size, align) => self.free(address, size, align),
            ulight_new: () => self.new_state(),
            ulight_delete: a => self.delete_state(a),
            ulight_get_lang: (a, n) => self.native.lang(self.read(a, n)),
            ulight_source_to_html: a => self.source_to_html(a)
        };
    }
    view() { return new DataView(this.memory.buffer); }
    u32(a) { return this.view().getUint32(a, true); }
    set32(a, v) { this.view().setUint32(a, v, true); }
    read(a, n) {
        check(a >= 0 && n >= 0 && a + n <= this.memory.buffer.byteLength, 'out-of-bounds', `read of ${n} bytes at ${a}`);
        return Uint8Array.from(new Uint8Array(this.memory.buffer, a, n));
    }
    grow(pages) {
        this.memory.grow(pages);
        this.imports?.env?.emscripten_notify_memory_growth?.(0);
    }
    maybe_grow() { if (this.faults.chance(1, 6)) { this.grow(1 + this.faults.below(2)); } }
    reserve(size, align) {
        this.top = Math.ceil(this.top / align) * align;
        const a = this.top;
        this.top += size;
        const need = this.top + 16 - this.memory.buffer.byteLength;
        if (need > 0) { this.grow(Math.ceil(need / 65536)); }
        return a;
    }
    put_static(s) {
        const b = enc.encode(s), a = this.reserve(b.length + 1, 1);
        new Uint8Array(this.memory.buffer).set(b, a);
        return { a, n: b.length };
    }
    build_static() {
        const { entry, view } = this.layout, { entries, display } = this.native.list;
        const names = entries.map(e => this.put_static(e.name)), displays = display.map(e => this.put_static(e));
        this.tag = this.put_static('h-');
        this.attr = this.put_static('data-h');
        this.list_address = this.reserve(entry.size * entries.length, 4);
        entries.forEach((e, i) => {
            this.set32(this.list_address + i * entry.size + entry.name, names[i].a);
            this.set32(this.list_address + i * entry.size + entry.name_length, names[i].n);
            this.set32(this.list_address + i * entry.size + entry.lang, e.id);
        });
        this.list_length_address = this.reserve(4, 4);
        this.set32(this.list_length_address, entries.length);
        this.display_address = this.reserve(view.size * display.length, 4);
        displays.forEach((e, i) => {
            this.set32(this.display_address + i * view.size + view.text, e.a);
            this.set32(this.display_address + i * view.size + view.length, e.n);
        });
    }
    alloc(size, align) {
        check(Number.isInteger(size) && size >= 0 && [1, 2, 4, 8, 16].includes(align), 'alloc', `allocation of ${size} bytes aligned to ${align}`);
        if (this.fail_after === 0) { this.failed = true; return 0; }
        if (this.fail_after > 0) { --this.fail_after; }
        this.maybe_grow();
        this.top += this.faults.below(3);
        const a = this.reserve(Math.max(size, 1), align);
        new Uint8Array(this.memory.buffer).fill(0xA5, a, a + size);
        this.live.set(a, { size, align });
        return a;
    }
    free(address, size, align) {
        const l = this.live.get(address);
        check(l, 'free', `memory at ${address} is freed, which is not allocated`);
        check(l.size === size && l.align === align, 'free', `memory allocated with ${l.size}/${l.align} is freed with ${size}/${align}`);
        new Uint8Array(this.memory.buffer).fill(0xDD, address, address + size);
        this.live.delete(address);
    }
    new_state() {
        const L = this.layout.state, a = this.alloc(L.size, L.align);
        if (a === 0) { return 0; }
        this.live.get(a).state = true;
        new Uint8Array(this.memory.buffer).fill(0, a, a + L.size);
        this.set32(a + L.html_tag_name, this.tag.a);
        this.set32(a + L.html_tag_name_length, this.tag.n);
        this.set32(a + L.html_attr_name, this.attr.a);
        this.set32(a + L.html_attr_name_length, this.attr.n);
        return a;
    }
    delete_state(a) {
        const l = this.live.get(a);
        check(l?.state, 'delete', `ulight_delete(${a}) without such a state`);
        this.live.delete(a);
    }
    within(a, n, align, what) {
        for (const [b, l] of this.live) {
            if (a >= b && a + n <= b + l.size) {
                check(a % align === 0, 'alignment', `the ${what} is at ${a}`);
                return;
            }
        }
        fail('dangling', `the ${what} at ${a} of ${n} bytes is not within an allocation`);
    }
    source_to_html(a) {
        const L = this.layout.state;
        check(this.live.get(a)?.state, 'state', 'ulight_source_to_html without a state');
        check(this.initialized === 1, 'initialize', `_initialize was called ${this.initialized} times`);
        const f = k => this.u32(a + L[k]);
        this.within(f('source'), f('source_length'), 1, 'source');
        this.within(f('token_buffer'), f('token_buffer_length') * this.layout.token.size, this.layout.token.align, 'token buffer');
        this.within(f('text_buffer'), f('text_buffer_length'), 1, 'text buffer');
        check(f('html_tag_name') === this.tag.a && f('html_tag_name_length') === this.tag.n, 'names', 'the tag name was changed');
        check(f('html_attr_name') === this.attr.a && f('html_attr_name_length') === this.attr.n, 'names', 'the attribute name was changed');
        const text = f('text_buffer'), flush = this.table.get(f('flush_text')), data = f('flush_text_data');
        const source = this.read(f('source'), f('source_length'));
        ++this.html_calls;
        const r = this.native.html(source, f('lang') >>> 0, f('flags') >>> 0, f('token_buffer_length'), f('text_buffer_length'));
        if (r.status !== 0) {
            const e = this.put_static(r.error);
            this.set32(a + L.error, e.a);
            this.set32(a + L.error_length, e.n);
            return r.status;
        }
        check(flush, 'flush', 'no function to flush text');
        for (const c of r.chunks) {
            this.maybe_grow();
            new Uint8Array(this.memory.buffer).set(c, text);
            flush(data, text, c.length);
            new Uint8Array(this.memory.buffer).fill(0x3F, text, text + c.length);
        }
        this.maybe_grow();
        return 0;
    }
}

/** What the browser provides: fetch and WebAssembly, with every instantiated stand-in in `modules`. */
export function browser(native, layout, faults) {
    const real = WebAssembly;
    const modules = [];
    const fake_bytes = enc.encode('ulight.wasm');
    const make = imports => {
        const m = new Module(native, layout, faults, imports);
        modules.push(m);
        return { module: {}, instance: { exports: m.exports } };
    };
    return {
        modules,
        async fetch(uri) {
            const name = String(uri).split('/').pop();
            if (name === 'ulight.wasm') { return new Response(fake_bytes); }
            return new Response(fs.readFileSync(path.join(process.env.VP_REPO, 'src/main/wasm', name)));
        },
        WebAssembly: Object.assign(Object.create(real), {
            Memory: real.Memory, Table: real.Table, Module: real.Module, Instance: real.Instance, compile: b => real.compile(b),
            instantiate: async (b, imports) => b instanceof real.Module || b.byteLength !== fake_bytes.length ? real.instantiate(b, imports) : make(imports),
            instantiateStreaming: async (resp, imports) => { await resp; return make(imports); }
        })
    };
}
export const silent = { log() { }, error() { }, warn() { }, info() { }, debug() { } };

/** Replaces what the browser provides while `f` runs. */
export async function with_browser(o, native, layout, faults, f) {
    const saved = { fetch: globalThis.fetch, WebAssembly: globalThis.WebAssembly, console: globalThis.console };
    const { modules, ...provided } = browser(native, layout, faults);
    Object.assign(globalThis, provided, { console: { ...saved.console, ...silent } });
    try {
        return await f(modules);
    } finally {
        Object.assign(globalThis, saved);
    }
}

/** A copy of the scripts that node takes for modules. */
export function copy_scripts(o) {
    const dir = path.join(o.tmp, `js-${process.pid}`);
    fs.mkdirSync(dir);
    fs.writeFileSync(path.join(dir, 'package.json'), '{"type":"module"}\n');
    const from = path.join(process.env.VP_REPO, 'www/js');
    for (const f of fs.readdirSync(from)) { fs.copyFileSync(path.join(from, f), path.join(dir, f)); }
    return dir;
}

const words = ['int', 'x', 'return', 'foo', '"str"', "'c'", '/* é */', '// 日本語', '# head', '<b>', '</b>', '&amp;', '&', '<', '>', '"', '{', '}', '(', ')',
    ';', '=', '+', '42', '0x1F', '1.5e3', '\n', '\n\n', ' ', '\t', '🙂', 'é', '\uFEFF', '\0', '\u2028', 'fn main() {}', 'let s = `a${b}c`;', '- [ ] x',
    '```js\nf()\n```', 'def f(): pass', 'ä', 'ö', '߿', 'ࠀ', '\u{10FFFF}', '\u{1F469}\u200D'];

/** Text of any kind, sometimes long enough to fill the buffers several times. */
export function gen_source(s, lone) {
    const piece = () => {
        switch (s.below(8)) {
        case 0: return String.fromCodePoint(s.pick([0x7F, 0x80, 0x7FF, 0x800, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF]));
        case 1: return lone && s.chance(1, 3) ? String.fromCharCode(0xD800 + s.below(0x800)) : s.pick(words);
        default: return s.pick(words);
        }
    };
    let r = '';
    for (let n = s.size(40); n > 0; --n) { r += piece(); }
    if (s.chance(1, 4) && r.length) {
        r = r.repeat(1 + Math.floor((2000 + s.below(30000)) / r.length));
        r = 'a'.repeat(s.below(4)) + r;
    }
    return r;
}
