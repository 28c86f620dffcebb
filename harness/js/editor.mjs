// W02: the live editor, as a page whose browser is simulated.
import fs from 'node:fs';
import path from 'node:path';
import vm from 'node:vm';
import { main, check, fail, q } from './engine.mjs';
import { Native, load_layout, browser, silent } from './wasm.mjs';

const enc = new TextEncoder();

// ------------------------------------------------------------------ the simulated browser

class El {
    constructor(tag, id) {
        this.tagName = tag.toUpperCase();
        this.id = id;
        this.listeners = {};
        this.attributes = {};
        this.style = { gridTemplateRows: '', gridTemplateColumns: '' };
        this.children = [];
        this.html = '';
        this.own_text = '';
        const classes = this.classes = new Set();
        this.classList = {
            add: (...x) => x.forEach(k => classes.add(k)), remove: (...x) => x.forEach(k => classes.delete(k)), contains: k => classes.has(k),
            toggle: (k, f = !classes.has(k)) => { f ? classes.add(k) : classes.delete(k); return f; }
        };
    }
    addEventListener(type, f) { (this.listeners[type] ??= []).push(f); }
    removeEventListener(type, f) { this.listeners[type] = (this.listeners[type] ?? []).filter(x => x !== f); }
    dispatchEvent(e) {
        e.target ??= this;
        for (const f of this.listeners[e.type] ?? []) { f.call(this, e); }
        return !e.defaultPrevented;
    }
    setAttribute(k, v) { this.attributes[k] = String(v); }
    getAttribute(k) { return this.attributes[k] ?? null; }
    removeAttribute(k) { delete this.attributes[k]; }
    hasAttribute(k) { return k in this.attributes; }
    get dataset() {
        const name = k => 'data-' + k.replace(/[A-Z]/g, x => '-' + x.toLowerCase());
        return new Proxy({}, { set: (_, k, v) => { this.setAttribute(name(k), v); return true; }, get: (_, k) => this.attributes[name(k)] });
    }
    appendChild(c) { this.children.push(c); return c; }
    append(...c) { this.children.push(...c); }
    replaceChildren(...c) { this.children = c; }
    set innerHTML(v) { this.html = String(v); this.own_text = null; }
    get innerHTML() { return this.html ?? this.own_text.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;'); }
    set textContent(v) { this.own_text = String(v); this.html = null; }
    get textContent() { return this.own_text ?? this.html.replace(/<[^>]*>/g, '').replace(/&lt;/g, '<').replace(/&gt;/g, '>').replace(/&amp;/g, '&'); }
    set innerText(v) { this.textContent = v; }
    get innerText() { return this.textContent; }
    getBoundingClientRect() { return { left: 10, top: 20, width: 400, height: 200, right: 410, bottom: 220, x: 10, y: 20 }; }
    focus() { }
}
class TextArea extends El {
    constructor(id) { super('textarea', id); this.raw = ''; this.dirty = false; this.a = this.b = 0; }
    get value() { return this.raw; }
    set value(v) {
        this.raw = String(v).replace(/\r\n?/g, '\n');
        this.dirty = true;
        this.a = this.b = this.raw.length;
    }
    set textContent(v) { this.own_text = String(v); if (!this.dirty) { this.raw = this.own_text.replace(/\r\n?/g, '\n'); this.a = this.b = 0; } }
    get textContent() { return this.own_text; }
    set defaultValue(v) { this.textContent = v; }
    get defaultValue() { return this.own_text; }
    setSelectionRange(a, b) {
        const n = this.raw.length;
        a = a < 0 ? n : a; b = b < 0 ? n : b; // unsigned long
        this.b = Math.min(b, n);
        this.a = Math.min(a, this.b);
    }
    get selectionStart() { return this.a; }
    set selectionStart(v) { this.setSelectionRange(v, Math.max(v, this.b)); }
    get selectionEnd() { return this.b; }
    set selectionEnd(v) { this.setSelectionRange(Math.min(this.a, v), v); }
    setRangeText(t, a = this.a, b = this.b, mode = 'preserve') {
        const [s, e] = [this.a, this.b];
        this.raw = this.raw.slice(0, a) + t + this.raw.slice(b);
        this.dirty = true;
        const shift = p => p > b ? p + t.length - (b - a) : p > a ? a + t.length : p;
        if (mode === 'end') { this.a = this.b = a + t.length; }
        else if (mode === 'start') { this.a = this.b = a; }
        else if (mode === 'select') { this.a = a; this.b = a + t.length; }
        else { this.a = shift(s); this.b = shift(e); }
    }
}
class Select extends El {
    constructor(id, values) { super('select', id); this.chosen = values.length ? values[0] : null; this.children = values.map(v => ({ value: v })); }
    get value() { return this.chosen ?? ''; }
    set value(v) { this.chosen = this.children.some(c => String(c.value) === String(v)) ? String(v) : null; }
    appendChild(c) { super.appendChild(c); this.chosen ??= this.children.length === 1 ? String(c.value) : null; return c; }
    append(...c) { c.forEach(x => this.appendChild(x)); }
    get options() { return this.children; }
}

class Page {
    /** Loads the page in a browser with that storage. */
    static async load(env, storage, light, faults) {
        const p = new Page();
        const html = fs.readFileSync(path.join(process.env.VP_REPO, 'www/index.html'), 'utf8');
        const els = {};
        for (const m of html.matchAll(/<([a-z]+)[^>]*?\bid="([^"]+)"/g)) {
            const rest = html.slice(m.index);
            els[m[2]] = m[1] === 'textarea' ? new TextArea(m[2])
                : m[1] === 'select' ? new Select(m[2], [...rest.slice(0, rest.indexOf('</select>')).matchAll(/<option value="([^"]*)"/g)].map(x => x[1]))
                    : new El(m[1], m[2]);
        }
        p.els = els;
        p.document = Object.assign(new El('#document', ''), {
            getElementById: id => els[id] ?? null, querySelector: s => els[s.slice(1)] ?? null,
            createElement: t => Object.assign(new El(t, ''), { value: '' }), body: new El('body', ''), documentElement: new El('html', '')
        });
        class Event {
            constructor(type, init = {}) { Object.assign(this, init, { type, defaultPrevented: false }); }
            preventDefault() { this.defaultPrevented = true; }
            stopPropagation() { }
        }
        p.Event = Event;
        const b = browser(env.native, env.layout, faults);
        p.modules = b.modules;
        const localStorage = {
            getItem: k => storage.get(String(k)) ?? null, setItem: (k, v) => { storage.set(String(k), String(v)); }, removeItem: k => { storage.delete(String(k)); }
        };
        const globals = {
            document: p.document, localStorage, Event, InputEvent: Event, console: silent, fetch: b.fetch, TextEncoder, TextDecoder,
            matchMedia: m => ({ matches: m.includes('light') ? light : m.includes('dark') ? !light : false, addEventListener() { } }),
            requestAnimationFrame: f => { f(0); return 0; }, queueMicrotask
        };
        const context = vm.createContext(globals);
        globals.window = globals;
        vm.runInContext('globalThis.WebAssembly = undefined', context);
        globals.WebAssembly = b.WebAssembly;
        // The script in the head, which avoids flashes of another theme.
        for (const m of html.matchAll(/<script>([^]*?)<\/script>/g)) { vm.runInContext(m[1], context); }
        p.early_theme = p.document.documentElement.getAttribute('data-ulight-theme');
        const cache = new Map();
        const get = name => {
            let m = cache.get(name);
            if (!m) {
                m = new vm.SourceTextModule(env.scripts(name), { context, identifier: name });
                cache.set(name, m);
            }
            return m;
        };
        const link = async spec => get(path.basename(spec));
        for (const m of html.matchAll(/<script src="js\/([^"]+)" type="module"/g)) {
            const mod = get(m[1]);
            if (mod.status === 'unlinked') { await mod.link(link); }
            await mod.evaluate();
        }
        return p;
    }
    event(target, type, init) {
        const e = new this.Event(type, init);
        target.dispatchEvent(e);
        return !e.defaultPrevented;
    }
}

// ------------------------------------------------------------------ the model

const indent = '    ';
const line_start = (text, at) => at === 0 ? 0 : text.lastIndexOf('\n', at - 1) + 1;

/** The acceptable outcomes of a key: [text, selection start, selection end]. */
function after_tab(m, shift) {
    const { text, a, b } = m, at = line_start(text, a);
    if (!shift) { return [[text.slice(0, at) + indent + text.slice(at), a + 4, b + 4]]; }
    const k = Math.min(4, /^ */.exec(text.slice(at))[0].length);
    const clamp = p => p >= at + k ? p - k : Math.min(p, at);
    return [[text.slice(0, at) + text.slice(at + k), clamp(a), clamp(b)]];
}
function after_enter(m) {
    const { text, a } = m, at = line_start(text, a);
    const full = /^[ \t]*/.exec(text.slice(at))[0];
    const scope = /\{[ \t]*$/.test(text.slice(0, a)) ? indent : '';
    const r = [];
    for (const ws of new Set([full, full.slice(0, a - at)])) {
        const ins = '\n' + ws + scope;
        r.push([text.slice(0, a) + ins + text.slice(a), a + ins.length, a + ins.length]);
    }
    return r;
}

const pieces = ['a', 'foo', '{', '}', ' ', '  ', '    ', '\t', '\n', '\n\n', '{ ', '"s"', '//c', '<b>', '&', 'é', '🙂', 'int x;', '        '];
const gen_text = s => s.list(14, () => s.pick(pieces)).join('');
const count = (t, ch) => t.split(ch).length - 1;

async function w02(s, c, env) {
    const storage = new Map();
    let light = s.chance(1, 2);
    const m = { text: '', a: 0, b: 0, lang: 1, theme: 'default', vertical: false, fraction: null };
    const trace = [];
    let page;
    const html = (text, lang) => Buffer.concat(env.native.html(enc.encode(text), lang, 0, 4096, 1 << 20).chunks.map(x => Buffer.from(x))).toString();
    const verify = () => {
        const E = page.els, at = `after ${trace.at(-1)}: `;
        check(E['code-input'].value === m.text, 'text', at, `the text is ${q(E['code-input'].value)} instead of ${q(m.text)}`);
        const h = html(m.text, m.lang), h2 = html(h, env.html_id);
        check(E['code-highlight'].innerHTML === h, 'highlight', at, `highlighted is ${q(E['code-highlight'].innerHTML)} instead of ${q(h)}`);
        check(E.output.innerHTML === h2, 'output', at, `the output is ${q(E.output.innerHTML)} instead of ${q(h2)}`);
        for (const [id, t] of [['input-line-numbers', h], ['output-line-numbers', h2]]) {
            const want = Array.from({ length: count(t, '\n') + 1 }, (_, i) => i + 1).join('\n');
            check(E[id].textContent === want, 'line-numbers', at, `${id}: ${q(E[id].textContent)} instead of ${q(want)}`);
        }
        check(E['language-id'].value === String(m.lang), 'language', at, `the language is ${q(E['language-id'].value)} instead of ${m.lang}`);
        check(E['theme-picker'].value === m.theme, 'theme', at, `the theme is ${q(E['theme-picker'].value)} instead of ${q(m.theme)}`);
        const resolved = m.theme === 'default' ? (m.theme_light ? 'light-ulight' : 'dark-ulight') : m.theme;
        for (const e of [page.document.documentElement, E['code-input-container'], E['output-container']]) {
            check(e.getAttribute('data-ulight-theme') === resolved, 'theme', at, `the theme of ${e.tagName} is ${q(e.getAttribute('data-ulight-theme'))} instead of ${resolved}`);
        }
        check(page.document.body.classList.contains('vertical') === m.vertical, 'orientation', at, 'the orientation is wrong');
        const st = E.container.style, size = m.fraction === null ? '' : `${m.fraction}fr var(--separator-width) ${1 - m.fraction}fr`;
        check(st[m.vertical ? 'gridTemplateRows' : 'gridTemplateColumns'] === size && st[m.vertical ? 'gridTemplateColumns' : 'gridTemplateRows'] === '',
            'fraction', at, `rows ${q(st.gridTemplateRows)}, columns ${q(st.gridTemplateColumns)} instead of ${q(size)} (vertical: ${m.vertical})`);
        for (const mod of page.modules) { check(mod.live.size === 0, 'leak', at, 'memory is left allocated'); }
        c.evals++;
    };
    const load = async () => {
        page = await Page.load(env, storage, light, s);
        m.a = m.b = 0;
        m.theme_light = light;
        const resolved = m.theme === 'default' ? (light ? 'light-ulight' : 'dark-ulight') : m.theme;
        check(page.early_theme === resolved, 'early-theme', `the theme before the scripts run is ${q(page.early_theme)} instead of ${resolved}`);
        const ids = page.els['language-id'].children.map(x => Number(x.value));
        check(JSON.stringify([...ids].sort((x, y) => x - y)) === JSON.stringify(env.ids), 'languages', `the languages to choose from are ${q(ids)}`);
        for (const o of page.els['language-id'].children) { check(o.textContent === env.native.list.display[o.value], 'languages', `language ${o.value} is named ${q(o.textContent)}`); }
    };
    trace.push(`load (prefers ${light ? 'light' : 'dark'})`);
    c.describe(trace.join('; '));
    await load();
    verify();
    let edits = 0;
    for (let n = 1 + s.size(14); n > 0; --n) {
        const input = page.els['code-input'];
        const select = () => {
            m.a = s.below(m.text.length + 1);
            m.b = s.chance(2, 3) ? m.a : m.a + s.below(m.text.length - m.a + 1);
            input.setSelectionRange(m.a, m.b);
        };
        const say = x => { trace.push(x); c.describe(trace.join('; ')); };
        const outcome = options => {
            const got = [input.value, input.selectionStart, input.selectionEnd];
            const hit = options.find(o => JSON.stringify(o) === JSON.stringify(got));
            check(hit, 'edit', `after ${trace.at(-1)}: ${q(got)} instead of ${options.map(q).join(' or ')}`);
            const changed = m.text !== hit[0];
            [m.text, m.a, m.b] = hit;
            check(!changed || storage.get('editorContents') === m.text || [...storage.values()].includes(m.text), 'persist', `after ${trace.at(-1)} the text is not stored`);
            ++edits;
        };
        switch (s.below(12)) {
        case 0: case 1: {
            m.text = gen_text(s);
            say(`type ${q(m.text)}`);
            input.value = m.text;
            m.a = m.b = m.text.length;
            page.event(input, 'input', {});
            ++edits;
            break;
        }
        case 2: case 3: case 4: {
            select();
            const shift = s.chance(1, 2);
            say(`${shift ? 'Shift+' : ''}Tab at ${m.a}-${m.b} of ${q(m.text)}`);
            const options = after_tab(m, shift);
            check(!page.event(input, 'keydown', { key: 'Tab', shiftKey: shift }), 'default', 'Tab leaves the editor');
            outcome(options[0][0] === m.text ? [[m.text, m.a, m.b], ...options] : options);
            c.cls(shift ? 'unindent' : 'indent');
            break;
        }
        case 5: case 6: case 7: {
            select();
            const shift = s.chance(1, 6);
            say(`${shift ? 'Shift+' : ''}Enter at ${m.a}-${m.b} of ${q(m.text)}`);
            const plain = [m.text.slice(0, m.a) + '\n' + m.text.slice(m.b), m.a + 1, m.a + 1];
            const options = shift || m.a !== m.b ? [plain] : after_enter(m);
            if (page.event(input, 'keydown', { key: 'Enter', shiftKey: shift })) {
                // what the browser does
                input.value = plain[0];
                input.setSelectionRange(plain[1], plain[2]);
                page.event(input, 'input', {});
            }
            outcome(options);
            c.cls(options.length > 1 ? 'enter within indentation' : 'enter');
            break;
        }
        case 8: {
            m.lang = s.pick(env.ids);
            say(`choose language ${m.lang}`);
            page.els['language-id'].value = m.lang;
            page.event(page.els['language-id'], 'input', {});
            page.event(page.els['language-id'], 'change', {});
            c.cls('language');
            break;
        }
        case 9: {
            m.theme = s.pick(page.els['theme-picker'].children.map(x => x.value));
            say(`choose theme ${m.theme}`);
            m.theme_light = light;
            page.els['theme-picker'].value = m.theme;
            page.event(page.els['theme-picker'], 'input', {});
            page.event(page.els['theme-picker'], 'change', {});
            c.cls('theme');
            break;
        }
        case 10: {
            if (s.chance(1, 2)) {
                m.vertical = s.chance(1, 2);
                say(`split ${m.vertical ? 'vertically' : 'horizontally'}`);
                page.event(page.els[m.vertical ? 'button-split-vertical' : 'button-split-horizontal'], 'click', {});
                c.cls('split');
            } else {
                const x = s.below(500), y = s.below(300), drag = s.chance(3, 4);
                say(`${drag ? 'drag' : 'move'} to ${x},${y}`);
                if (drag) {
                    page.event(page.els.separator, 'mousedown', {});
                    page.event(page.document, 'mousemove', { clientX: 1, clientY: 1 });
                }
                page.event(page.document, 'mousemove', { clientX: x, clientY: y });
                if (drag) {
                    check(page.document.body.classes.size === (m.vertical ? 2 : 1), 'dragging', 'dragging is not shown');
                    m.fraction = Math.min(Math.max(m.vertical ? (y - 20) / 200 : (x - 10) / 400, 0.1), 0.9);
                    page.event(page.document, 'mouseup', {});
                    page.event(page.document, 'mousemove', { clientX: 3, clientY: 3 });
                }
                check(page.document.body.classes.size === (m.vertical ? 1 : 0), 'dragging', 'dragging is still shown');
                c.cls('drag');
            }
            break;
        }
        default:
            if (s.chance(1, 3)) { light = !light; }
            say(`reload (prefers ${light ? 'light' : 'dark'})`);
            await load();
            c.cls('reload');
        }
        verify();
    }
    if (edits) { c.nontrivial(trace.join(';')); }
}

await main({
    W02: {
        run: w02, quick: 900, thorough: 16000,
        rule: 'histories of using the editor with at least one edit; distinct by history',
        setup: async o => {
            const native = new Native(o);
            const sources = new Map();
            const scripts = name => {
                if (!sources.has(name)) { sources.set(name, fs.readFileSync(path.join(process.env.VP_REPO, 'www/js', name), 'utf8')); }
                return sources.get(name);
            };
            const ids = [...new Set(native.list.entries.map(e => e.id))].sort((a, b) => a - b);
            return { o, native, layout: load_layout(), scripts, ids, html_id: native.lang(enc.encode('html')) };
        },
        teardown: env => env.native.close()
    }
});
