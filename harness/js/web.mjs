// W01: the JavaScript interface of the WebAssembly build.
import path from 'node:path';
import { main, check, fail, q } from './engine.mjs';
import { Native, load_layout, with_browser, copy_scripts, gen_source } from './wasm.mjs';

const enc = new TextEncoder();

function join(chunks) { return Buffer.concat(chunks.map(c => Buffer.from(c))); }

async function w01(s, c, env) {
    const { native, layout, ulight } = env;
    const { entries, display } = native.list;
    const names = [...new Map(entries.map(e => [e.name, e.id])).keys()];
    const trace = [];
    let interesting = '';
    await with_browser(env.o, native, layout, s, async modules => {
        const lib = [];
        for (let n = 1 + s.below(2); n > 0; --n) { lib.push(await ulight.loadWasm()); }
        check(modules.length === lib.length, 'load', 'not one module per instance');
        for (let n = 1 + s.size(6); n > 0; --n) {
            const i = s.below(lib.length), w = lib[i], m = modules[i];
            m.fail_after = s.chance(1, 5) ? s.below(5) : -1;
            m.failed = false;
            const fault = m.fail_after >= 0 ? ` (allocation ${m.fail_after} fails)` : '';
            const call = f => {
                c.evals++;
                try { return { value: f() }; } catch (e) {
                    if (e?.tag) { throw e; }
                    return { error: e };
                }
            };
            const out_of_memory = r => {
                // Only an injected fault may fail, and it has to be reported as what it is.
                if ('error' in r) {
                    if (!m.failed) { return false; }
                    check(r.error instanceof Error && /alloc/i.test(r.error.message), 'alloc-error', `a failed allocation is reported as ${r.error?.stack ?? r.error}`);
                    c.cls('allocation failure');
                    return true;
                }
                check(!m.failed, 'alloc-ignored', `an allocation failed, and ${trace.at(-1)} gives ${q(r.value)}`);
                return false;
            };
            switch (s.below(8)) {
            case 0: case 1: case 2: case 3: {
                let source = gen_source(s, true);
                const expected_bytes = enc.encode(source);
                if (s.chance(1, 3)) { source = expected_bytes; }
                let key, id;
                switch (s.below(8)) {
                case 0: key = s.pick(['', 'nope', 'cpp ', 'é', '\0', 'c++\0']); id = native.lang(enc.encode(key)); break;
                case 1: key = id = s.pick([0, display.length, 255, -1]); break;
                case 2: case 3: case 4: key = s.pick(names); id = native.lang(enc.encode(key)); break;
                default: key = id = 1 + s.below(display.length - 1);
                }
                trace.push(`toHtml(${q(typeof source === 'string' ? source : [...source.subarray(0, 60)])}, ${q(key)})${fault}`);
                c.describe(trace.join('; '));
                const r = call(() => w.toHtml(source, key));
                if (out_of_memory(r)) { break; }
                const valid = id > 0 && id < display.length;
                if (!valid) {
                    check('error' in r, 'bad-lang', `toHtml succeeds for language ${q(key)}`);
                    c.cls('invalid language');
                    break;
                }
                if ('error' in r) { fail('toHtml', `toHtml throws ${r.error?.stack ?? r.error}`); }
                const want = native.html(expected_bytes, id, 0, 4096, 1 << 20);
                check(want.status === 0, 'native', 'the library fails');
                const html = join(want.chunks), text = new TextDecoder('utf-8', { ignoreBOM: true }).decode(html);
                check(r.value === text, 'html', `toHtml gives ${q(r.value)} instead of ${q(text)}`);
                c.cls(html.length > 65536 ? 'several flushes' : html.length === 0 ? 'empty output' : 'one flush');
                if (html.length !== expected_bytes.length) { interesting += q(text.slice(0, 400)) + id; }
                break;
            }
            case 4: {
                const name = s.chance(1, 2) ? s.pick(names) : s.pick(['', 'x', 'C++', 'markdow', 'é', '\uD800', 'c\0', 'cpp\n']);
                trace.push(`getLanguageId(${q(name)})${fault}`);
                c.describe(trace.join('; '));
                const r = call(() => w.getLanguageId(name));
                if (out_of_memory(r)) { break; }
                if ('error' in r) { fail('getLanguageId', `getLanguageId throws ${r.error?.stack ?? r.error}`); }
                check(r.value === native.lang(enc.encode(name)), 'id', `getLanguageId(${q(name)}) is ${r.value}`);
                c.cls('id');
                break;
            }
            case 5: {
                const by_name = s.chance(1, 2);
                const key = by_name ? (s.chance(2, 3) ? s.pick(names) : s.pick(['', 'nope'])) : s.below(display.length);
                trace.push(`getLanguageDisplayName(${q(key)})${fault}`);
                c.describe(trace.join('; '));
                const r = call(() => w.getLanguageDisplayName(key));
                if (out_of_memory(r)) { break; }
                if ('error' in r) { fail('display', `getLanguageDisplayName throws ${r.error?.stack ?? r.error}`); }
                const id = by_name ? native.lang(enc.encode(key)) : key;
                const want = by_name && id === 0 ? null : display[id];
                check(r.value === want, 'display', `getLanguageDisplayName(${q(key)}) is ${q(r.value)} instead of ${q(want)}`);
                c.cls('display name');
                break;
            }
            case 6: {
                trace.push('getLanguageList()');
                c.describe(trace.join('; '));
                const r = call(() => w.getLanguageList());
                if ('error' in r) { fail('list', `getLanguageList throws ${r.error?.stack ?? r.error}`); }
                const want = entries.map(e => ({ name: e.name, displayName: display[e.id], id: e.id }));
                const norm = l => JSON.stringify(l.map(e => [e.name, e.displayName, e.id]));
                check(norm(r.value) === norm(want), 'list', `getLanguageList gives ${q(r.value)}`);
                c.cls('list');
                break;
            }
            default: {
                trace.push('getLanguageListLength()');
                c.describe(trace.join('; '));
                const r = call(() => w.getLanguageListLength());
                check(r.value === entries.length, 'length', `getLanguageListLength() is ${q(r.value ?? r.error?.stack)}`);
                c.cls('list length');
            }
            }
            check(m.live.size === 0, 'leak', `after ${trace.at(-1)}: still allocated: ${q([...m.live.values()])}`);
            m.fail_after = -1;
        }
    });
    if (interesting) { c.nontrivial(interesting); }
}

await main({
    W01: {
        run: w01, quick: 900, thorough: 14000,
        rule: 'histories of calls with at least one highlighting whose output differs in length from its source; distinct by output and language',
        setup: async o => {
            const dir = copy_scripts(o);
            return { o, native: new Native(o), layout: load_layout(), ulight: await import(path.join(dir, 'ulight.js')) };
        },
        teardown: env => env.native.close()
    }
});
