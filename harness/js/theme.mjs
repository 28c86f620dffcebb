// T01: style sheets generated from themes.
import fs from 'node:fs';
import path from 'node:path';
import vm from 'node:vm';
import { createRequire } from 'node:module';
import { execFileSync, spawnSync } from 'node:child_process';
import { main, check, fail, q } from './engine.mjs';
import { Native } from './wasm.mjs';

const script_path = () => path.join(process.env.VP_REPO, 'scripts/theme-to-css.cjs');

function module_dir() {
    return [path.join(process.env.VP_REPO, 'node_modules'), '/opt/veriftools/node/node_modules', '/usr/share/nodejs', '/usr/lib/node_modules']
        .find(d => fs.existsSync(path.join(d, 'yargs')));
}

class Exit extends Error { }

/** Runs the script within this process, as `node theme-to-css.cjs ARGS` would. */
async function run_inside(env, args) {
    const r = { code: 0, out: '', err: '', exited: false };
    const exit = code => {
        if (!r.exited) { r.exited = true; r.code = code ?? 0; }
        throw new Exit('exit');
    };
    const stream = k => ({ write: x => { r[k] += x; return true; }, isTTY: false, columns: 80 });
    const proc = Object.create(process, {
        argv: { value: ['node', script_path(), ...args], writable: true }, exit: { value: exit }, stdout: { value: stream('out') },
        stderr: { value: stream('err') }, exitCode: { value: undefined, writable: true }
    });
    const con = { log: (...x) => { r.out += x.join(' ') + '\n'; }, error: (...x) => { r.err += x.map(String).join(' ') + '\n'; } };
    con.warn = con.error; con.info = con.log; con.debug = con.log;
    const req = name => name === 'yargs' ? env.yargs(args).exitProcess(false) : name === 'process' ? proc : env.require(name);
    try {
        const m = { exports: {} };
        await env.script(m.exports, req, m, script_path(), path.dirname(script_path()), proc, con);
        await new Promise(setImmediate);
        if (!r.exited && proc.exitCode) { r.code = proc.exitCode; }
    } catch (e) {
        if (!(e instanceof Exit)) { r.code = 1; r.err += String(e); }
    }
    return r;
}
function run_outside(env, args) {
    const p = spawnSync('node', [script_path(), ...args], { env: { ...process.env, NODE_PATH: env.modules }, encoding: 'utf8' });
    return { code: p.status, out: p.stdout, err: p.stderr };
}

// ------------------------------------------------------------------ a small CSS implementation

function parse_css(text) {
    const rules = [];
    const stack = [];
    let at = 0, order = 0;
    text = text.replace(/\/\*[^]*?\*\//g, ' ');
    while (at < text.length) {
        const m = /[{};]/g;
        m.lastIndex = at;
        const hit = m.exec(text);
        if (!hit) { check(text.slice(at).trim() === '', 'css', `text after the last rule: ${q(text.slice(at))}`); break; }
        const head = text.slice(at, hit.index).trim();
        at = hit.index + 1;
        if (hit[0] === '{') {
            check(head !== '', 'css', `a block without selector at ${q(text.slice(Math.max(0, at - 60), at))}`);
            stack.push({ head, declarations: [] });
        } else if (hit[0] === ';') {
            check(stack.length, 'css', `a declaration outside of a block: ${q(head)}`);
            const d = /^([a-z-]+)\s*:\s*([^]+)$/.exec(head);
            check(d, 'css', `not a declaration: ${q(head)}`);
            stack.at(-1).declarations.push([d[1], d[2].trim()]);
        } else {
            check(stack.length, 'css', 'an unmatched }');
            check(head === '', 'css', `an unterminated declaration: ${q(head)}`);
            const b = stack.pop();
            if (b.head.startsWith('@')) {
                check(b.declarations.length === 0, 'css', 'declarations within a media query');
            } else {
                const medium = stack.map(x => x.head).filter(x => x.startsWith('@'));
                check(medium.length === stack.length, 'css', 'a nested rule');
                const selectors = b.head.split(',').map(parse_selector);
                rules.push({ medium, selectors, declarations: b.declarations, order: order++ });
            }
        }
    }
    check(stack.length === 0, 'css', 'an unterminated block');
    return rules;
}
function parse_selector(s) {
    return s.trim().split(/\s+/).map(compound => {
        const parts = compound.match(/^([a-z][a-z0-9-]*)?((?:\.[A-Za-z][\w-]*|\[[a-z-]+\^?=(?:"[^"\]]*"|[A-Za-z_][\w-]*)\])*)$/);
        check(parts, 'css', `not a selector: ${q(compound)}`);
        const simple = [...parts[2].matchAll(/\.([\w-]+)|\[([a-z-]+)(\^?=)(?:"([^"\]]*)"|([^\]]*))\]/g)]
            .map(m => m[1] ? { cls: m[1] } : { attr: m[2], prefix: m[3] === '^=', value: m[4] ?? m[5] });
        return { tag: parts[1], simple };
    });
}
function matches_compound(e, c) {
    return (!c.tag || c.tag === e.tag) && c.simple.every(x => x.cls ? e.classes.includes(x.cls)
        : e.attrs[x.attr] !== undefined && (x.prefix ? x.value !== '' && e.attrs[x.attr].startsWith(x.value) : e.attrs[x.attr] === x.value));
}
/** `chain` is the element after its ancestors, outermost first. */
function matches(chain, selector) {
    const go = (i, k) => {
        if (!matches_compound(chain[i], selector[k])) { return false; }
        if (k === 0) { return true; }
        for (let j = i - 1; j >= 0; --j) { if (go(j, k - 1)) { return true; } }
        return false;
    };
    return go(chain.length - 1, selector.length - 1);
}
function computed(rules, scheme, chain) {
    const best = {};
    for (const r of rules) {
        if (!r.medium.every(m => {
            const x = /^@media\s*\(\s*prefers-color-scheme\s*:\s*(light|dark)\s*\)$/.exec(m);
            check(x, 'css', `not a known media query: ${q(m)}`);
            return x[1] === scheme;
        })) { continue; }
        const specificity = Math.max(-1, ...r.selectors.filter(x => matches(chain, x))
            .map(x => x.reduce((n, k) => n + 100 * k.simple.length + (k.tag ? 1 : 0), 0)));
        if (specificity < 0) { continue; }
        for (const [p, v] of r.declarations) {
            if (!best[p] || specificity >= best[p].specificity) { best[p] = { v, specificity }; }
        }
    }
    return Object.fromEntries(Object.entries(best).map(([k, x]) => [k, x.v]).sort());
}

// ------------------------------------------------------------------ the reference

function resolve(value, palette) {
    for (let n = 0; value.startsWith('$'); ++n) {
        const next = Object.hasOwn(palette, value.slice(1)) ? palette[value.slice(1)] : undefined;
        if (typeof next !== 'string' || n > 100) { return null; }
        value = next;
    }
    return value;
}
/** What the theme says about a type: every key that is the type or one of its parents contributes. */
function expected(data, palette, long) {
    const style = {};
    const parts = long.split('-');
    for (let n = 1; n <= parts.length; ++n) {
        const key = parts.slice(0, n).join('-');
        if (!Object.hasOwn(data, key)) { continue; }
        const v = typeof data[key] === 'string' ? { color: data[key] } : data[key];
        for (const [p, x] of Object.entries(v)) { style[p] = resolve(x, palette); }
    }
    return Object.fromEntries(Object.entries(style).sort());
}

const colors = ['#fff', '#123456', 'red', 'rgb(1, 2, 3)', 'rgba(0, 0, 0, 0.5)', 'inherit', 'var(--x)', '#ABCDEF80', 'transparent', 'hsl(120 100% 50%)'];
const properties = ['color', 'font-weight', 'font-style', 'text-decoration', 'background-color', 'opacity', 'border-bottom'];

function gen_theme(s, env, broken) {
    const names = ['a', 'b', 'red', 'base_0', '_x', 'Accent', 'toString', 'constructor'];
    const palette = {};
    const order = [];
    for (let n = s.size(5); n > 0; --n) {
        const k = s.pick(names);
        if (!Object.hasOwn(palette, k)) {
            palette[k] = order.length && s.chance(1, 2) ? '$' + s.pick(order) : s.pick(colors);
            order.push(k);
        }
    }
    const value = () => order.length && s.chance(1, 2) ? '$' + s.pick(order) : s.pick(colors);
    const theme = {};
    if (s.chance(1, 3)) { theme.$schema = './ulight-theme.schema.json'; }
    theme.meta = { name: 'x' };
    const late = s.chance(1, 3);
    if (!late && (order.length || s.chance(1, 4))) { theme.palette = palette; }
    for (const v of s.pick([['light'], ['dark'], ['light', 'dark'], ['dark', 'light']])) {
        const data = {};
        const add = {
            foreground: () => { data.foreground = value(); },
            background: () => { data.background = value(); }
        };
        const special = s.below(3);
        if (special === 0) { add.foreground(); add.background(); }
        for (let n = s.size(40); n > 0; --n) {
            let key = s.pick(env.types).long;
            if (s.chance(1, 3)) { key = key.split('-').slice(0, 1 + s.below(2)).join('-'); }
            if (!env.by_long.has(key)) { continue; }
            if (s.chance(2, 3)) { data[key] = value(); }
            else {
                const style = {};
                for (let m = 1 + s.below(3); m > 0; --m) { style[s.pick(properties)] = value(); }
                data[key] = style;
            }
        }
        if (special === 1) { if (s.chance(1, 2)) { add.background(); } if (s.chance(1, 2)) { add.foreground(); } }
        theme[v] = data;
    }
    if (late && order.length) { theme.palette = palette; }
    let what = '';
    if (broken) {
        const vs = ['light', 'dark'].filter(v => theme[v]);
        const data = theme[s.pick(vs)];
        switch (s.below(7)) {
        case 0: theme[s.pick(['Light', 'lite', 'high-contrast', 'dark ', 'toString'])] = {}; what = 'unknown variant'; break;
        case 1: data[s.pick(['nope', 'name-', 'Name', 'name_type', 'str', 'constructor', 'toString', 'keyword-', 'text-emphasis'])] = 'red'; what = 'unknown type'; break;
        case 2: data[s.pick(env.types).long] = '$missing'; what = 'unknown palette entry'; break;
        case 3: data[s.pick(env.types).long] = { color: '$valueOf' }; what = 'unknown palette entry in object'; break;
        case 4: data[s.pick(env.types).long] = ''; what = 'empty value'; break;
        case 5: (theme.palette ??= {}).loop = '$loop2'; theme.palette.loop2 = '$loop'; data[s.pick(env.types).long] = '$loop'; what = 'cyclic palette'; break;
        default: data[s.pick(['background', 'foreground'])] = { color: 'red' }; what = 'background or foreground that is an object';
        }
    }
    return { theme, what };
}

let counter = 0;

async function t01(s, c, env) {
    const dir = path.join(env.o.tmp, `t-${process.pid}-${counter++}`);
    fs.mkdirSync(dir);
    try { await t01_in(s, c, env, dir); } finally { fs.rmSync(dir, { recursive: true, force: true }); }
}
async function t01_in(s, c, env, dir) {
    const many = s.chance(1, 3);
    const files = [];
    const sub = many ? s.pick(['themes', 'my_themes', 'v1.2', 'a b']) : s.pick(['', 'th.d', 'x_y']);
    const base = path.join(dir, sub);
    fs.mkdirSync(base, { recursive: true });
    const stems = ['ulight', 'vs_plus', 'x', 'dark-blue', 'wg21', 'ab_c', 'json'];
    const broken = s.chance(1, 6);
    for (let n = many ? s.size(3) : 1; n > 0; --n) {
        const stem = s.pick(stems);
        if (files.some(f => f.stem === stem)) { continue; }
        files.push({ stem, ...gen_theme(s, env, broken && n === 1) });
    }
    const shipped = !broken && s.chance(1, 60);
    if (shipped) {
        files.length = 0;
        const from = path.join(process.env.VP_REPO, 'themes');
        for (const f of fs.readdirSync(from).filter(f => f.endsWith('.json') && !f.includes('schema'))) {
            files.push({ stem: f.slice(0, -5), theme: JSON.parse(fs.readFileSync(path.join(from, f), 'utf8')), what: '' });
            if (!many) { break; }
        }
    }
    for (const f of files) { fs.writeFileSync(path.join(base, f.stem + '.json'), JSON.stringify(f.theme, null, s.chance(1, 2) ? 2 : 0)); }
    if (many && s.chance(1, 2)) {
        fs.writeFileSync(path.join(base, 'ulight-theme.schema.json'), '{"type":"object"}');
        fs.writeFileSync(path.join(base, 'README.md'), '# not a theme');
    }
    const input = many || files.length === 0 ? base : path.join(base, files[0].stem + '.json');
    const themed = many ? !shipped && s.chance(2, 3) || files.length !== 1 : s.chance(1, 2);
    const cowel = !themed && s.chance(1, 2);
    const no_background = s.chance(1, 3), no_foreground = s.chance(1, 3), to_file = s.chance(1, 2);
    const options = [[s.pick(['-i', '--input']), input]];
    if (themed) { options.push([s.pick(['-t', '--themed'])]); }
    if (cowel) { options.push([s.pick(['-M', '--cowel'])]); }
    if (no_background) { options.push([s.pick(['-B', '--no-block-background'])]); }
    if (no_foreground) { options.push([s.pick(['-F', '--no-foreground'])]); }
    const output = path.join(dir, 'out.css');
    if (to_file) { options.push([s.pick(['-o', '--output']), output]); }
    for (let i = options.length - 1; i > 0; --i) {
        const j = s.below(i + 1);
        [options[i], options[j]] = [options[j], options[i]];
    }
    const args = options.flat();
    c.describe(`${args.map(a => a.replace(dir, '')).join(' ')} ${q(files.map(f => [f.stem, f.theme]))}`);
    const real = s.chance(1, 150);
    const r = real ? run_outside(env, args) : await run_inside(env, args);
    const what = files.map(f => f.what).find(Boolean);
    if (what) {
        check(r.code !== 0, 'accepted', `a theme with ${what} is accepted`);
        check(r.out === '' && !fs.existsSync(output), 'output', `output in spite of ${what}`);
        check(r.err !== '', 'message', `no message about ${what}`);
        c.cls('rejected: ' + what);
        return;
    }
    check(r.code === 0, 'rejected', `a valid theme is rejected: ${r.err}`);
    const css = to_file ? fs.readFileSync(output, 'utf8') : r.out;
    check(!to_file || r.out === '', 'output', 'output on the console although it goes to a file');
    const rules = parse_css(css);
    c.cls(real ? 'own process' : 'in process');
    c.cls(shipped ? 'shipped themes' : themed ? 'themed' : cowel ? 'cowel' : 'plain');
    const html = (attrs, classes) => ({ tag: 'html', attrs, classes });
    const block = cls => ({ tag: 'div', attrs: {}, classes: [cls] });
    const token = t => ({ tag: 'h-', attrs: { 'data-h': t.short }, classes: [] });
    let tested = 0;
    const sample = env.types.filter((_, i) => i % 3 === tested % 3 || true);
    const expect = (got, want, where) => {
        c.evals++;
        check(JSON.stringify(got) === JSON.stringify(want), 'style', `${where} has ${q(got)} instead of ${q(want)} in\n${css.slice(0, 4000)}`);
    };
    const code_styles = (data, palette, cls) => {
        const want = {};
        if (cls === 'ulight-code-block' && data?.background !== undefined && !no_background) {
            want['background-color'] = want['border-color'] = resolve(data.background, palette);
        }
        if (data?.foreground !== undefined && !no_foreground) { want.color = resolve(data.foreground, palette); }
        return Object.fromEntries(Object.entries(want).sort());
    };
    for (const f of files) {
        const palette = f.theme.palette ?? {};
        for (const v of ['light', 'dark']) {
            const data = f.theme[v];
            const other = v === 'light' ? 'dark' : 'light';
            // Everything that selects this variant of this theme: [scheme, root element]
            const where = [];
            if (themed) {
                const name = f.stem.replace('_', '-');
                const attr = { 'data-ulight-theme': `${v}-${name}` };
                where.push([s.pick(['light', 'dark']), html(attr, []), 'below']);
                where.push([s.pick(['light', 'dark']), attr, 'on it']);
            } else if (cowel) {
                where.push([v, html({}, []), 'system'], [v, html({}, [v]), 'system and class']);
                if (data && !f.theme[other]) { where.push([other, html({}, [v]), 'class']); }
            } else {
                where.push([v, html({}, []), 'system']);
            }
            for (const [scheme, root, how] of where) {
                for (const cls of ['ulight-code', 'ulight-code-block']) {
                    const chain = how === 'on it' ? [html({}, []), { tag: 'code', attrs: root, classes: [cls] }] : [root, block('other'), block(cls)];
                    expect(computed(rules, scheme, chain), code_styles(data, palette, cls), `${f.stem} ${v} (${how}): .${cls}`);
                    const e = env.types[s.below(env.types.length)];
                    for (const t of how === 'system' || how === 'below' ? sample : [e]) {
                        const want = data ? expected(data, palette, t.long) : {};
                        const got = computed(rules, scheme, [...chain, token(t)]);
                        expect(got, want, `${f.stem} ${v} (${how}): ${t.long} (${t.short})`);
                        ++tested;
                    }
                    if (how !== 'on it') { expect(computed(rules, scheme, [root, block('other')]), {}, 'an unrelated element'); }
                }
            }
            if (cowel && data && f.theme[other]) {
                // With the class, the class decides; what the other variant sets in addition may shine through.
                for (const t of sample) {
                    const want = expected(data, palette, t.long), got = computed(rules, other, [html({}, [v]), block('ulight-code'), token(t)]);
                    for (const [p, x] of Object.entries(want)) { check(got[p] === x, 'style', `html.${v} in a ${other} system: ${t.long} has ${p}: ${got[p]} instead of ${x}`); }
                }
            }
        }
        c.nontrivial(JSON.stringify(f.theme), args.map(a => a.replace(dir, '')).join(' '));
    }
    if (themed) {
        expect(computed(rules, 'light', [html({}, []), block('ulight-code-block')]), {}, 'code without a theme');
        expect(computed(rules, 'light', [html({ 'data-ulight-theme': 'light-other' }, []), block('ulight-code-block'), token(env.types[0])]), {}, 'another theme');
    }
}

await main({
    T01: {
        run: t01, quick: 1200, thorough: 40000,
        rule: 'valid themes under generated options, every highlight type of which is styled by the generated sheet; distinct by theme and options',
        setup: async o => {
            const modules = module_dir();
            if (!modules) { throw new Error('yargs is not installed'); }
            const require = createRequire(path.join(modules, 'x.js'));
            const native = new Native(o);
            const types = native.types.filter(t => t.value !== 0);
            native.close();
            const text = fs.readFileSync(script_path(), 'utf8').replace(/^#!.*/, '');
            const script = vm.compileFunction(text, ['exports', 'require', 'module', '__filename', '__dirname', 'process', 'console'], { filename: script_path() });
            return { o, modules, require, yargs: require('yargs/yargs'), types, by_long: new Map(types.map(t => [t.long, t.short])), script };
        }
    }
});
