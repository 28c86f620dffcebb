// Property-based testing engine for the JavaScript parts: choice sequences, workers, shrinking,
// replay files and evidence, with the same command line and result file as engine.cpp.
import fs from 'node:fs';
import path from 'node:path';
import { fork } from 'node:child_process';
import { createHash } from 'node:crypto';

export class Failure extends Error {
    constructor(tag, msg) {
        super(msg);
        this.tag = tag;
    }
}
export function fail(tag, ...msg) { throw new Failure(tag, msg.map(show).join('')); }
export function check(ok, tag, ...msg) { if (!ok) { fail(tag, ...msg); } }
export function show(x) { return typeof x === 'string' ? x : q(x); }
export function q(x) {
    const s = JSON.stringify(x) ?? String(x);
    return s.length > 1500 ? s.slice(0, 900) + ' … ' + s.slice(-500) + ` (${s.length} characters)` : s;
}

class Exhausted extends Error { }

/** Source of choices: random, or the recorded ones (and zeros after their end). */
export class Src {
    constructor(seed, recorded) {
        this.recorded = recorded;
        this.choices = [];
        this.s = [seed >>> 0, (seed * 2654435761) >>> 0, 0x9E3779B9, (seed ^ 0x5DEECE66) >>> 0];
        for (let i = 0; i < 12; ++i) { this.next(); }
    }
    next() { // xoshiro128**
        const s = this.s, r = Math.imul(rotl(Math.imul(s[1], 5), 7), 9) >>> 0, t = s[1] << 9;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 11);
        return r;
    }
    below(n) {
        if (this.choices.length > 200000) { throw new Exhausted(); }
        let v;
        if (this.recorded) {
            v = this.choices.length < this.recorded.length ? this.recorded[this.choices.length] % n : 0;
        } else {
            v = n <= 1 ? 0 : this.next() % n;
        }
        this.choices.push(v);
        return v;
    }
    chance(a, b) { return this.below(b) >= b - a; }
    pick(arr) { return arr[this.below(arr.length)]; }
    /** A size up to max, small ones preferred. */
    size(max) { return this.below(3) < 2 ? this.below(Math.min(max, 6) + 1) : this.below(max + 1); }
    list(max, f) { const r = []; for (let n = this.size(max); n > 0; --n) { r.push(f(this)); } return r; }
}
function rotl(x, k) { return (x << k) | (x >>> (32 - k)); }

class Ctx {
    constructor() { this.classes = []; this.known_ids = []; this.desc = ''; this.key = null; this.evals = 1; }
    cls(x) { this.classes.push(x); }
    describe(x) { this.desc = x; }
    nontrivial(...x) { this.key = createHash('md5').update(x.map(String).join('\0')).digest('base64').slice(0, 12); }
    known(id) { this.known_ids.push(id); }
}

async function run_case(prop, env, seed, recorded) {
    const src = new Src(seed, recorded);
    const c = new Ctx();
    try {
        await prop.run(src, c, env);
        return { ok: true, c, choices: src.choices };
    } catch (e) {
        if (e instanceof Exhausted) { return { ok: true, c, choices: src.choices }; }
        const known = e instanceof Failure ? null : 'exception';
        return { ok: false, c, choices: src.choices, tag: known ?? e.tag, msg: known ? (e?.stack ?? String(e)) : e.message };
    }
}

async function shrink(prop, env, best) {
    let budget = 3000;
    const end = process.cpuUsage().user / 1e6 + 15;
    const attempt = async choices => {
        if (budget-- <= 0 || process.cpuUsage().user / 1e6 > end) { budget = 0; return false; }
        const r = await run_case(prop, env, 0, choices);
        if (!r.ok && r.tag === best.tag && better(r.choices, best.choices)) { best = r; return true; }
        return false;
    };
    for (let progress = true; progress && budget > 0;) {
        progress = false;
        for (let n = best.choices.length; n >= 1; n = Math.floor(n / 2)) {
            for (let i = 0; i + n <= best.choices.length && budget > 0;) {
                if (await attempt([...best.choices.slice(0, i), ...best.choices.slice(i + n)])) { progress = true; }
                else { i += n; }
            }
        }
        for (let i = 0; i < best.choices.length && budget > 0; ++i) {
            for (const v of [0, best.choices[i] >> 1, best.choices[i] - 1]) {
                if (v >= 0 && v < best.choices[i]) {
                    const next = best.choices.slice();
                    next[i] = v;
                    if (await attempt(next)) { progress = true; break; }
                }
            }
        }
    }
    return best;
}
function better(a, b) {
    if (a.length !== b.length) { return a.length < b.length; }
    for (let i = 0; i < a.length; ++i) { if (a[i] !== b[i]) { return a[i] < b[i]; } }
    return false;
}

function parse_args() {
    const o = { tier: 'quick', seed: 1, workers: 8, 'cpu-limit': 600 };
    for (let i = 2; i + 1 < process.argv.length; i += 2) { o[process.argv[i].slice(2)] = process.argv[i + 1]; }
    for (const k of ['seed', 'workers', 'cpu-limit', 'worker', 'cases']) { if (o[k] !== undefined) { o[k] = Number(o[k]); } }
    return o;
}

async function worker(prop, o) {
    const env = await prop.setup?.(o) ?? {};
    const st = { cases: 0, evaluations: 0, classes: {}, keys: [], samples: [], known: {}, cut: false, violation: null };
    const keys = new Set();
    const n = o.cases ?? (o.tier === 'thorough' ? prop.thorough : prop.quick);
    const account = r => {
        ++st.cases;
        st.evaluations += r.c.evals;
        for (const k of r.c.classes) { st.classes[k] = (st.classes[k] ?? 0) + 1; }
        for (const k of r.c.known_ids) { (st.known[k] ??= { count: 0, sample: r.c.desc }).count++; }
        if (r.c.key && !keys.has(r.c.key)) {
            keys.add(r.c.key);
            if (st.samples.length < 3 && st.cases % 7 === 3) { st.samples.push(r.c.desc.slice(0, 600)); }
        }
    };
    for (let i = 0; i < n; ++i) {
        if (i % 64 === 0 && process.cpuUsage().user / 1e6 > o['cpu-limit']) { st.cut = true; break; }
        const seed = (Math.imul(o.seed, 0x9E3779B1) ^ Math.imul(o.worker + 1, 0x85EBCA6B) ^ Math.imul(i + 1, 0xC2B2AE35)) >>> 0;
        const r = await run_case(prop, env, seed, null);
        account(r);
        if (!r.ok) {
            const again = await run_case(prop, env, 0, r.choices);
            if (again.ok) {
                st.unconfirmed = `[${r.tag}] ${r.msg} :: ${r.c.desc}`;
                continue;
            }
            const best = await shrink(prop, env, again);
            st.violation = { tag: best.tag, msg: best.msg, desc: best.c.desc, choices: best.choices };
            break;
        }
    }
    st.keys = [...keys];
    await prop.teardown?.(env);
    fs.writeFileSync(o.out, JSON.stringify(st));
}

export async function main(props) {
    const o = parse_args();
    const prop = props[o.prop];
    if (o.replay) {
        o.worker = 0;
        const line = fs.readFileSync(o.replay, 'utf8').split('\n').find(l => l.startsWith('choices:'));
        const env = await prop.setup?.(o) ?? {};
        const r = await run_case(prop, env, 0, JSON.parse(line.slice(8)));
        await prop.teardown?.(env);
        console.log(r.ok ? `replay: pass\n${r.c.desc}` : `replay: FAIL [${r.tag}]\n${r.msg}\n${r.c.desc}`);
        process.exit(r.ok ? 0 : 1);
    }
    if (o.worker !== undefined) {
        await worker(prop, o);
        process.exit(0);
    }
    const parts = await Promise.all(Array.from({ length: o.workers }, (_, w) => new Promise((resolve, reject) => {
        const out = path.join(o.tmp, `w${w}.json`);
        const p = fork(process.argv[1], [...process.argv.slice(2), '--worker', String(w), '--out', out], { execArgv: process.execArgv });
        p.on('exit', code => code === 0 ? resolve(JSON.parse(fs.readFileSync(out, 'utf8'))) : reject(new Error(`worker ${w} exited with ${code}`)));
    })));
    const res = {
        property: o.prop, cases: 0, evaluations: 0, distinct_nontrivial: 0, rule: prop.rule, samples: [], classes: {}, known: {},
        coverage_corpus: 0, cut_by_cpu_limit: false, unconfirmed: '', violations: []
    };
    const keys = new Set();
    const seen = new Set();
    for (const p of parts) {
        res.cases += p.cases;
        res.evaluations += p.evaluations;
        p.keys.forEach(k => keys.add(k));
        for (const [k, v] of Object.entries(p.classes)) { res.classes[k] = (res.classes[k] ?? 0) + v; }
        for (const [k, v] of Object.entries(p.known)) { (res.known[k] ??= { count: 0, sample: v.sample }).count += v.count; }
        if (res.samples.length < 8) { res.samples.push(p.samples[0] ?? ''); }
        res.cut_by_cpu_limit ||= p.cut;
        if (p.unconfirmed) { res.unconfirmed += p.unconfirmed + '\n'; }
        if (p.violation && !seen.has(p.violation.tag) && res.violations.length < 3) {
            seen.add(p.violation.tag);
            const file = path.join(o['replay-dir'], `${o.prop}-${res.violations.length}.replay`);
            const v = p.violation;
            fs.writeFileSync(file, `property: ${o.prop}\nkind: failure\ntag: ${v.tag}\nmessage: ${v.msg}\ninput: ${v.desc}\nchoices: ${JSON.stringify(v.choices)}\n`);
            console.log(`[${v.tag}] ${v.msg}\n  ${v.desc}`);
            res.violations.push(file);
        }
    }
    res.distinct_nontrivial = keys.size;
    res.classes = Object.fromEntries(Object.entries(res.classes).sort());
    fs.writeFileSync(o.out, JSON.stringify(res));
}
