'use strict';
/*
 * Reads requests, one JSON object per line, and answers each with a line.
 *
 * {modules: {name: source}, chains: {name: [tree, ...]}, context: source,
 *  freeze: bool, rounds: n}
 *
 * Every module named in `chains` is bound and rendered `rounds` times in
 * several ways; the answer has the observed results and the monitors' notes.
 */
const fs = require('fs');
const ref = require('./ref.js');
const runtimeSource = fs.readFileSync(process.argv[2], 'utf-8');

function world(modules) {
    const registry = Object.create(null);
    const sources = Object.assign(Object.create(null), modules);
    sources['tonnikala/runtime'] = runtimeSource;
    const log = {loads: 0};

    function load(name) {
        if (name in registry) {
            return registry[name];
        }
        if (!(name in sources)) {
            throw new Error('no module ' + name);
        }
        let found;
        const define = (deps, factory) => {
            if (found) {
                throw new Error('a module defined twice');
            }
            found = {deps, factory};
        };
        log.loads++;
        const f = new Function('define', 'require', sources[name]);
        f(define, load);
        if (!found) {
            throw new Error('nothing is defined by ' + name);
        }
        return registry[name] = found.factory.apply(undefined, found.deps.map(load));
    }
    return {load, log};
}

function deepFreeze(o, seen) {
    if (o === null || (typeof o !== 'object' && typeof o !== 'function') || seen.has(o)) {
        return o;
    }
    seen.add(o);
    if (o instanceof Date || ArrayBuffer.isView(o)) {
        return o;
    }
    if (typeof o === 'object') {
        Object.freeze(o);
        for (const k of Object.keys(o)) {
            deepFreeze(o[k], seen);
        }
    }
    return o;
}

function snapshot(ctx) {
    const describe = (o, depth) => {
        if (o === null || typeof o !== 'object' || depth > 3) {
            return typeof o === 'function' ? 'function' : typeof o + ':' + String(o === null ? o :
                typeof o === 'object' ? '' : o);
        }
        return (Array.isArray(o) ? 'A' : 'O') + '{' + Object.keys(o).map(
            (k) => k + '=' + describe(o[k], depth + 1)).join(',') + '}';
    };
    return describe(ctx, 0);
}

function outcome(f) {
    try {
        const v = f();
        return typeof v === 'string' ? ['ok', v] : ['error', 'NotAString', typeof v];
    } catch (e) {
        if (e instanceof RangeError) {
            return ['error', 'RangeError', ''];
        }
        return ['error', e && e.name || 'thrown', String(e && e.message || e)];
    }
}

function handle(request) {
    const globalsBefore = Object.getOwnPropertyNames(globalThis).length;
    const notes = [];
    const results = {};
    const w = world(request.modules);
    let literal = String;
    const loaded = outcome(() => {
        literal = w.load('tonnikala/runtime').literal;
        return typeof literal === 'function' ? '' : 0;
    });
    if (loaded[0] !== 'ok') {
        notes.push('the runtime library does not load: ' + loaded.join(' '));
        literal = String;
    }
    const makeContext = new Function('literal', 'log_', 'return (' + request.context + ')');
    for (const name of Object.keys(request.chains)) {
        const r = results[name] = {};
        const interpret = () => ref.bind(request.chains[name],
            makeContext(literal, []));
        r.expected = outcome(() => interpret()());
        r.got = [];
        let binder;
        const first = outcome(() => { binder = w.load(name); return ''; });
        if (first[0] !== 'ok') {
            r.got.push(first);
            continue;
        }
        const ctx = makeContext(literal, []);
        if (request.freeze) {
            deepFreeze(ctx, new Set());
        }
        const before = snapshot(ctx);
        const keys = Object.keys(ctx);
        const values = keys.map((k) => ctx[k]);
        if (request.logged) {
            // the events of a rendering each
            const logs = r.logs = [];
            const logging = (render) => {
                const log = [];
                logs.push(log);
                outcome(() => render(makeContext(literal, log)));
            };
            logging((c) => ref.bind(request.chains[name], c)());
            logging((c) => binder(c).render());
            logging((c) => String(binder(c)));
        }
        // the same binder and context, unless rendering has effects
        const context = request.counters ? () => makeContext(literal, []) : () => ctx;
        for (let i = 0; i < (request.rounds || 2); i++) {
            r.got.push(outcome(() => binder(context()).render()));
        }
        r.got.push(outcome(() => String(binder(context()))));
        r.got.push(outcome(() => binder(context()).html()));
        if (request.counters) {
            // each rendering of a bound template evaluates its expressions
            const again = (bind) => outcome(() => {
                const f = bind();
                f();
                return f() + f();
            });
            r.expectedAgain = again(interpret);
            r.gotAgain = again(() => {
                const bound = binder(makeContext(literal, []));
                return () => bound.render();
            });
        } else {
            // the same bound template again; two at the same time
            r.got.push(outcome(() => {
                const bound = binder(ctx);
                bound.render();
                return bound.render();
            }));
            r.got.push(outcome(() => {
                const one = binder(ctx), two = binder(makeContext(literal, []));
                const a = one.render(), b = two.render();
                return a === b ? a : 'differs: ' + a + '\n' + b;
            }));
        }
        if (snapshot(ctx) !== before || Object.keys(ctx).length !== keys.length ||
                !keys.every((k, i) => Object.is(ctx[k], values[i]))) {
            notes.push('the context of ' + name + ' was changed');
        }
    }
    if (Object.getOwnPropertyNames(globalThis).length !== globalsBefore) {
        notes.push('a global variable was created: ' +
            Object.getOwnPropertyNames(globalThis).slice(globalsBefore));
    }
    return {results, notes, loads: w.log.loads};
}

let buffered = '';
process.stdin.setEncoding('utf-8');
process.stdin.on('data', (chunk) => {
    buffered += chunk;
    let end;
    while ((end = buffered.indexOf('\n')) >= 0) {
        const line = buffered.slice(0, end);
        buffered = buffered.slice(end + 1);
        let answer;
        try {
            answer = handle(JSON.parse(line));
        } catch (e) {
            answer = {failure: String(e && e.stack || e)};
        }
        process.stdout.write(JSON.stringify(answer) + '\n');
    }
});
process.stdin.on('end', () => process.exit(0));
