'use strict';
/*
 * An independent interpreter of template trees (see model.py) whose
 * expressions are JavaScript. Sloppy functions made with new Function are
 * used for `with`.
 */
const VOID = new Set(('area base br col command embed hr img input keygen link ' +
    'meta param source track wbr').split(' '));
const ENT = {'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&#34;', "'": '&#39;'};

function esc(text) {
    let rv = '';
    for (const c of text) {
        rv += ENT[c] || c;
    }
    return rv;
}

class Out {
    constructor(text) { this.text = text; }
    html() { return this.text; }
    toString() { return this.text; }
}

function value(v) {
    if (v !== null && v !== undefined && v.html) {
        return String(v.html());
    }
    return esc(String(v));
}

const cache = new Map();

function code(source, statements) {
    const key = (statements ? 'S' : 'E') + source;
    let f = cache.get(key);
    if (!f) {
        if (cache.size > 5000) {
            cache.clear();
        }
        f = new Function('$scope', statements ?
            'with ($scope) { ' + source + '\n}' :
            'with ($scope) { return (' + source + '\n); }');
        cache.set(key, f);
    }
    return f;
}

class Scope {
    constructor(parent) {
        this.parent = parent;
        this.vars = Object.create(null);
    }
    find(name) {
        for (let s = this; s; s = s.parent) {
            if (name in s.vars) {
                return s;
            }
        }
        return null;
    }
    get(name) {
        const s = this.find(name);
        return s ? s.vars[name] : globalThis[name];
    }
    proxy() {
        return new Proxy(this.vars, {
            has: () => true,
            get: (t, name) => typeof name === 'symbol' ? undefined : this.get(name),
            set: (t, name, v) => {
                (this.find(name) || this).vars[name] = v;
                return true;
            },
        });
    }
    eval(source) {
        return code(source, false)(this.proxy());
    }
}

/* the template functions among the children, but not within other structures */
function localDefs(nodes, found) {
    for (const n of nodes) {
        if (n[0] === 'C') {
            if (n[1] === 'def') {
                found.push(n);
            }
        } else if (n[0] === 'El') {
            localDefs(n[3], found);
        }
    }
    return found;
}

class Part {
    constructor(nodes, table) {
        this.nodes = nodes;
        this.base = new Scope(null);
        this.base.vars = table;
        this.blocks = [];
        this.defs = localDefs(nodes, []);
        this.top = new Set(this.defs);
        this.collect(nodes);
    }
    collect(nodes) {
        for (const n of nodes) {
            if (n[0] === 'C') {
                if (n[1] === 'block') {
                    this.blocks.push(n);
                }
                this.collect(n[3]);
            } else if (n[0] === 'El') {
                this.collect(n[3]);
            }
        }
    }
    body(nodes, scope, out) {
        for (const d of localDefs(nodes, [])) {
            if (!this.top.has(d)) {
                scope.vars[d[2][0]] = this.makeDef(d, scope);
            }
        }
        this.children(nodes, scope, out);
    }
    makeBlock(node) {
        return () => {
            const out = [];
            this.body(node[3], new Scope(this.base), out);
            return new Out(out.join(''));
        };
    }
    makeDef(node, scope) {
        const params = node[2][1];
        return (...args) => {
            const inner = new Scope(scope);
            params.forEach((p, i) => { inner.vars[p] = args[i]; });
            const out = [];
            this.body(node[3], inner, out);
            return new Out(out.join(''));
        };
    }
    main() {
        const out = [];
        this.body(this.nodes, new Scope(this.base), out);
        return out.join('');
    }
    children(nodes, scope, out) {
        for (const n of nodes) {
            this.node(n, scope, out);
        }
    }
    boolAttr(name, v, out) {
        if (v === null || v === undefined || v === false) {
            return;
        }
        out.push(' ' + name + '="' + (v === true ? name : value(v)) + '"');
    }
    startTag(node, scope, out) {
        const [, tag, attrs, , , dyn] = node;
        out.push('<' + tag);
        const late = [];
        for (const [name, parts] of attrs) {
            if (parts === null) {
                out.push(' ' + name);
            } else if (parts.some((p) => typeof p !== 'string')) {
                late.push([name, parts]);
            } else {
                out.push(' ' + name + '="' + esc(parts.join('')) + '"');
            }
        }
        for (const [name, parts] of late) {
            if (parts.length === 1) {
                this.boolAttr(name, scope.eval(parts[0].js), out);
                continue;
            }
            // all of the value is computed before any is written
            const text = parts.map((p) => typeof p === 'string' ? esc(p) :
                value(scope.eval(p.js)));
            out.push(' ' + name + '="' + text.join('') + '"');
        }
        if (dyn !== null) {
            const pairs = scope.eval(dyn);
            if (pairs && pairs.length) {
                for (let i = 0; i < pairs.length; i++) {
                    this.boolAttr(pairs[i][0], pairs[i][1], out);
                }
            }
        }
    }
    node(node, scope, out) {
        switch (node[0]) {
        case 'T':
            out.push(esc(node[1]));
            return;
        case 'R':
            out.push(node[1]);
            return;
        case 'I':
            out.push(value(scope.eval(node[1])));
            return;
        case 'El': {
            const [, tag, , children, strip, , content, empty] = node;
            const stripped = () => strip !== null &&
                (!strip.trim() || !!scope.eval(strip));
            if (!stripped()) {
                this.startTag(node, scope, out);
                out.push(!empty ? '>' : VOID.has(tag) ? ' />' : '></' + tag + '>');
            }
            if (content !== null) {
                out.push(value(scope.eval(content)));
            } else {
                this.children(children, scope, out);
            }
            if (!empty && !stripped()) {
                out.push('</' + tag + '>');
            }
            return;
        }
        case 'C':
            this['do_' + node[1]](node[2], node[3], scope, out, node);
            return;
        case 'Code': {
            for (const name of node[2]) {
                scope.vars[name] = undefined;
            }
            code(node[1], true)(scope.proxy());
            return;
        }
        default:
            throw new Error('bad node ' + node[0]);
        }
    }
    do_if(arg, children, scope, out) {
        if (scope.eval(arg)) {
            this.block(children, scope, out);
        }
    }
    do_unless(arg, children, scope, out) {
        if (!scope.eval(arg)) {
            this.block(children, scope, out);
        }
    }
    /* functions are local to the structure, variables are not */
    block(children, scope, out) {
        if (localDefs(children, []).length) {
            const inner = new Scope(scope);
            this.body(children, inner, out);
            return;
        }
        this.children(children, scope, out);
    }
    do_for([vars, expr], children, scope, out) {
        scope.eval(expr).forEach((...args) => {
            const inner = new Scope(scope);
            vars.forEach((v, i) => { inner.vars[v] = args[i]; });
            this.body(children, inner, out);
        });
    }
    do_with(pairs, children, scope, out) {
        const inner = new Scope(scope);
        for (const [name] of pairs) {
            inner.vars[name] = scope.get(name);
        }
        for (const [name, expr] of pairs) {
            inner.vars[name] = inner.eval(expr);
        }
        this.body(children, inner, out);
    }
    do_def() {
        // defined on entry of the body
    }
    do_block(name, children, scope, out) {
        out.push(value(this.base.vars[name]()));
    }
}

/* render the last of the chain [template, its parent, the parent's parent] */
function bind(chain, ctx) {
    const table = Object.create(null);
    for (const key of Object.keys(ctx)) {
        table[key] = ctx[key];
    }
    if (!('literal' in table)) {
        table.literal = (v) => new Out(String(v));
    }
    let main;
    for (const nodes of chain) {
        const part = new Part(nodes, table);
        for (const b of part.blocks) {
            if (!(b[2] in table)) {
                table[b[2]] = part.makeBlock(b);
            }
        }
        for (const d of part.defs) {
            if (!(d[2][0] in table)) {
                table[d[2][0]] = part.makeDef(d, part.base);
            }
        }
        main = part;
    }
    return () => main.main();
}

module.exports = {bind};
