// Runs compiled templates: node tkjs.js tasks.json runtime.js out.json
'use strict';
const fs = require('fs');
const tasks = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'));
const runtimeSource = fs.readFileSync(process.argv[3], 'utf8');

function modules(sources) {
    const loaded = {};
    function req(name) {
        if (!(name in loaded)) {
            const src = name === 'tonnikala/runtime' ? runtimeSource : sources[name];
            if (src === undefined) {
                throw new Error('no module ' + name);
            }
            let value;
            const define = (deps, factory) => { value = factory.apply(null, deps.map(req)); };
            new Function('define', 'require', src)(define, req);
            loaded[name] = value;
        }
        return loaded[name];
    }
    return req;
}

function value(v, log) {
    switch (v.t) {
    case 'str': return v.s;
    case 'int': return v.n;
    case 'bool': return v.b;
    case 'none': return null;
    case 'list': return v.v.map((x) => value(x, log));
    case 'dict': {
        const o = {};
        v.v.forEach((x) => { o[x.k] = value(x.v, log); });
        return o;
    }
    case 'host':
        if (v.h === 'p') {
            return (id, x) => { log.push('p:' + id); return x === undefined ? '' : x; };
        }
        return () => { throw new Error('boom'); };
    }
    throw new Error('value ' + v.t);
}

let how = 0;

function runtimeHtml(req, t) {
    return String(req('tonnikala/runtime').escape(t));
}

function render(req, r) {
    const log = [], ctx = {};
    const o = {ok: true, out: '', log: log, exc: '', same: true, tb: [], inn: {file: '', line: 0}, msg: '', ctxkept: true};
    r.ctx.forEach((x) => { ctx[x.n] = value(x.v, log); });
    try {
        const t = req(r.entry)(ctx);
        how = (how + 1) % 4;
        // a template that is rendered, printed, output by another one, or whose function is called
        o.out = how === 0 ? t.toString() : how === 1 ? runtimeHtml(req, t) : how === 2 ? String(ctx.__main__()) : t.render();
    } catch (e) {
        o.ok = false;
        o.exc = e.name;
        o.msg = String(e.message);
    }
    return o;
}

function key(o) { return JSON.stringify([o.ok, o.out, o.log, o.exc]); }

const res = tasks.map((t) => {
    const req = modules(t.js);
    const once = (r) => {
        if (t.failed) {
            return {ok: false, out: '', log: [], exc: 'compile', same: true, tb: [],
                    inn: {file: '', line: 0}, msg: t.failed, ctxkept: true, again: true};
        }
        return render(req, r);
    };
    const first = t.renders.map(once);
    const second = t.renders.slice().reverse().map(once).reverse();
    first.forEach((o, i) => { o.again = key(o) === key(second[i]); });
    return first;
});
fs.writeFileSync(process.argv[4], JSON.stringify(res));
