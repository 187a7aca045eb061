// Runs the page of the web viewer with a stand-in for the browser.
// stdin: {page, board_js, script:[...]}; stdout: one JSON value per step of the script.
'use strict';
const vm = require('vm'), fs = require('fs');
const job = JSON.parse(fs.readFileSync(0, 'utf8'));

const store = {};                 // selector -> state of the element
const out = [], ajax = [], confirms = [], timers = [], ready = [];
let under = null;                 // what lies under the mouse

function state(sel) { return store[sel] || (store[sel] = { html: '', val: '', checked: false, classes: new Set(), on: {}, dom: {}, attr: {}, scroll: 0 }); }
const ctx2d = new Proxy({}, { get: (t, k) => k in t ? t[k] : () => ctx2d, set: (t, k, v) => { t[k] = v; return true; } });
function dom(st) {
    return new Proxy(st, { get(t, k) {
        if (k === 'addEventListener') return (e, f) => { (t.dom[e] = t.dom[e] || []).includes(f) || t.dom[e].push(f); };
        if (k === 'removeEventListener') return (e, f) => { t.dom[e] = (t.dom[e] || []).filter(x => x !== f); };
        if (k === 'getContext') return () => ctx2d;
        if (k === 'innerHTML') return t.html;
        if (k === 'style') return {};
        return k in t ? t[k] : undefined;
    }, set(t, k, v) { if (k === 'innerHTML') t.html = v; else t[k] = v; return true; } });
}
function rows(html) { return html.split(/<tr\b[^>]*>/).slice(1).map(x => x.split('</tr>')[0]); }
function fire(sel, e, self) { for (const f of (state(sel).on[e] || []).slice()) f.call(self || sel, { type: e, preventDefault() {} }); }

function Q(sel, index) {
    if (typeof sel === 'function') { ready.push(sel); return; }
    if (sel && sel.isRow) return wrapRow(sel);
    if (sel && sel.handle) return sel.handle;
    const isRows = typeof sel === 'string' && /^#(table-moves|moves) tr$/.test(sel);
    const st = state(typeof sel === 'string' ? sel : 'document');
    const me = {
        get length() { return isRows ? rows(state('#table-moves').html).length : 1; },
        html(v) { if (v === undefined) return st.html; st.html = String(v); if (sel === '#table-moves') state('#table-moves tr').on = {}; return px; },
        text(v) { if (v === undefined) return st.html; st.html = String(v).replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;'); return px; },
        val(v) { if (v === undefined) return String(st.val); st.val = v; return px; },
        prop(k, v) { if (v === undefined) return st[k]; st[k] = v; return px; },
        attr(k, v) { if (v === undefined) return st.attr[k]; st.attr[k] = v; return px; },
        addClass(c) { st.classes.add(c); return px; },
        removeClass(c) { st.classes.delete(c); return px; },
        scrollTop(v) { if (v === undefined) return st.scroll; st.scroll = v; return px; },
        height() { return 20; },
        eq(i) { return wrapRow({ isRow: true, i }); },
        on(e, s, f) {
            if (typeof s === 'string') { const t = state(s.trim() === 'tr' ? '#table-moves tr:all' : sel + ' ' + s); (t.on[e] = t.on[e] || []).push(f); return px; }
            (st.on[e] = st.on[e] || []).push(s); return px;
        },
        trigger(e) { fire(sel, e, { handle: px }); return px; },
        click(f) { return f ? me.on('click', f) : me.trigger('click'); },
        change(f) { return f ? me.on('change', f) : me.trigger('change'); },
        ready(f) { ready.push(f); return px; },
        append(v) { st.html += String(v); if (sel === '#table-moves') state('#table-moves tr').on = {}; return px; },
        prepend(v) { st.html = String(v) + st.html; return px; },
        empty() { return me.html(''); },
        toggleClass(c, v) { (v === undefined ? !st.classes.has(c) : v) ? st.classes.add(c) : st.classes.delete(c); return px; },
        hasClass(c) { return st.classes.has(c); },
        is(s) { return s === ':checked' ? !!st.checked : false; },
        off(e) { if (e) st.on[e] = []; else st.on = {}; return px; },
        find(s) { return typeof sel === 'string' ? Q(sel + ' ' + s) : px; },
        children(s) { return typeof sel === 'string' ? Q(sel + ' ' + (s || 'tr')) : px; },
        get(i) { return isRows ? { isRow: true, i } : me[0]; },
        each(f) { for (let i = 0; i < me.length; i++) f.call(isRows ? { isRow: true, i } : { handle: px }, i); return px; },
        first() { return me.eq(0); },
        last() { return me.eq(me.length - 1); },
        0: dom(st),
    };
    const px = new Proxy(me, { get: (t, k) => k in t ? t[k] : typeof k === 'symbol' ? undefined : () => px });
    return px;
}
function wrapRow(r) {
    const st = state('row' + r.i);
    const me = { index: () => r.i, addClass(c) { st.classes.add(c); return px; }, removeClass(c) { st.classes.delete(c); return px; }, height: () => 20, length: 1 };
    const px = new Proxy(me, { get: (t, k) => k in t ? t[k] : typeof k === 'symbol' ? undefined : () => px });
    return px;
}
Q.ajax = o => { const call = { url: o.url, data: o.data || {}, done: [] }; if (o.success) call.done.push(o.success); ajax.push(call); const h = { done(f) { call.done.push(f); return h; }, fail() { return h; }, always() { return h; } }; return h; };
Q.get = (u, d, f) => Q.ajax({ url: u, data: d, success: f });
Q.getJSON = Q.get;
Q.each = (a, f) => { a.forEach((x, i) => f.call(x, i, x)); return a; };
Q.map = (a, f) => a.map((x, i) => f(x, i));
Q.extend = Object.assign;
Q.fn = {};
Q.confirm = o => { confirms.push(o); };
const document = { elementFromPoint: () => under, getElementById: id => dom(state('#' + id)), addEventListener() {}, querySelector: s => dom(state(s)) };
const env = { $: Q, jQuery: Q, document, console: { log() {}, error() {} }, setInterval: (f, n) => { timers.push(f); return timers.length; }, clearInterval: i => { timers[i - 1] = null; }, setTimeout: f => { return 0; }, clearTimeout() {}, Math, JSON };
env.window = env;
vm.createContext(env);
const inline = [...job.page.matchAll(/<script(?![^>]*\bsrc=)[^>]*>([\s\S]*?)<\/script>/g)].map(x => x[1]).join('\n');
vm.runInContext(job.board_js.replace(/^\ufeff/, '') + '\n' + inline, env, { timeout: 20000 });
for (const f of ready) f(Q);

function attrs(s) { const a = {}; for (const m of s.matchAll(/([\w:-]+)="([^"]*)"/g)) a[m[1]] = m[2]; return a; }
function find(id) {       // the last drawn element of that id lies on top
    let hit = null;
    for (const m of state('#board').html.matchAll(/<(use|rect|text)\b([^>]*)>/g)) { const a = attrs(m[2]); if (a.id === id) hit = { tagName: m[1], style: {}, getAttribute: k => k in a ? a[k] : null }; }
    return hit || { tagName: 'svg', style: {}, getAttribute: () => null };
}
function mouse(id, shift) {
    under = find(id);
    for (const f of (state('#board').dom.mousedown || []).slice()) f({ button: 0, clientX: 1, clientY: 1, shiftKey: !!shift, preventDefault() {} });
}
function shown() {
    return { svg: state('#board').html, rows: rows(state('#table-moves').html), black: state('#black-comment').html, white: state('#white-comment').html, names: state('#names').html, number: String(state('#move-number').val) };
}
for (const step of job.script) {
    let v = null;
    if (step[0] === 'click') fire(step[1], 'click', {});
    else if (step[0] === 'row') { for (const f of [...(state('#table-moves tr').on.click || []), ...(state('#table-moves tr:all').on.click || [])]) f.call({ isRow: true, i: step[1] }, {}); }
    else if (step[0] === 'number') { state('#move-number').val = step[1]; fire('#move-number', 'change', { handle: Q('#move-number') }); }
    else if (step[0] === 'mouse') mouse(step[1], step[2]);
    else if (step[0] === 'timer') { for (const f of timers.slice()) if (f) f(); }
    else if (step[0] === 'reply') { const c = ajax.pop(); if (c) for (const f of c.done) f(step[1]); }
    else if (step[0] === 'answer') { const c = confirms.pop(); if (c) { const b = Object.values(c.buttons), yes = b.findIndex(x => /はい|yes|ok/i.test(x.text || '')); b[step[1] ? yes : 1 - yes].action(); } }
    else if (step[0] === 'drop') { ajax.length = 0; confirms.length = 0; }
    out.push({ shown: shown(), ajax: ajax.map(c => [c.url, c.data]), confirms: confirms.length });
}
console.log(JSON.stringify(out));
