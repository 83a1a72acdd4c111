"use strict";
// A browser for the simulator: runs the scripts of a page against a small document, with every
// source of nondeterminism (answers of the network, timers, clock, randomness) in the hands of the
// caller. One command per line on stdin, one answer per line on stdout.
const vm = require("vm");
const readline = require("readline");

const VOID = new Set(["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"]);
const RAW = new Set(["script", "style", "title", "textarea"]);
const ENTITY = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0" };
const unescape = s => s.replace(/&(#x[0-9a-f]+|#\d+|\w+);?/gi, (m, e) => {
    if (e[0] === "#") {
        const n = /^#x/i.test(e) ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10);
        return n > 0 && n <= 0x10ffff ? String.fromCodePoint(n) : "\ufffd";
    }
    return m.endsWith(";") || ["amp", "lt", "gt", "quot"].includes(e) ? ENTITY[e] ?? m : m;
});
const escape = s => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;").replace(/\u00a0/g, "&nbsp;");

// tokens of markup: text, start tags, end tags
function* tokens(html) {
    const re = /<!--[\s\S]*?-->|<!doctype[^>]*>|<(\/?)([a-zA-Z][^\s/>]*)((?:[^>"']|"[^"]*"|'[^']*')*)>|[^<]+|</gi;
    for (let m; (m = re.exec(html));) {
        if (m[2] === undefined) {
            if (!m[0].startsWith("<!")) yield { text: unescape(m[0]) };
            continue;
        }
        const tag = m[2].toLowerCase();
        if (m[1]) { yield { end: tag }; continue; }
        const attrs = {};
        for (const a of m[3].matchAll(/([^\s=/"'<>]+)(?:\s*=\s*("[^"]*"|'[^']*'|[^\s"'>]+))?/g))
            attrs[a[1].toLowerCase()] = a[2] === undefined ? "" : unescape(a[2].replace(/^(["'])([\s\S]*)\1$/, "$2"));
        yield { start: tag, attrs, selfClosing: /\/$/.test(m[3]) };
        if (RAW.has(tag)) {
            const end = new RegExp(`</${tag}\\s*>`, "ig");
            end.lastIndex = re.lastIndex;
            const e = end.exec(html);
            const stop = e ? e.index : html.length;
            const raw = html.slice(re.lastIndex, stop);
            if (raw) yield { text: tag === "script" || tag === "style" ? raw : unescape(raw) };
            re.lastIndex = stop;
        }
    }
}

class Target {
    #ls = new Map();
    addEventListener(type, f, opt) {
        if (!f) return;
        const l = this.#ls.get(type) ?? [];
        if (!l.some(x => x.f === f)) l.push({ f, once: !!(opt && opt.once) });
        this.#ls.set(type, l);
    }
    removeEventListener(type, f) { this.#ls.set(type, (this.#ls.get(type) ?? []).filter(x => x.f !== f)); }
    _fire(ev) {
        ev.currentTarget = this;
        const on = this._handler ? this._handler(ev.type) : this["on" + ev.type];
        if (typeof on === "function") this._call(() => { if (on.call(this, ev) === false) ev.preventDefault(); });
        for (const x of [...(this.#ls.get(ev.type) ?? [])]) {
            if (x.once) this.removeEventListener(ev.type, x.f);
            this._call(() => typeof x.f === "function" ? x.f.call(this, ev) : x.f.handleEvent(ev));
            if (ev._stopNow) break;
        }
    }
    dispatchEvent(ev) {
        ev.target = this;
        const path = [];
        for (let n = this; n; n = n.parentNode) path.push(n);
        if (path.at(-1) === this._tab.document) path.push(this._tab.window);
        for (const n of ev.bubbles ? path : path.slice(0, 1)) {
            n._fire ? n._fire(ev) : Target.prototype._fire.call(n, ev);
            if (ev._stop) break;
        }
        return !ev.defaultPrevented;
    }
    _call(f) { try { f(); } catch (e) { this._tab.errors.push(String(e && e.message || e)); } }
}

class Ev {
    constructor(type, init = {}) { this.type = type; this.bubbles = !!init.bubbles; this.cancelable = !!init.cancelable; this.detail = init.detail; this.defaultPrevented = false; }
    preventDefault() { this.defaultPrevented = true; }
    stopPropagation() { this._stop = true; }
    stopImmediatePropagation() { this._stop = this._stopNow = true; }
}

class Text {
    constructor(tab, data) { this._tab = tab; this.data = data; this.nodeType = 3; this.parentNode = null; }
    get textContent() { return this.data; }
    set textContent(s) { this.data = String(s); }
    get nodeValue() { return this.data; }
    set nodeValue(s) { this.data = String(s); }
    remove() { this.parentNode && this.parentNode.removeChild(this); }
}

class Elem extends Target {
    constructor(tab, tag, attrs = {}) {
        super();
        this._tab = tab;
        this.localName = tag;
        this._attrs = new Map(Object.entries(attrs));
        this._kids = [];
        this._html = null; // markup that nobody has looked into yet
        this.parentNode = null;
        this.nodeType = 1;
        this._props = {};
        this.style = new Proxy({ setProperty(k, v) { this[k] = v; }, removeProperty(k) { delete this[k]; }, getPropertyValue(k) { return this[k] ?? ""; } }, {});
    }
    get tagName() { return this.localName.toUpperCase(); }
    get nodeName() { return this.tagName; }
    get ownerDocument() { return this._tab.document; }
    get isConnected() { for (let n = this; n; n = n.parentNode) if (n === this._tab.document) return true; return false; }
    get childNodes() {
        if (this._html !== null) { const h = this._html; this._html = null; this._kids = build(this._tab, this, h); }
        return this._kids;
    }
    get children() { return this.childNodes.filter(n => n.nodeType === 1); }
    get firstChild() { return this.childNodes[0] ?? null; }
    get lastChild() { return this.childNodes.at(-1) ?? null; }
    get firstElementChild() { return this.children[0] ?? null; }
    get lastElementChild() { return this.children.at(-1) ?? null; }
    get childElementCount() { return this.children.length; }
    get parentElement() { return this.parentNode && this.parentNode.nodeType === 1 ? this.parentNode : null; }
    get nextElementSibling() { const c = this.parentNode ? this.parentNode.children : []; return c[c.indexOf(this) + 1] ?? null; }
    get previousElementSibling() { const c = this.parentNode ? this.parentNode.children : []; return c[c.indexOf(this) - 1] ?? null; }
    hasChildNodes() { return this.childNodes.length > 0; }
    contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }

    get textContent() {
        if (this._html !== null && !/<(script|style|title|textarea|!)/i.test(this._html)) return unescape(this._html.replace(/<\/?[a-zA-Z](?:[^>"']|"[^"]*"|'[^']*')*>/g, ""));
        return this.childNodes.map(n => n.textContent).join("");
    }
    set textContent(s) { this._html = null; this._clear(); s = s == null ? "" : String(s); if (s) this.appendChild(new Text(this._tab, s)); }
    get innerText() { return this.textContent; }
    set innerText(s) { this.textContent = s; }
    get text() { return this.textContent; }
    set text(s) { this.textContent = s; }
    get innerHTML() { return this._html !== null ? this._html : this._kids.map(n => n.nodeType === 3 ? escape(n.data) : n.outerHTML).join(""); }
    set innerHTML(s) { this._clear(); this._html = s == null ? "" : String(s); }
    get outerHTML() {
        const a = [...this._attrs].map(([k, v]) => ` ${k}="${escape(v).replace(/"/g, "&quot;")}"`).join("");
        return `<${this.localName}${a}>` + (VOID.has(this.localName) ? "" : this.innerHTML + `</${this.localName}>`);
    }
    insertAdjacentHTML(where, html) {
        const kids = build(this._tab, null, String(html));
        const w = where.toLowerCase();
        if (w === "beforeend") this.append(...kids);
        else if (w === "afterbegin") this.prepend(...kids);
        else for (const k of kids) this.parentNode.insertBefore(k, w === "beforebegin" ? this : this.parentNode.childNodes[this.parentNode.childNodes.indexOf(this) + 1] ?? null);
    }
    insertAdjacentElement(where, e) { this.insertAdjacentHTML(where, ""); if (where === "beforeend") this.append(e); else if (where === "afterbegin") this.prepend(e); return e; }

    _clear() { for (const k of this._kids) k.parentNode = null; this._kids = []; }
    _node(n) { return typeof n === "object" && n !== null && n.nodeType ? n : new Text(this._tab, String(n)); }
    appendChild(n) { return this.insertBefore(n, null); }
    insertBefore(n, ref) {
        const kids = this.childNodes;
        if (n.nodeType === 11) { for (const k of [...n.childNodes]) this.insertBefore(k, ref); return n; }
        if (n.parentNode) n.parentNode.removeChild(n);
        const i = ref ? kids.indexOf(ref) : kids.length;
        kids.splice(i < 0 ? kids.length : i, 0, n);
        n.parentNode = this;
        return n;
    }
    append(...ns) { for (const n of ns) this.appendChild(this._node(n)); }
    prepend(...ns) { const f = this.firstChild; for (const n of ns) this.insertBefore(this._node(n), f); }
    removeChild(n) { const i = this.childNodes.indexOf(n); if (i >= 0) { this._kids.splice(i, 1); n.parentNode = null; } return n; }
    replaceChild(n, old) { this.insertBefore(n, old); return this.removeChild(old); }
    replaceChildren(...ns) { this._html = null; this._clear(); this.append(...ns); }
    replaceWith(...ns) { for (const n of ns) this.parentNode.insertBefore(this._node(n), this); this.remove(); }
    remove(i) {
        if (this.localName === "select" && typeof i === "number") { const o = this.options[i]; if (o) o.remove(); return; }
        if (this.parentNode) this.parentNode.removeChild(this);
    }
    cloneNode(deep) { const e = new Elem(this._tab, this.localName, Object.fromEntries(this._attrs)); if (deep) e.innerHTML = this.innerHTML; return e; }

    getAttribute(k) { return this._attrs.get(k.toLowerCase()) ?? null; }
    setAttribute(k, v) { this._attrs.set(k.toLowerCase(), String(v)); }
    hasAttribute(k) { return this._attrs.has(k.toLowerCase()); }
    removeAttribute(k) { this._attrs.delete(k.toLowerCase()); }
    toggleAttribute(k, on = !this.hasAttribute(k)) { on ? this.setAttribute(k, "") : this.removeAttribute(k); return on; }
    get id() { return this.getAttribute("id") ?? ""; }
    set id(v) { this.setAttribute("id", v); }
    get className() { return this.getAttribute("class") ?? ""; }
    set className(v) { this.setAttribute("class", v); }
    get name() { return this.getAttribute("name") ?? ""; }
    get title() { return this.getAttribute("title") ?? ""; }
    set title(v) { this.setAttribute("title", v); }
    get type() { return this.getAttribute("type") ?? (this.localName === "select" ? "select-one" : ""); }
    get classList() {
        const get = () => this.className.split(/\s+/).filter(Boolean), put = l => { this.className = [...new Set(l)].join(" "); };
        return {
            add: (...c) => put([...get(), ...c]), remove: (...c) => put(get().filter(x => !c.includes(x))), contains: c => get().includes(c),
            toggle: (c, on = !get().includes(c)) => { put(on ? [...get(), c] : get().filter(x => x !== c)); return on; },
            replace: (a, b) => put(get().map(x => x === a ? b : x)), get length() { return get().length; },
        };
    }
    get dataset() {
        const key = k => "data-" + k.replace(/[A-Z]/g, c => "-" + c.toLowerCase());
        return new Proxy({}, { get: (_, k) => this.getAttribute(key(String(k))) ?? undefined, set: (_, k, v) => { this.setAttribute(key(String(k)), v); return true; }, has: (_, k) => this.hasAttribute(key(String(k))), deleteProperty: (_, k) => { this.removeAttribute(key(String(k))); return true; } });
    }
    get disabled() { return this.hasAttribute("disabled"); }
    set disabled(v) { this.toggleAttribute("disabled", !!v); }
    get hidden() { return this.hasAttribute("hidden"); }
    set hidden(v) { this.toggleAttribute("hidden", !!v); }

    // form controls
    get options() { const l = this._all(e => e.localName === "option"); l.item = i => l[i] ?? null; l.add = o => this.add(o); l.remove = i => this.remove(i); return l; }
    get length() { return this.localName === "select" ? this.options.length : undefined; }
    set length(n) { for (const o of this.options.slice(n)) o.remove(); }
    get _chosen() { // an option that is chosen and still there, or the first one
        const o = this.options;
        if (this._none) return this._pick && o.includes(this._pick) ? this._pick : null;
        return this._pick && o.includes(this._pick) ? this._pick : o.findLast(x => x.hasAttribute("selected")) ?? o.find(x => !x.disabled) ?? null;
    }
    get selectedIndex() { return this.options.indexOf(this._chosen); }
    set selectedIndex(i) { this._pick = this.options[i] ?? null; this._none = !this._pick; }
    get selectedOptions() { return this._chosen ? [this._chosen] : []; }
    get selected() { const s = this.closest("select"); return !!s && s._chosen === this; }
    set selected(v) { const s = this.closest("select"); if (v && s) { s._pick = this; s._none = false; } else if (v) this.setAttribute("selected", ""); }
    get label() { return this.getAttribute("label") ?? this.textContent; }
    get index() { const s = this.closest("select"); return s ? s.options.indexOf(this) : 0; }
    get value() {
        switch (this.localName) {
            case "select": return this._chosen ? this._chosen.value : "";
            case "option": return this.getAttribute("value") ?? this.textContent.trim();
        }
        return this._props.value ?? this.getAttribute("value") ?? "";
    }
    set value(v) {
        v = String(v);
        switch (this.localName) {
            case "select": this._pick = this.options.find(o => o.value === v) ?? null; this._none = !this._pick; return;
            case "option": case "button": this.setAttribute("value", v); return;
        }
        this._props.value = v;
    }
    add(o, before = null) { const ref = typeof before === "number" ? this.options[before] ?? null : before; ref ? ref.parentNode.insertBefore(o, ref) : this.appendChild(o); }
    click() { if (!this.disabled) this.dispatchEvent(new Ev("click", { bubbles: true, cancelable: true })); }
    focus() { } blur() { } scrollIntoView() { } scrollTo() { }
    get scrollTop() { return 0; } set scrollTop(_) { } get scrollHeight() { return 0; } set scrollLeft(_) { }

    _handler(type) {
        const own = this["on" + type];
        if (own !== undefined) return own;
        const src = this.getAttribute("on" + type);
        if (src === null) return undefined;
        this._inline ??= {};
        const k = type + "\0" + src;
        return this._inline[k] ??= vm.runInContext(`(function(event){with(document){with(this){${src}\n}}})`, this._tab.context);
    }
    _all(f, out = []) { for (const n of this.childNodes) if (n.nodeType === 1) { if (f(n)) out.push(n); n._all(f, out); } return out; }
    matches(sel) { return sel.split(",").some(s => { const f = selector(s.trim()); return f(this); }); }
    closest(sel) { for (let n = this; n && n.nodeType === 1; n = n.parentNode) if (n.matches(sel)) return n; return null; }
    querySelectorAll(sel) { return this._all(e => e.matches(sel)); }
    querySelector(sel) { return this.querySelectorAll(sel)[0] ?? null; }
    getElementsByTagName(t) { return this._all(e => t === "*" || e.localName === t.toLowerCase()); }
    getElementsByClassName(c) { return this._all(e => c.split(/\s+/).every(x => e.classList.contains(x))); }
}

function selector(s) { // descendant and child combinators of simple selectors
    const parts = s.replace(/\s*>\s*/g, " > ").split(/\s+/);
    const simple = (e, p) => {
        const re = /^([a-zA-Z][\w-]*|\*)|#([\w-]+)|\.([\w-]+)|\[([\w-]+)(?:([~^$*|]?=)["']?([^"'\]]*)["']?)?\]|:([\w-]+)(?:\(([^)]*)\))?/y;
        let i = 0;
        while (i < p.length) {
            re.lastIndex = i;
            const m = re.exec(p);
            if (!m) throw new Error("selector " + s);
            i = re.lastIndex;
            if (m[1] && m[1] !== "*" && e.localName !== m[1].toLowerCase()) return false;
            if (m[2] && e.id !== m[2]) return false;
            if (m[3] && !e.classList.contains(m[3])) return false;
            if (m[4]) {
                const v = e.getAttribute(m[4]);
                if (v === null) return false;
                const x = m[6];
                if (m[5] && !(m[5] === "=" ? v === x : m[5] === "^=" ? v.startsWith(x) : m[5] === "$=" ? v.endsWith(x) : m[5] === "*=" ? v.includes(x) : v.split(/\s+/).includes(x))) return false;
            }
            if (m[7] === "checked" && !e.selected) return false;
            if (m[7] === "disabled" && !e.disabled) return false;
            if (m[7] === "not" && e.matches(m[8])) return false;
            if (m[7] === "first-child" && e.parentNode.children[0] !== e) return false;
            if (m[7] === "last-child" && e.parentNode.children.at(-1) !== e) return false;
        }
        return true;
    };
    const up = (e, i) => {
        if (!simple(e, parts[i])) return false;
        if (i === 0) return true;
        if (parts[i - 1] === ">") { const p = e.parentNode; return !!p && p.nodeType === 1 && up(p, i - 2); }
        for (let p = e.parentNode; p && p.nodeType === 1; p = p.parentNode) if (up(p, i - 1)) return true;
        return false;
    };
    return e => up(e, parts.length - 1);
}

// build makes nodes of markup.
function build(tab, parent, html) {
    const top = [], stack = [];
    const put = n => { const p = stack.at(-1); n.parentNode = p ?? parent; (p ? p._kids : top).push(n); };
    for (const t of tokens(html)) {
        if (t.text !== undefined) { put(new Text(tab, t.text)); continue; }
        if (t.end) {
            const i = stack.findLastIndex(e => e.localName === t.end);
            if (i >= 0) stack.length = i;
            continue;
        }
        if (t.start === "option" && stack.at(-1)?.localName === "option") stack.pop();
        const e = new Elem(tab, t.start, t.attrs);
        put(e);
        if (!VOID.has(t.start)) stack.push(e);
    }
    return top;
}

class Doc extends Target {
    constructor(tab, html) {
        super();
        this._tab = tab;
        this.nodeType = 9;
        this.readyState = "loading";
        this.parentNode = null;
        this.childNodes = [];
        this.root = new Elem(tab, "html");
        const kids = build(tab, null, html);
        const find = t => { for (const k of kids) if (k.nodeType === 1 && k.localName === t) return k; return null; };
        const h = find("html");
        if (h) { this.root = h; h.parentNode = this; } else { this.root.parentNode = this; this.root.append(...kids); }
        this.title = "";
        this.cookie = "";
        this.hidden = false;
        this.visibilityState = "visible";
    }
    get documentElement() { return this.root; }
    get body() { return this.root.querySelector("body") ?? this.root; }
    get head() { return this.root.querySelector("head") ?? this.root; }
    get defaultView() { return this._tab.window; }
    get activeElement() { return this.body; }
    getElementById(id) { return this.root._all(e => e._attrs.get("id") === String(id))[0] ?? null; }
    querySelector(s) { return this.querySelectorAll(s)[0] ?? null; }
    querySelectorAll(s) { const l = this.root.querySelectorAll(s); if (this.root.matches(s)) l.unshift(this.root); return l; }
    getElementsByTagName(t) { return this.root.getElementsByTagName(t); }
    getElementsByClassName(c) { return this.root.getElementsByClassName(c); }
    createElement(t) { return new Elem(this._tab, t.toLowerCase()); }
    createTextNode(s) { return new Text(this._tab, String(s)); }
    createDocumentFragment() { const e = new Elem(this._tab, "#fragment"); e.nodeType = 11; return e; }
    createEvent() { const e = new Ev(""); e.initEvent = (t, b) => { e.type = t; e.bubbles = !!b; }; return e; }
}

let now = 0, tabs = [], reqs = [], fetched = [], aborted = [];

class Tab {
    constructor(id, html, seed) {
        this.id = id;
        this.errors = [];
        this.timers = new Map();
        this.nextTimer = 1;
        this.frames = 0;
        const tab = this;
        const w = { __proto__: null };
        this.context = vm.createContext(w, { microtaskMode: undefined });
        this.window = w;
        this.document = new Doc(this, html);
        const store = () => { const m = new Map(); return { getItem: k => m.get(String(k)) ?? null, setItem: (k, v) => { m.set(String(k), String(v)); }, removeItem: k => { m.delete(String(k)); }, clear: () => m.clear(), key: i => [...m.keys()][i] ?? null, get length() { return m.size; } }; };
        let rnd = BigInt(seed);
        const timer = repeat => (f, ms = 0, ...args) => {
            const n = tab.nextTimer++;
            ms = Math.max(repeat ? 1 : 0, Number(ms) || 0);
            tab.timers.set(n, { at: now + ms, f, args, every: repeat ? ms : 0, n });
            return n;
        };
        const clear = n => { tab.timers.delete(n); };
        const say = () => { };
        const ls = new Target();
        ls._tab = tab;
        Object.assign(w, {
            window: w, self: w, document: this.document, console: { log: say, info: say, warn: say, error: say, debug: say, table: say, trace: say, assert: say, time: say, timeEnd: say, group: say, groupEnd: say },
            setTimeout: timer(false), setInterval: timer(true), clearTimeout: clear, clearInterval: clear,
            requestAnimationFrame: f => timer(false)(() => f(now), 16), cancelAnimationFrame: clear, requestIdleCallback: f => timer(false)(() => f({ timeRemaining: () => 1, didTimeout: false }), 1),
            queueMicrotask, AbortController, AbortSignal: AbortController === undefined ? undefined : AbortSignal, URL, URLSearchParams, TextEncoder, TextDecoder, structuredClone, Event: Ev, CustomEvent: Ev, DOMException,
            Option: function (text = "", value, _, sel) { const o = new Elem(tab, "option"); o.textContent = text; if (value !== undefined) o.setAttribute("value", value); if (sel) o.setAttribute("selected", ""); return o; },
            HTMLElement: Elem, Element: Elem, Node: Elem, Text,
            location: { href: "http://localhost:8080/", origin: "http://localhost:8080", protocol: "http:", host: "localhost:8080", hostname: "localhost", port: "8080", pathname: "/", search: "", hash: "", reload() { }, toString() { return this.href; } },
            navigator: { userAgent: "simulated", onLine: true, language: "en", clipboard: { writeText: async () => { } } }, history: { pushState() { }, replaceState() { }, state: null },
            localStorage: store(), sessionStorage: store(), alert: say, confirm: () => true, prompt: () => null, getComputedStyle: e => e.style, matchMedia: () => ({ matches: false, addEventListener() { } }),
            performance: { now: () => now, mark() { }, measure() { }, timeOrigin: 0 }, innerWidth: 1200, innerHeight: 800, scrollTo() { }, devicePixelRatio: 1, CSS: { escape: s => s },
            addEventListener: (t, f, o) => ls.addEventListener(t, f, o), removeEventListener: (t, f) => ls.removeEventListener(t, f), dispatchEvent: e => { w._fire(e); return true; },
            _fire: e => { const on = w["on" + e.type]; if (typeof on === "function") ls._call(() => on.call(w, e)); ls._fire(e); },
            fetch: (url, init) => this.fetch(url, init),
        });
        Object.defineProperty(w, "_fire", { enumerable: false });
        w.globalThis = w;
        w.__now = () => now;
        w.__random = () => { rnd = (rnd * 6364136223846793005n + 1442695040888963407n) & 0xffffffffffffffffn; return Number(rnd >> 11n) / 2 ** 53; };
        vm.runInContext(`Math.random = __random;
            { const D = Date, n = __now; globalThis.Date = class extends D { constructor(...a) { a.length ? super(...a) : super(n()); } static now() { return n(); } }; }
            delete globalThis.__now; delete globalThis.__random;`, this.context);
        for (const s of this.document.getElementsByTagName("script")) {
            if (s.getAttribute("src") || !["", "text/javascript", "module", "application/javascript"].includes(s.getAttribute("type") ?? "")) continue;
            this.guard(() => script(s.textContent).runInContext(this.context, { timeout: 5000 }));
        }
        this.document.readyState = "interactive";
        this.fire(this.document, "DOMContentLoaded");
        this.document.readyState = "complete";
        if (this.document.body.hasAttribute("onload") && typeof w.onload !== "function") this.fire(this.document.body, "load");
        w._fire(Object.assign(new Ev("load"), { target: this.document }));
    }
    guard(f) { try { f(); } catch (e) { this.errors.push(String(e && e.message || e)); } }
    fire(t, type, bubbles = false) { this.guard(() => t.dispatchEvent(new Ev(type, { bubbles, cancelable: true }))); }
    fetch(input, init = {}) {
        const tab = this;
        return new Promise((resolve, reject) => {
            const url = typeof input === "object" && input && input.url !== undefined ? input.url : String(input);
            const r = { id: reqs.length, tab: this.id, url: new URL(url, "http://localhost:8080/").href.replace("http://localhost:8080", ""), method: (init && init.method) || "GET", state: "sent" };
            reqs.push(r);
            fetched.push(r);
            let bodyOk, bodyBad, text, failed;
            const body = () => new Promise((ok, bad) => { failed !== undefined ? bad(failed) : text !== undefined ? ok(text) : (bodyOk = ok, bodyBad = bad); });
            const signal = init && init.signal;
            const abort = () => {
                if (r.state === "done") return;
                r.state = "done";
                aborted.push(r.id);
                const e = signal.reason ?? new DOMException("The operation was aborted.", "AbortError");
                failed = e;
                reject(e);
                if (bodyBad) bodyBad(e);
            };
            if (signal) {
                if (signal.aborted) { abort(); return; }
                signal.addEventListener("abort", abort);
            }
            const TypeErr = vm.runInContext("TypeError", tab.context);
            r.head = (status, type) => {
                r.state = "head";
                const h = new Map([["content-type", type]]);
                const res = {
                    ok: status >= 200 && status < 300, status, statusText: status === 200 ? "OK" : "Error", url: r.url, redirected: false, type: "basic", bodyUsed: false,
                    headers: { get: k => h.get(k.toLowerCase()) ?? null, has: k => h.has(k.toLowerCase()) },
                    text: async () => { res.bodyUsed = true; return body(); },
                    json: async () => { res.bodyUsed = true; const t = await body(); return vm.runInContext("JSON.parse", tab.context)(t); },
                    blob: async () => { const t = await body(); return { size: t.length, text: async () => t }; },
                    arrayBuffer: async () => new TextEncoder().encode(await body()).buffer,
                    clone: () => res,
                };
                resolve(res);
            };
            r.body = t => { r.state = "done"; text = t; if (bodyOk) bodyOk(t); };
            r.fail = () => { r.state = "done"; const e = new TypeErr("Failed to fetch"); failed = e; reject(e); if (bodyBad) bodyBad(e); };
        });
    }
    el(id) {
        const e = this.document.getElementById(id);
        if (!e) throw new Error(`the page has no element ${id}`);
        return e;
    }
    state() {
        const foreign = new Set();
        const text = id => {
            const e = this.el(id);
            for (const m of e.innerHTML.matchAll(/<\/?([a-zA-Z][^\s/>]*)/g)) foreign.add(m[1].toLowerCase());
            return e.textContent;
        };
        const sel = id => this.el(id).value;
        const snaps = this.el("snapshotSelect");
        return {
            view: text("view"), patch: text("patch"), result: text("result"), snapshot: text("snapshotView"),
            car: sel("carSelect"), n: sel("patchSelect"), saved: snaps.value, button: this.el("appendSnapshotBtn").textContent.trim(), disabled: this.el("appendSnapshotBtn").disabled,
            cars: this.el("carSelect").options.map(o => o.value), patches: this.el("patchSelect").options.map(o => o.value), snapshots: snaps.options.map(o => o.value), names: snaps.options.map(o => o.textContent),
            timers: this.timers.size, foreign: [...foreign].filter(t => !["span", "b", "i", "em", "strong", "mark", "br", "div"].includes(t)),
        };
    }
}

const scripts = new Map();
function script(src) {
    if (!scripts.has(src)) { scripts.clear(); scripts.set(src, new vm.Script(src, { filename: "page" })); }
    return scripts.get(src);
}

const rejected = [];
process.on("unhandledRejection", e => { rejected.push(String(e && e.message || e)); });
const settle = () => new Promise(r => setImmediate(r));

async function run(c) {
    const tab = tabs[c.tab];
    switch (c.op) {
        case "reset": now = c.now; tabs = []; reqs = []; fetched = []; aborted = []; rejected.length = 0; return {};
        case "open": tabs[c.tab] = new Tab(c.tab, c.text, c.seed); break;
        case "select": { const e = tab.el(c.id); if (!e.disabled) { e.value = c.text; tab.fire(e, "input", true); tab.fire(e, "change", true); } break; }
        case "click": tab.guard(() => tab.el(c.id).click()); break;
        case "head": reqs[c.req].head(c.status, c.type); break;
        case "body": reqs[c.req].body(c.text); break;
        case "fail": reqs[c.req].fail(); break;
        case "time": // timers in their order
            for (const end = now + c.ms; ;) {
                let next = null;
                for (const t of tab.timers.values()) if (t.at <= end && (!next || t.at < next.at || t.at === next.at && t.n < next.n)) next = t;
                if (!next) { now = end; break; }
                now = Math.max(now, next.at);
                if (next.every) next.at = now + next.every; else tab.timers.delete(next.n);
                tab.guard(() => typeof next.f === "function" ? next.f(...next.args) : vm.runInContext(String(next.f), tab.context));
                await settle();
                if (fetched.length > 0) break; // the caller decides how they go on
            }
            break;
        case "look": break;
    }
    await settle();
    const t = tabs[c.tab];
    const out = { state: t.state(), fetches: fetched.map(r => ({ id: r.id, url: r.url, method: r.method })), aborted, errors: t.errors.concat(rejected) };
    fetched = [];
    aborted = [];
    rejected.length = 0;
    t.errors = [];
    return out;
}

(async () => {
    for await (const line of readline.createInterface({ input: process.stdin })) {
        let out;
        try { out = await run(JSON.parse(line)); } catch (e) { out = { broken: String(e && e.stack || e) }; }
        process.stdout.write(JSON.stringify(out) + "\n");
    }
})();
