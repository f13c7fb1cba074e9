// The page around the C++ code: the functions emscripten's runtime has, a
// document, a window with sockets, an address bar and a history. Everything
// that would happen later happens when the simulator says so.
'use strict';
module.exports = function (native) {
  const api = {};
  const g = globalThis;
  const HEAP = { heap: true };               // stands for the program's whole memory

  // ---- values C++ holds
  const table = [undefined, null, true, false];
  const free = [];
  const keep = (v) => {
    if (v === undefined) return 0;
    if (v === null) return 1;
    if (v === true) return 2;
    if (v === false) return 3;
    const h = free.length ? free.pop() : table.length;
    table[h] = { v };
    return h;
  };
  const at = (h) => h < 4 ? table[h] : table[h].v;
  api.h_keep = keep;
  api.h_drop = (h) => { table[h] = undefined; free.push(h); };
  api.h_count = () => table.length - free.length;
  api.h_to_number = (h) => Number(at(h));
  api.h_to_string = (h) => String(at(h));
  const ops = [
    (a) => keep(a === undefined ? g : g[a]),
    (a) => keep(g.Module[a]),
    (a, b) => keep(a[b]),
    (a, b, x) => { a[b] = x; return 0; },
    (a, b, ...x) => keep(a[b](...x)),
    (a, b, ...x) => keep(a(...x)),
    (a, b, ...x) => keep(new a(...x)),
    (a) => keep(typeof a),
    (a, b) => Number(a == b), (a, b) => Number(a === b), (a, b) => Number(a < b),
    (a, b) => Number(Object.prototype.hasOwnProperty.call(a, b)), (a, b) => Number(a in b), (a, b) => Number(a instanceof b),
    (a, b) => Number(delete a[b]),
    (a) => Number(!!a), (a) => Number(Array.isArray(a)), () => keep({}), () => keep([]),
    (a) => Number(typeof a === 'number'), (a) => Number(typeof a === 'string'), (a) => keep(a), (a) => { throw a; },
  ];
  api.h_op = (op, a, b, ...x) => ops[op](at(a), at(b), ...x.map(at));

  // ---- EM_ASM
  api.compile = (code, n) => {
    const names = [];
    for (let i = 0; i < n; i++) names.push('$' + i);
    const f = new Function(...names, code);
    return (...a) => { const r = f(...a); return typeof r === 'number' ? r : typeof r === 'boolean' ? Number(r) : Number(r) || 0; };
  };
  api.export_function = (name, f) => { g.Module[name] = f; };

  // ---- memory
  const RealU8 = Uint8Array;
  const bytes = (v) => v instanceof ArrayBuffer ? new RealU8(v) : ArrayBuffer.isView(v) ? new RealU8(v.buffer, v.byteOffset, v.byteLength) : RealU8.from(v);
  class View {                                // a Uint8Array over the program's memory
    constructor(ptr, len) { this.ptr = ptr; this.length = this.byteLength = len; this.byteOffset = ptr; this.buffer = HEAP; }
    set(v, at = 0) {
      // what a typed array takes: array-likes; a bare ArrayBuffer has no elements
      const b = v instanceof View ? native.peek(v.ptr, v.length) : v instanceof ArrayBuffer ? new RealU8(0) : RealU8.from(v);
      if (at + b.length > this.length) throw new RangeError('offset is out of bounds');
      native.poke(this.ptr + at, b);
    }
    subarray(b = 0, e = this.length) { return new View(this.ptr + b, Math.max(0, e - b)); }
    slice(b = 0, e = this.length) { return e > b ? native.peek(this.ptr + b, e - b) : new RealU8(0); }
    [Symbol.iterator]() { return this.slice()[Symbol.iterator](); }
  }
  const indexed = (view) => new Proxy(view, {
    get(t, k) { return typeof k === 'string' && /^[0-9]+$/.test(k) ? (Number(k) < t.length ? native.peek(t.ptr + Number(k), 1)[0] : undefined) : typeof t[k] === 'function' ? t[k].bind(t) : t[k]; },
    set(t, k, v) { if (Number(k) < t.length) native.poke(t.ptr + Number(k), RealU8.of(v)); return true; },
  });
  const U8 = new Proxy(RealU8, { construct(T, [a, o, n], nt) { return a === HEAP ? indexed(new View(o || 0, n === undefined ? 2 ** 47 : n)) : Reflect.construct(T, [a, o, n].slice(0, n !== undefined ? 3 : o !== undefined ? 2 : 1)); } });
  g.Uint8Array = U8;
  const heap = indexed(new View(0, 2 ** 47));
  const utf8 = new TextDecoder(), toUtf8 = new TextEncoder();
  const read = (ptr, n) => { let b = native.peek(ptr, n === undefined ? native.strlen(ptr) : n); const z = b.indexOf(0); return z < 0 ? b : b.subarray(0, z); };
  const Module = g.Module = {
    HEAPU8: heap, HEAP8: heap,
    stringToAscii(s, p) { const b = new RealU8(s.length + 1); for (let i = 0; i < s.length; i++) b[i] = s.charCodeAt(i); native.poke(p, b); },
    UTF8ToString(p, n) { return p ? utf8.decode(read(p, n)) : ''; },
    AsciiToString(p) { return String.fromCharCode(...read(p)); },
    lengthBytesUTF8(s) { return toUtf8.encode(s).length; },
    stringToUTF8(s, p, max) {
      if (!(max > 0)) return 0;
      let b = toUtf8.encode(s);
      if (b.length > max - 1) { let n = max - 1; while (n > 0 && (b[n] & 0xc0) === 0x80) n--; b = b.subarray(0, n); }
      const z = new RealU8(b.length + 1); z.set(b); native.poke(p, z);
      return b.length;
    },
    writeArrayToMemory(a, p) { native.poke(p, bytes(a)); },
    writeAsciiToMemory(s, p, noNul) { Module.stringToAscii(s, p); },
    getValue(p) { return native.peek(p, 1)[0]; },
  };
  for (const k of ['HEAPU8', 'HEAP8', 'stringToAscii', 'UTF8ToString', 'AsciiToString', 'lengthBytesUTF8', 'stringToUTF8', 'writeArrayToMemory', 'writeAsciiToMemory', 'getValue']) g[k] = Module[k];

  // ---- events
  class Target {
    constructor() { this.listeners = []; }
    addEventListener(type, fn, options) {
      if (fn === null || fn === undefined) return;
      if (typeof fn !== 'function' && typeof fn !== 'object') throw new TypeError('listener is no function');
      const o = options && typeof options === 'object' ? options : { capture: !!options }, capture = !!o.capture;
      type = String(type);
      if (this.listeners.some((l) => l.type === type && l.fn === fn && l.capture === capture)) return;
      this.listeners.push({ type, fn, capture, once: !!o.once }); live++;
    }
    removeEventListener(type, fn, options) {
      const capture = !!(options && typeof options === 'object' ? options.capture : options);
      const i = this.listeners.findIndex((l) => l.type === String(type) && l.fn === fn && l.capture === capture);
      if (i >= 0) { this.listeners[i].gone = true; this.listeners.splice(i, 1); live--; }
    }
    dispatchEvent(ev) {
      ev.target = this;
      const path = [this];
      for (let n = this.parentNode; n; n = n.parentNode) path.push(n);
      const reach = (n, capture) => {
        if (ev.stopped) return;
        ev.currentTarget = n;
        for (const l of n.listeners.slice()) {
          if (l.type !== ev.type || l.capture !== capture || l.gone || ev.halted) continue;
          if (l.once) n.removeEventListener(l.type, l.fn, capture);
          if (typeof l.fn === 'function') l.fn.call(n, ev); else l.fn.handleEvent(ev);
        }
        if (!capture && !ev.halted && typeof n['on' + ev.type] === 'function') n['on' + ev.type].call(n, ev);
      };
      for (const n of path.slice().reverse()) reach(n, true);
      for (const n of ev.bubbles ? path : [this]) reach(n, false);
      return !ev.defaultPrevented;
    }
  }
  let live = 0;
  class Event { constructor(type, init) { this.type = type; this.defaultPrevented = false; Object.assign(this, init); } preventDefault() { this.defaultPrevented = true; } stopPropagation() { this.stopped = true; } stopImmediatePropagation() { this.stopped = this.halted = true; } }
  g.Event = Event; g.CustomEvent = Event;

  // ---- the document
  class Node extends Target {
    constructor() { super(); this.parentNode = null; this.childNodes = []; }
    get firstChild() { return this.childNodes[0] || null; }
    get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
    get parentElement() { return this.parentNode; }
    get nextSibling() { const p = this.parentNode; return p ? p.childNodes[p.childNodes.indexOf(this) + 1] || null : null; }
    get previousSibling() { const p = this.parentNode; return p ? p.childNodes[p.childNodes.indexOf(this) - 1] || null : null; }
    get children() { return this.childNodes.filter((c) => c instanceof Element); }
    get firstElementChild() { return this.children[0] || null; }
    get lastElementChild() { return this.children[this.children.length - 1] || null; }
    get ownerDocument() { return g.document; }
    get isConnected() { return g.document === this || (this.parentNode ? this.parentNode.isConnected : false); }
    hasChildNodes() { return this.childNodes.length > 0; }
    contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
    remove() { if (this.parentNode) this.parentNode.removeChild(this); }
    appendChild(n) { return this.insertBefore(n, null); }
    append(...ns) { for (const n of ns) this.appendChild(typeof n === 'string' ? new Text(n) : n); }
    insertBefore(n, ref) {
      if (!(n instanceof Node)) throw new TypeError('not a Node');
      if (this instanceof Text) throw new Error('HierarchyRequestError');
      if (n.contains(this)) throw new Error('HierarchyRequestError');
      if (ref !== null && ref !== undefined && ref.parentNode !== this) throw new Error('NotFoundError: reference is no child');
      if (n instanceof Fragment) { for (const c of n.childNodes.slice()) this.insertBefore(c, ref); return n; }
      if (ref === n) return n;
      n.remove();
      this.childNodes.splice(ref ? this.childNodes.indexOf(ref) : this.childNodes.length, 0, n);
      n.parentNode = this;
      return n;
    }
    removeChild(n) {
      if (!(n instanceof Node)) throw new TypeError('not a Node');
      const i = this.childNodes.indexOf(n);
      if (i < 0) throw new Error('NotFoundError: not a child');
      this.childNodes.splice(i, 1); n.parentNode = null;
      return n;
    }
    replaceChild(n, old) {
      if (!(n instanceof Node) || !(old instanceof Node)) throw new TypeError('not a Node');
      if (old.parentNode !== this) throw new Error('NotFoundError: not a child');
      if (n === old) return old;
      if (n instanceof Fragment) { for (const c of n.childNodes.slice()) this.insertBefore(c, old); this.removeChild(old); return old; }
      if (n.contains(this)) throw new Error('HierarchyRequestError');
      n.remove();
      this.childNodes[this.childNodes.indexOf(old)] = n;
      old.parentNode = null; n.parentNode = this;
      return old;
    }
    replaceWith(n) { if (this.parentNode) this.parentNode.replaceChild(n, this); }
    replaceChildren(...ns) { for (const c of this.childNodes.slice()) this.removeChild(c); this.append(...ns); }
    cloneNode() { throw new Error('not in the simulation'); }
    get textContent() { return this.childNodes.map((c) => c.textContent).join(''); }
    set textContent(v) { this.replaceChildren(); v = v === null ? '' : String(v); if (v !== '') this.appendChild(new Text(v)); }
  }
  class Text extends Node {
    constructor(d) { super(); this.data = String(d); this.nodeType = 3; this.nodeName = '#text'; }
    get nodeValue() { return this.data; } set nodeValue(v) { this.data = v === null ? '' : String(v); }
    get textContent() { return this.data; } set textContent(v) { this.data = v === null ? '' : String(v); }
    get length() { return this.data.length; }
  }
  class Comment extends Text { constructor(d) { super(d); this.nodeType = 8; this.nodeName = '#comment'; } }
  class Raw extends Node { constructor(h) { super(); this.html = h; this.nodeType = 1; } get textContent() { return this.html; } }
  class Fragment extends Node { constructor() { super(); this.nodeType = 11; } }
  class Element extends Node {
    constructor(tag) { super(); this.nodeType = 1; this.tag = String(tag).toLowerCase(); this.tagName = this.nodeName = this.tag.toUpperCase(); this.attrs = new Map(); this.style = {}; this.props = new Set(); }
    setAttribute(k, v) { k = String(k); if (!/^[^\s"'>/=\0]+$/.test(k)) throw new Error('InvalidCharacterError'); this.attrs.set(k.toLowerCase(), String(v)); }
    getAttribute(k) { k = String(k).toLowerCase(); return this.attrs.has(k) ? this.attrs.get(k) : null; }
    hasAttribute(k) { return this.attrs.has(String(k).toLowerCase()); }
    removeAttribute(k) { this.attrs.delete(String(k).toLowerCase()); }
    toggleAttribute(k, f) { const want = f === undefined ? !this.hasAttribute(k) : !!f; if (want) { if (!this.hasAttribute(k)) this.setAttribute(k, ''); } else this.removeAttribute(k); return want; }
    get id() { return this.getAttribute('id') || ''; } set id(v) { this.setAttribute('id', v); }
    get className() { return this.getAttribute('class') || ''; } set className(v) { this.setAttribute('class', v); }
    get classList() {
      const el = this, words = () => el.className.split(/\s+/).filter((w) => w);
      const check = (c) => { if (c === '') throw new Error('SyntaxError'); if (/\s/.test(c)) throw new Error('InvalidCharacterError'); };
      const write = (w) => { if (w.length || el.hasAttribute('class')) el.setAttribute('class', w.join(' ')); };
      return {
        add(...cs) { cs.forEach(check); const w = words(); for (const c of cs) if (!w.includes(c)) w.push(c); write(w); },
        remove(...cs) { cs.forEach(check); write(words().filter((x) => !cs.includes(x))); },
        contains(c) { return words().includes(c); },
        toggle(c, f) { const want = f === undefined ? !words().includes(c) : !!f; if (want) this.add(c); else this.remove(c); return want; },
        get length() { return words().length; },
      };
    }
    get innerHTML() { return inside(this); }
    set innerHTML(v) { this.replaceChildren(); v = v === null ? '' : String(v); if (v !== '') this.appendChild(new Raw(v)); }
    click() { if (this.clicking) return; Object.defineProperty(this, 'clicking', { value: true, configurable: true }); try { this.dispatchEvent(new Event('click', { bubbles: true })); } finally { delete this.clicking; } }
    focus() { } blur() { }
  }
  const own = new Set(Object.keys(new Element('x')));
  const words = (v) => v.split(/\s+/).filter((w) => w).sort().join(' ');
  // what a user sees: adjacent text is one text, empty text is nothing
  const inside = (n) => {
    let out = '', text = '';
    const flush = () => { if (text !== '') out += '[' + text + ']'; text = ''; };
    for (const c of n.childNodes) {
      if (c instanceof Comment) continue;
      if (c instanceof Text) { text += c.data; continue; }
      flush(); out += html(c);
    }
    flush();
    return out;
  };
  const html = (n) => {
    if (n instanceof Raw) return '{' + n.html + '}';
    const at = [...n.attrs].map(([k, v]) => [k, k === 'class' ? words(v) : v]).filter(([k, v]) => k !== 'class' || v !== '').sort((a, b) => a[0] < b[0] ? -1 : 1).map(([k, v]) => ' ' + k + '="' + v + '"').join('');
    const pr = Object.keys(n).filter((k) => !own.has(k)).sort().map((k) => ' .' + k + '="' + n[k] + '"').join('');
    return '<' + n.tag + at + pr + '>' + inside(n) + '</' + n.tag + '>';
  };
  class Document extends Node {
    constructor() { super(); this.nodeType = 9; this.body = new Element('body'); this.documentElement = new Element('html'); this.appendChild(this.documentElement); this.documentElement.appendChild(this.body); }
    createElement(t) { if (!/^[a-zA-Z][^\s>/]*$/.test(String(t))) throw new Error('InvalidCharacterError'); made++; return new Element(t); }
    createTextNode(d) { made++; return new Text(d); }
    createComment(d) { return new Comment(d); }
    createDocumentFragment() { return new Fragment(); }
    getElementById(id) { const find = (n) => { for (const c of n.childNodes) { if (c.id === id && c instanceof Element) return c; const r = find(c); if (r) return r; } return null; }; return find(this); }
  }
  let made = 0;
  g.Node = Node; g.Element = Element; g.HTMLElement = Element; g.Text = Text;

  // ---- the window: sockets, address bar, history
  const sockets = [];
  class WebSocket extends Target {
    constructor(url, protocols) {
      super();
      this.url = String(url); this.readyState = 0; this.binaryType = 'blob'; this.protocols = protocols; this.bufferedAmount = 0;
      this.id = sockets.length; sockets.push(this);
      native_event(0, this.id, this.url);
    }
    send(d) {
      if (this.readyState === 0) throw new Error('InvalidStateError: still connecting');
      let kind = 0, b;
      if (d === HEAP) { kind = 2; b = ''; }                       // the whole memory of the program
      else if (d instanceof View) { kind = 1; b = latin(native.peek(d.ptr, d.length)); }
      else if (d instanceof ArrayBuffer || ArrayBuffer.isView(d)) { kind = 1; b = latin(bytes(d)); }
      else b = latin(toUtf8.encode(String(d)));
      if (this.readyState !== 1) return;                          // closing or closed: silently dropped
      native_event(kind === 0 ? 1 : kind === 1 ? 2 : 3, this.id, b);
    }
    close(code, reason) {
      if (code !== undefined && code !== 1000 && !(code >= 3000 && code <= 4999)) throw new Error('InvalidAccessError');
      if (this.readyState >= 2) return;
      const was = this.readyState;
      this.readyState = 2;
      native_event(4, this.id, String(was));
    }
  }
  WebSocket.CONNECTING = 0; WebSocket.OPEN = 1; WebSocket.CLOSING = 2; WebSocket.CLOSED = 3;
  const latin = (b) => { let s = ''; for (let i = 0; i < b.length; i++) s += b[i].toString(16).padStart(2, '0'); return s; };
  const unhex = (s) => { const b = new RealU8(s.length / 2); for (let i = 0; i < b.length; i++) b[i] = parseInt(s.substr(2 * i, 2), 16); return b; };
  let text_arg = '';
  api.argument = () => text_arg;
  const native_event = (kind, id, s) => { text_arg = s; if (Module._sim_socket) Module._sim_socket(kind, id, s.length); };
  api.ws_open = (id) => { const s = sockets[id]; if (s.readyState !== 0) return 0; s.readyState = 1; s.dispatchEvent(new Event('open')); return 1; };
  api.ws_text = (id, hex) => { const s = sockets[id]; if (s.readyState !== 1) return 0; s.dispatchEvent(new Event('message', { data: utf8.decode(unhex(hex)) })); return 1; };
  api.ws_binary = (id, hex) => { const s = sockets[id]; if (s.readyState !== 1) return 0; s.dispatchEvent(new Event('message', { data: s.binaryType === 'arraybuffer' ? unhex(hex).buffer : { blob: hex } })); return 1; };
  api.ws_close = (id, code, clean, error) => { const s = sockets[id]; if (s.readyState === 3) return 0; s.readyState = 3; if (error) s.dispatchEvent(new Event('error')); s.dispatchEvent(new Event('close', { code, wasClean: !!clean, reason: '' })); return 1; };
  api.ws_state = (id) => sockets[id].readyState;

  class Win extends Target { }
  const window = g.window = new Win();
  window.WebSocket = WebSocket; g.WebSocket = WebSocket;
  let entries = ['/'], where = 0;
  window.location = g.location = { get pathname() { return entries[where]; }, get href() { return 'http://sim' + entries[where]; }, get search() { return ''; }, get hash() { return ''; } };
  window.history = g.history = {
    pushState(state, title, url) { entries.length = where + 1; entries.push(resolve(url)); where++; },
    replaceState(state, title, url) { entries[where] = resolve(url); },
    get length() { return entries.length; }, state: null,
  };
  // what a browser makes of a URL given to pushState, as far as the path goes
  const resolve = (u) => u === undefined || u === null ? entries[where] : new URL(String(u), 'http://sim' + entries[where]).pathname;
  api.nav_go = (n) => { if (where + n < 0 || where + n >= entries.length) return 0; where += n; const e = new Event('popstate', { state: null }); window.dispatchEvent(e); return 1; };
  api.nav_set = (hex) => { entries = [utf8.decode(unhex(hex))]; where = 0; return 0; };
  api.nav_state = () => where + '/' + entries.length + ' ' + entries.join(' ');
  api.nav_resolve = (hex) => { text_arg = resolve(utf8.decode(unhex(hex))); return 0; };
  api.nav_prefix = (hex) => { Module.NBDL_WEBUI_NAV_URI_PREFIX = utf8.decode(unhex(hex)); return 0; };
  api.nav_path = () => entries[where];

  // ---- for the simulator
  api.reset = () => {
    g.document = window.document = new Document(); live = 0; made = 0; sockets.length = 0; entries = ['/']; where = 0; window.onpopstate = undefined; window.listeners = [];
    delete Module.nbdl_detail_json_val; delete Module.NBDL_WEBUI_NAV_URI_PREFIX; delete Module.NBDL_DETAIL_JS_GET; delete Module.NBDL_DETAIL_JS_SET;
    jobs.length = 0; found = []; waiting.clear(); ended.length = 0; mounts = [];
  };
  api.json_of = (h) => JSON.stringify(Module.NBDL_DETAIL_JS_GET(h)) + '';
  api.json_set = (h, s) => { Module.NBDL_DETAIL_JS_SET(h, JSON.parse(s)); return 0; };
  // promises waiting for the simulation to settle them, by chain
  const waiting = new Map(), ended = [];
  g.sim_pending = (resolve, reject, id, what) => { waiting.set(id, [resolve, reject]); text_arg = what; Module._sim_pending(id); };
  api.c_routine = (r, j, self, ...a) => { const get = Module.NBDL_DETAIL_JS_GET; g.sim_pending(get(r), get(j), get(self), get(self) + a.map((x) => JSON.stringify(get(x))).join('')); return 0; };
  api.settle = (id, rej, calls, v) => { const p = waiting.get(id); ended.push(p); v = JSON.parse(v); p[rej](v); for (let i = 1; i < calls; i++) p[(rej + i) % 2]('again'); return 0; };
  api.settle_again = () => { for (const p of ended) { p[0]('late'); p[1]('late'); } return 0; };
  api.listeners = () => live;
  api.registry = () => Module.nbdl_detail_json_val ? Object.keys(Module.nbdl_detail_json_val).length : 0;
  api.page = () => inside(g.document.body);
  api.eval_ = (s) => { const r = (0, eval)(s); return typeof r === 'number' ? r : Number(r) || 0; };
  api.eval_text = () => String((0, eval)(text_arg));
  api.set_argument = (s) => { text_arg = s; return 0; };
  // elements in document order, of those that have listeners for an event
  const walk = (n, f) => { f(n); for (const c of n.childNodes) walk(c, f); };
  let found = [];
  api.find_listeners = (type) => { found = []; walk(g.document.body, (n) => { if (n.listeners.some((l) => l.type === type)) found.push(n); }); return found.length; };
  api.fire = (i, bubbles, seq, type) => { found[i].dispatchEvent(new Event(type, { bubbles: !!bubbles, seq })); return 0; };
  api.up = (i) => { for (let n = found[i].parentNode; n; n = n.parentNode) if (found.includes(n)) return found.indexOf(n); return -1; };
  api.depth = (i) => { let d = 0; for (let n = found[i].parentNode; n; n = n.parentNode) if (found.includes(n)) d++; return d; };
  // places to show something in
  let mounts = [];
  api.mount = () => { const e = g.document.createElement('section'); g.document.body.appendChild(e); mounts.push(e); Module.mount_el = e; return mounts.length - 1; };
  api.unmount = (i) => { mounts[i].remove(); return 0; };
  api.mounted = (i) => inside(mounts[i]);
  // timers and promise jobs run when the simulator says so
  const jobs = [];
  g.setTimeout = (f, ms, ...a) => { jobs.push(() => f(...a)); return jobs.length; };
  g.queueMicrotask = (f) => { jobs.push(f); };
  g.requestAnimationFrame = (f) => { jobs.push(f); return jobs.length; };
  api.jobs = () => jobs.length;
  api.run_job = (i) => { const [j] = jobs.splice(i, 1); j(); return 0; };
  g.console = Object.assign({}, console, { log() { } });
  return api;
};
