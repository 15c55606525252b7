// A small browser on a discrete-event clock: document, canvas, file inputs, files, requests, timers.
// Everything asynchronous is an event of the simulator with an explicit delay.

export class Clock {
  constructor() {
    this.now = 0;
    this.queue = [];
    this.seq = 0;
    this.cancelled = new Set();
    this.steps = 0;
  }
  at(t, what, f) {
    const id = ++this.seq;
    this.queue.push({ t: Math.max(t, this.now), id, what, f });
    return id;
  }
  after(d, what, f) {
    return this.at(this.now + Math.max(0, +d || 0), what, f);
  }
  next() {
    for (;;) {
      if (!this.queue.length) return null;
      let k = 0;
      for (let i = 1; i < this.queue.length; i++) {
        const a = this.queue[i], b = this.queue[k];
        if (a.t < b.t || (a.t === b.t && a.id < b.id)) k = i;
      }
      const e = this.queue.splice(k, 1)[0];
      if (this.cancelled.delete(e.id)) continue;
      this.now = e.t;
      this.steps++;
      return e;
    }
  }
}
export const drained = () => new Promise(r => setImmediate(r));

class SimEvent {
  constructor(type, target) {
    this.type = type;
    this.target = target;
    this.currentTarget = target;
    this.nativeEvent = this;
    this.defaultPrevented = false;
    this.stopped = false;
  }
  preventDefault() { this.defaultPrevented = true; }
  stopPropagation() { this.stopped = true; }
  stopImmediatePropagation() { this.stopped = true; }
  persist() {}
  isDefaultPrevented() { return this.defaultPrevented; }
  isPropagationStopped() { return this.stopped; }
}
class Target {
  constructor() {
    Object.defineProperty(this, '_listeners', { value: {} });
  }
  addEventListener(type, f, o) {
    const l = (this._listeners[type] = this._listeners[type] || []);
    if (!l.some(x => x.f === f)) l.push({ f, once: !!(o && o.once) });
  }
  removeEventListener(type, f) {
    this._listeners[type] = (this._listeners[type] || []).filter(x => x.f !== f);
  }
  dispatchEvent(e) {
    if (!e.target) e.target = e.currentTarget = this;
    this._fire(e.type, e);
    return !e.defaultPrevented;
  }
  // Handlers run one by one; an error in one is reported and does not stop the others
  _fire(type, e) {
    const call = f => {
      try {
        if (typeof f === 'function') f.call(this, e);
        else if (f && typeof f.handleEvent === 'function') f.handleEvent(e);
      } catch (x) {
        this._report(x);
      }
    };
    if (typeof this['on' + type] === 'function') call(this['on' + type]);
    for (const l of [...(this._listeners[type] || [])]) {
      if (l.once) this.removeEventListener(type, l.f);
      call(l.f);
    }
  }
}

export function createBrowser(sim) {
  const { clock, plan } = sim;
  const report = e => sim.errors.push(String(e && e.message ? e.message : e));
  Target.prototype._report = report;
  const event = (type, target, more) => Object.assign(new SimEvent(type, target), more);

  // ---------------------------------------------------------------------------------- documents
  class Node extends Target {
    constructor() {
      super();
      this.parentNode = null;
      this.childNodes = [];
    }
    get parentElement() { return this.parentNode; }
    get children() { return this.childNodes.filter(c => c instanceof Element); }
    get firstChild() { return this.childNodes[0] || null; }
    get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n === document.documentElement; }
    get ownerDocument() { return document; }
    get textContent() { return this.childNodes.map(c => c.textContent).join(''); }
    set textContent(t) { this._setChildren(t === '' ? [] : [new Text(String(t))], {}); }
    appendChild(c) {
      if (c.parentNode) c.parentNode.removeChild(c);
      this.childNodes.push(c);
      c.parentNode = this;
      return c;
    }
    insertBefore(c, b) {
      if (!b) return this.appendChild(c);
      if (c.parentNode) c.parentNode.removeChild(c);
      this.childNodes.splice(this.childNodes.indexOf(b), 0, c);
      c.parentNode = this;
      return c;
    }
    removeChild(c) {
      this.childNodes = this.childNodes.filter(x => x !== c);
      c.parentNode = null;
      return c;
    }
    append(...c) { c.forEach(x => this.appendChild(typeof x === 'string' ? new Text(x) : x)); }
    replaceChildren(...c) { this._setChildren(c, {}); }
    remove() { if (this.parentNode) this.parentNode.removeChild(this); }
    contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
    _setChildren(list) {
      for (const c of this.childNodes) if (!list.includes(c) && c.parentNode === this) c.parentNode = null;
      for (const c of list) c.parentNode = this;
      this.childNodes = list;
    }
    _all(f, out = []) {
      for (const c of this.childNodes) {
        if (c instanceof Element) {
          if (f(c)) out.push(c);
          c._all(f, out);
        }
      }
      return out;
    }
    querySelectorAll(s) {
      const one = s.trim().split(',').map(x => x.trim());
      return this._all(e => one.some(q => matches(e, q)));
    }
    querySelector(s) { return this.querySelectorAll(s)[0] || null; }
    getElementsByTagName(t) { return this._all(e => t === '*' || e.localName === t.toLowerCase()); }
  }
  const matches = (e, q) => {
    const m = /^([a-z0-9*]*)((?:[#.][\w-]+|\[[\w-]+(?:=["']?[^\]"']*["']?)?\])*)$/i.exec(q);
    if (!m) return false;
    if (m[1] && m[1] !== '*' && m[1].toLowerCase() !== e.localName) return false;
    return (m[2].match(/[#.][\w-]+|\[[^\]]+\]/g) || []).every(p => {
      if (p[0] === '#') return e.id === p.slice(1);
      if (p[0] === '.') return (e.className || '').split(/\s+/).includes(p.slice(1));
      const [n, v] = p.slice(1, -1).split('=');
      const a = e.getAttribute(n);
      return v === undefined ? a !== null : a === v.replace(/["']/g, '');
    });
  };
  class Text extends Node {
    constructor(data) {
      super();
      this.data = data;
    }
    get textContent() { return this.data; }
    set textContent(t) { this.data = t; }
    get nodeValue() { return this.data; }
  }
  class Element extends Node {
    constructor(name) {
      super();
      this.localName = name;
      this.attributes = {};
      this.style = {};
      this.dataset = {};
      this.hidden = false;
    }
    get tagName() { return this.localName.toUpperCase(); }
    get nodeName() { return this.tagName; }
    get id() { return this.attributes.id || ''; }
    set id(v) { this.attributes.id = v; }
    get className() { return this.attributes.class || ''; }
    set className(v) { this.attributes.class = v; }
    get classList() {
      const list = () => this.className.split(/\s+/).filter(Boolean);
      return { add: (...c) => { this.className = [...new Set([...list(), ...c])].join(' '); }, remove: (...c) => { this.className = list().filter(x => !c.includes(x)).join(' '); }, contains: c => list().includes(c), toggle: () => {} };
    }
    getAttribute(n) { return n in this.attributes ? this.attributes[n] : null; }
    hasAttribute(n) { return n in this.attributes; }
    setAttribute(n, v) { this.attributes[n] = String(v); }
    removeAttribute(n) { delete this.attributes[n]; }
    getBoundingClientRect() { return { x: 0, y: 0, width: 0, height: 0, top: 0, left: 0, right: 0, bottom: 0 }; }
    focus() {}
    blur() {}
    click() { bubble('click', this); }
    get innerHTML() { return this.textContent; }
    set innerHTML(v) { this.textContent = v.replace(/<[^>]*>/g, ''); }
    // A property of a React element
    _setProp(k, v) {
      if (k === 'className') v === undefined || v === null ? this.removeAttribute('class') : this.setAttribute('class', v);
      else if (k === 'style') this.style = { ...(v || {}) };
      else if (k === 'htmlFor') this.setAttribute('for', v);
      else if (k === 'dangerouslySetInnerHTML') { if (v) this.innerHTML = v.__html; }
      else if (/^on[A-Z]/.test(k)) return;
      else if (v === undefined || v === null || v === false) this.removeAttribute(k.toLowerCase());
      else if (typeof v !== 'function' && typeof v !== 'symbol') this.setAttribute(k.toLowerCase(), v === true ? '' : v);
    }
    _setChildren(list, props) {
      const html = props && props.dangerouslySetInnerHTML;
      if (!html) super._setChildren(list);
    }
  }
  class ImageData {
    constructor(a, b, c) {
      if (typeof a === 'number') {
        if (!(a >>> 0) || !(b >>> 0)) throw new DOMException('The source width or height is zero.', 'IndexSizeError');
        this.width = a >>> 0;
        this.height = b >>> 0;
        this.data = new Uint8ClampedArray(4 * this.width * this.height);
      } else {
        if (!(a instanceof Uint8ClampedArray)) throw new TypeError("Failed to construct 'ImageData': parameter 1 is not of type 'Uint8ClampedArray'.");
        this.data = a;
        this.width = b >>> 0;
        if (!this.width || a.length % (4 * this.width)) throw new DOMException('The input data length is not a multiple of (4 * width).', 'InvalidStateError');
        this.height = c === undefined ? a.length / 4 / this.width : c >>> 0;
        if (a.length !== 4 * this.width * this.height) throw new DOMException('The input data length is not equal to (4 * width * height).', 'IndexSizeError');
      }
    }
  }
  class Context {
    constructor(canvas) {
      this.canvas = canvas;
      this.fillStyle = '#000000';
    }
    createImageData(w, h) {
      if (typeof w === 'object') return new ImageData(w.width, w.height);
      return new ImageData(Math.abs(w), Math.abs(h));
    }
    putImageData(d, dx, dy, x0 = 0, y0 = 0, w0 = d.width, h0 = d.height) {
      const { _bits: bits, width, height } = this.canvas;
      dx = Math.trunc(dx);
      dy = Math.trunc(dy);
      for (let y = Math.max(0, y0); y < Math.min(d.height, y0 + h0); y++) {
        const ty = y + dy;
        if (ty < 0 || ty >= height) continue;
        for (let x = Math.max(0, x0); x < Math.min(d.width, x0 + w0); x++) {
          const tx = x + dx;
          if (tx < 0 || tx >= width) continue;
          for (let k = 0; k < 4; k++) bits[4 * (ty * width + tx) + k] = d.data[4 * (y * d.width + x) + k];
        }
      }
      sim.drawn++;
    }
    getImageData(x, y, w, h) {
      const d = new ImageData(w, h);
      const { _bits: bits, width, height } = this.canvas;
      for (let j = 0; j < h; j++) for (let i = 0; i < w; i++) if (x + i >= 0 && y + j >= 0 && x + i < width && y + j < height) for (let k = 0; k < 4; k++) d.data[4 * (j * w + i) + k] = bits[4 * ((y + j) * width + x + i) + k];
      return d;
    }
    clearRect(x, y, w, h) {
      const { _bits: bits, width, height } = this.canvas;
      for (let j = Math.max(0, y); j < Math.min(height, y + h); j++) for (let i = Math.max(0, x); i < Math.min(width, x + w); i++) bits.fill(0, 4 * (j * width + i), 4 * (j * width + i) + 4);
    }
    drawImage(source, x = 0, y = 0) {
      // canvases only, unscaled
      if (!(source instanceof Canvas)) return;
      const { _bits: bits, width, height } = this.canvas;
      for (let j = 0; j < source.height; j++) for (let i = 0; i < source.width; i++) {
        if (x + i < 0 || y + j < 0 || x + i >= width || y + j >= height) continue;
        for (let k = 0; k < 4; k++) bits[4 * ((y + j) * width + x + i) + k] = source._bits[4 * (j * source.width + i) + k];
      }
    }
    save() {}
    restore() {}
    setTransform() {}
  }
  class Canvas extends Element {
    constructor() {
      super('canvas');
      this._w = 300;
      this._h = 150;
      this._clear();
    }
    // Setting either, even to the same value, clears the canvas
    _clear() { this._bits = new Uint8Array(4 * this._w * this._h); }
    get width() { return this._w; }
    set width(v) { this._w = v >>> 0; this.attributes.width = String(v >>> 0); this._clear(); }
    get height() { return this._h; }
    set height(v) { this._h = v >>> 0; this.attributes.height = String(v >>> 0); this._clear(); }
    setAttribute(n, v) {
      if (n === 'width' || n === 'height') {
        const x = /^\s*\d+/.exec(String(v));
        this[n] = x ? +x[0] : n === 'width' ? 300 : 150;
      } else super.setAttribute(n, v);
    }
    removeAttribute(n) {
      if (n === 'width' || n === 'height') this[n] = n === 'width' ? 300 : 150;
      super.removeAttribute(n);
    }
    getContext(kind) {
      if (kind !== '2d') return null;
      return (this._context = this._context || new Context(this));
    }
  }
  class Input extends Element {
    constructor() {
      super('input');
      this._files = list([]);
    }
    get type() { return this.attributes.type || 'text'; }
    set type(v) { this.attributes.type = v; }
    get files() { return this.type === 'file' ? this._files : null; }
    get value() { return this.type === 'file' ? (this._files.length ? 'C:\\fakepath\\' + this._files[0].name : '') : this.attributes.value || ''; }
    set value(v) {
      if (this.type === 'file') {
        if (v !== '' && v !== null) throw new DOMException('This input element accepts a filename, which may only be programmatically set to the empty string.', 'InvalidStateError');
        this._files = list([]);
      } else this.attributes.value = v;
    }
  }
  const list = files => {
    const l = Object.create(FileList.prototype);
    files.forEach((f, i) => { l[i] = f; });
    Object.defineProperty(l, 'length', { value: files.length });
    return l;
  };
  class FileList {
    item(i) { return this[i] || null; }
    *[Symbol.iterator]() { for (let i = 0; i < this.length; i++) yield this[i]; }
  }
  const createElement = name => {
    name = name.toLowerCase();
    return name === 'canvas' ? new Canvas() : name === 'input' ? new Input() : new Element(name);
  };
  const document = new (class Document extends Target {
    constructor() {
      super();
      this.documentElement = new Element('html');
      this.head = this.documentElement.appendChild(new Element('head'));
      this.body = this.documentElement.appendChild(new Element('body'));
      this.readyState = 'complete';
      this.visibilityState = 'visible';
      this.hidden = false;
      this.title = '';
      this.baseURI = 'http://sim/';
      this.currentScript = null;
    }
    createElement(n) { return createElement(n); }
    createTextNode(t) { return new Text(t); }
    getElementById(id) { return this.documentElement._all(e => e.id === id)[0] || null; }
    querySelector(s) { return this.documentElement.querySelector(s); }
    querySelectorAll(s) { return this.documentElement.querySelectorAll(s); }
    getElementsByTagName(t) { return this.documentElement.getElementsByTagName(t); }
  })();
  const rootElement = document.body.appendChild(new Element('div'));
  rootElement.id = 'root';

  // React's handlers and native ones, from the target upwards
  const bubble = (type, target) => {
    const e = event(type, target);
    const name = { change: 'onChange', click: 'onClick', input: 'onInput', cancel: 'onCancel', drop: 'onDrop' }[type];
    sim.api.discrete(() => {
      for (let n = target; n && !e.stopped; n = n.parentNode) {
        e.currentTarget = n;
        n._fire(type, e);
      }
      e.stopped = false;
      const path = [];
      for (let n = target; n; n = n.parentNode) path.push(n);
      const run = (n, k) => {
        const f = n._props && n._props[k];
        if (typeof f !== 'function' || e.stopped) return;
        e.currentTarget = n;
        try {
          f(e);
        } catch (x) {
          report(x);
        }
      };
      [...path].reverse().forEach(n => run(n, name + 'Capture'));
      path.forEach(n => {
        run(n, name);
        // React's onChange of other inputs than file choosers listens to input events
        if (type === 'input' && n === target && target.type !== 'file') run(n, 'onChange');
      });
    });
  };

  // -------------------------------------------------------------------------------------- files
  class Blob {
    constructor(parts = [], options = {}) {
      const all = parts.map(p => (p instanceof Blob ? p._bytes : typeof p === 'string' ? new TextEncoder().encode(p) : p instanceof ArrayBuffer ? new Uint8Array(p) : ArrayBuffer.isView(p) ? new Uint8Array(p.buffer, p.byteOffset, p.byteLength) : new TextEncoder().encode(String(p))));
      this._bytes = Uint8Array.from(Buffer.concat(all));
      this.type = String(options.type || '').toLowerCase();
      this._source = parts.length === 1 && parts[0] instanceof Blob ? parts[0]._source : null;
    }
    get size() { return this._bytes.length; }
    slice(a = 0, b = this.size, type = '') {
      const r = new Blob([this._bytes.slice(a, b)], { type });
      r._source = this._source;
      return r;
    }
    _read(what, f, failed) { sim.read(this, what, f, failed); }
    arrayBuffer() { return new Promise((ok, no) => this._read('arrayBuffer', () => ok(this._bytes.slice().buffer), no)); }
    bytes() { return new Promise((ok, no) => this._read('bytes', () => ok(this._bytes.slice()), no)); }
    text() { return new Promise((ok, no) => this._read('text', () => ok(new TextDecoder().decode(this._bytes)), no)); }
    stream() { return { getReader: () => { let done = false; return { read: () => (done ? Promise.resolve({ done: true, value: undefined }) : this.bytes().then(value => { done = true; return { done: false, value }; })), releaseLock() {} }; } }; }
  }
  class File extends Blob {
    constructor(parts, name, options = {}) {
      super(parts, options);
      this.name = name;
      this.lastModified = options.lastModified || 0;
    }
  }
  const b64 = bytes => Buffer.from(bytes).toString('base64');
  class FileReader extends Target {
    constructor() {
      super();
      this.readyState = 0;
      this.result = null;
      this.error = null;
    }
    _start(blob, make) {
      if (!(blob instanceof Blob)) throw new TypeError("Failed to execute 'readAsDataURL' on 'FileReader': parameter 1 is not of type 'Blob'.");
      if (this.readyState === 1) throw new DOMException('The object is already busy reading Blobs.', 'InvalidStateError');
      this.readyState = 1;
      this.result = null;
      this.error = null;
      const turn = (this._turn = {});
      const end = (type, more) => {
        this.readyState = 2;
        this._fire(type, event(type, this, more));
        if (this.readyState !== 1) this._fire('loadend', event('loadend', this, more));
      };
      clock.after(0, 'loadstart', () => { if (this._turn === turn) this._fire('loadstart', event('loadstart', this)); });
      blob._read('reader', () => {
        if (this._turn !== turn) return;
        this._fire('progress', event('progress', this, { loaded: blob.size, total: blob.size, lengthComputable: true }));
        this.result = make(blob);
        end('load', { loaded: blob.size, total: blob.size });
      }, e => {
        if (this._turn !== turn) return;
        this.result = null;
        this.error = e;
        end('error', {});
      });
    }
    readAsDataURL(b) { this._start(b, x => 'data:' + sim.mime(x.type) + ';base64,' + b64(x._bytes)); }
    readAsArrayBuffer(b) { this._start(b, x => x._bytes.slice().buffer); }
    readAsText(b) { this._start(b, x => new TextDecoder().decode(x._bytes)); }
    readAsBinaryString(b) { this._start(b, x => Buffer.from(x._bytes).toString('latin1')); }
    abort() {
      if (this.readyState !== 1) return;
      this._turn = null;
      this.readyState = 2;
      this.result = null;
      this._fire('abort', event('abort', this));
      this._fire('loadend', event('loadend', this));
    }
  }
  for (const [k, v] of Object.entries({ EMPTY: 0, LOADING: 1, DONE: 2 })) FileReader[k] = FileReader.prototype[k] = v;

  // ----------------------------------------------------------------------------------- requests
  const objects = new Map();
  const URL = class extends globalThis.URL {
    constructor(u, base) { super(u, base === undefined && !/^[a-z]+:/i.test(u) ? 'http://sim/' : base); }
    static createObjectURL(b) { const u = 'blob:http://sim/' + (objects.size + 1); objects.set(u, b); return u; }
    static revokeObjectURL(u) { objects.delete(u); }
  };
  // Answers { status, bytes, type } or null when the network failed
  const request = (url, done) => {
    url = String(url && url.href ? url.href : url && url.url ? url.url : url);
    const data = /^data:([^,]*?)(;base64)?,(.*)$/s.exec(url);
    if (data) return clock.after(1, 'data url', () => done({ status: 200, bytes: data[2] ? Uint8Array.from(Buffer.from(data[3], 'base64')) : new TextEncoder().encode(decodeURIComponent(data[3])), type: data[1] }));
    if (url.startsWith('blob:')) {
      const b = objects.get(url);
      if (!b) return clock.after(1, 'blob url', () => done(null));
      return b._read('blob url', () => done({ status: 200, bytes: b._bytes, type: b.type, source: b._source }), () => done(null));
    }
    return sim.request(url, done);
  };
  const blobOf = r => { const b = new Blob([r.bytes], { type: r.type }); b._source = r.source || null; return b; };
  class XMLHttpRequest extends Target {
    constructor() {
      super();
      this.readyState = 0;
      this.status = 0;
      this.statusText = '';
      this.responseType = '';
      this.response = null;
      this.timeout = 0;
      this.upload = new Target();
    }
    open(method, url) {
      this._url = url;
      this.readyState = 1;
      this._change();
    }
    _change() { this._fire('readystatechange', event('readystatechange', this)); }
    setRequestHeader() {}
    overrideMimeType(t) { this._type = t; }
    getResponseHeader(n) { return /content-type/i.test(n) && this._answer ? this._answer.type : null; }
    getAllResponseHeaders() { return ''; }
    get responseText() { return this._answer && (this.responseType === '' || this.responseType === 'text') ? new TextDecoder().decode(this._answer.bytes) : ''; }
    send() {
      if (this.readyState !== 1) throw new DOMException('The object must be opened.', 'InvalidStateError');
      this._fire('loadstart', event('loadstart', this));
      request(this._url, a => {
        if (this._aborted) return;
        if (!a) {
          this.readyState = 4;
          this._change();
          this._fire('error', event('error', this));
          this._fire('loadend', event('loadend', this));
          return;
        }
        this._answer = this._type ? { ...a, type: this._type } : a;
        this.status = a.status;
        this.responseURL = this._url;
        const t = this.responseType;
        this.response = t === 'blob' ? blobOf(this._answer) : t === 'arraybuffer' ? a.bytes.slice().buffer : new TextDecoder().decode(a.bytes);
        for (const s of [2, 3, 4]) {
          this.readyState = s;
          this._change();
        }
        this._fire('load', event('load', this, { loaded: a.bytes.length }));
        this._fire('loadend', event('loadend', this));
      });
    }
    abort() {
      this._aborted = true;
      this.readyState = 0;
      this._fire('abort', event('abort', this));
    }
  }
  const fetch = (url, options) => new Promise((ok, no) => {
    const signal = options && options.signal;
    const stop = () => no(new DOMException('The user aborted a request.', 'AbortError'));
    if (signal) {
      if (signal.aborted) return stop();
      signal.addEventListener('abort', stop);
    }
    request(url, a => {
      if (!a) return no(new TypeError('Failed to fetch'));
      const b = blobOf(a);
      const body = f => () => Promise.resolve().then(f);
      ok({
        ok: a.status >= 200 && a.status < 300, status: a.status, statusText: '', url: String(url), type: 'basic', redirected: false,
        headers: { get: n => (/content-type/i.test(n) ? a.type : null), has: () => false },
        blob: body(() => b), arrayBuffer: body(() => a.bytes.slice().buffer), text: body(() => new TextDecoder().decode(a.bytes)), json: body(() => JSON.parse(new TextDecoder().decode(a.bytes))), bytes: body(() => a.bytes.slice()),
        clone() { return this; },
      });
    });
  });

  const timers = { set: (f, d, ...a) => clock.after(Math.max(1, +d || 0), 'timer', () => f(...a)), clear: id => { if (id !== undefined && id !== null && clock.queue.some(e => e.id === id)) clock.cancelled.add(id); } };
  const setInterval = (f, d, ...a) => {
    const h = { id: 0 };
    const run = () => { h.id = clock.after(Math.max(4, +d || 0), 'interval', () => { run(); f(...a); }); };
    run();
    return h;
  };
  const quiet = () => {};
  const window = new Target();
  const base64 = s => {
    // as in browsers: anything that is not base64 is an error
    const t = String(s).replace(/[\t\n\f\r ]/g, '');
    const u = t.length % 4 === 0 ? t.replace(/={1,2}$/, '') : t;
    if (u.length % 4 === 1 || /[^A-Za-z0-9+/]/.test(u)) throw new DOMException('The string to be decoded is not correctly encoded.', 'InvalidCharacterError');
    return Buffer.from(u, 'base64').toString('latin1');
  };
  class SimDate extends Date {
    constructor(...a) { a.length ? super(...a) : super(1.7e12 + clock.now); }
    static now() { return 1.7e12 + clock.now; }
  }
  let random = 1;
  const SimMath = {};
  for (const k of Object.getOwnPropertyNames(Math)) SimMath[k] = Math[k];
  SimMath.random = () => ((random = (random * 48271) % 2147483647) / 2147483647);
  const globals = {
    window, self: window, globalThis: window, document, Node, Element, HTMLElement: Element, HTMLCanvasElement: Canvas, HTMLInputElement: Input, Event: SimEvent, EventTarget: Target,
    ImageData, Blob, File, FileList, FileReader, XMLHttpRequest, fetch, URL, atob: base64,
    btoa: s => { if (/[^\0-\xff]/.test(s)) throw new DOMException('The string contains characters outside of the Latin1 range.', 'InvalidCharacterError'); return Buffer.from(String(s), 'latin1').toString('base64'); },
    setTimeout: timers.set, clearTimeout: timers.clear, setInterval, clearInterval: h => h && timers.clear(h.id), setImmediate: undefined,
    requestAnimationFrame: f => clock.after(16, 'frame', () => f(clock.now)), cancelAnimationFrame: timers.clear,
    requestIdleCallback: f => clock.after(20, 'idle', () => f({ didTimeout: false, timeRemaining: () => 10 })), cancelIdleCallback: timers.clear,
    performance: { now: () => clock.now, mark: quiet, measure: quiet }, Date: SimDate, Math: SimMath,
    console: { log: quiet, info: quiet, warn: quiet, error: quiet, debug: quiet, time: quiet, timeEnd: quiet, trace: quiet, group: quiet, groupEnd: quiet, assert: quiet, table: quiet },
    navigator: { userAgent: 'sim', language: 'en', hardwareConcurrency: 1 }, location: { href: 'http://sim/', origin: 'http://sim', pathname: '/', search: '', hash: '' },
    localStorage: storage(), sessionStorage: storage(), alert: quiet, process: { env: { NODE_ENV: 'production', PUBLIC_URL: '' } }, require: undefined, module: undefined, exports: undefined, global: undefined, Buffer: undefined,
    OffscreenCanvas: undefined, Worker: undefined, createImageBitmap: undefined, Image: class extends Element { constructor() { super('img'); } },
  };
  Object.assign(window, globals, { addEventListener: window.addEventListener, innerWidth: 1000, innerHeight: 800, devicePixelRatio: 1, queueMicrotask, structuredClone, Uint8Array, Uint8ClampedArray, Promise, Object, Array, String, Number, JSON, Error, TypeError, Symbol, Map, Set, WeakMap, WeakRef: globalThis.WeakRef, AbortController, TextDecoder, TextEncoder });
  return { globals, window, document, rootElement, Input, Canvas, Element, File, list, bubble };
}
function storage() {
  const m = new Map();
  return { getItem: k => (m.has(k) ? m.get(k) : null), setItem: (k, v) => { m.set(k, String(v)); }, removeItem: k => { m.delete(k); }, clear: () => m.clear() };
}
