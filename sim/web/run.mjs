// One simulated session of the front end: a pure function of its plan.
import fs from 'fs';
import crypto from 'crypto';
import { createRequire } from 'module';
import { Clock, createBrowser, drained } from './browser.mjs';

const root = process.env.SIM_ROOT || '/verif';
const require = createRequire(import.meta.url);
const bridges = {};
const bridge = real => {
  const n = real ? 'real' : 'stub';
  return bridges[n] || (bridges[n] = require(`${root}/target/web/bridge_${n}.node`));
};
let source = null;
const NAMES = ['window', 'self', 'globalThis', 'document', 'Node', 'Element', 'HTMLElement', 'HTMLCanvasElement', 'HTMLInputElement', 'Event', 'EventTarget', 'ImageData', 'Blob', 'File', 'FileList', 'FileReader', 'XMLHttpRequest', 'fetch', 'URL', 'atob', 'btoa', 'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval', 'setImmediate', 'requestAnimationFrame', 'cancelAnimationFrame', 'requestIdleCallback', 'cancelIdleCallback', 'performance', 'Date', 'Math', 'console', 'navigator', 'location', 'localStorage', 'sessionStorage', 'alert', 'process', 'require', 'module', 'exports', 'global', 'Buffer', 'OffscreenCanvas', 'Worker', 'createImageBitmap', 'Image'];
const program = () => source || (source = new Function('__sim', ...NAMES, fs.readFileSync(`${root}/target/web/bundle.js`, 'utf8')));

export const hash = x => crypto.createHash('sha1').update(x).digest('hex').slice(0, 16);
const unhandled = [];
process.on('unhandledRejection', e => unhandled.push(String(e && e.message ? e.message : e)));

export const DEPTH = 500, STEP = 1;
export const FORMATS = ['png', 'bmp', 'gif', 'jpeg', 'tiff'];
export const TYPES = ['image/png', 'image/jpeg', 'image/gif', 'image/bmp', 'image/tiff', '', 'application/octet-stream', 'image/x-ms-bmp', 'image/svg+xml', 'text/plain;charset=utf-8', 'image/vnd.microsoft.icon', 'application/vnd.openxmlformats-officedocument.wordprocessingml.document', 'video/mp4', 'text/html', 'audio/x-m4a', 'image/pjpeg', 'chemical/x-pdb', 'x-world/x-3dmf', 'font/woff2'];
const cache = new Map();
/// The bytes of a file of the plan
export function bytesOf(f, real) {
  let b;
  if (f.garbage !== undefined) {
    let x = (f.seed * 2654435761 + 1) >>> 0;
    b = Buffer.alloc(f.garbage);
    for (let i = 0; i < b.length; i++) {
      x = (Math.imul(x, 1664525) + 1013904223) >>> 0;
      b[i] = x >>> 24;
    }
    return b;
  }
  const k = [f.seed, f.w, f.h, f.color, f.format, f.dot || 0].join();
  b = cache.get(k);
  if (!b) {
    if (cache.size > 3000) cache.clear();
    cache.set(k, (b = bridge(false).make(f.seed, f.w, f.h, f.color, f.format, f.dot || 0)));
  }
  if (f.cut !== undefined) b = b.subarray(0, Math.min(f.cut, b.length));
  if (f.flips) {
    b = Buffer.from(b);
    for (const p of f.flips) if (b.length) b[p % b.length] ^= 1 << (p % 8);
  }
  if (f.extra) b = Buffer.concat([b, Buffer.alloc(f.extra, 0x41)]);
  return b;
}
const expectations = new Map();
export function expected(bytes, real) {
  const k = hash(bytes) + bytes.length + !!real;
  let e = expectations.get(k);
  if (e === undefined) {
    if (expectations.size > 2000) expectations.clear();
    e = bridge(real).expect(bytes, DEPTH, STEP);
    if (e) e.id = k;
    expectations.set(k, e);
  }
  return e;
}
const processed = new Map();
function processBytes(bytes, depth, step, real) {
  const k = [hash(bytes), bytes.length, depth, step, real].join();
  let r = processed.get(k);
  if (!r) {
    if (processed.size > 2000) processed.clear();
    try {
      r = { ok: bridge(real).process(bytes, depth, step) };
    } catch (e) {
      r = { error: e.message };
    }
    processed.set(k, r);
  }
  if (r.error) throw new WebAssembly.RuntimeError(r.error);
  return r.ok;
}

export class Ctx {
  constructor(trace) {
    this.faults = {};
    this.probes = {};
    this.states = [];
    this.checks = 0;
    this.nontrivial = false;
    this.trace = trace ? [] : null;
    this.h = crypto.createHash('sha1');
    this.simMs = 0;
  }
  fault(k) { this.faults[k] = (this.faults[k] || 0) + 1; }
  probe(k) { this.probes[k] = (this.probes[k] || 0) + 1; }
  ev(s) {
    this.h.update(s + '\n');
    if (this.trace && this.trace.length < 400) this.trace.push(s);
  }
  check(ok, cls, detail) {
    this.checks++;
    if (ok) return;
    const d = detail();
    this.ev(`VIOLATED ${cls}: ${d}`);
    throw new Violation(cls, d);
  }
}
export class Violation extends Error {
  constructor(cls, detail) {
    super(detail);
    this.class = cls;
  }
}

const pick = (list, i, d) => (list && list.length ? list[i % list.length] : d);

/// Runs the session; observe(session) is called whenever nothing is being drawn
export async function session(plan, ctx, hooks) {
  const clock = new Clock();
  const real = !!plan.real;
  const files = plan.files.map(f => ({ ...f, bytes: bytesOf(f, real) }));
  const counts = { init: 0, page: 0, render: 0, effects: 0 };
  unhandled.length = 0;
  const sim = {
    clock, plan, errors: [], drawn: 0,
    mime: t => t || (plan.plainMime ? '' : 'application/octet-stream'),
    read(blob, what, ok, failed) {
      const s = blob._source || {};
      const fail = !!s.fail;
      clock.after(s.delay === undefined ? 1 : s.delay, 'read ' + (s.name || 'bytes'), () => {
        if (fail) {
          ctx.fault('unreadable file');
          failed(new DOMException('The requested file could not be read.', 'NotReadableError'));
        } else ok();
      });
    },
    request(url, done) {
      const p = pick(plan.page, counts.page++, { delay: 1 });
      clock.after(p.delay, 'response ' + url.replace(/\.[0-9a-f]{8}\./, '.'), () => {
        if (p.fail === 1) {
          ctx.fault('request failed');
          return done(null);
        }
        if (p.fail === 2 || !/\.(jpe?g|png)/.test(url)) {
          ctx.fault('request not found');
          return done({ status: 404, bytes: Uint8Array.from(Buffer.from('<html>not found</html>')), type: 'text/html' });
        }
        const known = /peppers/.test(url);
        done({ status: 200, bytes: Uint8Array.from(known ? files[0].bytes : bytesOf({ seed: 99, w: 5, h: 7, color: 2, format: 0 })), type: known ? pick(TYPES, files[0].type, 'image/jpeg') : 'image/jpeg', source: { name: 'default image', delay: p.read || 1, fail: p.unreadable } });
      });
    },
  };
  // ------------------------------------------------------------------------- the wasm module
  const views = [];
  let ready = false;
  const gone = () => { throw new Error('null pointer passed to rust'); };
  class ImageModel {
    constructor(w, h, data) { this._m = { w, h, data }; }
    _get() { return this._m || gone(); }
    get_width() { return this._get().w; }
    set_width(w) { this._get().w = w >>> 0; }
    get_height() { return this._get().h; }
    set_height(h) { this._get().h = h >>> 0; }
    get_data() { return this._get().data; }
    set_data(d) { this._get().data = d; }
    free() { this._m = null; }
  }
  class WatermarkingProcess {
    constructor(format, source, watermarked) { this._m = { format, source: source && { ...source._m }, watermarked: watermarked && { ...watermarked._m } }; }
    _get() { return this._m || gone(); }
    get_source_format() { return this._get().format; }
    set_source_format(f) { this._get().format = String(f); }
    _model(m) { return new ImageModel(m.w, m.h, m.data); }
    get_source() { return this._model(this._get().source); }
    set_source(s) { this._get().source = { ...s._get() }; }
    get_watermarked() { return this._model(this._get().watermarked); }
    set_watermarked(s) { this._get().watermarked = { ...s._get() }; }
    free() { this._m = null; }
  }
  const lib = {
    ImageModel, WatermarkingProcess,
    initSync() { ready = true; return {}; },
    init() {
      if (ready) return Promise.resolve({});
      const p = pick(plan.init, counts.init++, { delay: 1 });
      return new Promise((ok, no) => {
        clock.after(p.delay, 'module', () => {
          if (p.fail) {
            ctx.fault('module failed to load');
            return no(new WebAssembly.CompileError('WebAssembly.instantiateStreaming(): failed'));
          }
          ready = true;
          ok({});
        });
      });
    },
    get_watermarking_process(bytes, depth, step) {
      if (!ready) throw new TypeError("Cannot read properties of undefined (reading 'get_watermarking_process')");
      // the module's memory moves or is used again
      for (const v of views.splice(0)) {
        ctx.fault(plan.memory ? 'module memory reused' : 'module memory moved');
        if (plan.memory) v.fill(0xa5);
        else structuredClone(v.buffer, { transfer: [v.buffer] });
      }
      const n = bytes && bytes.length >>> 0;
      const b = Buffer.alloc(n || 0);
      if (n) b.set(bytes);
      const r = processBytes(b, +depth, +step, real);
      const data = (d, view) => {
        const u = Uint8Array.from(d);
        if (view) views.push(u);
        return u;
      };
      const s = data(r.data, r.view);
      const p = new WatermarkingProcess(r.format, null, null);
      p._m.source = { w: r.width, h: r.height, data: s };
      p._m.watermarked = { w: r.width2, h: r.height2, data: r.same ? s : data(r.data2, r.view2) };
      return p;
    },
  };
  const api = {
    lib, strict: !!plan.strict,
    task(kind, f) { clock.after(pick(plan[kind], counts[kind]++, 0), kind, f); },
    chunk: m => new Promise(ok => clock.after(plan.chunk || 0, 'chunk', () => ok(m))),
    uncaught: e => { sim.crashed = String(e && e.message ? e.message : e); ctx.ev(`t=${clock.now} uncaught ${sim.crashed}`); },
  };
  sim.api = api;
  const browser = createBrowser(sim);
  api.document = browser.document;
  const s = { sim, clock, files, selections: [], plan };
  const rootNode = browser.rootElement;
  const shown = n => { for (; n; n = n.parentNode) if (n.hidden || (n.style && n.style.display === 'none') || (n.attributes && 'hidden' in n.attributes)) return false; return true; };
  s.observe = () => {
    const canvases = rootNode._all(e => e.localName === 'canvas').filter(shown);
    const texts = rootNode._all(e => e.localName !== 'canvas' && e.localName !== 'input').filter(shown).map(e => e.textContent.replace(/\s+/g, ' ').trim());
    return { canvases: canvases.map(c => ({ w: c.width, h: c.height, bits: c._bits })), texts, empty: rootNode.childNodes.length === 0 };
  };
  s.input = () => rootNode._all(e => e.localName === 'input' && e.type === 'file').filter(shown).find(i => !('disabled' in i.attributes)) || null;
  s.idle = () => !api.busy() && !clock.queue.some(e => ['timer', 'frame', 'idle', 'interval'].includes(e.what) && !clock.cancelled.has(e.id));

  // the user
  const actions = plan.actions.slice();
  let due = actions.length ? (actions[0].gap < 0 ? -1 : actions[0].gap) : null;
  const advance = () => {
    actions.shift();
    due = actions.length ? (actions[0].gap < 0 ? -1 : clock.now + actions[0].gap) : null;
  };
  const select = () => {
    const a = actions[0], input = s.input();
    const f = a.file < 0 ? null : files[a.file % files.length];
    const index = f ? a.file % files.length : -1;
    advance();
    if (f && input._current === index && input.files.length) {
      ctx.ev(`t=${clock.now} the same file again`); // no change, no event
      return;
    }
    const sel = { index, at: clock.now, fail: !!a.fail && !!f, file: f, before: s.observe(), calm: a.gap < 0, settled: false };
    if (f) {
      const file = new browser.File([f.bytes], f.name || `picture${index}.${FORMATS[(f.format || 0) % 5]}`, { type: TYPES[(f.type || 0) % TYPES.length], lastModified: 1600000000000 + 86400000 * index });
      file._source = { name: 'file ' + index, delay: a.delay, fail: a.fail };
      input._files = browser.list([file]);
    } else input._files = browser.list([]);
    input._current = index;
    s.selections.push(sel);
    ctx.ev(`t=${clock.now} select ${index}`);
    if (hooks.select) hooks.select(s, sel);
    browser.bubble('input', input);
    browser.bubble('change', input);
  };
  // the page
  try {
    program()(api, ...NAMES.map(n => browser.globals[n]));
  } catch (e) {
    sim.crashed = String(e && e.message);
  }
  await drained();
  for (;;) {
    while (unhandled.length) {
      ctx.ev(`t=${clock.now} unhandled rejection`);
      ctx.probe('unhandled rejection');
      unhandled.shift();
    }
    if (sim.errors.length) {
      ctx.ev(`t=${clock.now} error in a handler`);
      ctx.probe('error in a handler');
      sim.errors.length = 0;
    }
    if (s.idle()) {
      const o = s.observe();
      const id = o.canvases.map(c => `${c.w}x${c.h}:${hash(c.bits)}`).join(' ');
      if (id !== s.last) {
        s.last = id;
        ctx.ev(`t=${clock.now} shows ${o.canvases.length ? id : o.texts[0] || 'nothing'}`);
        ctx.states.push(hash(id + '|' + clock.queue.map(e => e.what).sort().join() + '|' + s.selections.map(x => x.index).join()));
      }
      hooks.idle && hooks.idle(s, o);
    }
    const next = clock.queue.filter(e => !clock.cancelled.has(e.id)).reduce((a, b) => (!a || b.t < a.t || (b.t === a.t && b.id < a.id) ? b : a), null);
    if (due !== null && s.input() && !api.busy() && (due < 0 ? !next : !next || next.t > due)) {
      if (due >= 0) clock.now = Math.max(clock.now, due);
      if (!next && hooks.settled) hooks.settled(s, s.observe());
      select();
      await drained();
      continue;
    }
    const e = clock.next();
    if (!e) break;
    if (clock.steps > 3000) throw new Violation('never-settles', `${clock.steps} events and still ${clock.queue.length + 1} outstanding, ${e.what} next`);
    ctx.ev(`t=${clock.now} ${e.what}`);
    try {
      e.f();
    } catch (x) {
      sim.errors.push(String(x && x.message));
    }
    await drained();
  }
  ctx.simMs = clock.now;
  hooks.settled && hooks.settled(s, s.observe(), true);
  return s;
}

/// Whether the preview shows just this image
export function differs(o, e) {
  if (o.canvases.length !== 2) return `${o.canvases.length} pictures are drawn`;
  const want = [[e.width, e.height, e.data, 'source'], [e.width2, e.height2, e.data2, 'watermarked']];
  for (let i = 0; i < 2; i++) {
    const c = o.canvases[i], [w, h, d, name] = want[i];
    if (c.w !== w || c.h !== h) return `the ${name} picture is ${c.w}x${c.h} instead of ${w}x${h}`;
    if (Buffer.compare(Buffer.from(c.bits.buffer), d) !== 0) {
      const k = d.findIndex((x, j) => x !== c.bits[j]);
      return `the ${name} picture has ${c.bits[k]} instead of ${d[k]} at byte ${k}`;
    }
  }
  for (const t of [`Format: ${e.format.toUpperCase()}`, `Size: ${e.width}x${e.height}`]) if (!o.texts.includes(t)) return `nothing says "${t}"`;
  return null;
}
