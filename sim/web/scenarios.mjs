import { session, expected, differs, hash, FORMATS } from './run.mjs';

const REAL = ['src/index.tsx, App.tsx, Content, WatermarkingPreview, Canvas, utils.ts (bundled unchanged)', 'lib/sia/rust/web (compiled for the host)', 'image (decoders)'];
const STUBS = ['React 18: a small implementation; when renders and passive effects happen is simulated', 'browser: document, canvas, file input, File, FileReader, XMLHttpRequest, fetch, timers on a discrete-event clock', 'wasm-bindgen and js-sys: host stand-ins; the module instance, its memory and its loading are simulated', 'watermarking: the stub of the command line simulation, the real library in a few runs'];

const good = (f, real) => expected(f.bytes, real);
const delay = r => (r.chance(0.3) ? 0 : r.log(1, 400));
function file(r, bad, big) {
  const f = { seed: r.below(1000), w: r.pick([2, 3, 8, 8, 8, 9, 16]), h: r.pick([2, 4, 8, 8, 8, 5, 16]), color: r.below(6), format: r.below(5), type: 0 };
  if (big) {
    const most = r.chance(0.06) ? 260 : 80;
    f.w = r.range(2, most);
    f.h = r.range(2, most);
  }
  f.type = r.chance(0.5) ? [0, 3, 2, 1, 4][f.format] : r.below(16);
  if (r.chance(bad)) {
    const k = r.below(7);
    if (k === 0) f.garbage = r.pick([0, 1, 2, 3, 4, 30, 300]);
    else if (k === 1) f.cut = r.below(8) ? r.log(1, 200) : 0;
    else if (k === 2) f.w = 1;
    else if (k === 3) f.h = 1;
    else f.flips = Array.from({ length: r.range(1, 4) }, () => r.below(k === 4 ? 40 : 2000));
  } else if (r.chance(0.4)) f.extra = big && r.chance(0.02) ? r.log(1000, 3000000) : r.range(1, 5);
  return f;
}
function world(r, o) {
  const real = !!o.real;
  const n = r.range(1, 4);
  const files = Array.from({ length: n + 1 }, (_, i) => file(r, i === 0 ? 0.01 : o.bad, o.big && r.chance(0.15)));
  // files may differ in a single pixel, or share name and length
  const alike = r.chance(0.35), name = r.pick(['', '', 'picture.png', 'IMG_0001.JPG', 'new', 'Bild 1.bmp']);
  files.forEach((f, i) => {
    if (alike && i > 0 && r.chance(0.6)) Object.assign(f, { extra: undefined, ...files[r.below(i)], dot: r.range(1, 256) });
    if (name && r.chance(0.7)) f.name = name;
  });
  files[0].format = r.chance(0.7) ? 3 : files[0].format;
  if (real) files.forEach(f => { f.w = f.h = 216; f.color = 2 + r.below(2); f.format = r.below(2); f.seed = r.below(4); delete f.cut; delete f.flips; delete f.garbage; });
  const list = (k, f) => Array.from({ length: k }, f);
  return {
    strict: r.chance(0.3), memory: r.below(2), plainMime: r.chance(0.3), real: real || undefined,
    chunk: delay(r),
    init: list(r.range(1, 2), () => ({ delay: delay(r), fail: r.chance(o.trouble) ? 1 : 0 })),
    page: list(r.range(1, 2), () => ({ delay: delay(r), fail: r.chance(o.trouble) ? r.range(1, 2) : 0, read: delay(r), unreadable: r.chance(o.trouble) ? 1 : 0 })),
    render: list(r.range(1, 5), () => r.pick([0, 0, 1, 4, 16, 50, 300])),
    effects: list(r.range(1, 5), () => r.pick([0, 0, 1, 4, 16, 50, 300])),
    files,
    actions: list(o.actions(r), () => ({ file: r.chance(o.cancel || 0) ? -1 : r.below(n + 1), gap: r.chance(o.calm) ? -1 : r.chance(0.3) ? 0 : r.log(1, 300), delay: delay(r), fail: r.chance(o.unreadable) ? 1 : 0 })),
  };
}
const usable = (s, sel) => sel.index >= 0 && !sel.fail && good(sel.file, s.plan.real);
const defaultUsable = s => good(s.files[0], s.plan.real) && s.plan.init.every(p => !p.fail) && s.plan.page.every(p => !p.fail && !p.unreadable);
const describe = e => `${e.format} ${e.width}x${e.height}`;
const start = (s, o) => o.canvases.length > 0;
const same = (a, b) => a.canvases.length === b.canvases.length && a.canvases.every((c, i) => c.w === b.canvases[i].w && c.h === b.canvases[i].h && Buffer.compare(Buffer.from(c.bits), Buffer.from(b.canvases[i].bits)) === 0) && a.texts.join('|') === b.texts.join('|');
const copy = o => ({ canvases: o.canvases.map(c => ({ w: c.w, h: c.h, bits: Uint8Array.from(c.bits) })), texts: o.texts.slice() });

function last(s, o, ctx, shownBy) {
  const sel = s.selections[s.selections.length - 1];
  if (!sel) {
    if (!defaultUsable(s)) return ctx.probe('default not loadable');
    ctx.probe('default shown');
    ctx.check(differs(o, good(s.files[0], s.plan.real)) === null, 'default-not-shown', () => `nothing was selected and ${differs(o, good(s.files[0], s.plan.real))}${s.sim.crashed ? ' (' + s.sim.crashed + ')' : ''}`);
    return;
  }
  const e = usable(s, sel);
  if (!e) return ctx.probe('selected last: not usable');
  ctx.probe('selected last: shown');
  ctx.check(differs(o, e) === null, shownBy, () => `file ${sel.index} (${describe(e)}) was selected last and ${differs(o, e)}${s.sim.crashed ? ' (' + s.sim.crashed + ')' : ''}`);
}

export const SCENARIOS = {
  C17: {
    runs: [60000, 2000000],
    rule: 'a run is a session of 0..6 file selections with explicit times of the module, the chunk, the default image, every file read, every render and every effect, and failures of any of them; it is non-trivial when two loads were outstanding at once or one failed',
    real: REAL, stubs: STUBS,
    assumptions: ['users select files once the file selector is shown', 'no claim is made when the file selected last cannot be read or decoded, or nothing was selected and the default image or the module cannot be loaded', 'every load ends'],
    plan: r => world(r, { bad: 0.12, trouble: 0.02, unreadable: 0.12, calm: 0.1, actions: r => r.range(0, 6) }),
    async exec(plan, ctx) {
      let overlap = false, failed = false;
      const s = await session(plan, ctx, {
        select(s, sel) {
          if (s.clock.queue.some(e => e.what.startsWith('read') || e.what.startsWith('response') || e.what === 'module')) {
            overlap = true;
            ctx.probe('selected while loading');
          }
          if (sel.fail || !usable(s, sel)) failed = true;
        },
        settled(s, o) { last(s, o, ctx, 'last-selection-not-shown'); },
      });
      ctx.nontrivial = overlap || failed || Object.keys(ctx.faults).length > 0;
      if (s.selections.length > 1) ctx.probe('several selections');
    },
  },
  C18: {
    runs: [40000, 1000000],
    rule: 'a run is a session of 1..8 selections of good, damaged, unreadable and odd-typed files, one after the other or overlapping; what is drawn is compared after every event at which React is idle; it is non-trivial when a selected file was shown or a failing one left the preview alone',
    real: REAL, stubs: STUBS,
    assumptions: ['pixels are compared as given to putImageData; what a canvas loses by storing colours with their opacity is not modelled', 'a file that is an image for the decoders of the image library and can be watermarked is a good one', 'an empty selection counts as a file that cannot be read'],
    plan(r, index, thorough) {
      const real = index % 4000 === 17;
      const p = world(r, { real, bad: 0.3, trouble: 0.005, unreadable: 0.15, calm: r.pick([1, 1, 0.5, 0.2]), cancel: 0.05, big: true, actions: r => (real ? 2 : r.range(1, 8)) });
      return p;
    },
    async exec(plan, ctx) {
      const idle = (s, o) => {
        if (!o.canvases.length) return;
        const id = o.canvases.map(c => hash(c.bits) + c.w).join() + o.texts.join();
        if (id === s.checked) return;
        const some = [];
        if (defaultUsable(s) || good(s.files[0], plan.real)) some.push(good(s.files[0], plan.real));
        for (const sel of s.selections) if (usable(s, sel)) some.push(usable(s, sel));
        ctx.check(some.some(e => differs(o, e) === null), 'inexact-preview', () => {
          const closest = some.map(e => differs(o, e)).sort((a, b) => (a.includes('byte') ? 0 : 1) - (b.includes('byte') ? 0 : 1))[0];
          return `at ${s.clock.now} ms the preview is that of none of the ${some.length} files loadable so far: ${closest}`;
        });
        s.checked = id;
      };
      await session(plan, ctx, {
        select(s, sel) {
          sel.before = copy(sel.before);
          ctx.probe(sel.index < 0 ? 'empty selection' : sel.fail ? 'unreadable' : good(sel.file, plan.real) ? `good ${FORMATS[(sel.file.format || 0) % 5]}` : 'not an image');
        },
        idle,
        settled(s, o) {
          idle(s, o);
          const sel = s.selections[s.selections.length - 1];
          if (sel && !sel.settled && sel.calm && !usable(s, sel)) {
            sel.settled = true;
            ctx.nontrivial = true;
            ctx.probe('failing file left the preview alone');
            ctx.check(same(o, sel.before), 'failing-file-changed-preview', () => `file ${sel.index} cannot be ${sel.fail ? 'read' : 'decoded'}, but the preview changed${s.sim.crashed ? ' (' + s.sim.crashed + ')' : ''}`);
          }
          if (sel && usable(s, sel)) ctx.nontrivial = true;
          last(s, o, ctx, 'not-shown');
        },
      });
    },
  },
};
