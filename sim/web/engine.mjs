// Runs many sessions in worker processes; finds the first violation, minimises its plan, writes the
// replay file and the evidence.
import { fork } from 'child_process';
import crypto from 'crypto';
import fs from 'fs';
import { fileURLToPath } from 'url';
import { Rng } from './rng.mjs';

const self = fileURLToPath(import.meta.url);
const root = process.env.SIM_ROOT || '/verif';
const [mode, ...args] = process.argv.slice(2);
const WORKERS = +process.env.SIM_WORKERS || 8;

if (mode === 'worker') {
  const { SCENARIOS } = await import('./scenarios.mjs');
  const { Ctx, Violation, hash } = await import('./run.mjs');
  const one = async (id, plan, trace) => {
    const ctx = new Ctx(trace);
    let violation = null;
    try {
      await SCENARIOS[id].exec(plan, ctx);
    } catch (e) {
      if (!(e instanceof Violation)) violation = { class: 'harness', detail: String(e && e.stack) };
      else violation = { class: e.class, detail: e.message };
    }
    return { violation, faults: ctx.faults, probes: ctx.probes, states: ctx.states, checks: ctx.checks, nontrivial: ctx.nontrivial, simMs: ctx.simMs, log: ctx.h.digest('hex').slice(0, 16), trace: ctx.trace };
  };
  process.on('message', async m => {
    const out = [];
    if (m.plan) out.push(await one(m.id, m.plan, m.trace));
    else {
      for (const i of m.indices) {
        process.send({ at: i });
        const plan = SCENARIOS[m.id].plan(new Rng(m.seed, m.id, i), i, m.thorough);
        const r = await one(m.id, plan, m.trace);
        r.index = i;
        r.key = hash(JSON.stringify(plan));
        out.push(r);
      }
    }
    process.send({ out });
  });
} else {
  const { SCENARIOS } = await import('./scenarios.mjs');
  const { bytesOf } = await import('./run.mjs');

  class Worker {
    constructor() { this.start(); }
    start() {
      this.p = fork(self, ['worker'], { stdio: ['ignore', 'ignore', 'inherit', 'ipc'], env: { ...process.env, SIM_ROOT: root } });
      this.p.on('exit', () => { if (this.done) this.fail('the process died'); });
      this.p.on('message', m => {
        if (m.at !== undefined) {
          this.index = m.at;
          this.arm();
        } else {
          const d = this.done;
          this.clear();
          d(m.out);
        }
      });
    }
    arm() {
      clearTimeout(this.timer);
      this.timer = setTimeout(() => { this.p.kill('SIGKILL'); }, 120000);
    }
    clear() {
      clearTimeout(this.timer);
      this.done = null;
    }
    fail(why) {
      const d = this.done, index = this.index;
      this.clear();
      this.start();
      d([{ violation: { class: 'crash', detail: why }, faults: {}, probes: {}, states: [], checks: 0, nontrivial: false, simMs: 0, log: '', index, key: '' }]);
    }
    send(m) {
      return new Promise(ok => {
        this.done = ok;
        this.index = undefined;
        this.arm();
        this.p.send(m);
      });
    }
    stop() {
      this.clear();
      this.p.removeAllListeners('exit');
      this.p.kill('SIGKILL');
    }
  }
  const planOf = (id, seed, i, thorough) => SCENARIOS[id].plan(new Rng(seed, id, i), i, thorough);
  const fresh = async (id, plan, trace) => {
    const w = new Worker();
    const [r] = await w.send({ id, plan, trace });
    w.stop();
    return r;
  };
  const known = id => {
    const f = `${root}/known-findings.txt`;
    if (!fs.existsSync(f)) return [];
    return fs.readFileSync(f, 'utf8').split('\n').map(l => /^known: property=(\S+) class=(\S+) (.*)$/.exec(l)).filter(m => m && m[1] === id).map(m => ({ class: m[2], text: m[3] }));
  };
  const add = (to, from) => { for (const k in from) to[k] = (to[k] || 0) + from[k]; };

  async function minimise(id, plan, cls) {
    const w = new Worker();
    let best = plan, tried = 0;
    const end = Date.now() + 60000;
    const attempt = async c => {
      if (Date.now() > end || tried > 3000) return false;
      tried++;
      const [r] = await w.send({ id, plan: c });
      if (r.violation && r.violation.class === cls) {
        best = c;
        return true;
      }
      return false;
    };
    const paths = (v, p, lists, numbers) => {
      if (Array.isArray(v)) {
        lists.push(p);
        v.forEach((x, i) => paths(x, [...p, i], lists, numbers));
      } else if (v && typeof v === 'object') for (const k in v) paths(v[k], [...p, k], lists, numbers);
      else if (typeof v === 'number' || typeof v === 'boolean') numbers.push(p);
    };
    const at = (v, p) => p.reduce((a, k) => (a === undefined ? undefined : a[k]), v);
    const clone = v => JSON.parse(JSON.stringify(v));
    for (let round = 0; round < 4; round++) {
      const before = JSON.stringify(best);
      let lists = [], numbers = [];
      paths(best, [], lists, numbers);
      lists.sort((a, b) => a.length - b.length);
      for (const p of lists) {
        let l = at(best, p);
        if (!Array.isArray(l)) continue;
        for (let chunk = l.length; chunk >= 1; chunk >>= 1) {
          for (let i = 0; i < (at(best, p) || []).length;) {
            const c = clone(best), a = at(c, p);
            a.splice(i, chunk);
            if (p[0] === 'files' && p.length === 1 && !a.length) { i += chunk; continue; }
            if (!(await attempt(c))) i += chunk;
          }
        }
      }
      lists = [];
      numbers = [];
      paths(best, [], lists, numbers);
      for (const p of numbers) {
        const old = at(best, p);
        const key = p[p.length - 1];
        if (['seed', 'color', 'type', 'format'].includes(key)) continue;
        const floor = key === 'w' || key === 'h' ? 2 : key === 'file' || key === 'gap' ? -2 : 0;
        const cs = typeof old === 'boolean' ? (old ? [false] : []) : [0, 1, old >> 4, old >> 1, old - 1].filter((x, i, a) => x < old && x >= floor && a.indexOf(x) === i);
        for (const x of cs) {
          const c = clone(best);
          at(c, p.slice(0, -1))[key] = x;
          if (await attempt(c)) break;
        }
      }
      if (JSON.stringify(best) === before) break;
    }
    w.stop();
    return [best, tried];
  }

  async function sweep(id, seed, thorough, runs, budget, workers, listener) {
    const start = Date.now();
    let next = 0, left = 0, stop = false;
    const pool = Array.from({ length: workers }, () => new Worker());
    await Promise.all(pool.map(async w => {
      while (next < runs && !stop) {
        if (Date.now() - start > budget) break;
        const n = Math.min(40, runs - next, Math.max(1, Math.ceil((runs - next) / (2 * workers))));
        const indices = Array.from({ length: n }, (_, k) => next + k);
        next += n;
        const out = await w.send({ id, seed, thorough, indices });
        for (const r of out) if (listener(r)) stop = true;
      }
    }));
    left = runs - next;
    return { pool, left: Math.max(0, left), stopped: stop };
  }

  async function check(id) {
    const seed = +(process.env.VERIF_SEED || 1), thorough = process.env.VERIF_TIER === 'thorough';
    const sc = SCENARIOS[id], t0 = Date.now();
    const runs = +process.env.SIM_RUNS || sc.runs[thorough ? 1 : 0];
    console.log(`${id}: VERIF_SEED=${seed} tier=${thorough ? 'thorough' : 'quick'} runs=${runs} workers=${WORKERS}`);
    const all = { faults: {}, with: {}, probes: {}, states: new Set(), keys: new Set(), checks: 0, n: 0, nontrivial: 0, simMs: 0, known: {} };
    const digests = new Map();
    const list = known(id);
    let worst = null;
    const harness = [];
    const { pool, left } = await sweep(id, seed, thorough, runs, thorough ? 3600000 : 420000, WORKERS, r => {
      all.n++;
      all.checks += r.checks;
      all.simMs += r.simMs;
      add(all.faults, r.faults);
      for (const k in r.faults) all.with[k] = (all.with[k] || 0) + 1;
      add(all.probes, r.probes);
      r.states.forEach(x => all.states.add(x));
      if (r.nontrivial && !all.keys.has(r.key)) all.nontrivial++;
      all.keys.add(r.key);
      digests.set(r.index, r.log);
      if (!r.violation) return false;
      if (r.violation.class === 'harness') {
        harness.push(r);
        return true;
      }
      const k = list.find(k => k.class === r.violation.class);
      if (k) {
        all.known[k.text] = (all.known[k.text] || 0) + 1;
        return false;
      }
      if (!worst || r.index < worst.index) worst = r;
      return true;
    });
    // some again, in other processes and another order
    const repeat = worst || harness.length ? [] : [...digests.keys()].sort((a, b) => a - b).filter(i => i % 20 === 3);
    let diverged = 0, repeated = 0;
    await Promise.all(pool.map(async (w, k) => {
      const mine = repeat.filter((_, j) => j % WORKERS === k).reverse();
      for (let i = 0; i < mine.length; i += 40) {
        for (const r of await w.send({ id, seed, thorough, indices: mine.slice(i, i + 40) })) {
          repeated++;
          if (r.log !== digests.get(r.index)) diverged++;
        }
      }
    }));
    pool.forEach(w => w.stop());
    if (harness.length) {
      console.log(`HARNESS-ERROR ${harness[0].violation.detail}`);
      process.exit(2);
    }
    if (diverged) console.log(`HARNESS-WARNING ${diverged} of ${repeated} repeated runs diverged`);
    for (const t in all.known) console.log(`KNOWN-FINDING: property=${id} ${t}`);
    let status = 0;
    if (worst) {
      status = 1;
      const plan = planOf(id, seed, worst.index, thorough), size = JSON.stringify(plan).length;
      console.log(`run ${worst.index}: ${worst.violation.class}: ${worst.violation.detail}`);
      let [best, tried] = await minimise(id, plan, worst.violation.class);
      let r = await fresh(id, best, true);
      if (!r.violation) {
        best = plan;
        r = await fresh(id, best, true);
      }
      const v = r.violation || worst.violation;
      console.log(`minimised from ${size} to ${JSON.stringify(best).length} bytes of plan, ${tried} candidates: ${v.class}: ${v.detail}`);
      (r.trace || []).slice(-60).forEach(l => console.log('  ' + l));
      const file = `${root}/replays/${id}-${seed}-${worst.index}.json`;
      fs.mkdirSync(`${root}/replays`, { recursive: true });
      fs.writeFileSync(file, JSON.stringify({ property: id, class: v.class, detail: v.detail, event_log: r.log, seed, tier: thorough ? 'thorough' : 'quick', run: worst.index, candidates_tried: tried, plan_bytes_before_minimising: size, plan: best, trace: r.trace }, null, 1));
      console.log(`VIOLATION property=${id} replay=${file}`);
    }
    const samples = [];
    for (const i of [0, 1, Math.floor(runs / 2)]) {
      const plan = planOf(id, seed, i, thorough);
      if (plan.real) continue;
      const r = await fresh(id, plan, true);
      samples.push({ run: i, plan, events: r.trace, outcome: r.violation ? r.violation.class : 'held' });
    }
    const wall = (Date.now() - t0) / 1000;
    const digest = crypto.createHash('sha1').update([...digests].sort((a, b) => a[0] - b[0]).map(x => x.join()).join('\n')).digest('hex').slice(0, 16);
    const evidence = {
      property: id, tier: thorough ? 'thorough' : 'quick', seed, level: 'exploration',
      coverage: {
        evaluations: all.n, distinct_nontrivial: all.nontrivial, rule: sc.rule, samples,
        assertions_checked: all.checks, distinct_states: all.states.size, state_measure: 'hash of what is shown, what is outstanding and the selections so far, at every change of the preview',
        faults_injected: all.faults, runs_with_fault: all.with, probes: all.probes, simulated_seconds: all.simMs / 1000,
        runs_per_hour: Math.round((all.n / wall) * 3600), seeds_per_hour: Math.round((all.n / wall) * 3600), runs_repeated_for_determinism: repeated, runs_that_diverged: diverged, runs_left_out_for_time: left,
        event_log_digest: digest, real_code: sc.real, stubs: sc.stubs, worker_processes: WORKERS,
      },
      assumptions: sc.assumptions, wall_s: wall, violations: worst ? 1 : 0,
    };
    fs.mkdirSync(`${root}/evidence`, { recursive: true });
    fs.writeFileSync(`${root}/evidence/${id}.json`, JSON.stringify(evidence, null, 1));
    console.log(`${id}: ${all.n} runs in ${wall.toFixed(1)} s, ${all.checks} assertions, ${all.states.size} distinct states, ${all.nontrivial} non-trivial, faults ${JSON.stringify(all.faults)}, probes ${JSON.stringify(all.probes)}, repeated ${repeated} diverged ${diverged} digest ${digest}`);
    process.exit(status);
  }

  if (mode === 'check') await check(args[0]);
  else if (mode === 'replay') {
    const f = JSON.parse(fs.readFileSync(args[0], 'utf8'));
    const r = await fresh(f.property, f.plan, true);
    r.trace.forEach(l => console.log('  ' + l));
    if (!r.violation) {
      console.log(`no violation: ${f.property} held`);
      process.exit(0);
    }
    console.log(`${r.violation.class}: ${r.violation.detail}\nevent log ${r.log} ${r.log === f.event_log ? 'as recorded' : 'instead of ' + f.event_log}`);
    console.log(`VIOLATION property=${f.property} replay=${args[0]}`);
    process.exit(1);
  } else if (mode === 'show') {
    const [id, i] = args;
    const plan = planOf(id, +(process.env.VERIF_SEED || 1), +i, process.env.VERIF_TIER === 'thorough');
    console.log(JSON.stringify(plan, null, 1));
    const r = await fresh(id, plan, true);
    r.trace.forEach(l => console.log('  ' + l));
    console.log(r.violation || 'held', r.probes, r.faults, r.log);
    process.exit(0);
  } else if (mode === 'determinism') {
    const [id, n] = args;
    const runs = +n || 2000, seed = +(process.env.VERIF_SEED || 1);
    const logs = [];
    for (const workers of [8, 3, 1]) {
      const m = new Map();
      const { pool } = await sweep(id, seed, false, runs, 1e9, workers, r => { m.set(r.index, r.log); return false; });
      pool.forEach(w => w.stop());
      logs.push(m);
    }
    let bad = 0;
    for (const [i, l] of logs[0]) if (logs.some(m => m.get(i) !== l)) bad++;
    console.log(`${id}: ${runs} runs with 8, 3 and 1 workers: ${bad} diverged`);
    process.exit(bad ? 2 : 0);
  }
}
