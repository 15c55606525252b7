// A small React 18: function and class components, hooks, context, memo, lazy and Suspense,
// StrictMode with its double invocations, batched updates, passive effects as tasks of their own.
// When a render or the passive effects happen is up to the simulator (__sim.task).
const ELEMENT = Symbol.for('react.element');
export const Fragment = Symbol.for('react.fragment');
export const StrictMode = Symbol.for('react.strict_mode');
export const Suspense = Symbol.for('react.suspense');
export const Profiler = Symbol.for('react.profiler');
export const SuspenseList = Fragment;
const PROVIDER = Symbol.for('react.provider');
const CONTEXT = Symbol.for('react.context');
const MEMO = Symbol.for('react.memo');
const FORWARD = Symbol.for('react.forward_ref');
const LAZY = Symbol.for('react.lazy');
const PORTAL = Symbol.for('react.portal');
export const version = '18.2.0';

export const jsx = (type, config, key) => {
  const { ref, key: k, ...props } = config || {};
  if (type && type.defaultProps) for (const n in type.defaultProps) if (props[n] === undefined) props[n] = type.defaultProps[n];
  const kk = key !== undefined ? key : k;
  return { $$typeof: ELEMENT, type, key: kk === undefined || kk === null ? null : '' + kk, ref: ref === undefined ? null : ref, props };
};
export const createElement = (type, config, ...children) => {
  const c = { ...(config || {}) };
  delete c.__self;
  delete c.__source;
  if (children.length === 1) c.children = children[0];
  else if (children.length > 1) c.children = children;
  return jsx(type, c);
};
export const cloneElement = (el, config, ...children) => {
  const c = { ...el.props, key: el.key, ref: el.ref, ...(config || {}) };
  return createElement(el.type, c, ...(children.length ? children : []));
};
export const isValidElement = e => typeof e === 'object' && e !== null && e.$$typeof === ELEMENT;
export const createRef = () => ({ current: null });
export const createFactory = t => createElement.bind(null, t);
export const memo = (type, compare) => ({ $$typeof: MEMO, type, compare: compare || null });
export const forwardRef = render => ({ $$typeof: FORWARD, render });
export const createContext = value => {
  const c = { $$typeof: CONTEXT, value };
  c.Provider = { $$typeof: PROVIDER, context: c };
  c.Consumer = c;
  return c;
};
// Chunks arrive when the simulator says so
export const lazy = load => ({ $$typeof: LAZY, load, status: 'new', result: null });
const readLazy = l => {
  if (l.status === 'new') {
    l.status = 'pending';
    l.promise = Promise.resolve(l.load()).then(m => __sim.chunk(m)).then(
      m => { l.status = 'ready'; l.result = m.default; },
      e => { l.status = 'failed'; l.result = e; },
    );
  }
  if (l.status === 'ready') return l.result;
  if (l.status === 'failed') throw l.result;
  throw l.promise;
};
export const createPortal = (children, container) => ({ $$typeof: ELEMENT, type: PORTAL, key: null, ref: null, props: { children, container } });

const flat = (c, out, prefix) => {
  if (Array.isArray(c)) c.forEach((x, i) => flat(x, out, prefix + '[' + i + ']'));
  else if (c !== null && c !== undefined && typeof c === 'object' && !isValidElement(c) && typeof c[Symbol.iterator] === 'function') flat([...c], out, prefix);
  else out.push(c);
  return out;
};
export const Children = {
  map: (c, f, t) => (c === null || c === undefined ? c : flat(c, [], '').map((x, i) => f.call(t, typeof x === 'boolean' || x === undefined ? null : x, i)).filter(x => x !== null && x !== undefined)),
  forEach: (c, f, t) => { if (c !== null && c !== undefined) flat(c, [], '').forEach((x, i) => f.call(t, x, i)); },
  count: c => (c === null || c === undefined ? 0 : flat(c, [], '').length),
  toArray: c => (c === null || c === undefined ? [] : flat(c, [], '').filter(x => x !== null && x !== undefined && typeof x !== 'boolean')),
  only: c => { if (!isValidElement(c)) throw new Error('React.Children.only expected one child'); return c; },
};

export class Component {
  constructor(props, context) {
    this.props = props;
    this.context = context;
    this.refs = {};
  }
  setState(u, callback) {
    classUpdate(this, { u, callback });
  }
  forceUpdate(callback) {
    classUpdate(this, { u: null, force: true, callback });
  }
}
Component.prototype.isReactComponent = {};
export class PureComponent extends Component {}
PureComponent.prototype.isPureReactComponent = true;

// ------------------------------------------------------------------------------------------ hooks
let current = null; // the component being rendered
const hook = (kind, make) => {
  if (!current) throw new Error('Invalid hook call. Hooks can only be called inside of the body of a function component.');
  const w = current, i = w.i++;
  const old = w.before && w.before[i];
  if (w.before && (!old || old.kind !== kind)) throw new Error('Rendered more hooks than during the previous render.');
  const h = old ? { ...old } : { kind, ...make() };
  w.hooks[i] = h;
  return h;
};
const changed = (a, b) => !a || !b || a.length !== b.length || a.some((x, i) => !Object.is(x, b[i]));
const basic = (s, a) => (typeof a === 'function' ? a(s) : a);

export const useReducer = (reducer, arg, init) => {
  const comp = current && current.comp;
  const h = hook('state', () => {
    const base = init ? init(arg) : arg;
    const q = { updates: [], state: base, reducer, comp };
    q.dispatch = a => dispatch(q, a);
    return { q, base };
  });
  h.state = h.q.updates.reduce((s, u) => reducer(s, u), h.base);
  h.n = h.q.updates.length;
  h.reducer = reducer;
  return [h.state, h.q.dispatch];
};
export const useState = initial => useReducer(basic, undefined, () => (typeof initial === 'function' ? initial() : initial));
function dispatch(q, a) {
  const comp = q.comp;
  if (comp.unmounted) return;
  if (current && current.comp === comp) {
    q.updates.push(a);
    current.repeat = true;
    return;
  }
  if (q.updates.length === 0) {
    try {
      if (Object.is(q.reducer(q.state, a), q.state)) return;
    } catch (e) {}
  }
  q.updates.push(a);
  comp.dirty = true;
  schedule(comp.root);
}
export const useRef = v => hook('ref', () => ({ ref: { current: v } })).ref;
export const useMemo = (f, deps) => {
  const h = hook('memo', () => ({ deps: null, value: undefined }));
  if (!deps || changed(h.deps, deps)) {
    h.value = f();
    h.deps = deps || null;
  }
  return h.value;
};
export const useCallback = (f, deps) => useMemo(() => f, deps);
const effect = kind => (create, deps) => {
  const h = hook(kind, () => ({ deps: null, inst: { cleanup: undefined } }));
  h.run = !deps || changed(h.deps, deps);
  h.deps = deps || null;
  h.create = create;
};
export const useEffect = effect('effect');
export const useLayoutEffect = effect('layout');
export const useInsertionEffect = effect('insertion');
export const useImperativeHandle = (ref, create, deps) =>
  useLayoutEffect(() => {
    if (typeof ref === 'function') {
      ref(create());
      return () => ref(null);
    } else if (ref) {
      ref.current = create();
      return () => { ref.current = null; };
    }
  }, deps ? [...deps, ref] : undefined);
export const useContext = context => {
  if (!current) throw new Error('Invalid hook call.');
  current.contexts.push([context, context.value]);
  return context.value;
};
export const useDebugValue = () => {};
let ids = 0;
export const useId = () => useState(() => ':r' + (ids++).toString(32) + ':')[0];
export const startTransition = f => f();
export const useTransition = () => [false, startTransition];
export const useDeferredValue = v => v;
export const useSyncExternalStore = (subscribe, get) => {
  const value = get();
  const [, force] = useReducer(x => x + 1, 0);
  const ref = useRef();
  ref.current = { get, value };
  useEffect(() => {
    const check = () => { if (!Object.is(ref.current.get(), ref.current.value)) force(); };
    check();
    return subscribe(check);
  }, [subscribe]);
  return value;
};
export const act = async f => { await f(); };

function classUpdate(instance, u) {
  const comp = instance._comp;
  if (!comp || comp.unmounted) return;
  comp.updates.push(u);
  comp.dirty = true;
  schedule(comp.root);
}

// --------------------------------------------------------------------------------------- rendering
// A node is one position of the tree: { el, key, kind, children, comp, dom }
let work = null; // of the render: deleted nodes, strictness, boundaries
const kindOf = el => {
  if (typeof el === 'string') return 'text';
  const t = el.type;
  if (typeof t === 'string') return 'host';
  if (t === Fragment || t === StrictMode || t === Profiler) return 'group';
  if (t === Suspense) return 'suspense';
  if (t === PORTAL) return 'portal';
  if (typeof t === 'function') return t.prototype && t.prototype.isReactComponent ? 'class' : 'function';
  if (t && t.$$typeof === PROVIDER) return 'provider';
  if (t && t.$$typeof === CONTEXT) return 'consumer';
  if (t && t.$$typeof === MEMO) return 'memo';
  if (t && t.$$typeof === FORWARD) return 'function';
  if (t && t.$$typeof === LAZY) return 'lazy';
  throw new Error('Element type is invalid: expected a string or a class/function but got: ' + (t === null ? 'null' : typeof t) + '.');
};
const normalize = (c, out, depth) => {
  if (c === null || c === undefined || typeof c === 'boolean') out.push(null);
  else if (typeof c === 'string') out.push(c);
  else if (typeof c === 'number') out.push('' + c);
  else if (Array.isArray(c)) {
    if (depth === 0) c.forEach(x => normalize(x, out, 1));
    else out.push(jsx(Fragment, { children: c }));
  } else if (isValidElement(c)) out.push(c);
  else if (typeof c === 'object' && typeof c[Symbol.iterator] === 'function') normalize([...c], out, depth);
  else if (typeof c === 'function' || typeof c === 'symbol') out.push(null);
  else throw new Error('Objects are not valid as a React child (found: ' + Object.prototype.toString.call(c) + ').');
  return out;
};

function renderChildren(node, prevChildren, children) {
  const els = normalize(children, [], 0);
  const keyed = new Map();
  (prevChildren || []).forEach((n, i) => { if (n) keyed.set(n.key !== null ? 'k' + n.key : 'i' + i, n); });
  node.children = els.map((el, i) => {
    if (el === null) return null;
    const id = typeof el === 'object' && el.key !== null ? 'k' + el.key : 'i' + i;
    let prev = keyed.get(id);
    if (prev && (prev.kind === 'text') !== (typeof el === 'string')) prev = undefined;
    if (prev && typeof el === 'object' && prev.el.type !== el.type) prev = undefined;
    if (prev) keyed.delete(id);
    return renderNode(el, prev || null, node);
  });
  for (const n of keyed.values()) work.deleted.push(n);
}

function renderNode(el, prev, parent) {
  const kind = kindOf(el);
  const node = { el, key: typeof el === 'object' ? el.key : null, kind, prev, children: [], comp: prev ? prev.comp : null, dom: prev ? prev.dom : null, parent };
  const same = prev && prev.el === el;
  const keep = prev ? prev.children : null;
  switch (kind) {
    case 'text':
      break;
    case 'host':
      if (same) walk(node, keep);
      else renderChildren(node, keep, el.props.children);
      break;
    case 'portal':
    case 'group': {
      const before = work.strict;
      if (el.type === StrictMode && __sim.strict) work.strict = true;
      if (same) walk(node, keep);
      else renderChildren(node, keep, el.props.children);
      work.strict = before;
      break;
    }
    case 'provider': {
      const c = el.type.context, before = c.value;
      c.value = el.props.value;
      try {
        if (same) walk(node, keep);
        else renderChildren(node, keep, el.props.children);
      } finally {
        c.value = before;
      }
      break;
    }
    case 'consumer':
      renderChildren(node, keep, el.props.children(el.type.value));
      break;
    case 'lazy': {
      const type = readLazy(el.type);
      renderChildren(node, keep, same && keep && keep[0] ? keep[0].el : { ...el, type, key: null });
      break;
    }
    case 'memo': {
      const compare = el.type.compare || shallow;
      let inner = { ...el, type: el.type.type, key: null };
      if (keep && keep[0] && prev.el.ref === el.ref && compare(prev.el.props, el.props)) {
        inner = keep[0].el;
        node.el = { ...el, props: prev.el.props };
      }
      renderChildren(node, keep, inner);
      break;
    }
    case 'suspense': {
      if (!node.comp) node.comp = { root: work.root, hooks: [], dirty: false, node };
      const mark = ['deleted', 'fresh', 'effects', 'committed'].map(k => [k, work[k].length]);
      const primary = prev ? prev.primary : null, fallback = prev ? prev.fallback : null;
      const p = { children: [], parent: node }, f = { children: [], parent: node };
      try {
        renderChildren(p, primary ? primary.children : null, el.props.children);
        node.suspended = false;
        node.primary = p;
        if (fallback) fallback.children.forEach(n => n && work.deleted.push(n));
        node.fallback = null;
        node.children = p.children;
      } catch (e) {
        if (!e || typeof e.then !== 'function') throw e;
        mark.forEach(([k, n]) => { work[k].length = n; });
        const comp = node.comp, root = work.root;
        const wake = () => { if (!comp.unmounted) { comp.dirty = true; schedule(root); } };
        e.then(wake, wake);
        node.suspended = true;
        node.primary = primary; // hidden, if it was shown before
        renderChildren(f, fallback ? fallback.children : null, el.props.fallback);
        node.fallback = f;
        node.children = f.children;
      }
      work.committed.push(() => { node.comp.dirty = false; node.comp.node = node; });
      break;
    }
    case 'function':
      renderFunction(node, el, prev, keep, same);
      break;
    case 'class':
      renderClass(node, el, prev, keep, same);
      break;
  }
  return node;
}
const shallow = (a, b) => {
  const x = Object.keys(a), y = Object.keys(b);
  return x.length === y.length && x.every(k => Object.prototype.hasOwnProperty.call(b, k) && Object.is(a[k], b[k]));
};
// The same elements again: only components with updates inside are rendered
function walk(node, keep) {
  node.children = (keep || []).map(n => (n ? renderNode(n.el, n, node) : null));
}

function renderFunction(node, el, prev, keep, same) {
  const comp = node.comp || { root: work.root, hooks: [], dirty: false, contexts: [], strict: work.strict };
  node.comp = comp;
  if (same && !comp.dirty && comp.contexts.every(([c, v]) => Object.is(c.value, v))) {
    walk(node, keep);
    return;
  }
  const type = el.type;
  const once = () => {
    let w = null, out, times = 0;
    do {
      if (++times > 25) throw new Error('Too many re-renders. React limits the number of renders to prevent an infinite loop.');
      w = { comp, i: 0, hooks: [], before: prev ? comp.hooks : w ? w.hooks : null, contexts: [], repeat: false };
      current = w;
      try {
        out = typeof type === 'function' ? type(el.props, undefined) : type.render(el.props, el.ref);
      } finally {
        current = null;
      }
      if (w.before && w.i < w.before.length) throw new Error('Rendered fewer hooks than expected.');
    } while (w.repeat);
    return [w, out];
  };
  if (comp.strict) once();
  const [w, out] = once();
  work.committed.push(() => {
    for (const h of w.hooks) {
      if (h.kind !== 'state') continue;
      h.q.updates.splice(0, h.n);
      h.base = h.q.state = h.state;
      h.q.reducer = h.reducer;
    }
    comp.hooks = w.hooks;
    comp.contexts = w.contexts;
    comp.dirty = w.hooks.some(h => h.kind === 'state' && h.q.updates.length > 0);
    comp.node = node;
  });
  if (!prev) work.fresh.push(node);
  work.effects.push(node);
  renderChildren(node, keep, out);
}

function renderClass(node, el, prev, keep, same) {
  const type = el.type;
  const comp = node.comp || { root: work.root, hooks: [], dirty: false, updates: [], isClass: true };
  node.comp = comp;
  if (same && !comp.dirty && !node.failed && (!type.contextType || Object.is(type.contextType.value, comp.instance.context))) {
    walk(node, keep);
    return;
  }
  let inst = comp.instance;
  const mount = !prev;
  if (mount) {
    if (work.strict) new type(el.props, type.contextType ? type.contextType.value : undefined);
    inst = new type(el.props, type.contextType ? type.contextType.value : undefined);
    inst.props = el.props;
    inst._comp = comp;
    if (inst.state === undefined) inst.state = null;
  }
  const before = { props: inst.props, state: inst.state };
  let state = inst.state, force = false;
  const n = comp.updates.length;
  for (const u of comp.updates.slice(0, n)) {
    if (u.force) force = true;
    const part = typeof u.u === 'function' ? u.u.call(inst, state, el.props) : u.u;
    if (part !== null && part !== undefined) state = { ...state, ...part };
  }
  if (type.getDerivedStateFromProps) {
    const part = type.getDerivedStateFromProps(el.props, state);
    if (part !== null && part !== undefined) state = { ...state, ...part };
  }
  const update = mount || force ||
    (inst.shouldComponentUpdate ? inst.shouldComponentUpdate(el.props, state) : inst.isPureReactComponent ? !(shallow(before.props, el.props) && shallow(before.state || {}, state || {})) : true);
  inst.props = el.props;
  inst.state = state;
  if (type.contextType) inst.context = type.contextType.value;
  const undo = () => { inst.props = before.props; inst.state = before.state; };
  work.undo.push(undo);
  work.committed.push(() => {
    const done = comp.updates.splice(0, n);
    comp.instance = inst;
    comp.dirty = comp.updates.length > 0;
    comp.node = node;
    done.forEach(u => u.callback && work.callbacks.push(() => u.callback.call(inst)));
  });
  node.before = before;
  node.updated = update;
  if (mount) work.fresh.push(node);
  work.effects.push(node);
  if (!update) return walk(node, keep);
  const boundary = type.getDerivedStateFromError || inst.componentDidCatch;
  const mark = [work.deleted.length, work.fresh.length, work.effects.length, work.committed.length];
  try {
    renderChildren(node, keep, inst.render());
  } catch (e) {
    if (!boundary || (e && typeof e.then === 'function')) throw e;
    work.deleted.length = mark[0];
    work.fresh.length = mark[1];
    work.effects.length = mark[2];
    work.committed.length = mark[3];
    if (type.getDerivedStateFromError) inst.state = { ...inst.state, ...type.getDerivedStateFromError(e) };
    if (inst.componentDidCatch) work.callbacks.push(() => inst.componentDidCatch(e, { componentStack: '' }));
    (keep || []).forEach(x => x && work.deleted.push(x));
    renderChildren(node, null, type.getDerivedStateFromError ? inst.render() : null);
  }
}

// ------------------------------------------------------------------------------------------ commit
const setRef = (ref, v) => {
  if (typeof ref === 'function') ref(v);
  else if (ref && typeof ref === 'object') ref.current = v;
};
const hosts = (node, out) => {
  for (const n of node.children) {
    if (!n || n.kind === 'portal') continue;
    if (n.dom) out.push(n.dom);
    else hosts(n, out);
  }
  return out;
};
function place(node, root) {
  if (node.kind === 'text') {
    if (!node.dom) node.dom = __sim.document.createTextNode(node.el);
    else if (node.prev && node.prev.el !== node.el) node.dom.data = node.el;
    node.prev = null;
    return;
  }
  if (node.kind === 'host') {
    if (!node.dom) {
      node.dom = __sim.document.createElement(node.el.type);
      setProps(node.dom, {}, node.el.props);
    } else if (node.prev && node.prev.el !== node.el) setProps(node.dom, node.prev.el.props, node.el.props);
    node.dom._props = node.el.props;
    const before = node.prev ? node.prev.el.ref : null;
    if (before !== node.el.ref) {
      if (before) setRef(before, null);
      work.refs.push(node);
    }
  }
  for (const c of node.children) if (c) place(c, root);
  if (node.kind === 'suspense' && node.suspended && node.primary) hosts(node.primary, []).forEach(d => { d.hidden = true; });
  if (node.kind === 'suspense' && !node.suspended && node.prev && node.prev.suspended) hosts(node, []).forEach(d => { d.hidden = false; });
  if (node.kind === 'host') node.dom._setChildren(hosts(node, []), node.el.props);
  if (node.kind === 'portal') node.el.props.container._setChildren(hosts(node, []), {});
  node.prev = null;
}
function setProps(dom, before, after) {
  for (const k of new Set([...Object.keys(before), ...Object.keys(after)])) {
    if (k === 'children' || k === 'key' || k === 'ref') continue;
    if (!Object.is(before[k], after[k])) dom._setProp(k, after[k]);
  }
}
function unmount(node, passive) {
  if (node.comp) {
    node.comp.unmounted = true;
    if (node.kind === 'class') {
      const i = node.comp.instance;
      if (i && i.componentWillUnmount) guard(node.comp.root, () => i.componentWillUnmount());
    }
    for (const h of node.comp.hooks) {
      if ((h.kind === 'layout' || h.kind === 'insertion') && h.inst.cleanup) {
        const c = h.inst.cleanup;
        h.inst.cleanup = undefined;
        guard(node.comp.root, c);
      }
      if (h.kind === 'effect') passive.push(h);
    }
  }
  if ((node.kind === 'host' || node.kind === 'class') && node.el.ref) setRef(node.el.ref, null);
  if (node.kind === 'portal') node.el.props.container._setChildren([], {});
  const children = node.kind === 'suspense' ? [...(node.primary ? node.primary.children : []), ...(node.fallback ? node.fallback.children : [])] : node.children;
  for (const c of children) if (c) unmount(c, passive);
}
// An error in effects ends the whole tree
function guard(root, f) {
  try {
    return f();
  } catch (e) {
    root.failures.push(e);
  }
}
const post = (node, f) => {
  for (const c of node.children) if (c) post(c, f);
  f(node);
};

function renderRoot(root) {
  flushPassive(root);
  if (!root.pending || root.dead) return;
  root.pending = false;
  let attempt = 0;
  for (;;) {
    work = { root, strict: false, deleted: [], fresh: [], effects: [], committed: [], undo: [], callbacks: [], refs: [] };
    const holder = { children: [], parent: null, kind: 'root' };
    try {
      renderChildren(holder, root.tree ? root.tree.children : null, root.element);
      root.next = holder;
      break;
    } catch (e) {
      current = null;
      work.undo.reverse().forEach(u => u());
      if (++attempt < 2 && !(e && typeof e.then === 'function')) continue; // React tries once more
      failRoot(root, e);
      return;
    }
  }
  const w = work;
  root.tree = root.next;
  w.committed.forEach(f => f());
  const passive = [];
  w.deleted.forEach(n => unmount(n, passive));
  const rerun = [];
  for (const node of w.effects) {
    if (!node.comp || node.comp.isClass) continue;
    for (const h of node.comp.hooks) {
      if ((h.kind === 'layout' || h.kind === 'insertion') && h.run && h.inst.cleanup) {
        const c = h.inst.cleanup;
        h.inst.cleanup = undefined;
        guard(root, c);
      }
    }
  }
  for (const c of root.tree.children) if (c) place(c, root);
  root.container._setChildren(hosts(root.tree, []), {});
  w.refs.forEach(n => { if (n.el.ref) setRef(n.el.ref, n.dom); });
  // children before parents
  const order = new Set(w.effects), todo = [];
  for (const c of root.tree.children) if (c) post(c, n => { if (order.has(n)) todo.push(n); });
  const fresh = new Set(w.fresh);
  for (const node of todo) {
    if (node.comp.isClass) {
      const i = node.comp.instance;
      if (fresh.has(node)) {
        if (node.el.ref) setRef(node.el.ref, i);
        if (i.componentDidMount) guard(root, () => i.componentDidMount());
      } else if (node.updated && i.componentDidUpdate) guard(root, () => i.componentDidUpdate(node.before.props, node.before.state));
      continue;
    }
    for (const h of node.comp.hooks) {
      if ((h.kind === 'layout' || h.kind === 'insertion') && h.run) {
        h.run = false;
        const c = guard(root, h.create);
        h.inst.cleanup = typeof c === 'function' ? c : undefined;
      }
    }
  }
  w.callbacks.forEach(f => guard(root, f));
  const run = todo.filter(n => !n.comp.isClass && n.comp.hooks.some(h => h.kind === 'effect' && h.run));
  const mounted = todo.filter(n => fresh.has(n) && n.comp.strict);
  root.passive.push({ cleanups: passive, run, mounted });
  if (endFailures(root)) return;
  // after a discrete event effects follow at once, else as a task
  if (root.discrete) {
    root.discrete = false;
    flushPassive(root);
  } else if (passive.length || run.length || mounted.length) {
    root.passiveTask = true;
    __sim.task('effects', () => flushPassive(root));
  }
  // updates of layout effects are rendered before anything else
  if (root.pending) {
    root.nested = (root.nested || 0) + 1;
    if (root.nested > 50) failRoot(root, new Error('Maximum update depth exceeded.'));
    else renderRoot(root);
  }
  root.nested = 0;
}
function flushPassive(root) {
  while (root.passive.length) {
    root.passiveTask = false;
    const { cleanups, run, mounted } = root.passive.shift();
    for (const h of cleanups) if (h.inst.cleanup) { const c = h.inst.cleanup; h.inst.cleanup = undefined; guard(root, c); }
    const hooks = [];
    for (const n of run) if (!n.comp.unmounted) for (const h of n.comp.hooks) if (h.kind === 'effect' && h.run) hooks.push(h);
    for (const h of hooks) if (h.inst.cleanup) { const c = h.inst.cleanup; h.inst.cleanup = undefined; guard(root, c); }
    for (const h of hooks) {
      h.run = false;
      const c = guard(root, h.create);
      h.inst.cleanup = typeof c === 'function' ? c : undefined;
    }
    // StrictMode unmounts and mounts the effects of new components once
    const again = kinds => {
      const all = [];
      for (const n of mounted) if (!n.comp.unmounted) for (const h of n.comp.hooks) if (kinds.includes(h.kind)) all.push(h);
      return all;
    };
    const layout = again(['layout']), effects = again(['effect']);
    for (const h of [...layout, ...effects]) if (h.inst.cleanup) { const c = h.inst.cleanup; h.inst.cleanup = undefined; guard(root, c); }
    for (const h of [...layout, ...effects]) {
      const c = guard(root, h.create);
      h.inst.cleanup = typeof c === 'function' ? c : undefined;
    }
    if (endFailures(root)) return;
  }
}
function endFailures(root) {
  if (!root.failures.length) return false;
  const [e] = root.failures.splice(0);
  failRoot(root, e);
  return true;
}
function failRoot(root, e) {
  const passive = [];
  if (root.tree) root.tree.children.forEach(n => n && unmount(n, passive));
  for (const h of passive) if (h.inst.cleanup) try { h.inst.cleanup(); } catch (x) {}
  root.failures = [];
  root.passive = [];
  root.tree = null;
  root.element = null;
  root.dead = true;
  root.container._setChildren([], {});
  __sim.uncaught(e);
}

let discrete = 0, synchronous = 0;
const roots = [];
function schedule(root, again) {
  if (root.dead) return;
  root.pending = true;
  if (synchronous) return;
  if (discrete) {
    root.discrete = true;
    if (!root.micro) {
      root.micro = true;
      queueMicrotask(() => { root.micro = false; renderRoot(root); });
    }
    return;
  }
  if (!root.task || again) {
    root.task = true;
    __sim.task('render', () => { root.task = false; renderRoot(root); });
  }
}
// What the browser does around a user's event
__sim.discrete = f => {
  discrete++;
  try {
    return f();
  } finally {
    discrete--;
  }
};
__sim.busy = () => roots.some(r => !r.dead && (r.pending || r.passive.some(p => p.cleanups.length || p.run.length || p.mounted.length)));
export const flushSync = f => {
  synchronous++;
  let v;
  try {
    v = f && f();
  } finally {
    synchronous--;
  }
  roots.forEach(r => { r.discrete = true; renderRoot(r); });
  return v;
};
export const unstable_batchedUpdates = f => f();
export const createRoot = container => {
  const root = { container, tree: null, element: null, pending: false, passive: [], failures: [], dead: false };
  roots.push(root);
  return {
    render: element => { root.element = element; schedule(root); },
    unmount: () => { root.element = null; schedule(root); },
  };
};
export const render = (element, container) => createRoot(container).render(element);
export const __SECRET_INTERNALS_DO_NOT_USE_OR_YOU_WILL_BE_FIRED = {};
const React = {
  Fragment, StrictMode, Suspense, Profiler, version, createElement, cloneElement, isValidElement, createRef, createFactory, memo, forwardRef, createContext, lazy, Children,
  Component, PureComponent, useReducer, useState, useRef, useMemo, useCallback, useEffect, useLayoutEffect, useInsertionEffect, useImperativeHandle, useContext, useDebugValue,
  useId, startTransition, useTransition, useDeferredValue, useSyncExternalStore, act,
};
export default React;
