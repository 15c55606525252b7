import * as R from 'react';
export const createRoot = R.createRoot, hydrateRoot = (c, e) => { const r = R.createRoot(c); r.render(e); return r; }, flushSync = R.flushSync, render = R.render, createPortal = R.createPortal, unstable_batchedUpdates = R.unstable_batchedUpdates;
export default { createRoot, hydrateRoot, flushSync, render, createPortal, unstable_batchedUpdates };
