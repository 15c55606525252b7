// Bundles the repository's front end, unchanged, with stand-ins for React and the wasm module.
import { createRequire } from 'module';
import path from 'path';
import fs from 'fs';
import crypto from 'crypto';
import { fileURLToPath } from 'url';
const here = path.dirname(fileURLToPath(import.meta.url));
const require = createRequire('/opt/veriftools/node/node_modules/');
const esbuild = require('esbuild');
const repo = process.env.SIM_REPO || '/repo';
const out = process.argv[2];
const alias = { react: 'react.js', 'react-dom': 'react-dom.js', 'react-dom/client': 'react-dom.js', 'react/jsx-runtime': 'jsx-runtime.js', 'react/jsx-dev-runtime': 'jsx-runtime.js' };
const lib = `
export default (...a) => __sim.lib.init(...a);
export const initSync = (...a) => __sim.lib.initSync(...a);
export const get_watermarking_process = (...a) => __sim.lib.get_watermarking_process(...a);
export const ImageModel = __sim.lib.ImageModel;
export const WatermarkingProcess = __sim.lib.WatermarkingProcess;
`;
const plugin = {
  name: 'sim',
  setup(b) {
    b.onResolve({ filter: /^(react|react-dom)(\/.*)?$/ }, a => (alias[a.path] ? { path: path.join(here, alias[a.path]) } : undefined));
    b.onResolve({ filter: /^sia-watermarking-lib/ }, () => ({ path: 'lib', namespace: 'lib' }));
    b.onResolve({ filter: /^web-vitals$/ }, () => ({ path: 'vitals', namespace: 'vitals' }));
    b.onLoad({ filter: /.*/, namespace: 'lib' }, () => ({ contents: lib }));
    b.onLoad({ filter: /.*/, namespace: 'vitals' }, () => ({ contents: ['CLS', 'FID', 'FCP', 'LCP', 'TTFB'].map(n => `export const get${n} = () => {};`).join('\n') }));
    b.onLoad({ filter: /\.(jpe?g|png|gif|bmp|webp|svg|ico)$/ }, a => {
      const name = path.basename(a.path), ext = path.extname(name);
      const hash = crypto.createHash('md5').update(fs.readFileSync(a.path)).digest('hex').slice(0, 8);
      return { contents: `export default ${JSON.stringify(`/static/media/${path.basename(name, ext)}.${hash}${ext}`)};` };
    });
    b.onLoad({ filter: /\.css$/ }, () => ({ contents: '' }));
  },
};
try {
  await esbuild.build({
    entryPoints: [repo + '/src/index.tsx'], bundle: true, format: 'iife', target: 'esnext', platform: 'browser', outfile: out, jsx: 'automatic', tsconfigRaw: '{"compilerOptions":{"jsx":"react-jsx"}}',
    plugins: [plugin], define: { 'process.env.NODE_ENV': '"production"', 'process.env.PUBLIC_URL': '""' }, logLevel: 'error', nodePaths: [],
  });
} catch (e) {
  process.exit(2);
}
