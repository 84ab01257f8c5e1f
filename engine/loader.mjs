// Loads /repo/src (and harness files) as CommonJS graphs in either of two modes:
//   'sym'    every operator, branch and call of the source goes through the symbolic runtime `$`
//   'native' the same source, only stripped of types
// Platform globals are wrapper parameters, so each path runs against its own world.
import crypto from 'node:crypto';
import fs from 'node:fs';
import { createRequire } from 'node:module';
import path from 'node:path';
import vm from 'node:vm';
import { namesOf, toInstrumented, toNative } from './instrument.mjs';
import { $ } from './sym.mjs';

export const REPO = process.env.SYM_REPO ?? '/repo';
export const GLOBALS = [
  'process', 'fetch', 'console', 'Headers', 'URLSearchParams', 'URL', 'FormData', 'Buffer', 'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval',
  'setImmediate', 'clearImmediate', 'queueMicrotask', 'Date', 'crypto', 'Request', 'Response', 'Blob', 'File', 'AbortController', 'AbortSignal',
  'TextEncoder', 'TextDecoder', 'performance', 'globalThis', 'global', 'self', 'window', 'btoa', 'atob', 'Uint8Array', 'Math',
];
const compiled = new Map(); // mode:file -> wrapper function
const hashes = new Map();
export const sources = new Set();

const cacheDir = process.env.SYM_CACHE ?? null;
function transform(src, file, mode) {
  const display = path.relative(REPO, file);
  if (!cacheDir) return mode === 'sym' ? toInstrumented(src, file, display) : toNative(src, file);
  const key = crypto.createHash('sha1').update(`${mode}\0${display}\0${src}`).digest('hex');
  const f = path.join(cacheDir, key);
  try {
    return fs.readFileSync(f, 'utf8');
  } catch {}
  const out = mode === 'sym' ? toInstrumented(src, file, display) : toNative(src, file);
  fs.writeFileSync(`${f}.${process.pid}`, out);
  fs.renameSync(`${f}.${process.pid}`, f);
  return out;
}
function compile(file, mode) {
  const key = `${mode}:${file}`;
  let c = compiled.get(key);
  if (!c) {
    const src = fs.readFileSync(file, 'utf8');
    if (file.startsWith(REPO)) {
      sources.add(path.relative(REPO, file));
      hashes.set(file, crypto.createHash('sha1').update(src).digest('hex'));
    }
    const code = transform(src, file, mode);
    const params = ['exports', 'require', 'module', '__filename', '__dirname', '$', ...GLOBALS];
    c = new vm.Script(`(function (${params.join(', ')}) {${code}\n})`, { filename: `${mode}:${file}` }).runInThisContext();
    compiled.set(key, c);
  }
  return c;
}
const resolved = new Map();
function resolveFile(from, spec) {
  const key = `${from}\0${spec}`;
  let r = resolved.get(key);
  if (r) return r;
  const base = path.resolve(path.dirname(from), spec);
  for (const c of [base, `${base}.ts`, `${base}.tsx`, `${base}.mjs`, `${base}.js`, `${base}.json`, path.join(base, 'index.ts'), base.replace(/\.m?js$/, '.ts')]) {
    if (fs.existsSync(c) && fs.statSync(c).isFile()) {
      resolved.set(key, c);
      return c;
    }
  }
  throw new Error(`cannot resolve ${spec} from ${from}`);
}
const realRequire = new Map();
/** Evaluate a module graph. env: {globals: {...}, stubs: {name: exports}} */
export function loadGraph(entry, mode, env) {
  const cache = new Map();
  const g = GLOBALS.map((n) => env.globals[n]);
  function load(file) {
    if (file.endsWith('.json')) return JSON.parse(fs.readFileSync(file, 'utf8'));
    const hit = cache.get(file);
    if (hit) return hit.exports;
    const m = { exports: {} };
    cache.set(file, m);
    const req = (spec) => {
      if (spec.startsWith('.') || spec.startsWith('/')) return load(resolveFile(file, spec));
      const bare = spec.replace(/^node:/, '');
      if (env.stubs && bare in env.stubs) {
        const s = env.stubs[bare];
        return typeof s === 'function' && s.__lazy ? s() : s;
      }
      if (bare === 'buffer') return { Buffer: env.globals.Buffer, Blob: env.globals.Blob };
      if (bare === 'process') return env.globals.process;
      if (bare === 'url') return { URL: env.globals.URL, URLSearchParams: env.globals.URLSearchParams };
      if (!realRequire.has(file)) realRequire.set(file, createRequire(file));
      return realRequire.get(file)(spec);
    };
    compile(file, mode).call(m.exports, m.exports, req, m, file, path.dirname(file), $, ...g);
    return m.exports;
  }
  return load(entry);
}
export function sourceDigest() {
  return crypto.createHash('sha1').update([...hashes].sort().map((e) => e.join('=')).join('\n')).digest('hex');
}

let names = null;
/** what the sources under check name: members {members}, environment variables {env} and short string literals {literals} */
export function sourceNames() {
  if (names) return names;
  const f = cacheDir ?? process.env.SYM_CACHE;
  const file = f ? path.join(f, 'names.json') : null;
  if (file && fs.existsSync(file)) {
    names = JSON.parse(fs.readFileSync(file, 'utf8'));
    return names;
  }
  const members = new Set();
  const env = new Set();
  const literals = new Set();
  const asked = new Set();
  const walk = (d) => {
    for (const e of fs.readdirSync(d, { withFileTypes: true }).sort((a, b) => (a.name < b.name ? -1 : 1))) {
      const p = path.join(d, e.name);
      if (e.isDirectory()) walk(p);
      else if (/\.tsx?$/.test(e.name) && !/\.(spec|test)\.|\.d\.ts$|\.interface\.ts$/.test(e.name) && !/test-utils|__/.test(p)) namesOf(fs.readFileSync(p, 'utf8'), p, members, env, literals, asked);
    }
  };
  walk(path.join(REPO, 'src'));
  const never = new Set(['prototype', 'constructor', '__proto__', 'toJSON', 'then', 'toString', 'valueOf', 'length']);
  names = { members: [...members].filter((n) => !never.has(n)).sort(), env: [...env].sort(), literals: [...literals].sort(), asked: [...asked].sort() };
  if (file) {
    fs.writeFileSync(`${file}.${process.pid}`, JSON.stringify(names));
    fs.renameSync(`${file}.${process.pid}`, file);
  }
  return names;
}
