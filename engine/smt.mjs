// SMT terms (String / Bool / Int / Real) and a synchronous z3 process.
import { execFileSync, spawn } from 'node:child_process';
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';

// ---------------------------------------------------------------- terms
const mk = (s, t, lit) => ({ s, t, lit });
export const TRUE = mk('Bool', 'true', true);
export const FALSE = mk('Bool', 'false', false);
export const isLit = (t) => t.lit !== undefined;

export function smtString(s) {
  let o = '"';
  for (const ch of s) {
    const c = ch.codePointAt(0);
    if (c === 0x22) o += '""';
    else if (c === 0x5c || c === 0x7c || c < 0x20 || c > 0x7e) o += `\\u{${c.toString(16)}}`;
    else o += ch;
  }
  return o + '"';
}
export const strLit = (s) => mk('String', smtString(s), s);
export const intLit = (n) => mk('Int', n < 0 ? `(- ${BigInt(-n)})` : `${BigInt(n)}`, n);
export function realLit(x) {
  if (Number.isInteger(x)) return mk('Real', x < 0 ? `(- ${BigInt(-x)}.0)` : `${BigInt(x)}.0`, x);
  let d = 1;
  let y = x;
  while (!Number.isInteger(y) && d < 2 ** 60) {
    y *= 2;
    d *= 2;
  }
  const n = `(/ ${BigInt(Math.abs(y))}.0 ${BigInt(d)}.0)`;
  return mk('Real', x < 0 ? `(- ${n})` : n, x);
}
export const app = (s, f, ...xs) => mk(s, `(${f} ${xs.map((x) => x.t).join(' ')})`);
export const variable = (s, name) => mk(s, `|${name}|`);

export function not(a) {
  if (a === TRUE) return FALSE;
  if (a === FALSE) return TRUE;
  if (a.neg) return a.neg;
  const r = mk('Bool', `(not ${a.t})`);
  r.neg = a;
  return r;
}
export function and(...xs) {
  const ys = [];
  for (const x of xs.flat()) {
    if (x === FALSE || x.lit === false) return FALSE;
    if (x === TRUE || x.lit === true) continue;
    if (!ys.some((y) => y.t === x.t)) ys.push(x);
  }
  if (ys.length === 0) return TRUE;
  if (ys.length === 1) return ys[0];
  return mk('Bool', `(and ${ys.map((y) => y.t).join(' ')})`);
}
export function or(...xs) {
  const ys = [];
  for (const x of xs.flat()) {
    if (x === TRUE || x.lit === true) return TRUE;
    if (x === FALSE || x.lit === false) continue;
    if (!ys.some((y) => y.t === x.t)) ys.push(x);
  }
  if (ys.length === 0) return FALSE;
  if (ys.length === 1) return ys[0];
  return mk('Bool', `(or ${ys.map((y) => y.t).join(' ')})`);
}
export const implies = (a, b) => or(not(a), b);
export function eq(a, b) {
  if (a.s !== b.s) {
    if (a.s === 'Int' && b.s === 'Real') a = toReal(a);
    else if (a.s === 'Real' && b.s === 'Int') b = toReal(b);
    else return FALSE;
  }
  if (isLit(a) && isLit(b)) return a.lit === b.lit ? TRUE : FALSE;
  return mk('Bool', `(= ${a.t} ${b.t})`);
}
export function ite(c, a, b) {
  if (c === TRUE) return a;
  if (c === FALSE) return b;
  if (a.t === b.t) return a;
  return mk(a.s, `(ite ${c.t} ${a.t} ${b.t})`);
}
export const toReal = (a) =>
  a.s === 'Real' ? a : isLit(a) ? realLit(a.lit) : app('Real', 'to_real', a);
export function concat(ts) {
  if (ts.length === 0) return strLit('');
  if (ts.length === 1) return ts[0];
  return app('String', 'str.++', ...ts);
}
export const inRe = (t, re) => mk('Bool', `(str.in_re ${t.t} ${re})`);

// ---------------------------------------------------------------- s-expressions
export function parseSexpr(src) {
  let i = 0;
  const ws = () => {
    while (i < src.length && /\s/.test(src[i])) i++;
  };
  function one() {
    ws();
    if (src[i] === '(') {
      i++;
      const out = [];
      for (;;) {
        ws();
        if (i >= src.length) throw new Error('sexpr eof');
        if (src[i] === ')') {
          i++;
          return out;
        }
        out.push(one());
      }
    }
    if (src[i] === '"') {
      let s = '';
      i++;
      for (;;) {
        if (src[i] === '"') {
          if (src[i + 1] === '"') {
            s += '"';
            i += 2;
            continue;
          }
          i++;
          break;
        }
        s += src[i++];
      }
      return { str: unescape(s) };
    }
    if (src[i] === '|') {
      const j = src.indexOf('|', i + 1);
      const s = src.slice(i, j + 1);
      i = j + 1;
      return s;
    }
    let s = '';
    while (i < src.length && !/[\s()]/.test(src[i])) s += src[i++];
    return s;
  }
  return one();
}
function unescape(s) {
  return s.replace(/\\u\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})/g, (_, a, b) => {
    const c = Number.parseInt(a ?? b, 16);
    return String.fromCodePoint(c);
  });
}
export function valueOfSexpr(v) {
  if (v && typeof v === 'object' && !Array.isArray(v) && 'str' in v) return v.str;
  if (v === 'true') return true;
  if (v === 'false') return false;
  if (Array.isArray(v)) {
    if (v[0] === '-') return -valueOfSexpr(v[1]);
    if (v[0] === '/') return valueOfSexpr(v[1]) / valueOfSexpr(v[2]);
    throw new Error('model value ' + JSON.stringify(v));
  }
  const n = Number(v);
  if (Number.isNaN(n)) throw new Error('model value ' + JSON.stringify(v));
  return n;
}

// ---------------------------------------------------------------- solver process
export class Solver {
  constructor(opts = {}) {
    this.cmd = opts.cmd ?? (fs.existsSync('/usr/local/bin/z3-new') ? 'z3-new' : findCmd());
    this.timeout = opts.timeout ?? 4000;
    this.declared = new Map();
    this.lemmas = [];
    this.cache = new Map();
    this.stats = { queries: 0, cached: 0, sat: 0, unsat: 0, unknown: 0, errors: 0, ms: 0, lemmas: 0, restarts: 0 };
    this.start();
  }
  start() {
    const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'symz3-'));
    const fi = path.join(dir, 'i');
    const fo = path.join(dir, 'o');
    execFileSync('mkfifo', [fi, fo]);
    this.proc = spawn('sh', ['-c', `exec ${this.cmd} -in < "${fi}" > "${fo}" 2>&1`], { stdio: 'ignore' });
    this.fi = fs.openSync(fi, 'w');
    this.fo = fs.openSync(fo, 'r');
    fs.unlinkSync(fi);
    fs.unlinkSync(fo);
    fs.rmdirSync(dir);
    this.proc.unref();
    this.buf = Buffer.alloc(1 << 16);
    this.ask(`(set-option :print-success false)\n(set-option :timeout ${this.timeout})`);
    for (const d of PRELUDE) this.ask(d);
    for (const [n, s] of this.declared) this.ask(`(declare-const |${n}| ${s})`);
    for (const l of this.lemmas) this.ask(`(assert ${l})`);
  }
  close() {
    try {
      fs.closeSync(this.fi);
      fs.closeSync(this.fo);
      this.proc.kill('SIGKILL');
    } catch {}
  }
  write(s) {
    const b = Buffer.from(s);
    let off = 0;
    while (off < b.length) off += fs.writeSync(this.fi, b, off);
  }
  ask(s) {
    this.write(s + '\n(echo "@@done@@")\n');
    let r = '';
    while (!r.includes('@@done@@')) {
      const n = fs.readSync(this.fo, this.buf, 0, this.buf.length, null);
      if (n === 0) throw new Error('solver died: ' + r);
      r += this.buf.toString('utf8', 0, n);
    }
    r = r.slice(0, r.lastIndexOf('@@done@@'));
    if (r.endsWith('"')) r = r.slice(0, -1);
    r = r.trim();
    if (r.includes('(error')) {
      this.stats.errors++;
      if (process.env.SYM_DEBUG) console.error('SOLVER ERROR', r, '\n for ', s.slice(0, 2000));
    }
    return r;
  }
  declare(name, sort) {
    const d = this.declared.get(name);
    if (d === sort) return;
    if (d) throw new Error(`redeclared ${name}: ${d} vs ${sort}`);
    this.declared.set(name, sort);
    this.ask(`(declare-const |${name}| ${sort})`);
  }
  addLemmas(ts) {
    this.lemmas.push(...ts);
    this.stats.lemmas += ts.length;
    this.ask(ts.map((t) => `(assert ${t})`).join('\n'));
    for (const [k, r] of this.cache) if (r !== 'unsat') this.cache.delete(k);
  }
  /** check satisfiability of the conjunction; 'sat' | 'unsat' | 'unknown' */
  check(asserts, { cache = true } = {}) {
    const key = asserts.join('\n');
    if (cache && this.cache.has(key)) {
      this.stats.cached++;
      return this.cache.get(key);
    }
    const t0 = performance.now();
    this.write(`(push 1)\n${asserts.map((a) => `(assert ${a})`).join('\n')}\n`);
    let r = this.ask('(check-sat)');
    this.write('(pop 1)\n');
    r = norm(r);
    this.stats.queries++;
    this.stats[r]++;
    this.stats.ms += performance.now() - t0;
    if (process.env.SYM_SLOW && performance.now() - t0 > Number(process.env.SYM_SLOW)) console.error('SLOW', r, Math.round(performance.now() - t0), asserts.join('\n   '));
    this.cache.set(key, r);
    return r;
  }
  /** check and, when sat, evaluate the given terms. */
  model(asserts, terms) {
    const t0 = performance.now();
    this.write(`(push 1)\n${asserts.map((a) => `(assert ${a})`).join('\n')}\n`);
    const r = norm(this.ask('(check-sat)'));
    this.stats.queries++;
    this.stats[r]++;
    let values = null;
    if (r === 'sat') {
      values = [];
      for (let i = 0; i < terms.length; i += 100) {
        const chunk = terms.slice(i, i + 100);
        const out = this.ask(`(get-value (${chunk.map((x) => x.t).join(' ')}))`);
        const sx = parseSexpr(out);
        for (const [, v] of sx) {
          let val;
          try {
            val = valueOfSexpr(v);
          } catch {
            val = undefined;
          }
          values.push(val);
        }
      }
    }
    this.write('(pop 1)\n');
    this.stats.ms += performance.now() - t0;
    if (process.env.SYM_SLOW && performance.now() - t0 > Number(process.env.SYM_SLOW)) console.error('SLOWMODEL', r, Math.round(performance.now() - t0), asserts.join('\n   '));
    return { result: r, values };
  }
}
function norm(r) {
  const l = r.split('\n').map((x) => x.trim());
  if (l.some((x) => x.startsWith('(error'))) return 'unknown';
  if (l.includes('unsat')) return 'unsat';
  if (l.includes('sat')) return 'sat';
  return 'unknown';
}
function findCmd() {
  for (const c of ['z3-new', 'z3']) {
    try {
      execFileSync('sh', ['-c', `command -v ${c}`], { stdio: 'ignore' });
      return c;
    } catch {}
  }
  throw new Error('no z3');
}

// ---------------------------------------------------------------- uninterpreted functions with facts
export const RE = {
  all: 're.all',
  formOut: '(re.* (re.union (re.range "A" "Z") (re.range "a" "z") (re.range "0" "9") (str.to_re "*") (str.to_re "-") (str.to_re ".") (str.to_re "_") (str.to_re "+") (str.to_re "%")))',
  formFix: '(re.* (re.union (re.range "A" "Z") (re.range "a" "z") (re.range "0" "9") (str.to_re "*") (str.to_re "-") (str.to_re ".") (str.to_re "_")))',
  uriOut: '(re.* (re.union (re.range "A" "Z") (re.range "a" "z") (re.range "0" "9") (str.to_re "-") (str.to_re "_") (str.to_re ".") (str.to_re "!") (str.to_re "~") (str.to_re "*") (str.to_re "\'") (str.to_re "(") (str.to_re ")") (str.to_re "%")))',
  uriFix: '(re.* (re.union (re.range "A" "Z") (re.range "a" "z") (re.range "0" "9") (str.to_re "-") (str.to_re "_") (str.to_re ".") (str.to_re "!") (str.to_re "~") (str.to_re "*") (str.to_re "\'") (str.to_re "(") (str.to_re ")")))',
  b64Out: '(re.* (re.union (re.range "A" "Z") (re.range "a" "z") (re.range "0" "9") (str.to_re "+") (str.to_re "/") (str.to_re "=")))',
  numOut: '(re.++ (re.opt (str.to_re "-")) (re.+ (re.range "0" "9")))',
  noLower: '(re.* (re.union (re.range "\\u{0}" "`") (re.range "{" "\\u{7f}")))',
  noUpper: '(re.* (re.union (re.range "\\u{0}" "@") (re.range "[" "\\u{7f}")))',
  noAngle: '(re.+ (re.union (re.range "!" ";") (str.to_re "=") (re.range "?" "~")))',
  lower: '(re.* (re.union (re.range "a" "z") (re.range "0" "9") (str.to_re " ") (str.to_re "-") (str.to_re ".") (str.to_re "_")))',
  lowerTight: '(re.* (re.union (re.range "a" "z") (re.range "0" "9") (str.to_re "-")))',
  lowerId: '(re.+ (re.union (re.range "a" "z") (re.range "0" "9") (str.to_re "-") (str.to_re "_")))',
  host: '(re.+ (re.union (re.range "a" "z") (re.range "0" "9") (str.to_re ".") (str.to_re "-")))',
  trimmed: null,
  binary: '(re.* (re.range "\\u{0}" "\\u{ff}"))',
  ascii: '(re.* (re.range "\\u{0}" "\\u{7f}"))',
  headerTight: '(re.union (str.to_re "") (re.++ (re.range "!" "~") (re.opt (re.++ (re.* (re.range " " "~")) (re.range "!" "~")))))',
  headerAny: '(re.* (re.union (str.to_re "\\u{9}") (re.range " " "~") (re.range "\\u{80}" "\\u{ff}")))',
  printable: '(re.* (re.range " " "~"))',
  printableNE: '(re.+ (re.range " " "~"))',
  wellFormed: '(re.* (re.union (re.range "\\u{0}" "\\u{d7ff}") (re.range "\\u{e000}" "\\u{ffff}")))',
  safeId: '(re.+ (re.union (re.range "A" "Z") (re.range "a" "z") (re.range "0" "9") (str.to_re "-") (str.to_re "_") (str.to_re ".") (str.to_re "@") (str.to_re "+")))',
  noUrlDelim: '(re.* (re.union (re.range "\\u{0}" "\\u{22}") (re.range "$" ".") (re.range "0" ">") (re.range "@" "[") (re.range "]" "\\u{2ffff}")))',
  noQueryHash: '(re.* (re.union (re.range "\\u{0}" "\\u{22}") (re.range "$" ">") (re.range "@" "\\u{2ffff}")))',
};
const WS = '(re.union (re.range "\\u{9}" "\\u{d}") (str.to_re " ") (str.to_re "\\u{a0}") (str.to_re "\\u{1680}") (re.range "\\u{2000}" "\\u{200a}") (str.to_re "\\u{2028}") (str.to_re "\\u{2029}") (str.to_re "\\u{202f}") (str.to_re "\\u{205f}") (str.to_re "\\u{3000}") (str.to_re "\\u{feff}"))';
RE.ws = WS;
RE.nonWs = `(re.inter re.allchar (re.comp ${WS}))`;
RE.trimmed = `(re.union (str.to_re "") ${RE.nonWs} (re.++ ${RE.nonWs} re.all ${RE.nonWs}))`;

/** name -> {arg sorts, result, native evaluation, facts about one application, injective} */
export const UFS = {
  form: {
    sig: ['String'], res: 'String', inj: true,
    native: (s) => new URLSearchParams([['', s]]).toString().slice(1),
    facts: (r, [x]) => [inRe(r, RE.formOut), eq2(eq(r, x), inRe(x, RE.formFix)), eq2(eq(r, strLit('')), eq(x, strLit('')))],
  },
  uri: {
    sig: ['String'], res: 'String', inj: true,
    native: encodeURIComponent,
    facts: (r, [x]) => [inRe(r, RE.uriOut), eq2(eq(r, x), inRe(x, RE.uriFix)), eq2(eq(r, strLit('')), eq(x, strLit('')))],
  },
  uridec: { sig: ['String'], res: 'String', native: (s) => { try { return decodeURIComponent(s); } catch { return s; } },
    facts: () => [] },
  b64: { sig: ['String'], res: 'String', inj: true, native: (s) => Buffer.from(s, 'latin1').toString('base64'),
    facts: (r, [x]) => [inRe(r, RE.b64Out), eq2(eq(r, strLit('')), eq(x, strLit('')))] },
  utf8enc: { sig: ['String'], res: 'String', inj: true, native: (s) => Buffer.from(s, 'utf8').toString('latin1'),
    facts: (r, [x]) => [inRe(r, RE.binary), eq2(eq(r, x), inRe(x, RE.ascii)), eq2(eq(r, strLit('')), eq(x, strLit('')))] },
  utf8dec: { sig: ['String'], res: 'String', native: (s) => Buffer.from(s, 'latin1').toString('utf8'),
    facts: (r, [x]) => [eq2(eq(r, x), inRe(x, RE.ascii)), eq2(eq(r, strLit('')), eq(x, strLit('')))] },
  utf8text: { sig: ['String'], res: 'String', native: (s) => new TextDecoder().decode(Buffer.from(s, 'latin1')),
    facts: (r, [x]) => [eq2(eq(r, x), inRe(x, RE.ascii))] },
  numstr: { sig: ['Int'], res: 'String', inj: true, native: (n) => String(n),
    facts: (r) => [inRe(r, RE.numOut)] },
  numstrR: { sig: ['Real'], res: 'String', inj: true, native: (n) => String(n), facts: (r) => [not(eq(r, strLit('')))] },
  lower: { sig: ['String'], res: 'String', native: (s) => s.toLowerCase(),
    facts: (r, [x]) => [imp(inRe(x, RE.noUpper), eq(r, x)), eq2(eq(r, strLit('')), eq(x, strLit('')))] },
  upper: { sig: ['String'], res: 'String', native: (s) => s.toUpperCase(),
    facts: (r, [x]) => [imp(inRe(x, RE.noLower), eq(r, x)), eq2(eq(r, strLit('')), eq(x, strLit('')))] },
  trim: { sig: ['String'], res: 'String', native: (s) => s.trim(),
    facts: (r, [x]) => [eq2(eq(r, x), inRe(x, RE.trimmed)), app('Bool', 'str.contains', x, r)] },
  hdrtrim: { sig: ['String'], res: 'String', native: (s) => s.replace(/^[\t\n\r ]+|[\t\n\r ]+$/g, ''),
    facts: (r, [x]) => [app('Bool', 'str.contains', x, r)] },
};
function eq2(a, b) {
  return mk('Bool', `(= ${a.t} ${b.t})`);
}
function imp(a, b) {
  return mk('Bool', `(=> ${a.t} ${b.t})`);
}
export const PRELUDE = Object.entries(UFS).map(
  ([n, u]) => `(declare-fun uf_${n} (${u.sig.join(' ')}) ${u.res})`,
);
