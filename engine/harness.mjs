// The harness API. The same harness code runs against symbolic values ('sym') and, for replay, against concrete ones ('native').
import * as M from './models.mjs';
import { loadGraph, REPO, sourceNames } from './loader.mjs';
import * as T from './smt.mjs';
import * as S from './sym.mjs';
import * as W from './webhook.mjs';

const { TRUE, FALSE } = T;
import { AsyncLocalStorage } from 'node:async_hooks';
/** which started call the running code belongs to (survives awaits and timers) */
const owner = new AsyncLocalStorage();
const tick = () => new Promise((r) => setImmediate(r));
const realDate = Date;
const NOW = 1_700_000_000_000;
const SECRET = 'ZQ';

// ------------------------------------------------------------------ native structural equality
export function deepEq(a, b, strict = false) {
  if (a === b) return true;
  if (typeof a === 'number' && typeof b === 'number') return a === b || (Number.isNaN(a) && Number.isNaN(b));
  if (a === null || b === null || typeof a !== 'object' || typeof b !== 'object') return false;
  if (a instanceof realDate && b instanceof realDate) return +a === +b;
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  if (Array.isArray(a)) return a.length === b.length && a.every((x, i) => deepEq(x, b[i], strict));
  const ka = Object.keys(a).filter((k) => strict || a[k] !== undefined);
  const kb = Object.keys(b).filter((k) => strict || b[k] !== undefined);
  if (ka.length !== kb.length) return false;
  return ka.every((k) => Object.prototype.hasOwnProperty.call(b, k) && (strict || b[k] !== undefined) && deepEq(a[k], b[k], strict));
}
function nativeSnap(v, seen = new Map()) {
  if (v === null || typeof v !== 'object') return v;
  if (seen.has(v)) return seen.get(v);
  if (v instanceof realDate) return new realDate(+v);
  if (v instanceof Headers) return [...v.entries()];
  if (ArrayBuffer.isView(v)) return ['bytes', Buffer.from(v.buffer, v.byteOffset, v.byteLength).toString('latin1')];
  if (v instanceof Blob || v instanceof FormData) return v;
  const o = Array.isArray(v) ? [] : {};
  seen.set(v, o);
  for (const k of Object.keys(v)) o[k] = nativeSnap(v[k], seen);
  return o;
}

// ------------------------------------------------------------------ responses
/** wait for everything given, unless the signal aborts first */
async function unlessAborted(signal, ...waits) {
  if (!signal) {
    for (const w of waits) await w;
    return;
  }
  const aborted = new Promise((_r, reject) => {
    const stop = () => reject(signal.reason);
    if (signal.aborted) stop();
    else signal.addEventListener('abort', stop);
  });
  aborted.catch(() => {});
  for (const w of [undefined, ...waits]) await Promise.race([aborted, w]);
}
class FakeResponse {
  constructor(h, spec, signal) {
    Object.defineProperty(this, 'signal', { value: signal, enumerable: false });
    Object.defineProperty(this, 'h', { value: h, enumerable: false });
    Object.defineProperty(this, 'spec', { value: spec, enumerable: false });
    this.status = spec.status ?? 200;
    this.statusText = spec.statusText ?? '';
    this.headers = new h.G.Headers(spec.headers ?? []);
    this.url = spec.url ?? '';
    this.redirected = false;
    this.type = 'basic';
    this.bodyUsed = false;
  }
  get ok() {
    if (this.h.sym) return S.mkBool(T.and(S.termOf(S.bin('>=', this.status, 200)), S.termOf(S.bin('<=', this.status, 299))));
    return this.status >= 200 && this.status <= 299;
  }
  get body() {
    return this.spec.body && this.spec.body.k === 'empty' ? null : { getReader: () => ({ read: async () => ({ done: true }) }), cancel: async () => {} };
  }
  async __use() {
    if (this.bodyUsed) throw new TypeError('Body is unusable: Body has already been read');
    this.bodyUsed = true;
    const b = this.spec.body ?? { k: 'empty' };
    await unlessAborted(this.signal, b.gate, b.delay ? this.h.pause(b.delay) : undefined);
    this.h.event?.('read', this.spec);
    if (b.k === 'error') throw b.e;
    return b;
  }
  async text() {
    return this.h.bodyText(await this.__use());
  }
  async json() {
    const t = this.h.bodyText(await this.__use());
    return this.h.sym ? S.jsonParse(t) : JSON.parse(t);
  }
  async arrayBuffer() {
    return this.h.bodyBytes(await this.__use());
  }
  async bytes() {
    const b = this.h.bodyBytes(await this.__use());
    return this.h.sym ? b : new Uint8Array(b);
  }
  async blob() {
    const b = this.h.bodyBytes(await this.__use());
    return this.h.sym ? { __blob: true, type: '', size: b.length, arrayBuffer: async () => b, text: async () => M.bodyText(b.bin) } : new Blob([b]);
  }
  clone() {
    if (this.bodyUsed) throw new TypeError('Response.clone: Body has already been consumed.');
    return new FakeResponse(this.h, this.spec, this.signal);
  }
}

export class Harness {
  constructor(mode, arg, opts = {}) {
    this.mode = mode;
    this.sym = mode === 'sym';
    this.tier = opts.tier ?? 'quick';
    this.names = new Map();
    this.timers = [];
    this.now = NOW;
    this.seq = 0;
    this.flags = [];
    this.signatures = [];
    this.tokens = new Set();
    this.plain = new Set();
    if (this.sym) this.path = arg;
    else {
      this.inputs = arg;
      this.asserts = [];
      this.vacuous = false;
    }
    this.G = this.sym
      ? { Headers: M.MHeaders, URLSearchParams: M.MSearchParams, URL: M.MURL, FormData: M.MFormData }
      : { Headers, URLSearchParams, URL, FormData };
  }
  get thorough() {
    return this.tier === 'thorough';
  }

  // ---------------------------------------------------------------- inputs
  uniq(name) {
    const n = this.names.get(name) ?? 0;
    this.names.set(name, n + 1);
    return n === 0 ? name : `${name}~${n}`;
  }
  /** dflt: a value inside the domain, for inputs a partial witness leaves open */
  _var(name, sort, dflt) {
    const nm = this.uniq(name);
    if (!this.sym) {
      if (nm in this.inputs) return this.inputs[nm];
      return dflt ?? { String: '', Int: 0, Bool: false }[sort];
    }
    const full = `${nm}:${sort}`.replace(/[|\\]/g, '_');
    S.ctx.solver.declare(full, sort);
    const t = T.variable(sort, full);
    this.path.inputs.set(nm, t);
    return t;
  }
  /** a string; re: name of a class in smt.mjs RE (default: any well-formed BMP string) */
  str(name, { re = 'wellFormed', nonEmpty = false, not = [], max = 0 } = {}) {
    if (this.reMap) {
      re = this.reMap(re);
      if (re === 'secret') return this.cat(SECRET, this._str(name, { re: 'lowerTight' }), SECRET);
    }
    return this._str(name, { re, nonEmpty, not, max });
  }
  _str(name, { re, nonEmpty = false, not = [], max = 0 }) {
    const v = this._var(name, 'String', nonEmpty || re === 'printableNE' ? 'a' : '');
    if (!this.sym) return v;
    this._assume(T.inRe(v, T.RE[re] ?? re));
    if (re.startsWith('lower')) this.plain.add(v.t);
    if (nonEmpty) this._assume(T.not(T.eq(v, T.strLit(''))));
    for (const x of not) this._assume(T.not(T.eq(v, typeof x === 'string' ? T.strLit(x) : S.strTerm(x))));
    if (max) this._assume(T.app('Bool', '<=', T.app('Int', 'str.len', v), T.intLit(max)));
    return S.rawStr(v);
  }
  int(name, lo = -1_000_000, hi = 1_000_000) {
    const v = this._var(name, 'Int', Math.max(lo, Math.min(hi, 0)));
    if (!this.sym) return v;
    this._assume(T.and(T.app('Bool', '<=', T.intLit(lo), v), T.app('Bool', '<=', v, T.intLit(hi))));
    return S.mkNum(v);
  }
  /** a multiple of 1/4 in [-2^20, 2^20] */
  num(name) {
    const v = this._var(name, 'Int');
    if (!this.sym) return v / 4;
    const M4 = 4 * (1 << 20);
    this._assume(T.and(T.app('Bool', '<=', T.intLit(-M4), v), T.app('Bool', '<=', v, T.intLit(M4))));
    return S.mkNum(T.app('Real', '/', T.app('Real', 'to_real', v), T.realLit(4)));
  }
  bool(name) {
    const v = this._var(name, 'Bool');
    return this.sym ? S.mkBool(v) : v;
  }
  _assume(t) {
    S.addPC(t);
  }
  assume(c) {
    if (this.sym) S.assume(S.termOf(c));
    else if (!c) {
      this.vacuous = true;
      throw new Vacuous();
    }
  }
  /** one of several values without forking */
  pick(name, values) {
    const v = this._var(`${name}?`, 'Int');
    if (!this.sym) return values[Math.min(Math.max(v, 0), values.length - 1)];
    this._assume(T.and(T.app('Bool', '<=', T.intLit(0), v), T.app('Bool', '<', v, T.intLit(values.length))));
    return S.mkUnion(values.map((x, i) => ({ c: T.eq(v, T.intLit(i)), v: x })));
  }
  /** one of n cases, each explored separately: the case is a solver variable, fixed by the path */
  choice(name, n) {
    const opts = Array.isArray(n) ? n : null;
    const count = opts ? opts.length : n;
    const v = this._var(`${name}#`, 'Int');
    if (!this.sym) {
      const i = Math.min(Math.max(v, 0), count - 1);
      return opts ? opts[i] : i;
    }
    const i = S.choose(count, name);
    S.addPC(T.eq(v, T.intLit(i)));
    return opts ? opts[i] : i;
  }
  flip(name) {
    return this.choice(name, 2) === 1;
  }
  /** object with possibly absent fields: values wrapped by h.maybe(...) may be missing */
  maybe(v) {
    return { __maybe: true, v };
  }
  /** marks an object field list that also holds one member of any name the sources mention */
  extra(v) {
    return { __extra: true, v };
  }
  /** [key, value, presence] of a member whose name is any the sources mention, other than the taken ones */
  extraFields(name, v, taken) {
    const names = sourceNames().members.filter((n) => !taken.includes(n));
    const k = this._var(`${name}.*`, 'Int');
    if (!this.sym) return k >= 1 && k <= names.length ? [[names[k - 1], v, true]] : [];
    this._assume(T.and(T.app('Bool', '<=', T.intLit(0), k), T.app('Bool', '<=', k, T.intLit(names.length))));
    return names.map((n, i) => [n, v, T.eq(k, T.intLit(i + 1))]);
  }
  obj(name, fields) {
    const out = [];
    const extra = [];
    for (const k of Object.keys(fields)) {
      const f = fields[k];
      if (f !== null && typeof f === 'object' && f.__extra === true) extra.push(...this.extraFields(name, f.v, Object.keys(fields)));
      else if (f !== null && typeof f === 'object' && f.__maybe === true) out.push([k, f.v, this._var(`${name}.${k}!`, 'Bool')]);
      else out.push([k, f, true]);
    }
    out.push(...extra);
    if (!this.sym) return Object.fromEntries(out.filter((e) => e[2]).map((e) => [e[0], e[1]]));
    return S.mkObj(out.map(([k, v, p]) => [k, v, p === true ? TRUE : p]));
  }
  /** array of 0..max elements, one path per length */
  arr(name, max, f, min = 0) {
    const n = min + this.choice(`${name}.length`, max - min + 1);
    const out = [];
    for (let i = 0; i < n; i++) out.push(f(i, `${name}[${i}]`));
    return out;
  }
  /** any JSON value up to the given depth (no forking) */
  json(name, depth = 1) {
    const alts = [null, this.bool(`${name}.b`), this.num(`${name}.n`), this.str(`${name}.s`)];
    if (depth > 0) {
      alts.push([], [this.json(`${name}[0]`, depth - 1), this.str(`${name}[1]`)]);
      alts.push(this.obj(name, { id: this.maybe(this.json(`${name}.id`, depth - 1)), message: this.maybe(this.str(`${name}.message`)), x_y: this.maybe(this.bool(`${name}.x_y`)) }));
    }
    return this.pick(name, alts);
  }
  jsonObj(name, depth = 1) {
    return this.obj(name, {
      id: this.maybe(this.str(`${name}.id`)),
      name: this.maybe(this.str(`${name}.name`)),
      message: this.maybe(this.json(`${name}.message`, depth - 1)),
      statusCode: this.maybe(this.pick(`${name}.statusCode`, [null, this.int(`${name}.sc`, 100, 599)])),
      some_value: this.maybe(this.json(`${name}.some_value`, depth - 1)),
      '*': this.extra(this.json(`${name}.extra`, 0)),
    });
  }

  // ---------------------------------------------------------------- assertions
  assert(cond, label) {
    if (!this.sym) {
      this.asserts.push({ label, ok: !!cond });
      return;
    }
    const p = this.path;
    if (p.aborted) throw p.aborted;
    const t = S.termOf(cond);
    S.ctx.totals.asserts++;
    p.asserted = (p.asserted ?? 0) + 1;
    if (t === TRUE) {
      S.ctx.totals.trivialAsserts++;
      return;
    }
    S.ctx.totals.assertQueries++;
    if (p.idx < p.prefix.length) {
      // already decided on the path this one was forked from
      S.addPC(t);
      return;
    }
    const neg = T.not(t);
    const r = t === FALSE ? 'sat' : S.query(neg);
    if (r === 'unsat') {
      S.addPC(t);
      return;
    }
    const names = [...p.inputs];
    const m = S.solveModel([neg], names.map((e) => e[1]));
    if (m.result === 'unsat') {
      if (t === FALSE) S.abort('infeasible');
      S.addPC(t);
      return;
    }
    const inputs = m.values ? Object.fromEntries(names.map((e, i) => [e[0], m.values[i]])) : null;
    p.violations.push({ label, inputs, result: m.result, term: t.t.slice(0, 300) });
    S.assume(t);
  }
  eq(a, b) {
    return this.sym ? S.mkBool(S.eqTerm(a, b)) : a === b;
  }
  /** equality as JSON values: undefined means absent, key order is irrelevant, array order is not */
  jsonEq(a, b) {
    return this.sym ? S.mkBool(S.jsonEqSnap(S.snapshot(a), S.snapshot(b))) : deepEq(JSON.parse(JSON.stringify({ v: a })), JSON.parse(JSON.stringify({ v: b })));
  }
  /** structural equality of values (undefined-valued fields count as absent) */
  same(a, b) {
    return this.sym ? S.mkBool(S.jsonEqSnap(S.snapshot(a, 'deep'), S.snapshot(b, 'deep'))) : deepEq(nativeSnap(a), nativeSnap(b));
  }
  snap(v) {
    return this.sym ? S.snapshot(v, 'deep') : nativeSnap(v);
  }
  sameSnap(a, b) {
    return this.sym ? S.mkBool(S.jsonEqSnap(a, b, true)) : deepEq(a, b, true);
  }
  and(...xs) {
    xs = xs.flat();
    return this.sym ? S.mkBool(T.and(xs.map(S.termOf))) : xs.every(Boolean);
  }
  or(...xs) {
    xs = xs.flat();
    return this.sym ? S.mkBool(T.or(xs.map(S.termOf))) : xs.some(Boolean);
  }
  not(x) {
    return this.sym ? S.mkBool(T.not(S.termOf(x))) : !x;
  }
  implies(a, b) {
    return this.or(this.not(a), b);
  }
  iff(a, b) {
    return this.sym ? S.mkBool(T.eq(S.termOf(a), S.termOf(b))) : !!a === !!b;
  }
  /** split the path on a condition */
  when(c) {
    return this.sym ? S.truthy(c) : !!c;
  }
  isUndef(x) {
    return this.sym ? S.mkBool(S.eqTerm(x, undefined)) : x === undefined;
  }
  truthy(x) {
    return this.sym ? S.mkBool(S.truthTerm(x)) : !!x;
  }
  /** pick the alternative of a symbolic union (forks) */
  force(v) {
    return this.sym && S.isUnion(v) ? S.force(v) : v;
  }
  ite(c, a, b) {
    if (!this.sym) return c ? a : b;
    const t = S.termOf(c);
    return S.mkUnion([{ c: t, v: a }, { c: T.not(t), v: b }]);
  }
  isStr(v) {
    v = this.force(v);
    return typeof v === 'string' || v instanceof S.SymStr;
  }
  isObject(v) {
    v = this.force(v);
    return typeof v === 'object' && v !== null && !(v instanceof S.Sym) && !Array.isArray(v);
  }
  isArr(v) {
    return Array.isArray(this.force(v));
  }
  inRe(s, re) {
    return this.sym ? S.mkBool(T.inRe(S.strTerm(s), T.RE[re] ?? re)) : true;
  }
  startsWith(s, p) {
    return this.sym ? S.mcall(s, 'startsWith', [p]) : s.startsWith(p);
  }
  endsWith(s, p) {
    return this.sym ? S.mcall(s, 'endsWith', [p]) : s.endsWith(p);
  }
  cat(...xs) {
    return this.sym ? S.cat(...xs.map(S.toStr)) : xs.join('');
  }
  /** no text written to this log holds a secret (their first letters occur nowhere else) */
  noSecret(log) {
    if (!this.sym) return log.texts.every(([, t]) => !t.includes(SECRET));
    const bad = new Map();
    for (const [c, t] of log.texts) {
      if (typeof t === 'string' ? !t.includes(SECRET) : this.plain.has(S.strTerm(t).t)) continue;
      const x = T.and(c, typeof t === 'string' ? TRUE : T.app('Bool', 'str.contains', S.strTerm(t), T.strLit(SECRET)));
      bad.set(x.t, x);
    }
    return S.mkBool(T.not(T.or([...bad.values()])));
  }
  /** the same URL on the wire: fetch normalises what it is given */
  urlEq(a, b) {
    if (typeof a === 'string' && typeof b === 'string') {
      const norm = (u) => {
        try {
          return new URL(u).href;
        } catch {
          return u;
        }
      };
      return norm(a) === norm(b);
    }
    return this.eq(a, b);
  }
  contains(s, x) {
    if (!this.sym) return String(s).includes(x);
    return S.mkBool(T.app('Bool', 'str.contains', S.strTerm(s), S.strTerm(x)));
  }
  /** f of every alternative of v that is not undefined */
  mapOpt(v, f) {
    if (!this.sym) return v === undefined ? undefined : f(v);
    if (!S.isUnion(v)) return v === undefined ? undefined : f(v);
    return S.mkUnion(S.unionAlts(v).map((a) => ({ c: a.c, v: a.v === undefined ? undefined : f(a.v) })));
  }
  numStrOpt(v) {
    return this.mapOpt(v, (x) => this.numStr(x));
  }
  numStr(n) {
    return this.sym ? S.toStr(n) : String(n);
  }

  // ---------------------------------------------------------------- bodies
  bodyText(b) {
    switch (b.k) {
      case 'json':
        return this.sym ? S.jsonStringify(b.v) : JSON.stringify(b.v);
      case 'text':
        return b.s;
      case 'bytes':
        return this.sym ? M.bodyText(b.b) : new TextDecoder().decode(Buffer.from(b.b, 'latin1'));
    }
    return '';
  }
  bodyBytes(b) {
    if (b.k === 'bytes') {
      if (this.sym) return new M.SymBytes(b.b);
      const u = Buffer.from(b.b, 'latin1');
      return u.buffer.slice(u.byteOffset, u.byteOffset + u.byteLength);
    }
    const t = this.bodyText(b);
    if (this.sym) return M.MBuffer.from(t);
    const u = Buffer.from(t);
    return u.buffer.slice(u.byteOffset, u.byteOffset + u.byteLength);
  }
  /** bytes given to a parser, as a binary string */
  asBin(v) {
    v = this.force(v);
    if (this.isStr(v)) return this.sym ? binOf(M.MBuffer.from(v)) : Buffer.from(v, 'utf8').toString('latin1');
    return binOf(v);
  }
  /** a Buffer with the given bytes */
  buf(bin) {
    return this.sym ? M.MBuffer.from(bin, 'latin1') : Buffer.from(bin, 'latin1');
  }
  /** an ArrayBuffer with the given bytes */
  arrayBuf(bin) {
    if (this.sym) return new M.SymBytes(bin);
    const u = Buffer.from(bin, 'latin1');
    return u.buffer.slice(u.byteOffset, u.byteOffset + u.byteLength);
  }
  /** the token of an authentic webhook signature, and the secret with the given key */
  signature(secret, id, n, payload) {
    return W.signature(this, secret, id, n, payload);
  }
  /** {bytes, type, name} of a file in a form; name is undefined for an unnamed blob */
  async fileView(f) {
    f = this.force(f);
    if (f === null || typeof f !== 'object') return null;
    if (f.__blob) return f.of ? { ...(await this.fileView(f.of)), name: f.name } : { bytes: binOf(await f.arrayBuffer()), type: f.type, name: undefined };
    if (!(f instanceof Blob)) return null;
    return { bytes: Buffer.from(await f.arrayBuffer()).toString('latin1'), type: f.type, name: f instanceof File && f.name !== 'blob' ? f.name : undefined };
  }
  /** a text that may stand for a signature token */
  token(name, not = []) {
    const t = this.str(name, { re: 'b64Out', nonEmpty: true, not });
    if (this.sym) this.tokens.add(S.strTerm(t).t);
    return t;
  }
  decodeUtf8(bin) {
    return this.sym ? M.bodyText(bin) : Buffer.from(bin, 'latin1').toString('utf8');
  }
  b64(bin) {
    return this.sym ? M.b64rope(bin) : Buffer.from(bin, 'latin1').toString('base64');
  }

  // ---------------------------------------------------------------- outcomes
  ok(v, headers = [['content-type', 'application/json']], status = 200) {
    return { type: 'response', status, headers, body: { k: 'json', v } };
  }
  /** response headers; wideHeaders: with many more names, those the sources mention among them */
  resHeaders(name) {
    const more = [];
    if (this.wideHeaders) {
      const values = ['5', 'a, b', 'Thu, 01 Jan 2026 00:00:00 GMT', '', '"q"; w=1', '0', 'Mixed Case/V1', 'true', 'null'];
      headerNames().forEach((k, i) => more.push([k, values[i % values.length]]));
    }
    return [
      ...more,
      ['content-type', this.str(`${name}.ct`, { re: 'headerTight' })], ['x-request-id', this.str(`${name}.rid`, { re: 'headerTight' })],
      ['ratelimit-remaining', this.str(`${name}.rl`, { re: 'headerTight' })], ['retry-after', this.str(`${name}.ra`, { re: 'headerTight' })],
    ];
  }
  /** names a header may have: common ones, and every one the sources could treat specially */
  headerNames() {
    return ['content-type', 'accept', 'sec-fetch-mode', 'x-forwarded-for', ...headerNames()];
  }
  /** the JSON object a headers list amounts to */
  headersObj(list) {
    return Object.fromEntries(list);
  }
  statusOk(name, nullBody = false) {
    const s = this.int(`${name}.status`, 200, 299);
    if (!nullBody) this.assume(this.and(this.not(this.eq(s, 204)), this.not(this.eq(s, 205))));
    return s;
  }
  statusBad(name, nullBody = false) {
    const s = this.int(`${name}.status`, 300, 599);
    if (!nullBody) this.assume(this.not(this.eq(s, 304)));
    return s;
  }
  /** any outcome of one exchange; kinds restrict it */
  outcome(name, { kinds = ['okJson', 'okBad', 'okUnreadable', 'errJson', 'errOther', 'errBad', 'errUnreadable', 'network'], data, error, headers, gate, light = false } = {}) {
    const kind = this.choice(`${name}.kind`, kinds);
    const hs = headers ?? this.resHeaders(name);
    const unread = () => this.throwable(`${name}.readError`, light);
    const bad = () => {
      const v = this.choice(`${name}.bad`, 2);
      return { k: 'text', s: v === 0 ? '' : this.cat('<', this.str(`${name}.text`)) };
    };
    const st = this.str(`${name}.statusText`, { re: 'printable' });
    const res = (status, body) => ({ kind, type: 'response', status, statusText: st, headers: hs, body: gate ? { ...body, gate } : body });
    switch (kind) {
      case 'okJson':
        return res(this.statusOk(name), { k: 'json', v: data ? data() : this.jsonObj(`${name}.data`) });
      case 'okBad':
        return res(this.statusOk(name, true), bad());
      case 'okUnreadable':
        return res(this.statusOk(name), { k: 'error', e: unread() });
      case 'errJson':
        return res(this.statusBad(name), { k: 'json', v: error ? error() : this.jsonObj(`${name}.error`) });
      case 'errOther':
        return res(this.statusBad(name), { k: 'json', v: this.pick(`${name}.errOther`, [null, this.str(`${name}.es`), this.num(`${name}.en`), this.bool(`${name}.eb`)]) });
      case 'errBad':
        return res(this.statusBad(name, true), bad());
      case 'errUnreadable':
        return res(this.statusBad(name), { k: 'error', e: unread() });
    }
    return { kind: 'network', type: 'reject', e: this.throwable(`${name}.netError`, light) };
  }
  throwable(name, light = false) {
    const i = light ? 0 : this.choice(`${name}.throwable`, 4);
    const msg = this.str(`${name}.message`, { re: 'printable' });
    // platform errors carry a code, their own or their cause's, and abort errors a name of their kind
    if (i === 0) {
      const e = this.error(TypeError, msg);
      e.cause = this.error(Error, this.str(`${name}.cause.message`, { re: 'printable' }));
      e.cause.code = this.str(`${name}.cause.code`, { re: 'safeId', nonEmpty: true });
      return e;
    }
    if (i === 1) {
      const e = this.error(Error, msg);
      e.name = this.str(`${name}.name`, { re: 'safeId', nonEmpty: true });
      e.code = this.str(`${name}.code`, { re: 'safeId', nonEmpty: true });
      return e;
    }
    if (i === 2) return msg;
    return this.pick(`${name}.nothing`, [undefined, null]);
  }
  error(C, msg) {
    const e = new C('x');
    e.message = msg;
    return e;
  }

  // ---------------------------------------------------------------- the world
  /** an environment with the given variables and any other variable the sources mention */
  env(fields) {
    const others = sourceNames().env.filter((n) => !(n in fields) && !['RESEND_API_KEY', 'RESEND_BASE_URL', 'RESEND_USER_AGENT', 'NODE_ENV', 'POST', 'GET', 'PUT', 'PATCH', 'DELETE'].includes(n));
    return this.obj('env', { ...fields, ...Object.fromEntries(others.map((n) => [n, this.maybe(this.str(`env.${n}`))])) });
  }
  /** fresh module graph plus platform; opts: env (object|null), fetch(req, i) -> outcome, noFormData, render, parseMail, webhookLib */
  world(opts = {}) {
    const h = this;
    const w = { calls: [], logs: [], renders: [], parses: [], h, opts, events: [] };
    const log = (m) => (...args) => {
      w.logs.push({ m, args, snap: args.map((a) => h.snap(errView(h, a))), texts: opts.logTexts ? textsOf(h, args) : [] });
    };
    const console = {};
    for (const m of ['log', 'error', 'warn', 'info', 'debug', 'trace', 'dir', 'table', 'group', 'groupEnd', 'assert', 'time', 'timeEnd', 'count']) console[m] = log(m);
    let process;
    if (opts.env !== null) {
      process = {
        env: opts.env ?? h.env({}),
        version: 'v22.0.0', versions: { node: '22.0.0' }, platform: 'linux', arch: 'x64', pid: 1, argv: ['node'], release: { name: 'node' },
        cwd: () => '/', nextTick: (f, ...a) => queueMicrotask(() => f(...a)), emitWarning: log('emitWarning'), on() {}, once() {}, off() {}, emit() {},
        hrtime: Object.assign(() => [0, 0], { bigint: () => 0n }), uptime: () => 1, memoryUsage: () => ({}),
        stdout: { write: log('stdout') }, stderr: { write: log('stderr') },
      };
    }
    if (opts.process === 'noenv') process = {};
    const G = { ...this.G };
    const fetch = (input, init) => h._fetch(w, input, init);
    const R = class Response extends FakeResponse {
      constructor(body, init = {}) {
        super(h, { status: init.status ?? 200, statusText: init.statusText, headers: init.headers, body: body == null ? { k: 'empty' } : { k: 'text', s: body } });
      }
      static [Symbol.hasInstance](v) {
        return v instanceof FakeResponse;
      }
    };
    const VDate = class Date extends realDate {
      constructor(...a) {
        if (a.length === 0) super(h.now);
        else super(...a.map((x) => (h.sym && (x instanceof S.Sym || S.isUnion(x)) ? S.concretize(x, 'Date') : x)));
      }
      static now() {
        return h.now;
      }
    };
    const VMath = Object.create(Math);
    Object.defineProperty(VMath, 'random', { value: () => 0.5 });
    let uuid = 0;
    const vcrypto = {
      randomUUID: () => `00000000-0000-4000-8000-${String(uuid++).padStart(12, '0')}`,
      getRandomValues: (a) => a.fill(7),
      get subtle() {
        return globalThis.crypto.subtle;
      },
    };
    const setT = (f0, ms = 0, ...a) => {
      const run = AsyncLocalStorage.snapshot();
      const f = (...x) => run(() => (h.sym ? S.call(f0, x) : f0(...x)));
      if (h.sym) ms = S.concretize(ms, 'timer');
      const t = { at: h.now + (Number(ms) || 0), f, a, id: ++h.seq, live: true, ref() { return t; }, unref() { return t; }, hasRef: () => true, refresh() { return t; }, [Symbol.toPrimitive]: () => t.id };
      h.timers.push(t);
      return t;
    };
    h.pause = (ms) => new Promise((r) => setT(r, ms));
    const clearT = (t) => {
      for (const x of h.timers) if (x === t || x.id === t) x.live = false;
    };
    const globals = {
      process, fetch, console, ...G,
      FormData: opts.noFormData ? undefined : G.FormData,
      Buffer: this.sym ? M.MBuffer : Buffer,
      setTimeout: setT, clearTimeout: clearT,
      setInterval: (f, ms, ...a) => {
        const go = () => {
          f(...a);
          t.at = h.now + ms;
          h.timers.push(t);
        };
        const t = setT(go, ms);
        return t;
      },
      clearInterval: clearT,
      setImmediate: (f, ...a) => setT(f, 0, ...a), clearImmediate: clearT,
      queueMicrotask: globalThis.queueMicrotask, Date: VDate, crypto: vcrypto,
      Request: this.sym ? M.MRequest : Request, Response: R, Blob, File, AbortController,
      AbortSignal: new Proxy(AbortSignal, {
        get(o, k) {
          if (k !== 'timeout') return Reflect.get(o, k, o);
          return (ms) => {
            const c = new AbortController();
            setT(() => c.abort(new DOMException('The operation was aborted due to timeout', 'TimeoutError')), ms);
            return c.signal;
          };
        },
      }),
      TextEncoder: this.sym ? M.MTextEncoder : TextEncoder, TextDecoder: this.sym ? M.MTextDecoder : TextDecoder,
      performance: { now: () => h.now - NOW, mark() {}, measure() {} },
      btoa: this.sym ? M.mbtoa : btoa, atob: this.sym ? M.matob : atob,
      Uint8Array: this.sym ? M.MUint8Array : Uint8Array, Math: VMath,
    };
    const gt = Object.create(globalThis);
    for (const [k, v] of Object.entries(globals)) Object.defineProperty(gt, k, { value: v, writable: true, configurable: true });
    globals.globalThis = gt;
    globals.global = gt;
    globals.self = undefined;
    globals.window = undefined;
    const render = async (node, o) => {
      const n = w.renders.length;
      w.renders.push({ node, o });
      h.event?.('render');
      if (!opts.render) return `<html>${n}</html>`;
      return opts.render(node, o, n);
    };
    const missing = {
      get render() {
        throw new Error("Cannot find module '@react-email/render'");
      },
    };
    const stubs = {
      '@react-email/render': opts.renderMissing ? missing : { render, pretty: async (x) => x, plainTextSelectors: [], renderAsync: render },
      'postal-mime': lazyMail(h, w, opts),
    };
    stubs.standardwebhooks = this.sym ? W.symLib(h) : W.nativeLib(globals);
    w.mod = loadGraph(`${REPO}/src/index.ts`, this.sym ? 'sym' : 'native', { globals, stubs });
    w.Resend = w.mod.Resend;
    w.globals = globals;
    w.client = (key = 're_test_key', o) => (o === undefined ? h.make(w.Resend, [key]) : h.make(w.Resend, [key, o]));
    return w;
  }
  make(C, args) {
    return this.sym ? S.construct(C, args) : new C(...args);
  }
  _fetch(w, input, init) {
    const h = this;
    const rec = { i: w.calls.length, owner: owner.getStore() };
    try {
      init = h.force(init);
      input = h.force(input);
      let url;
      let req = null;
      if (input && typeof input === 'object' && (input instanceof M.MRequest || input instanceof Request)) {
        req = input;
        url = req.url;
      } else if (input instanceof M.MURL || input instanceof URL) url = input.href;
      else url = h.sym ? S.toStr(input) : String(input);
      const i = init ?? {};
      rec.url = url;
      rec.method = i.method ?? req?.method ?? 'GET';
      rec.method = h.sym ? S.concretize(rec.method, 'method') : rec.method;
      if (/^(get|post|put|delete|head|options)$/i.test(rec.method)) rec.method = rec.method.toUpperCase();
      const hd = new h.G.Headers(h.force(i.headers) ?? req?.headers ?? undefined);
      rec.headers = [...hd.entries()].map((e) => [...e]);
      rec.body = h.force(i.body ?? req?.body ?? undefined);
      if (rec.body === null) rec.body = undefined;
      rec.init = i;
      rec.signal = h.force(i.signal ?? undefined) ?? undefined;
      rec.form = rec.body instanceof h.G.FormData ? [...rec.body.entries()] : null;
      rec.rawHeaders = i.headers;
    } catch (e) {
      if (e instanceof S.PathAbort || e instanceof S.EngineError) throw e;
      return Promise.reject(e);
    }
    if (rec.body !== undefined && (rec.method === 'GET' || rec.method === 'HEAD')) {
      return Promise.reject(new TypeError('Request with GET/HEAD method cannot have body.'));
    }
    rec.at = h.now;
    w.calls.push(rec);
    w.events.push(['fetch', rec.i]);
    let o;
    try {
      o = w.opts.fetch ? w.opts.fetch(rec, rec.i) : h.ok(h.obj('r', { id: 'id_1' }));
    } catch (e) {
      // a mistake of the harness, not a network failure
      h.callbackError ??= e;
      throw e;
    }
    return (async () => {
      let spec;
      try {
        spec = await o;
      } catch (e) {
        h.callbackError ??= e;
        throw e;
      }
      await unlessAborted(rec.signal, spec.gate, spec.delay ? h.pause(spec.delay) : undefined);
      if (spec.type === 'reject') throw spec.e;
      rec.outcome = spec;
      return new FakeResponse(h, spec, rec.signal);
    })();
  }

  // ---------------------------------------------------------------- running calls
  check() {
    if (this.sym && this.path.aborted) throw this.path.aborted;
    if (this.sym && this.path.engineError) throw this.path.engineError;
  }
  async drain() {
    await tick();
    this.check();
  }
  fireTimer() {
    const live = this.timers.filter((t) => t.live).sort((a, b) => a.at - b.at || a.id - b.id);
    if (!live.length) return false;
    const t = live[0];
    this.timers.splice(this.timers.indexOf(t), 1);
    this.timers = this.timers.filter((x) => x.live);
    this.now = Math.max(this.now, t.at);
    t.f(...t.a);
    return true;
  }
  /** start a call without waiting for it */
  start(fn, tag) {
    const r = { done: false, ok: false, value: undefined, error: undefined, sync: false, hang: false };
    let p;
    try {
      p = tag === undefined ? fn() : owner.run(tag, fn);
    } catch (e) {
      if (e instanceof S.PathAbort || e instanceof S.EngineError || e instanceof Vacuous) throw e;
      Object.assign(r, { done: true, error: e, sync: true });
      return r;
    }
    r.returned = p;
    Promise.resolve(p).then(
      (v) => Object.assign(r, { done: true, ok: true, value: v }),
      (e) => {
        if (e instanceof S.PathAbort || e instanceof S.EngineError) return;
        Object.assign(r, { done: true, error: e });
      },
    );
    return r;
  }
  async wait(r) {
    for (let i = 0; i < 200; i++) {
      if (r.done) {
        this.check();
        return r;
      }
      await this.drain();
      if (r.done) return r;
      if (!this.fireTimer()) break;
    }
    await this.drain();
    if (!r.done) r.hang = true;
    return r;
  }
  /** run a call to completion: {ok, value, error, sync, hang} */
  async attempt(fn) {
    return this.wait(this.start(fn));
  }
  /** let everything that is still scheduled happen (late timers, detached promises) */
  async quiesce(max = 50) {
    for (let i = 0; i < max; i++) {
      await this.drain();
      if (!this.fireTimer()) break;
    }
    await this.drain();
  }
  deferred() {
    let resolve;
    let reject;
    const promise = new Promise((a, b) => {
      resolve = a;
      reject = b;
    });
    return { promise, resolve, reject };
  }

  // ---------------------------------------------------------------- reading requests
  header(req, name) {
    const e = req.headers.find((x) => x[0] === name.toLowerCase());
    return e ? e[1] : null;
  }
  headerEq(req, name, v) {
    const x = this.header(req, name);
    if (x === null) return v === null;
    return v === null ? false : this.eq(x, v);
  }
  /** the header list equals the expected one ([lowercase name, value][]) */
  headersAre(req, expected) {
    const cs = [];
    if (req.headers.length !== expected.length) return false;
    for (const [k, v] of expected) cs.push(this.headerEq(req, k, v));
    return this.and(cs);
  }
  /** JSON body, or {absent:true} / {bad:true} */
  body(req) {
    const b = req.body;
    if (b === undefined || b === null) return { absent: true };
    if (!this.isStr(b)) return { bad: true };
    try {
      return { v: this.sym ? S.jsonParse(b) : JSON.parse(b) };
    } catch (e) {
      if (e instanceof S.PathAbort || e instanceof S.EngineError) throw e;
      return { bad: true };
    }
  }
  bodyIs(req, expected) {
    const b = this.body(req);
    if (!('v' in b)) return false;
    return this.jsonEq(b.v, expected);
  }
  /** {origin, segs: decoded path segments, query: [[k, v]], hash} */
  url(u) {
    if (!this.sym) {
      const x = new URL(u);
      const segs = x.pathname.split('/').slice(1).map((s) => {
        try {
          return decodeURIComponent(s);
        } catch {
          return s;
        }
      });
      return { origin: x.origin, segs, rawSegs: x.pathname.split('/').slice(1), query: [...x.searchParams], hash: x.hash, hasQuery: x.search !== '' || /\?/.test(u) };
    }
    return symUrl(u);
  }
  decode(s) {
    return this.sym ? S.decodeRope(s) : decodeURIComponent(s);
  }
  /** the query equals the expected multiset of [name, value] with concrete names */
  queryIs(u, expected) {
    const q = u.query;
    if (q.length !== expected.length) return false;
    const cs = [];
    for (const [k, v] of expected) {
      const m = q.filter((e) => e[0] === k);
      if (m.length !== 1) return false;
      cs.push(this.eq(m[0][1], v));
    }
    return this.and(cs);
  }
  segsAre(u, expected) {
    if (u.segs.length !== expected.length) return false;
    return this.and(u.segs.map((s, i) => this.eq(s, expected[i])));
  }
}
/** names a response header may have: common ones, and every one the sources could treat specially */
let hnames = null;
function headerNames() {
  if (hnames) return hnames;
  const l = ['age', 'alt-svc', 'cache-control', 'cf-cache-status', 'cf-ray', 'connection', 'content-encoding', 'content-length', 'date', 'etag', 'link', 'location', 'nel', 'ratelimit-limit', 'ratelimit-reset', 'report-to', 'server', 'set-cookie', 'strict-transport-security', 'traceparent', 'vary', 'via', 'www-authenticate', 'x-amzn-requestid', 'x-content-type-options', 'x-powered-by', 'x-resend-daily-quota', 'x-resend-monthly-quota', 'x-vercel-id', 'idempotent-replayed', 'deprecation', 'sunset', 'warning', 'expires', 'pragma', 'upgrade', 'server-timing', 'retry-after-ms', 'x-should-retry', 'x-ratelimit-remaining', 'x-cache', 'refresh', 'constructor'];
  const s = sourceNames();
  l.push(...s.asked.map((n) => n.toLowerCase()));
  for (const n of [...s.members.filter((m) => m.includes('-')), ...s.literals]) {
    for (const p of n.toLowerCase().split(/[^a-z0-9-]/)) {
      if (!p.includes('-')) continue;
      const a = p.startsWith('-') ? `zz${p}` : p;
      l.push(a.endsWith('-') ? `${a}zz` : a);
    }
  }
  const taken = ['content-type', 'x-request-id', 'ratelimit-remaining', 'retry-after'];
  hnames = [...new Set(l)].filter((n) => !taken.includes(n) && /^[a-z0-9-]+$/.test(n));
  return hnames;
}
function errView(h, a) {
  if (a instanceof Error) return { name: a.name, message: a.message, stack: a.stack };
  return a;
}
/** every string a value shows when it is written out: [condition, string] */
function textsOf(h, v, c = TRUE, seen = new Map(), out = []) {
  if (h.sym && S.isUnion(v)) {
    for (const a of S.unionAlts(v)) textsOf(h, a.v, T.and(c, a.c), seen, out);
    return out;
  }
  if (typeof v === 'string') out.push([c, v]);
  else if (v instanceof S.SymStr) {
    for (const p of S.partsOf(v)) {
      if (typeof p === 'string') out.push([c, p]);
      else if (p.k === 'json') snapTexts(p.snap, c, out);
      else if (p.k === 'num') continue;
      else if (p.x !== undefined && p.x !== null) textsOf(h, p.x, c, seen, out);
      else out.push([c, S.mkStr([p])]);
    }
  }
  if (v === null || typeof v !== 'object' || v instanceof S.Sym) return out;
  if (seen.has(v)) return out;
  seen.set(v, true);
  const go = (x, cc = c) => textsOf(h, x, cc, seen, out);
  if (v instanceof M.SymBytes || ArrayBuffer.isView(v) || v instanceof ArrayBuffer) {
    go(binOf(v));
    return out;
  }
  if (v instanceof Error) for (const k of ['name', 'message', 'cause']) go(v[k]);
  if (v instanceof h.G.Headers || v instanceof h.G.FormData || v instanceof h.G.URLSearchParams || v instanceof Map || v instanceof Set) for (const e of v.entries()) go([...e]);
  if (v instanceof h.G.URL) go(v.href);
  if (h.sym && S.isObj(v)) for (const [k, f] of S.objBox(v).f) typeof k === 'string' && go(f.v, T.and(c, f.p));
  else for (const k of Object.keys(v)) if (k !== '__h') go(v[k]);
  return out;
}
function snapTexts(n, c, out) {
  if (n.k === 'union') for (const a of n.alts) snapTexts(a.n, T.and(c, a.c), out);
  else if (n.k === 'str') out.push([c, n.v]);
  else if (n.k === 'arr') for (const e of n.e) snapTexts(e, c, out);
  else if (n.k === 'obj') for (const [, p, x] of n.f) snapTexts(x, T.and(c, p), out);
}
function binOf(v) {
  if (v instanceof M.SymBytes) return v.bin;
  if (v instanceof ArrayBuffer) return Buffer.from(v).toString('latin1');
  if (ArrayBuffer.isView(v)) return Buffer.from(v.buffer, v.byteOffset, v.byteLength).toString('latin1');
  return null;
}
function lazyMail(h, w, opts) {
  const parse = async (raw, o) => {
    const n = w.parses.length;
    w.parses.push({ raw, o });
    if (!opts.parseMail) return { headers: [], attachments: [] };
    return opts.parseMail(raw, o, n);
  };
  class PostalMime {
    constructor(o) {
      this.o = o;
    }
    parse(raw) {
      return parse(raw, this.o);
    }
    static parse(raw, o) {
      return parse(raw, o);
    }
  }
  return { __esModule: true, default: PostalMime, addressParser() {}, decodeWords: (x) => x };
}
export class Vacuous extends Error {}

// ------------------------------------------------------------------ symbolic URL view
// Characters that keep a raw (unencoded) part inside its path segment and unchanged by URL parsing + percent-decoding.
const RAW_SAFE = '(re.* (re.union (str.to_re "!") (re.range "$" "$") (re.range "&" ".") (re.range "0" ">") (re.range "@" "[") (re.range "]" "\\u{d7ff}") (re.range "\\u{e000}" "\\u{ffff}")))';
T.RE.rawSafe = RAW_SAFE;
const HAS_DELIM = '(re.++ re.all (re.union (str.to_re "/") (str.to_re "?") (str.to_re "#") (str.to_re "\\")) re.all)';
export function symUrl(u) {
  let parts = S.partsOf(u).map((p) => {
    if (typeof p === 'string' || ['uri', 'form', 'num'].includes(p.k)) return p;
    if (S.decide(T.inRe(p.t, RAW_SAFE))) return { ...p, safe: true };
    // characters that end the segment first: they are the interesting instances
    S.decide(T.inRe(p.t, HAS_DELIM));
    return S.concretize(S.mkStr([p]), 'unsafe URL part');
  });
  // merge concrete neighbours, then let the real URL parser normalise a fully concrete URL
  const merged = S.mkStr(parts);
  if (typeof merged === 'string') {
    const x = new URL(merged);
    const dec = (s) => {
      try {
        return decodeURIComponent(s);
      } catch {
        return s;
      }
    };
    return { origin: x.origin, segs: x.pathname.split('/').slice(1).map(dec), rawSegs: x.pathname.split('/').slice(1), query: [...x.searchParams], hash: x.hash, hasQuery: merged.includes('?') };
  }
  parts = merged.parts;
  const first = parts[0];
  const m = typeof first === 'string' && /^([a-z][a-z0-9+.-]*:\/\/[^/?#\\]*)(.*)$/is.exec(first);
  let origin;
  let rest;
  if (m && (m[2] !== '' || parts.length === 1)) {
    origin = new URL(m[1]).origin;
    rest = S.mkStr([m[2], ...parts.slice(1)]);
  } else {
    // symbolic base URL: everything before the first concrete '/' after the scheme is not interpreted
    return { origin: null, segs: [], query: [], hash: '', opaque: merged };
  }
  const [beforeHash, hash] = split1(rest, '#');
  const [path, query] = split1(beforeHash, '?');
  const segs = splitAll(path, '/').slice(1).map((s) => decodeSeg(s));
  return { origin, segs, rawSegs: splitAll(path, '/').slice(1), query: query === null ? [] : M.parseQueryRope(query), hash: hash === null ? '' : S.cat('#', hash), hasQuery: query !== null };
}
function split1(s, d) {
  const ps = S.partsOf(s);
  for (let i = 0; i < ps.length; i++)
    if (typeof ps[i] === 'string') {
      const j = ps[i].indexOf(d);
      if (j >= 0) return [S.mkStr([...ps.slice(0, i), ps[i].slice(0, j)]), S.mkStr([ps[i].slice(j + d.length), ...ps.slice(i + 1)])];
    }
  return [s, null];
}
function splitAll(s, d) {
  const out = [];
  let cur = s;
  for (;;) {
    const [a, b] = split1(cur, d);
    out.push(a);
    if (b === null) return out;
    cur = b;
  }
}
function decodeSeg(s) {
  return S.mkStr(
    S.partsOf(s).flatMap((p) => {
      if (typeof p === 'string') {
        try {
          return [decodeURIComponent(p)];
        } catch {
          return [p];
        }
      }
      if (p.k === 'uri') return S.partsOf(p.x);
      if (p.k === 'form') {
        // '+' stays '+' in a path: only equal to the source where the text has no space
        if (S.decide(T.not(T.app('Bool', 'str.contains', S.strTerm(p.x), T.strLit(' '))))) return S.partsOf(p.x);
        return [p];
      }
      return [p];
    }),
  );
}
export { FALSE };
