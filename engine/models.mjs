// Models of the platform objects the SDK uses, over symbolic values.
import * as T from './smt.mjs';
import * as S from './sym.mjs';

const { TRUE, FALSE } = T;
const conc = (v, why) => (v instanceof S.Sym || S.isUnion(v) ? S.concretize(v, why) : v);

// ------------------------------------------------------------------ Headers
function headerName(n) {
  n = conc(S.toStr(n), 'header name');
  if (!/^[!#$%&'*+\-.^_`|~0-9A-Za-z]+$/.test(n)) throw new TypeError(`Headers: ${n} is an invalid header name.`);
  return n.toLowerCase();
}
function headerValue(v) {
  v = S.toStr(v);
  if (typeof v !== 'string') {
    if (S.decide(T.inRe(v.term(), T.RE.headerTight))) return v;
    v = S.concretize(v, 'header value');
  }
  v = v.replace(/^[\t\n\r ]+|[\t\n\r ]+$/g, '');
  for (const c of v) {
    const k = c.charCodeAt(0);
    if (k > 255 || k === 0 || k === 10 || k === 13) throw new TypeError('Headers: invalid header value.');
  }
  return v;
}
export class MHeaders {
  constructor(init) {
    Object.defineProperty(this, 'list', { value: [], enumerable: false, writable: true });
    if (S.isUnion(init)) init = S.force(init);
    if (init === undefined) return;
    if (init === null || (typeof init !== 'object' && typeof init !== 'function') || init instanceof S.Sym)
      throw new TypeError("Headers constructor: init was given by an incompatible value");
    if (init instanceof MHeaders) {
      this.list = init.list.map((e) => [...e]);
    } else if (typeof init[Symbol.iterator] === 'function') {
      for (const pair of init) {
        const p = [...S.$.iter(pair)];
        if (p.length !== 2) throw new TypeError('Headers constructor: expected name/value pair');
        this.append(p[0], p[1]);
      }
    } else {
      for (const k of Object.keys(init)) this.append(k, init[k]);
    }
  }
  get __model() {
    return 'headers';
  }
  append(n, v) {
    n = headerName(n);
    v = headerValue(v);
    const e = this.list.find((x) => x[0] === n);
    if (e && n !== 'set-cookie') e[1] = S.cat(e[1], ', ', v);
    else this.list.push([n, v]);
  }
  set(n, v) {
    n = headerName(n);
    v = headerValue(v);
    const i = this.list.findIndex((x) => x[0] === n);
    if (i < 0) this.list.push([n, v]);
    else {
      this.list[i] = [n, v];
      for (let j = this.list.length - 1; j > i; j--) if (this.list[j][0] === n) this.list.splice(j, 1);
    }
  }
  get(n) {
    n = headerName(n);
    const e = this.list.filter((x) => x[0] === n);
    if (!e.length) return null;
    return e.map((x) => x[1]).reduce((a, b) => S.cat(a, ', ', b));
  }
  has(n) {
    n = headerName(n);
    return this.list.some((x) => x[0] === n);
  }
  delete(n) {
    n = headerName(n);
    for (let j = this.list.length - 1; j >= 0; j--) if (this.list[j][0] === n) this.list.splice(j, 1);
  }
  getSetCookie() {
    return this.list.filter((x) => x[0] === 'set-cookie').map((x) => x[1]);
  }
  __sorted() {
    return [...this.list].map((e) => [...e]).sort((a, b) => (a[0] < b[0] ? -1 : a[0] > b[0] ? 1 : 0));
  }
  entries() {
    return this.__sorted()[Symbol.iterator]();
  }
  keys() {
    return this.__sorted().map((e) => e[0])[Symbol.iterator]();
  }
  values() {
    return this.__sorted().map((e) => e[1])[Symbol.iterator]();
  }
  forEach(f, t) {
    for (const [k, v] of this.__sorted()) S.call(f, [v, k, this], t);
  }
  [Symbol.iterator]() {
    return this.entries();
  }
  get [Symbol.toStringTag]() {
    return 'Headers';
  }
}

// ------------------------------------------------------------------ query strings
const formEnc = (s) => {
  const u = new URLSearchParams();
  u.set('', s);
  return u.toString().slice(1);
};
const formDec = (s) => new URLSearchParams(`=${s.replace(/&/g, '%26')}`).get('') ?? '';
/** split a query rope into name/value ropes; null-free. kind: application/x-www-form-urlencoded */
export function parseQueryRope(q) {
  // tokens: list of entries, each [nameParts, valueParts]
  const out = [];
  let cur = { n: [], v: null };
  const push = () => {
    if (cur.n.length || cur.v) out.push(cur);
    cur = { n: [], v: null };
  };
  const add = (x) => (cur.v ? cur.v : cur.n).push(x);
  for (const p of S.partsOf(q)) {
    if (typeof p === 'string') {
      for (const tok of p.split(/([&=])/)) {
        if (tok === '&') push();
        else if (tok === '=' && cur.v === null) cur.v = [];
        else if (tok !== '') add({ c: tok });
      }
    } else if (p.k === 'form' || p.k === 'uri') {
      for (const x of S.partsOf(p.x)) add({ d: x });
    } else if (p.k === 'num') add({ d: p });
    else {
      if (S.decide(T.inRe(p.t, '(re.* (re.union (re.range "\\u{0}" "\\u{22}") (str.to_re "$") (re.range "\'" "*") (re.range "," "<") (re.range ">" "\\u{ffff}")))'))) add({ d: p });
      else {
        const c = S.concretize(S.mkStr([p]), 'query string');
        for (const tok of c.split(/([&=])/)) {
          if (tok === '&') push();
          else if (tok === '=' && cur.v === null) cur.v = [];
          else if (tok !== '') add({ c: tok });
        }
      }
    }
  }
  push();
  const fin = (xs) => {
    // join adjacent concrete chunks before decoding
    const parts = [];
    let buf = '';
    const flush = () => {
      if (buf) parts.push(formDec(buf));
      buf = '';
    };
    for (const x of xs ?? []) {
      if ('c' in x) buf += x.c;
      else {
        flush();
        parts.push(x.d);
      }
    }
    flush();
    return S.mkStr(parts);
  };
  return out.map((e) => [fin(e.n), fin(e.v)]);
}
export class MSearchParams {
  constructor(init = '') {
    Object.defineProperty(this, 'list', { value: [], enumerable: false, writable: true });
    if (S.isUnion(init)) init = S.force(init);
    if (init === undefined || init === null) init = init === null ? 'null' : '';
    if (typeof init === 'string' || init instanceof S.SymStr) {
      let q = init;
      const f = S.partsOf(q)[0];
      if (typeof f === 'string' ? f.startsWith('?') : f && !['form', 'uri', 'num'].includes(f.k) && S.truthy(q.startsWith('?'))) q = q.slice(1);
      this.list = parseQueryRope(q);
    } else if (init instanceof MSearchParams) this.list = init.list.map((e) => [...e]);
    else if (typeof init[Symbol.iterator] === 'function') {
      for (const e of init) {
        const [k, v] = [...S.$.iter(e)];
        this.append(k, v);
      }
    } else if (typeof init === 'object') {
      for (const k of Object.keys(init)) this.append(k, init[k]);
    } else this.list = parseQueryRope(S.toStr(init));
  }
  __is(a, b) {
    return S.decide(S.strEq(a, b));
  }
  append(k, v) {
    this.list.push([S.toStr(k), S.toStr(v)]);
    this.__upd();
  }
  set(k, v) {
    k = S.toStr(k);
    v = S.toStr(v);
    const i = this.list.findIndex((e) => this.__is(e[0], k));
    if (i < 0) this.list.push([k, v]);
    else {
      this.list[i] = [this.list[i][0], v];
      this.list = this.list.filter((e, j) => j <= i || !this.__is(e[0], k));
    }
    this.__upd();
  }
  get(k) {
    k = S.toStr(k);
    const e = this.list.find((x) => this.__is(x[0], k));
    return e ? e[1] : null;
  }
  getAll(k) {
    k = S.toStr(k);
    return this.list.filter((x) => this.__is(x[0], k)).map((e) => e[1]);
  }
  has(k, v) {
    k = S.toStr(k);
    return this.list.some((x) => this.__is(x[0], k) && (v === undefined || this.__is(x[1], S.toStr(v))));
  }
  delete(k, v) {
    k = S.toStr(k);
    this.list = this.list.filter((x) => !(this.__is(x[0], k) && (v === undefined || this.__is(x[1], S.toStr(v)))));
    this.__upd();
  }
  __upd() {
    if (this.owner) this.owner.__setQuery(this.toString());
  }
  sort() {
    this.list.sort((a, b) => {
      const x = conc(a[0], 'sort');
      const y = conc(b[0], 'sort');
      return x < y ? -1 : x > y ? 1 : 0;
    });
    this.__upd();
  }
  get size() {
    return this.list.length;
  }
  toString() {
    const out = [];
    for (const [k, v] of this.list) {
      if (out.length) out.push('&');
      out.push(enc(k), '=', enc(v));
    }
    return S.cat(...out);
  }
  entries() {
    return this.list.map((e) => [...e])[Symbol.iterator]();
  }
  keys() {
    return this.list.map((e) => e[0])[Symbol.iterator]();
  }
  values() {
    return this.list.map((e) => e[1])[Symbol.iterator]();
  }
  forEach(f, t) {
    for (const [k, v] of this.list) S.call(f, [v, k, this], t);
  }
  [Symbol.iterator]() {
    return this.entries();
  }
}
function enc(s) {
  return typeof s === 'string' ? formEnc(s) : S.encodeRope(s, 'form', formEnc);
}

// ------------------------------------------------------------------ URL (scheme://host must be concrete, else concretised)
export class MURL {
  constructor(u, base) {
    if (S.isUnion(u)) u = S.force(u);
    if (u instanceof MURL) u = u.href;
    u = S.toStr(u);
    if (base !== undefined) {
      const b = base instanceof MURL ? base.href : S.toStr(base);
      const r = new URL(conc(u, 'URL'), conc(b, 'URL'));
      u = r.href;
    }
    const first = S.partsOf(u)[0];
    const m = typeof first === 'string' && /^([a-z][a-z0-9+.-]*:\/\/[^/?#\\]+)([/?#].*|)$/i.exec(first);
    if (!m || (m[2] === '' && S.partsOf(u).length > 1)) {
      const c = new URL(conc(u, 'URL'));
      u = c.href;
      this.__o = c.origin;
    } else {
      this.__o = new URL(m[1]).origin;
      if (typeof u === 'string') u = new URL(u).href;
    }
    const pre = S.partsOf(u)[0].slice(0, /^([a-z][a-z0-9+.-]*:\/\/[^/?#\\]+)/i.exec(S.partsOf(u)[0])[1].length);
    let rest = u.slice(pre.length);
    this.__hash = '';
    this.__q = '';
    const seg = splitRope(rest, '#');
    rest = seg[0];
    if (seg[1] !== null) this.__hash = seg[1];
    const sq = splitRope(rest, '?');
    this.__path = sq[0] === '' ? '/' : sq[0];
    this.__q = sq[1] ?? '';
  }
  get origin() {
    return this.__o;
  }
  get host() {
    return new URL(this.__o).host;
  }
  get hostname() {
    return new URL(this.__o).hostname;
  }
  get protocol() {
    return new URL(this.__o).protocol;
  }
  get pathname() {
    return this.__path;
  }
  set pathname(v) {
    v = S.toStr(v);
    this.__path = S.truthy(S.mkBool(v === '' ? FALSE : TRUE)) && S.truthy(typeof v === 'string' ? v.startsWith('/') : v.startsWith('/')) ? v : S.cat('/', v);
  }
  get search() {
    return this.__q === '' ? '' : S.cat('?', this.__q);
  }
  set search(v) {
    v = S.toStr(v);
    this.__q = S.truthy(typeof v === 'string' ? v.startsWith('?') : v.startsWith('?')) ? v.slice(1) : v;
    this.__sp = undefined;
  }
  __setQuery(q) {
    this.__q = q;
  }
  get searchParams() {
    if (!this.__sp) {
      this.__sp = new MSearchParams(this.__q);
      Object.defineProperty(this.__sp, 'owner', { value: this, enumerable: false });
    }
    return this.__sp;
  }
  get hash() {
    return this.__hash === '' ? '' : S.cat('#', this.__hash);
  }
  get href() {
    return S.cat(this.__o, this.__path, this.search, this.hash);
  }
  toString() {
    return this.href;
  }
  toJSON() {
    return this.href;
  }
  static canParse(...a) {
    return URL.canParse(...a.map((x) => conc(x, 'URL')));
  }
}
/** split a rope at the first occurrence of a delimiter; raw parts are decided */
export function splitRope(s, delim) {
  const parts = S.partsOf(s);
  for (let i = 0; i < parts.length; i++) {
    const p = parts[i];
    if (typeof p === 'string') {
      const j = p.indexOf(delim);
      if (j >= 0) return [S.mkStr([...parts.slice(0, i), p.slice(0, j)]), S.mkStr([p.slice(j + 1), ...parts.slice(i + 1)])];
    } else if (['uri', 'form', 'num', 'b64'].includes(p.k)) continue;
    else if (S.decide(T.app('Bool', 'str.contains', p.t, T.strLit(delim)))) {
      const ix = T.app('Int', 'str.indexof', p.t, T.strLit(delim), T.intLit(0));
      const a = { k: 'raw', t: T.app('String', 'str.substr', p.t, T.intLit(0), ix) };
      const b = { k: 'raw', t: T.app('String', 'str.substr', p.t, T.app('Int', '+', ix, T.intLit(1)), T.app('Int', 'str.len', p.t)) };
      return [S.mkStr([...parts.slice(0, i), a]), S.mkStr([b, ...parts.slice(i + 1)])];
    }
  }
  return [s, null];
}

// ------------------------------------------------------------------ FormData, Blob
export class MFormData {
  constructor() {
    Object.defineProperty(this, 'list', { value: [], enumerable: false, writable: true });
  }
  __val(v, filename) {
    if (S.isUnion(v)) v = S.force(v);
    if (v !== null && typeof v === 'object' && (v.__blob || v instanceof Blob)) return filename === undefined ? v : { __blob: true, of: v, name: S.toStr(filename), type: v.type, size: v.size };
    return S.toStr(v);
  }
  append(n, v, fn) {
    this.list.push([conc(S.toStr(n), 'form field'), this.__val(v, fn)]);
  }
  set(n, v, fn) {
    n = conc(S.toStr(n), 'form field');
    const i = this.list.findIndex((e) => e[0] === n);
    const x = this.__val(v, fn);
    if (i < 0) this.list.push([n, x]);
    else {
      this.list[i] = [n, x];
      this.list = this.list.filter((e, j) => j <= i || e[0] !== n);
    }
  }
  get(n) {
    n = conc(S.toStr(n));
    const e = this.list.find((x) => x[0] === n);
    return e ? e[1] : null;
  }
  getAll(n) {
    n = conc(S.toStr(n));
    return this.list.filter((x) => x[0] === n).map((e) => e[1]);
  }
  has(n) {
    n = conc(S.toStr(n));
    return this.list.some((x) => x[0] === n);
  }
  delete(n) {
    n = conc(S.toStr(n));
    this.list = this.list.filter((x) => x[0] !== n);
  }
  entries() {
    return this.list.map((e) => [...e])[Symbol.iterator]();
  }
  keys() {
    return this.list.map((e) => e[0])[Symbol.iterator]();
  }
  values() {
    return this.list.map((e) => e[1])[Symbol.iterator]();
  }
  forEach(f, t) {
    for (const [k, v] of this.list) S.call(f, [v, k, this], t);
  }
  [Symbol.iterator]() {
    return this.entries();
  }
}

// ------------------------------------------------------------------ bytes
/** kind of part produced by an uninterpreted function over one rope */
function ufRope(kind, rope, native) {
  if (typeof rope === 'string') return native(rope);
  const t = S.uf(kind, rope.term());
  return S.mkStr([{ k: kind, t, x: rope }]);
}
const single = (s, kind) => (s instanceof S.SymStr && s.parts.length === 1 && s.parts[0].k === kind ? s.parts[0].x : null);
const utf8enc = (s) => single(s, 'utf8dec_ok') ?? ufRope('utf8enc', s, T.UFS.utf8enc.native);
const utf8dec = (b) => single(b, 'utf8enc') ?? ufRope('utf8dec', b, T.UFS.utf8dec.native);
const utf8text = (b) => ufRope('utf8text', b, T.UFS.utf8text.native);
export const b64rope = (bin) => ufRope('b64', bin, T.UFS.b64.native);

export class SymBytes {
  constructor(bin) {
    this.bin = bin;
  }
  get length() {
    return this.bin.length;
  }
  get byteLength() {
    return this.bin.length;
  }
  get byteOffset() {
    return 0;
  }
  get buffer() {
    return this;
  }
  get __bytes() {
    return true;
  }
  toString(e) {
    const enc = e === undefined ? 'utf8' : String(conc(e)).toLowerCase();
    if (enc === 'base64') return b64rope(this.bin);
    if (enc === 'utf8' || enc === 'utf-8') return utf8dec(this.bin);
    if (enc === 'binary' || enc === 'latin1') return this.bin;
    return Buffer.from(conc(this.bin, `bytes as ${enc}`), 'latin1').toString(enc);
  }
  slice(a, b) {
    return new SymBytes(this.bin.slice(a, b));
  }
  subarray(a, b) {
    return this.slice(a, b);
  }
  toBase64() {
    return b64rope(this.bin);
  }
  equals(o) {
    return S.mkBool(S.strEq(this.bin, o.bin ?? Buffer.from(o).toString('latin1')));
  }
  toJSON() {
    if (typeof this.bin === 'string') return Buffer.from(this.bin, 'latin1').toJSON();
    // the data array stands for its bytes: equal exactly when they are
    return { type: 'Buffer', data: S.cat('bytes:', this.bin) };
  }
  [Symbol.iterator]() {
    return Buffer.from(conc(this.bin, 'bytes'), 'latin1')[Symbol.iterator]();
  }
  __snap() {
    return ['bytes', this.bin];
  }
}
const toBin = (v) => (v instanceof SymBytes ? v.bin : v instanceof ArrayBuffer ? Buffer.from(v).toString('latin1') : Buffer.from(v.buffer ?? v, v.byteOffset, v.byteLength).toString('latin1'));
const isBytes = (v) => v instanceof SymBytes || v instanceof ArrayBuffer || ArrayBuffer.isView(v);

export const MBuffer = new Proxy(Buffer, {
  get(t, k) {
    if (k === 'from')
      return (v, e, ...r) => {
        if (S.isUnion(v)) v = S.force(v);
        if (v instanceof SymBytes) return v;
        if (v instanceof S.SymStr) {
          const enc = e === undefined ? 'utf8' : String(conc(e)).toLowerCase();
          if (enc === 'utf8' || enc === 'utf-8') return new SymBytes(utf8enc(v));
          if (enc === 'base64') {
            const x = single(v, 'b64');
            if (x !== null) return new SymBytes(x);
          }
          if (enc === 'binary' || enc === 'latin1') {
            if (S.decide(T.inRe(v.term(), T.RE.binary))) return new SymBytes(v);
          }
          if (enc === 'ascii') {
            if (S.decide(T.inRe(v.term(), T.RE.ascii))) return new SymBytes(v);
          }
          return Buffer.from(conc(v, `Buffer.from ${enc}`), enc);
        }
        return Buffer.from(v, conc(e), ...r);
      };
    if (k === 'concat')
      return (xs) => {
        xs = [...S.$.iter(xs)];
        return xs.some((x) => x instanceof SymBytes) ? new SymBytes(S.cat(...xs.map(toBin))) : Buffer.concat(xs);
      };
    if (k === 'isBuffer') return (v) => v instanceof SymBytes || Buffer.isBuffer(v);
    if (k === 'byteLength') return (v, e) => (v instanceof S.SymStr ? S.$.idx(utf8enc(v), 'length') : v instanceof SymBytes ? v.byteLength : Buffer.byteLength(v, e));
    const r = Reflect.get(t, k);
    return r;
  },
  construct(t, args) {
    return MBuffer.from(...args);
  },
});
export class MUint8Array {
  constructor(v, ...r) {
    if (S.isUnion(v)) v = S.force(v);
    if (v instanceof SymBytes) return v;
    return new Uint8Array(conc(v), ...r);
  }
  static from(v, ...r) {
    return v instanceof SymBytes ? v : Uint8Array.from(v, ...r);
  }
  static [Symbol.hasInstance](v) {
    return v instanceof SymBytes || v instanceof Uint8Array;
  }
}
export class MTextDecoder {
  constructor(label = 'utf-8', opts = {}) {
    this.label = String(conc(label)).toLowerCase();
    this.opts = opts ?? {};
  }
  decode(v) {
    if (S.isUnion(v)) v = S.force(v);
    if (v instanceof SymBytes) {
      if (['utf-8', 'utf8'].includes(this.label) && !S.truthy(this.opts.fatal)) return S.truthy(this.opts.ignoreBOM) ? utf8dec(v.bin) : utf8text(v.bin);
      return new TextDecoder(this.label, { fatal: S.truthy(this.opts.fatal), ignoreBOM: S.truthy(this.opts.ignoreBOM) }).decode(Buffer.from(conc(v.bin, 'TextDecoder'), 'latin1'));
    }
    return new TextDecoder(this.label).decode(v);
  }
}
export class MTextEncoder {
  encode(v = '') {
    v = S.toStr(v);
    return typeof v === 'string' ? new TextEncoder().encode(v) : new SymBytes(utf8enc(v));
  }
}
export function mbtoa(v) {
  v = S.toStr(v);
  if (typeof v === 'string') return btoa(v);
  if (!S.decide(T.inRe(v.term(), T.RE.binary))) throw new DOMException('Invalid character', 'InvalidCharacterError');
  return b64rope(v);
}
export function matob(v) {
  v = S.toStr(v);
  if (typeof v === 'string') return atob(v);
  return single(v, 'b64') ?? atob(conc(v, 'atob'));
}
/** Response body decoding */
export const bodyText = (bin) => utf8text(bin);
void isBytes;

// ------------------------------------------------------------------ Request (only what a fetch wrapper would use)
export class MRequest {
  constructor(input, init = {}) {
    const src = input instanceof MRequest ? input : null;
    this.url = src ? src.url : input instanceof MURL ? input.href : S.toStr(input);
    const i = init ?? {};
    this.method = i.method ?? src?.method ?? 'GET';
    this.headers = new MHeaders(i.headers ?? src?.headers);
    this.body = i.body ?? src?.body ?? null;
    this.signal = i.signal ?? null;
  }
}
