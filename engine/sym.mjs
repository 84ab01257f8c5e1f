// Symbolic values and the runtime `$` that instrumented code calls.
import * as T from './smt.mjs';

const { TRUE, FALSE } = T;

// ------------------------------------------------------------------ path state
export class PathAbort {
  constructor(why, detail) {
    this.why = why;
    this.detail = detail;
  }
}
export class EngineError extends Error {
  constructor(m) {
    super(m);
    if (ctx.path && !ctx.path.engineError) ctx.path.engineError = this;
  }
}
class RegexUnsupported extends Error {}

export const ctx = {
  solver: null,
  path: null, // current path
  dictionary: [],
  modelMs: 12_000,
  hints: ['re_x y', ' A b ', 'a@b.c/d?e=1&f#g%20', 'é✓', '\u00ff', '\u00ef\u00bb\u00bfa', 'Fwd: x', '0', 'x'],
  functions: new Map(), // function name -> hit count
  maxLoop: 4000,
  totals: { decisions: 0, forks: 0, asserts: 0, assertQueries: 0, trivialAsserts: 0, concretised: 0, unknown: 0 },
};

export function newPath(prefix) {
  return {
    prefix, decisions: [], idx: 0, pc: [], known: new Map(), alts: [], apps: new Map(), fresh: 0,
    inputs: new Map(), jsonIds: 0, jsonKnown: new Set(), violations: [], proved: [], incomplete: [], aborted: null, loops: 0, onAbort: null,
    observations: [], assertLabels: new Set(), trace: [],
  };
}
const P = () => {
  const p = ctx.path;
  if (!p) throw new EngineError('no current path');
  if (p.aborted) throw p.aborted;
  return p;
};
export function abort(why, detail) {
  const p = ctx.path;
  const e = new PathAbort(why, detail);
  if (p && !p.aborted) {
    p.aborted = e;
    if (p.onAbort) p.onAbort(e);
  }
  throw e;
}
export const checkAlive = () => void P();

// ------------------------------------------------------------------ uf apps, variables, slicing
const varCache = new Map();
function varsOf(text) {
  let s = varCache.get(text);
  if (!s) {
    s = new Set(text.match(/\|[^|]*\|/g) ?? []);
    // do not confuse string literals containing '|': literals are escaped before (see smtString)
    if (varCache.size > 200000) varCache.clear();
    varCache.set(text, s);
  }
  return s;
}
export function uf(name, ...args) {
  const u = T.UFS[name];
  if (args.every(T.isLit)) {
    const v = u.native(...args.map((a) => a.lit));
    return u.res === 'String' ? T.strLit(v) : u.res === 'Bool' ? (v ? TRUE : FALSE) : T.intLit(v);
  }
  const t = T.app(u.res, `uf_${name}`, ...args);
  const p = ctx.path;
  if (p && !p.apps.has(t.t)) {
    t.ufapp = { name, args, t };
    p.apps.set(t.t, t.ufapp);
  }
  return t;
}
export function freshVar(sort, hint = 'k') {
  const p = P();
  const name = `!${hint}${p.fresh++}`;
  ctx.solver.declare(name + ':' + sort, sort);
  return T.variable(sort, name + ':' + sort);
}

function appsIn(texts, p) {
  // fixpoint: apps whose text occurs in the given texts (their own facts only mention themselves and args)
  const joined = texts.join(' ');
  const out = [];
  for (const [txt, a] of p.apps) if (joined.includes(txt)) out.push(a);
  return out;
}
function factsFor(apps) {
  const out = [];
  const byName = new Map();
  for (const a of apps) {
    const u = T.UFS[a.name];
    for (const f of u.facts(a.t, a.args)) if (f !== TRUE) out.push(f.t);
    if (!byName.has(a.name)) byName.set(a.name, []);
    byName.get(a.name).push(a);
  }
  for (const [n, list] of byName) {
    if (!T.UFS[n].inj) continue;
    for (let i = 0; i < list.length; i++)
      for (let j = i + 1; j < list.length; j++) {
        const a = list[i];
        const b = list[j];
        out.push(`(=> (= ${a.t.t} ${b.t.t}) (= ${a.args[0].t} ${b.args[0].t}))`);
      }
  }
  return out;
}
function slice(extraText, p) {
  const seen = new Set(varsOf(extraText));
  let rest = p.pc;
  const out = [];
  let changed = true;
  while (changed) {
    changed = false;
    const next = [];
    for (const t of rest) {
      const vs = varsOf(t);
      let hit = vs.size === 0;
      for (const v of vs)
        if (seen.has(v)) {
          hit = true;
          break;
        }
      if (hit) {
        out.push(t);
        for (const v of vs) if (!seen.has(v)) seen.add(v);
        changed = true;
      } else next.push(t);
    }
    rest = next;
  }
  // keep the original order for caching
  const set = new Set(out);
  return p.pc.filter((t) => set.has(t));
}
export function query(term) {
  const p = ctx.path;
  const cone = slice(term.t, p);
  const texts = [...cone, term.t];
  const apps = appsIn(texts, p);
  return ctx.solver.check([...texts, ...factsFor(apps)]);
}
/**
 * Model with CEGAR over the uninterpreted functions. A solver model is kept only when every application has its real value; a wrong
 * one becomes a lemma. After some plain rounds the search is steered: the arguments of the functions are restricted to sampled values,
 * then the string inputs are fixed to sampled values one after the other. (This only finds models; 'unsat' always comes from the
 * unrestricted constraints.)
 */
export function solveModel(extraTerms, inputTerms, { full = true } = {}) {
  const p = ctx.path;
  const texts = full ? [...p.pc] : slice(extraTerms.map((t) => t.t).join(' '), p);
  for (const t of extraTerms) texts.push(t.t);
  const apps = appsIn(texts, p);
  // apps that only appear inside other apps are found too, since app text contains the argument text
  const facts = factsFor(apps);
  const asserts = [...texts, ...facts];
  const wanted = [...inputTerms];
  const probe = [];
  for (const a of apps) probe.push(a.t, ...a.args);
  const hints = [...ctx.hints, ...ctx.dictionary];
  const native = (a, av) => {
    try {
      return T.UFS[a.name].native(...av);
    } catch {
      return undefined;
    }
  };
  const t0 = performance.now();
  const late = () => performance.now() - t0 > ctx.modelMs;
  let last = null;
  /** a model under extra constraints: {result: 'sat', values} when all applications have their real values, 'wrong' when not yet */
  const attempt = (extra, rounds) => {
    let r = null;
    for (let round = 0; round < rounds; round++) {
      r = ctx.solver.model([...asserts, ...extra], [...wanted, ...probe]);
      if (r.result !== 'sat') return r;
      last = r;
      const lemmas = [];
      let k = wanted.length;
      for (const a of apps) {
        const rv = r.values[k++];
        const av = a.args.map(() => r.values[k++]);
        if (av.some((x) => x === undefined) || rv === undefined) continue;
        const nv = native(a, av);
        if (nv !== undefined && nv !== rv) lemmas.push(pointLemma(a.name, av, nv));
      }
      if (lemmas.length === 0) return { result: 'sat', values: r.values.slice(0, wanted.length) };
      ctx.solver.addLemmas(lemmas);
      if (late()) break;
    }
    return { result: 'wrong' };
  };
  let r = attempt([], 4);
  if (r.result === 'sat' || r.result === 'unsat') return r;
  const joined = asserts.join(' ');
  // restrict the arguments of the functions to sampled values whose images are known
  const byArgs = [];
  for (const a of apps) {
    if (a.args.length !== 1 || a.args[0].s !== 'String' || a.args[0].t.includes('(uf_')) continue;
    const rows = [];
    for (const h of hints) {
      const nv = native(a, [h]);
      if (nv !== undefined) rows.push(`(and (= ${a.args[0].t} ${T.smtString(h)}) (= ${a.t.t} ${lit(T.UFS[a.name].res, nv).t}))`);
    }
    if (rows.length) byArgs.push(`(or ${rows.join(' ')})`);
  }
  if (byArgs.length && r.result === 'wrong') {
    r = attempt(byArgs, 4);
    if (r.result === 'sat') return r;
  }
  // fix the string inputs to sampled values, one after the other
  const fixed = [];
  for (const t of p.inputs.values()) {
    if (t.s !== 'String' || !joined.includes(t.t)) continue;
    let maybe = null;
    for (const h of hints) {
      if (late()) break;
      const c = `(= ${t.t} ${T.smtString(h)})`;
      const images = [];
      for (const a of apps) {
        if (a.args.length !== 1 || a.args[0].t !== t.t) continue;
        const nv = native(a, [h]);
        if (nv !== undefined) images.push(`(= ${a.t.t} ${lit(T.UFS[a.name].res, nv).t})`);
      }
      r = attempt([...fixed, c, ...images], 3);
      if (r.result === 'sat') return r;
      if (r.result === 'unsat') continue;
      if (r.result === 'wrong') {
        maybe = [c, ...images];
        break;
      }
      maybe ??= [c, ...images];
    }
    if (maybe) fixed.push(...maybe);
  }
  r = late() ? { result: 'unknown' } : attempt([], 12);
  if (r.result === 'sat' || r.result === 'unsat') return r;
  return { result: 'unknown', values: last?.values.slice(0, wanted.length) };
}
/** the value of an uninterpreted function at a point */
function pointLemma(name, av, nv) {
  return `(= (uf_${name} ${av.map((x, i) => lit(T.UFS[name].sig[i], x).t).join(' ')}) ${lit(T.UFS[name].res, nv).t})`;
}
export function lit(sort, v) {
  if (sort === 'String') return T.strLit(v);
  if (sort === 'Int') return T.intLit(v);
  if (sort === 'Real') return T.realLit(v);
  return v ? TRUE : FALSE;
}

// ------------------------------------------------------------------ decisions
export function addPC(t) {
  if (t === TRUE) return;
  const p = ctx.path;
  p.pc.push(t.t);
  p.known.set(t.t, true);
  const n = T.not(t);
  p.known.set(n.t, false);
  if (t.t.startsWith('(and ') && t.conj) for (const c of t.conj) p.known.set(c.t, true);
}
export function assume(term) {
  const p = P();
  term = termOf(term);
  if (term === TRUE) return;
  if (term === FALSE) abort('infeasible');
  if (p.known.get(term.t) === true) return;
  addPC(term);
  if (p.idx >= p.prefix.length && query(TRUE_OR(term)) === 'unsat') abort('infeasible');
}
const TRUE_OR = (t) => t;

/** Decide a Bool term, forking when both outcomes are feasible. */
export function decide(term) {
  if (typeof term === 'boolean') return term;
  if (term.lit !== undefined) return term.lit;
  const p = P();
  const k = p.known.get(term.t);
  if (k !== undefined) return k;
  ctx.totals.decisions++;
  const rec = (d) => {
    p.decisions.push(d);
    addPC(d.v ? term : T.not(term));
    return d.v;
  };
  if (p.idx < p.prefix.length) {
    const d = p.prefix[p.idx++];
    if (d.k !== 'b' || (d.h !== undefined && d.h !== hash(term.t)))
      throw new EngineError(`non-deterministic replay at ${p.idx - 1}: ${JSON.stringify(d)} vs ${term.t.slice(0, 200)}`);
    return rec(d);
  }
  const rT = query(term);
  if (rT === 'unsat') return rec({ k: 'b', v: false, h: hash(term.t), f: 1 });
  const rF = query(T.not(term));
  if (rF === 'unsat') return rec({ k: 'b', v: true, h: hash(term.t), f: 1 });
  if (rT === 'unknown' || rF === 'unknown') ctx.totals.unknown++;
  ctx.totals.forks++;
  const h = hash(term.t);
  p.alts.push([...p.decisions, { k: 'b', v: false, h }]);
  return rec({ k: 'b', v: true, h });
}
function hash(s) {
  let h = 0;
  for (let i = 0; i < s.length; i++) h = (h * 31 + s.charCodeAt(i)) | 0;
  return h;
}
/** Non-deterministic concrete choice 0..n-1 (harness level). */
export function choose(n, name = 'choice') {
  const p = P();
  if (n <= 1) {
    p.trace.push([name, 0]);
    return 0;
  }
  let d;
  if (p.idx < p.prefix.length) {
    d = p.prefix[p.idx++];
    if (d.k !== 'c') throw new EngineError('non-deterministic replay (choice)');
  } else {
    ctx.totals.forks++;
    for (let i = n - 1; i > 0; i--) p.alts.push([...p.decisions, { k: 'c', v: i }]);
    d = { k: 'c', v: 0 };
  }
  p.decisions.push(d);
  p.trace.push([name, d.v]);
  return d.v;
}

/** Fall back to concrete values for something the engine has no model for (marks the path incomplete). */
export function concretize(v, why = 'native') {
  if (isUnion(v)) v = force(v);
  if (v instanceof SymBool) return decide(v.t);
  let term;
  if (v instanceof SymStr) term = v.term();
  else if (v instanceof SymNum) term = v.t;
  else return v;
  const p = P();
  if (!p.incomplete.includes(`concretised:${why}`)) p.incomplete.push(`concretised:${why}`);
  ctx.totals.concretised++;
  let d;
  if (p.idx < p.prefix.length) {
    d = p.prefix[p.idx++];
    if (d.k !== 'v') throw new EngineError('non-deterministic replay (value)');
  } else {
    const cands = [];
    const m = solveModel([T.eq(term, term).lit ? TRUE : T.or(T.eq(term, term), TRUE)].filter((t) => t !== TRUE), [term]);
    if (m.result === 'sat') cands.push(m.values[0]);
    else if (m.result === 'unsat') abort('infeasible');
    if (term.s === 'String') {
      for (const h of ctx.hints.slice(0, 4)) {
        if (cands.length >= 3) break;
        if (cands.includes(h)) continue;
        const mm = solveModel([T.eq(term, T.strLit(h))], [term]);
        if (mm.result === 'sat') cands.push(h);
      }
    } else {
      const mm = solveModel([T.not(T.eq(term, lit(term.s, cands[0] ?? 0)))], [term]);
      if (mm.result === 'sat') cands.push(mm.values[0]);
      // one number of each of several magnitudes
      for (const v of term.s === 'Int' ? [0, -1, 25, 101, 1234, 3_000_000_000] : [0, 0.5, -1, 101, 1234, 3_000_000_000]) {
        if (cands.includes(v) || cands.some((c) => Math.abs(c) > 10 && v > 10 && String(c).length === String(v).length)) continue;
        if (solveModel([T.eq(term, lit(term.s, v))], [term]).result === 'sat') cands.push(v);
      }
    }
    if (cands.length === 0) abort('unknown', 'no concrete value');
    for (let i = cands.length - 1; i > 0; i--) p.alts.push([...p.decisions, { k: 'v', v: cands[i] }]);
    d = { k: 'v', v: cands[0] };
  }
  p.decisions.push(d);
  addPC(T.eq(term, lit(term.s, d.v)));
  return d.v;
}

// ------------------------------------------------------------------ symbolic primitives
export class Sym {}

export class SymBool extends Sym {
  constructor(t) {
    super();
    this.t = t;
  }
  toString() {
    return decide(this.t) ? 'true' : 'false';
  }
  valueOf() {
    return this;
  }
  [Symbol.toPrimitive]() {
    return decide(this.t);
  }
}
export const mkBool = (t) => (typeof t === 'boolean' ? t : t.lit !== undefined ? t.lit : new SymBool(t));

export class SymNum extends Sym {
  constructor(t) {
    super();
    this.t = t;
  }
  toString(radix) {
    if (radix !== undefined && radix !== 10) return concretize(this, 'number radix').toString(radix);
    return numToStr(this);
  }
  toFixed(...a) {
    return concretize(this, 'toFixed').toFixed(...a);
  }
  toLocaleString(...a) {
    return concretize(this, 'toLocaleString').toLocaleString(...a);
  }
  valueOf() {
    return this;
  }
  [Symbol.toPrimitive]() {
    return concretize(this, 'toPrimitive');
  }
}
export function mkNum(t) {
  return t.lit !== undefined ? t.lit : new SymNum(t);
}
function numToStr(n) {
  if (typeof n === 'number') return String(n);
  if (n.t.s === 'Real') return mkStr([{ k: 'num', t: uf('numstrR', n.t), n }]);
  return mkStr([{ k: 'num', t: uf('numstr', n.t), n }]);
}
/** the number of digits of a printed non-negative integer, where the path fixes it; otherwise 0 */
function digitsOf(p) {
  if (typeof p === 'string' || p.k !== 'num' || p.n.t.s === 'Real') return 0;
  for (let d = 1; d < 14; d++) {
    const inside = T.and(T.app('Bool', '<=', T.intLit(d === 1 ? 0 : 10 ** (d - 1)), p.n.t), T.app('Bool', '<', p.n.t, T.intLit(10 ** d)));
    const r = query(inside);
    if (r === 'unsat') continue;
    return r === 'sat' && query(T.not(inside)) === 'unsat' ? d : 0;
  }
  return 0;
}
function numLike(t, n) {
  return t.s === 'Real' ? T.realLit(n) : T.intLit(n);
}
const numTerm = (v) => (v instanceof SymNum ? v.t : Number.isInteger(v) ? T.intLit(v) : T.realLit(v));

// ropes -----------------------------------------------------------------
export function mkStr(parts) {
  const out = [];
  for (const p of parts) {
    if (typeof p === 'string') {
      if (p === '') continue;
      if (out.length && typeof out[out.length - 1] === 'string') out[out.length - 1] += p;
      else out.push(p);
    } else out.push(p);
  }
  if (out.length === 0) return '';
  if (out.length === 1 && typeof out[0] === 'string') return out[0];
  return new SymStr(out);
}
export const partsOf = (s) => (typeof s === 'string' ? (s === '' ? [] : [s]) : s.parts);
export const strTerm = (s) => (typeof s === 'string' ? T.strLit(s) : s.term());
export const rawStr = (t, k = 'raw', x = undefined) => (t.lit !== undefined ? t.lit : mkStr([{ k, t, x }]));
export const cat = (...xs) => mkStr(xs.flatMap(partsOf));

/** Equality of two (possibly symbolic) strings as a term. */
export function strEq(a, b) {
  if (typeof a === 'string' && typeof b === 'string') return a === b ? TRUE : FALSE;
  let pa = [...partsOf(a)];
  let pb = [...partsOf(b)];
  const same = (x, y) => x === y || (typeof x !== 'string' && typeof y !== 'string' && x.t.t === y.t.t);
  // strip common prefix
  for (;;) {
    if (!pa.length || !pb.length) break;
    if (same(pa[0], pb[0])) {
      pa.shift();
      pb.shift();
      continue;
    }
    if (typeof pa[0] === 'string' && typeof pb[0] === 'string') {
      const n = Math.min(pa[0].length, pb[0].length);
      if (pa[0].slice(0, n) !== pb[0].slice(0, n)) return FALSE;
      pa[0] = pa[0].slice(n);
      pb[0] = pb[0].slice(n);
      if (!pa[0]) pa.shift();
      if (pb.length && !pb[0]) pb.shift();
      continue;
    }
    break;
  }
  for (;;) {
    if (!pa.length || !pb.length) break;
    const la = pa.length - 1;
    const lb = pb.length - 1;
    if (same(pa[la], pb[lb])) {
      pa.pop();
      pb.pop();
      continue;
    }
    if (typeof pa[la] === 'string' && typeof pb[lb] === 'string') {
      const n = Math.min(pa[la].length, pb[lb].length);
      if (pa[la].slice(-n) !== pb[lb].slice(-n)) return FALSE;
      pa[la] = pa[la].slice(0, -n);
      pb[lb] = pb[lb].slice(0, -n);
      if (!pa[la]) pa.pop();
      if (pb.length && pb[lb] === '') pb.pop();
      continue;
    }
    break;
  }
  if (!pa.length && !pb.length) return TRUE;
  // single encoded parts of the same injective kind
  if (pa.length === 1 && pb.length === 1 && typeof pa[0] !== 'string' && typeof pb[0] !== 'string') {
    const [x, y] = [pa[0], pb[0]];
    if (x.k === y.k && x.x !== undefined && y.x !== undefined && ['uri', 'form', 'b64'].includes(x.k)) return strEq(x.x, y.x);
    if (x.k === 'num' && y.k === 'num') return T.eq(x.n.t, y.n.t);
    if (x.k === 'json' && y.k === 'json' && x.snap && y.snap) return jsonEqSnap(x.snap, y.snap);
  }
  // emptiness: a rope is empty only if all its parts are
  if (!pa.length || !pb.length) {
    const r = pa.length ? pa : pb;
    if (r.some((x) => typeof x === 'string' || x.nonEmpty || x.k === 'json' || x.k === 'num')) return FALSE;
    return T.and(r.map((x) => T.eq(x.t, T.strLit(''))));
  }
  const ta = T.concat(pa.map((x) => (typeof x === 'string' ? T.strLit(x) : x.t)));
  const tb = T.concat(pb.map((x) => (typeof x === 'string' ? T.strLit(x) : x.t)));
  return T.eq(ta, tb);
}

export class SymStr extends Sym {
  constructor(parts) {
    super();
    this.parts = parts;
  }
  term() {
    if (!this._t) {
      for (const p of this.parts) if (p.k === 'json') jsonKnown(p);
      this._t = T.concat(this.parts.map((p) => (typeof p === 'string' ? T.strLit(p) : p.t)));
    }
    return this._t;
  }
  get length() {
    let n = 0;
    const ts = [];
    for (const p of this.parts) {
      if (typeof p === 'string') n += p.length;
      else ts.push(T.app('Int', 'str.len', p.t));
    }
    if (n) ts.push(T.intLit(n));
    const r = new SymNum(ts.length === 1 ? ts[0] : T.app('Int', '+', ...ts));
    r.lenOf = this;
    r.lenMin = n;
    return r;
  }
  toString() {
    return this;
  }
  valueOf() {
    return this;
  }
  toJSON() {
    return this;
  }
  [Symbol.toPrimitive]() {
    return concretize(this, 'toPrimitive');
  }
  [Symbol.iterator]() {
    return concretize(this, 'string iteration')[Symbol.iterator]();
  }
  concat(...xs) {
    return cat(this, ...xs.map(toStr));
  }
  // --- tests
  startsWith(s, pos) {
    if (pos !== undefined && pos !== 0) return this.slice(pos).startsWith(s);
    s = toStr(s);
    if (typeof s === 'string') {
      if (s === '') return true;
      const f = this.parts[0];
      if (typeof f === 'string') {
        if (f.length >= s.length) return f.startsWith(s);
        if (!s.startsWith(f)) return false;
        return callStr(mkStr(this.parts.slice(1)), 'startsWith', s.slice(f.length));
      }
    }
    return mkBool(T.app('Bool', 'str.prefixof', strTerm(s), this.term()));
  }
  endsWith(s, pos) {
    if (pos !== undefined) return callStr(this.slice(0, pos), 'endsWith', s);
    s = toStr(s);
    if (typeof s === 'string') {
      if (s === '') return true;
      const f = this.parts[this.parts.length - 1];
      if (typeof f === 'string') {
        if (f.length >= s.length) return f.endsWith(s);
        if (!s.endsWith(f)) return false;
        return callStr(mkStr(this.parts.slice(0, -1)), 'endsWith', s.slice(0, s.length - f.length));
      }
    }
    return mkBool(T.app('Bool', 'str.suffixof', strTerm(s), this.term()));
  }
  includes(s, pos) {
    if (pos) return callStr(this.slice(pos), 'includes', s);
    if (s instanceof RegExp) throw new TypeError('First argument to String.prototype.includes must not be a regular expression');
    s = toStr(s);
    if (typeof s === 'string' && this.parts.some((p) => typeof p === 'string' && p.includes(s))) return true;
    if (typeof s === 'string' && s.length === 1) {
      // single character: decided part by part, encoded parts have a known alphabet
      const rest = this.parts.filter((p) => typeof p !== 'string' && !partLacks(p, s));
      if (rest.length === 0) return false;
      return mkBool(T.or(rest.map((p) => T.app('Bool', 'str.contains', p.t, T.strLit(s)))));
    }
    return mkBool(T.app('Bool', 'str.contains', this.term(), strTerm(s)));
  }
  indexOf(s, from = 0) {
    s = toStr(s);
    if (typeof s === 'string' && from === 0 && typeof this.parts[0] === 'string') {
      const i = this.parts[0].indexOf(s);
      if (i >= 0) return i;
    }
    return mkNum(T.app('Int', 'str.indexof', this.term(), strTerm(s), numTerm(from)));
  }
  lastIndexOf(s) {
    if (!truthy(this.includes(s))) return -1;
    return concretize(this, 'lastIndexOf').lastIndexOf(concretize(s));
  }
  search(re) {
    return truthy(reTest(re, this)) ? concretize(this, 'search').search(re) : -1;
  }
  match(re) {
    if (re instanceof RegExp) {
      const t = reTest(re, this);
      if (!truthy(t)) return null;
    }
    return concretize(this, 'match').match(re);
  }
  matchAll(re) {
    return concretize(this, 'matchAll').matchAll(re);
  }
  at(i) {
    return i < 0 ? this.slice(i, i === -1 ? undefined : i + 1) : this.slice(i, i + 1);
  }
  charAt(i = 0) {
    return this.slice(i, i + 1);
  }
  charCodeAt(i = 0) {
    const c = this.slice(i, i + 1);
    if (typeof c === 'string') return c.charCodeAt(0);
    if (truthy(mkBool(strEq(c, '')))) return Number.NaN;
    return mkNum(T.app('Int', 'str.to_code', strTerm(c)));
  }
  codePointAt(i = 0) {
    const r = this.charCodeAt(i);
    return typeof r === 'number' && Number.isNaN(r) ? undefined : r;
  }
  // --- slicing
  slice(a = 0, b = undefined) {
    a = asIndex(a);
    b = b === undefined ? undefined : asIndex(b);
    if (typeof a === 'number' && a >= 0 && b === undefined) return this._drop(a);
    if (a === 0 && typeof b === 'number' && b >= 0) return this._take(b);
    if (typeof a === 'number' && typeof b === 'number' && a >= 0 && b >= 0) {
      const r = this._drop(a);
      return typeof r === 'string' ? r.slice(0, Math.max(0, b - a)) : r._take(Math.max(0, b - a));
    }
    if (a === 0 && typeof b === 'number' && b < 0) {
      const l = this.parts[this.parts.length - 1];
      if (typeof l === 'string' && l.length >= -b) return mkStr([...this.parts.slice(0, -1), l.slice(0, b)]);
    }
    const len = this.length.t;
    const zero = T.intLit(0);
    const norm = (x) => {
      if (x === undefined) return len;
      const t = numTerm(x);
      if (t.lit !== undefined && t.lit >= 0) return T.ite(T.app('Bool', '>', t, len), len, t);
      const neg = T.app('Int', '+', len, t);
      const n = T.ite(T.app('Bool', '<', neg, zero), zero, neg);
      if (t.lit !== undefined) return n;
      return T.ite(T.app('Bool', '<', t, zero), n, T.ite(T.app('Bool', '>', t, len), len, t));
    };
    const s = norm(a);
    const e = norm(b);
    return rawStr(T.app('String', 'str.substr', this.term(), s, T.app('Int', '-', e, s)));
  }
  _drop(n) {
    if (n === 0) return this;
    const f = this.parts[0];
    const d = digitsOf(f);
    if (d > 0 && d <= n) {
      const rest = mkStr(this.parts.slice(1));
      return typeof rest === 'string' ? rest.slice(n - d) : rest._drop(n - d);
    }
    if (typeof f === 'string') {
      if (f.length > n) return mkStr([f.slice(n), ...this.parts.slice(1)]);
      const rest = mkStr(this.parts.slice(1));
      return n === f.length ? rest : typeof rest === 'string' ? rest.slice(n - f.length) : rest._drop(n - f.length);
    }
    const len = T.app('Int', 'str.len', f.t);
    // the first part is long enough, or the general form
    const general = () => {
      const t = this.term();
      return rawStr(T.app('String', 'str.substr', t, T.intLit(n), T.app('Int', 'str.len', t)));
    };
    if (this.parts.length === 1) return general();
    if (query(T.app('Bool', '<', len, T.intLit(n))) === 'unsat')
      return mkStr([{ k: 'raw', t: T.app('String', 'str.substr', f.t, T.intLit(n), len) }, ...this.parts.slice(1)]);
    return general();
  }
  _take(n) {
    if (n === 0) return '';
    const f = this.parts[0];
    if (typeof f === 'string') {
      if (f.length >= n) return f.slice(0, n);
      const rest = mkStr(this.parts.slice(1));
      return cat(f, typeof rest === 'string' ? rest.slice(0, n - f.length) : rest._take(n - f.length));
    }
    const d = digitsOf(f);
    if (d > 0) {
      if (d > n) return numToStr(mkNum(T.app('Int', 'div', f.n.t, T.intLit(10 ** (d - n)))));
      const rest = mkStr(this.parts.slice(1));
      return cat(mkStr([f]), typeof rest === 'string' ? rest.slice(0, n - d) : rest._take(n - d));
    }
    return rawStr(T.app('String', 'str.substr', this.term(), T.intLit(0), T.intLit(n)));
  }
  substring(a = 0, b = undefined) {
    a = asIndex(a);
    b = b === undefined ? undefined : asIndex(b);
    if (typeof a === 'number' && (b === undefined || typeof b === 'number')) {
      a = Math.max(0, a || 0);
      if (b !== undefined) b = Math.max(0, b || 0);
      if (b !== undefined && b < a) [a, b] = [b, a];
      return this.slice(a, b);
    }
    if (truthy(bin('<', a, 0))) a = 0;
    if (b !== undefined && truthy(bin('<', b, 0))) b = 0;
    if (b !== undefined && truthy(bin('<', b, a))) [a, b] = [b, a];
    return this.slice(a, b);
  }
  substr(a = 0, n = undefined) {
    if (n === undefined) return this.slice(a);
    if (typeof a === 'number' && a >= 0 && typeof n === 'number') return this.slice(a, a + n);
    return concretize(this, 'substr').substr(concretize(a), concretize(n));
  }
  split(sep, limit) {
    if (sep === undefined) return [this];
    if (sep instanceof RegExp || sep === '') {
      if (sep instanceof RegExp && !truthy(reTest(sep, this))) return [this];
      return concretize(this, 'split').split(sep, limit);
    }
    sep = concretize(toStr(sep), 'split separator');
    const out = [[]];
    for (const p of this.parts) {
      if (typeof p === 'string') {
        const xs = p.split(sep);
        out[out.length - 1].push(xs[0]);
        for (const x of xs.slice(1)) out.push([x]);
      } else {
        if (partLacks(p, sep)) {
          out[out.length - 1].push(p);
          continue;
        }
        let cur = p;
        for (let i = 0; ; i++) {
          if (!decide(T.app('Bool', 'str.contains', cur.t, T.strLit(sep)))) {
            out[out.length - 1].push(cur);
            break;
          }
          if (i >= 3) abort('bound', 'split');
          const ix = T.app('Int', 'str.indexof', cur.t, T.strLit(sep), T.intLit(0));
          out[out.length - 1].push({ k: 'raw', t: T.app('String', 'str.substr', cur.t, T.intLit(0), ix) });
          cur = { k: 'raw', t: T.app('String', 'str.substr', cur.t, T.app('Int', '+', ix, T.intLit(sep.length)), T.app('Int', 'str.len', cur.t)) };
          out.push([]);
        }
      }
    }
    const r = out.map(mkStr);
    return limit === undefined ? r : r.slice(0, limit);
  }
  // --- transformations
  _trim(start, end, wsRe = T.RE.ws) {
    const t = this.term();
    const first = this.parts[0];
    const last = this.parts[this.parts.length - 1];
    const tight = (s) => typeof s === 'string' && s.trim() === s;
    if ((!start || tight(first)) && (!end || tight(last))) return this;
    const cond = T.inRe(t, `(re.union (str.to_re "") ${start ? `(re.++ ${T.RE.nonWs} re.all)` : 're.all'})`);
    const cond2 = T.inRe(t, `(re.union (str.to_re "") ${end ? `(re.++ re.all ${T.RE.nonWs})` : 're.all'})`);
    if (decide(T.and(start ? cond : TRUE, end ? cond2 : TRUE))) return this;
    const w1 = freshVar('String', 'ws');
    const r = freshVar('String', 'tr');
    const w2 = freshVar('String', 'ws');
    assume(T.eq(t, T.concat([w1, r, w2])));
    assume(start ? T.inRe(w1, `(re.* ${wsRe})`) : T.eq(w1, T.strLit('')));
    assume(end ? T.inRe(w2, `(re.* ${wsRe})`) : T.eq(w2, T.strLit('')));
    if (start) assume(T.inRe(r, `(re.union (str.to_re "") (re.++ ${T.RE.nonWs} re.all))`));
    if (end) assume(T.inRe(r, `(re.union (str.to_re "") (re.++ re.all ${T.RE.nonWs}))`));
    return rawStr(r);
  }
  trim() {
    return this._trim(true, true);
  }
  trimStart() {
    return this._trim(true, false);
  }
  trimEnd() {
    return this._trim(false, true);
  }
  toLowerCase() {
    return this._map('lower', (s) => s.toLowerCase());
  }
  toUpperCase() {
    return this._map('upper', (s) => s.toUpperCase());
  }
  toLocaleLowerCase() {
    return this.toLowerCase();
  }
  toLocaleUpperCase() {
    return this.toUpperCase();
  }
  _map(name, native) {
    return mkStr(
      this.parts.map((p) => {
        if (typeof p === 'string') return native(p);
        if (p.k === 'num') return p;
        const u = uf(name, p.t);
        return u.lit !== undefined ? u.lit : { k: 'raw', t: u };
      }),
    );
  }
  normalize(...a) {
    return decide(T.inRe(this.term(), '(re.* (re.range "\\u{0}" "\\u{7f}"))')) ? this : concretize(this, 'normalize').normalize(...a);
  }
  replace(a, b) {
    return this._replace(a, b, false);
  }
  replaceAll(a, b) {
    return this._replace(a, b, true);
  }
  _replace(a, b, all) {
    if (a instanceof RegExp) return reReplace(this, a, b);
    a = toStr(a);
    if (typeof a === 'string' && a !== '') {
      if (this.parts.every((p) => (typeof p === 'string' ? !p.includes(a) : partLacks(p, a))) && a.length === 1) return this;
      if (!truthy(this.includes(a))) return this;
    }
    if (typeof b === 'function' || a === '') return this._native(all ? 'replaceAll' : 'replace', [a, b]);
    b = toStr(b);
    if (typeof b !== 'string' || b.includes('$')) return this._native(all ? 'replaceAll' : 'replace', [a, b]);
    if (this.parts.length > 1 && typeof a === 'string' && a.length === 1 && all)
      return mkStr(this.parts.map((p) => (typeof p === 'string' ? p.replaceAll(a, b) : partLacks(p, a) ? p : { k: 'raw', t: T.app('String', 'str.replace_all', p.t, T.strLit(a), T.strLit(b)) })));
    return rawStr(T.app('String', all ? 'str.replace_all' : 'str.replace', this.term(), strTerm(a), T.strLit(b)));
  }
  _native(name, args) {
    const s = concretize(this, name);
    return s[name](...args.map((x) => (x instanceof Sym ? concretize(x, name) : x)));
  }
  isWellFormed() {
    return true;
  }
  toWellFormed() {
    return this;
  }
}
for (const m of ['padStart', 'padEnd', 'repeat', 'localeCompare', 'link', 'anchor'])
  SymStr.prototype[m] = function (...a) {
    return this._native(m, a);
  };
function asIndex(x) {
  if (typeof x === 'number') return Number.isNaN(x) ? 0 : Math.trunc(x);
  if (x instanceof SymNum) return x;
  return Number(concretize(x)) || 0;
}
function callStr(s, m, ...args) {
  return s[m](...args);
}
/** true when the part provably never contains one of the characters of s */
function partLacks(p, s) {
  const alpha = { uri: /[A-Za-z0-9\-_.!~*'()%]/, form: /[A-Za-z0-9*\-._+%]/, b64: /[A-Za-z0-9+/=]/, num: /[0-9\-.e+]/ }[p.k];
  if (!alpha) return false;
  return [...s].some((c) => !alpha.test(c));
}

// ------------------------------------------------------------------ regular expressions
export function reToSmt(src, flags) {
  // returns {re, start, end} or null when outside the fragment
  if (/[^gsu]/.test(flags.replace('i', '')) && flags !== '') {
    if (flags.includes('m') || flags.includes('y') || flags.includes('v')) return null;
  }
  const ci = flags.includes('i');
  let i = 0;
  const lit1 = (c) => {
    if (ci && c.toLowerCase() !== c.toUpperCase())
      return `(re.union (str.to_re ${T.smtString(c.toLowerCase())}) (str.to_re ${T.smtString(c.toUpperCase())}))`;
    return `(str.to_re ${T.smtString(c)})`;
  };
  const range = (a, b) => {
    let r = `(re.range ${T.smtString(a)} ${T.smtString(b)})`;
    if (ci) {
      if (/[a-z]/.test(a) && /[a-z]/.test(b)) r = `(re.union ${r} (re.range ${T.smtString(a.toUpperCase())} ${T.smtString(b.toUpperCase())}))`;
      else if (/[A-Z]/.test(a) && /[A-Z]/.test(b)) r = `(re.union ${r} (re.range ${T.smtString(a.toLowerCase())} ${T.smtString(b.toLowerCase())}))`;
    }
    return r;
  };
  const D = '(re.range "0" "9")';
  const W = '(re.union (re.range "0" "9") (re.range "a" "z") (re.range "A" "Z") (str.to_re "_"))';
  const S = T.RE.ws;
  const neg = (r) => `(re.inter re.allchar (re.comp ${r}))`;
  const cls = { d: D, D: neg(D), w: W, W: neg(W), s: S, S: neg(S) };
  const dot = '(re.inter re.allchar (re.comp (re.union (str.to_re "\\u{a}") (str.to_re "\\u{d}") (str.to_re "\\u{2028}") (str.to_re "\\u{2029}"))))';
  const fail = () => {
    throw new RegexUnsupported();
  };
  const escChar = (c) => {
    if (c === 'n') return '\n';
    if (c === 'r') return '\r';
    if (c === 't') return '\t';
    if (c === 'f') return '\f';
    if (c === 'v') return '\v';
    if (c === '0') return '\0';
    if (c === 'x') {
      const h = src.slice(i, i + 2);
      i += 2;
      return String.fromCharCode(Number.parseInt(h, 16));
    }
    if (c === 'u') {
      if (src[i] === '{') {
        const j = src.indexOf('}', i);
        const h = src.slice(i + 1, j);
        i = j + 1;
        return String.fromCodePoint(Number.parseInt(h, 16));
      }
      const h = src.slice(i, i + 4);
      i += 4;
      return String.fromCharCode(Number.parseInt(h, 16));
    }
    if (/[a-zA-Z1-9]/.test(c)) fail();
    return c;
  };
  function alt(top) {
    const xs = [seq(top)];
    while (src[i] === '|') {
      i++;
      xs.push(seq(top));
    }
    if (top) return xs;
    if (xs.some((x) => x.start || x.end)) fail();
    return xs.length === 1 ? xs[0].re : `(re.union ${xs.map((x) => x.re).join(' ')})`;
  }
  function seq(top) {
    const xs = [];
    let start = false;
    let end = false;
    let lits = '';
    while (i < src.length && src[i] !== '|' && src[i] !== ')') {
      if (src[i] === '^') {
        if (!top || xs.length || start) fail();
        start = true;
        i++;
        continue;
      }
      if (src[i] === '$') {
        i++;
        if (!top || (i < src.length && src[i] !== '|')) fail();
        end = true;
        continue;
      }
      const i0 = i;
      let a = atom();
      const q = quant();
      if (q) {
        a = q(a);
        lits = null;
      } else if (lits !== null) {
        const raw = src.slice(i0, i);
        if (/^[^\\.[(]$/.test(raw)) lits += raw;
        else if (/^\\[^a-zA-Z0-9]$/.test(raw)) lits += raw[1];
        else lits = null;
      }
      xs.push(a);
    }
    const re = xs.length === 0 ? '(str.to_re "")' : xs.length === 1 ? xs[0] : `(re.++ ${xs.join(' ')})`;
    return { re, start, end, lits: ci ? null : lits };
  }
  function quant() {
    let f = null;
    const c = src[i];
    if (c === '*') f = (a) => `(re.* ${a})`;
    else if (c === '+') f = (a) => `(re.+ ${a})`;
    else if (c === '?') f = (a) => `(re.opt ${a})`;
    else if (c === '{') {
      const m = /^\{(\d+)(,(\d*))?\}/.exec(src.slice(i));
      if (!m) fail();
      i += m[0].length - 1;
      const lo = Number(m[1]);
      if (!m[2]) f = (a) => `((_ re.loop ${lo} ${lo}) ${a})`;
      else if (m[3]) f = (a) => `((_ re.loop ${lo} ${Number(m[3])}) ${a})`;
      else f = (a) => `(re.++ ((_ re.loop ${lo} ${lo}) ${a}) (re.* ${a}))`;
    }
    if (f) {
      i++;
      if (src[i] === '?') i++;
      else if (src[i] === '+') fail();
    }
    return f;
  }
  function atom() {
    const c = src[i++];
    if (c === '(') {
      if (src[i] === '?') {
        if (src[i + 1] === ':') i += 2;
        else if (src[i + 1] === '<' && /[A-Za-z]/.test(src[i + 2])) i = src.indexOf('>', i) + 1;
        else fail();
      }
      const r = alt(false);
      if (src[i++] !== ')') fail();
      return r;
    }
    if (c === '.') return flags.includes('s') ? 're.allchar' : dot;
    if (c === '[') {
      let n = false;
      if (src[i] === '^') {
        n = true;
        i++;
      }
      const xs = [];
      const one = () => {
        let x = src[i++];
        if (x === '\\') {
          x = src[i++];
          if (cls[x]) return { cls: cls[x] };
          if (x === 'b') return '\b';
          if (x === '-') return '-';
          return escChar(x);
        }
        return x;
      };
      while (src[i] !== ']') {
        if (i >= src.length) fail();
        const a = one();
        if (a.cls) {
          xs.push(a.cls);
          continue;
        }
        if (src[i] === '-' && src[i + 1] !== ']') {
          i++;
          const b = one();
          if (b.cls) fail();
          xs.push(range(a, b));
        } else xs.push(lit1(a));
      }
      i++;
      const u = xs.length === 0 ? 're.none' : xs.length === 1 ? xs[0] : `(re.union ${xs.join(' ')})`;
      return n ? neg(u) : u;
    }
    if (c === '\\') {
      const x = src[i++];
      if (cls[x]) return cls[x];
      if (x === 'b' || x === 'B' || /[1-9pPk]/.test(x)) fail();
      return lit1(escChar(x));
    }
    if ('*+?{'.includes(c)) fail();
    return lit1(c);
  }
  try {
    const xs = alt(true);
    if (i !== src.length) return null;
    return xs;
  } catch (e) {
    if (e instanceof RegexUnsupported) return null;
    throw e;
  }
}
function reContains(alts) {
  const xs = alts.map((a) => {
    const seq = [a.start ? null : 're.all', a.re, a.end ? null : 're.all'].filter(Boolean);
    return seq.length === 1 ? seq[0] : `(re.++ ${seq.join(' ')})`;
  });
  return xs.length === 1 ? xs[0] : `(re.union ${xs.join(' ')})`;
}
export function reTest(re, s) {
  s = toStr(s);
  if (typeof s === 'string') return RegExp.prototype.test.call(re, s);
  const alts = re.sticky ? null : reToSmt(re.source, re.flags);
  if (!alts) return RegExp.prototype.test.call(re, concretize(s, `regex ${re}`));
  return mkBool(T.inRe(s.term(), reContains(alts)));
}
function reReplace(s, re, rep) {
  const alts = reToSmt(re.source, re.flags);
  if (alts && typeof rep === 'string' && rep === '' && alts.every((a) => a.lits && (a.start ? !a.end : a.end)) ) {
    // only anchored literals removed: exact
    let cur = s;
    let removed = false;
    for (const a of alts.filter((x) => x.start)) {
      if (removed) break;
      if (truthy(cur.startsWith(a.lits))) {
        cur = cur.slice(a.lits.length);
        removed = true;
      }
    }
    if (removed && !re.global) return cur;
    for (const a of alts.filter((x) => x.end)) {
      if (truthy(cur.endsWith(a.lits))) return cur.slice(0, -a.lits.length);
    }
    return cur;
  }
  if (alts) {
    if (!truthy(mkBool(T.inRe(s.term(), reContains(alts))))) return s;
    // single literal or single character class, global, constant replacement without $
    if (re.global && typeof rep === 'string' && !rep.includes('$') && alts.every((a) => !a.start && !a.end)) {
      const r = alts.length === 1 ? alts[0].re : `(re.union ${alts.map((a) => a.re).join(' ')})`;
      if (alts.every((a) => a.lits)) {
        if (alts.length === 1) return rawStr(T.app('String', 'str.replace_all', s.term(), T.strLit(alts[0].lits), T.strLit(rep)));
      } else void r;
    }
  }
  return s._native('replace', [re, rep]);
}

// ------------------------------------------------------------------ unions
const unions = new WeakMap();
export const isUnion = (v) => (typeof v === 'object' || typeof v === 'function') && v !== null && unions.has(v);
export const unionAlts = (v) => (isUnion(v) ? unions.get(v).alts : [{ c: TRUE, v }]);
const isPrim = (v) => v === null || (typeof v !== 'object' && typeof v !== 'function');
export function mkUnion(alts) {
  const flat = [];
  const push = (c, v) => {
    if (c === FALSE) return;
    if (isUnion(v)) for (const a of unions.get(v).alts) push(T.and(c, a.c), a.v);
    else {
      const same = flat.find((f) => f.v === v || (isPrim(v) && Object.is(f.v, v)));
      if (same) same.c = T.or(same.c, c);
      else flat.push({ c, v });
    }
  };
  for (const a of alts) push(a.c, a.v);
  if (flat.length === 1) return flat[0].v;
  if (flat.length === 0) abort('infeasible');
  const box = { alts: flat };
  const px = new Proxy(() => {}, unionHandler(box));
  unions.set(px, box);
  return px;
}
/** Pick one alternative (forks). */
export function force(u) {
  let n = 0;
  while (isUnion(u)) {
    const box = unions.get(u);
    if (box.path === ctx.path && 'picked' in box) {
      u = box.picked;
      continue;
    }
    let got;
    const last = box.alts.length - 1;
    for (let i = 0; i <= last; i++) {
      if (i === last || decide(box.alts[i].c)) {
        got = box.alts[i];
        break;
      }
    }
    if (!got) abort('infeasible');
    box.path = ctx.path;
    box.picked = got.v;
    u = got.v;
    if (n++ > 50) throw new EngineError('force');
  }
  return u;
}
function unionHandler(box) {
  const self = () => force(box.px ?? (box.px = proxyOf(box)));
  const obj = (what, k) => {
    const v = self();
    if (v === null || v === undefined) throw new TypeError(`Cannot ${what} properties of ${v} (reading '${String(k)}')`);
    return v;
  };
  return {
    get(_t, k) {
      if (k === 'then' && !box.alts.some((a) => !isPrim(a.v) && !(a.v instanceof Sym) && typeof a.v.then === 'function')) return undefined;
      if (k === Symbol.toPrimitive) return () => concretize(self(), 'toPrimitive');
      const v = obj('read', k);
      const r = typeof v === 'object' || typeof v === 'function' ? Reflect.get(v, k, v) : Object(v)[k];
      return typeof r === 'function' && isPrim(v) ? r.bind(v) : r;
    },
    set(_t, k, x) {
      const v = obj('set', k);
      return Reflect.set(v, k, x, v);
    },
    has(_t, k) {
      return Reflect.has(obj('search', k), k);
    },
    deleteProperty(_t, k) {
      return Reflect.deleteProperty(obj('delete', k), k);
    },
    ownKeys() {
      const v = self();
      return v === null || v === undefined ? [] : Reflect.ownKeys(Object(v)).filter((k) => k !== 'prototype');
    },
    getOwnPropertyDescriptor(_t, k) {
      const v = self();
      const d = v === null || v === undefined ? undefined : Reflect.getOwnPropertyDescriptor(Object(v), k);
      if (d) d.configurable = true;
      return d;
    },
    getPrototypeOf() {
      const v = self();
      return v === null || v === undefined ? null : Reflect.getPrototypeOf(Object(v));
    },
    apply(_t, th, args) {
      const f = self();
      if (typeof f !== 'function') throw new TypeError('not a function');
      return f.apply(th, args);
    },
    construct(_t, args) {
      return new (self())(...args);
    },
  };
}
function proxyOf(box) {
  // a second proxy is never needed: force() only uses the box
  const o = {};
  unions.set(o, box);
  return o;
}

// ------------------------------------------------------------------ symbolic objects
const objs = new WeakMap();
export const isObj = (v) => typeof v === 'object' && v !== null && objs.has(v);
export const objBox = (v) => objs.get(v);
export function mkObj(fields) {
  // fields: iterable of [key, value, presence?]
  const box = { f: new Map(), frozen: false, accessors: null };
  for (const [k, v, p] of fields) box.f.set(k, { p: p ?? TRUE, v });
  return wrapBox(box);
}
function wrapBox(box) {
  const px = new Proxy({}, objHandler(box));
  objs.set(px, box);
  return px;
}
function getField(box, k) {
  const f = box.f.get(k);
  if (!f) return undefined;
  if (f.p === TRUE) return f.v;
  if (!f.u) f.u = mkUnion([{ c: f.p, v: f.v }, { c: T.not(f.p), v: undefined }]);
  return f.u;
}
function objHandler(box) {
  return {
    get(_t, k, recv) {
      if (box.f.has(k)) return getField(box, k);
      return Reflect.get(Object.prototype, k, recv);
    },
    set(_t, k, v) {
      if (box.frozen) return false;
      const f = box.f.get(k);
      if (f) {
        f.p = TRUE;
        f.v = v;
        f.u = undefined;
      } else box.f.set(k, { p: TRUE, v });
      return true;
    },
    has(_t, k) {
      const f = box.f.get(k);
      if (!f) return k in Object.prototype;
      return decide(f.p);
    },
    deleteProperty(_t, k) {
      if (box.frozen && box.f.has(k)) return false;
      box.f.delete(k);
      return true;
    },
    ownKeys() {
      const out = [];
      for (const [k, f] of box.f) if (decide(f.p)) out.push(k);
      const ints = out.filter((k) => typeof k === 'string' && /^(0|[1-9]\d*)$/.test(k)).sort((a, b) => a - b);
      return ints.length ? [...ints, ...out.filter((k) => !ints.includes(k))] : out;
    },
    getOwnPropertyDescriptor(_t, k) {
      const f = box.f.get(k);
      if (!f || !decide(f.p)) return undefined;
      return { value: f.v, writable: !box.frozen, enumerable: true, configurable: true };
    },
    defineProperty(_t, k, d) {
      if (box.frozen) return false;
      if ('get' in d || 'set' in d) throw new EngineError('accessor on symbolic object');
      box.f.set(k, { p: TRUE, v: d.value });
      return true;
    },
    preventExtensions() {
      throw new EngineError('preventExtensions');
    },
  };
}
/** object literals of instrumented code */
export function literal(o) {
  for (const k of Reflect.ownKeys(o)) {
    const d = Object.getOwnPropertyDescriptor(o, k);
    if (d.get || d.set || typeof k === 'symbol') return o;
  }
  if (Object.getPrototypeOf(o) !== Object.prototype) return o;
  const box = { f: new Map(), frozen: false };
  for (const k of Object.keys(o)) box.f.set(k, { p: TRUE, v: o[k] });
  return wrapBox(box);
}
function assignInto(target, source, guard = TRUE) {
  if (source === null || source === undefined) return;
  if (isUnion(source)) {
    if (isObj(target)) {
      for (const a of unionAlts(source)) assignInto(target, a.v, T.and(guard, a.c));
      return;
    }
    return assignInto(target, force(source), guard);
  }
  if (isObj(target)) {
    const tb = objs.get(target);
    if (tb.frozen) throw new TypeError('Cannot assign to read only property');
    const entries = isObj(source)
      ? [...objs.get(source).f].map(([k, f]) => [k, f.v, f.p])
      : typeof source === 'object' || typeof source === 'function'
        ? Reflect.ownKeys(source).filter((k) => Object.prototype.propertyIsEnumerable.call(source, k)).map((k) => [k, source[k], TRUE])
        : typeof source === 'string' ? [...source].map((c, i) => [String(i), c, TRUE]) : [];
    if (source instanceof SymStr) return assignInto(target, concretize(source, 'spread string'), guard);
    for (const [k, v, p0] of entries) {
      const p = T.and(guard, p0);
      const f = tb.f.get(k);
      if (p === TRUE || !f) {
        if (f) tb.f.set(k, { p: TRUE, v });
        else tb.f.set(k, { p, v });
        continue;
      }
      tb.f.set(k, { p: T.or(f.p, p), v: mkUnion([{ c: p, v }, { c: T.not(p), v: f.v }]) });
    }
    return;
  }
  if (guard !== TRUE && !decide(guard)) return;
  Object.assign(target, source instanceof SymStr ? concretize(source) : source);
}
export function objAssign(target, ...sources) {
  if (isUnion(target)) target = force(target);
  if (target === null || target === undefined) throw new TypeError('Cannot convert undefined or null to object');
  for (const s of sources) assignInto(target, s);
  return target;
}
export function rest(s, keys) {
  if (isUnion(s)) s = force(s);
  if (isObj(s)) {
    const box = { f: new Map(), frozen: false };
    for (const [k, f] of objs.get(s).f) if (!keys.includes(k)) box.f.set(k, { p: f.p, v: f.v });
    return wrapBox(box);
  }
  const o = {};
  for (const k of Object.keys(Object(s))) if (!keys.includes(k)) o[k] = s[k];
  return literal(o);
}

// ------------------------------------------------------------------ truthiness, equality, operators
export function truthTerm(v) {
  if (v instanceof SymBool) return v.t;
  if (v instanceof SymStr) {
    if (v.parts.some((p) => typeof p === 'string' || p.nonEmpty || p.k === 'num' || p.k === 'json')) return TRUE;
    return T.or(v.parts.map((p) => T.not(T.eq(p.x !== undefined && p.k !== 'raw' ? strTerm(p.x) : p.t, T.strLit('')))));
  }
  if (v instanceof SymNum) return v.lenOf ? truthTerm(v.lenOf) : T.not(T.eq(v.t, numLike(v.t, 0)));
  if (isUnion(v)) return T.or(unionAlts(v).map((a) => T.and(a.c, truthTerm(a.v))));
  return v ? TRUE : FALSE;
}
export const truthy = (v) => {
  if (v === true || v === false) {
    return v;
  }
  return decide(truthTerm(v));
};
export function termOf(c) {
  if (c && typeof c === 'object' && 's' in c && 't' in c && !(c instanceof Sym)) return c;
  return truthTerm(c);
}

/** length (op) integer, where it says no more than whether the text is empty; undefined otherwise */
function lengthCompare(len, op, n) {
  const least = op === '>' || op === '<=' ? n + 1 : n;
  const t = least <= len.lenMin ? TRUE : least === 1 ? truthTerm(len.lenOf) : undefined;
  return t && (op === '>' || op === '>=' ? t : T.not(t));
}
export function eqTerm(a, b) {
  if (isUnion(a)) return T.or(unionAlts(a).map((x) => T.and(x.c, eqTerm(x.v, b))));
  if (isUnion(b)) return T.or(unionAlts(b).map((x) => T.and(x.c, eqTerm(a, x.v))));
  if (a instanceof SymStr || b instanceof SymStr) {
    const ok = (x) => x instanceof SymStr || typeof x === 'string';
    return ok(a) && ok(b) ? strEq(a, b) : FALSE;
  }
  if (a instanceof SymNum || b instanceof SymNum) {
    const ok = (x) => x instanceof SymNum || (typeof x === 'number' && Number.isFinite(x));
    for (const [x, c] of [[a, b], [b, a]]) if (x?.lenOf && typeof c === 'number') {
      if (c < x.lenMin || !Number.isInteger(c)) return FALSE;
      if (c === 0) return T.not(truthTerm(x.lenOf));
    }
    return ok(a) && ok(b) ? T.eq(numTerm(a), numTerm(b)) : FALSE;
  }
  if (a instanceof SymBool || b instanceof SymBool) {
    const ok = (x) => x instanceof SymBool || typeof x === 'boolean';
    if (!ok(a) || !ok(b)) return FALSE;
    if (typeof a === 'boolean') return a ? b.t : T.not(b.t);
    if (typeof b === 'boolean') return b ? a.t : T.not(a.t);
    return T.eq(a.t, b.t);
  }
  return a === b ? TRUE : FALSE;
}
function looseTerm(a, b) {
  if (isUnion(a)) return T.or(unionAlts(a).map((x) => T.and(x.c, looseTerm(x.v, b))));
  if (isUnion(b)) return T.or(unionAlts(b).map((x) => T.and(x.c, looseTerm(a, x.v))));
  if (a === null || a === undefined || b === null || b === undefined) return (a === null || a === undefined) && (b === null || b === undefined) ? TRUE : FALSE;
  if (typeOf(a) === typeOf(b)) return eqTerm(a, b);
  const ca = a instanceof Sym ? concretize(a, '==') : a;
  const cb = b instanceof Sym ? concretize(b, '==') : b;
  return ca == cb ? TRUE : FALSE;
}
export function typeOf(v) {
  if (v instanceof SymStr) return 'string';
  if (v instanceof SymNum) return 'number';
  if (v instanceof SymBool) return 'boolean';
  if (isUnion(v)) return mkUnion(unionAlts(v).map((a) => ({ c: a.c, v: typeOf(a.v) })));
  return typeof v;
}
export function toStr(v) {
  if (isUnion(v)) v = force(v);
  if (v instanceof SymStr || typeof v === 'string') return v;
  if (v instanceof SymNum) return numToStr(v);
  if (v instanceof SymBool) return decide(v.t) ? 'true' : 'false';
  if (typeof v === 'symbol') throw new TypeError('Cannot convert a Symbol value to a string');
  if (v !== null && (typeof v === 'object' || typeof v === 'function')) {
    if (Array.isArray(v)) return arrJoin(v, ',');
    const prim = v[Symbol.toPrimitive];
    if (prim !== undefined && prim !== null) return toStr(prim.call(v, 'string'));
    if (typeof v.toString === 'function') {
      const r = v.toString();
      if (r === null || typeof r !== 'object' || r instanceof Sym || isUnion(r)) return toStr(r);
    }
    return toStr(v.valueOf());
  }
  return String(v);
}
function toPrim(v) {
  if (isUnion(v)) v = force(v);
  if (v instanceof Sym || isPrim(v)) return v;
  if (v instanceof Date || Array.isArray(v)) return toStr(v);
  const p = v[Symbol.toPrimitive];
  if (p) return p.call(v, 'default');
  const x = v.valueOf?.();
  if (x === undefined || (typeof x === 'object' && !(x instanceof Sym)) || typeof x === 'function') return toStr(v);
  return x;
}
function toNum(v) {
  v = toPrim(v);
  if (v instanceof SymNum || typeof v === 'number' || typeof v === 'bigint') return v;
  if (v instanceof SymBool) return mkNum(T.ite(v.t, T.intLit(1), T.intLit(0)));
  if (v instanceof SymStr) {
    if (v.parts.length === 1 && v.parts[0].k === 'num') return v.parts[0].n;
    return Number(concretize(v, 'Number(string)'));
  }
  return Number(v);
}
function arith(op, a, b) {
  let x = numTerm(a);
  let y = numTerm(b);
  if (x.s !== y.s) {
    x = T.toReal(x);
    y = T.toReal(y);
  }
  return [x, y];
}
const num1 = (v) => v instanceof SymNum || typeof v === 'number';
export function bin(op, a, b) {
  switch (op) {
    case '===':
      return mkBool(eqTerm(a, b));
    case '!==':
      return mkBool(T.not(eqTerm(a, b)));
    case '==':
      return mkBool(looseTerm(a, b));
    case '!=':
      return mkBool(T.not(looseTerm(a, b)));
  }
  if (isPrim(a) && isPrim(b)) return native(op, a, b);
  if (op === '+') {
    const x = toPrim(a);
    const y = toPrim(b);
    const s = (v) => typeof v === 'string' || v instanceof SymStr;
    if (s(x) || s(y)) return cat(toStr(x), toStr(y));
    a = x;
    b = y;
  }
  if (['<', '>', '<=', '>='].includes(op)) {
    const x = toPrim(a);
    const y = toPrim(b);
    const s = (v) => typeof v === 'string' || v instanceof SymStr;
    if (s(x) && s(y)) {
      if (typeof x === 'string' && typeof y === 'string') return native(op, x, y);
      const [p, q] = op === '<' || op === '<=' ? [x, y] : [y, x];
      return mkBool(T.app('Bool', op.length === 1 ? 'str.<' : 'str.<=', strTerm(p), strTerm(q)));
    }
    const m = toNum(x);
    const n = toNum(y);
    if (typeof m === 'number' && typeof n === 'number') return native(op, m, n);
    if ((typeof m === 'number' && !Number.isFinite(m)) || (typeof n === 'number' && !Number.isFinite(n))) {
      const mm = m instanceof SymNum ? 0 : m;
      const nn = n instanceof SymNum ? 0 : n;
      return native(op, mm, nn);
    }
    const atLeast = m.lenOf && Number.isInteger(n) ? lengthCompare(m, op, n) : n.lenOf && Number.isInteger(m) ? lengthCompare(n, { '<': '>', '>': '<', '<=': '>=', '>=': '<=' }[op], m) : undefined;
    if (atLeast) return mkBool(atLeast);
    const [p, q] = arith(op, m, n);
    return mkBool(T.app('Bool', op, p, q));
  }
  const m = toNum(a);
  const n = toNum(b);
  if (!(m instanceof SymNum) && !(n instanceof SymNum)) return native(op, m, n);
  if (num1(m) && num1(n) && [m, n].every((v) => v instanceof SymNum || Number.isFinite(v))) {
    if (op === '+' || op === '-' || (op === '*' && !(m instanceof SymNum && n instanceof SymNum))) {
      const [p, q] = arith(op, m, n);
      return mkNum(T.app(p.s, op, p, q));
    }
    if (op === '/' && typeof n === 'number' && n !== 0) {
      return mkNum(T.app('Real', '/', T.toReal(numTerm(m)), T.realLit(n)));
    }
    if (op === '%' && typeof n === 'number' && Number.isInteger(n) && n !== 0 && m.t.s === 'Int') {
      const md = T.app('Int', 'mod', m.t, T.intLit(Math.abs(n)));
      const neg = T.app('Int', '-', T.app('Int', 'mod', T.app('Int', '-', m.t), T.intLit(Math.abs(n))));
      return mkNum(T.ite(T.app('Bool', '>=', m.t, T.intLit(0)), md, neg));
    }
  }
  return native(op, concretize(m, `operator ${op}`), concretize(n, `operator ${op}`));
}
function native(op, a, b) {
  switch (op) {
    case '+': return a + b;
    case '-': return a - b;
    case '*': return a * b;
    case '/': return a / b;
    case '%': return a % b;
    case '**': return a ** b;
    case '<': return a < b;
    case '>': return a > b;
    case '<=': return a <= b;
    case '>=': return a >= b;
    case '&': return a & b;
    case '|': return a | b;
    case '^': return a ^ b;
    case '<<': return a << b;
    case '>>': return a >> b;
    case '>>>': return a >>> b;
  }
  throw new EngineError(`operator ${op}`);
}
export function not(v) {
  return mkBool(T.not(truthTerm(v)));
}

// symbolic property keys --------------------------------------------------
const symKeys = new WeakMap(); // object -> [[SymStr key, value]]
function keyOf(k) {
  if (isUnion(k)) k = force(k);
  if (k instanceof SymNum) return concretize(k, 'index');
  if (k instanceof SymBool) return decide(k.t) ? 'true' : 'false';
  return k;
}
function baseOf(o) {
  return isUnion(o) ? force(o) : o;
}
export function idx(o, k) {
  k = keyOf(k);
  if (!(k instanceof SymStr)) {
    if (!(o instanceof SymStr)) {
      const b = typeof o === 'object' && o !== null && symKeys.has(baseOf(o)) ? symKeys.get(baseOf(o)) : null;
      if (b && typeof k !== 'symbol') for (const [kk, v] of b) if (decide(eqTerm(kk, String(k)))) return v;
      return o[k];
    }
    if (typeof k === 'number') return o.charAt(k);
    return o[k];
  }
  o = baseOf(o);
  if (o === null || o === undefined) throw new TypeError(`Cannot read properties of ${o}`);
  const tbl = symKeys.get(o);
  if (tbl) for (let i = tbl.length - 1; i >= 0; i--) if (decide(eqTerm(tbl[i][0], k))) return tbl[i][1];
  const keys = isObj(o) ? [...objs.get(o).f.keys()] : Reflect.ownKeys(Object(o));
  for (const kk of keys) if (typeof kk === 'string' && decide(strEq(k, kk))) return o[kk];
  return undefined;
}
export function setIdx(o, k, v) {
  k = keyOf(k);
  if (!(k instanceof SymStr)) {
    o[k] = v;
    return v;
  }
  o = baseOf(o);
  const keys = isObj(o) ? [...objs.get(o).f.keys()] : Reflect.ownKeys(Object(o));
  for (const kk of keys) if (typeof kk === 'string' && decide(strEq(k, kk))) {
    o[kk] = v;
    return v;
  }
  if (!symKeys.has(o)) symKeys.set(o, []);
  const tbl = symKeys.get(o);
  for (const e of tbl) if (decide(eqTerm(e[0], k))) {
    e[1] = v;
    return v;
  }
  tbl.push([k, v]);
  return v;
}
export function delIdx(o, k) {
  k = keyOf(k);
  if (k instanceof SymStr) {
    const tbl = symKeys.get(baseOf(o));
    if (tbl) for (let i = 0; i < tbl.length; i++) if (decide(eqTerm(tbl[i][0], k))) {
      tbl.splice(i, 1);
      return true;
    }
    k = concretize(k, 'delete key');
  }
  return delete o[k];
}
function hasIn(k, o) {
  o = baseOf(o);
  if (isPrim(o) || o instanceof Sym) throw new TypeError(`Cannot use 'in' operator to search for '${String(k)}' in ${String(o)}`);
  k = keyOf(k);
  if (k instanceof SymStr) {
    const tbl = symKeys.get(o);
    if (tbl) for (const e of tbl) if (decide(eqTerm(e[0], k))) return true;
    const keys = isObj(o) ? [...objs.get(o).f.keys()] : Reflect.ownKeys(Object(o));
    for (const kk of keys) if (typeof kk === 'string' && decide(strEq(k, kk))) return kk in o;
    return false;
  }
  if (isObj(o)) {
    const f = objs.get(o).f.get(k);
    if (!f) return k in Object.prototype;
    return mkBool(f.p);
  }
  return k in o;
}
function hasOwn(o, k) {
  o = baseOf(o);
  if (o === null || o === undefined) throw new TypeError('Cannot convert undefined or null to object');
  k = keyOf(k);
  if (k instanceof SymStr) {
    const tbl = symKeys.get(o);
    if (tbl) for (const e of tbl) if (decide(eqTerm(e[0], k))) return true;
    const keys = isObj(o) ? [...objs.get(o).f.keys()] : Reflect.ownKeys(Object(o));
    for (const kk of keys) if (typeof kk === 'string' && decide(strEq(k, kk))) return mkBool(isObj(o) ? objs.get(o).f.get(kk).p : TRUE);
    return false;
  }
  if (isObj(o)) {
    const f = objs.get(o).f.get(k);
    return f ? mkBool(f.p) : false;
  }
  return Object.prototype.hasOwnProperty.call(o, k);
}

// ------------------------------------------------------------------ arrays
function arrJoin(a, sep) {
  const out = [];
  for (let i = 0; i < a.length; i++) {
    if (i) out.push(sep);
    let x = a[i];
    if (isUnion(x)) x = force(x);
    out.push(x === null || x === undefined ? '' : toStr(x));
  }
  return cat(...out);
}
const sameValueZero = (a, b) => (typeof a === 'number' && Number.isNaN(a) && typeof b === 'number' && Number.isNaN(b) ? TRUE : eqTerm(a, b));

// ------------------------------------------------------------------ JSON
export function snapshot(v, mode = 'json', seen = new Map()) {
  // immutable structural copy: {k:...}
  if (isUnion(v)) return { k: 'union', alts: unionAlts(v).map((a) => ({ c: a.c, n: snapshot(a.v, mode, seen) })) };
  if (v instanceof SymStr || typeof v === 'string') return { k: 'str', v };
  if (v instanceof SymNum) return { k: 'num', v };
  if (typeof v === 'number') return mode === 'json' && !Number.isFinite(v) ? { k: 'null' } : { k: 'num', v };
  if (v instanceof SymBool || typeof v === 'boolean') return { k: 'bool', v };
  if (v === null) return { k: 'null' };
  if (v === undefined || typeof v === 'symbol') return { k: 'undef' };
  if (typeof v === 'function') return mode === 'json' ? { k: 'undef' } : { k: 'ref', v };
  if (typeof v === 'bigint') {
    if (mode === 'json') throw new TypeError('Do not know how to serialize a BigInt');
    return { k: 'ref', v };
  }
  if (seen.has(v)) {
    const done = seen.get(v);
    if (done !== 'open') {
      // the same object again (not a cycle): the same snapshot
      if (done) return done;
    } else if (mode === 'json') throw new TypeError('Converting circular structure to JSON');
    else return { k: 'cycle' };
  }
  seen.set(v, 'open');
  let r;
  const custom = mode === 'json' && typeof v.toJSON === 'function';
  if (custom) r = snapshot(v.toJSON(''), mode, seen);
  else if (Array.isArray(v)) r = { k: 'arr', e: Array.from(v, (x) => snapshot(x, mode, seen)) };
  else if (isObj(v)) r = { k: 'obj', f: [...objs.get(v).f].filter(([k]) => typeof k === 'string').map(([k, f]) => [k, f.p, snapshot(f.v, mode, seen)]) };
  else if (v instanceof Date) r = { k: 'ref', v: +v };
  else if (mode !== 'json' && v.__model === 'headers') r = { k: 'arr', e: v.list.map(([a, b]) => ({ k: 'arr', e: [snapshot(a), snapshot(b)] })) };
  else if (mode !== 'json' && typeof v.__snap === 'function') r = snapshot(v.__snap(), mode, seen);
  else if (mode === 'json' && v.__jsonLeaf) r = { k: 'ref', v };
  else r = { k: 'obj', f: Object.keys(v).map((k) => [k, TRUE, snapshot(v[k], mode, seen)]) };
  seen.set(v, custom ? null : r);
  return r;
}
export function snapConcrete(n) {
  switch (n.k) {
    case 'union': return false;
    case 'str': case 'num': case 'bool': return !(n.v instanceof Sym);
    case 'arr': return n.e.every(snapConcrete);
    case 'obj': return n.f.every(([, p, x]) => p === TRUE && snapConcrete(x));
    case 'ref': return false;
  }
  return true;
}
export function snapNative(n) {
  switch (n.k) {
    case 'str': case 'num': case 'bool': return n.v;
    case 'arr': return n.e.map((x) => (x.k === 'undef' ? null : snapNative(x)));
    case 'obj': {
      const o = {};
      for (const [k, , x] of n.f) if (x.k !== 'undef') Object.defineProperty(o, k, { value: snapNative(x), enumerable: true, writable: true, configurable: true });
      return o;
    }
    case 'null': return null;
  }
  return undefined;
}
const isUndefTerm = (n) => (n.k === 'undef' ? TRUE : n.k === 'union' ? T.or(n.alts.map((a) => T.and(a.c, isUndefTerm(a.n)))) : FALSE);
/** JSON equality of two snapshots as a term; undefined-valued fields count as absent unless strict. */
export function jsonEqSnap(a, b, strict = false) {
  if (a === b) return TRUE;
  if (a.k === 'union' && b.k === 'union' && a.alts.length === b.alts.length && a.alts.every((x, i) => x.c.t === b.alts[i].c.t)) {
    // the same choice on both sides (alternatives exclude each other): compare alternative by alternative
    return T.and(a.alts.map((x, i) => T.implies(x.c, jsonEqSnap(x.n, b.alts[i].n, strict))));
  }
  if (a.k === 'union') return T.and(a.alts.map((x) => T.implies(x.c, jsonEqSnap(x.n, b, strict))));
  if (b.k === 'union') return T.and(b.alts.map((x) => T.implies(x.c, jsonEqSnap(a, x.n, strict))));
  if (a.k !== b.k) return FALSE;
  switch (a.k) {
    case 'str': return strEq(a.v, b.v);
    case 'num': return typeof a.v === 'number' && typeof b.v === 'number' ? (Object.is(a.v, b.v) || a.v === b.v ? TRUE : FALSE) : eqTerm(a.v, b.v);
    case 'bool': return eqTerm(a.v, b.v);
    case 'null': case 'undef': case 'cycle': return TRUE;
    case 'ref': return a.v === b.v ? TRUE : FALSE;
    case 'arr': {
      if (a.e.length !== b.e.length) return FALSE;
      const cs = [];
      for (let i = 0; i < a.e.length; i++) {
        const c = jsonEqSnap(a.e[i], b.e[i], strict);
        if (c === FALSE) return FALSE;
        cs.push(c);
      }
      return T.and(cs);
    }
    case 'obj': {
      const fa = new Map(a.f.map(([k, p, n]) => [k, { p, n }]));
      const fb = new Map(b.f.map(([k, p, n]) => [k, { p, n }]));
      const cs = [];
      for (const k of new Set([...fa.keys(), ...fb.keys()])) {
        const x = fa.get(k) ?? { p: FALSE, n: { k: 'undef' } };
        const y = fb.get(k) ?? { p: FALSE, n: { k: 'undef' } };
        const px = strict ? x.p : T.and(x.p, T.not(isUndefTerm(x.n)));
        const py = strict ? y.p : T.and(y.p, T.not(isUndefTerm(y.n)));
        let c = iff(px, py);
        if (c === FALSE) return FALSE;
        if (px !== FALSE && py !== FALSE) c = T.and(c, T.implies(T.and(px, py), jsonEqSnap(x.n, y.n, strict)));
        if (c === FALSE) return FALSE;
        cs.push(c);
      }
      return T.and(cs);
    }
  }
  return FALSE;
}
function iff(a, b) {
  if (a.t === b.t) return TRUE;
  if (a === TRUE) return b;
  if (b === TRUE) return a;
  if (a === FALSE) return T.not(b);
  if (b === FALSE) return T.not(a);
  return T.eq(a, b);
}
export function rehydrate(n) {
  switch (n.k) {
    case 'union': return mkUnion(n.alts.map((a) => ({ c: a.c, v: rehydrate(a.n) })));
    case 'str': case 'num': case 'bool': return n.v;
    case 'null': return null;
    case 'undef': return undefined;
    case 'arr': return n.e.map((x) => (x.k === 'undef' ? null : rehydrate(x)));
    case 'obj': {
      const out = [];
      for (const [k, p, x] of n.f) {
        const pp = T.and(p, T.not(isUndefTerm(x)));
        if (pp !== FALSE) out.push([k, rehydrate(x), pp]);
      }
      return mkObj(out);
    }
    case 'ref': return n.v;
  }
  return undefined;
}
/** what is known of a JSON text from its outside: brackets, quotes, literals, the names of its members */
function jsonFact(n, t) {
  const ends = (a, b) => T.and(T.app('Bool', 'str.prefixof', T.strLit(a), t), T.app('Bool', 'str.suffixof', T.strLit(b), t), T.app('Bool', '>=', T.app('Int', 'str.len', t), T.intLit(2)));
  switch (n.k) {
    case 'union': return T.and(n.alts.map((a) => T.implies(a.c, jsonFact(a.n, t))));
    case 'obj':
      return T.and(ends('{', '}'), ...n.f.map(([k, p, x]) => {
        const there = T.and(p, T.not(isUndefTerm(x)));
        return there === FALSE ? TRUE : T.implies(there, T.app('Bool', 'str.contains', t, T.strLit(JSON.stringify(k) + ':')));
      }));
    case 'arr': return ends('[', ']');
    case 'str': return ends('"', '"');
    case 'bool': return typeof n.v === 'boolean' ? T.eq(t, T.strLit(String(n.v))) : T.eq(t, T.ite(n.v.t, T.strLit('true'), T.strLit('false')));
    case 'null': return T.eq(t, T.strLit('null'));
    case 'num': return T.not(T.app('Bool', 'str.prefixof', T.strLit('<'), t));
  }
  return TRUE;
}
function jsonKnown(part) {
  const p = ctx.path;
  if (!p || p.aborted || !part.snap || p.jsonKnown.has(part.t.t)) return;
  p.jsonKnown.add(part.t.t);
  const fact = jsonFact(part.snap, part.t);
  if (fact !== TRUE) addPC(fact);
}
export function jsonStringify(v, replacer, indent) {
  if (replacer !== undefined && replacer !== null) v = applyReplacer({ '': v }, '', v, replacer);
  const n = snapshot(v, 'json');
  if (n.k === 'undef') return undefined;
  if (snapConcrete(n)) return JSON.stringify(snapNative(n), null, indent);
  if (n.k === 'union') {
    const u = isUndefTerm(n);
    if (u !== FALSE && decide(u)) return undefined;
  }
  const name = `json${P().jsonIds++}`;
  ctx.solver.declare(name, 'String');
  return mkStr([{ k: 'json', t: T.variable('String', name), snap: n, nonEmpty: true }]);
}
function applyReplacer(holder, key, v, replacer) {
  if (isUnion(v)) v = force(v);
  if (typeof replacer === 'function') v = call(replacer, [key, v], holder);
  if (isUnion(v)) v = force(v);
  if (v === null || typeof v !== 'object' || v instanceof Sym) return v;
  if (Array.isArray(v)) return v.map((x, i) => applyReplacer(v, String(i), x, replacer));
  const out = [];
  for (const k of Object.keys(v)) {
    if (Array.isArray(replacer) && !replacer.includes(k)) continue;
    out.push([k, applyReplacer(v, k, v[k], replacer)]);
  }
  return mkObj(out);
}
export function jsonParse(s, reviver) {
  s = toStr(s);
  if (typeof s === 'string') return JSON.parse(s, reviver);
  if (s.parts.length === 1 && s.parts[0].k === 'json') {
    const r = rehydrate(s.parts[0].snap);
    if (reviver) return applyReplacer({ '': r }, '', r, reviver);
    return r;
  }
  const ws = s.parts.filter((p) => typeof p !== 'string' || !/^[ \t\r\n]*$/.test(p));
  if (ws.length === 1 && ws.length < s.parts.length) return jsonParse(mkStr(ws), reviver);
  const f = s.parts[0];
  if (typeof f === 'string' && !/^[\s{["\-0-9tfn]/.test(f)) throw new SyntaxError(`Unexpected token '${f[0]}' is not valid JSON`);
  if (s.parts.length === 1 && f.k === 'num') return f.n;
  return JSON.parse(concretize(s, 'JSON.parse'), reviver);
}

// ------------------------------------------------------------------ calls
export const overrides = new Map(); // native function -> (thisArg, args) => value
export const globalsSub = new Map(); // native constructor -> model constructor
const nativeCache = new WeakMap();
export const instrumented = new WeakSet();
const transparent = new Set();
function isNative(f) {
  let r = nativeCache.get(f);
  if (r === undefined) {
    try {
      r = /\{\s*\[native code\]\s*\}\s*$/.test(Function.prototype.toString.call(f));
    } catch {
      r = false;
    }
    if (f.name === '' || f.name.startsWith('bound ')) r = false;
    nativeCache.set(f, r);
  }
  return r;
}
function nativeCall(f, th, args) {
  const o = overrides.get(f);
  if (o) return o(th, args);
  if (isNative(f) && !transparent.has(f)) {
    let any = th instanceof Sym || isUnion(th);
    for (const a of args) if (a instanceof Sym || isUnion(a)) any = true;
    if (any) {
      if (th instanceof Sym || isUnion(th)) th = concretize(th, f.name);
      args = args.map((a) => (a instanceof Sym || isUnion(a) ? concretize(a, f.name || 'native') : a));
    }
  }
  return f.apply(th, args);
}
export function call(f, args, th = undefined) {
  if (isUnion(f)) f = force(f);
  if (typeof f !== 'function') throw new TypeError(`${describe(f)} is not a function`);
  return nativeCall(f, th, args);
}
export function mcall(o, k, args) {
  if (isUnion(o)) o = force(o);
  k = keyOf(k);
  if (o === null || o === undefined) throw new TypeError(`Cannot read properties of ${o} (reading '${String(k)}')`);
  const f = k instanceof SymStr ? idx(o, k) : o[k];
  if (isUnion(f)) return call(force(f), args, o);
  if (typeof f !== 'function') throw new TypeError(`${String(k)} is not a function`);
  if (o instanceof Sym) return f.apply(o, args);
  if (typeof o === 'string' && args.some((a) => a instanceof Sym || isUnion(a))) {
    args = args.map((a) => (isUnion(a) ? force(a) : a));
    if (['startsWith', 'endsWith', 'includes', 'indexOf', 'concat', 'replace', 'replaceAll', 'split'].includes(k)) {
      if (k === 'concat') return cat(o, ...args.map(toStr));
      if ((k === 'replace' || k === 'replaceAll') && !(args[0] instanceof Sym)) {
        // concrete subject and pattern, symbolic replacement
        if (typeof args[0] === 'string' && args[1] instanceof SymStr && !truthy(args[1].includes('$')))
          return k === 'replace' ? o.split(args[0]).reduce((acc, x, i) => (i === 0 ? x : i === 1 ? cat(acc, args[1], x) : cat(acc, args[0], x))) : o.split(args[0]).reduce((acc, x, i) => (i === 0 ? x : cat(acc, args[1], x)));
        return o[k](...args.map((a) => concretize(a, k)));
      }
      if (o === '' && k !== 'split') return k === 'indexOf' ? (truthy(mkBool(strEq(args[0], ''))) ? 0 : -1) : mkBool(strEq(toStr(args[0]), ''));
      if (k === 'startsWith' || k === 'endsWith' || k === 'includes')
        return mkBool(T.app('Bool', { startsWith: 'str.prefixof', endsWith: 'str.suffixof', includes: 'str.contains' }[k], ...(k === 'includes' ? [T.strLit(o), strTerm(toStr(args[0]))] : [strTerm(toStr(args[0])), T.strLit(o)])));
      return o[k](...args.map((a) => concretize(a, k)));
    }
  }
  return nativeCall(f, o, args);
}
function describe(f) {
  try {
    return f === null ? 'null' : typeof f;
  } catch {
    return 'value';
  }
}
export function construct(C, args) {
  if (isUnion(C)) C = force(C);
  if (globalsSub.has(C)) C = globalsSub.get(C);
  if (isNative(C) && C !== Proxy && C !== Promise && C !== WeakMap && C !== Error && C !== Map && C !== Set) {
    if (C === Array && args.length === 1 && args[0] instanceof SymNum) args = [concretize(args[0])];
    else if (typeof C.prototype === 'object' && C.prototype instanceof Error && (args[0] instanceof Sym || isUnion(args[0]))) {
      const e = Reflect.construct(C, ['symbolic', ...args.slice(1)]);
      e.message = toStr(args[0]);
      return e;
    }
    else if (C !== Array) args = args.map((a) => (a instanceof Sym || isUnion(a) ? concretize(a, C.name) : a));
  }
  if (C === Error && (args[0] instanceof Sym || isUnion(args[0]))) {
    const e = new Error('symbolic');
    e.message = toStr(args[0]);
    return e;
  }
  return Reflect.construct(C, args);
}
export function instanceOf(v, C) {
  if (isUnion(v)) return mkBool(T.or(unionAlts(v).map((a) => T.and(a.c, termOf(instanceOf(a.v, C))))));
  if (v instanceof Sym) return false;
  if (globalsSub.has(C)) return v instanceof globalsSub.get(C) || v instanceof C;
  return v instanceof C;
}

// ------------------------------------------------------------------ native overrides
function defOverrides() {
  const AP = Array.prototype;
  const A = (name, fn) => overrides.set(AP[name], (th, args) => (Array.isArray(th) ? fn(th, ...args) : AP[name].apply(th, args)));
  A('filter', (a, f, t) => {
    const out = [];
    for (let i = 0; i < a.length; i++) if (i in a && truthy(call(f, [a[i], i, a], t))) out.push(a[i]);
    return out;
  });
  A('some', (a, f, t) => {
    for (let i = 0; i < a.length; i++) if (truthy(call(f, [a[i], i, a], t))) return true;
    return false;
  });
  A('every', (a, f, t) => {
    for (let i = 0; i < a.length; i++) if (!truthy(call(f, [a[i], i, a], t))) return false;
    return true;
  });
  A('find', (a, f, t) => {
    for (let i = 0; i < a.length; i++) if (truthy(call(f, [a[i], i, a], t))) return a[i];
    return undefined;
  });
  A('findIndex', (a, f, t) => {
    for (let i = 0; i < a.length; i++) if (truthy(call(f, [a[i], i, a], t))) return i;
    return -1;
  });
  A('findLast', (a, f, t) => {
    for (let i = a.length - 1; i >= 0; i--) if (truthy(call(f, [a[i], i, a], t))) return a[i];
    return undefined;
  });
  A('includes', (a, x) => mkBool(T.or(a.map((y) => sameValueZero(y, x)))));
  A('indexOf', (a, x) => {
    for (let i = 0; i < a.length; i++) if (decide(eqTerm(a[i], x))) return i;
    return -1;
  });
  A('lastIndexOf', (a, x) => {
    for (let i = a.length - 1; i >= 0; i--) if (decide(eqTerm(a[i], x))) return i;
    return -1;
  });
  A('join', (a, sep = ',') => arrJoin(a, toStr(sep)));
  overrides.set(AP.toString, (th, args) => (Array.isArray(th) ? arrJoin(th, ',') : AP.toString.apply(th, args)));
  const cmp = (f) => (x, y) => {
    if (x === undefined) return y === undefined ? 0 : 1;
    if (y === undefined) return -1;
    if (f) {
      const r = call(f, [x, y]);
      return truthy(bin('<', r, 0)) ? -1 : truthy(bin('>', r, 0)) ? 1 : 0;
    }
    const a = toStr(x);
    const b = toStr(y);
    if (typeof a === 'string' && typeof b === 'string') return a < b ? -1 : a > b ? 1 : 0;
    return truthy(mkBool(strEq(a, b))) ? 0 : truthy(bin('<', a, b)) ? -1 : 1;
  };
  const sorted = (a, f) => {
    const out = [];
    const c = cmp(f);
    for (const x of a) {
      let i = out.length;
      while (i > 0 && c(out[i - 1], x) > 0) i--;
      out.splice(i, 0, x);
    }
    return out;
  };
  A('sort', (a, f) => {
    const r = sorted(a, f);
    for (let i = 0; i < r.length; i++) a[i] = r[i];
    return a;
  });
  A('toSorted', (a, f) => sorted(a, f));
  A('flat', (a, depth = 1) => {
    const out = [];
    for (let x of a) {
      if (isUnion(x)) x = force(x);
      if (Array.isArray(x) && depth > 0) out.push(...(depth > 1 ? call(AP.flat, [depth - 1], x) : x));
      else out.push(x);
    }
    return out;
  });
  A('concat', (a, ...xs) => {
    const out = [...a];
    for (let x of xs) {
      if (isUnion(x)) x = force(x);
      if (Array.isArray(x)) out.push(...x);
      else out.push(x);
    }
    return out;
  });
  for (const n of ['slice', 'splice', 'at', 'fill']) A(n, (a, ...xs) => AP[n].apply(a, xs.map((x, i) => (x instanceof SymNum && (n !== 'fill' || i > 0) && (n !== 'splice' || i < 2) ? concretize(x, n) : x))));
  for (const n of ['map', 'forEach', 'reduce', 'reduceRight', 'push', 'unshift', 'pop', 'shift', 'reverse', 'entries', 'keys', 'values', 'flatMap', 'toReversed', 'with', 'toSpliced'])
    transparent.add(AP[n]);
  // a built-in used as the callback: through its model
  for (const n of ['map', 'forEach', 'reduce', 'reduceRight', 'flatMap'])
    A(n, (a, f, ...xs) => AP[n].call(a, typeof f === 'function' && (overrides.has(f) || isNative(f)) ? (...ys) => nativeCall(f, undefined, ys) : f, ...xs));
  transparent.add(AP[Symbol.iterator]);
  // callbacks handed to native code by transparent functions are instrumented functions: fine

  overrides.set(Array.isArray, (_t, [v]) => {
    if (isUnion(v)) return mkBool(T.or(unionAlts(v).map((a) => (Array.isArray(a.v) ? a.c : FALSE))));
    return Array.isArray(v);
  });
  overrides.set(Array.from, (_t, [v, f, t]) => {
    if (isUnion(v)) v = force(v);
    if (v instanceof SymStr) v = concretize(v, 'Array.from');
    const out = Array.from(v);
    return f ? out.map((x, i) => call(f, [x, i], t)) : out;
  });
  transparent.add(Array.of);

  overrides.set(Object.assign, (_t, args) => objAssign(...args));
  overrides.set(Object.keys, (_t, [v]) => {
    v = baseOf(v);
    if (v instanceof SymStr) return Object.keys(concretize(v, 'Object.keys'));
    noSymKeys(v);
    return Object.keys(v);
  });
  overrides.set(Object.values, (_t, [v]) => {
    v = baseOf(v);
    noSymKeys(v);
    return Object.keys(Object(v)).map((k) => Object(v)[k]);
  });
  overrides.set(Object.entries, (_t, [v]) => {
    v = baseOf(v);
    if (v === null || v === undefined) throw new TypeError('Cannot convert undefined or null to object');
    noSymKeys(v);
    return Object.keys(Object(v)).map((k) => [k, Object(v)[k]]);
  });
  overrides.set(Object.fromEntries, (_t, [it]) => {
    it = baseOf(it);
    const o = mkObj([]);
    for (const e of it) setIdx(o, idx(e, 0), idx(e, 1));
    return o;
  });
  overrides.set(Object.hasOwn, (_t, [o, k]) => hasOwn(o, k));
  overrides.set(Object.prototype.hasOwnProperty, (th, [k]) => hasOwn(th, k));
  overrides.set(Object.is, (_t, [a, b]) => (a instanceof Sym || b instanceof Sym || isUnion(a) || isUnion(b) ? mkBool(eqTerm(a, b)) : Object.is(a, b)));
  overrides.set(Object.freeze, (_t, [v]) => {
    v = baseOf(v);
    if (isObj(v)) {
      objs.get(v).frozen = true;
      return v;
    }
    return v instanceof Sym ? v : Object.freeze(v);
  });
  overrides.set(Object.isFrozen, (_t, [v]) => (isObj(baseOf(v)) ? objs.get(baseOf(v)).frozen : Object.isFrozen(baseOf(v))));
  for (const n of ['seal', 'preventExtensions']) overrides.set(Object[n], (_t, [v]) => (isObj(baseOf(v)) ? v : Object[n](v)));
  for (const n of ['create', 'defineProperty', 'getPrototypeOf', 'setPrototypeOf', 'getOwnPropertyNames', 'getOwnPropertyDescriptor', 'defineProperties']) transparent.add(Object[n]);
  transparent.add(Reflect.ownKeys);
  transparent.add(Reflect.get);
  transparent.add(Reflect.set);
  transparent.add(Reflect.has);
  transparent.add(Reflect.apply);
  overrides.set(globalThis.structuredClone, (_t, [v]) => rehydrateClone(v));

  overrides.set(JSON.stringify, (_t, args) => jsonStringify(...args));
  overrides.set(JSON.parse, (_t, args) => jsonParse(...args));
  overrides.set(String, (_t, args) => (args.length === 0 ? '' : typeof args[0] === 'symbol' ? String(args[0]) : toStr(args[0])));
  overrides.set(Number, (_t, args) => (args.length === 0 ? 0 : toNum(args[0])));
  overrides.set(Boolean, (_t, [v]) => mkBool(truthTerm(v)));
  overrides.set(Number.isInteger, (_t, [v]) => {
    v = baseOf(v);
    if (v instanceof SymNum) return v.t.s === 'Int' ? true : mkBool(T.app('Bool', 'is_int', v.t));
    return v instanceof Sym ? false : Number.isInteger(v);
  });
  overrides.set(Number.isSafeInteger, (_t, [v]) => {
    v = baseOf(v);
    if (v instanceof SymNum) return v.t.s === 'Int' ? true : mkBool(T.app('Bool', 'is_int', v.t));
    return v instanceof Sym ? false : Number.isSafeInteger(v);
  });
  overrides.set(Number.isFinite, (_t, [v]) => ((v = baseOf(v)) instanceof SymNum ? true : v instanceof Sym ? false : Number.isFinite(v)));
  overrides.set(Number.isNaN, (_t, [v]) => ((v = baseOf(v)) instanceof Sym ? false : Number.isNaN(v)));
  overrides.set(globalThis.isNaN, (_t, [v]) => {
    const n = toNum(v);
    return n instanceof SymNum ? false : Number.isNaN(n);
  });
  overrides.set(globalThis.isFinite, (_t, [v]) => {
    const n = toNum(v);
    return n instanceof SymNum ? true : Number.isFinite(n);
  });
  overrides.set(globalThis.parseInt, (_t, [v, r]) => {
    v = toStr(v);
    if (v instanceof SymStr && v.parts.length === 1 && v.parts[0].k === 'num' && v.parts[0].n.t.s === 'Int') return v.parts[0].n;
    return Number.parseInt(concretize(v, 'parseInt'), r);
  });
  overrides.set(globalThis.parseFloat, (_t, [v]) => {
    v = toStr(v);
    if (v instanceof SymStr && v.parts.length === 1 && v.parts[0].k === 'num') return v.parts[0].n;
    return Number.parseFloat(concretize(v, 'parseFloat'));
  });
  overrides.set(Number.prototype.toString, (th, args) => (th instanceof SymNum ? th.toString(...args) : Number.prototype.toString.apply(th, args)));
  const mm = (op) => (_t, args) => {
    let r = toNum(args[0]);
    for (const a of args.slice(1)) {
      const y = toNum(a);
      r = truthy(bin(op, y, r)) ? y : r;
    }
    return r;
  };
  overrides.set(Math.min, (t, args) => (args.some((a) => a instanceof Sym || isUnion(a)) ? mm('<')(t, args) : Math.min(...args)));
  overrides.set(Math.max, (t, args) => (args.some((a) => a instanceof Sym || isUnion(a)) ? mm('>')(t, args) : Math.max(...args)));
  const rnd = (name, f) =>
    overrides.set(Math[name], (_t, [v]) => {
      const n = toNum(v);
      if (!(n instanceof SymNum)) return Math[name](n);
      if (n.t.s === 'Int') return n;
      return f(n.t);
    });
  const floor = (t) => T.app('Int', 'to_int', t);
  rnd('floor', (t) => mkNum(floor(t)));
  rnd('ceil', (t) => mkNum(T.app('Int', '-', floor(T.app('Real', '-', t)))));
  rnd('round', (t) => mkNum(floor(T.app('Real', '+', t, T.realLit(0.5)))));
  rnd('trunc', (t) => mkNum(T.ite(T.app('Bool', '>=', t, T.realLit(0)), floor(t), T.app('Int', '-', floor(T.app('Real', '-', t))))));
  overrides.set(Math.abs, (_t, [v]) => {
    const n = toNum(v);
    if (!(n instanceof SymNum)) return Math.abs(n);
    return mkNum(T.ite(T.app('Bool', '>=', n.t, numLike(n.t, 0)), n.t, T.app(n.t.s, '-', n.t)));
  });
  overrides.set(RegExp.prototype.test, (th, [s]) => reTest(th, s));
  overrides.set(RegExp.prototype.exec, (th, [s]) => {
    s = toStr(s);
    if (s instanceof SymStr) {
      if (!truthy(reTest(th, s))) return null;
      s = concretize(s, 'regex exec');
    }
    return RegExp.prototype.exec.call(th, s);
  });
  const enc = (fn, kind, fixed) =>
    overrides.set(fn, (_t, [v]) => {
      v = toStr(v);
      if (typeof v === 'string') return fn(v);
      return encodeRope(v, kind, fn);
    });
  enc(globalThis.encodeURIComponent, 'uri');
  overrides.set(globalThis.decodeURIComponent, (_t, [v]) => {
    v = toStr(v);
    if (typeof v === 'string') return decodeURIComponent(v);
    return decodeRope(v);
  });
  overrides.set(Promise.resolve, (th, [v]) => Promise.resolve.call(th ?? Promise, v));
  for (const n of ['reject', 'all', 'race', 'allSettled', 'any', 'withResolvers']) if (Promise[n]) transparent.add(Promise[n]);
  for (const n of ['then', 'catch', 'finally']) transparent.add(Promise.prototype[n]);
  for (const C of [Map, Set, WeakMap, WeakSet]) for (const n of Object.getOwnPropertyNames(C.prototype)) {
    const d = Object.getOwnPropertyDescriptor(C.prototype, n);
    if (typeof d.value === 'function') transparent.add(d.value);
  }
  const gp = Object.getPrototypeOf(Object.getPrototypeOf((function* () {})()));
  const ap = Object.getPrototypeOf(Object.getPrototypeOf((async function* () {})()));
  for (const g of [gp, ap]) for (const n of ['next', 'return', 'throw']) transparent.add(g[n]);
  overrides.set(Symbol, (_t, args) => Symbol(...args.map((a) => concretize(a))));
  overrides.set(Function.prototype.call, (th, [t, ...args]) => nativeCall(th, t, args));
  overrides.set(Function.prototype.apply, (th, [t, args]) => nativeCall(th, t, Array.from(args ?? [])));
  overrides.set(Function.prototype.bind, (th, [t, ...args]) => {
    if (!overrides.has(th) && !isNative(th)) return Function.prototype.bind.call(th, t, ...args);
    return (...more) => nativeCall(th, t, [...args, ...more]);
  });
}
function noSymKeys(v) {
  if (typeof v === 'object' && v !== null && symKeys.has(v)) {
    for (const [k, x] of symKeys.get(v)) v[concretize(k, 'symbolic key enumeration')] = x;
    symKeys.delete(v);
  }
}
function rehydrateClone(v) {
  if (isUnion(v)) return mkUnion(unionAlts(v).map((a) => ({ c: a.c, v: rehydrateClone(a.v) })));
  if (v instanceof Sym || isPrim(v)) return v;
  if (typeof v === 'function') throw new TypeError('could not be cloned');
  if (Array.isArray(v)) return v.map(rehydrateClone);
  if (isObj(v)) return mkObj([...objs.get(v).f].map(([k, f]) => [k, rehydrateClone(f.v), f.p]));
  if (Object.getPrototypeOf(v) === Object.prototype) return mkObj(Object.keys(v).map((k) => [k, rehydrateClone(v[k])]));
  if (v instanceof Date) return new Date(+v);
  return v;
}
export function encodeRope(v, kind, fn) {
  return mkStr(
    partsOf(v).map((p) => {
      if (typeof p === 'string') return fn(p);
      if (p.k === 'num') return p;
      const t = uf(kind, p.t);
      return { k: kind, t, x: mkStr([p]) };
    }),
  );
}
export function decodeRope(v) {
  return mkStr(
    partsOf(v).flatMap((p) => {
      if (typeof p === 'string') return [decodeURIComponent(p)];
      if (p.k === 'uri') return partsOf(p.x);
      if (p.k === 'num') return [p];
      if (decide(T.not(T.app('Bool', 'str.contains', p.t, T.strLit('%'))))) return [p];
      return [decodeURIComponent(concretize(mkStr([p]), 'decodeURIComponent'))];
    }),
  );
}
defOverrides();

// symbolic-key-aware Map / Set -------------------------------------------------
export class SymMap extends Map {
  constructor(it) {
    super();
    this.__s = [];
    if (it !== undefined && it !== null) for (const e of baseOf(it)) this.set(idx(e, 0), idx(e, 1));
  }
  __find(k) {
    if (isUnion(k)) k = force(k);
    const symbolic = k instanceof Sym;
    for (const e of this.__s) if (e.live && decide(sameValueZero(e.k, k))) return e;
    if (symbolic) {
      for (const kk of [...super.keys()]) if (decide(sameValueZero(kk, k))) return { k: kk, native: true };
      return null;
    }
    return super.has(k) ? { k, native: true } : null;
  }
  has(k) {
    return this.__find(k) !== null;
  }
  get(k) {
    const e = this.__find(k);
    return e ? (e.native ? super.get(e.k) : e.v) : undefined;
  }
  set(k, v) {
    if (isUnion(k)) k = force(k);
    const e = this.__find(k);
    if (e) {
      if (e.native) super.set(e.k, v);
      else e.v = v;
    } else if (k instanceof Sym) this.__s.push({ k, v, live: true });
    else super.set(k, v);
    return this;
  }
  delete(k) {
    const e = this.__find(k);
    if (!e) return false;
    if (e.native) super.delete(e.k);
    else e.live = false;
    return true;
  }
  clear() {
    super.clear();
    this.__s = [];
  }
  get size() {
    return super.size + (this.__s ? this.__s.filter((e) => e.live).length : 0);
  }
  __all() {
    return [...super.entries(), ...this.__s.filter((e) => e.live).map((e) => [e.k, e.v])];
  }
  entries() {
    return this.__all()[Symbol.iterator]();
  }
  keys() {
    return this.__all().map((e) => e[0])[Symbol.iterator]();
  }
  values() {
    return this.__all().map((e) => e[1])[Symbol.iterator]();
  }
  forEach(f, t) {
    for (const [k, v] of this.__all()) f.call(t, v, k, this);
  }
  [Symbol.iterator]() {
    return this.entries();
  }
}
export class SymSet extends Set {
  constructor(it) {
    super();
    this.m = new SymMap();
    if (it !== undefined && it !== null) for (const e of baseOf(it)) this.add(e);
  }
  add(v) {
    if (!this.m.has(v)) this.m.set(v, v);
    return this;
  }
  has(v) {
    return this.m.has(v);
  }
  delete(v) {
    return this.m.delete(v);
  }
  clear() {
    this.m.clear();
  }
  get size() {
    return this.m ? this.m.size : 0;
  }
  values() {
    return this.m.keys();
  }
  keys() {
    return this.m.keys();
  }
  entries() {
    return this.m.entries();
  }
  forEach(f, t) {
    for (const v of this.m.keys()) f.call(t, v, v, this);
  }
  [Symbol.iterator]() {
    return this.values();
  }
}
globalsSub.set(Map, SymMap);
globalsSub.set(Set, SymSet);

// ------------------------------------------------------------------ the runtime object
export const $ = {
  t: undefined,
  truthy,
  bin,
  oc(entries) {
    const o = mkObj([]);
    for (const [k, v] of entries) setIdx(o, k, v);
    return o;
  },
  pg(o, k) {
    if (specDepth > 0 && (isUnion(o) || o === null || o === undefined)) throw noSpec;
    return o[k];
  },
  /** computed read that refuses to fork */
  pgi(o, k) {
    if (isUnion(o) || o === null || o === undefined || o instanceof Sym || typeof k !== 'string' || symKeys.has(o)) throw noSpec;
    return o[k];
  },
  /** `if (c) o[k] = v`: true when the assignment is still to be made, false when it is not to be made or was merged in under its condition */
  ifSet(c, o, k, v) {
    const b = mergeable(c, o, k);
    if (!b) return truthy(c);
    const s = speculate(v);
    if (!s) return truthy(c);
    const t = truthTerm(c);
    const old = b.f.get(k);
    b.f.set(k, old ? { p: T.or(old.p, t), v: old.v === s.v ? s.v : mkUnion([{ c: t, v: s.v }, { c: T.not(t), v: old.v }]) } : { p: t, v: s.v });
    return false;
  },
  ifDel(c, o, k) {
    const b = mergeable(c, o, k);
    if (!b) return truthy(c);
    const old = b.f.get(k);
    if (old) b.f.set(k, { p: T.and(old.p, T.not(truthTerm(c))), v: old.v });
    return false;
  },
  not,
  o: literal,
  idx,
  setIdx,
  del: delIdx,
  in: (k, o) => hasIn(k, o),
  instanceof: instanceOf,
  typeof: typeOf,
  new: construct,
  rest,
  call: (f, args) => call(f, args),
  mcall,
  tpl(strs, vals) {
    const out = [strs[0]];
    for (let i = 0; i < vals.length; i++) out.push(toStr(vals[i]), strs[i + 1]);
    return cat(...out);
  },
  neg(v) {
    const n = toNum(v);
    return n instanceof SymNum ? mkNum(T.app(n.t.s, '-', n.t)) : -n;
  },
  plus: (v) => toNum(v),
  bitnot: (v) => ~concretize(toNum(v), '~'),
  inc: (v, d) => {
    const n = toNum(v);
    return bin('+', n, d);
  },
  num: toNum,
  and(l, r) {
    return truthy(l) ? r() : l;
  },
  or(l, r) {
    return truthy(l) ? l : r();
  },
  /** `l || r`, `l && r`, `l ?? r`, `c ? a : b` with effect-free right sides: merged without forking */
  orLite(l, r) {
    if (!(l instanceof Sym) && !isUnion(l)) return l || r();
    const t = truthTerm(l);
    if (t.lit !== undefined) return t.lit ? l : r();
    const s = speculate(r);
    if (s) return merge(t, narrow(l, true), s.v);
    return decide(t) ? l : r();
  },
  andLite(l, r) {
    if (!(l instanceof Sym) && !isUnion(l)) return l && r();
    const t = truthTerm(l);
    if (t.lit !== undefined) return t.lit ? r() : l;
    const s = speculate(r);
    if (s) return merge(t, s.v, narrow(l, false));
    return decide(t) ? r() : l;
  },
  nullish(l, r) {
    if (!isUnion(l)) return l === null || l === undefined ? r() : l;
    if (truthy(mkBool(looseTerm(l, null)))) return r();
    return l;
  },
  nullishLite(l, r) {
    if (!isUnion(l)) return l === null || l === undefined ? r() : l;
    const alts = unionAlts(l);
    if (!alts.some((a) => a.v === null || a.v === undefined)) return l;
    const s = speculate(r);
    if (!s) return $.nullish(l, r);
    return mkUnion(alts.map((a) => ({ c: a.c, v: a.v === null || a.v === undefined ? s.v : a.v })));
  },
  condLite(c, a, b) {
    const t = truthTerm(c);
    if (t.lit !== undefined) return t.lit ? a() : b();
    const k = ctx.path?.known.get(t.t);
    if (k !== undefined) return k ? a() : b();
    const x = speculate(a);
    const y = x && speculate(b);
    if (y) return merge(t, x.v, y.v);
    return decide(t) ? a() : b();
  },
  isUndef(v) {
    if (!isUnion(v)) return v === undefined;
    return truthy(mkBool(eqTerm(v, undefined)));
  },
  dflt(v, f) {
    if (!isUnion(v)) return v === undefined ? f() : v;
    const alts = unionAlts(v);
    if (!alts.some((a) => a.v === undefined)) return v;
    let d;
    let has = false;
    return mkUnion(
      alts.map((a) => {
        if (a.v !== undefined) return a;
        if (!has) {
          d = f();
          has = true;
        }
        return { c: a.c, v: d };
      }),
    );
  },
  sw(v, cases) {
    for (let i = 0; i < cases.length; i++) if (truthy(bin('===', v, cases[i]()))) return i;
    return -1;
  },
  loop() {
    if (!ctx.path) return;
    const p = P();
    if (++p.loops > ctx.maxLoop) abort('bound', 'loop iterations');
  },
  fn(name) {
    if (ctx.path && ctx.path.aborted) throw ctx.path.aborted;
    ctx.functions.set(name, (ctx.functions.get(name) ?? 0) + 1);
  },
  caught(e) {
    if (e instanceof PathAbort || e instanceof EngineError) {
      if (e instanceof EngineError && ctx.path && !ctx.path.engineError) ctx.path.engineError = e;
      throw e;
    }
    checkAlive();
  },
  spreadArgs(v) {
    if (isUnion(v)) v = force(v);
    if (v instanceof SymStr) v = concretize(v, 'spread');
    return v;
  },
  iter(v) {
    if (isUnion(v)) v = force(v);
    if (v instanceof SymStr) v = concretize(v, 'iteration');
    noSymKeys(v);
    return v;
  },
  keysIn(v) {
    if (isUnion(v)) v = force(v);
    noSymKeys(v);
    return v;
  },
};
const noSpec = { noSpec: true };
/** the box of `o` when the condition is open on this path and `o[k]` is a plain field of a symbolic object */
function mergeable(c, o, k) {
  if (!(c instanceof Sym) && !isUnion(c)) return null;
  if (!isObj(o) || typeof k !== 'string' || k in Object.prototype || symKeys.has(o)) return null;
  const b = objs.get(o);
  if (b.frozen) return null;
  const t = truthTerm(c);
  if (t.lit !== undefined || ctx.path?.known.get(t.t) !== undefined) return null;
  return b;
}
let specDepth = 0;
function speculate(f) {
  specDepth++;
  try {
    return { v: f() };
  } catch (e) {
    if (e === noSpec) return null;
    throw e;
  } finally {
    specDepth--;
  }
}
/** drop alternatives that cannot have the given truth value */
function narrow(l, want) {
  if (!isUnion(l)) return want ? l : l instanceof SymStr ? '' : l instanceof SymBool ? false : l instanceof SymNum ? 0 : l;
  const alts = unionAlts(l).filter((a) => truthTerm(a.v).lit !== !want);
  if (alts.length === 1) return want ? alts[0].v : narrow(alts[0].v, want);
  return alts.length === unionAlts(l).length ? l : mkUnion(alts);
}
function merge(t, a, b) {
  if (a === b) return a;
  const k = ctx.path.known.get(t.t);
  if (k !== undefined) return k ? a : b;
  // keep guards exclusive: a's alternatives under t, b's under not t
  return mkUnion([{ c: t, v: a }, { c: T.not(t), v: b }]);
}
