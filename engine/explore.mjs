// Path exploration of one case, and native replay of its witnesses.
import fs from 'node:fs';
import { Harness, Vacuous } from './harness.mjs';
import { loadGraph, sourceNames, sources } from './loader.mjs';
import * as T from './smt.mjs';
import * as S from './sym.mjs';
import * as catalog from './catalog.mjs';

const tick = () => new Promise((r) => setImmediate(r));
process.on('unhandledRejection', () => {});

const graphs = new Map();
export function loadProp(file, mode) {
  const key = `${mode}:${file}`;
  if (!graphs.has(key)) {
    const globals = { ...globalThis, process, console, Buffer, setTimeout, clearTimeout, setInterval, clearInterval, setImmediate, clearImmediate, queueMicrotask, Date, crypto, URL, URLSearchParams, Headers, FormData, Blob, File, TextEncoder, TextDecoder, btoa, atob, Uint8Array, Math, AbortController, AbortSignal, Request, Response, fetch, performance, globalThis };
    const keep = S.ctx.path;
    S.ctx.path = S.newPath([]);
    graphs.set(key, loadGraph(file, mode, { globals, stubs: { catalog: catalog } }));
    S.ctx.path = keep;
  }
  return graphs.get(key);
}
export function casesOf(file, mode, tier) {
  return loadProp(file, mode).cases(tier);
}

async function race(p, run) {
  let stop;
  const aborted = new Promise((r) => {
    stop = r;
  });
  p.onAbort = (e) => stop({ abort: e });
  const r = (async () => {
    try {
      await run();
      return { done: true };
    } catch (e) {
      return e instanceof S.PathAbort ? { abort: e } : { error: e };
    }
  })();
  return Promise.race([r, aborted]);
}

/** native replay of one assignment: returns {asserts, error, vacuous} */
export async function replay(file, name, inputs, tier) {
  const c = casesOf(file, 'native', tier).find((x) => x.name === name);
  const h = new Harness('native', inputs, { tier });
  S.ctx.path = null;
  let error;
  let hung = false;
  let to;
  const r = (async () => {
    try {
      await c.run(h);
    } catch (e) {
      if (!(e instanceof Vacuous)) error = e;
    }
  })();
  await Promise.race([r, new Promise((res) => { to = setTimeout(() => { hung = true; res(); }, 10_000); })]);
  clearTimeout(to);
  if (!error && h.callbackError && !(h.callbackError instanceof Vacuous)) error = h.callbackError;
  return { asserts: h.asserts, vacuous: h.vacuous, error, hung };
}

export function emptyStats() {
  return {
    paths: 0, completed: 0, infeasible: 0, bound: 0, unknown: 0, engine: 0, harness: 0, validated: 0, mismatches: 0, unreproduced: 0, concretised: 0,
    notes: {}, violations: [], samples: [], errors: [],
  };
}
function note(st, k) {
  st.notes[k] = (st.notes[k] ?? 0) + 1;
}

/** Explore from the given prefixes until done or the budget is spent. */
export async function explore(file, name, prefixes, { tier, ms = 10_000, maxPaths = 1e9, rng = Math.random, validate = true, onViolation = null }) {
  const st = emptyStats();
  st.onViolation = onViolation;
  const c = casesOf(file, 'sym', tier).find((x) => x.name === name);
  const t0 = performance.now();
  const work = [...prefixes];
  while (work.length && performance.now() - t0 < ms && st.paths < maxPaths) {
    const prefix = work.pop();
    const p = S.newPath(prefix);
    S.ctx.path = p;
    const h = new Harness('sym', p, { tier });
    let r = await race(p, () => c.run(h));
    if (h.callbackError && !(h.callbackError instanceof S.PathAbort) && !r.abort) r = { error: r.error ?? h.callbackError };
    st.paths++;
    for (const i of p.incomplete) note(st, i);
    if (p.incomplete.length) st.concretised++;
    work.push(...p.alts);
    let kind;
    if (r.done && !p.engineError) kind = 'completed';
    else if (r.abort) kind = r.abort.why in st ? r.abort.why : 'unknown';
    else if (p.engineError || r.error instanceof S.EngineError) kind = 'engine';
    else kind = 'harness';
    st[kind]++;
    if (kind === 'bound' || kind === 'unknown') note(st, `${kind}: ${r.abort.detail ?? ''}`);
    if (kind === 'engine' || kind === 'harness') {
      const e = p.engineError ?? r.error;
      if (st.errors.length < 5) st.errors.push(`${kind}: ${e && e.stack ? e.stack.split('\n').slice(0, 6).join(' | ') : String(e)}`);
    }
    const names = [...p.inputs];
    let wit = null;
    if (kind !== 'infeasible' && validate && !(kind === 'bound' && r.abort.detail === 'loop iterations')) {
      const m = S.solveModel([], names.map((e) => e[1]));
      if (m.values) wit = { result: m.result, inputs: Object.fromEntries(names.map((e, i) => [e[0], m.values[i]])) };
      else note(st, `no witness: ${m.result}`);
    }
    if (!p.aborted) p.aborted = new S.PathAbort('done');
    await tick();
    await tick();
    S.ctx.path = null;
    // candidate violations found by the solver
    const seen = new Set();
    for (const v of p.violations) {
      if (!v.inputs) {
        st.unreproduced++;
        note(st, `no model for ${v.label}`);
        continue;
      }
      const rep = await replay(file, name, v.inputs, tier);
      const bad = rep.asserts.filter((a) => !a.ok);
      if (bad.length || (rep.error && kind === 'harness')) {
        for (const b of bad) {
          if (seen.has(b.label)) continue;
          seen.add(b.label);
          record(st, name, b.label, v.inputs, 'solver counterexample reproduced natively');
        }
      } else {
        st.unreproduced++;
        note(st, `unreproduced: ${v.label}`);
        if (process.env.SYM_DEBUG) console.error('UNREPRODUCED', name, v.label, v.term, JSON.stringify(v.inputs).slice(0, 1500), rep.error);
      }
    }
    if (wit) {
      const rep = await replay(file, name, wit.inputs, tier);
      const bad = rep.asserts.filter((a) => !a.ok);
      for (const b of bad) {
        if (seen.has(b.label)) continue;
        seen.add(b.label);
        record(st, name, b.label, wit.inputs, 'path witness violates the property natively');
      }
      if (rep.error && kind === 'harness') record(st, name, 'malformed-result', wit.inputs, `harness raised: ${String(rep.error)}`);
      else if (rep.hung) note(st, 'native replay did not finish');
      else if (kind === 'completed') {
        if (!bad.length && !rep.error && !rep.vacuous && rep.asserts.length === (p.asserted ?? 0)) st.validated++;
        else if (!bad.length) {
          st.mismatches++;
          note(st, 'mismatch');
          if (process.env.SYM_DEBUG) console.error('MISMATCH', name, rep.asserts.length, p.asserted, rep.vacuous, rep.error, wit.result, JSON.stringify(wit.inputs).slice(0, 1500));
        }
      }
      if (st.samples.length < 1) st.samples.push({ case: name, inputs: wit.inputs, assertions: rep.asserts.map((a) => a.label).slice(0, 12) });
    }
  }
  // shuffle the frontier so that truncation samples it
  for (let i = work.length - 1; i > 0; i--) {
    const j = Math.floor(rng() * (i + 1));
    [work[i], work[j]] = [work[j], work[i]];
  }
  delete st.onViolation;
  return { st, left: work };
}
function record(st, name, label, inputs, how) {
  if (st.violations.some((v) => v.label === label)) return;
  const v = { case: name, label, inputs, how };
  st.violations.push(v);
  st.onViolation?.(v);
}
export function solverStats() {
  return S.ctx.solver ? S.ctx.solver.stats : null;
}
export function initSolver(opts) {
  S.ctx.solver = new T.Solver(opts);
  // sampled values for finding models also use what the sources compare with
  S.ctx.dictionary = sourceNames().literals.filter((l) => !/^\/[a-z]/.test(l)).slice(0, 12).map((l) => `x${l}y`);
}
export { sources, fs };
