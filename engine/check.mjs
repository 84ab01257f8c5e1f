// node engine/check.mjs <PROPERTY> [--tier quick|thorough] [--case NAME] [--jobs N] [--replay FILE] [--ms BUDGET]
import { fork } from 'node:child_process';
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { fileURLToPath } from 'node:url';

const HERE = path.dirname(fileURLToPath(import.meta.url));
const ROOT = path.dirname(HERE);

if (process.argv[2] === '--worker') {
  await worker();
} else {
  await main();
}

// ------------------------------------------------------------------ worker
async function worker() {
  const { explore, initSolver, solverStats, sources } = await import('./explore.mjs');
  const S = await import('./sym.mjs');
  initSolver({});
  let seed = Number(process.env.VERIF_SEED ?? 1) * 7919 + Number(process.env.SYM_WORKER ?? 0);
  const rng = () => {
    seed = (seed * 1103515245 + 12345) & 0x7fffffff;
    return seed / 0x7fffffff;
  };
  process.on('message', async (m) => {
    if (m.exit) process.exit(0);
    let r;
    try {
      r = await explore(m.file, m.name, m.prefixes, { tier: m.tier, ms: m.ms, rng, maxPaths: m.maxPaths ?? 1e9, onViolation: (violation) => process.send({ violation }) });
    } catch (e) {
      r = { fatal: e && e.stack ? e.stack : String(e) };
    }
    process.send({ id: m.id, ...r, totals: { ...S.ctx.totals }, functions: [...S.ctx.functions], solver: { ...solverStats() }, sources: [...sources] });
  });
  process.send({ ready: true });
}

// ------------------------------------------------------------------ master
async function main() {
  const args = process.argv.slice(2);
  const prop = args[0];
  const opt = (n, d) => (args.includes(n) ? args[args.indexOf(n) + 1] : d);
  const tier = opt('--tier', process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick');
  const file = path.join(ROOT, 'props', `${prop}.ts`);
  const t0 = performance.now();
  const cache = fs.mkdtempSync(path.join(os.tmpdir(), 'symcache-'));
  process.env.SYM_CACHE = cache;
  process.on('exit', () => {
    try {
      fs.rmSync(cache, { recursive: true, force: true });
    } catch {}
  });
  const { casesOf, loadProp, replay } = await import('./explore.mjs');
  const { sourceNames } = await import('./loader.mjs');
  sourceNames(); // parsed once; the workers find it in the cache directory
  if (args.includes('--replay')) {
    const rp = JSON.parse(fs.readFileSync(opt('--replay'), 'utf8'));
    const r = await replay(path.join(ROOT, 'props', `${rp.property}.ts`), rp.case, rp.inputs, rp.tier);
    console.log(JSON.stringify({ case: rp.case, inputs: rp.inputs, assertions: r.asserts, error: r.error && String(r.error) }, null, 1));
    process.exit(r.asserts.some((a) => !a.ok) || r.error ? 1 : 0);
  }
  const meta = loadProp(file, 'native').meta ?? {};
  let cases = casesOf(file, 'native', tier);
  if (opt('--case')) cases = cases.filter((c) => c.name.includes(opt('--case')));
  let budget = Number(opt('--ms', tier === 'thorough' ? meta.thoroughMs ?? 780_000 : meta.quickMs ?? 260_000));
  const jobs = Number(opt('--jobs', Math.min(8, os.cpus().length)));
  const slice = tier === 'thorough' ? 6000 : 2500;

  const agg = { paths: 0, completed: 0, infeasible: 0, bound: 0, unknown: 0, engine: 0, harness: 0, validated: 0, mismatches: 0, unreproduced: 0, concretised: 0 };
  const notes = {};
  const per = new Map(cases.map((c) => [c.name, { paths: 0, completed: 0, bad: 0, validated: 0, left: 0, jobs: 0 }]));
  const knownFile = path.join(ROOT, 'known-findings.json');
  const known = fs.existsSync(knownFile) ? JSON.parse(fs.readFileSync(knownFile, 'utf8')).findings.filter((f) => f.status === 'known' && f.property === prop) : [];
  const isKnown = (v) => known.find((f) => f.case === v.case && f.label === v.label);
  const violations = [];
  /** a first violation outside the known findings leaves the run a short while to find more */
  const found = (v) => {
    if (violations.some((x) => x.case === v.case && x.label === v.label)) return;
    violations.push(v);
    if (!isKnown(v)) budget = Math.min(budget, performance.now() - t0 + (tier === 'thorough' ? 120_000 : 20_000));
  };
  const samples = [];
  const errors = [];
  const queue = cases.map((c) => ({ name: c.name, prefixes: [[]] }));
  const workersInfo = new Map();
  let stopping = false;
  const perCaseCap = meta.maxPathsPerCase?.[tier] ?? Infinity;

  await new Promise((resolve) => {
    const idle = [];
    const active = new Map();
    let nextId = 1;
    const n = Math.max(1, Math.min(jobs, meta.jobs ?? jobs));
    let alive = 0;
    const finishIfDone = () => {
      const over = performance.now() - t0 > budget;
      if (over && !stopping) {
        stopping = true;
        for (const q of queue) per.get(q.name).left += q.prefixes.length;
        queue.length = 0;
      }
      if (queue.length === 0 && active.size === 0) {
        for (const w of workersInfo.keys()) w.kill('SIGKILL');
        resolve();
      }
    };
    const dispatch = () => {
      while (idle.length && queue.length) {
        const w = idle.shift();
        const job = queue.shift();
        const id = nextId++;
        const left = budget - (performance.now() - t0);
        const ms = Math.max(500, Math.min(slice, left));
        const pc = per.get(job.name);
        pc.jobs++;
        active.set(w, { id, job, since: performance.now(), ms });
        w.send({ id, file, name: job.name, prefixes: job.prefixes, tier, ms, maxPaths: Math.max(1, perCaseCap - pc.paths) });
      }
      finishIfDone();
    };
    const launch = (k) => {
      const w = fork(fileURLToPath(import.meta.url), ['--worker'], { env: { ...process.env, SYM_WORKER: String(k) }, execArgv: ['--stack-size=3000', '--max-old-space-size=3000'] });
      alive++;
      workersInfo.set(w, {});
      w.on('message', (m) => {
        if (m.ready) {
          idle.push(w);
          dispatch();
          return;
        }
        if (m.violation) {
          found(m.violation);
          return;
        }
        const a = active.get(w);
        active.delete(w);
        idle.push(w);
        workersInfo.set(w, { totals: m.totals, functions: m.functions, solver: m.solver, sources: m.sources });
        const pc = per.get(a.job.name);
        if (m.fatal) {
          errors.push(`${a.job.name}: ${m.fatal}`);
          pc.bad++;
          agg.engine++;
        } else {
          for (const key of Object.keys(agg)) agg[key] += m.st[key];
          for (const [key, v] of Object.entries(m.st.notes)) notes[key] = (notes[key] ?? 0) + v;
          for (const e of m.st.errors) if (errors.length < 20) errors.push(`${a.job.name}: ${e}`);
          pc.paths += m.st.paths;
          pc.completed += m.st.completed;
          pc.validated += m.st.validated;
          pc.bad += m.st.engine + m.st.harness + m.st.unknown + m.st.bound;
          for (const s of m.st.samples) if (samples.length < 6 && !samples.some((x) => x.case === s.case)) samples.push(s);
          for (const v of m.st.violations) found(v);
          if (m.left.length) {
            if (stopping || pc.paths >= perCaseCap || performance.now() - t0 > budget) pc.left += m.left.length;
            else {
              // split the frontier for idle workers
              const k2 = Math.max(1, Math.min(m.left.length, idle.length + (queue.length < n ? 2 : 0)));
              for (let i = 0; i < k2; i++) queue.push({ name: a.job.name, prefixes: m.left.filter((_, j) => j % k2 === i) });
            }
          }
        }
        dispatch();
      });
      w.on('exit', () => {
        alive--;
        const a = active.get(w);
        active.delete(w);
        const i = idle.indexOf(w);
        if (i >= 0) idle.splice(i, 1);
        if (a) {
          errors.push(`${a.job.name}: worker ended`);
          per.get(a.job.name).bad++;
          per.get(a.job.name).left += a.job.prefixes.length;
          agg.engine++;
          if (!stopping) launch(k);
        }
        if (alive === 0 && !(queue.length === 0 && active.size === 0)) {
          stopping = true;
          resolve();
        } else if (alive > 0) dispatch();
      });
    };
    for (let i = 0; i < n; i++) launch(i);
    const iv = setInterval(() => {
      for (const [w, a] of active) if (performance.now() - a.since > a.ms + 40_000 || (stopping && violations.some((v) => !isKnown(v)) && performance.now() - t0 > budget + 10_000)) w.kill('SIGKILL');
      finishIfDone();
    }, 1000);
    iv.unref();
  });

  // ---------------------------------------------------------------- report
  const totals = { decisions: 0, forks: 0, asserts: 0, assertQueries: 0, trivialAsserts: 0, concretised: 0, unknown: 0 };
  const solver = { queries: 0, cached: 0, sat: 0, unsat: 0, unknown: 0, errors: 0, ms: 0, lemmas: 0 };
  const functions = new Map();
  const srcs = new Set();
  for (const i of workersInfo.values()) {
    if (!i.totals) continue;
    for (const k of Object.keys(totals)) totals[k] += i.totals[k];
    for (const k of Object.keys(solver)) solver[k] += i.solver[k];
    for (const [f, c] of i.functions) if (f.startsWith('src/')) functions.set(f, (functions.get(f) ?? 0) + c);
    for (const s of i.sources) srcs.add(s);
  }
  const evDir = path.join(ROOT, 'evidence');
  fs.mkdirSync(path.join(evDir, 'replays'), { recursive: true });
  for (const f of fs.readdirSync(path.join(evDir, 'replays'))) if (f.startsWith(`${prop}-`)) fs.unlinkSync(path.join(evDir, 'replays', f));
  let bad = 0;
  const hitKnown = [];
  const lines = [];
  for (const v of violations) {
    const k = isKnown(v);
    if (k) {
      hitKnown.push(k);
      lines.push(`KNOWN-FINDING: property=${prop} ${v.case}: ${k.what}`);
      continue;
    }
    bad++;
    const rp = path.join(evDir, 'replays', `${prop}-${bad}.json`);
    fs.writeFileSync(rp, JSON.stringify({ property: prop, tier, case: v.case, label: v.label, how: v.how, inputs: v.inputs, replay: `node engine/check.mjs ${prop} --replay ${rp}` }, null, 1));
    lines.push(`VIOLATION property=${prop} replay=${rp}`, `  case ${v.case}: ${v.label} (${v.how})`);
  }
  const truncated = [...per].filter(([, p]) => p.left > 0).map(([n2, p]) => `${n2}: ${p.left} open prefixes after ${p.paths} paths`);
  const dead = [...per].filter(([, p]) => p.completed === 0).map(([n2]) => n2);
  const wall = (performance.now() - t0) / 1000;
  const ev = {
    property: prop, tier, seed: Number(process.env.VERIF_SEED ?? 1), level: 'model_checking',
    coverage: {
      states: agg.paths, transitions: totals.decisions, traces_validated_against_impl: agg.validated, samples,
      exhaustive: truncated.length === 0 && dead.length === 0 && agg.bound + agg.unknown + agg.engine + agg.harness + agg.concretised === 0,
      cases: cases.length, paths_completed: agg.completed, paths_infeasible: agg.infeasible, paths_cut_at_bound: agg.bound, paths_solver_unknown: agg.unknown,
      paths_engine_error: agg.engine, paths_harness_error: agg.harness, paths_with_concretised_values: agg.concretised, replay_mismatches: agg.mismatches,
      unreproduced_counterexamples: agg.unreproduced, assertions_checked: totals.asserts, assertions_decided_by_solver: totals.assertQueries, assertions_decided_by_rewriting: totals.trivialAsserts,
      forks: totals.forks, solver_queries: solver.queries, solver_cache_hits: solver.cached, solver_sat: solver.sat, solver_unsat: solver.unsat, solver_unknown: solver.unknown,
      solver_errors: solver.errors, solver_ms: Math.round(solver.ms), functions_encoded: [...functions.keys()].sort(), source_files: [...srcs].filter((s) => s.startsWith('src/')).length,
      bounds: meta.bounds ?? [], truncated, cases_without_a_complete_path: dead, notes, known_findings: hitKnown.length, case_paths: Object.fromEntries([...per].map(([k, v]) => [k, v.paths])),
    },
    assumptions: meta.assumptions ?? [],
    wall_s: Math.round(wall * 100) / 100,
    violations: bad,
  };
  if (errors.length) ev.coverage.errors = errors;
  fs.writeFileSync(path.join(evDir, `${prop}.json`), JSON.stringify(ev, null, 1));
  for (const l of lines) console.log(l);
  console.log(`${prop} ${tier}: ${cases.length} cases, ${agg.paths} paths (${agg.completed} complete, ${agg.infeasible} infeasible, ${agg.bound} bound, ${agg.unknown} unknown, ${agg.engine} engine, ${agg.harness} harness), ${totals.assertQueries}+${totals.trivialAsserts} assertions, ${solver.queries} queries ${Math.round(solver.ms)} ms, ${agg.validated} replayed, ${agg.mismatches} mismatches, ${agg.unreproduced} unreproduced, ${agg.concretised} concretised, ${functions.size} functions, ${wall.toFixed(1)} s${truncated.length ? `, TRUNCATED ${truncated.length}` : ''}`);
  if (args.includes('-v')) {
    for (const e of errors) console.log('  error', e);
    console.log('  notes', JSON.stringify(notes));
    for (const t of truncated) console.log('  truncated', t);
    if (dead.length) console.log('  no complete path:', dead.join(', '));
    console.log(JSON.stringify(Object.fromEntries([...per].map(([k, v]) => [k, v.paths]))));
  } else if (agg.engine || agg.harness || dead.length) console.log(`  INCONCLUSIVE parts: ${errors.slice(0, 3).join('; ')} ${dead.slice(0, 5).join(', ')}`);
  process.exit(bad ? 1 : 0);
}
