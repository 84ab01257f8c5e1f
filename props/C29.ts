import { ALL_KINDS, Gen, OPS, REACT_OPS, VERBS, callerOptions, checkResult, download, each, forwardCase, okBody, reactBuild } from './lib';

export const meta = {
  bounds: [
    'every operation and HTTP verb with every documented argument shape; every outcome of the exchange; process absent, without an environment, NODE_ENV absent, "production" or any other string, also when it changes after the client was made',
    'secrets are any strings that begin and end with a marker of two letters: the API key, all caller and default header values, the idempotency key, every string of the request body (React output and forwarded content included); every other string consists of lower-case letters and digits',
    'three calls that fail or not, one after the other, together and answered in reverse, to one path or to different ones',
    'responses that carry some fifty more headers, those the sources mention among them',
    'the console and the output streams of process are observed; nested objects, errors, headers, forms and serialised JSON are searched',
  ],
};
const secret = (re) => (re === 'safeId' || re === 'rawSafe' ? 'lowerId' : 'secret');
const plain = (re) => (re === 'headerTight' ? 'lowerTight' : re === 'safeId' || re === 'rawSafe' ? 'lowerId' : 'lower');
/** run f with the strings it makes being secrets or not */
function making(h, map, f) {
  const old = h.reMap;
  h.reMap = map;
  try {
    return f();
  } finally {
    h.reMap = old;
  }
}
function environment(h) {
  const k = h.choice('process', ['none', 'no env', 'unset', 'production', 'other', 'turned production', 'turned development']);
  if (k === 'none') return { k, env: null };
  if (k === 'no env') return { k, env: undefined };
  // any other variable the sources mention may be set as well
  return { k, env: h.env(k === 'production' || k === 'turned development' ? { NODE_ENV: 'production' } : k === 'other' ? { NODE_ENV: h.str('NODE_ENV', { not: ['production'] }) } : {}) };
}
const silent = (k) => ['none', 'no env', 'production', 'turned production'].includes(k);
function world(h, e, opts) {
  const key = making(h, secret, () => h.str('key'));
  const w = h.world({ ...opts, env: e.env, process: e.k === 'no env' ? 'noenv' : undefined, logTexts: true });
  const c = w.client(h.cat('re_', key));
  if (e.k === 'turned production') e.env.NODE_ENV = 'production';
  if (e.k === 'turned development') e.env.NODE_ENV = 'development';
  return { w, c };
}
function checkSecrets(h, w) {
  for (const log of w.logs) h.assert(h.noSecret(log), 'no secret is written');
}
/** the one log of a failed exchange */
function checkLog(h, w, req, o, error) {
  h.assert(w.logs.length === 1, 'a failed exchange is logged once');
  if (w.logs.length !== 1) return;
  const objs = w.logs[0].args.filter((a) => h.isObject(a) && 'path' in a && 'error' in a);
  h.assert(objs.length === 1, 'the log shows path and error');
  if (objs.length !== 1) return;
  const got = objs[0];
  h.assert(h.eq(h.cat('https://api.resend.com', got.path), req.url), 'the log shows the path');
  h.assert(h.same(got.error, error), 'the log shows the error');
  if (o.kind.startsWith('err')) h.assert(h.eq(got.status, o.status), 'the log shows the status');
  if (o.kind === 'network') h.assert(h.isUndef(got.status), 'there is no status without a response');
}
const reads = (op) => op.list === true || /\.(list|get|metrics|clickedLinks|share)$/.test(op.id);
export function cases() {
  return [
    ...each([...OPS, ...VERBS], async (h, op) => {
      const e = environment(h);
      let o;
      const { w, c } = world(h, e, {
        fetch: () => {
          // outside the plain case, one outcome of each sort is enough
          const kinds = e.k === 'unset' ? ALL_KINDS : ['okJson', 'errJson', 'network'];
          o = making(h, plain, () => h.outcome('r', { kinds, light: true, data: () => okBody(h, op, 'data') }));
          return o;
        },
      });
      const { b, x } = making(h, reads(op) ? plain : secret, () => ({
        b: op.build(new Gen(h, { level: 'full', lean: true })),
        x: op.opts && e.k === 'unset' ? making(h, secret, () => callerOptions(h, op)) : null,
      }));
      const r = await h.attempt(() => op.call(c, x === null ? b.args : [...b.args, x]));
      await h.quiesce();
      h.assert(w.calls.length === 1, 'one request');
      if (w.calls.length !== 1) return;
      checkSecrets(h, w);
      checkResult(h, op, r, o);
      if (o.kind === 'okJson' || silent(e.k)) h.assert(w.logs.length === 0, 'nothing is written');
      else if (r.ok) checkLog(h, w, w.calls[0], o, r.value.error);
    }),
    ...each(VERBS, async (h, op) => {
      h.wideHeaders = true;
      const e = { k: 'unset', env: h.env({}) };
      let o;
      const { w, c } = world(h, e, {
        fetch: () => {
          o = making(h, plain, () => h.outcome('r', { kinds: ['okJson', 'errJson'], light: true }));
          return o;
        },
      });
      const b = making(h, secret, () => op.build(new Gen(h, { level: 'light' })));
      const r = await h.attempt(() => op.call(c, b.args));
      await h.quiesce();
      h.assert(w.calls.length === 1, 'one request');
      if (w.calls.length !== 1) return;
      checkSecrets(h, w);
      if (o.kind === 'okJson') h.assert(w.logs.length === 0, 'nothing is written');
      else if (r.ok) checkLog(h, w, w.calls[0], o, r.value.error);
    }).map((x) => ({ ...x, name: `${x.name}: many response headers` })),
    // the same failure again and again, and failures while other calls are in flight
    ...['one after the other', 'together', 'answered in reverse'].flatMap((how) => ['the same path', 'other paths'].map((which) => ({
      name: `three calls ${how}, ${which}`,
      run: async (h) => {
        const e = { k: 'unset', env: h.env({}) };
        const id = h.str('id', { re: 'lowerId', nonEmpty: true });
        const ids = which === 'the same path' ? [id, id, id] : [h.cat('a', id), h.cat('b', id), h.cat('c', id)];
        const kind = h.choice('kind', ['errJson', 'network', 'errBad']);
        const fails = [h.flip('first fails'), h.flip('second fails'), h.flip('third fails')];
        const bad = making(h, plain, () => h.outcome('r', { kinds: [kind], light: true }));
        const gates = [0, 1, 2].map(() => {
          const g = {};
          g.done = new Promise((r) => {
            g.open = r;
          });
          return g;
        });
        const { w, c } = world(h, e, {
          fetch: (req, i) => {
            const j = which === 'the same path' ? i : [0, 1, 2].find((k) => h.when(h.endsWith(req.url, h.cat('/', ids[k]))));
            const o = fails[j] ? { ...bad } : h.ok({ id: 'x' });
            return how === 'one after the other' ? o : { ...o, gate: gates[j].done };
          },
        });
        const rs = [];
        for (const x of ids) {
          const r = h.start(() => c.emails.get(x));
          rs.push(r);
          if (how === 'one after the other') await h.wait(r);
        }
        if (how !== 'one after the other') {
          for (const j of how === 'together' ? [0, 1, 2] : [2, 1, 0]) {
            gates[j].open();
            await h.quiesce();
          }
          for (const r of rs) await h.wait(r);
        }
        await h.quiesce();
        checkSecrets(h, w);
        const order = (how === 'answered in reverse' ? [2, 1, 0] : [0, 1, 2]).filter((j) => fails[j]);
        h.assert(w.logs.length === order.length, 'each failed exchange is logged once');
        if (w.logs.length !== order.length) return;
        order.forEach((j, n) => {
          const r = rs[j];
          if (!r.ok) return;
          checkLog(h, { logs: [w.logs[n]] }, { url: h.cat('https://api.resend.com/emails/', ids[j]) }, bad, r.value.error);
        });
      },
    }))),
    ...REACT_OPS.map((id) => ({
      name: `React ${id}`,
      run: async (h) => {
        const e = environment(h);
        const html = making(h, secret, () => h.str('html'));
        let o;
        const { w, c } = world(h, e, {
          render: () => html,
          fetch: () => {
            o = making(h, plain, () => h.outcome('r', { kinds: ['okJson', 'errJson', 'network'], light: true }));
            return o;
          },
        });
        const b = making(h, secret, () => reactBuild(h, id, new Gen(h, { level: 'full', lean: true }), () => html));
        const r = await h.attempt(() => b.op.call(c, b.args));
        await h.quiesce();
        checkSecrets(h, w);
        if (w.calls.length !== 1) return;
        if (o.kind === 'okJson' || silent(e.k)) h.assert(w.logs.length === 0, 'nothing is written');
        else if (r.ok) checkLog(h, w, w.calls[0], o, r.value.error);
      },
    })),
    ...['passthrough', 'wrapped'].map((mode) => ({
      name: `emails.receiving.forward ${mode}`,
      run: async (h) => {
        const e = environment(h);
        const f = making(h, secret, () => forwardCase(h, mode === 'wrapped', {}));
        const bin = making(h, secret, () => h.str('raw'));
        const stage = h.choice('fails', ['never', 'get', 'download', 'send']);
        let o;
        const bad = () => {
          o = making(h, plain, () => h.outcome('r', { kinds: ['errJson', 'errBad', 'network'], light: true }));
          return o;
        };
        const { w, c } = world(h, e, {
          parseMail: () => ({ headers: [], subject: 'x', text: bin, html: undefined, attachments: [{ filename: bin, mimeType: 'text/plain', content: bin, contentId: undefined }] }),
          fetch: (req, i) => {
            if (i === 0) return stage === 'get' ? bad() : h.ok(f.email);
            if (i === 1) return stage === 'download' ? bad() : download(bin);
            return stage === 'send' ? bad() : h.ok({ id: 'x' });
          },
        });
        const r = await h.attempt(() => c.emails.receiving.forward(f.options));
        await h.quiesce();
        checkSecrets(h, w);
        if (stage === 'never' || silent(e.k)) h.assert(w.logs.length === 0, 'nothing is written');
        else if (r.ok && stage !== 'download') checkLog(h, w, w.calls[w.calls.length - 1], o, r.value.error);
      },
    })),
  ];
}
