import { Gen, OPS, defaultHeaders, each } from './lib';

export const meta = {
  bounds: [
    'every operation accepting request options and the five HTTP verbs; 0-2 caller headers out of 8 names in three letter cases, any header-safe value; as a plain object, list of pairs, Headers instance or absent; idempotency key absent, undefined, empty or any header-safe string; any key and user agent',
      'a caller header and an option that name the same header with different values are outside (which one wins is not specified); a second group combines every argument shape with one header and one key; a third gives one header two values (pairs, Headers), a fourth some 50 headers at once: common ones and every name (or prefix or suffix of one) the sources mention',
  ],
};
const NAMES = ['X-Trace-Id', 'idempotency-key', 'AUTHORIZATION', 'User-Agent', 'content-type', 'X-Batch-Validation', 'Accept', 'x_custom'];
export function cases() {
  const ops = OPS.filter((o) => o.opts);
  const verbs = ['get', 'post', 'put', 'patch', 'delete'].map((m) => ({
    id: `verb.${m}`, opts: m === 'post' ? 'idem' : 'headers',
    build: () => ({ args: m === 'get' ? ['/x'] : ['/x', m === 'delete' ? undefined : { a: 1 }] }),
    call: (c, a) => c[m](...a),
  }));
  const forward = {
    id: 'emails.receiving.forward', opts: 'idem', forward: true,
    build: () => ({ args: [{ emailId: 'e1', to: 'a@b.co', from: 'c@d.co', passthrough: false, text: 't' }] }),
    call: (c, a) => c.emails.receiving.forward(...a),
  };
  /** headers of every name the sources mention and many others, all at once */
  const many = each([...ops, ...verbs, forward], async (h, op) => {
    const w = h.world({
      fetch: (req, i) => h.ok(op.forward && i === 0 ? { object: 'email', id: 'e1', subject: 's', raw: { download_url: 'https://files.example/x', expires_at: '' } } : { id: 'x' }),
    });
    const c = w.client('re_k', { userAgent: 'ua' });
    const b = op.build(new Gen(h, { level: 'light' }));
    const form = h.choice('form', ['object', 'pairs', 'Headers']);
    const v = h.str('value', { re: 'headerTight' });
    const pairs = h.headerNames().filter((n) => n !== 'idempotency-key').map((n, i) => [i % 3 === 0 ? n.toUpperCase() : i % 3 === 1 ? n : n.replace(/(^|-)[a-z]/g, (x) => x.toUpperCase()), i % 5 === 0 ? v : ['', '0', 'a, b', 'Mixed Case; q=1'][i % 4]]);
    const headers = form === 'object' ? Object.fromEntries(pairs) : form === 'pairs' ? pairs.map((p) => [...p]) : new h.G.Headers(pairs);
    await h.attempt(() => op.call(c, [...b.args, { headers }]));
    const n = op.forward ? 3 : 1;
    h.assert(w.calls.length === n, 'the requests are sent');
    if (w.calls.length !== n) return;
    const want = new Map(defaultHeaders('Bearer re_k', 'ua', op.form === true));
    if (op.opts === 'batch') want.set('x-batch-validation', 'strict');
    for (const [k, x] of pairs) want.set(k.toLowerCase(), x);
    h.assert(h.headersAre(w.calls[n - 1], [...want]), 'exactly the default and given headers are sent');
  });
  const full = ops.map((op) => ({
    name: `${op.id}: every argument shape`,
    run: async (h) => {
      const w = h.world();
      const c = w.client('re_k', { userAgent: 'ua' });
      const b = op.build(new Gen(h, { level: 'full' }));
      const v = h.str('value', { re: 'headerTight' });
      const idem = op.opts === 'idem' || op.opts === 'batch';
      const k = idem ? h.str('ikey', { re: 'headerTight', nonEmpty: true }) : null;
      await h.attempt(() => op.call(c, [...b.args, idem ? { headers: { 'X-Trace-Id': v }, idempotencyKey: k } : { headers: { 'X-Trace-Id': v } }]));
      h.assert(w.calls.length === 1, 'one request');
      if (w.calls.length !== 1) return;
      const want = [...defaultHeaders('Bearer re_k', 'ua', op.form === true), ['x-trace-id', v]];
      if (op.opts === 'batch') want.push(['x-batch-validation', 'strict']);
      if (idem) want.push(['idempotency-key', k]);
      h.assert(h.headersAre(w.calls[0], want), 'exactly the default and given headers are sent');
    },
  }));
  const free = each([...ops, ...verbs, forward], async (h, op) => {
    const w = h.world({
      fetch: (req, i) => {
        if (op.forward && i === 0) return h.ok({ object: 'email', id: 'e1', subject: 's', raw: { download_url: 'https://files.example/x', expires_at: '' } });
        return h.ok({ id: 'x' });
      },
    });
    const key = h.str('key', { re: 'headerTight', nonEmpty: true });
    const ua = h.str('ua', { re: 'headerTight' });
    const c = w.client(key, { userAgent: ua });
    const b = op.build(new Gen(h, { level: 'light' }));
    const n = h.choice('headers', 3);
    const form = h.choice('form', ['object', 'pairs', 'Headers']);
    const used = [];
    const pairs = [];
    for (let i = 0; i < n; i++) {
      const k = h.choice(`name${i}`, NAMES.length);
      h.assume(!used.includes(k));
      if (i === 1) h.assume(k > used[0]);
      used.push(k);
      pairs.push([NAMES[k], h.str(`value${i}`, { re: 'headerTight' })]);
    }
    const opts = {};
    if (n > 0 || h.flip('headers given')) {
      if (form === 'object') opts.headers = Object.fromEntries(pairs);
      else if (form === 'pairs') opts.headers = pairs.map((p) => [p[0], p[1]]);
      else opts.headers = new h.G.Headers(pairs);
    } else h.assume(form === 'object');
    let ikey = null;
    if (op.opts === 'idem' || op.opts === 'batch') {
      const k = h.choice('ikey', ['absent', 'undefined', 'empty', 'set']);
      if (k === 'undefined') opts.idempotencyKey = undefined;
      if (k === 'empty') opts.idempotencyKey = '';
      if (k === 'set') {
        ikey = h.str('ikey.v', { re: 'headerTight', nonEmpty: true });
        opts.idempotencyKey = ikey;
      }
    }
    h.assume(!(ikey !== null && used.includes(1)));
    await h.attempt(() => op.call(c, [...b.args, opts]));
    const req = w.calls[w.calls.length - 1];
    h.assert(w.calls.length === (op.forward ? 3 : 1), 'the requests are sent');
    const want = new Map(defaultHeaders(h.cat('Bearer ', key), ua, op.form === true));
    if (op.opts === 'batch') want.set('x-batch-validation', 'strict');
    for (const [k, v] of pairs) want.set(k.toLowerCase(), v);
    if (ikey !== null) want.set('idempotency-key', ikey);
    for (const [k, v] of want) h.assert(h.headerEq(req, k, v), `header ${k} is sent with its value`);
    h.assert(req.headers.length === want.size, 'no header is lost or invented');
    if (!want.has('idempotency-key')) h.assert(h.header(req, 'idempotency-key') === null, 'no idempotency key of its own');
  });
  /** one name given twice: the values are sent joined, as Headers joins them */
  const twice = each([...ops, ...verbs, forward], async (h, op) => {
    const w = h.world({
      fetch: (req, i) => h.ok(op.forward && i === 0 ? { object: 'email', id: 'e1', subject: 's', raw: { download_url: 'https://files.example/x', expires_at: '' } } : { id: 'x' }),
    });
    const c = w.client('re_k', { userAgent: 'ua' });
    const b = op.build(new Gen(h, { level: 'light' }));
    const v = h.str('value', { re: 'headerTight', nonEmpty: true });
    const v2 = h.str('value2', { re: 'headerTight', nonEmpty: true });
    const pairs = h.pick('pairs', [[['X-Trace-Id', v], ['X-Trace-Id', v2]], [['X-Trace-Id', v], ['Accept', 'a'], ['x-trace-id', v2]]]);
    const headers = h.flip('instance') ? new h.G.Headers(pairs) : pairs;
    await h.attempt(() => op.call(c, [...b.args, { headers }]));
    const n = op.forward ? 3 : 1;
    h.assert(w.calls.length === n, 'the requests are sent');
    if (w.calls.length !== n) return;
    h.assert(h.headerEq(w.calls[n - 1], 'x-trace-id', h.cat(v, ', ', v2)), 'both values of the header are sent');
  }).map((x) => ({ ...x, name: `${x.name}: a header given twice` }));
  return [...twice, ...free, ...full, ...many.map((x) => ({ ...x, name: `${x.name}: many headers` }))];
}
