import { FAILURES, Gen, OPS, VERBS, checkRequest, checkResult, defaultHeaders, each, okBody, opById, reactNode } from './lib';

export const meta = {
  bounds: [
    'every operation and HTTP verb, after one of ten kinds of history of up to 3 earlier calls, or of 130: the same call itself with other arguments, the same call repeated, an email send with options, a permissive batch, a verb call with headers and a form, calls without options (an import form, an email, a read), three or twelve failing calls, the call itself and sends over and over, another client with another key, a forwarded email',
    'calls with every field and lists of 51 (batches: 101 short emails) after calls with options of every kind',
    'earlier calls end in a success, an HTTP error (any status, error name, message and retry-after) or a rejection; required arguments (thorough: every argument shape); lists after the same list: every subset of options of both (with filters: at most one, or all, of them); some lists with several argument shapes only in thorough; the checked call succeeds or fails with symbolic content',
  ],
};
/** so many earlier calls */
const LONG = 130;
const HIST = ['same operation', 'same call', 'send with options', 'permissive batch', 'verbs', 'plain calls', 'failures', 'other client', 'forward', 'many calls'];
/** at most one of the given query options, or (all) all but at most one */
function few(h, q, all) {
  const us = q.map((e) => h.isUndef(e[1]));
  if (us.length < 4) return;
  const pairs = (l) => h.and(...l.flatMap((x, i) => l.slice(i + 1).map((y) => h.or(x, y))));
  const one = pairs(us);
  h.assume(all ? h.or(one, h.and(us.map((u) => h.not(u)))) : one);
}
/** the same method, URL and body */
const same = (h, a, b) => h.and(a.method === b.method, h.eq(a.url, b.url), h.isStr(a.body) && h.isStr(b.body) ? h.eq(a.body, b.body) : h.isStr(a.body) === h.isStr(b.body));
/** lists with many shapes of arguments */
const MANY = ['emails.metrics', 'automations.runs.list', 'contacts.list', 'contacts.topics.list', 'contacts.segments.list'];
/** long calls (every field, lists of 51 and, for batches, 101 short emails) after calls with options of every kind */
function big() {
  return OPS.filter((op) => LARGE.test(op.id)).map((op) => ({
    name: `${op.id}: a long call`,
    run: async (h) => {
      const batch = op.opts === 'batch';
      const w = h.world({ render: async () => 'rendered', fetch: () => h.ok(op.shape === 'propertyList' ? { object: 'list', data: [] } : {}) });
      const c = w.client('re_k', { userAgent: 'ua' });
      const other = { headers: { 'X-Past': 'p', 'x-batch-validation': 'past' }, idempotencyKey: 'past' };
      const past = op.build(new Gen(h, { level: 'light', prefix: 'past.' }));
      await h.attempt(() => op.call(c, op.opts ? [...past.args, other] : past.args));
      await h.attempt(() => c.emails.send({ from: 'f', to: 't', subject: 's', text: 'x', react: reactNode('past') }, other));
      await h.attempt(() => c.batch.send([{ from: 'f', to: 't', subject: 's', text: 'x' }], { batchValidation: 'permissive', idempotencyKey: 'past' }));
      const list = Array.from({ length: 101 }, (_, i) => ({ from: 'f@x.co', to: h.str(`to${i}`), subject: 's', text: 't' }));
      const b = batch ? { ...past, args: [list], body: list } : op.build(new Gen(h, { level: 'full', large: 51 }));
      const before = w.calls.length;
      await h.attempt(() => op.call(c, b.args));
      h.assert(w.calls.length === before + 1, 'the call sends one request of its own');
      if (w.calls.length !== before + 1) return;
      checkRequest(h, w.calls[before], b);
      const want = defaultHeaders('Bearer re_k', 'ua', op.form === true);
      if (batch) want.push(['x-batch-validation', 'strict']);
      h.assert(h.headersAre(w.calls[before], want), 'no header of an earlier call is sent');
    },
  }));
}
const LARGE = /\.(send|create|update|add|remove)$/;
export function cases(tier) {
  const level = tier === 'thorough' ? 'full' : 'light';
  return [...big(), ...each([...OPS, ...VERBS], async (h, op) => {
    let now = false;
    let o = null;
    let n = 0;
    let again = null;
    const hist = h.choice('history', HIST);
    const failing = hist === 'failures' ? h.choice('failing', ['three', 'http', 'rejected']) : '';
    const own = hist === 'same operation' || hist === 'same call';
    // lists: their options are short, and two calls of the same list are what one does
    const wide = hist === 'same operation' && Boolean(op.list) && (tier === 'thorough' || !MANY.includes(op.id));
    const w = h.world({
      render: async () => 'rendered',
      fetch: () => {
        if (now) {
          const x = o === null ? h.outcome('r', { kinds: wide ? ['okJson'] : tier === 'thorough' ? ['okJson', 'errJson', 'errBad', 'network'] : ['okJson', 'errJson'], data: () => (op.shape ? okBody(h, op, 'data') : h.jsonObj('data')) }) : h.ok({});
          if (o === null) o = x;
          return x;
        }
        n++;
        const k = hist === 'failures' ? (failing === 'http' ? 1 : failing === 'rejected' ? 2 : 1 + (n % 2)) : n > 2 || wide || hist === 'many calls' ? 0 : h.choice(`past${n}`, 3);
        if (k === 0 && own) return h.outcome(`past${n}`, { kinds: ['okJson'], light: true, data: () => (op.shape ? okBody(h, op, `past${n}.data`) : h.jsonObj(`past${n}.data`)) });
        if (k === 0) return op.shape === 'propertyList' ? h.ok({ object: 'list', has_more: false, data: [] }) : h.ok({ object: 'email', id: 'id0', data: [], subject: 's', raw: { download_url: 'https://files.example/x', expires_at: '' } });
        if (k === 1 && failing === 'http' && again !== null) return again;
        if (k === 1) return again = { type: 'response', status: h.statusBad(`past${n}`), headers: [['retry-after', h.str(`past${n}.ra`, { re: 'headerTight' })], ['x-past', '1']], body: { k: 'json', v: { name: h.str(`past${n}.name`), message: h.str(`past${n}.message`), statusCode: h.int(`past${n}.code`, 100, 599) } } };
        return { type: 'reject', e: new TypeError('past') };
      },
    });
    const key = h.str('key', { re: 'headerTight', nonEmpty: true });
    const c = w.client(key, { userAgent: 'ua' });
    const b = op.build(new Gen(h, { level: wide ? 'full' : level }));
    if (wide) few(h, b.query ?? [], false);
    const headers = () => [...defaultHeaders(h.cat('Bearer ', key), 'ua', op.form === true), ...(op.opts === 'batch' ? [['x-batch-validation', 'strict']] : [])];
    const other = { headers: { 'X-Past': 'p', authorization: 'past', 'Content-Type': 'text/past', 'x-batch-validation': 'past' }, idempotencyKey: 'past' };
    if (hist === 'same operation') {
      const past = op.build(new Gen(h, { level: wide ? 'full' : 'light', prefix: 'past.' }));
      if (wide) few(h, past.query ?? [], true);
      await h.attempt(() => op.call(c, op.opts ? [...past.args, other] : past.args));
    } else if (hist === 'same call') {
      await h.attempt(() => op.call(c, b.args));
    } else if (hist === 'send with options') {
      await h.attempt(() => c.emails.send({ from: 'f', to: 't', subject: 's', text: 'x', react: reactNode('past') }, other));
    } else if (hist === 'permissive batch') {
      await h.attempt(() => c.batch.send([{ from: 'f', to: 't', subject: 's', text: 'x' }], { batchValidation: 'permissive', ...other }));
    } else if (hist === 'verbs') {
      const f = new h.G.FormData();
      f.append('a', 'b');
      await h.attempt(() => c.post('/past', f, other));
      await h.attempt(() => c.get('/past', { headers: other.headers }));
      await h.attempt(() => c.delete('/past', { past: 1 }, { headers: other.headers }));
    } else if (hist === 'plain calls') {
      const imp = opById('contacts.imports.create').build(new Gen(h, { level: 'light', prefix: 'import.' }));
      const r0 = await h.attempt(() => c.contacts.imports.create(...imp.args));
      h.assert(r0.ok, 'an earlier call resolves');
      await h.attempt(() => c.emails.send({ from: 'f', to: 't', subject: 's', react: reactNode('past') }));
      await h.attempt(() => c.emails.get('past'));
    } else if (hist === 'failures') {
      for (let i = 0; i < (failing === 'three' ? 3 : 12); i++) {
        const k = w.calls.length;
        await h.attempt(() => c.emails.get('past'));
        h.assert(w.calls.length === k + 1, 'each of the failing calls sends a request of its own');
      }
    } else if (hist === 'other client') {
      const c2 = w.client('re_other', { userAgent: 'other', baseUrl: 'https://other.example' });
      await h.attempt(() => c2.emails.send({ from: 'f', to: 't', subject: 's', text: 'x' }, other));
      await h.attempt(() => c2.emails.get('past'));
    } else if (hist === 'many calls') {
      // a process that has been running for a while
      for (let i = 0; i < LONG; i++) {
        if (i % 5 === 4) await h.attempt(() => c.emails.send({ from: 'f', to: 't', subject: `s${i}`, text: 'x' }, i % 2 ? other : {}));
        else if (i % 5 === 3) await h.attempt(() => c.batch.send([{ from: 'f', to: 't', subject: 's', text: 'x' }]));
        else {
          const k = w.calls.length;
          await h.attempt(() => op.call(c, b.args));
          h.assert(w.calls.length === k + 1, 'each of the earlier calls sends a request of its own');
          if (w.calls.length !== k + 1) return;
          h.assert(h.headersAre(w.calls[k], headers()), 'each of the earlier calls sends the same headers');
          if (i > 0) h.assert(same(h, w.calls[k], w.calls[0]), 'each of the earlier calls sends the same request');
        }
      }
    } else {
      await h.attempt(() => c.emails.receiving.forward({ emailId: 'past', to: 't', from: 'f', passthrough: false, text: 'x' }, other));
    }
    const before = w.calls.length;
    now = true;
    const r = await h.attempt(() => op.call(c, b.args));
    h.assert(w.calls.length === before + 1, 'the call sends one request of its own');
    if (w.calls.length !== before + 1) return;
    const req = w.calls[before];
    checkRequest(h, req, b);
    h.assert(h.headersAre(req, headers()), 'no header of an earlier call is sent');
    checkResult(h, op, r, o);
  })];
}
