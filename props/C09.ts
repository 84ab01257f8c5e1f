import { checkBody, defaultHeaders, Gen, OPS, VERBS, checkRequest, checkResult, download, each, forwardCase, okBody } from './lib';

export const meta = {
  bounds: [
    'two calls in flight on one client: every operation with itself (same and different arguments) and with emails.send; three calls for emails.get, batch.send and contacts.list (thorough: for every operation)',
    'every interleaving of the exchanges’ two completions each (response or rejection, then body), including completion before the other call starts its request and completions at the same moment; each exchange succeeds, fails with an HTTP error, or rejects, with symbolic content',
    'a third of all operations (about 38 calls) in flight at once, in eight orders of completion (three of them completing many at the same moment), all successful or one of them failing',
    'forwarding: two forwards of different emails, any order of their six responses, all successful',
    'React: two sends, batches of two, broadcasts or templates, a send and a batch, a broadcast and a batch, or a template and a send in flight, any order of completion of renderings and responses',
  ],
};
/** run the gates in an order chosen by the solver-driven scheduler until all calls are done; lockstep: all that are awaited at the same moment */
async function schedule(h, gates, calls, max, lockstep = false) {
  for (let step = 0; step < max; step++) {
    await h.drain();
    const open = gates.filter((g) => g.waiting && !g.done);
    if (open.length === 0) return;
    for (const g of lockstep ? open : [open.length === 1 ? open[0] : open[h.choice(`step${step}`, open.length)]]) {
      g.done = true;
      g.d.resolve();
    }
  }
}
function gate(h, gates) {
  const g = { d: h.deferred(), waiting: false, done: false };
  gates.push(g);
  return {
    g,
    promise: {
      // becomes schedulable when somebody waits for it
      then(a, b) {
        g.waiting = true;
        return g.d.promise.then(a, b);
      },
    },
  };
}
function gated(h, gates, spec, whole = false) {
  const a = gate(h, gates);
  const out = { ...spec, gate: a.promise };
  if (spec.body && !whole) out.body = { ...spec.body, gate: gate(h, gates).promise };
  return out;
}
export function cases(tier) {
  const all = [...OPS, ...VERBS];
  const send = OPS.find((o) => o.id === 'emails.send');
  const run = async (h, ops, sameArgs, lockstep = false) => {
    const gates = [];
    const outs = [];
    const w = h.world({
      fetch: (req) => {
        const i = req.owner;
        if (i === undefined || outs[i] !== undefined) return h.ok({});
        const o = h.outcome(`r${i}`, { light: true, kinds: lockstep ? ['okJson'] : ops.length > 2 || (i === 1 && tier !== 'thorough') ? ['okJson', 'network'] : ['okJson', 'errJson', 'network'], data: () => (ops[i].shape ? okBody(h, ops[i], `data${i}`) : h.jsonObj(`data${i}`)) });
        outs[i] = o;
        return gated(h, gates, o);
      },
    });
    const c = w.client('re_key', { userAgent: 'ua' });
    const built = ops.map((op, i) => op.build(new Gen(h, { level: 'light', prefix: sameArgs ? '' : `${i}.` })));
    if (sameArgs) for (let i = 1; i < ops.length; i++) if (ops[i] === ops[0]) built[i] = built[0];
    const rs = [];
    // one of the calls may have request options of its own
    const able = [-1];
    if (ops.length < 3) for (let i = 0; i < ops.length; i++) if (ops[i].opts) able.push(i);
    const mine = able.length === 1 || lockstep ? -1 : able[h.choice('options', able.length)];
    const idem = mine >= 0 && ops[mine].opts !== 'post';
    const ikey = h.str('ikey', { re: 'headerTight', nonEmpty: true });
    const trace = h.str('trace', { re: 'headerTight' });
    const options = { headers: { 'X-Trace': trace, authorization: 'mine' }, ...(idem ? { idempotencyKey: ikey } : {}) };
    for (let i = 0; i < ops.length; i++) rs.push(h.start(() => ops[i].call(c, i === mine ? [...built[i].args, options] : built[i].args), i));
    await schedule(h, gates, rs, 4 * ops.length, lockstep);
    await h.quiesce();
    h.assert(w.calls.length === ops.length, 'each call sends its own request');
    if (w.calls.length !== ops.length) return;
    for (let i = 0; i < ops.length; i++) {
      h.assert(rs[i].done, `call ${i}: settles`);
      if (!rs[i].done) return;
      const sent = w.calls.filter((q) => q.owner === i);
      h.assert(sent.length === 1, `call ${i}: sends one request`);
      if (sent.length !== 1) return;
      checkRequest(h, sent[0], built[i], undefined, `call ${i}`);
      const want = defaultHeaders('Bearer re_key', 'ua', ops[i].form === true);
      if (ops[i].opts === 'batch') want.push(['x-batch-validation', 'strict']);
      if (i === mine) {
        want[0] = ['authorization', 'mine'];
        want.push(['x-trace', trace]);
        if (idem) want.push(['idempotency-key', ikey]);
      }
      h.assert(h.headersAre(sent[0], want), `call ${i}: exactly its own headers are sent`);
      checkResult(h, ops[i], { ...rs[i], hang: false }, outs[i], `call ${i}: `);
    }
  };
  const out = [];
  for (const op of all) {
    out.push({ name: `${op.id} twice`, run: (h) => run(h, [op, op], h.flip('same arguments')) });
    out.push({ name: `${op.id} at the same moment`, run: (h) => run(h, h.flip('three') ? [op, send, op] : [op, op], h.flip('same arguments'), true) });
    if (op.id !== 'emails.send') out.push({ name: `${op.id} and emails.send`, run: (h) => run(h, h.flip('order') ? [op, send] : [send, op], false) });
  }
  for (const op of all.filter((o) => tier === 'thorough' || ['emails.get', 'batch.send', 'contacts.list'].includes(o.id))) {
    out.push({ name: `${op.id} three times`, run: (h) => run(h, [op, op, op], false) });
  }
  for (const kinds of [[false, false], [true, true], [false, true]]) {
    out.push({ name: `forward ${kinds.map((k) => (k ? 'wrapped' : 'passthrough')).join(' and ')}`, run: (h) => forwards(h, kinds) });
  }
  for (const group of [0, 1, 2]) out.push({ name: `many at once, group ${group}`, run: (h) => crowd(h, all.filter((o, i) => i % 3 === group)) });
  for (const pair of [['send', 'send'], ['send', 'batch'], ['batch', 'batch'], ['broadcast', 'broadcast'], ['broadcast', 'batch'], ['template', 'template'], ['template', 'send']]) {
    out.push({ name: `React ${pair.join(' and ')}`, run: (h) => reacts(h, pair) });
  }
  return out;
}
const bin = (i) => `raw ${i}`;
async function forwards(h, kinds) {
  const gates = [];
  const fs = kinds.map((k, i) => forwardCase(h, k, { prefix: `${i}.` }));
  const count = kinds.map(() => 0);
  const w = h.world({
    fetch: (req) => {
      const i = req.owner;
      const n = count[i]++;
      if (n === 0) return gated(h, gates, h.ok(fs[i].email), true);
      if (n === 1) return gated(h, gates, download(bin(i)), true);
      return gated(h, gates, h.ok({ id: `sent-${i}` }), true);
    },
    parseMail: (raw) => ({ headers: [], attachments: [], text: h.asBin(raw) }),
  });
  const c = w.client();
  const rs = fs.map((f, i) => h.start(() => c.emails.receiving.forward(f.options), i));
  await schedule(h, gates, rs, 12);
  await h.quiesce();
  for (let i = 0; i < kinds.length; i++) {
    const l = `forward ${i}: `;
    if (!rs[i].done) {
      h.assert(false, `${l}settles`);
      continue;
    }
    h.assert(rs[i].ok === true, `${l}resolves`);
    const mine = w.calls.filter((q) => q.owner === i);
    h.assert(mine.length === 3, `${l}makes its three exchanges`);
    if (mine.length !== 3 || !rs[i].ok) continue;
    h.assert(h.segsAre(h.url(mine[0].url), ['emails', 'receiving', fs[i].emailId]), `${l}fetches its email`);
    h.assert(h.eq(mine[1].url, fs[i].url), `${l}downloads its message`);
    const b = h.body(mine[2]);
    h.assert('v' in b, `${l}sends an email`);
    if (!('v' in b)) continue;
    h.assert(h.eq(b.v.from, fs[i].from), `${l}from its sender`);
    h.assert(h.jsonEq(b.v.to, fs[i].to), `${l}to its recipients`);
    if (kinds[i]) {
      h.assert(h.jsonEq(b.v.text, fs[i].options.text), `${l}its text`);
      h.assert(h.isArr(b.v.attachments) && b.v.attachments.length === 1 && h.eq(b.v.attachments[0].content, h.b64(bin(i))), `${l}its raw message`);
    } else h.assert(h.eq(b.v.text, bin(i)), `${l}its parsed message`);
    h.assert(h.same(rs[i].value.data, { id: `sent-${i}` }), `${l}its result`);
  }
}
async function reacts(h, pair) {
  const gates = [];
  const w = h.world({
    fetch: (req) => gated(h, gates, h.ok({ id: `done-${req.owner}` }), true),
    render: async (node) => {
      await gate(h, gates).promise;
      return `<p>${node.props.t}</p>`;
    },
  });
  const c = w.client();
  const node = (t) => ({ $$typeof: 'react', type: 'p', props: { t }, key: null });
  const mail = (t) => ({ from: h.str(`${t}.from`), to: 'b@x.co', subject: h.str(`${t}.subject`), react: node(t) });
  const sent = (m) => ({ from: m.from, to: m.to, subject: m.subject, html: `<p>${m.react.props.t}</p>` });
  const runs = pair.map((k, i) => {
    if (k === 'batch') {
      const ms = [mail(`${i}a`), mail(`${i}b`)];
      return { f: () => c.batch.send(ms), body: ms.map(sent) };
    }
    const m = mail(`${i}`);
    if (k === 'send') return { f: () => c.emails.send(m), body: sent(m) };
    if (k === 'template') {
      const t = { name: m.subject, react: m.react };
      return { f: () => c.templates.create(t), body: { name: m.subject, html: `<p>${i}</p>` } };
    }
    const b = { segmentId: 's', from: m.from, subject: m.subject, react: m.react };
    return { f: () => c.broadcasts.create(b), body: { segment_id: 's', from: m.from, subject: m.subject, html: `<p>${i}</p>` } };
  });
  const rs = runs.map((r, i) => h.start(() => r.f(), i));
  await schedule(h, gates, rs, 12);
  await h.quiesce();
  for (let i = 0; i < runs.length; i++) {
    const l = `call ${i}: `;
    h.assert(rs[i].done, `${l}settles`);
    const mine = w.calls.filter((q) => q.owner === i);
    h.assert(mine.length === 1, `${l}sends one request`);
    if (!rs[i].done || mine.length !== 1) continue;
    checkBody(h, mine[0], { body: runs[i].body }, l);
    h.assert(rs[i].ok === true, `${l}resolves`);
    if (rs[i].ok) h.assert(h.same(rs[i].value.data, { id: `done-${i}` }), `${l}its result`);
  }
}

/** one call of each of many operations in flight at once, completing in one of several orders */
async function crowd(h, ops) {
  const ds = ops.map(() => ({ response: h.deferred(), body: h.deferred() }));
  const datas = ops.map((op, i) => (op.shape ? okBody(h, op, `data${i}`) : { id: h.str(`data${i}`) }));
  const bad = h.choice('failing', [-1, 7, 20]);
  const outs = ops.map((op, i) => h.outcome(`r${i}`, { light: true, kinds: i === bad ? ['errJson', 'network'] : ['okJson'], data: () => datas[i] }));
  const w = h.world({
    fetch: (req) => {
      const i = req.owner;
      const out = { ...outs[i], gate: ds[i].response.promise };
      if (out.body) out.body = { ...out.body, gate: ds[i].body.promise };
      return out;
    },
  });
  const c = w.client('re_key', { userAgent: 'ua' });
  const built = ops.map((op, i) => op.build(new Gen(h, { level: 'light', prefix: `${i}.` })));
  const rs = ops.map((op, i) => h.start(() => op.call(c, built[i].args), i));
  await h.drain();
  const n = ops.length;
  const order = h.choice('order', ['same', 'reverse', 'rotated', 'interleaved', 'all responses first', 'bodies together', 'together', 'all together']);
  const at = (i) => (order === 'reverse' ? n - 1 - i : order === 'rotated' ? (i + 5) % n : order === 'interleaved' ? (i % 2 ? n - 1 - (i >> 1) : i >> 1) : i);
  if (order === 'all responses first' || order === 'bodies together') for (let i = 0; i < n; i++) ds[i].response.resolve();
  if (order === 'bodies together') await h.drain();
  for (let i = 0; i < n; i++) {
    if (order === 'all together') ds[at(i)].body.resolve();
    ds[at(i)].response.resolve();
    if (!order.endsWith('together')) await h.drain();
    if (order === 'together' && i === n - 1) {
      await h.drain();
      for (const d of ds) d.body.resolve();
    }
    if (order !== 'together') ds[order === 'interleaved' ? at(n - 1 - i) : at(i)].body.resolve();
  }
  await h.quiesce();
  h.assert(w.calls.length === n, 'each call sends its own request');
  if (w.calls.length !== n) return;
  for (let i = 0; i < n; i++) {
    h.assert(rs[i].done, `call ${i}: settles`);
    const sent = w.calls.filter((q) => q.owner === i);
    h.assert(sent.length === 1, `call ${i}: sends one request`);
    if (!rs[i].done || sent.length !== 1) return;
    checkRequest(h, sent[0], built[i], undefined, `call ${i}`);
    const want = defaultHeaders('Bearer re_key', 'ua', ops[i].form === true);
    if (ops[i].opts === 'batch') want.push(['x-batch-validation', 'strict']);
    h.assert(h.headersAre(sent[0], want), `call ${i}: exactly its own headers are sent`);
    checkResult(h, ops[i], { ...rs[i], hang: false }, outs[i], `call ${i}: `);
  }
}
