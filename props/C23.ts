import { ALL_KINDS, ORIGIN, checkRequest, checkResult } from './lib';

export const meta = {
  bounds: [
    'templates.create(...) and templates.duplicate(...): every sequence of up to 3 uses (thorough 4) of the result out of await, then with a handler and publish (at most two, thorough three), each after the previous one finished or all started together',
    'two results of one client at a time, published in either order, together, or before either has been answered',
    'every outcome of each exchange: any success with any URL-safe template id and other members, any HTTP error body, non-JSON and unreadable bodies, rejections with four kinds of value',
  ],
};
const ID = { re: 'rawSafe', nonEmpty: true, not: ['.', '..'] };
export function cases(tier) {
  const out = [];
  const seqs = [[]];
  for (let i = 0; i < seqs.length; i++) {
    const s = seqs[i];
    if (s.length < (tier === 'thorough' ? 4 : 3)) for (const u of ['await', 'then', 'publish']) if (u !== 'publish' || s.filter((x) => x === 'publish').length < (tier === 'thorough' ? 3 : 2)) seqs.push([...s, u]);
  }
  for (const m of ['create', 'duplicate']) {
    for (const seq of seqs) {
      for (const together of seq.length > 1 ? [false, true] : [false]) {
        out.push({
          name: `${m}: ${seq.length ? seq.join(', ') : 'not used'}${together ? ' (started together)' : ''}`,
          run: async (h) => {
            const id = h.str('newId', ID);
            const light = seq.length > 1;
            const kinds = light ? ['okJson', 'okBad', 'errJson', 'errUnreadable', 'network'] : ALL_KINDS;
            const outs = [];
            const times = seq.filter((u) => u === 'publish').length;
            const w = h.world({
              fetch: (req, i) => {
                const o = h.outcome(`r${i}`, { kinds: i === 0 ? kinds : together && times > 1 ? ['okJson'] : ['okJson', 'errJson', 'network'], light, data: () => (together && times > 1 && i > 0 ? { object: 'template', id } : h.obj(`d${i}`, { object: 'template', id, more: h.maybe(h.str(`d${i}.more`)) })) });
                outs.push(o);
                return o;
              },
            });
            const c = w.client();
            const src = h.str('source', ID);
            const pl = { name: h.str('name'), html: h.str('html') };
            const first = m === 'create' ? { method: 'POST', path: ['templates'], body: pl } : { method: 'POST', path: ['templates', src, 'duplicate'] };
            const t = m === 'create' ? c.templates.create(pl) : c.templates.duplicate(src);
            const rs = [];
            for (const u of seq) {
              const r = h.start(() => {
                if (u === 'publish') return t.publish();
                if (u === 'then') return t.then((x) => ({ seen: x }));
                return (async () => await t)();
              });
              rs.push(r);
              if (!together) await h.wait(r);
            }
            for (const r of rs) await h.wait(r);
            await h.quiesce();
            const published = seq.includes('publish') && outs[0].kind === 'okJson';
            const want = published ? 1 + times : 1;
            h.assert(w.calls.length === want, 'the create or duplicate request once, then one publish request for each publish, only after success');
            if (w.calls.length !== want) return;
            checkRequest(h, w.calls[0], first, undefined, 'first request');
            for (let i = 1; i < want; i++) checkRequest(h, w.calls[i], { method: 'POST', path: ['templates', id, 'publish'] }, undefined, `publish request ${i}`);
            let nth = 0;
            for (let i = 0; i < seq.length; i++) {
              const r = rs[i];
              const l = `use ${i}: `;
              h.assert(r.hang === false && r.ok === true, `${l}resolves`);
              if (!r.ok) continue;
              if (seq[i] === 'await') checkResult(h, {}, r, outs[0], l);
              if (seq[i] === 'then') checkResult(h, {}, { ...r, value: r.value.seen }, outs[0], l);
              if (seq[i] === 'publish') {
                if (published) checkResult(h, {}, r, outs[++nth], l);
                else {
                  // the failed first exchange's error; the headers of that response may be left out
                  const v = r.value;
                  h.assert(v.data === null, `${l}publish after a failure gives data null`);
                  const e = outs[0];
                  h.assert(h.isObject(v.error), `${l}publish after a failure gives an error`);
                  if (e.kind === 'errJson') h.assert(h.same(v.error, e.body.v), `${l}publish after a failure gives that error`);
                  else if (h.isObject(v.error) && e.kind !== 'okBad' && e.kind !== 'okUnreadable') h.assert(h.eq(v.error.name, 'application_error'), `${l}publish after a failure gives that error`);
                }
              }
            }
          },
        });
      }
    }
  }
  // two results of one client, published after both were asked for
  for (const m of ['create', 'duplicate']) {
    for (const other of ['create', 'duplicate']) {
      for (const when of ['publishes in order', 'publishes in reverse', 'publishes started together', 'everything started together']) {
        out.push({
          name: `${m} and ${other}: ${when}`,
          run: async (h) => {
            const ids = [h.str('id0', ID), h.str('id1', ID)];
            const srcs = [h.cat('a', h.str('source0', ID)), h.cat('b', h.str('source1', ID))];
            const names = [h.cat('a', h.str('name0')), h.cat('b', h.str('name1'))];
            const ops = [m, other];
            const firsts = ops.map((o, i) => (o === 'create' ? { method: 'POST', path: ['templates'], body: { name: names[i], html: 'x' } } : { method: 'POST', path: ['templates', srcs[i], 'duplicate'] }));
            const outs = [h.outcome('r0', { kinds: ['okJson', 'errJson', 'network'], light: true, data: () => ({ object: 'template', id: ids[0] }) }), h.outcome('r1', { kinds: ['okJson', 'errJson'], light: true, data: () => ({ object: 'template', id: ids[1] }) })];
            const sent = [null, null];
            const published = [];
            const w = h.world({
              fetch: (req) => {
                const isPublish = req.method === 'POST' && h.when(h.endsWith(req.url, '/publish'));
                if (isPublish) {
                  published.push(req);
                  return h.ok({ object: 'template', id: 'p' });
                }
                // which of the two results asks
                let i = 0;
                if (ops[0] !== ops[1]) i = h.when(h.endsWith(req.url, '/duplicate')) === (ops[1] === 'duplicate') ? 1 : 0;
                else i = h.when(m === 'create' ? h.eq(h.body(req).v.name, names[1]) : h.eq(req.url, h.cat(`${ORIGIN}/templates/`, srcs[1], '/duplicate'))) ? 1 : 0;
                h.assert(sent[i] === null, 'each create or duplicate is sent once');
                sent[i] = req;
                return outs[i];
              },
            });
            const c = w.client();
            const ts = ops.map((o, i) => (o === 'create' ? c.templates.create({ name: names[i], html: 'x' }) : c.templates.duplicate(srcs[i])));
            const order = when === 'publishes in reverse' ? [1, 0] : [0, 1];
            if (when !== 'everything started together') for (const t of ts) await h.wait(h.start(async () => await t));
            const rs = [null, null];
            for (const i of order) {
              rs[i] = h.start(() => ts[i].publish());
              if (!when.includes('together')) await h.wait(rs[i]);
            }
            for (const r of rs) await h.wait(r);
            await h.quiesce();
            const good = [0, 1].filter((i) => outs[i].kind === 'okJson');
            h.assert(published.length === good.length, 'one publish request for each that succeeded');
            for (const i of [0, 1]) {
              h.assert(sent[i] !== null, 'the create or duplicate request is sent');
              if (sent[i] === null) return;
              checkRequest(h, sent[i], firsts[i], undefined, `request ${i}`);
              h.assert(rs[i].hang === false && rs[i].ok === true, `publish ${i} resolves`);
              if (!rs[i].ok) return;
              if (good.includes(i)) h.assert(h.or(...published.map((q) => h.eq(q.url, h.cat(`${ORIGIN}/templates/`, ids[i], '/publish')))), `template ${i} is published`);
              h.assert((rs[i].value.error === null) === good.includes(i), `publish ${i} gives its own result`);
              if (outs[i].kind === 'errJson') h.assert(h.same(rs[i].value.error, outs[i].body.v), `publish ${i} gives the error of its own create or duplicate`);
            }
          },
        });
      }
    }
  }
  return out;
}
