import { ALL_KINDS, FAILURES, Gen, OPS, VERBS, download, each, forwardCase, okBody } from './lib';

export const meta = {
  bounds: [
    'every operation and HTTP verb; required arguments only (quick) or every documented argument shape (thorough), with and without an idempotency key where one is accepted',
    'every outcome of the exchange (rejection with four kinds of value; any status 200-599; JSON, non-JSON, empty or unreadable bodies; symbolic headers including retry-after), at once or, for three of the kinds, after ten minutes of virtual time; 50 virtual timers after the call settles',
  ],
};
/** the same outcome, at once or after ten minutes (of virtual time) for the response and for the body */
function late(h, o) {
  if (!(o.kind === 'okJson' || o.kind === 'network' || o.kind === 'errUnreadable') || !h.flip('late')) return o;
  return { ...o, delay: 600_000, body: o.body && { ...o.body, delay: 600_000 } };
}
export function cases(tier) {
  const level = tier === 'thorough' ? 'full' : 'light';
  return [
    ...each([...OPS, ...VERBS], async (h, op) => {
      const w = h.world({ fetch: (req, i) => (i === 0 ? late(h, h.outcome('r', { data: () => okBody(h, op, 'data') })) : h.ok({ id: 'again' })) });
      const c = w.client();
      const b = op.build(new Gen(h, { level }));
      const args = [...b.args];
      if (op.opts && h.flip('options')) args.push({ idempotencyKey: h.str('ikey', { re: 'headerTight', nonEmpty: true }) });
      const r = await h.attempt(() => op.call(c, args));
      h.assert(w.calls.length === 1, 'exactly one request when the call settles');
      await h.quiesce();
      h.assert(w.calls.length === 1, 'exactly one request after everything scheduled has run');
      h.assert(r.hang === false, 'the call settles');
    }),
    ...['passthrough', 'wrapped'].map((mode) => ({
      name: `emails.receiving.forward ${mode}`,
      run: async (h) => {
        const raw = h.choice('raw', ['present', 'null']);
        const f = forwardCase(h, mode === 'wrapped', { raw });
        const stage = h.choice('stage', ['get', 'download', 'parse', 'send', 'slow']);
        const w = h.world({
          parseMail: () => {
            if (stage === 'parse') throw h.throwable('parseError');
            return { headers: [], attachments: [] };
          },
          fetch: (req, i) => {
            if (stage === 'slow') return { ...(i === 0 ? h.ok(f.email) : i === 1 ? download('raw') : h.ok({ id: 'x' })), delay: 600_000 };
            if (i === 0) return stage === 'get' ? h.outcome('r0', { kinds: ['okBad', 'okUnreadable', ...FAILURES] }) : h.ok(f.email);
            if (i === 1) return stage === 'download' ? h.outcome('r1', { kinds: ['okUnreadable', ...FAILURES] }) : download(h.str('raw', { re: 'binary' }));
            return stage === 'send' ? h.outcome('r2', { kinds: ALL_KINDS }) : h.ok({ id: 'x' });
          },
        });
        const c = w.client();
        await h.attempt(() => c.emails.receiving.forward(f.options));
        await h.quiesce();
        let n = 3;
        if (stage === 'get') n = 1;
        else if (raw === 'null') n = 1;
        else if (stage === 'download') n = 2;
        else if (stage === 'parse' && mode === 'passthrough') n = 2;
        h.assert(w.calls.length === n, 'exactly the exchanges up to the first failure');
        if (w.calls.length !== n) return;
        h.assert(w.calls[0].method === 'GET' && h.segsAre(h.url(w.calls[0].url), ['emails', 'receiving', f.emailId]), 'the email is fetched first');
        if (n > 1) h.assert(w.calls[1].method === 'GET' && h.eq(w.calls[1].url, f.url), 'then its raw message is downloaded');
        if (n > 2) h.assert(w.calls[2].method === 'POST' && h.segsAre(h.url(w.calls[2].url), ['emails']), 'then it is sent');
      },
    })),
  ];
}
