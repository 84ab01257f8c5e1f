import { ALL_KINDS, FAILURES, Gen, OPS, VERBS, checkResult, download, each, forwardCase, okBody, wellFormed } from './lib';

export const meta = {
  bounds: [
    'every operation and HTTP verb; required arguments only (quick) or every documented argument shape (thorough)',
    'outcomes: rejected fetch, any status 200-599 with a JSON body, a non-JSON body, an empty body or a body whose read fails; JSON bodies to nesting depth 2; undocumented JSON success bodies (any value to depth 2, any `data`, `raw` or `subject` member, any list elements) for contact properties, chained publishing, forwarding and the verbs; thrown values: Error, AbortError, string, undefined',
  ],
};
/** any JSON value, most of them not what the API documents */
function oddBody(h, n) {
  const k = h.choice(`${n}.odd`, ['json', 'data', 'elements']);
  if (k === 'json') return h.json(n, 2);
  if (k === 'data') return h.obj(n, { object: h.maybe(h.json(`${n}.object`, 0)), data: h.json(`${n}.data`, 1), raw: h.maybe(h.json(`${n}.raw`, 1)), subject: h.maybe(h.json(`${n}.subject`, 0)) });
  return { object: 'list', data: [h.json(`${n}.d0`, 1), h.json(`${n}.d1`, 0)] };
}
export function cases(tier) {
  const level = tier === 'thorough' ? 'full' : 'light';
  return [
    ...each([...OPS, ...VERBS], async (h, op) => {
      const w = h.world({
        fetch: () =>
          h.outcome('r', { data: () => okBody(h, op, 'data'), error: () => h.pick('err', [h.jsonObj('error')]) }),
      });
      const c = w.client();
      const b = op.build(new Gen(h, { level }));
      const r = await h.attempt(() => op.call(c, b.args));
      if (!wellFormed(h, r)) return;
      const o = w.calls[0].outcome ?? { kind: 'network' };
      const v = r.value;
      if (o.kind === 'okJson') h.assert(v.error === null, 'a 2xx response with a JSON body gives error null');
      else if (o.kind !== 'okBad' || !h.when(h.or(h.eq(o.status, 204), h.eq(o.status, 205)))) {
        h.assert(v.data === null, 'a failed exchange gives data null');
        h.assert(h.isObject(v.error), 'a failed exchange gives an error object');
      }
    }),
    ...['passthrough', 'wrapped'].map((mode) => ({
      name: `emails.receiving.forward ${mode}`,
      run: async (h) => {
        const raw = h.choice('raw', ['present', 'null', 'absent']);
        const f = forwardCase(h, mode === 'wrapped', { raw });
        const stage = h.choice('stage', ['get', 'odd', 'download', 'parse', 'send']);
        const parseFails = stage === 'parse';
        const w = h.world({
          parseMail: () => {
            if (parseFails) throw h.throwable('parseError');
            return { headers: [], attachments: [] };
          },
          fetch: (req, i) => {
            if (i === 0) return stage === 'get' ? h.outcome('r0', { kinds: ['okBad', 'okUnreadable', ...FAILURES] }) : h.ok(stage === 'odd' ? oddBody(h, 'odd') : f.email);
            if (i === 1 && raw === 'present') return stage === 'download' ? h.outcome('r1', { kinds: ['okUnreadable', ...FAILURES] }) : download(h.str('raw', { re: 'binary' }));
            return h.outcome('r2', { kinds: ALL_KINDS });
          },
        });
        const c = w.client();
        const r = await h.attempt(() => c.emails.receiving.forward(f.options));
        if (!wellFormed(h, r)) return;
        const v = r.value;
        const last = w.calls[w.calls.length - 1];
        const o = last.outcome ?? { kind: 'network' };
        const sent = w.calls.length === 3;
        if (stage === 'odd') return;
        if (sent && o.kind === 'okJson') h.assert(v.error === null, 'a sent forward gives error null');
        else if (!sent || (o.kind !== 'okBad')) {
          h.assert(v.data === null, 'a failed forward gives data null');
          h.assert(h.isObject(v.error), 'a failed forward gives an error object');
        }
      },
    })),
    ...each([...OPS.filter((o) => o.shape), ...VERBS], async (h, op) => {
      const w = h.world({ fetch: () => h.outcome('r', { kinds: ['okJson'], data: () => oddBody(h, 'data') }) });
      const c = w.client();
      const b = op.build(new Gen(h, { level: 'light' }));
      const r = await h.attempt(() => op.call(c, b.args));
      wellFormed(h, r);
    }).map((x) => ({ ...x, name: `${x.name}: any JSON success` })),
    ...['create', 'duplicate'].map((m) => ({
      name: `templates.${m} then publish: any JSON success`,
      run: async (h) => {
        const w = h.world({ fetch: (req, i) => h.outcome(`r${i}`, { kinds: i === 0 ? ['okJson'] : ALL_KINDS, light: true, data: () => oddBody(h, `data${i}`) }) });
        const c = w.client();
        const r = await h.attempt(() => c.templates[m](m === 'create' ? { name: 'n', html: 'x' } : 'id').publish());
        wellFormed(h, r);
      },
    })),
    ...['create', 'duplicate'].map((m) => ({
      name: `templates.${m} then publish`,
      run: async (h) => {
        const w = h.world({
          fetch: (req, i) => (i === 0 ? h.outcome('r0', { data: () => h.obj('t', { id: h.str('tid', { re: 'safeId', nonEmpty: true, not: ['.', '..'] }), object: 'template' }) }) : h.outcome('r1')),
        });
        const c = w.client();
        const arg = m === 'create' ? { name: h.str('name'), html: h.str('html') } : h.str('id', { re: 'safeId', nonEmpty: true, not: ['.', '..'] });
        const r = await h.attempt(() => c.templates[m](arg).publish());
        if (!wellFormed(h, r)) return;
        const last = w.calls[w.calls.length - 1];
        const o = last.outcome ?? { kind: 'network' };
        const v = r.value;
        if (o.kind === 'okJson' && w.calls.length === 2) h.assert(v.error === null, 'a published template gives error null');
        else if (o.kind !== 'okBad') {
          h.assert(v.data === null, 'a failed exchange gives data null');
          h.assert(h.isObject(v.error), 'a failed exchange gives an error object');
        }
      },
    })),
  ];
}
