import { FAILURES, Gen, OPS, VERBS, checkResult, each } from './lib';

export const meta = {
  bounds: [
    'every operation and HTTP verb; required arguments only (quick) or every documented argument shape (thorough)',
    'with required arguments also failures that take ten minutes of virtual time (to answer, and as long again for the body)',
    'failed outcomes: rejected fetch; any status 300-599 with a JSON object (any of 5 members present, nested to depth 2), a JSON scalar, non-JSON text, an empty body or a failing body read; four symbolic response headers and some 40 of given values, among them every header name the sources mention',
  ],
};
/** an error object with any JSON under its documented and other members */
function errBody(h, n) {
  return h.obj(n, {
    name: h.maybe(h.pick(`${n}.name?`, [null, h.str(`${n}.name`), h.str(`${n}.name.2`, { nonEmpty: true })])), message: h.maybe(h.json(`${n}.message`, 1)), statusCode: h.maybe(h.json(`${n}.statusCode`, 0)),
    id: h.maybe(h.str(`${n}.id`)), some_value: h.maybe(h.json(`${n}.some_value`, 1)), '*': h.extra(h.json(`${n}.extra`, 1)),
  });
}
export function cases(tier) {
  const level = tier === 'thorough' ? 'full' : 'light';
  const slow = each([...OPS, ...VERBS], async (h, op) => {
    let o = null;
    const w = h.world({
      fetch: () => {
        o ??= h.outcome('r', { kinds: ['errJson', 'errUnreadable', 'network'], light: true, error: () => ({ name: h.str('e.name'), message: h.str('e.message'), statusCode: h.int('e.code', 300, 599) }) });
        return { ...o, delay: 600_000, body: o.body && { ...o.body, delay: 600_000 } };
      },
    });
    const c = w.client();
    const b = op.build(new Gen(h, { level: 'light' }));
    const r = await h.attempt(() => op.call(c, b.args));
    h.assert(w.calls.length === 1, 'one request is sent');
    if (o !== null) checkResult(h, op, r, o);
  }).map((x) => ({ ...x, name: `${x.name}: a slow failure` }));
  return [...slow, ...each([...OPS, ...VERBS], async (h, op) => {
    let o = null;
    h.wideHeaders = true;
    const w = h.world({
      fetch: (req, i) => {
        const x = h.outcome(`r${i === 0 ? '' : i}`, { kinds: FAILURES, error: () => errBody(h, `e${i}`) });
        if (i === 0) o = x;
        return x;
      },
    });
    const c = w.client();
    const b = op.build(new Gen(h, { level }));
    const r = await h.attempt(() => op.call(c, b.args));
    h.assert(o !== null, 'a request is sent');
    if (o !== null) checkResult(h, op, r, o);
  })];
}
