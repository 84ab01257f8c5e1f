import { Gen, OPS, VERBS, checkResult, each, okBody } from './lib';

export const meta = {
  bounds: [
    'every operation and HTTP verb; required arguments only (quick) or every documented argument shape (thorough)',
    'with required arguments also answers whose response, body or both take ten minutes of virtual time, holding a list of 120',
    'response bodies: objects with up to 9 known and unknown members in any presence, lists of 2 elements, and any JSON value to depth 2; contact properties: the documented shape, lists to length 1; any status 200-299 except 204/205; four symbolic response headers and some 40 of given values, among them every header name the sources mention',
  ],
};
/** a list of 120 */
function longBody(h, op) {
  if (op.shape === 'property') return okBody(h, op, 'data');
  return op.shape === 'propertyList'
    ? { object: 'list', has_more: true, data: Array.from({ length: 120 }, (_, i) => ({ id: h.str(`id${i}`), key: `key_${i}`, object: 'contact_property', created_at: 'now', type: 'string', fallback_value: h.str(`fallback${i}`) })) }
    : { object: 'list', has_more: h.bool('more'), data: Array.from({ length: 120 }, (_, i) => ({ id: h.str(`id${i}`), name: `name ${i}`, created_at: null })) };
}
export function cases(tier) {
  const level = tier === 'thorough' ? 'full' : 'light';
  return [...each([...OPS, ...VERBS], async (h, op) => {
    let o = null;
    h.wideHeaders = true;
    const w = h.world({
      fetch: () => {
        o = h.outcome('r', { kinds: ['okJson'], data: () => okBody(h, op, 'data') });
        return o;
      },
    });
    const c = w.client();
    const b = op.build(new Gen(h, { level }));
    const r = await h.attempt(() => op.call(c, b.args));
    h.assert(o !== null, 'a request is sent');
    if (o !== null) checkResult(h, op, r, o);
  }), ...each([...OPS, ...VERBS], async (h, op) => {
    // an answer that takes its time (all of it virtual) and is long
    let o = null;
    const slow = h.choice('slow', ['response', 'body', 'both']);
    const w = h.world({
      fetch: () => {
        o = h.outcome('r', { kinds: ['okJson'], light: true, data: () => longBody(h, op) });
        return { ...o, delay: slow === 'body' ? 0 : 600_000, body: { ...o.body, delay: slow === 'response' ? 0 : 600_000 } };
      },
    });
    const c = w.client();
    const b = op.build(new Gen(h, { level: 'light' }));
    const r = await h.attempt(() => op.call(c, b.args));
    h.assert(w.calls.length === 1, 'one request is sent');
    if (o !== null) checkResult(h, op, r, o);
  }).map((x) => ({ ...x, name: `${x.name}: a slow and long answer` }))];
}
