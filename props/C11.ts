import { OPS, VERBS, Gen, checkRequest, each } from './lib';

export const meta = {
  bounds: [
    'all operations of the client; identifiers: any string of letters, digits, - _ . @ + except . and ..',
    'arguments: every documented shape, every subset of optional fields, lists of at most 1 element (quick) or 2 (thorough)',
  ],
};
export function cases(tier) {
  return each([...OPS, ...VERBS], async (h, op) => {
    const w = h.world();
    const c = w.client();
    const g = new Gen(h, { level: 'full', arr: 1 });
    const b = op.build(g);
    const r = await h.attempt(() => op.call(c, b.args));
    h.assert(w.calls.length === 1, 'exactly one request is sent');
    if (w.calls.length !== 1) return;
    const req = w.calls[0];
    checkRequest(h, req, b, ['method', 'path']);
    h.assert(('body' in b || 'form' in b) === (req.body !== undefined), 'a body is sent exactly where the operation has one');
  });
}
