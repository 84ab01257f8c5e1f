import { Gen, OPS, checkRequest, each, largeCases } from './lib';

export const meta = {
  bounds: [
    'contacts.create/list/get/update/remove, contacts.segments.* and contacts.topics.*; contact named by string, id, email, both, or an id with an empty, null or undefined email; with and without a legacy audience or a segment',
    'every subset of fields, explicitly undefined ones included; names, properties (two keys, string, number or null) and flags of any value; 0-2 segments and topics, and 30 of them with 30 properties in one group; identifiers of letters, digits and - _ . @ + (see C12 for others)',
  ],
};
export function cases(tier) {
  const ops = OPS.filter((o) => o.id.startsWith('contacts.') && !o.id.startsWith('contacts.imports'));
  return [...largeCases(ops), ...each(ops, async (h, op) => {
    const w = h.world();
    const c = w.client();
    const b = op.build(new Gen(h, { level: 'full', undef: true, arr: tier === 'thorough' ? 3 : 2 }));
    await h.attempt(() => op.call(c, b.args));
    h.assert(w.calls.length === 1, 'one request');
    if (w.calls.length === 1) checkRequest(h, w.calls[0], b);
  })];
}
