import { Gen, OPS, checkRequest, each, largeCases } from './lib';

export const meta = {
  bounds: [
    'every update operation: emails, broadcasts, contacts, contact topics, contact properties, topics, templates, events, API keys, automations, domains, webhooks',
    'every subset of fields, each given, left out or explicitly undefined; every value including null, false, 0, "" and empty lists; lists of 0-2 elements (thorough 0-3), and of 30 in one group',
    'automation steps here: trigger and contact_update; C21 covers all step types',
  ],
};
export function cases(tier) {
  const ops = OPS.filter((o) => o.update || o.id === 'emails.update' || o.id === 'contacts.topics.update');
  return [...largeCases(ops), ...each(ops, async (h, op) => {
    const w = h.world();
    const c = w.client();
    const b = op.build(new Gen(h, { level: 'full', undef: true, arr: tier === 'thorough' ? 3 : 2 }));
    await h.attempt(() => op.call(c, b.args));
    h.assert(w.calls.length === 1, 'one request');
    if (w.calls.length === 1) checkRequest(h, w.calls[0], b);
  })];
}
