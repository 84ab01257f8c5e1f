import { Gen, OPS, checkRequest, each, largeCases } from './lib';

export const meta = {
  bounds: [
    'every create, send, add, share and other action of broadcasts, templates, domains, domain claims, topics, segments/audiences, events, webhooks, API keys, suppressions, contact properties and emails.share (22 operations)',
    'every subset of optional fields, possibly explicitly undefined; every string, boolean and number (multiples of 1/4 up to 2^20) value, null where the type allows it, every documented enumeration value; lists of 0-2 elements (thorough 0-3), and lists and records of 30 entries, of every kind in turn, with every field given; a list of 60 strings in one group; records under two or three fixed keys',
  ],
};
const SKIP = ['emails.send', 'emails.create', 'batch.send', 'batch.create'];
export function cases(tier) {
  const ops = OPS.filter((o) => !SKIP.includes(o.id) && !o.list && !o.update && !o.form && !o.id.startsWith('contacts.') && !o.id.startsWith('automations.') && !o.id.startsWith('emails.update') && o.bodied !== false);
  const run = (h, op, args, b) => h.attempt(() => op.call(b, args));
  return [
    ...largeCases(ops),
    ...each(ops, async (h, op) => {
      const w = h.world();
      const c = w.client();
      const b = op.build(new Gen(h, { level: 'full', undef: true, arr: tier === 'thorough' ? 3 : 2 }));
      await run(h, op, b.args, c);
      h.assert(w.calls.length === 1, 'one request');
      if (w.calls.length === 1) checkRequest(h, w.calls[0], b);
    }),
    {
      name: 'long lists',
      run: async (h) => {
        const w = h.world();
        const c = w.client();
        const l = [];
        for (let i = 0; i < 60; i++) l.push(h.str(`e${i}`));
        const k = h.choice('operation', 5);
        let body;
        if (k === 0) {
          body = { emails: l };
          await h.attempt(() => c.suppressions.batch.add(body));
        } else if (k === 1) {
          body = { ids: l };
          await h.attempt(() => c.suppressions.batch.remove(body));
        } else if (k === 2) {
          const variables = l.map((x, i) => (i % 2 ? { key: x, type: 'string', fallbackValue: x } : { key: x, type: 'number', fallbackValue: i }));
          await h.attempt(() => c.templates.create({ name: 'n', html: 'h', variables }));
          body = { name: 'n', html: 'h', variables: variables.map((v) => ({ key: v.key, type: v.type, fallback_value: v.fallbackValue })) };
        } else if (k === 3) {
          body = { endpoint: 'e', events: l };
          await h.attempt(() => c.webhooks.create(body));
        } else {
          const p = Object.fromEntries(l.map((x, i) => [`key_${i}`, x]));
          body = { event: 'e', email: 'm', payload: p };
          await h.attempt(() => c.events.send(body));
        }
        h.assert(w.calls.length === 1, 'one request');
        if (w.calls.length === 1) checkRequest(h, w.calls[0], { body }, ['body']);
      },
    },
  ];
}
