import { Gen, OPS, checkRequest, checkResult, each, forwardCase, download, okBody } from './lib';

export const meta = {
  bounds: [
    'every operation with every documented argument shape: each optional field given, absent or explicitly undefined in every combination; the request is compared with the one documented for the call without the undefined fields, the result with the documented one',
    'a second group compares, request for request and result for result, the same call with alternative, legacy and whole optional arguments undefined (all of them, each alone, all but one) and without them (contacts, lists, forwarding, content alternatives, request options)',
  ],
};
const view = (h, w) => w.calls.map((q) => ({ method: q.method, url: q.url, headers: q.headers, body: q.form ? q.form.map((e) => [e[0], typeof e[1] === 'string' ? e[1] : h.isStr(e[1]) ? e[1] : 'file']) : q.body }));
export function cases() {
  const out = each(OPS, async (h, op) => {
    let o;
    const w = h.world({
      fetch: () => {
        o = h.outcome('r', { kinds: ['okJson'], headers: [], light: true, data: () => (op.shape ? okBody(h, op, 'data') : h.obj('data', { id: h.str('id') })) });
        return o;
      },
    });
    const c = w.client();
    const b = op.build(new Gen(h, { level: 'full', undef: true }));
    const r = await h.attempt(() => op.call(c, b.args));
    h.assert(w.calls.length === 1, 'one request');
    if (w.calls.length !== 1) return;
    checkRequest(h, w.calls[0], b);
    checkResult(h, op, r, o);
  });
  const U = undefined;
  // [name, call, arguments with undefined, the same without]
  const s = (h, n) => h.str(n, { re: 'safeId', nonEmpty: true, not: ['.', '..'] });
  const pairs = [];
  const add = (name, f, mk) => pairs.push([name, f, mk]);
  const sel = (idf) => [
    (h) => [{ [idf]: s(h, 'id'), email: U }, { [idf]: s(h, 'id') }],
    (h) => [{ [idf]: U, email: s(h, 'm') }, { email: s(h, 'm') }],
  ];
  for (const [m, extra] of [['get', {}], ['remove', {}], ['update', { firstName: 'x' }]]) {
    sel('id').forEach((f, i) => {
      add(`contacts.${m} selector ${i}`, (c, a) => c.contacts[m](a), (h) => f(h).map((x) => ({ ...x, ...extra })));
      add(`contacts.${m} selector ${i} without audience`, (c, a) => c.contacts[m](a), (h) => {
        const [a, b] = f(h);
        return [{ ...a, ...extra, audienceId: U }, { ...b, ...extra }];
      });
      add(`contacts.${m} selector ${i} in an audience`, (c, a) => c.contacts[m](a), (h) => {
        const [a, b] = f(h);
        return [{ ...a, ...extra, audienceId: 'aud' }, { ...b, ...extra, audienceId: 'aud' }];
      });
    });
  }
  for (const [ns, idf, ms] of [['segments', 'contactId', ['list', 'add', 'remove']], ['topics', 'id', ['list', 'update']]]) {
    for (const m of ms) {
      sel(idf).forEach((f, i) => add(`contacts.${ns}.${m} selector ${i}`, (c, a) => c.contacts[ns][m](a), (h) => f(h).map((x) => ({ ...x, ...(ns === 'segments' && m !== 'list' ? { segmentId: 'g' } : {}), ...(m === 'update' ? { topics: [] } : {}) }))));
    }
  }
  add('contacts.create legacy fields', (c, a) => c.contacts.create(a), (h) => [{ email: s(h, 'm'), audienceId: U, segments: U, topics: U, properties: U }, { email: s(h, 'm') }]);
  add('contacts.create in an audience', (c, a) => c.contacts.create(a), (h) => [{ email: s(h, 'm'), audienceId: 'aud', segments: U, topics: U }, { email: s(h, 'm'), audienceId: 'aud' }]);
  add('contacts.create in segments', (c, a) => c.contacts.create(a), (h) => [{ email: s(h, 'm'), audienceId: U, segments: [{ id: s(h, 'g') }], topics: U }, { email: s(h, 'm'), segments: [{ id: s(h, 'g') }] }]);
  add('contacts.create with topics', (c, a) => c.contacts.create(a), (h) => [{ email: s(h, 'm'), audienceId: U, segments: U, topics: [{ id: s(h, 'g'), subscription: 'opt_in' }] }, { email: s(h, 'm'), topics: [{ id: s(h, 'g'), subscription: 'opt_in' }] }]);
  add('contacts.list segment', (c, a) => c.contacts.list(a), (h) => [{ segmentId: s(h, 'g'), audienceId: U, limit: U }, { segmentId: s(h, 'g') }]);
  add('contacts.list audience', (c, a) => c.contacts.list(a), (h) => [{ segmentId: U, audienceId: s(h, 'g') }, { audienceId: s(h, 'g') }]);
  add('contacts.list neither', (c, a) => c.contacts.list(a), () => [{ segmentId: U, audienceId: U, limit: 3, after: U }, { limit: 3 }]);
  add('contacts.imports.create', (c, a) => c.contacts.imports.create(a), () => {
    const file = new Blob(['x']);
    return [{ file, columnMap: U, onConflict: U, segments: U, topics: U }, { file }];
  });
  add('broadcasts.create', (c, a) => c.broadcasts.create(a), (h) => [
    { segmentId: s(h, 'g'), audienceId: U, from: 'f', subject: 's', html: 'h', text: U, react: U, send: U, scheduledAt: U, name: U, previewText: U, replyTo: U, topicId: U },
    { segmentId: s(h, 'g'), from: 'f', subject: 's', html: 'h' },
  ]);
  add('broadcasts.create with text only', (c, a) => c.broadcasts.create(a), (h) => [{ segmentId: s(h, 'g'), from: 'f', subject: 's', text: h.str('t'), html: U, react: U }, { segmentId: s(h, 'g'), from: 'f', subject: 's', text: h.str('t') }]);
  add('broadcasts.update text only', (c, a) => c.broadcasts.update('b', a), (h) => [{ text: h.str('t'), html: U, react: U, replyTo: U, topicId: U, previewText: U }, { text: h.str('t') }]);
  add('templates.update nothing', (c, a) => c.templates.update('t', a), () => [{ name: U, html: U, text: U, variables: U, alias: U, from: U, subject: U, replyTo: U }, {}]);
  for (const m of ['send', 'create']) {
    add(`emails.${m} text only`, (c, a) => c.emails[m](a), (h) => [{ from: 'f', to: 't', subject: 's', text: h.str('x'), html: U, react: U, template: U }, { from: 'f', to: 't', subject: 's', text: h.str('x') }]);
    add(`batch.${m} second email`, (c, a) => c.batch[m](a), (h) => [[{ from: 'f', to: 't', subject: 's', html: 'h' }, { from: 'f', to: 't', subject: 's', text: h.str('x'), html: U, react: U, topicId: U }], [{ from: 'f', to: 't', subject: 's', html: 'h' }, { from: 'f', to: 't', subject: 's', text: h.str('x') }]]);
  }
  add('broadcasts.update', (c, a) => c.broadcasts.update('b', a), (h) => [{ name: s(h, 'n'), html: U, react: U, text: U, segmentId: U, audienceId: U }, { name: s(h, 'n') }]);
  for (const m of ['send', 'create']) {
    add(`emails.${m} content`, (c, a) => c.emails[m](a), (h) => [{ from: 'f', to: 't', subject: 's', html: h.str('x'), text: U, react: U, template: U, attachments: U, tags: U }, { from: 'f', to: 't', subject: 's', html: h.str('x') }]);
    add(`emails.${m} template`, (c, a) => c.emails[m](a), (h) => [{ from: U, to: 't', subject: U, html: U, text: U, react: U, template: { id: s(h, 'i'), variables: U } }, { to: 't', template: { id: s(h, 'i') } }]);
    add(`batch.${m} content`, (c, a) => c.batch[m](a), (h) => [[{ from: 'f', to: 't', subject: 's', text: h.str('x'), html: U, react: U, template: U }], [{ from: 'f', to: 't', subject: 's', text: h.str('x') }]]);
  }
  add('templates.create', (c, a) => c.templates.create(a), (h) => [{ name: s(h, 'n'), html: 'h', react: U, variables: U, alias: U, subject: U, text: U, from: U, replyTo: U }, { name: s(h, 'n'), html: 'h' }]);
  add('templates.update', (c, a) => c.templates.update('t', a), (h) => [{ name: s(h, 'n'), html: U, variables: U, alias: U }, { name: s(h, 'n') }]);
  add('automations.update', (c, a) => c.automations.update('a', a), (h) => [{ name: s(h, 'n'), status: U, steps: U, connections: U }, { name: s(h, 'n') }]);
  add('automations.create', (c, a) => c.automations.create(a), (h) => [{ name: s(h, 'n'), status: U, steps: [{ key: 'k', type: 'send_email', config: { template: { id: 'x', variables: U }, subject: U, from: U, replyTo: U } }], connections: [{ from: 'a', to: 'b', type: U }] }, { name: s(h, 'n'), steps: [{ key: 'k', type: 'send_email', config: { template: { id: 'x' } } }], connections: [{ from: 'a', to: 'b' }] }]);
  add('automations.runs.list', (c, a) => c.automations.runs.list(a), (h) => [{ automationId: s(h, 'a'), status: U, limit: U, after: U, before: U }, { automationId: s(h, 'a') }]);
  add('emails.metrics', (c, a) => c.emails.metrics(a), () => [{ metrics: U, dimensions: U, domainId: U, emailId: U, broadcastId: U, startDate: U, endDate: U, granularity: U, timezone: U }, {}]);
  add('events.send', (c, a) => c.events.send(a), (h) => [{ event: 'e', contactId: s(h, 'c'), email: U, payload: U }, { event: 'e', contactId: s(h, 'c') }]);
  add('suppressions.batch.remove', (c, a) => c.suppressions.batch.remove(a), (h) => [{ ids: [s(h, 'i')], emails: U }, { ids: [s(h, 'i')] }]);
  // a whole optional argument
  const whole = [
    ['emails.list', (c, ...a) => c.emails.list(...a)], ['emails.metrics whole', (c, ...a) => c.emails.metrics(...a)], ['emails.share', (c, ...a) => c.emails.share('e', ...a)], ['emails.receiving.get', (c, ...a) => c.emails.receiving.get('e', ...a)],
    ['emails.receiving.list', (c, ...a) => c.emails.receiving.list(...a)], ['emails.send options', (c, ...a) => c.emails.send({ from: 'f', to: 't', subject: 's', text: 'x' }, ...a)], ['batch.send options', (c, ...a) => c.batch.send([], ...a)],
    ['broadcasts.send', (c, ...a) => c.broadcasts.send('b', ...a)], ['broadcasts.list', (c, ...a) => c.broadcasts.list(...a)], ['broadcasts.clickedLinks', (c, ...a) => c.broadcasts.clickedLinks('b', ...a)], ['broadcasts.create options', (c, ...a) => c.broadcasts.create({ segmentId: 'g', from: 'f', subject: 's', text: 'x' }, ...a)],
    ['contacts.list', (c, ...a) => c.contacts.list(...a)], ['contacts.imports.list', (c, ...a) => c.contacts.imports.list(...a)], ['contacts.create options', (c, ...a) => c.contacts.create({ email: 'm' }, ...a)],
    ['contacts.imports.create options', (c, ...a) => c.contacts.imports.create({ file: new Blob(['x']) }, ...a)], ['contactProperties.list', (c, ...a) => c.contactProperties.list(...a)], ['segments.list', (c, ...a) => c.segments.list(...a)],
    ['segments.create options', (c, ...a) => c.segments.create({ name: 'n' }, ...a)], ['suppressions.list', (c, ...a) => c.suppressions.list(...a)], ['templates.list', (c, ...a) => c.templates.list(...a)], ['events.list', (c, ...a) => c.events.list(...a)], ['logs.list', (c, ...a) => c.logs.list(...a)],
    ['apiKeys.list', (c, ...a) => c.apiKeys.list(...a)], ['apiKeys.create options', (c, ...a) => c.apiKeys.create({ name: 'n' }, ...a)], ['oauthGrants.list', (c, ...a) => c.oauthGrants.list(...a)], ['automations.list', (c, ...a) => c.automations.list(...a)],
    ['domains.list', (c, ...a) => c.domains.list(...a)], ['domains.create options', (c, ...a) => c.domains.create({ name: 'n' }, ...a)], ['webhooks.list', (c, ...a) => c.webhooks.list(...a)], ['webhooks.create options', (c, ...a) => c.webhooks.create({ endpoint: 'e', events: [] }, ...a)],
    ['verb.get options', (c, ...a) => c.get('/x', ...a)], ['verb.post entity', (c, ...a) => c.post('/x', ...a)], ['verb.put options', (c, ...a) => c.put('/x', 1, ...a)], ['verb.patch options', (c, ...a) => c.patch('/x', 1, ...a)], ['verb.delete entity', (c, ...a) => c.delete('/x', ...a)],
  ];
  const answer = (h, w) => (req) => h.ok(h.obj('answer', { object: 'list', has_more: false, data: [], id: h.str('answer.id') }));
  const compare = async (h, f1, f2, mk) => {
    const [w1, w2] = [h.world({ fetch: mk ?? answer(h) }), h.world({ fetch: mk ?? answer(h) })];
    const [c1, c2] = [w1.client(), w2.client()];
    const r1 = await h.attempt(() => f1(c1));
    const r2 = await h.attempt(() => f2(c2));
    h.assert(r1.hang === r2.hang && r1.ok === r2.ok, 'the call ends the same way');
    h.assert(w1.calls.length === w2.calls.length, 'the same number of requests');
    h.assert(h.same(view(h, w1), view(h, w2)), 'the same requests');
    if (r1.ok && r2.ok) h.assert(h.same(r1.value.error, r2.value.error), 'the same error');
  };
  for (const [name, f, mk] of pairs) {
    out.push({
      name: `pair ${name}`,
      run: async (h) => {
        const [a, b] = mk({ ...h, str: memo(h) });
        const paths = undefs(a);
        const how = paths.length > 1 ? h.choice('undefined', ['all', ...paths.map((p) => `only ${p.join('.')}`), ...(paths.length > 2 ? paths.map((p) => `not ${p.join('.')}`) : [])]) : 'all';
        const drop = how === 'all' ? [] : paths.filter((p) => (how === `only ${p.join('.')}` ? false : how.startsWith('only') || how === `not ${p.join('.')}`));
        const given = without(a, drop);
        await compare(h, (c) => f(c, given), (c) => f(c, b));
      },
    });
  }
  for (const [name, f] of whole) {
    out.push({ name: `whole ${name}`, run: (h) => compare(h, (c) => f(c, U), (c) => f(c)) });
    out.push({ name: `members of ${name}`, run: (h) => compare(h, (c) => f(c, name.includes('options') ? { headers: U, idempotencyKey: U, query: U, ...(name.startsWith('batch') ? { batchValidation: U } : {}) } : name.startsWith('verb') ? U : { limit: U, after: U, before: U, expiresIn: U, scheduledAt: U, status: U, origin: U, html_format: U }), (c) => f(c, ...(name.startsWith('verb') ? [] : [{}]))) });
  }
  for (const wrapped of [false, true]) {
    out.push({
      name: `forward ${wrapped ? 'wrapped' : 'passthrough'}`,
      run: async (h) => {
        const fc = forwardCase(h, wrapped, {});
        const fetch = (req, i) => (i === 0 ? h.ok(fc.email) : i === 1 ? download('raw bytes') : h.ok({ id: 'x' }));
        const o = fc.options;
        const a = wrapped ? { ...o, html: U } : { ...o, passthrough: U, text: U, html: U };
        await compare(h, (c) => c.emails.receiving.forward(a, U), (c) => c.emails.receiving.forward(o), fetch);
      },
    });
  }
  return out;
}
const inner = (x) => x !== null && typeof x === 'object' && (Array.isArray(x) || Object.getPrototypeOf(x) === Object.prototype);
/** where a value has undefined members */
function undefs(x, at = []) {
  if (!inner(x)) return [];
  return Object.keys(x).flatMap((k) => (x[k] === undefined ? [[...at, k]] : undefs(x[k], [...at, k])));
}
/** the value without the members at these places */
function without(x, paths, at = []) {
  if (!inner(x)) return x;
  if (Array.isArray(x)) return x.map((y, i) => without(y, paths, [...at, String(i)]));
  return Object.fromEntries(Object.entries(x).filter(([k]) => !paths.some((p) => p.join('.') === [...at, k].join('.'))).map(([k, y]) => [k, without(y, paths, [...at, k])]));
}
/** the same name gives the same string */
function memo(h) {
  const m = new Map();
  return (n, o) => {
    if (!m.has(n)) m.set(n, h.str(n, o));
    return m.get(n);
  };
}
