import { wellFormed } from './lib';

export const meta = {
  bounds: [
    'contacts.get/update/remove, contacts.segments.*, contacts.topics.*, contactProperties.get/update/remove, topics.get/update/remove, suppressions.get/remove, contacts.create; each identifier absent, undefined, null, empty or any URL-safe identifier, in every combination; other fields present or absent',
    'the identifier missing: exactly the documented local error and no request, at once or later; present: exactly one request',
  ],
};
const ID = { re: 'safeId', nonEmpty: true, not: ['.', '..'] };
const field = (h, n) => h.maybe(h.pick(n, [undefined, null, '', h.str(`${n}.s`, ID)]));
const local = (h, w, r, names) => {
  if (!wellFormed(h, r)) return;
  const v = r.value;
  h.assert(v.data === null, 'data is null');
  h.assert(v.headers === null, 'headers is null');
  h.assert(v.error !== null && h.isObject(v.error), 'an error object is returned');
  if (v.error === null || !h.isObject(v.error)) return;
  h.assert(h.or(names.map((n) => h.eq(v.error.name, n))), `the error is ${names.join(' or ')}`);
  h.assert(v.error.statusCode === null, 'the error has no HTTP status');
  h.assert(h.isStr(v.error.message), 'the error has a message');
};
const ends = async (h, w, f, missing, names = ['missing_required_field']) => {
  const r = await h.attempt(f);
  await h.quiesce();
  if (h.when(missing)) {
    h.assert(w.calls.length === 0, 'nothing is sent');
    local(h, w, r, names);
  } else {
    h.assert(w.calls.length === 1, 'exactly one request is sent');
    h.assert(r.ok === true, 'the call resolves');
    if (r.ok) h.assert(r.value.error === null, 'no local error');
  }
};
export function cases() {
  const out = [];
  const named = [
    ['contacts.get', 'id', (c, a) => c.contacts.get(a), (h) => ({ audienceId: field(h, 'audienceId') })],
    ['contacts.update', 'id', (c, a) => c.contacts.update(a), (h) => ({ audienceId: field(h, 'audienceId'), firstName: h.maybe(h.str('firstName')), unsubscribed: h.maybe(h.bool('unsubscribed')) })],
    ['contacts.remove', 'id', (c, a) => c.contacts.remove(a), (h) => ({ audienceId: field(h, 'audienceId') })],
    ['contacts.segments.list', 'contactId', (c, a) => c.contacts.segments.list(a), (h) => ({ limit: h.maybe(h.int('limit', 1, 100)) })],
    ['contacts.segments.add', 'contactId', (c, a) => c.contacts.segments.add(a), (h) => ({ segmentId: h.str('segmentId', ID) })],
    ['contacts.segments.remove', 'contactId', (c, a) => c.contacts.segments.remove(a), (h) => ({ segmentId: h.str('segmentId', ID) })],
    ['contacts.topics.list', 'id', (c, a) => c.contacts.topics.list(a), (h) => ({ limit: h.maybe(h.int('limit', 1, 100)) })],
    ['contacts.topics.update', 'id', (c, a) => c.contacts.topics.update(a), (h) => ({ topics: h.flip('topics') ? [] : [{ id: h.str('topic'), subscription: 'opt_in' }] })],
  ];
  for (const [name, idf, call, extra] of named) {
    out.push({
      name,
      run: async (h) => {
        const w = h.world();
        const c = w.client();
        const a = h.obj('p', { [idf]: field(h, 'id'), email: field(h, 'email'), ...extra(h) });
        const missing = h.and(h.not(h.truthy(a[idf])), h.not(h.truthy(a.email)));
        await ends(h, w, () => call(c, a), missing);
      },
    });
  }
  const ok = (h) => ({ fetch: () => h.ok({ object: 'contact_property', id: 'p', key: 'k', created_at: 'd', type: 'string', fallback_value: null }) });
  const direct = [
    ['contactProperties.get', (c, a) => c.contactProperties.get(a)], ['contactProperties.remove', (c, a) => c.contactProperties.remove(a)], ['topics.get', (c, a) => c.topics.get(a)], ['topics.remove', (c, a) => c.topics.remove(a)],
    ['suppressions.get', (c, a) => c.suppressions.get(a)], ['suppressions.remove', (c, a) => c.suppressions.remove(a)],
  ];
  for (const [name, call] of direct) {
    out.push({
      name,
      run: async (h) => {
        const w = h.world(ok(h));
        const c = w.client();
        const id = h.pick('id', [undefined, null, '', h.str('id.s', ID)]);
        await ends(h, w, () => call(c, id), h.not(h.truthy(id)));
      },
    });
  }
  for (const [name, call, extra] of [
    ['contactProperties.update', (c, a) => c.contactProperties.update(a), (h) => ({ fallbackValue: h.maybe(h.pick('fb', [null, h.str('fbs'), h.num('fbn')])) })],
    ['topics.update', (c, a) => c.topics.update(a), (h) => ({ name: h.maybe(h.str('name')), description: h.maybe(h.str('description')) })],
  ]) {
    out.push({
      name,
      run: async (h) => {
        const w = h.world();
        const c = w.client();
        const a = h.obj('p', { id: field(h, 'id'), ...extra(h) });
        await ends(h, w, () => call(c, a), h.not(h.truthy(a.id)));
      },
    });
  }
  out.push({
    name: 'contacts.create',
    run: async (h) => {
      const w = h.world();
      const c = w.client();
      const seg = h.flip('segments') ? [{ id: h.str('seg') }] : [];
      const top = h.flip('topics') ? [{ id: h.str('top'), subscription: 'opt_out' }] : [];
      const a = h.obj('p', {
        email: h.str('email'), audienceId: h.maybe(h.pick('aud', [undefined, h.str('aud.s', ID)])), segments: h.maybe(h.pick('segs', [undefined, seg])), topics: h.maybe(h.pick('tops', [undefined, top])), firstName: h.maybe(h.str('firstName')),
      });
      const given = (v) => h.not(h.isUndef(v));
      const bad = h.and(given(a.audienceId), h.or(given(a.segments), given(a.topics)));
      await ends(h, w, () => c.contacts.create(a), bad, ['invalid_parameter']);
    },
  });
  return out;
}
