export const meta = {
  bounds: [
    'payloads: any JSON object of the bounded shape serialised compactly or with surrounding white space, two fixed texts that JSON.stringify would write differently, and every ordered pair of 22 texts that are close to each other (byte order marks, white space, escapes, order, case, normal forms), and any text that is not JSON; two payloads of 70,000 and 1.1 million characters; any non-empty id; any timestamp within 10^6 s of now; any non-empty key, with or without the whsec_ prefix',
    'signature header: up to nine tokens with the authentic one at any place; the authentic token alone, after or before another one, with another version, without one, or any other token; the secret, id and header values absent or empty',
    'one call, and two calls on the same client where the second has exactly one part changed, or is the authentic one after a refused one; two different authentic messages under any secrets (also ones with a common start or the same) on one or two clients, the first again, and the second with the signature of the first; the first result changed by the caller in between',
  ],
  assumptions: ['in symbolic mode standardwebhooks is a model of its code in which HMAC-SHA256 signatures are unforgeable and collision free; every path is replayed with the real package'],
};
const CHANGES = ['none', 'payload', 'payload space', 'id', 'id space', 'timestamp', 'timestamp digits', 'token', 'version', 'no version', 'secret', 'empty signature', 'no signature', 'no id', 'no timestamp', 'empty id'];
const NOW = 1_700_000_000;

/** an authentic message; lean: fewer forms of it */
function tuple(h, lean, { shared = false, id: idPrefix = '', kind: given = null } = {}) {
  const kind = given ?? h.choice('payload', lean ? ['spaced', 'odd'] : ['compact', 'spaced', 'odd', 'odder', 'not JSON']);
  let text;
  let value;
  if (kind === 'odd') text = '{ "type":"email.sent",\n "n":1.50, "u":"\\u00e9\\u2028", "dup":1, "dup":2 ,"created_at":"x","data":{"email_id":null,"to":["a"]}}';
  else if (kind === 'odder') text = '["x",{"a":{"__proto__x":1e3}},-0.5,null]';
  else if (kind === 'not JSON') text = h.cat('<', h.str('text'));
  else {
    value = h.obj('event', { type: h.str('type'), created_at: h.maybe(h.str('created_at')), data: h.maybe(h.json('data', 1)), broadcastId: h.maybe(h.num('n')), email_id: h.maybe(h.str('email_id')) });
    text = h.bodyText({ k: 'json', v: value });
    if (kind === 'spaced') text = h.cat(' \n', text, '\n\n');
  }
  if (kind === 'odd' || kind === 'odder') value = JSON.parse(text);
  const id = h.cat(idPrefix, h.str('id', { re: 'headerTight', nonEmpty: true }));
  const n = h.int('timestamp', NOW - 1_000_000, NOW + 1_000_000);
  // keys that share their first nine bytes, or any
  const key = h.cat(shared ? 'bmluZWJ5dGVz' : '', h.b64(h.str('key', { re: 'binary', nonEmpty: true })));
  const secret = lean || h.flip('prefixed') ? h.cat('whsec_', key) : key;
  const token = h.signature(secret, id, n, text);
  const form = lean ? 'alone' : h.choice('header', ['alone', 'last', 'first', 'after v1a']);
  const o = h.token('otherToken', [token]);
  const sig = { alone: h.cat('v1,', token), last: h.cat('v1,', o, ' v1,', token), first: h.cat('v1,', token, ' v1,', o), 'after v1a': h.cat('v1a,', o, ' v1,', token) }[form];
  return { kind, text, value, id, n, secret, token, other: o, sig };
}
function callOf(h, t, change) {
  const a = { payload: t.text, headers: { id: t.id, timestamp: h.numStr(t.n), signature: t.sig }, webhookSecret: t.secret };
  const differ = (x, y) => h.assume(h.not(h.eq(x, y)));
  if (change === 'payload') {
    a.payload = h.bodyText({ k: 'json', v: h.obj('event2', { type: h.str('type2'), data: h.maybe(h.json('data2', 0)) }) });
    differ(a.payload, t.text);
  }
  if (change === 'payload space') a.payload = h.cat(t.text, '\n');
  if (change === 'id') {
    a.headers.id = h.str('id2', { re: 'headerTight', nonEmpty: true, not: [t.id] });
  }
  if (change === 'id space') a.headers.id = h.cat(t.id, ' ');
  if (change === 'timestamp') {
    const n2 = h.int('timestamp2', NOW - 1_000_000, NOW + 1_000_000);
    differ(n2, t.n);
    a.headers.timestamp = h.numStr(n2);
  }
  if (change === 'timestamp digits') a.headers.timestamp = h.cat(h.numStr(t.n), h.choice('digits', ['0', '7', '000']));
  if (change === 'token' || change === 'version' || change === 'no version') {
    const o = h.token('token2', [t.token, t.other]);
    a.headers.signature = change === 'token' ? h.cat('v1,', o) : change === 'version' ? h.cat('v2,', t.token) : t.token;
  }
  if (change === 'secret') {
    const k2 = h.str('key2', { re: 'binary', nonEmpty: true });
    a.webhookSecret = h.cat('whsec_', h.b64(k2));
    differ(a.webhookSecret, t.secret);
    differ(a.webhookSecret, h.cat('whsec_', t.secret));
  }
  if (change === 'empty signature') a.headers.signature = '';
  if (change === 'no signature') delete a.headers.signature;
  if (change === 'no id') delete a.headers.id;
  if (change === 'no timestamp') delete a.headers.timestamp;
  if (change === 'empty id') a.headers.id = '';
  return a;
}
function run(h, c, t, change, l) {
  const a = callOf(h, t, change);
  let r;
  let threw = false;
  try {
    r = c.webhooks.verify(a);
  } catch {
    threw = true;
  }
  const fresh = h.and(h.not(t.n < NOW - 300), h.not(t.n > NOW + 300));
  const accept = change === 'none' && t.kind !== 'not JSON' && h.when(fresh);
  h.assert(threw === !accept, accept ? `${l}an authentic message is accepted` : `${l}a message that is not authentic is refused`);
  if (accept && !threw) h.assert(h.same(r, t.value), `${l}the payload is returned as signed`);
  return r;
}
// texts that are close to each other, most of them with the same meaning
const T0 = '{"type":"caf\u00e9","n":1,"a":"x"}';
const FORMS = [T0, `\ufeff${T0}`, `${T0}\ufeff`, ` ${T0}`, `${T0} `, `${T0}\r\n`, `${T0}\0`, T0.replace('{', '{\n'), T0.replace(/,/g, ', '), T0.replace('\u00e9', '\\u00e9'), T0.replace('\u00e9', 'e\u0301'), T0.replace('n":1', 'n":1.0'), '{"n":1,"a":"x","type":"caf\u00e9"}', T0.replace('{', '{"n":1,'), T0.replace('"x"', '"\\u0078"'), T0.toUpperCase(), T0.replace('"x"', '"X"'), `${T0}${T0}`, JSON.stringify(T0), `[${T0}]`, T0.slice(0, -1), ''];
export function cases() {
  return [
    ...[3, 5, 9].flatMap((n) => ['valid', 'none valid'].map((how) => ({
      name: `${n} signatures, ${how}`,
      run: (h) => {
        const c = h.world().client();
        const t = tuple(h, true, { kind: 'odd' });
        const at = h.choice('at', n);
        const v = h.choice('version', ['v1', 'v1a']);
        const tokens = [];
        for (let i = 0; i < n; i++) tokens.push(i === at ? h.cat(how === 'valid' ? 'v1,' : 'v2,', t.token) : h.cat(i % 2 ? v : 'v1', ',', t.other));
        t.sig = h.cat(...tokens.flatMap((x, i) => (i ? [' ', x] : [x])));
        run(h, c, t, how === 'valid' ? 'none' : 'foreign', '');
      },
    }))),
    ...[70_000, 1_100_000].map((size) => ({
      name: `a payload of ${size} characters`,
      run: (h) => {
        const c = h.world().client();
        const t = tuple(h, true, { kind: 'odd' });
        t.value = { type: 'email.received', data: { text: '\u00e9x'.repeat(size / 2), list: Array.from({ length: 300 }, (_, i) => ({ i })) } };
        t.text = JSON.stringify(t.value);
        t.token = h.signature(t.secret, t.id, t.n, t.text);
        t.sig = h.cat('v1,', t.token);
        run(h, c, t, h.choice('change', ['none', 'token', 'payload space']), '');
      },
    })),
    ...['as signed', 'another'].map((how) => ({
      name: `forms of one payload, ${how}`,
      run: (h) => {
        const c = h.world().client();
        const i = h.choice('signed', FORMS.length);
        const j = how === 'as signed' ? i : h.choice('given', FORMS.length);
        h.assume(how === 'as signed' || i !== j);
        if (how !== 'as signed' && i === j) return;
        const text = FORMS[i];
        const key = h.b64(h.str('key', { re: 'binary', nonEmpty: true }));
        const t = { kind: 'odd', text, id: h.str('id', { re: 'headerTight', nonEmpty: true }), n: NOW, secret: h.cat('whsec_', key) };
        try {
          t.value = JSON.parse(text);
        } catch {
          t.kind = 'not JSON';
        }
        t.token = h.signature(t.secret, t.id, t.n, text);
        t.sig = h.cat('v1,', t.token);
        run(h, c, { ...t, text: FORMS[j] }, i === j ? 'none' : 'foreign', '');
      },
    })),
    ...CHANGES.map((change) => ({
      name: `one message, ${change} changed`,
      run: (h) => {
        const c = h.world().client();
        run(h, c, tuple(h, h.tier !== 'thorough' && !['none', 'token', 'secret'].includes(change)), change, '');
      },
    })),
    ...CHANGES.map((change) => ({
      name: `authentic, then ${change} changed`,
      run: (h) => {
        const c = h.world().client();
        const t = tuple(h, h.tier !== 'thorough');
        const r = run(h, c, t, 'none', 'first: ');
        if (h.isObject(r)) r.type = 'changed by the caller';
        if (t.kind === 'odd' || t.kind === 'odder') t.value = JSON.parse(t.text);
        run(h, c, t, change, 'second: ');
      },
    })),
    ...['any secrets', 'secrets with a common start', 'the same secret'].map((how) => ({
      name: `two authentic messages, ${how}`,
      run: (h) => {
        const c = h.world().client();
        const shared = how === 'secrets with a common start';
        const a = tuple(h, true, { shared, id: 'msg_a', kind: h.choice('payload', ['odd', 'odder']) });
        const b = tuple(h, true, { shared, id: 'msg_b', kind: 'spaced' });
        if (how === 'the same secret') {
          b.secret = a.secret;
          b.token = h.signature(b.secret, b.id, b.n, b.text);
          b.sig = h.cat('v1,', b.token);
        }
        const other = h.choice('second client', 2);
        const r = run(h, c, a, 'none', 'first: ');
        if (h.isObject(r)) r.type = 'changed by the caller';
        run(h, other ? h.world().client() : c, b, 'none', 'second: ');
        a.value = JSON.parse(a.text);
        run(h, c, a, 'none', 'third: ');
        // the signature of one message does not vouch for the other
        run(h, c, { ...b, token: a.token, sig: a.sig }, 'foreign', 'fourth: ');
      },
    })),
    ...CHANGES.slice(1).map((change) => ({
      name: `${change} changed, then authentic`,
      run: (h) => {
        const c = h.world().client();
        const t = tuple(h, h.tier !== 'thorough');
        run(h, c, t, change, 'first: ');
        run(h, c, t, 'none', 'second: ');
      },
    })),
  ];
}
