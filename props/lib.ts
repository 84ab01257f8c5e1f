// Helpers shared by the property harnesses. Instrumented together with them in symbolic mode.
import { Gen, OPS, STEP_TYPES, VERBS, broadcast, broadcastUpdate, connections, email, opById, reactNode, step, template } from 'catalog';

export { Gen, OPS, STEP_TYPES, VERBS, connections, opById, reactNode, step };
export const ORIGIN = 'https://api.resend.com';

/** name/value pairs actually sent: those whose value is not undefined */
export function given(q) {
  const out = [];
  for (const e of q) {
    const v = e[1];
    if (v !== undefined) out.push([e[0], v]);
  }
  return out;
}
/** assert that the request is the expected one; what: any of 'method', 'path', 'query', 'body' */
export function checkRequest(h, req, exp, what = ['method', 'path', 'query', 'body'], label = '') {
  const l = label === '' ? '' : `${label}: `;
  if (what.includes('method')) h.assert(req.method === exp.method, `${l}method is ${exp.method}`);
  const u = h.url(req.url);
  if (what.includes('path')) {
    h.assert(h.eq(u.origin, exp.origin ?? ORIGIN), `${l}request goes to the API`);
    h.assert(h.segsAre(u, exp.path), `${l}path is the documented one`);
    h.assert(u.hash === '', `${l}no fragment`);
  }
  if (what.includes('query')) {
    const q = given(exp.query ?? []);
    h.assert(h.queryIs(u, q), `${l}query holds exactly the given options`);
    if (q.length === 0) h.assert(!u.hasQuery, `${l}no query without options`);
  }
  if (what.includes('body')) checkBody(h, req, exp, l);
}
export function checkBody(h, req, exp, l = '') {
  if (exp.form) {
    checkForm(h, req, exp.form, l);
    return;
  }
  const b = h.body(req);
  if (!('body' in exp)) {
    h.assert('absent' in b, `${l}no body is sent`);
    return;
  }
  h.assert('v' in b, `${l}a JSON body is sent`);
  if ('v' in b) h.assert(h.jsonEq(b.v, exp.body), `${l}body holds exactly the given fields`);
}
export function checkForm(h, req, form, l = '') {
  h.assert(req.form !== null, `${l}a multipart form is sent`);
  if (req.form === null) return;
  const want = [];
  for (const e of form) {
    const v = e[1];
    if (v !== undefined) want.push([e[0], v, e[2]]);
  }
  h.assert(req.form.length === want.length, `${l}form has exactly the given fields`);
  for (const [k, v, kind] of want) {
    const m = req.form.filter((e) => e[0] === k);
    h.assert(m.length === 1, `${l}form field ${k} is sent once`);
    if (m.length !== 1) continue;
    if (kind === 'file') h.assert(sameFile(h, m[0][1], v), `${l}the file is sent as given`);
    else if (kind === 'json') {
      const b = h.body({ body: m[0][1] });
      h.assert('v' in b, `${l}form field ${k} is JSON`);
      if ('v' in b) h.assert(h.jsonEq(b.v, v), `${l}form field ${k} decodes to what was given`);
    } else h.assert(h.eq(m[0][1], v), `${l}form field ${k} is the given text`);
  }
}
export function sameFile(h, a, b) {
  return a === b || (a !== null && typeof a === 'object' && a.size === b.size && a.type === b.type);
}
/** a well-formed Response object of the SDK */
export function wellFormed(h, r, l = '') {
  h.assert(r.hang === false, `${l}settles`);
  h.assert(r.ok === true, `${l}resolves (no rejection, no synchronous throw)`);
  if (!r.ok) return false;
  const v = r.value;
  const shaped = h.isObject(v) && 'data' in v && 'error' in v && 'headers' in v;
  h.assert(shaped, `${l}result has data, error and headers`);
  return shaped;
}
export const small = (t) => (t === 'thorough' ? 2 : 1);
/** identifiers that any URL keeps in one segment */
export function each(ops, f) {
  return ops.map((op) => ({ name: op.id, run: (h) => f(h, op) }));
}

/** a JSON response body of the usual shapes, with unknown and null members */
export function respBody(h, n) {
  const k = h.choice(`${n}.shape`, 3);
  if (k === 0) {
    return h.obj(n, {
      object: h.maybe(h.str(`${n}.object`)), id: h.maybe(h.str(`${n}.id`)), name: h.maybe(h.pick(`${n}.name`, [null, h.str(`${n}.name.s`)])),
      created_at: h.maybe(h.str(`${n}.created_at`)), firstName: h.maybe(h.num(`${n}.firstName`)), first_name: h.maybe(h.json(`${n}.first_name`, 0)), some_data: h.maybe(h.json(`${n}.some_data`, 1)),
      data: h.maybe(h.json(`${n}.dataField`, 0)), error: h.maybe(h.pick(`${n}.error`, [null, h.str(`${n}.error.s`)])), '*': h.extra(h.json(`${n}.extra`, 1)),
    });
  }
  if (k === 1) {
    return h.obj(n, {
      object: 'list', has_more: h.maybe(h.bool(`${n}.has_more`)),
      data: [
        h.obj(`${n}.d0`, { id: h.maybe(h.str(`${n}.d0.id`)), to_x: h.maybe(h.json(`${n}.d0.to`, 0)), '*': h.extra(h.json(`${n}.d0.extra`, 0)) }),
        h.json(`${n}.d1`, 0),
      ],
    });
  }
  return h.json(n, 1);
}
/** a contact property as the API documents it */
export function apiProperty(h, n) {
  return h.obj(n, {
    object: 'contact_property', id: h.str(`${n}.id`), key: h.str(`${n}.key`), created_at: h.str(`${n}.created_at`), type: h.pick(`${n}.type`, ['string', 'number']),
    fallback_value: h.pick(`${n}.fb`, [null, h.str(`${n}.fbs`), h.num(`${n}.fbn`), '', 0]),
  });
}
export function apiPropertyList(h, n, max = 2) {
  const len = h.choice(`${n}.len`, max + 1);
  const data = [];
  for (let i = 0; i < len; i++) data.push(apiProperty(h, `${n}.${i}`));
  return h.obj(n, { object: 'list', has_more: h.bool(`${n}.has_more`), data });
}
/** the documented form of a contact property */
export function publicProperty(p) {
  return { id: p.id, key: p.key, createdAt: p.created_at, type: p.type, fallbackValue: p.fallback_value };
}
/** a successful body of the operation's type */
export function okBody(h, op, n) {
  if (op.shape === 'property') return apiProperty(h, n);
  if (op.shape === 'propertyList') return apiPropertyList(h, n, 1);
  return respBody(h, n);
}
export function okView(op, v) {
  if (op.shape === 'property') return { object: 'contact_property', ...publicProperty(v) };
  if (op.shape === 'propertyList') return { ...v, data: v.data.map((p) => publicProperty(p)) };
  return v;
}
/** assert that the result of a call is the one its exchange with outcome o must give */
export function checkResult(h, op, r, o, l = '') {
  if (!wellFormed(h, r, l)) return;
  const v = r.value;
  if (o.kind === 'okJson') {
    h.assert(v.error === null, `${l}2xx with a JSON body gives error null`);
    h.assert(h.same(v.data, okView(op, o.body.v)), `${l}data is the response body`);
    h.assert(h.same(v.headers, h.headersObj(o.headers)), `${l}headers are the response's`);
    return;
  }
  if (o.kind === 'okBad' || o.kind === 'okUnreadable') {
    // the status of an empty body may be one that never has a body (204, 205)
    if (o.kind === 'okUnreadable' || !h.when(h.or(h.eq(o.status, 204), h.eq(o.status, 205)))) {
      h.assert(v.data === null && v.error !== null && h.isObject(v.error), `${l}an unreadable 2xx response is not reported as success`);
    }
    return;
  }
  h.assert(v.data === null, `${l}a failed exchange gives data null`);
  h.assert(v.error !== null && h.isObject(v.error), `${l}a failed exchange gives an error object`);
  if (v.error === null || !h.isObject(v.error)) return;
  if (o.kind === 'network') {
    h.assert(h.eq(v.error.name, 'application_error'), `${l}a failed request is an application_error`);
    h.assert(v.error.statusCode === null, `${l}a failed request has statusCode null`);
    h.assert(v.headers === null, `${l}a failed request has headers null`);
    return;
  }
  if (o.kind === 'errJson') h.assert(h.same(v.error, o.body.v), `${l}error is the response's error object`);
  else {
    h.assert(h.eq(v.error.name, 'application_error'), `${l}an unreadable error is an application_error`);
    h.assert(h.eq(v.error.statusCode, o.status), `${l}an unreadable error carries the HTTP status`);
    h.assert(h.isStr(v.error.message), `${l}an unreadable error has a message`);
  }
  h.assert(h.same(v.headers, h.headersObj(o.headers)), `${l}headers are the response's`);
}
/** default headers of a request of the client with this key and user agent */
export function defaultHeaders(key, ua, form = false) {
  const l = [['authorization', key], ['user-agent', ua]];
  if (!form) l.push(['content-type', 'application/json']);
  return l;
}

// ------------------------------------------------------------------ forwarding a received email
/** the same harness with prefixed input names */
function prefixed(h, prefix) {
  if (prefix === '') return h;
  return {
    str: (n, o) => h.str(prefix + n, o), pick: (n, v) => h.pick(prefix + n, v), choice: (n, k) => h.choice(prefix + n, k), flip: (n) => h.flip(prefix + n), cat: (...x) => h.cat(...x),
    obj: (n, f) => h.obj(prefix + n, f), maybe: (v) => h.maybe(v),
  };
}
/** {options, email, url} of a forward call; email is the first response */
export function forwardCase(h, wrapped, { full = false, raw = 'present', prefix = '', subject = undefined, host = null } = {}) {
  h = prefixed(h, prefix);
  const emailId = h.str('emailId', { re: 'safeId', nonEmpty: true, not: ['.', '..'] });
  const to = full ? h.pick('to', [h.str('to.s'), [h.str('to.0')], [h.str('to.1'), h.str('to.2')]]) : h.str('to.s');
  const from = h.str('from');
  const options = { emailId, to, from };
  if (wrapped) {
    options.passthrough = false;
    const k = full ? h.choice('content', 3) : 0;
    if (k === 0 || k === 2) options.text = h.str('text');
    if (k === 1 || k === 2) options.html = h.str('html');
  } else if (full && h.flip('passthrough given')) options.passthrough = true;
  const token = h.str('token', { re: 'safeId', nonEmpty: true, not: ['.', '..'] });
  const url = host === null ? h.cat('https://files.example/raw/', token) : h.cat('https://', host, '/raw/', token);
  const email = h.obj('email', {
    object: 'email', id: h.str('email.id'), to: [h.str('email.to')], from: h.str('email.from'), created_at: h.str('email.created_at'), subject: subject === undefined ? h.str('email.subject') : subject, bcc: null, cc: null, reply_to: null,
    received_for: [], html: h.pick('email.html', [null, h.str('email.html.s')]), text: h.pick('email.text', [null, h.str('email.text.s')]), headers: null, message_id: h.str('email.mid'), attachments: [],
    ...(raw === 'present' ? { raw: { download_url: url, expires_at: h.str('email.exp') } } : raw === 'null' ? { raw: null } : {}),
  });
  return { options, email, url, emailId, to, from };
}
export function download(bin, status = 200) {
  return { kind: 'okBytes', type: 'response', status, headers: [['content-type', 'message/rfc822']], body: { k: 'bytes', b: bin } };
}
/** the kinds of outcome that are failures */
export const FAILURES = ['errJson', 'errOther', 'errBad', 'errUnreadable', 'network'];
export const ALL_KINDS = ['okJson', 'okBad', 'okUnreadable', ...FAILURES];

// ------------------------------------------------------------------ React content
export const REACT_OPS = ['emails.send', 'emails.create', 'batch.send', 'batch.create', 'broadcasts.create', 'broadcasts.update', 'templates.create'];
/** {op, args, method, path, body, nodes}: a call with React or other content; html(node) is what the renderer gives for a node */
export function reactBuild(h, id, g, html, max = 1) {
  const op = opById(id);
  const nodes = [];
  const add = (n) => {
    nodes.push(n);
    return html(n, nodes.length - 1);
  };
  const whole = (b) => {
    const body = { ...b.body };
    if ('react' in b.pl) body.html = add(b.pl.react);
    return body;
  };
  if (id === 'emails.send' || id === 'emails.create') {
    const e = email(g, 'p', { react: true, rendered: add });
    return { op, args: [e.pl], method: 'POST', path: ['emails'], body: e.body, nodes };
  }
  if (id === 'batch.send' || id === 'batch.create') {
    const n = h.choice('emails', max + 1);
    const es = [];
    for (let i = 0; i < n; i++) es.push(email(g, `b${i}`, { attachments: false, react: true, rendered: add }));
    return { op, args: [es.map((e) => e.pl)], method: 'POST', path: ['emails', 'batch'], body: es.map((e) => e.body), nodes };
  }
  if (id === 'broadcasts.create') {
    const b = broadcast(g, { react: true });
    return { op, args: [b.pl], method: 'POST', path: ['broadcasts'], body: whole(b), nodes };
  }
  if (id === 'broadcasts.update') {
    const i = g.id('id');
    const b = broadcastUpdate(g, { react: true });
    return { op, args: [i, b.pl], method: 'PATCH', path: ['broadcasts', i], body: whole(b), nodes };
  }
  const b = template(g, { react: true });
  return { op, args: [b.pl], method: 'POST', path: ['templates'], body: whole(b), nodes };
}
/** request options in one of the forms a caller may use */
export function callerOptions(h, op) {
  const form = h.choice('options', ['none', 'empty', 'object', 'pairs', 'Headers']);
  if (form === 'none') return null;
  const o = {};
  const v = h.str('o.header', { re: 'headerTight' });
  if (form === 'object') o.headers = h.obj('o.h', { 'X-Trace': h.maybe(v), Authorization: h.maybe('mine') });
  if (form === 'pairs') o.headers = [['X-Trace', v], ['content-type', 'mine']];
  if (form === 'Headers') o.headers = new h.G.Headers([['X-Trace', v], ['user-agent', 'mine']]);
  if (form !== 'empty' && (op.opts === 'idem' || op.opts === 'batch')) o.idempotencyKey = h.pick('o.ikey', [undefined, '', h.str('o.ikey.s', { re: 'headerTight' })]);
  if (form !== 'empty' && op.opts === 'batch') o.batchValidation = h.pick('o.bv', [undefined, 'strict', 'permissive']);
  return o;
}

/** every optional field given, and long lists and records of every kind of entry */
export function largeCases(ops, n = 30) {
  return ops.map((op) => ({
    name: `${op.id}: everything, at length`,
    run: async (h) => {
      const w = h.world({ fetch: () => h.ok(op.shape === 'propertyList' ? { object: 'list', data: [] } : {}) });
      const c = w.client();
      const b = op.build(new Gen(h, { level: 'full', large: n }));
      await h.attempt(() => op.call(c, b.args));
      h.assert(w.calls.length === 1, 'one request');
      if (w.calls.length === 1) checkRequest(h, w.calls[0], b);
    },
  }));
}
