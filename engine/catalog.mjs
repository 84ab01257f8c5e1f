// The documented API surface: for every operation, how to build type-correct arguments and the request they must cause.
// Written from the documentation and the public types, not from the implementation.
//
// build(g) -> { args, method, path, query?, body?, form?, options? }
//   path   path segments (decoded)
//   query  [[name, value]]; a value that is undefined is not sent
//   body   JSON value to be sent; without the key no body may be sent
import * as T from './smt.mjs';
import * as S from './sym.mjs';

/** Argument generator. level 'light': required fields only; 'full': every subset of fields.
 *  undef: a field that is left out may instead be present with the value undefined.
 *  large: every optional field is given, and lists and records have that many entries, of every kind in turn.
 *  ids: regular-language class of identifiers. */
export class Gen {
  constructor(h, { level = 'light', undef = false, ids = 'safeId', strs = {}, arr = 1, prefix = '', emptyIds = false, lean = false, leanRules = false, depth = 1, filterDepth = 0, large = 0 } = {}) {
    Object.assign(this, { large, turn: 0, h, level, undef, ids, strs, arrMax: arr, prefix, emptyIds, lean, leanRules, depth, filterDepth });
    this.twins = new Map();
    this.opts = new WeakSet();
    this.idVars = [];
    this.full = level !== 'light';
  }
  n(name) {
    return this.prefix + name;
  }
  /** identifier: non-empty, not '.' or '..' */
  id(name) {
    const v = this.h.str(this.n(name), { re: this.ids, nonEmpty: true, not: ['.', '..'] });
    this.idVars.push(v);
    return v;
  }
  str(name, o = {}) {
    return this.h.str(this.n(name), { ...this.strs, ...o });
  }
  bool(name) {
    return this.h.bool(this.n(name));
  }
  num(name) {
    return this.h.num(this.n(name));
  }
  int(name, lo, hi) {
    return this.h.int(this.n(name), lo, hi);
  }
  en(name, values) {
    if (!this.full && values.length > 3 && values.every((v) => typeof v === 'string')) return this.word(name, values);
    const u = this.h.pick(this.n(name), values);
    if (values.some((v) => this.twins.has(v))) {
      if (this.h.sym) this.twins.set(u, S.mkUnion(S.unionAlts(u).map((a) => ({ c: a.c, v: this.twin(a.v) }))));
    }
    return u;
  }
  /** one of several strings, as a string of its own: the path does not split on it */
  word(name, values) {
    const s = this.h.str(this.n(name), { re: 'safeId', nonEmpty: true });
    this.h.assume(this.h.or(values.map((v) => this.h.eq(s, v))));
    return s;
  }
  choice(name, n) {
    if (this.large && name.includes('[')) return Array.isArray(n) ? n[this.turn++ % n.length] : this.turn++ % n;
    return this.h.choice(this.n(name), n);
  }
  /** a case split that the light level does not take */
  variant(name, n) {
    return this.full ? this.choice(name, n) : Array.isArray(n) ? n[0] : 0;
  }
  json(name, depth = 1) {
    return this.h.json(this.n(name), depth);
  }
  opt(v) {
    const o = { v };
    this.opts.add(o);
    return o;
  }
  /** an object argument; its twin is the same object without undefined-valued fields */
  obj(name, fields) {
    name = this.n(name);
    const a = [];
    const b = [];
    const extra = [];
    for (const [k, f] of Object.entries(fields)) {
      if (f !== null && typeof f === 'object' && f.__extra === true) {
        if (this.lean || (!this.full && !this.undef)) continue;
        extra.push(...this.h.extraFields(name, f.v, Object.keys(fields)));
        continue;
      }
      if (f === null || typeof f !== 'object' || !this.opts.has(f)) {
        a.push([k, f, true]);
        b.push([k, this.twin(f), true]);
        continue;
      }
      if (this.lean || (!this.full && !this.undef)) continue;
      const v = f.v;
      if (this.large) {
        a.push([k, v, true]);
        b.push([k, this.twin(v), true]);
        continue;
      }
      const p = this.h._var(`${name}.${k}!`, 'Bool');
      b.push([k, this.twin(v), p]);
      if (!this.undef) a.push([k, v, p]);
      else {
        const u = this.h._var(`${name}.${k}?u`, 'Bool');
        if (this.h.sym) a.push([k, S.mkUnion([{ c: p, v }, { c: T.not(p), v: undefined }]), T.or(p, u)]);
        else a.push([k, p ? v : undefined, p || u]);
      }
    }
    a.push(...extra);
    b.push(...extra);
    const mk = (l) => (this.h.sym ? S.mkObj(l.map(([k, v, p]) => [k, v, p === true ? T.TRUE : p])) : Object.fromEntries(l.filter((e) => e[2]).map((e) => [e[0], e[1]])));
    const A = mk(a);
    this.twins.set(A, mk(b));
    return A;
  }
  arr(name, max, f, min = 0) {
    const n = this.large && max > 0 ? this.large : this.full && !this.lean ? min + this.h.choice(`${this.n(name)}.length`, max - min + 1) : Math.max(min, Math.min(1, max));
    const out = [];
    for (let i = 0; i < n; i++) out.push(f(`${name}[${i}]`, i));
    this.twins.set(out, out.map((x) => this.twin(x)));
    return out;
  }
  /** a record with arbitrary values under a few fixed keys and under any one name that the sources mention */
  rec(name, f, keys = ['k_a', 'keyB', 'X-c d']) {
    if (this.large) keys = [...keys, ...Array.from({ length: this.large }, (_, i) => `key_${i}`)];
    return this.obj(name, { ...Object.fromEntries(keys.map((k) => [k, this.opt(f(`${name}.${k}`))])), '*': this.h.extra(f(`${name}.*`)) });
  }
  twin(v) {
    return v !== null && typeof v === 'object' && this.twins.has(v) ? this.twins.get(v) : v;
  }
  /** {api_name: value of the field} of the twin */
  map(pl, names) {
    const b = this.twin(pl);
    const out = {};
    for (const n of names) {
      const [from, to] = Array.isArray(n) ? n : [n, n];
      out[to] = b[from];
    }
    return out;
  }
}

const page = (g, extra = {}) => {
  const f = { limit: g.opt(g.int('o.limit', 1, 1_000_000)) };
  const v = g.lean ? 0 : g.variant('o.cursor', 3);
  if (v === 1) f.after = g.opt(g.str('o.after', { nonEmpty: true }));
  if (v === 2) f.before = g.opt(g.str('o.before', { nonEmpty: true }));
  const o = g.obj('o', { ...f, ...extra });
  const b = g.twin(o);
  return { o, q: [['limit', g.h.numStrOpt(b.limit)], ['after', b.after], ['before', b.before]] };
};
/** optional trailing options argument */
const optional = (g, name, mk) => {
  if (g.full && !g.lean ? g.choice(name, 2) === 1 : false) return mk();
  return null;
};

const strOrList = (g, name) => g.large ? Array.from({ length: g.large }, (_, i) => g.str(`${name}.${i}`)) : g.en(name, [g.str(`${name}.s`), [g.str(`${name}.0`)], [g.str(`${name}.1`), g.str(`${name}.2`)]]);
const nullable = (g, name) => g.en(name, [null, g.str(`${name}.s`)]);

export const EMAIL_FIELDS = [
  'from', 'to', 'subject', 'bcc', 'cc', ['replyTo', 'reply_to'], 'headers', 'tags', ['topicId', 'topic_id'], ['scheduledAt', 'scheduled_at'], 'html', 'text',
];
/** React elements of one component: they differ in their props only */
const Component = () => null;
export const reactNode = (n) => ({ $$typeof: 'react', type: Component, props: { n }, key: null, ref: null });
/** {pl, body, react?}: an email argument and the JSON a send of it must transmit */
export function email(g, name, { attachments = true, react = false, rendered = null } = {}) {
  const kind = g.variant(`${name}.kind`, react ? 3 : 2); // content, template, react content
  const base = {
    to: strOrList(g, `${name}.to`),
    bcc: g.opt(strOrList(g, `${name}.bcc`)),
    cc: g.opt(strOrList(g, `${name}.cc`)),
    replyTo: g.opt(strOrList(g, `${name}.replyTo`)),
    headers: g.opt(g.full ? g.rec(`${name}.headers`, (n) => g.str(n), ['X-A', 'x_b']) : null),
    topicId: g.opt(nullable(g, `${name}.topicId`)),
    scheduledAt: g.opt(g.str(`${name}.scheduledAt`)),
  };
  if (g.full) base.tags = g.opt(g.arr(`${name}.tags`, g.arrMax, (n) => g.obj(n, { name: g.str(`${n}.name`), value: g.str(`${n}.value`) })));
  if (attachments && g.full)
    base.attachments = g.opt(
      g.arr(`${name}.attachments`, g.arrMax, (n) =>
        g.obj(n, {
          content: g.opt(g.str(`${n}.content`)), filename: g.opt(g.en(`${n}.filename`, [false, g.str(`${n}.filename.s`)])), path: g.opt(g.str(`${n}.path`)),
          contentType: g.opt(g.str(`${n}.contentType`)), contentId: g.opt(g.str(`${n}.contentId`)),
        })),
    );
  let pl;
  let node;
  if (kind === 1) {
    pl = g.obj(name, {
      ...base, from: g.opt(g.str(`${name}.from`)), subject: g.opt(g.str(`${name}.subject`)),
      template: g.obj(`${name}.template`, { id: g.str(`${name}.template.id`), variables: g.opt(g.rec(`${name}.template.vars`, (n) => g.en(n, [g.str(`${n}.s`), g.num(`${n}.n`)]), ['A_b', 'c'])) }),
    });
  } else if (kind === 2) {
    node = reactNode(name);
    pl = g.obj(name, { ...base, from: g.str(`${name}.from`), subject: g.str(`${name}.subject`), react: node, html: g.opt(g.str(`${name}.html`)), text: g.opt(g.str(`${name}.text`)) });
  } else {
    const which = g.variant(`${name}.content`, 2);
    pl = g.obj(name, {
      ...base, from: g.str(`${name}.from`), subject: g.str(`${name}.subject`),
      ...(which === 0 ? { html: g.str(`${name}.html`), text: g.opt(g.str(`${name}.text`)) } : { html: g.opt(g.str(`${name}.html`)), text: g.str(`${name}.text`) }),
    });
  }
  const body = g.map(pl, EMAIL_FIELDS);
  if (node) body.html = rendered ? rendered(node) : undefined;
  const b = g.twin(pl);
  if (kind === 1) body.template = g.map(pl_template(g, pl), ['id', 'variables']);
  if (attachments && g.full) body.attachments = attView(g, b);
  return { pl, body, node, kind };
}
const pl_template = (g, pl) => pl.template;
function attView(g, b) {
  // the generated list is concrete in length; only its presence is symbolic
  const cond = b.attachments;
  return g.h.mapOpt(cond, (list) =>
    list.map((a) => ({ content: a.content, filename: a.filename, path: a.path, content_type: a.contentType, content_id: a.contentId })));
}

const hasId = (path) => path.some((s) => s.startsWith(':'));
const simple = (id, method, path, call, o = {}) => ({
  id, ...o, call, takesId: hasId(path),
  build(g) {
    const ids = path.filter((s) => s.startsWith(':')).map((s) => g.id(s.slice(1)));
    let i = 0;
    return { args: ids, method, path: path.map((s) => (s.startsWith(':') ? ids[i++] : s)) };
  },
});
const listOp = (id, path, call, o = {}) => ({
  id, ...o, call, list: true, takesId: hasId(path),
  build(g) {
    const ids = path.filter((s) => s.startsWith(':')).map((s) => g.id(s.slice(1)));
    let i = 0;
    const segs = path.map((s) => (s.startsWith(':') ? ids[i++] : s));
    const p = optional(g, 'o.given', () => page(g));
    return { args: p ? [...ids, p.o] : ids, method: 'GET', path: segs, query: p ? p.q : [] };
  },
});
const bodyOp = (id, method, path, call, payload, o = {}) => ({
  id, ...o, call, takesId: hasId(path),
  build(g) {
    const ids = path.filter((s) => s.startsWith(':')).map((s) => g.id(s.slice(1)));
    let i = 0;
    const segs = path.map((s) => (s.startsWith(':') ? ids[i++] : s));
    const p = payload(g);
    return { args: [...ids, p.pl], method, path: segs, body: p.body, renders: p.renders };
  },
});
const pass = (g, pl) => ({ pl, body: g.twin(pl) });

const REGIONS = ['us-east-1', 'eu-west-1', 'sa-east-1', 'ap-northeast-1'];
const SUBS = ['opt_in', 'opt_out'];
const EVENTS = ['email.sent', 'email.bounced', 'contact.created', 'domain.deleted', 'suppression.added'];
const METRICS = ['received', 'bounced_transient', 'unique_opened', 'click_rate'];
const props = (g, n) => g.rec(n, (k) => g.en(k, [null, g.str(`${k}.s`), g.num(`${k}.n`)]), ['k_a', 'keyB']);
const caps = (g, n) => g.obj(n, { sending: g.opt(g.en(`${n}.s`, ['enabled', 'disabled'])), receiving: g.opt(g.en(`${n}.r`, ['enabled', 'disabled'])) });
const topicList = (g, n, min = 0) => g.arr(n, g.arrMax, (k) => g.obj(k, { id: g.str(`${k}.id`), subscription: g.en(`${k}.s`, SUBS) }), min);
const segList = (g, n) => g.arr(n, g.arrMax, (k) => g.obj(k, { id: g.str(`${k}.id`) }));
const strList = (g, n, min = 0) => g.arr(n, g.arrMax, (k) => g.str(k), min);

/** content with html / text / React alternatives, at least one given */
export function content(g, name, { text = true, react = false } = {}) {
  const v = g.variant(`${name}.content`, react ? 3 : text ? 2 : 1);
  if (v === 1 && text) return { html: g.opt(g.str(`${name}.html`)), text: g.str(`${name}.text`) };
  if ((v === 2 || (v === 1 && !text)) && react) {
    return { react: reactNode(name), html: g.opt(g.str(`${name}.html`)), ...(text ? { text: g.opt(g.str(`${name}.text`)) } : {}) };
  }
  return { html: g.str(`${name}.html`), ...(text ? { text: g.opt(g.str(`${name}.text`)) } : {}) };
}
export function broadcast(g, { react = false } = {}) {
  const seg = g.variant('p.seg', 3);
  const send = g.variant('p.sendKind', 3);
  const pl = g.obj('p', {
    name: g.opt(g.str('p.name')), previewText: g.opt(g.str('p.previewText')), from: g.str('p.from'), replyTo: g.opt(strOrList(g, 'p.replyTo')), subject: g.str('p.subject'),
    topicId: g.opt(nullable(g, 'p.topicId')), ...content(g, 'p', { react }),
    ...(seg === 0 ? { segmentId: g.str('p.segmentId') } : seg === 1 ? { audienceId: g.str('p.audienceId') } : { segmentId: g.str('p.segmentId'), audienceId: g.str('p.audienceId') }),
    ...(send === 0 ? {} : send === 1 ? { send: true, scheduledAt: g.opt(g.str('p.scheduledAt')) } : { send: false }),
  });
  return {
    pl,
    body: g.map(pl, ['name', ['segmentId', 'segment_id'], ['audienceId', 'audience_id'], ['previewText', 'preview_text'], 'from', 'html', ['replyTo', 'reply_to'], 'subject', 'text', ['topicId', 'topic_id'], 'send', ['scheduledAt', 'scheduled_at']]),
  };
}
export function broadcastUpdate(g, { react = false } = {}) {
  const r = react && g.variant('p.react', 2) === 1;
  const pl = g.obj('p', {
    name: g.opt(g.str('p.name')), segmentId: g.opt(g.str('p.segmentId')), audienceId: g.opt(g.str('p.audienceId')), from: g.opt(g.str('p.from')), html: g.opt(g.str('p.html')),
    text: g.opt(g.str('p.text')), subject: g.opt(g.str('p.subject')), replyTo: g.opt(g.large ? strOrList(g, 'p.replyTo') : g.en('p.replyTo', [[], [g.str('p.r0')], [g.str('p.r1'), g.str('p.r2')]])), previewText: g.opt(g.str('p.previewText')),
    topicId: g.opt(nullable(g, 'p.topicId')),
    ...(r ? { react: reactNode('p') } : {}),
  });
  return { pl, body: g.map(pl, ['name', ['segmentId', 'segment_id'], ['audienceId', 'audience_id'], 'from', 'html', 'text', 'subject', ['replyTo', 'reply_to'], ['previewText', 'preview_text'], ['topicId', 'topic_id']]) };
}
const variables = (g) =>
  g.arr('p.variables', g.arrMax, (n) => {
    const num = g.variant(`${n}.t`, 2);
    return g.obj(n, num ? { key: g.str(`${n}.key`), type: 'number', fallbackValue: g.opt(g.en(`${n}.fb`, [null, g.num(`${n}.fbn`)])) } : { key: g.str(`${n}.key`), type: 'string', fallbackValue: g.opt(g.en(`${n}.fb`, [null, g.str(`${n}.fbs`)])) });
  });
const varView = (g, b) => g.h.mapOpt(b.variables, (l) => l.map((v) => ({ key: v.key, type: v.type, fallback_value: v.fallbackValue })));
const TEMPLATE_FIELDS = ['name', 'subject', 'html', 'text', 'alias', 'from', ['replyTo', 'reply_to']];
export function template(g, { react = false } = {}) {
  const pl = g.obj('p', {
    name: g.str('p.name'), subject: g.opt(nullable(g, 'p.subject')), text: g.opt(nullable(g, 'p.text')), alias: g.opt(nullable(g, 'p.alias')), from: g.opt(nullable(g, 'p.from')),
    replyTo: g.opt(strOrList(g, 'p.replyTo')), ...(g.full ? { variables: g.opt(variables(g)) } : {}), ...content(g, 'p', { text: false, react }),
  });
  return { pl, body: { ...g.map(pl, TEMPLATE_FIELDS), variables: g.full ? varView(g, g.twin(pl)) : undefined } };
}
const templateUpdate = (g) => {
  const pl = g.obj('p', {
    name: g.opt(g.str('p.name')), subject: g.opt(nullable(g, 'p.subject')), html: g.opt(g.str('p.html')), text: g.opt(nullable(g, 'p.text')), from: g.opt(nullable(g, 'p.from')), alias: g.opt(nullable(g, 'p.alias')),
    replyTo: g.opt(strOrList(g, 'p.replyTo')), ...(g.full ? { variables: g.opt(variables(g)) } : {}),
  });
  return { pl, body: { ...g.map(pl, TEMPLATE_FIELDS), variables: g.full ? varView(g, g.twin(pl)) : undefined } };
};
const contactFields = (g, clear) => ({
  unsubscribed: g.opt(g.bool('p.unsubscribed')), firstName: g.opt(clear ? nullable(g, 'p.firstName') : g.str('p.firstName')), lastName: g.opt(clear ? nullable(g, 'p.lastName') : g.str('p.lastName')),
  properties: g.opt(g.full ? props(g, 'p.properties') : null),
});
const CONTACT_FIELDS = ['unsubscribed', ['firstName', 'first_name'], ['lastName', 'last_name'], 'properties'];
/** {fields, ident}: the contact named by id or by email */
const contactSel = (g, idField = 'id') => {
  const v = g.variant('sel', 4);
  if (v === 0) {
    const id = g.id('id');
    return { fields: { [idField]: id }, ident: id };
  }
  if (v === 1) {
    const email2 = g.id('email');
    return { fields: { email: email2 }, ident: email2 };
  }
  // both given: the email decides; or an id with an explicitly empty email
  if (v === 2) {
    const email2 = g.id('email');
    return { fields: { [idField]: g.id('id'), email: email2 }, ident: email2 };
  }
  const id = g.id('id');
  return { fields: { [idField]: id, email: g.en('noEmail', [undefined, null, '']) }, ident: id };
};
const contactTarget = (g, s) => {
  const v = g.variant('aud', 2);
  if (v === 1) {
    const a = g.id('audienceId');
    return { fields: { ...s.fields, audienceId: a }, path: ['audiences', a, 'contacts', s.ident] };
  }
  return { fields: s.fields, path: ['contacts', s.ident] };
};

// ------------------------------------------------------------------ automation steps
export const STEP_TYPES = ['trigger', 'delay', 'send_email', 'wait_for_event', 'condition', 'contact_update', 'contact_delete', 'add_to_segment'];
function rule(g, n, depth = g.depth) {
  const k = g.lean || g.leanRules ? 0 : g.choice(`${n}.rk`, depth > 0 ? 6 : 4);
  if (k === 0) return g.obj(n, { type: 'rule', field: g.str(`${n}.field`), operator: g.en(`${n}.op`, ['eq', 'neq']), value: g.en(`${n}.value`, [g.str(`${n}.vs`), g.num(`${n}.vn`), g.bool(`${n}.vb`), null]) });
  if (k === 1) return g.obj(n, { type: 'rule', field: g.str(`${n}.field`), operator: g.en(`${n}.op`, ['gt', 'gte', 'lt', 'lte']), value: g.num(`${n}.vn`) });
  if (k === 2) return g.obj(n, { type: 'rule', field: g.str(`${n}.field`), operator: g.en(`${n}.op`, ['contains', 'starts_with', 'ends_with']), value: g.str(`${n}.vs`) });
  if (k === 3) return g.obj(n, { type: 'rule', field: g.str(`${n}.field`), operator: g.en(`${n}.op`, ['exists', 'is_empty']) });
  return g.obj(n, { type: k === 4 ? 'and' : 'or', rules: g.arr(`${n}.rules`, 2, (m) => rule(g, m, depth - 1)) });
}
const varOr = (g, n, ...vals) => g.en(n, [...vals, g.obj(`${n}.v`, { var: g.str(`${n}.var`) })]);
/** {step, api} of the given type */
export function step(g, n, type) {
  const key = g.str(`${n}.key`);
  const c = `${n}.config`;
  let config;
  let api;
  switch (type) {
    case 'trigger':
      config = g.obj(c, { eventName: g.str(`${c}.eventName`) });
      api = g.map(config, [['eventName', 'event_name']]);
      break;
    case 'delay':
      config = g.obj(c, { duration: g.str(`${c}.duration`) });
      api = g.map(config, ['duration']);
      break;
    case 'send_email':
      config = g.obj(c, {
        template: g.obj(`${c}.t`, { id: g.str(`${c}.t.id`), variables: g.opt(g.rec(`${c}.vars`, (k) => varOr(g, k, g.str(`${k}.s`), g.num(`${k}.n`), g.bool(`${k}.b`), [g.str(`${k}.l`), g.num(`${k}.m`)]), ['userName', 'v_2'])) }),
        subject: g.opt(g.str(`${c}.subject`)), from: g.opt(g.str(`${c}.from`)), replyTo: g.opt(g.str(`${c}.replyTo`)),
      });
      api = g.map(config, ['template', 'subject', 'from', ['replyTo', 'reply_to']]);
      break;
    case 'wait_for_event':
      config = g.obj(c, { eventName: g.str(`${c}.eventName`), timeout: g.opt(g.str(`${c}.timeout`)), filterRule: g.opt(rule(g, `${c}.rule`, g.filterDepth)) });
      api = g.map(config, [['eventName', 'event_name'], 'timeout', ['filterRule', 'filter_rule']]);
      break;
    case 'condition':
      config = rule(g, c);
      api = g.twin(config);
      break;
    case 'contact_update':
      config = g.obj(c, {
        firstName: g.opt(varOr(g, `${c}.fn`, null, g.str(`${c}.fns`))), lastName: g.opt(varOr(g, `${c}.ln`, null, g.str(`${c}.lns`))), unsubscribed: g.opt(varOr(g, `${c}.un`, g.bool(`${c}.unb`))),
        properties: g.opt(g.rec(`${c}.props`, (k) => varOr(g, k, null, g.str(`${k}.s`), g.num(`${k}.n`), g.bool(`${k}.b`)), ['k_a', 'keyB'])),
      });
      api = g.map(config, [['firstName', 'first_name'], ['lastName', 'last_name'], 'unsubscribed', 'properties']);
      break;
    case 'contact_delete':
      config = g.obj(c, {});
      api = {};
      break;
    default:
      config = g.obj(c, { segmentId: g.str(`${c}.segmentId`) });
      api = g.map(config, [['segmentId', 'segment_id']]);
  }
  return { step: g.obj(n, { key, type, config }), api: { key, type, config: api } };
}
export function steps(g, { max = 1, types = STEP_TYPES } = {}) {
  const n = g.full ? g.choice('steps.n', max + 1) : 1;
  const list = [];
  for (let i = 0; i < n; i++) list.push(step(g, `s${i}`, g.full ? g.choice(`s${i}.type`, types) : 'trigger'));
  const a = list.map((x) => x.step);
  g.twins.set(a, list.map((x) => g.twin(x.step)));
  return { steps: a, api: list.map((x) => x.api) };
}
export function connections(g, { max = 1 } = {}) {
  const list = g.arr('c', max, (n) => g.obj(n, { from: g.str(`${n}.from`), to: g.str(`${n}.to`), type: g.opt(g.en(`${n}.type`, ['default', 'condition_met', 'condition_not_met', 'timeout', 'event_received'])) }));
  return { connections: list, api: g.twin(list) };
}
const automationCreate = (g) => {
  const s = steps(g, { types: ['trigger', 'delay', 'wait_for_event', 'contact_update'] });
  const c = connections(g);
  const pl = g.obj('p', { name: g.str('p.name'), status: g.opt(g.en('p.status', ['enabled', 'disabled'])), steps: s.steps, connections: c.connections });
  return { pl, body: { ...g.map(pl, ['name', 'status']), steps: s.api, connections: c.api } };
};
const automationUpdate = (g) => {
  const s = g.variant('p.hasSteps', 2) ? steps(g, { types: ['trigger', 'contact_update'] }) : null;
  const c = g.variant('p.hasConn', 2) ? connections(g) : null;
  const pl = g.obj('p', { name: g.opt(g.str('p.name')), status: g.opt(g.en('p.status', ['enabled', 'disabled'])), ...(s ? { steps: s.steps } : {}), ...(c ? { connections: c.connections } : {}) });
  const body = g.map(pl, ['name', 'status']);
  if (s) body.steps = s.api;
  if (c) body.connections = c.api;
  return { pl, body };
};

// ------------------------------------------------------------------ the operations
const emailSend = (id, call) => ({
  id, call, opts: 'idem',
  build(g) {
    const e = email(g, 'p');
    return { args: [e.pl], method: 'POST', path: ['emails'], body: e.body };
  },
});
const batchSend = (id, call) => ({
  id, call, opts: 'batch',
  build(g) {
    const es = [];
    const l = g.arr('b', g.arrMax, (n) => {
      const e = email(g, n, { attachments: false });
      es.push(e);
      return e.pl;
    });
    return { args: [l], method: 'POST', path: ['emails', 'batch'], body: es.map((e) => e.body) };
  },
});
const metricsOpts = (g) => {
  const k = g.choice('m.kind', 2);
  const csv = (n, vals) => {
    const c = g.choice(`${n}.n`, 4);
    if (c === 0) return null;
    const mk = (m) => (vals ? g.en(m, vals) : g.str(m, { nonEmpty: true }));
    return Array.from({ length: c - 1 }, (_, i) => mk(`${n}.${i}`));
  };
  const lists = {};
  const names = ['metrics', 'dimensions', 'domainId', k ? 'broadcastId' : 'emailId'];
  const VALS = { metrics: METRICS, dimensions: k ? ['period', 'domain', 'broadcast'] : ['period', 'domain', 'email'] };
  const want = g.choice('m.list', [...names, 'several', 'long']);
  const item = (n, i) => (VALS[n] ? g.word(`m.${n}.${i}`, VALS[n]) : g.str(`m.${n}.${i}`, { nonEmpty: true }));
  if (want === 'several') for (const n of names) lists[n] = [item(n, 0)];
  else if (want === 'long') {
    lists.metrics = [0, 1, 2, 3, 4].map((i) => item('metrics', i));
    lists[names[3]] = Array.from({ length: 30 }, (_, i) => item(names[3], i));
  } else {
    const l = csv(`m.${want}`, VALS[want]);
    if (l) lists[want] = l;
  }
  const f = {};
  for (const [n, api] of [['startDate', 'start_date'], ['endDate', 'end_date'], ['timezone', 'timezone']].slice(0, want === 'several' || want === 'long' ? 1 : 3)) f[n] = [api, g.opt(g.str(`m.${n}`, { nonEmpty: true }))];
  if (want !== 'several' && want !== 'long') f.granularity = ['granularity', g.opt(g.en('m.gran', ['hourly', 'daily', 'weekly', 'monthly']))];
  const o = g.obj('m', { ...Object.fromEntries(Object.entries(f).map(([n, [, v]]) => [n, v])), ...lists });
  const b = g.twin(o);
  const API = { metrics: 'metrics', dimensions: 'dimensions', domainId: 'domain_id', emailId: 'email_id', broadcastId: 'broadcast_id' };
  const q = Object.entries(f).map(([n, [api]]) => [api, b[n]]);
  for (const [n, x] of Object.entries(lists)) if (x.length) q.push([API[n], g.h.cat(...x.flatMap((v, i) => (i ? [',', v] : [v])))]);
  return { o, q };
};

export const OPS = [
  emailSend('emails.send', (c, a) => c.emails.send(...a)),
  emailSend('emails.create', (c, a) => c.emails.create(...a)),
  simple('emails.get', 'GET', ['emails', ':id'], (c, a) => c.emails.get(...a)),
  listOp('emails.list', ['emails'], (c, a) => c.emails.list(...a)),
  {
    id: 'emails.update', call: (c, a) => c.emails.update(...a),
    build(g) {
      const id = g.id('id');
      const pl = g.obj('p', { id, scheduledAt: g.str('p.scheduledAt') });
      return { args: [pl], method: 'PATCH', path: ['emails', id], body: g.map(pl, [['scheduledAt', 'scheduled_at']]) };
    },
  },
  simple('emails.cancel', 'POST', ['emails', ':id', 'cancel'], (c, a) => c.emails.cancel(...a)),
  {
    id: 'emails.share', call: (c, a) => c.emails.share(...a),
    build(g) {
      const id = g.id('id');
      const pl = optional(g, 'p.given', () => g.obj('p', { expiresIn: g.opt(g.str('p.expiresIn')) }));
      return { args: pl ? [id, pl] : [id], method: 'POST', path: ['emails', id, 'share'], body: pl ? g.map(pl, [['expiresIn', 'expires_in']]) : {} };
    },
  },
  {
    id: 'emails.metrics', call: (c, a) => c.emails.metrics(...a), list: true,
    build(g) {
      const m = optional(g, 'm.given', () => metricsOpts(g));
      return { args: m ? [m.o] : [], method: 'GET', path: ['emails', 'metrics'], query: m ? m.q : [] };
    },
  },
  {
    id: 'emails.attachments.get', call: (c, a) => c.emails.attachments.get(...a),
    build(g) {
      const [e, i] = [g.id('emailId'), g.id('id')];
      return { args: [g.obj('p', { emailId: e, id: i })], method: 'GET', path: ['emails', e, 'attachments', i] };
    },
  },
  {
    id: 'emails.attachments.list', call: (c, a) => c.emails.attachments.list(...a), list: true,
    build(g) {
      const e = g.id('emailId');
      const p = page(g, { emailId: e });
      return { args: [p.o], method: 'GET', path: ['emails', e, 'attachments'], query: p.q };
    },
  },
  {
    id: 'emails.receiving.get', call: (c, a) => c.emails.receiving.get(...a), list: true,
    build(g) {
      const id = g.id('id');
      const o = optional(g, 'o.given', () => g.obj('o', { html_format: g.opt(g.en('o.f', ['data_uri', 'cid'])) }));
      return { args: o ? [id, o] : [id], method: 'GET', path: ['emails', 'receiving', id], query: o ? [['html_format', g.twin(o).html_format]] : [] };
    },
  },
  listOp('emails.receiving.list', ['emails', 'receiving'], (c, a) => c.emails.receiving.list(...a)),
  {
    id: 'emails.receiving.attachments.get', call: (c, a) => c.emails.receiving.attachments.get(...a),
    build(g) {
      const [e, i] = [g.id('emailId'), g.id('id')];
      return { args: [g.obj('p', { emailId: e, id: i })], method: 'GET', path: ['emails', 'receiving', e, 'attachments', i] };
    },
  },
  {
    id: 'emails.receiving.attachments.list', call: (c, a) => c.emails.receiving.attachments.list(...a), list: true,
    build(g) {
      const e = g.id('emailId');
      const p = page(g, { emailId: e });
      return { args: [p.o], method: 'GET', path: ['emails', 'receiving', e, 'attachments'], query: p.q };
    },
  },
  batchSend('batch.send', (c, a) => c.batch.send(...a)),
  batchSend('batch.create', (c, a) => c.batch.create(...a)),
  bodyOp('broadcasts.create', 'POST', ['broadcasts'], (c, a) => c.broadcasts.create(...a), broadcast, { opts: 'post' }),
  {
    id: 'broadcasts.send', call: (c, a) => c.broadcasts.send(...a),
    build(g) {
      const id = g.id('id');
      const pl = optional(g, 'p.given', () => g.obj('p', { scheduledAt: g.opt(g.str('p.scheduledAt')) }));
      return { args: pl ? [id, pl] : [id], method: 'POST', path: ['broadcasts', id, 'send'], body: pl ? g.map(pl, [['scheduledAt', 'scheduled_at']]) : {} };
    },
  },
  listOp('broadcasts.list', ['broadcasts'], (c, a) => c.broadcasts.list(...a)),
  simple('broadcasts.get', 'GET', ['broadcasts', ':id'], (c, a) => c.broadcasts.get(...a)),
  {
    id: 'broadcasts.recipients', call: (c, a) => c.broadcasts.recipients(...a), list: true,
    build(g) {
      const id = g.id('id');
      const p = page(g, {
        type: g.en('o.type', ['sent', 'delivered', 'opened', 'clicked', 'bounced', 'complained', 'unsubscribed', 'suppressed']), email: g.opt(g.str('o.email', { nonEmpty: true })),
        bounceType: g.opt(g.en('o.bt', ['permanent', 'transient', 'undetermined'])),
      });
      const b = g.twin(p.o);
      return { args: [id, p.o], method: 'GET', path: ['broadcasts', id, 'recipients'], query: [...p.q, ['type', b.type], ['email', b.email], ['bounce_type', b.bounceType]] };
    },
  },
  listOp('broadcasts.clickedLinks', ['broadcasts', ':id', 'clicked-links'], (c, a) => c.broadcasts.clickedLinks(...a)),
  simple('broadcasts.remove', 'DELETE', ['broadcasts', ':id'], (c, a) => c.broadcasts.remove(...a)),
  simple('broadcasts.cancel', 'POST', ['broadcasts', ':id', 'cancel'], (c, a) => c.broadcasts.cancel(...a)),
  bodyOp('broadcasts.update', 'PATCH', ['broadcasts', ':id'], (c, a) => c.broadcasts.update(...a), broadcastUpdate, { update: true }),
  {
    id: 'contacts.create', call: (c, a) => c.contacts.create(...a), opts: 'post',
    build(g) {
      const f = { email: g.str('p.email'), ...contactFields(g, false) };
      if (g.variant('p.legacy', 2) === 1) {
        const a = g.id('audienceId');
        const pl = g.obj('p', { audienceId: a, ...f });
        return { args: [pl], method: 'POST', path: ['audiences', a, 'contacts'], body: g.map(pl, ['email', ...CONTACT_FIELDS]) };
      }
      const pl = g.obj('p', { ...f, ...(g.full ? { segments: g.opt(segList(g, 'p.segments')), topics: g.opt(topicList(g, 'p.topics')) } : {}) });
      return { args: [pl], method: 'POST', path: ['contacts'], body: g.map(pl, ['email', ...CONTACT_FIELDS, 'segments', 'topics']) };
    },
  },
  {
    id: 'contacts.list', call: (c, a) => c.contacts.list(...a), list: true,
    build(g) {
      const v = g.variant('o.seg', 5);
      if (v === 0 && !optionalGiven(g)) return { args: [], method: 'GET', path: ['contacts'], query: [] };
      const s = v === 1 || v === 3 ? g.id('segmentId') : null;
      const a = v === 2 || v === 3 ? g.id('audienceId') : null;
      const p = page(g, { ...(s ? { segmentId: s } : {}), ...(a ? { audienceId: a } : {}) });
      return { args: [p.o], method: 'GET', path: s || a ? ['segments', s ?? a, 'contacts'] : ['contacts'], query: p.q };
    },
  },
  {
    id: 'contacts.get', call: (c, a) => c.contacts.get(...a),
    build(g) {
      if (g.variant('byString', 2) === 0) {
        const id = g.id('id');
        return { args: [id], method: 'GET', path: ['contacts', id] };
      }
      const t = contactTarget(g, contactSel(g));
      return { args: [g.obj('p', t.fields)], method: 'GET', path: t.path };
    },
  },
  {
    id: 'contacts.update', call: (c, a) => c.contacts.update(...a), update: true,
    build(g) {
      const t = contactTarget(g, contactSel(g));
      const pl = g.obj('p', { ...t.fields, ...contactFields(g, true) });
      return { args: [pl], method: 'PATCH', path: t.path, body: g.map(pl, CONTACT_FIELDS) };
    },
  },
  {
    id: 'contacts.remove', call: (c, a) => c.contacts.remove(...a),
    build(g) {
      if (g.variant('byString', 2) === 0) {
        const id = g.id('id');
        return { args: [id], method: 'DELETE', path: ['contacts', id] };
      }
      const t = contactTarget(g, contactSel(g));
      return { args: [g.obj('p', t.fields)], method: 'DELETE', path: t.path };
    },
  },
  {
    id: 'contacts.imports.create', call: (c, a) => c.contacts.imports.create(...a), opts: 'post', form: true,
    build(g) {
      const file = new Blob(['email\na@b.c\n'], { type: 'text/csv' });
      const f = { file };
      if (g.full) {
        f.columnMap = g.opt(g.obj('p.cm', {
          email: g.opt(g.str('p.cm.email')), firstName: g.opt(g.str('p.cm.fn')), lastName: g.opt(g.str('p.cm.ln')), unsubscribed: g.opt(g.str('p.cm.un')),
          properties: g.opt(g.rec('p.cm.props', (k) => g.obj(`${k}.m`, { column: g.str(`${k}.col`), type: g.opt(g.en(`${k}.t`, ['string', 'number', 'boolean'])) }), ['k_a', 'keyB'])),
        }));
        f.onConflict = g.opt(g.en('p.oc', ['upsert', 'skip']));
        f.segments = g.opt(segList(g, 'p.segments'));
        f.topics = g.opt(topicList(g, 'p.topics'));
      }
      const pl = g.obj('p', f);
      const b = g.twin(pl);
      const cm = g.h.mapOpt(b.columnMap, (m) => ({ email: m.email, first_name: m.firstName, last_name: m.lastName, unsubscribed: m.unsubscribed, properties: m.properties }));
      return {
        args: [pl], method: 'POST', path: ['contacts', 'imports'],
        form: [['file', file, 'file'], ['column_map', cm, 'json'], ['on_conflict', b.onConflict, 'text'], ['segments', b.segments, 'json'], ['topics', b.topics, 'json']],
      };
    },
  },
  {
    id: 'contacts.imports.list', call: (c, a) => c.contacts.imports.list(...a), list: true,
    build(g) {
      const p = optional(g, 'o.given', () => page(g, { status: g.opt(g.en('o.status', ['queued', 'in_progress', 'completed', 'failed'])) }));
      return { args: p ? [p.o] : [], method: 'GET', path: ['contacts', 'imports'], query: p ? [...p.q, ['status', g.twin(p.o).status]] : [] };
    },
  },
  simple('contacts.imports.get', 'GET', ['contacts', 'imports', ':id'], (c, a) => c.contacts.imports.get(...a)),
  {
    id: 'contacts.segments.list', call: (c, a) => c.contacts.segments.list(...a), list: true,
    build(g) {
      const s = contactSel(g, 'contactId');
      const p = page(g, s.fields);
      return { args: [p.o], method: 'GET', path: ['contacts', s.ident, 'segments'], query: p.q };
    },
  },
  ...['add', 'remove'].map((m) => ({
    id: `contacts.segments.${m}`, call: (c, a) => c.contacts.segments[m](...a),
    build(g) {
      const s = contactSel(g, 'contactId');
      const seg = g.id('segmentId');
      return { args: [g.obj('p', { ...s.fields, segmentId: seg })], method: m === 'add' ? 'POST' : 'DELETE', path: ['contacts', s.ident, 'segments', seg] };
    },
  })),
  {
    id: 'contacts.topics.update', call: (c, a) => c.contacts.topics.update(...a),
    build(g) {
      const s = contactSel(g);
      const topics = topicList(g, 'p.topics');
      return { args: [g.obj('p', { ...s.fields, topics })], method: 'PATCH', path: ['contacts', s.ident, 'topics'], body: g.twin(topics) };
    },
  },
  {
    id: 'contacts.topics.list', call: (c, a) => c.contacts.topics.list(...a), list: true,
    build(g) {
      const s = contactSel(g);
      const p = page(g, s.fields);
      return { args: [p.o], method: 'GET', path: ['contacts', s.ident, 'topics'], query: p.q };
    },
  },
  bodyOp('contactProperties.create', 'POST', ['contact-properties'], (c, a) => c.contactProperties.create(...a), (g) => {
    const num = g.variant('p.num', 2);
    const pl = g.obj('p', { key: g.str('p.key'), type: num ? 'number' : 'string', fallbackValue: g.opt(num ? g.en('p.fb', [null, g.num('p.fbn')]) : g.en('p.fb', [null, g.str('p.fbs')])) });
    return { pl, body: g.map(pl, ['key', 'type', ['fallbackValue', 'fallback_value']]) };
  }),
  { ...listOp('contactProperties.list', ['contact-properties'], (c, a) => c.contactProperties.list(...a)), shape: 'propertyList' },
  { ...simple('contactProperties.get', 'GET', ['contact-properties', ':id'], (c, a) => c.contactProperties.get(...a)), shape: 'property' },
  {
    id: 'contactProperties.update', call: (c, a) => c.contactProperties.update(...a), update: true,
    build(g) {
      const id = g.id('id');
      const pl = g.obj('p', { id, fallbackValue: g.opt(g.en('p.fb', [null, g.num('p.fbn'), g.str('p.fbs')])) });
      return { args: [pl], method: 'PATCH', path: ['contact-properties', id], body: g.map(pl, [['fallbackValue', 'fallback_value']]) };
    },
  },
  simple('contactProperties.remove', 'DELETE', ['contact-properties', ':id'], (c, a) => c.contactProperties.remove(...a)),
  bodyOp('topics.create', 'POST', ['topics'], (c, a) => c.topics.create(...a), (g) => {
    const pl = g.obj('p', { name: g.str('p.name'), description: g.opt(g.str('p.description')), defaultSubscription: g.en('p.ds', SUBS) });
    return { pl, body: g.map(pl, ['name', 'description', ['defaultSubscription', 'default_subscription']]) };
  }),
  { id: 'topics.list', call: (c, a) => c.topics.list(...a), build: () => ({ args: [], method: 'GET', path: ['topics'] }) },
  simple('topics.get', 'GET', ['topics', ':id'], (c, a) => c.topics.get(...a)),
  {
    id: 'topics.update', call: (c, a) => c.topics.update(...a), update: true, idInBody: true,
    build(g) {
      const id = g.id('id');
      const pl = g.obj('p', { id, name: g.opt(g.str('p.name')), description: g.opt(g.str('p.description')) });
      return { args: [pl], method: 'PATCH', path: ['topics', id], body: g.map(pl, ['id', 'name', 'description']) };
    },
  },
  simple('topics.remove', 'DELETE', ['topics', ':id'], (c, a) => c.topics.remove(...a)),
  ...['segments', 'audiences'].flatMap((ns) => [
    bodyOp(`${ns}.create`, 'POST', ['segments'], (c, a) => c[ns].create(...a), (g) => pass(g, g.obj('p', { name: g.str('p.name') })), { opts: 'post' }),
    listOp(`${ns}.list`, ['segments'], (c, a) => c[ns].list(...a)),
    simple(`${ns}.get`, 'GET', ['segments', ':id'], (c, a) => c[ns].get(...a)),
    simple(`${ns}.remove`, 'DELETE', ['segments', ':id'], (c, a) => c[ns].remove(...a)),
  ]),
  bodyOp('suppressions.add', 'POST', ['suppressions'], (c, a) => c.suppressions.add(...a), (g) => pass(g, g.obj('p', { email: g.str('p.email') }))),
  {
    id: 'suppressions.list', call: (c, a) => c.suppressions.list(...a), list: true,
    build(g) {
      const p = optional(g, 'o.given', () => page(g, { origin: g.opt(g.en('o.origin', ['bounce', 'complaint', 'manual'])) }));
      return { args: p ? [p.o] : [], method: 'GET', path: ['suppressions'], query: p ? [...p.q, ['origin', g.twin(p.o).origin]] : [] };
    },
  },
  simple('suppressions.get', 'GET', ['suppressions', ':id'], (c, a) => c.suppressions.get(...a)),
  simple('suppressions.remove', 'DELETE', ['suppressions', ':id'], (c, a) => c.suppressions.remove(...a)),
  bodyOp('suppressions.batch.add', 'POST', ['suppressions', 'batch', 'add'], (c, a) => c.suppressions.batch.add(...a), (g) => pass(g, g.obj('p', { emails: strList(g, 'p.emails') }))),
  bodyOp('suppressions.batch.remove', 'POST', ['suppressions', 'batch', 'remove'], (c, a) => c.suppressions.batch.remove(...a), (g) => pass(g, g.obj('p', g.variant('p.by', 2) ? { ids: strList(g, 'p.ids') } : { emails: strList(g, 'p.emails') }))),
  bodyOp('templates.create', 'POST', ['templates'], (c, a) => c.templates.create(...a), template),
  simple('templates.duplicate', 'POST', ['templates', ':id', 'duplicate'], (c, a) => c.templates.duplicate(...a)),
  simple('templates.remove', 'DELETE', ['templates', ':id'], (c, a) => c.templates.remove(...a)),
  simple('templates.get', 'GET', ['templates', ':id'], (c, a) => c.templates.get(...a)),
  listOp('templates.list', ['templates'], (c, a) => c.templates.list(...a)),
  simple('templates.publish', 'POST', ['templates', ':id', 'publish'], (c, a) => c.templates.publish(...a)),
  bodyOp('templates.update', 'PATCH', ['templates', ':id'], (c, a) => c.templates.update(...a), templateUpdate, { update: true }),
  bodyOp('events.send', 'POST', ['events', 'send'], (c, a) => c.events.send(...a), (g) => {
    const who = g.variant('p.who', 2) ? { email: g.str('p.email') } : { contactId: g.str('p.contactId') };
    const pl = g.obj('p', { event: g.str('p.event'), ...who, payload: g.opt(g.rec('p.payload', (k) => g.json(k), ['k_a', 'keyB'])) });
    return { pl, body: g.map(pl, ['event', ['contactId', 'contact_id'], 'email', 'payload']) };
  }),
  bodyOp('events.create', 'POST', ['events'], (c, a) => c.events.create(...a), (g) => pass(g, g.obj('p', { name: g.str('p.name'), schema: g.opt(g.en('p.schema', [null, g.rec('p.schema', (k) => g.en(k, ['string', 'number', 'boolean', 'date']), ['k_a', 'keyB'])])) }))),
  simple('events.get', 'GET', ['events', ':id'], (c, a) => c.events.get(...a)),
  listOp('events.list', ['events'], (c, a) => c.events.list(...a)),
  bodyOp('events.update', 'PATCH', ['events', ':id'], (c, a) => c.events.update(...a), (g) => pass(g, g.obj('p', { schema: g.en('p.schema', [null, g.rec('p.schema', (k) => g.en(k, ['string', 'number', 'boolean', 'date']), ['k_a', 'keyB'])]) })), { update: true }),
  simple('events.remove', 'DELETE', ['events', ':id'], (c, a) => c.events.remove(...a)),
  listOp('logs.list', ['logs'], (c, a) => c.logs.list(...a)),
  simple('logs.get', 'GET', ['logs', ':id'], (c, a) => c.logs.get(...a)),
  bodyOp('apiKeys.create', 'POST', ['api-keys'], (c, a) => c.apiKeys.create(...a), (g) => pass(g, g.obj('p', { name: g.str('p.name'), permission: g.opt(g.en('p.perm', ['full_access', 'sending_access'])), domain_id: g.opt(g.str('p.domain_id')) })), { opts: 'post' }),
  listOp('apiKeys.list', ['api-keys'], (c, a) => c.apiKeys.list(...a)),
  bodyOp('apiKeys.update', 'PATCH', ['api-keys', ':id'], (c, a) => c.apiKeys.update(...a), (g) => pass(g, g.obj('p', { name: g.str('p.name') })), { update: true }),
  simple('apiKeys.remove', 'DELETE', ['api-keys', ':id'], (c, a) => c.apiKeys.remove(...a)),
  listOp('oauthGrants.list', ['oauth', 'grants'], (c, a) => c.oauthGrants.list(...a)),
  simple('oauthGrants.revoke', 'DELETE', ['oauth', 'grants', ':id'], (c, a) => c.oauthGrants.revoke(...a)),
  bodyOp('automations.create', 'POST', ['automations'], (c, a) => c.automations.create(...a), automationCreate),
  {
    id: 'automations.list', call: (c, a) => c.automations.list(...a), list: true,
    build(g) {
      const p = optional(g, 'o.given', () => page(g, { status: g.opt(g.en('o.status', ['enabled', 'disabled'])) }));
      return { args: p ? [p.o] : [], method: 'GET', path: ['automations'], query: p ? [...p.q, ['status', g.twin(p.o).status]] : [] };
    },
  },
  simple('automations.get', 'GET', ['automations', ':id'], (c, a) => c.automations.get(...a)),
  simple('automations.remove', 'DELETE', ['automations', ':id'], (c, a) => c.automations.remove(...a)),
  bodyOp('automations.update', 'PATCH', ['automations', ':id'], (c, a) => c.automations.update(...a), automationUpdate, { update: true }),
  simple('automations.duplicate', 'POST', ['automations', ':id', 'duplicate'], (c, a) => c.automations.duplicate(...a)),
  simple('automations.stop', 'POST', ['automations', ':id', 'stop'], (c, a) => c.automations.stop(...a)),
  {
    id: 'automations.runs.get', call: (c, a) => c.automations.runs.get(...a),
    build(g) {
      const [x, r] = [g.id('automationId'), g.id('runId')];
      return { args: [g.obj('p', { automationId: x, runId: r })], method: 'GET', path: ['automations', x, 'runs', r] };
    },
  },
  {
    id: 'automations.runs.list', call: (c, a) => c.automations.runs.list(...a), list: true,
    build(g) {
      const x = g.id('automationId');
      const ST = ['running', 'completed', 'failed', 'cancelled'];
      const k = g.variant('o.sk', 6);
      const sts = Array.from({ length: [0, 1, 1, 2, 3, 6][k] }, (_, i) => (k < 4 ? g.en(`o.st${i}`, ST) : g.word(`o.st${i}`, ST)));
      const p = page(g, { automationId: x, ...(k === 0 ? {} : k === 1 ? { status: sts[0] } : { status: sts }) });
      return { args: [p.o], method: 'GET', path: ['automations', x, 'runs'], query: [...p.q, ['status', k === 0 ? undefined : g.h.cat(...sts.flatMap((v, i) => (i ? [',', v] : [v])))]] };
    },
  },
  bodyOp('domains.create', 'POST', ['domains'], (c, a) => c.domains.create(...a), (g) => {
    const pl = g.obj('p', {
      name: g.str('p.name'), region: g.opt(g.en('p.region', REGIONS)), customReturnPath: g.opt(g.str('p.crp')), capabilities: g.opt(caps(g, 'p.caps')), openTracking: g.opt(g.bool('p.ot')), clickTracking: g.opt(g.bool('p.ct')),
      tls: g.opt(g.en('p.tls', ['enforced', 'opportunistic'])), trackingSubdomain: g.opt(g.str('p.ts')),
    });
    return { pl, body: g.map(pl, ['name', 'region', ['customReturnPath', 'custom_return_path'], 'capabilities', ['openTracking', 'open_tracking'], ['clickTracking', 'click_tracking'], 'tls', ['trackingSubdomain', 'tracking_subdomain']]) };
  }, { opts: 'post' }),
  listOp('domains.list', ['domains'], (c, a) => c.domains.list(...a)),
  simple('domains.get', 'GET', ['domains', ':id'], (c, a) => c.domains.get(...a)),
  {
    id: 'domains.update', call: (c, a) => c.domains.update(...a), update: true,
    build(g) {
      const id = g.id('id');
      const pl = g.obj('p', { id, clickTracking: g.opt(g.bool('p.ct')), openTracking: g.opt(g.bool('p.ot')), tls: g.opt(g.en('p.tls', ['enforced', 'opportunistic'])), capabilities: g.opt(caps(g, 'p.caps')), trackingSubdomain: g.opt(g.str('p.ts')) });
      return { args: [pl], method: 'PATCH', path: ['domains', id], body: g.map(pl, [['clickTracking', 'click_tracking'], ['openTracking', 'open_tracking'], 'tls', 'capabilities', ['trackingSubdomain', 'tracking_subdomain']]) };
    },
  },
  simple('domains.remove', 'DELETE', ['domains', ':id'], (c, a) => c.domains.remove(...a)),
  simple('domains.verify', 'POST', ['domains', ':id', 'verify'], (c, a) => c.domains.verify(...a)),
  bodyOp('domains.claims.create', 'POST', ['domains', 'claim'], (c, a) => c.domains.claims.create(...a), (g) => {
    const pl = g.obj('p', { name: g.str('p.name'), region: g.opt(g.en('p.region', REGIONS)), customReturnPath: g.opt(g.str('p.crp')), openTracking: g.opt(g.bool('p.ot')), clickTracking: g.opt(g.bool('p.ct')), trackingSubdomain: g.opt(g.str('p.ts')) });
    return { pl, body: g.map(pl, ['name', 'region', ['customReturnPath', 'custom_return_path'], ['openTracking', 'open_tracking'], ['clickTracking', 'click_tracking'], ['trackingSubdomain', 'tracking_subdomain']]) };
  }, { opts: 'post' }),
  simple('domains.claims.get', 'GET', ['domains', ':id', 'claim'], (c, a) => c.domains.claims.get(...a)),
  simple('domains.claims.verify', 'POST', ['domains', ':id', 'claim', 'verify'], (c, a) => c.domains.claims.verify(...a)),
  bodyOp('webhooks.create', 'POST', ['webhooks'], (c, a) => c.webhooks.create(...a), (g) => pass(g, g.obj('p', { endpoint: g.str('p.endpoint'), events: g.arr('p.events', g.arrMax, (n) => g.en(n, EVENTS)) })), { opts: 'post' }),
  simple('webhooks.get', 'GET', ['webhooks', ':id'], (c, a) => c.webhooks.get(...a)),
  listOp('webhooks.list', ['webhooks'], (c, a) => c.webhooks.list(...a)),
  bodyOp('webhooks.update', 'PATCH', ['webhooks', ':id'], (c, a) => c.webhooks.update(...a), (g) => pass(g, g.obj('p', { endpoint: g.opt(g.str('p.endpoint')), ...(g.full ? { events: g.opt(g.arr('p.events', g.arrMax, (n) => g.en(n, EVENTS))) } : {}), status: g.opt(g.en('p.status', ['enabled', 'disabled'])) })), { update: true }),
  simple('webhooks.remove', 'DELETE', ['webhooks', ':id'], (c, a) => c.webhooks.remove(...a)),
];
function optionalGiven(g) {
  return g.full && !g.lean ? g.choice('o.given', 2) === 1 : false;
}
for (const o of OPS) if (o.takesId === undefined) o.takesId = /\bg\.id\(|contactSel/.test(String(o.build));
/** the public HTTP verbs on the client itself */
export const VERBS = [
  { id: 'verb.get', call: (c, a) => c.get(...a), build: (g) => { const id = g.id('path'); return { args: [g.h.cat('/x/', id)], method: 'GET', path: ['x', id] }; } },
  ...['post', 'put', 'patch', 'delete'].map((m) => ({
    id: `verb.${m}`, call: (c, a) => c[m](...a),
    build: (g) => {
      const id = g.id('path');
      const e = g.json('entity');
      return { args: [g.h.cat('/x/', id), e], method: m.toUpperCase(), path: ['x', id], body: e };
    },
  })),
];
export const FORWARD_OPS = ['passthrough', 'wrapped'];
export const opById = (id) => [...OPS, ...VERBS].find((o) => o.id === id);
