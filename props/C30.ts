import { ALL_KINDS, ORIGIN, checkBody, checkResult, defaultHeaders } from './lib';

export const meta = {
  bounds: [
    'get, post, put, patch and delete; any path beginning with a slash, and a list of odd ones (empty, with repeated, empty or "undefined" query members, dots, doubled slashes, fragments, escapes, spaces); entity absent, undefined, null, any JSON value of depth 2 (falsy values, empty and nested objects and arrays, undefined members included), objects with dates and toJSON, entities that have a JSON form of their own (class instances, dates, without a prototype); form data with text and files in a post',
    'options absent, undefined, empty, or headers as object, pairs or Headers instance that add to or replace default headers; idempotency key for a post; default and configured base URL; every outcome',
    'every ordered pair of two verb calls on one client, one after the other and together',
  ],
};
// paths a client could be tempted to tidy
const PATHS = ['/', '', '/x?a=undefined', '/x?a=null&b=', '/x?a=1&a=2', '/x?', '/x?&', '/x/', '//x', '/x//y', '/a/../b', '/./a', '/x%2Fy', '/x%20y?q=%zz', '/x y', '/x?q=a+b', '/x#frag', '/X?A=B', '/x?a[]=1', '/\u00e9?\u00fc=\u{1f600}', '/emails?limit=NaN', '/x;p=1', '/https://other.example', '/undefined', '/x?{b}', '/x\\y'];
const VERBS = ['get', 'post', 'put', 'patch', 'delete'];
function entity(h, m, n) {
  const kinds = m === 'get' ? ['absent'] : ['absent', 'undefined', 'null', 'json', 'falsy', 'object', 'list', 'special', 'own form'];
  if (m === 'post') kinds.push('form');
  const k = h.choice(`${n}.entity`, kinds);
  if (k === 'json') return { k, v: h.json(n, 2) };
  if (k === 'null') return { k, v: null };
  if (k === 'falsy') return { k, v: h.pick(`${n}.falsy`, ['', 0, false]) };
  if (k === 'object') return { k, v: h.obj(n, { name: h.maybe(h.str(`${n}.name`)), snake_case: h.maybe(h.num(`${n}.snake`)), camelCase: h.maybe(h.bool(`${n}.camel`)), nothing: h.maybe(h.pick(`${n}.nothing`, [null, undefined])), nested: h.maybe(h.jsonObj(`${n}.nested`)) }) };
  if (k === 'list') return { k, v: h.arr(`${n}.list`, 2, (i, q) => h.json(q, 1)) };
  if (k === 'special') return { k, v: { at: new Date(1_600_000_000_000), own: { toJSON: () => 'own form' }, u: undefined, deep: [[{ a: [null, undefined] }]] }, want: { at: '2020-09-13T12:26:40.000Z', own: 'own form', deep: [[{ a: [null, null] }]] } };
  if (k === 'own form') {
    const own = h.obj(n, { a: h.maybe(h.str(`${n}.a`)), b: null });
    class Entity {
      hidden = 1;
      toJSON() {
        return own;
      }
    }
    const at = new Date(1_600_000_000_000);
    const bare = Object.assign(Object.create(null), { a: 1, b: [undefined] });
    const which = h.choice(`${n}.own`, ['class', 'date', 'bare', 'list']);
    if (which === 'class') return { k, v: new Entity(), want: own };
    if (which === 'date') return { k, v: at, want: '2020-09-13T12:26:40.000Z' };
    if (which === 'bare') return { k, v: bare, want: { a: 1, b: [null] } };
    return { k, v: [new Entity(), at], want: [own, '2020-09-13T12:26:40.000Z'] };
  }
  if (k === 'form') return entityForm(h, n);
  return { k, v: undefined };
}
function options(h, m, n, wide) {
  const k = h.choice(`${n}.options`, wide ? ['none', 'undefined', 'empty', 'object', 'pairs', 'Headers'] : ['none', 'object']);
  if (k === 'none') return { k, headers: [] };
  if (k === 'undefined') return { k, headers: [], o: undefined };
  const o = {};
  const headers = [];
  const v = h.str(`${n}.value`, { re: 'headerTight' });
  if (k === 'object') o.headers = { 'X-Trace': v };
  if (k === 'pairs') o.headers = [['x-trace', v], ['Content-Type', 'text/mine']];
  if (k === 'Headers') o.headers = new h.G.Headers([['X-Trace', v], ['User-Agent', 'mine']]);
  if (k !== 'empty') headers.push(['x-trace', v]);
  if (k === 'pairs') headers.push(['content-type', 'text/mine']);
  if (k === 'Headers') headers.push(['user-agent', 'mine']);
  if (m === 'post' && wide && k === 'object' && h.flip(`${n}.idem`)) {
    o.idempotencyKey = h.str(`${n}.ikey`, { re: 'headerTight', nonEmpty: true });
    headers.push(['idempotency-key', o.idempotencyKey]);
  }
  return { k, o, headers };
}
function argsOf(m, path, e, o) {
  const a = [path];
  if (m !== 'get' && (e.k !== 'absent' || o.k !== 'none')) a.push(e.v);
  if (o.k !== 'none') a.push(o.o);
  return a;
}
function check(h, req, m, base, path, e, o, l = '') {
  h.assert(req.method === m.toUpperCase(), `${l}the named method is used`);
  h.assert(h.urlEq(req.url, h.cat(base, path)), `${l}the path is appended to the base URL`);
  const form = e.k === 'form';
  if (form) {
    h.assert(req.form !== null && req.form.length === 2, `${l}the form is sent`);
    if (req.form !== null && req.form.length === 2) {
      h.assert(req.form[0][0] === 'name' && req.form[1][0] === 'file', `${l}the form fields are sent in order`);
      h.assert(h.eq(req.form[0][1], e.field), `${l}the form text is sent`);
      h.assert(!h.isStr(req.form[1][1]) && req.form[1][1].size === 1 && req.form[1][1].type === 'text/csv', `${l}the form file is sent`);
    }
  } else checkBody(h, req, e.v === undefined ? {} : { body: 'want' in e ? e.want : e.v }, l);
  const want = defaultHeaders('Bearer re_k', 'ua', form).filter((d) => !o.headers.some((x) => x[0] === d[0]));
  h.assert(h.headersAre(req, [...want, ...o.headers]), `${l}the default headers and the given ones are sent`);
}
export function cases() {
  const out = [];
  for (const m of VERBS) {
    out.push({
      name: m,
      run: async (h) => {
        let r0;
        const base = h.flip('configured') ? h.cat('https://', h.str('base', { re: 'safeId' })) : ORIGIN;
        const w = h.world({
          fetch: () => {
            r0 = h.outcome('r', { kinds: ['okJson', 'errJson'], light: true });
            return r0;
          },
        });
        const c = w.client('re_k', base === ORIGIN ? { userAgent: 'ua' } : { userAgent: 'ua', baseUrl: base });
        const path = h.cat('/', h.str('path'));
        const e = entity(h, m, 'e');
        const o = options(h, m, 'o', true);
        const r = await h.attempt(() => c[m](...argsOf(m, path, e, o)));
        h.assert(w.calls.length === 1, 'one request');
        if (w.calls.length !== 1) return;
        check(h, w.calls[0], m, base, path, e, o);
        checkResult(h, {}, r, r0);
      },
    });
    out.push({
      name: `${m}: odd paths`,
      run: async (h) => {
        const w = h.world();
        const c = w.client('re_k', { userAgent: 'ua' });
        const path = h.pick('path', PATHS);
        const o = options(h, m, 'o', false);
        const e = { k: 'absent', v: undefined };
        const r = await h.attempt(() => c[m](...argsOf(m, path, e, o)));
        h.assert(r.ok && w.calls.length === 1, 'one request');
        if (w.calls.length !== 1) return;
        check(h, w.calls[0], m, ORIGIN, path, e, o);
      },
    });
    out.push({
      name: `${m}: outcomes`,
      run: async (h) => {
        let r0;
        const w = h.world({
          fetch: () => {
            r0 = h.outcome('r', { kinds: ALL_KINDS });
            return r0;
          },
        });
        const c = w.client('re_k', { userAgent: 'ua' });
        const r = await h.attempt(() => (m === 'get' ? c.get('/x') : c[m]('/x', { a: 1 })));
        h.assert(w.calls.length === 1, 'one request');
        checkResult(h, {}, r, r0);
      },
    });
    for (const m2 of VERBS) {
      for (const together of [false, true]) {
        out.push({
          name: `${m} then ${m2}${together ? ' together' : ''}`,
          run: async (h) => {
            const w = h.world();
            const c = w.client('re_k', { userAgent: 'ua' });
            const path = [h.cat('/', h.str('p0')), h.cat('/', h.str('p1'))];
            const ms = [m, m2];
            const es = ms.map((x, i) => (x === 'post' && h.flip(`form${i}`) ? entityForm(h, `e${i}`) : { k: 'json', v: x === 'get' ? undefined : h.json(`e${i}`, 0) }));
            const os = ms.map((x, i) => options(h, x, `o${i}`, false));
            const rs = [];
            for (let i = 0; i < 2; i++) {
              rs.push(h.start(() => c[ms[i]](...argsOf(ms[i], path[i], es[i], os[i]))));
              if (!together) await h.wait(rs[i]);
            }
            for (const r of rs) await h.wait(r);
            h.assert(w.calls.length === 2, 'two requests');
            if (w.calls.length !== 2) return;
            for (let i = 0; i < 2; i++) check(h, w.calls[i], ms[i], ORIGIN, path[i], es[i], os[i], `call ${i}: `);
          },
        });
      }
    }
  }
  return out;
}
function entityForm(h, n) {
  const f = new h.G.FormData();
  const v = h.str(`${n}.field`);
  f.append('name', v);
  f.append('file', new Blob(['x'], { type: 'text/csv' }));
  return { k: 'form', v: f, field: v };
}
