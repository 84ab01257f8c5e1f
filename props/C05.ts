import { Gen, OPS, ORIGIN, VERBS, checkRequest, each } from './lib';
import pkg from '/repo/package.json';

export const meta = {
  bounds: [
    'three clients made one after another under changing environments (each variable set to any value, empty or absent) with no, some or all arguments, each used afterwards',
    'constructor arguments: key absent, undefined, null-free, empty or any header-safe string; options absent, empty, or with baseUrl / userAgent absent, undefined or any string; process absent, without env, or with each of the three variables absent, empty or any string',
    'the base URL of the second group of cases is a fixed https URL with a path prefix; every operation with its required arguments',
  ],
};
const key = (h, n) => h.str(n, { re: 'headerTight', nonEmpty: true });
/** a base URL: any host; with or without TLS, a port and a path prefix */
const baseUrl = (h, n) => {
  const form = h.choice('base.form', ['https', 'http', 'port', 'path']);
  return h.cat(form === 'http' ? 'http://' : 'https://', h.str(n, { re: 'safeId', nonEmpty: true }), form === 'port' ? ':8443' : form === 'path' ? '/api/' : '');
};
export function cases() {
  return [
    ...['normal', 'no process', 'no env'].map((where) => ({
      name: `configuration: ${where}`,
      run: async (h) => {
        const env = h.env({});
        const kEnv = h.choice('env.key', ['absent', 'empty', 'set']);
        if (kEnv === 'empty') env.RESEND_API_KEY = '';
        if (kEnv === 'set') env.RESEND_API_KEY = key(h, 'env.key.v');
        const bEnv = h.choice('env.base', ['absent', 'empty', 'set']);
        if (bEnv === 'empty') env.RESEND_BASE_URL = '';
        if (bEnv === 'set') env.RESEND_BASE_URL = baseUrl(h, 'env.base.v');
        const uEnv = h.choice('env.ua', ['absent', 'empty', 'set']);
        if (uEnv === 'empty') env.RESEND_USER_AGENT = '';
        if (uEnv === 'set') env.RESEND_USER_AGENT = key(h, 'env.ua.v');
        const w = h.world(where === 'normal' ? { env } : where === 'no process' ? { env: null } : { process: 'noenv' });
        const usable = where === 'normal';
        const kArg = h.choice('key', ['absent', 'undefined', 'empty', 'set']);
        const k = kArg === 'set' ? key(h, 'key.v') : kArg === 'empty' ? '' : undefined;
        const oArg = h.choice('options', ['absent', 'empty', 'base', 'ua', 'both', 'undefined values']);
        const base = oArg === 'base' || oArg === 'both' ? baseUrl(h, 'base.v') : undefined;
        const ua = h.str('ua.v', { re: 'headerTight' });
        const o = oArg === 'empty' ? {} : oArg === 'base' ? { baseUrl: base } : oArg === 'ua' ? { userAgent: ua } : oArg === 'both' ? { baseUrl: base, userAgent: ua } : { baseUrl: undefined, userAgent: undefined };
        const args = oArg === 'absent' ? (kArg === 'absent' ? [] : [k]) : [k, o];
        let c = null;
        let threw = false;
        try {
          c = h.make(w.Resend, args);
        } catch (e) {
          threw = true;
        }
        let wantKey = null;
        if (kArg === 'set') wantKey = k;
        else if (usable && kEnv === 'set') wantKey = env.RESEND_API_KEY;
        h.assert(threw === (wantKey === null), 'construction throws exactly when there is no key');
        if (threw) return;
        const wantBase = oArg === 'base' || oArg === 'both' ? base : usable && bEnv === 'set' ? env.RESEND_BASE_URL : ORIGIN;
        const wantUa = oArg === 'ua' || oArg === 'both' ? ua : usable && uEnv === 'set' ? env.RESEND_USER_AGENT : `resend-node:${pkg.version}`;
        const id = h.str('id', { re: 'safeId', nonEmpty: true });
        for (let i = 0; i < 2; i++) {
          // the environment may change once the client exists
          if (usable && i === 1) {
            env.RESEND_API_KEY = 're_later';
            env.RESEND_BASE_URL = 'https://later.example';
            env.RESEND_USER_AGENT = 'later';
          }
          const r = await h.attempt(() => (i === 0 ? c.emails.get(id) : c.emails.cancel(id)));
          h.assert(r.ok && w.calls.length === i + 1, 'one request');
          if (w.calls.length !== i + 1) return;
          const req = w.calls[i];
          h.assert(h.eq(req.url, i === 0 ? h.cat(wantBase, '/emails/', id) : h.cat(wantBase, '/emails/', id, '/cancel')), 'the request goes to the configured base URL');
          h.assert(h.headerEq(req, 'authorization', h.cat('Bearer ', wantKey)), 'the request carries the configured key');
          h.assert(h.headerEq(req, 'user-agent', wantUa), 'the request carries the configured user agent');
        }
      },
    })),
    {
      name: 'clients made one after another',
      run: async (h) => {
        const env = h.env({});
        const w = h.world({ env });
        const cs = [];
        for (let i = 0; i < 3; i++) {
          const how = h.choice(`${i}.environment`, ['set', 'absent', 'empty']);
          const v = { RESEND_API_KEY: key(h, `${i}.key`), RESEND_BASE_URL: h.cat('https://', h.str(`${i}.base`, { re: 'safeId', nonEmpty: true })), RESEND_USER_AGENT: key(h, `${i}.ua`) };
          for (const n of ['RESEND_API_KEY', 'RESEND_BASE_URL', 'RESEND_USER_AGENT']) {
            if (how === 'set') env[n] = v[n];
            else if (how === 'empty') env[n] = '';
            else delete env[n];
          }
          const arg = h.choice(`${i}.arguments`, ['none', 'key', 'all']);
          if (arg === 'none' && how !== 'set') {
            let threw = false;
            try {
              h.make(w.Resend, []);
            } catch (e) {
              threw = true;
            }
            h.assert(threw, `client ${i}: construction throws without a key`);
            continue;
          }
          const own = { key: key(h, `${i}.own`), base: h.cat('https://', h.str(`${i}.ownBase`, { re: 'safeId', nonEmpty: true })), ua: key(h, `${i}.ownUa`) };
          const c = h.make(w.Resend, arg === 'none' ? [] : arg === 'key' ? [own.key] : [own.key, { baseUrl: own.base, userAgent: own.ua }]);
          cs.push({
            i, c, key: arg === 'none' ? v.RESEND_API_KEY : own.key, base: arg === 'all' ? own.base : how === 'set' ? v.RESEND_BASE_URL : ORIGIN,
            ua: arg === 'all' ? own.ua : how === 'set' ? v.RESEND_USER_AGENT : `resend-node:${pkg.version}`,
          });
        }
        for (const x of cs) {
          const before = w.calls.length;
          await h.attempt(() => x.c.emails.get('e1'));
          h.assert(w.calls.length === before + 1, `client ${x.i}: one request`);
          if (w.calls.length !== before + 1) return;
          const req = w.calls[before];
          h.assert(h.eq(req.url, h.cat(x.base, '/emails/e1')), `client ${x.i}: the request goes to its own base URL`);
          h.assert(h.headerEq(req, 'authorization', h.cat('Bearer ', x.key)), `client ${x.i}: the request carries its own key`);
          h.assert(h.headerEq(req, 'user-agent', x.ua), `client ${x.i}: the request carries its own user agent`);
        }
      },
    },
    ...each([...OPS, ...VERBS], async (h, op) => {
      const w = h.world();
      const k = key(h, 'key');
      const ua = key(h, 'ua');
      const c = w.client(k, { baseUrl: 'https://proxy.example:8443/v1', userAgent: ua });
      const b = op.build(new Gen(h, { level: 'light' }));
      await h.attempt(() => op.call(c, b.args));
      h.assert(w.calls.length === 1, 'one request');
      if (w.calls.length !== 1) return;
      const req = w.calls[0];
      checkRequest(h, req, { ...b, origin: 'https://proxy.example:8443', path: ['v1', ...b.path] }, ['path', 'query']);
      h.assert(h.headerEq(req, 'authorization', h.cat('Bearer ', k)), 'the request carries the configured key');
      h.assert(h.headerEq(req, 'user-agent', ua), 'the request carries the configured user agent');
    }),
  ];
}
