import { Gen, OPS, VERBS, defaultHeaders, download, each, forwardCase } from './lib';

export const meta = {
  bounds: [
    'every operation and HTTP verb with its every documented argument shape, any header-safe key and user agent; with required arguments also to a base URL without TLS and to one with a port and a path',
    'forwarding: both modes, a download on any host of lower-case letters, digits, dots and dashes other than the API’s, under any path; no caller headers (see C07 for those)',
  ],
};
export function cases(tier) {
  const level = 'full';
  const setup = (h, opts) => {
    const w = h.world(opts);
    const k = h.str('key', { re: 'headerTight', nonEmpty: true });
    const ua = h.str('ua', { re: 'headerTight' });
    const base = opts.bases ? h.choice('base', ['plain', 'tls']) : 'default';
    return { w, k, ua, c: w.client(k, base === 'default' ? { userAgent: ua } : { userAgent: ua, baseUrl: base === 'plain' ? 'http://localhost:3000' : 'https://eu.api.example:8443/v1' }) };
  };
  const check = (h, req, k, ua, form) => {
    h.assert(h.headerEq(req, 'authorization', h.cat('Bearer ', k)), 'Authorization is Bearer and the key');
    h.assert(h.headerEq(req, 'user-agent', ua), 'User-Agent is the client’s');
    h.assert(h.headerEq(req, 'content-type', form ? null : 'application/json'), form ? 'a form carries no Content-Type of its own' : 'Content-Type is application/json');
  };
  return [
    ...each([...OPS, ...VERBS], async (h, op) => {
      const { w, k, ua, c } = setup(h, {});
      const b = op.build(new Gen(h, { level }));
      const args = [...b.args];
      if (op.opts) {
        const o = h.choice('options', 3);
        if (o === 1) args.push({});
        if (o === 2) args.push({ idempotencyKey: h.str('ikey', { re: 'headerTight', nonEmpty: true }), headers: { 'X-Other': 'v' } });
      }
      await h.attempt(() => op.call(c, args));
      h.assert(w.calls.length === 1, 'one request');
      for (const req of w.calls) check(h, req, k, ua, op.form === true);
    }),
    ...each([...OPS, ...VERBS], async (h, op) => {
      const { w, k, ua, c } = setup(h, { bases: true });
      const b = op.build(new Gen(h, { level: 'light' }));
      await h.attempt(() => op.call(c, b.args));
      h.assert(w.calls.length === 1, 'one request');
      for (const req of w.calls) check(h, req, k, ua, op.form === true);
    }).map((x) => ({ ...x, name: `${x.name}: another base URL` })),
    {
      name: 'post of a form',
      run: async (h) => {
        const { w, k, ua, c } = setup(h, {});
        const f = new h.G.FormData();
        f.append('a', h.str('a'));
        await h.attempt(() => c.post('/x', f));
        h.assert(w.calls.length === 1, 'one request');
        for (const req of w.calls) check(h, req, k, ua, true);
      },
    },
    {
      name: 'templates chained publish',
      run: async (h) => {
        const { w, k, ua, c } = setup(h, { fetch: () => h.ok({ id: 't1' }) });
        await h.attempt(() => c.templates.create({ name: h.str('n'), html: h.str('h') }).publish());
        h.assert(w.calls.length === 2, 'two requests');
        for (const req of w.calls) check(h, req, k, ua, false);
      },
    },
    ...['passthrough', 'wrapped'].map((mode) => ({
      name: `emails.receiving.forward ${mode}`,
      run: async (h) => {
        const host = h.str('host', { re: 'host', nonEmpty: true, not: ['api.resend.com'] });
        const f = forwardCase(h, mode === 'wrapped', { host });
        const { w, k, ua, c } = setup(h, { fetch: (req, i) => (i === 0 ? h.ok(f.email) : i === 1 ? download(h.str('raw', { re: 'binary' })) : h.ok({ id: 'x' })) });
        await h.attempt(() => c.emails.receiving.forward(f.options));
        h.assert(w.calls.length === 3, 'three requests');
        for (const [i, req] of w.calls.entries()) {
          if (i !== 1) check(h, req, k, ua, false);
          else {
            h.assert(h.header(req, 'authorization') === null, 'no Authorization to another host');
            for (const [n, v] of req.headers) h.assert(h.not(h.eq(v, k)), 'the key is in no header to another host');
            h.assert(h.eq(req.url, f.url), 'the download URL is used as given');
            h.assert(req.body === undefined, 'the download has no body');
          }
        }
      },
    })),
  ];
}
