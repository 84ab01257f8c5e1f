import { ALL_KINDS, Gen, OPS, REACT_OPS, VERBS, callerOptions, download, each, forwardCase, okBody, reactBuild } from './lib';

export const meta = {
  bounds: [
    'every operation and HTTP verb with every documented argument shape, each optional field given, absent or explicitly undefined; lists of up to 1 element (React: batches of up to 2)',
    'request options absent, empty, or with headers as plain object, pairs or Headers instance, idempotency key and batch mode',
    'POST, PUT and PATCH of a form with two fields of one name, an empty field and a file',
    'outcomes: success, HTTP error, rejection (quick), every kind (thorough); React rendering succeeding and failing; forwarding in both modes',
    'compared at every depth, own properties and values, presence of undefined-valued properties included; objects are also checked right after the call started',
  ],
};
export function cases(tier) {
  const kinds = tier === 'thorough' ? ALL_KINDS : ['okJson', 'errJson', 'network'];
  const watch = async (h, w, objs, f) => {
    const before = objs.map((o) => h.snap(o));
    const r = h.start(f);
    for (let i = 0; i < objs.length; i++) h.assert(h.sameSnap(h.snap(objs[i]), before[i]), `argument ${i} is unchanged when the call has started`);
    await h.wait(r);
    await h.quiesce();
    for (let i = 0; i < objs.length; i++) h.assert(h.sameSnap(h.snap(objs[i]), before[i]), `argument ${i} is unchanged after the call`);
  };
  return [
    ...each([...OPS, ...VERBS], async (h, op) => {
      const b = op.build(new Gen(h, { level: 'full', undef: true }));
      const args = [...b.args];
      const o = op.opts ? callerOptions(h, op) : null;
      const w = h.world({ fetch: () => h.outcome('r', { kinds: o === null && (!op.list || tier === 'thorough') ? kinds : ['okJson'], light: true, data: () => okBody(h, op, 'data') }) });
      const c = w.client();
      if (o !== null) args.push(o);
      await watch(h, w, args, () => op.call(c, args));
      h.assert(w.calls.length > 0, 'the call sends its request');
    }),
    ...['post', 'put', 'patch'].map((verb) => ({
      name: `${verb} of a form`,
      run: async (h) => {
        const f = new h.G.FormData();
        f.append('name', h.str('first'));
        f.append('empty', '');
        f.append('name', h.str('second'));
        f.append('file', new Blob(['x'], { type: 'text/csv' }), 'a.csv');
        const view = () => [...f.entries()].map(([n, v]) => (n === 'file' ? [n, v.size, v.type] : [n, v]));
        const w = h.world({ fetch: () => h.outcome('r', { kinds, light: true }) });
        const c = w.client();
        const o = callerOptions(h, { opts: 'idem' });
        const before = h.snap(view());
        const bo = h.snap(o);
        const r = h.start(() => (o === null ? c[verb]('/x', f) : c[verb]('/x', f, o)));
        h.assert(h.sameSnap(h.snap(view()), before), 'the form is unchanged when the call has started');
        h.assert(h.sameSnap(h.snap(o), bo), 'the options are unchanged when the call has started');
        await h.wait(r);
        await h.quiesce();
        h.assert(h.sameSnap(h.snap(view()), before), 'the form is unchanged after the call');
        h.assert(h.sameSnap(h.snap(o), bo), 'the options are unchanged after the call');
        h.assert(w.calls.length > 0, 'the call sends its request');
      },
    })),
    ...REACT_OPS.map((id) => ({
      name: `React ${id}`,
      run: async (h) => {
        const fails = h.flip('rendering fails');
        const w = h.world({
          render: async () => {
            if (fails) throw h.throwable('render', true);
            return h.str('html');
          },
        });
        const b = reactBuild(h, id, new Gen(h, { level: 'full', undef: true }), () => '', 2);
        const c = w.client();
        await watch(h, w, b.args, () => b.op.call(c, b.args));
      },
    })),
    ...['passthrough', 'wrapped'].map((mode) => ({
      name: `emails.receiving.forward ${mode}`,
      run: async (h) => {
        const f = forwardCase(h, mode === 'wrapped', { full: true });
        const stage = h.choice('fails', ['never', 'get', 'download', 'send']);
        const bad = () => h.outcome('r', { kinds: ['errJson', 'network'], light: true });
        const w = h.world({
          fetch: (req, i) => {
            if (i === 0) return stage === 'get' ? bad() : h.ok(f.email);
            if (i === 1) return stage === 'download' ? bad() : download(h.str('raw', { re: 'binary' }));
            return stage === 'send' ? bad() : h.ok({ id: 'x' });
          },
        });
        const c = w.client();
        const o = callerOptions(h, { opts: 'idem' });
        const args = o === null ? [f.options] : [f.options, o];
        await watch(h, w, args, () => c.emails.receiving.forward(...args));
      },
    })),
  ];
}
