import { Gen, OPS, checkBody, largeCases, reactBuild } from './lib';

export const meta = {
  bounds: [
    'batch.send and batch.create; 0-2 emails (thorough 0-3), each with every documented shape (html, text, template, React), every subset of optional fields, possibly explicitly undefined, and any strings; batches of 3 to 101 short emails with symbolic contents, also with the same email repeated; a batch of 10 emails of every kind with every field and lists of 10',
    'each element is compared with the documented JSON and, for batches of 1 or 2, with what emails.send actually transmits for the same email on the same tree',
    'batch mode absent, undefined, strict or permissive, options absent, empty or with headers in each form',
  ],
};
export function cases(tier) {
  const out = largeCases(OPS.filter((o) => o.id === 'batch.send' || o.id === 'batch.create'), 10);
  for (const id of ['batch.send', 'batch.create']) {
    out.push({
      name: `${id}: contents`,
      run: async (h) => {
        const html = [h.str('html0'), h.str('html1'), h.str('html2')];
        const order = [];
        const w = h.world({ render: async (node) => html[order.indexOf(node)] });
        const c = w.client();
        const b = reactBuild(h, id, new Gen(h, { level: 'full', undef: true }), (n, i) => {
          order.push(n);
          return html[i];
        }, tier === 'thorough' ? 3 : 2);
        await h.attempt(() => b.op.call(c, b.args));
        h.assert(w.calls.length === 1, 'one request');
        if (w.calls.length !== 1) return;
        checkBody(h, w.calls[0], b);
        h.assert(h.headerEq(w.calls[0], 'x-batch-validation', 'strict'), 'the batch is strict by default');
      },
    });
    out.push({
      name: `${id}: equals single sends`,
      run: async (h) => {
        const w = h.world({ render: async (node) => h.cat('rendered ', node.n) });
        const c = w.client();
        const b = reactBuild(h, id, new Gen(h, { level: 'full' }), (n) => h.cat('rendered ', n.n), 2);
        const list = b.args[0];
        h.assume(list.length > 0);
        await h.attempt(() => b.op.call(c, [list]));
        h.assert(w.calls.length === 1, 'one request');
        if (w.calls.length !== 1) return;
        const got = h.body(w.calls[0]);
        h.assert('v' in got && h.isArr(got.v), 'an array is sent');
        if (!('v' in got) || !h.isArr(got.v)) return;
        const arr = h.force(got.v);
        h.assert(arr.length === list.length, 'one element per email');
        if (arr.length !== list.length) return;
        for (let i = 0; i < list.length; i++) {
          const n = w.calls.length;
          await h.attempt(() => c.emails.send(list[i]));
          h.assert(w.calls.length === n + 1, 'the single send makes one request');
          if (w.calls.length !== n + 1) return;
          const one = h.body(w.calls[n]);
          h.assert('v' in one, 'the single send has a JSON body');
          if ('v' in one) h.assert(h.jsonEq(arr[i], one.v), `element ${i} equals the single send`);
        }
      },
    });
    out.push({
      name: `${id}: size and mode`,
      run: async (h) => {
        const w = h.world();
        const c = w.client();
        const n = h.choice('emails', [0, 1, 3, 10, 50, 100, 101]);
        const list = [];
        for (let i = 0; i < n; i++) list.push({ from: 'f@x.co', to: i % 2 ? h.str(`to${i}`) : [h.str(`to${i}`)], subject: h.str(`s${i}`), text: 't' });
        // the same email given several times is sent several times
        const again = n > 1 && n <= 50 && h.flip('repeated');
        if (again) list.push(list[0], { ...list[1] }, list[0]);
        const mode = h.choice('mode', ['no options', 'no mode', 'undefined', 'strict', 'permissive']);
        const o = {};
        if (mode === 'undefined') o.batchValidation = undefined;
        if (mode === 'strict' || mode === 'permissive') o.batchValidation = mode;
        if (mode !== 'no options' && n < 10) {
          const f = h.choice('headers', ['none', 'undefined', 'object', 'pairs', 'Headers']);
          if (f === 'undefined') o.headers = undefined;
          if (f === 'object') o.headers = { 'X-A': 'v' };
          if (f === 'pairs') o.headers = [['X-A', 'v']];
          if (f === 'Headers') o.headers = new h.G.Headers([['X-A', 'v']]);
        }
        const call = OPS.find((op) => op.id === id).call;
        await h.attempt(() => call(c, mode === 'no options' ? [list] : [list, o]));
        h.assert(w.calls.length === 1, 'one request for the whole batch');
        if (w.calls.length !== 1) return;
        checkBody(h, w.calls[0], { body: list });
        h.assert(h.headerEq(w.calls[0], 'x-batch-validation', mode === 'permissive' ? 'permissive' : 'strict'), 'the mode header is the requested one');
      },
    });
  }
  return out;
}
