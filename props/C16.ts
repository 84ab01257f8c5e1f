import { Gen, ORIGIN, REACT_OPS, checkRequest, opById, reactBuild, reactNode } from './lib';

export const meta = {
  bounds: [
    'emails.send/create, batch.send/create (0-2 emails, thorough 0-3), broadcasts.create/update, templates.create (awaited and chained with publish); every documented payload shape with and without React content, html given besides it or not, fields explicitly undefined',
    'rendered html: any string, the empty string included, a different one per node; rendering succeeds, rejects with four kinds of value, or the renderer is not installed',
    'two calls on one client, one after the other or together, with elements of the same component that differ in their props',
    'nodes that are text, a number, true, a list, an iterable or another object; falsy react values (undefined, null, false, 0, empty string) leave the given html alone',
  ],
  assumptions: ['@react-email/render is replaced by a stub that records its calls and returns arbitrary html'],
};
export function cases(tier) {
  const max = tier === 'thorough' ? 3 : 2;
  const out = REACT_OPS.map((id) => ({
    name: `${id}: rendered`,
    run: async (h) => {
      const html = [h.str('html0'), h.str('html1'), h.str('html2')];
      const order = [];
      const w = h.world({ render: async (node) => html[order.indexOf(node)] });
      const c = w.client();
      const b = reactBuild(h, id, new Gen(h, { level: 'full', undef: true }), (n, i) => {
        order.push(n);
        return html[i];
      }, max);
      const r = await h.attempt(() => b.op.call(c, b.args));
      h.assert(r.ok === true, 'resolves');
      h.assert(w.renders.length === b.nodes.length, 'each React node is rendered exactly once, nothing else is');
      for (const n of b.nodes) h.assert(w.renders.filter((x) => x.node === n).length === 1, 'the given node itself is rendered');
      h.assert(w.calls.length === 1, 'one request');
      if (w.calls.length === 1) checkRequest(h, w.calls[0], b, ['method', 'path', 'body']);
    },
  }));
  for (const id of REACT_OPS) {
    out.push({
      name: `${id}: after or beside another render of the same component`,
      run: async (h) => {
        const html = [h.str('html0'), h.str('html1'), h.str('html2')];
        const order = [];
        const w = h.world({ render: async (node) => html[order.indexOf(node)] });
        const c = w.client();
        const mine = (n) => {
          order.push(n);
          return html[order.length - 1];
        };
        const first = reactNode('first');
        mine(first);
        const b = reactBuild(h, id, new Gen(h, { level: 'full', lean: true }), mine, 1);
        const other = { from: 'f', to: 't', subject: 's', react: first };
        const r0 = h.start(() => c.emails.send(other));
        const order2 = h.choice('order', ['after', 'beside']);
        if (order2 === 'after') await h.wait(r0);
        const r = h.start(() => b.op.call(c, b.args));
        await h.wait(r0);
        await h.wait(r);
        h.assert(r.ok === true && r0.ok === true, 'both resolve');
        h.assert(w.renders.length === order.length, 'each React node is rendered exactly once, nothing else is');
        h.assert(w.calls.length === 2, 'two requests');
        if (w.calls.length !== 2) return;
        const mineFirst = { method: 'POST', path: ['emails'], body: { from: 'f', to: 't', subject: 's', html: html[0] } };
        // started together, either may be sent first
        const sent = h.body(w.calls[0]);
        const swapped = order2 === 'beside' && !('v' in sent && w.calls[0].url === `${ORIGIN}/emails` && h.when(h.jsonEq(sent.v, mineFirst.body)));
        checkRequest(h, w.calls[swapped ? 1 : 0], mineFirst, ['method', 'path', 'body'], 'first call');
        checkRequest(h, w.calls[swapped ? 0 : 1], b, ['method', 'path', 'body'], 'second call');
      },
    });
    out.push({
      name: `${id}: rendering fails`,
      run: async (h) => {
        const how = h.choice('how', ['first', 'last', 'missing']);
        const nodes = [];
        const w = h.world({
          renderMissing: how === 'missing',
          render: async (node, o, n) => {
            if (how === 'first' ? n === 0 : node === nodes[nodes.length - 1]) throw h.throwable('render');
            return 'x';
          },
        });
        const c = w.client();
        const b = reactBuild(h, id, new Gen(h, { level: 'full', undef: false, lean: true }), (n) => {
          nodes.push(n);
          return 'x';
        }, max);
        h.assume(nodes.length > 0);
        const chained = id === 'templates.create' && h.flip('chained');
        const r = await h.attempt(() => (chained ? c.templates.create(b.args[0]).publish() : b.op.call(c, b.args)));
        await h.quiesce();
        h.assert(r.hang === false && r.ok === false, 'the call rejects');
        h.assert(r.sync === false, 'it does not throw synchronously');
        h.assert(w.calls.length === 0, 'nothing is sent');
      },
    });
    const argsOf = (base) => ({
      'emails.send': () => [{ ...base, to: 't' }], 'emails.create': () => [{ ...base, to: 't' }], 'batch.send': () => [[{ ...base, to: 't' }, { ...base, to: 'u', react: undefined }]], 'batch.create': () => [[{ ...base, to: 't' }]],
      'broadcasts.create': () => [{ ...base, segmentId: 'g' }], 'broadcasts.update': () => ['b1', base], 'templates.create': () => [{ ...base, name: 'n' }],
    })[id]();
    out.push({
      name: `${id}: other kinds of node`,
      run: async (h) => {
        const el = reactNode('el');
        const node = h.pick('node', ['text', 7, true, [el, 'text'], new Set([el]), { $$typeof: 'portal', children: el }]);
        const html = h.str('html');
        const w = h.world({ render: async () => html });
        const c = w.client();
        const args = argsOf({ from: 'f', subject: h.str('s'), react: node });
        await h.attempt(() => opById(id).call(c, args));
        h.assert(w.renders.length === 1, 'the node is rendered');
        h.assert(w.calls.length === 1, 'one request');
        if (w.calls.length !== 1) return;
        const v = h.body(w.calls[0]);
        h.assert('v' in v, 'a JSON body is sent');
        if (!('v' in v)) return;
        const first = id.startsWith('batch') ? h.force(v.v)[0] : v.v;
        h.assert(h.eq(first.html, html), 'the rendered html is sent');
        h.assert(!('react' in first), 'the node is not sent');
      },
    });
    out.push({
      name: `${id}: falsy react`,
      run: async (h) => {
        const falsy = h.pick('falsy', [undefined, null, false, 0, '']);
        const html = h.str('html');
        const w = h.world();
        const c = w.client();
        const base = { from: 'f', subject: h.str('s'), html, react: falsy };
        const args = argsOf(base);
        await h.attempt(() => opById(id).call(c, args));
        h.assert(w.renders.length === 0, 'nothing is rendered');
        h.assert(w.calls.length === 1, 'one request');
        if (w.calls.length !== 1) return;
        const v = h.body(w.calls[0]);
        h.assert('v' in v, 'a JSON body is sent');
        if (!('v' in v)) return;
        const list = id.startsWith('batch') ? h.force(v.v) : [v.v];
        for (const x of list) h.assert(h.eq(x.html, html), 'the given html is sent');
      },
    });
  }
  return out;
}
