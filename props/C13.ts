import { Gen, OPS, checkRequest, each } from './lib';

export const meta = {
  bounds: [
    'every list, search and metrics operation (26); every subset of options, cursors after or before (not both), any non-empty string of BMP characters without lone surrogates for cursors and free filters, every documented value of enumerated filters, any limit from 1 to 10^6',
    'explicitly undefined options included; list-valued filters of up to 3 elements, of 6 (run status), of 5 and 30 (metrics), one at a time or all together, repeats included',
  ],
};
export function cases() {
  return each(OPS.filter((o) => o.list), async (h, op) => {
    const w = h.world();
    const c = w.client();
    const b = op.build(new Gen(h, { level: 'full', undef: true }));
    await h.attempt(() => op.call(c, b.args));
    h.assert(w.calls.length === 1, 'one request');
    if (w.calls.length !== 1) return;
    checkRequest(h, w.calls[0], b, ['path', 'query']);
  });
}
