import { Gen, OPS, given } from './lib';

export const meta = {
  bounds: [
    'every operation that takes an identifier in its path, with its required arguments; identifiers: any non-empty well-formed string of BMP characters other than "." and ".."',
    'a second group restricts identifiers to characters without a meaning in a URL path (no % / \\ ? # " space or control characters) and must hold for every operation',
    'lone surrogates and astral characters are outside the bound',
  ],
};
const LABEL = 'the identifier stays in its own path segment and adds no query or fragment';
const run = async (h, op, ids) => {
  const w = h.world();
  const c = w.client();
  const b = op.build(new Gen(h, { level: 'full', ids, lean: true }));
  await h.attempt(() => op.call(c, b.args));
  h.assert(w.calls.length === 1, 'one request');
  if (w.calls.length !== 1) return;
  const u = h.url(w.calls[0].url);
  h.assert(h.and(h.eq(u.origin, 'https://api.resend.com'), h.segsAre(u, b.path), u.hash === '', h.queryIs(u, given(b.query ?? []))), LABEL);
};
export function cases() {
  const ops = OPS.filter((o) => o.takesId);
  return [
    ...ops.map((op) => ({ name: `${op.id}: any identifier`, run: (h) => run(h, op, 'wellFormed') })),
    ...ops.map((op) => ({ name: `${op.id}: identifier without URL syntax`, run: (h) => run(h, op, 'rawSafe') })),
  ];
}
