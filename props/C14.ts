import { Gen, OPS, checkRequest, each, largeCases } from './lib';

export const meta = {
  bounds: [
    'emails.send and emails.create; html, text and template emails; every subset of optional fields, each possibly explicitly undefined; every string value (BMP, no lone surrogates), null topic, false attachment filenames',
    'recipients as a string or a list of 1 or 2; 0-2 tags and 0-2 attachments (thorough: 0-3), and 60 of each of these in one group, with every subset of attachment fields; custom headers and template variables under two fixed keys with arbitrary values',
    'attachment content as any string; as a Buffer of any bytes in a separate group of up to 5 attachments, the same one repeated among them',
  ],
};
export function cases(tier) {
  const bytes = ['emails.send', 'emails.create'].map((id) => ({
    name: `${id}: attachments given as bytes`,
    run: async (h) => {
      const w = h.world();
      const c = w.client();
      const bin = h.str('bytes', { re: 'binary' });
      const content = h.buf(bin);
      const n = h.choice('attachments', 3);
      const list = [{ filename: h.str('f0'), content }, { content: h.str('c1') }, { filename: 'x', content, contentId: h.str('id2') }].slice(0, n + 1);
      if (h.flip('repeated')) list.push(list[0], { ...list[0] });
      const mail = { from: h.str('from'), to: h.str('to'), subject: h.str('subject'), text: h.str('text'), attachments: list };
      await h.attempt(() => (id === 'emails.send' ? c.emails.send(mail) : c.emails.create(mail)));
      h.assert(w.calls.length === 1, 'one request');
      if (w.calls.length !== 1) return;
      const body = { from: mail.from, to: mail.to, subject: mail.subject, text: mail.text };
      const as = (conv) => ({ ...body, attachments: list.map((a) => ({ filename: a.filename, content: a.content === content ? conv : a.content, content_id: a.contentId })) });
      const b = h.body(w.calls[0]);
      h.assert('v' in b, 'a JSON body is sent');
      // the bytes as JSON writes a Buffer, or as base64
      if ('v' in b) h.assert(h.or(h.jsonEq(b.v, as(content)), h.jsonEq(b.v, as(h.b64(bin)))), 'every attachment carries exactly its bytes');
    },
  }));
  return [...bytes, ...largeCases(OPS.filter((o) => o.id === 'emails.send' || o.id === 'emails.create'), 60), ...each(OPS.filter((o) => o.id === 'emails.send' || o.id === 'emails.create'), async (h, op) => {
    const w = h.world();
    const c = w.client();
    const b = op.build(new Gen(h, { level: 'full', undef: true, arr: tier === 'thorough' ? 3 : 2 }));
    await h.attempt(() => op.call(c, b.args));
    h.assert(w.calls.length === 1, 'one request');
    if (w.calls.length !== 1) return;
    checkRequest(h, w.calls[0], b, ['method', 'path', 'query', 'body']);
  })];
}
