import { checkRequest, checkResult, download, forwardCase } from './lib';

export const meta = {
  bounds: [
    'default and explicit pass-through mode; recipient as string or list of 1-2; any subject (empty, null and absent included), any parsed text and html (absent and empty included); 0-2 attachments (thorough 0-3), and 12 in one group; a message and four attachments of 6 MB each; also when the client has forwarded the same email before, with another content',
    'attachments with any binary content, a filename or none, any content type, disposition and relatedness, content id absent, bare or in angle brackets; any raw message of any bytes; the final send succeeds, fails or rejects',
  ],
  assumptions: ['postal-mime is replaced by a stub honouring its documented interface: it records the bytes it is given and returns an arbitrary parsed message, attachment content encoded as the attachmentEncoding option asks'],
};
const content = (h, o, bin) => {
  const enc = o === undefined || o === null ? undefined : o.attachmentEncoding;
  if (enc === 'base64') return h.b64(bin);
  if (enc === 'utf8') return h.decodeUtf8(bin);
  return h.arrayBuf(bin);
};
/** six million bytes, all values among them */
const LARGE = Array.from({ length: 256 }, (_, i) => String.fromCharCode(i)).join('').repeat(24_000).concat('end');
export function cases(tier) {
  const run = async (h, count, large = false, past = false) => {
    const base = past ? 3 : 0;
    const sk = h.choice('subject', ['any', 'empty', 'null']);
    const subject = sk === 'any' ? h.str('subject', { nonEmpty: true }) : sk === 'empty' ? '' : null;
    const f = forwardCase(h, false, { full: count < 3, subject });
    const bin = large ? LARGE : h.str('raw', { re: 'binary' });
    const text = h.pick('text', [undefined, '', h.str('text.s', { nonEmpty: true })]);
    const html = h.pick('html', [undefined, '', h.str('html.s', { nonEmpty: true })]);
    const atts = [];
    for (let i = 0; i < count; i++) {
      const n = `a${i}`;
      const ck = count > 3 ? ['bracketed', 'bare', 'none'][i % 3] : h.choice(`${n}.cid`, ['none', 'bare', 'bracketed']);
      const id = h.str(`${n}.id`, { re: 'noAngle' });
      atts.push({
        bin: large ? LARGE.slice(i) : h.str(`${n}.bin`, { re: 'binary' }), filename: h.pick(`${n}.filename`, [null, h.str(`${n}.filename.s`, { nonEmpty: true })]), mimeType: h.str(`${n}.type`, { nonEmpty: true }),
        disposition: h.pick(`${n}.disposition`, ['attachment', 'inline', null]), related: h.bool(`${n}.related`), method: h.pick(`${n}.method`, ['REQUEST', 'PUBLISH']),
        given: ck === 'none' ? undefined : ck === 'bare' ? id : h.cat('<', id, '>'), id: ck === 'none' ? undefined : id,
      });
    }
    let out;
    const w = h.world({
      parseMail: (raw, o, nth) => past && nth === 0 ? { headers: [], subject: 'past', text: 'past text', html: 'past html', attachments: [{ filename: 'past.txt', mimeType: 'text/past', disposition: 'attachment', contentId: '<past>', content: content(h, o, 'past') }] } : ({
        headers: [{ key: 'x-mailer', value: h.str('mailer') }], from: { name: h.str('from name'), address: 'x@y.z' }, sender: { name: '', address: 's@y.z' }, replyTo: [{ name: '', address: 'r@y.z' }], to: [{ name: '', address: 't@y.z' }], cc: [{ name: '', address: 'c@y.z' }],
        bcc: [{ name: '', address: 'b@y.z' }], subject: 'parsed subject', messageId: h.str('mid'), inReplyTo: '<x@y>', references: '<x@y>', date: '2026-01-01T00:00:00.000Z', text, html,
        attachments: atts.map((a) => ({ filename: a.filename, mimeType: a.mimeType, disposition: a.disposition, related: a.related, ...(a.given === undefined ? {} : { contentId: a.given }), content: content(h, o, a.bin), encoding: o?.attachmentEncoding })),
      }),
      fetch: (req, i) => {
        if (i < base) return [h.ok(f.email), download('From: past\r\n\r\npast text'), h.ok({ id: 'past' })][i];
        if (i === base) return h.ok(f.email);
        if (i === base + 1) return download(bin);
        out = h.outcome('r', { kinds: ['okJson', 'errJson', 'network'], light: true });
        return out;
      },
    });
    const c = w.client();
    if (past) await h.attempt(() => c.emails.receiving.forward({ ...f.options }));
    const r = await h.attempt(() => c.emails.receiving.forward(f.options));
    h.assert(w.calls.length === base + 3, 'the email is fetched, downloaded and sent once');
    if (w.calls.length !== base + 3) return;
    const parses = w.parses.slice(past ? 1 : 0);
    h.assert(parses.length === 1, 'the raw message is parsed once');
    if (parses.length === 1) h.assert(h.eq(h.asBin(parses[0].raw), bin), 'the bytes parsed are the bytes downloaded');
    const req = w.calls[base + 2];
    checkRequest(h, req, { method: 'POST', path: ['emails'] }, ['method', 'path', 'query']);
    const b = h.body(req);
    h.assert('v' in b, 'a JSON body is sent');
    if (!('v' in b)) return;
    const v = b.v;
    h.assert(h.eq(v.from, f.from), 'from is the given sender');
    h.assert(h.jsonEq(v.to, f.to), 'to is the given recipients');
    h.assert(h.eq(v.subject, sk === 'any' ? subject : '(no subject)'), 'the subject is the original one');
    const orAbsent = (x) => h.mapOpt(x, (s) => h.ite(h.eq(s, ''), undefined, s));
    h.assert(h.or(h.jsonEq(v.text, text), h.jsonEq(v.text, orAbsent(text))), 'the text is the original one');
    h.assert(h.or(h.jsonEq(v.html, html), h.jsonEq(v.html, orAbsent(html))), 'the html is the original one');
    const rest = { ...v };
    for (const k of ['from', 'to', 'subject', 'text', 'html', 'attachments']) delete rest[k];
    h.assert(h.jsonEq(rest, {}), 'nothing else is sent');
    if (count === 0) h.assert(v.attachments === undefined || (h.isArr(v.attachments) && v.attachments.length === 0), 'no attachments are sent');
    else {
      h.assert(h.isArr(v.attachments), 'attachments are sent');
      if (!h.isArr(v.attachments)) return;
      const l = h.force(v.attachments);
      h.assert(l.length === count, 'every attachment is sent');
      if (l.length !== count) return;
      for (let i = 0; i < count; i++) {
        const a = atts[i];
        h.assert(h.or(h.jsonEq(l[i].filename, a.filename), h.and(h.eq(a.filename, null), h.isUndef(l[i].filename))), `attachment ${i} keeps its filename`);
        h.assert(h.eq(l[i].content_type, a.mimeType), `attachment ${i} keeps its content type`);
        h.assert(h.eq(l[i].content, h.b64(a.bin)), `attachment ${i} carries its bytes in base64`);
        h.assert(h.jsonEq(l[i].content_id, a.id), `attachment ${i} keeps its content id without angle brackets`);
      }
    }
    checkResult(h, {}, r, out, 'forward: ');
  };
  const max = tier === 'thorough' ? 3 : 2;
  return [...Array.from({ length: max + 1 }, (_, i) => i), 12].map((n) => ({ name: `${n} attachments`, run: (h) => run(h, n) })).concat([{ name: 'a large message', run: (h) => run(h, 4, true) }, ...[0, 1].map((n) => ({ name: `${n} attachments, forwarded before with another content`, run: (h) => run(h, n, false, true) }))]);
}
