import { checkRequest, checkResult, download, forwardCase } from './lib';

export const meta = {
  bounds: [
    'passthrough false; text, html or both, any strings (empty included); recipient as string or list of 1-2; any subject: empty, null, beginning with "Fwd:", with another letter case of it, or anything else',
    'any raw message: any sequence of bytes, one of given bytes of 10 MB; also when the client has forwarded the same email before, with another content; the final send succeeds, fails or rejects',
  ],
};
/** eleven million bytes, all values among them */
const LARGE = Array.from({ length: 256 }, (_, i) => String.fromCharCode(i)).join('').repeat(42_000).concat('end');
export function cases() {
  return [false, true].map((past) => ({
    name: `wrapped forwarding${past ? ', forwarded before with another content' : ''}`,
    run: async (h) => {
      const base = past ? 3 : 0;
      const sk = h.choice('subject', ['any', 'fwd', 'fw', 'empty', 'null']);
      const s = h.str('subject', { nonEmpty: true });
      const subject = { any: s, fwd: h.cat('Fwd:', s), fw: h.cat('fwd: ', s), empty: '', null: null }[sk];
      const f = forwardCase(h, true, { full: true, subject });
      const bin = sk === 'empty' && !past && h.flip('large') ? LARGE : h.str('raw', { re: 'binary' });
      let out;
      const w = h.world({
        fetch: (req, i) => {
          if (i < base) return [h.ok(f.email), download('From: past\r\n\r\npast text'), h.ok({ id: 'past' })][i];
          if (i === base) return h.ok(f.email);
          if (i === base + 1) return download(bin);
          out = h.outcome('r', { kinds: ['okJson', 'errJson', 'network'], light: true });
          return out;
        },
      });
      const c = w.client();
      if (past) await h.attempt(() => c.emails.receiving.forward({ ...f.options }));
      const r = await h.attempt(() => c.emails.receiving.forward(f.options));
      h.assert(w.calls.length === base + 3, 'the email is fetched, downloaded and sent once');
      if (w.calls.length !== base + 3) return;
      const req = w.calls[base + 2];
      checkRequest(h, req, { method: 'POST', path: ['emails'] }, ['method', 'path', 'query']);
      const b = h.body(req);
      h.assert('v' in b, 'a JSON body is sent');
      if (!('v' in b)) return;
      const v = b.v;
      h.assert(h.eq(v.from, f.from), 'from is the given sender');
      h.assert(h.jsonEq(v.to, f.to), 'to is the given recipients');
      h.assert(h.jsonEq(v.text, f.options.text), 'the text is the given one');
      h.assert(h.jsonEq(v.html, f.options.html), 'the html is the given one');
      const orig = sk === 'empty' || sk === 'null' ? '(no subject)' : subject;
      const starts = sk === 'fwd' ? true : sk === 'any' ? h.startsWith(s, 'Fwd:') : false;
      h.assert(h.eq(v.subject, h.when(starts) ? orig : h.cat('Fwd: ', orig)), 'the subject is prefixed once');
      const rest = { ...v };
      for (const k of ['from', 'to', 'subject', 'text', 'html', 'attachments']) delete rest[k];
      h.assert(h.jsonEq(rest, {}), 'nothing else is sent');
      h.assert(h.isArr(v.attachments) && v.attachments.length === 1, 'exactly one attachment is sent');
      if (!h.isArr(v.attachments) || v.attachments.length !== 1) return;
      const a = v.attachments[0];
      h.assert(h.eq(a.content_type, 'message/rfc822'), 'the attachment is a message/rfc822');
      h.assert(h.eq(a.content, h.b64(bin)), 'its content is the raw message byte for byte');
      h.assert(h.isStr(a.filename), 'it has a file name');
      checkResult(h, {}, r, out, 'forward: ');
    },
  }));
}
