// The standardwebhooks package: executed as it is in native mode; in symbolic mode a model of its code in which HMAC-SHA256 is
// an unforgeable signature: a signature is valid only if it was produced by sign() with an equal key and an equal signed content.
import fs from 'node:fs';
import { loadGraph, REPO } from './loader.mjs';
import * as T from './smt.mjs';
import * as S from './sym.mjs';

const TOLERANCE = 300;
const PREFIX = 'whsec_';
export class WebhookVerificationError extends Error {
  constructor(m) {
    super(m);
    this.name = 'WebhookVerificationError';
  }
}
export function nativeLib(globals) {
  return loadGraph(fs.realpathSync(`${REPO}/node_modules/standardwebhooks/dist/index.js`), 'native', { globals, stubs: {} });
}
const text = (v) => (S.isUnion(v) ? S.force(v) : v);
const isText = (v) => typeof v === 'string' || v instanceof S.SymStr;
/** split at a delimiter that the symbolic parts are shown not to contain */
function split(h, s, d) {
  const parts = S.partsOf(s).map((p) => {
    if (typeof p === 'string' || p.k === 'num' || p.k === 'b64' || h.tokens.has(p.t.t ?? p.t)) return p;
    if (!S.decide(T.app('Bool', 'str.contains', S.strTerm(S.mkStr([p])), T.strLit(d)))) return p;
    return S.concretize(S.mkStr([p]), 'signature list');
  });
  const out = [[]];
  for (const p of parts) {
    if (typeof p !== 'string') out[out.length - 1].push(p);
    else
      p.split(d).forEach((x, i) => {
        if (i > 0) out.push([]);
        out[out.length - 1].push(x);
      });
  }
  return out.map((x) => S.mkStr(x));
}
function keyOf(secret) {
  secret = text(secret);
  if (!S.truthy(secret)) throw new Error("Secret can't be empty.");
  if (!isText(secret)) throw new Error('Expected secret to be of type string');
  const p = S.partsOf(secret);
  if (typeof p[0] === 'string' && p[0].startsWith(PREFIX)) return S.mkStr([p[0].slice(PREFIX.length), ...p.slice(1)]);
  return secret;
}
const content = (id, n, payload) => S.cat(S.toStr(id), '.', S.toStr(n), '.', S.toStr(payload));
function when(v) {
  const p = S.partsOf(S.toStr(v));
  if (typeof p[0] !== 'string' && p[0].k === 'num') {
    if (p.length === 1) return p[0].n;
    // digits after a positive number; anything else ends it
    if (p.length === 2 && typeof p[1] === 'string') {
      const d = /^\d*/.exec(p[1])[0];
      return d === '' ? p[0].n : S.bin('+', S.bin('*', p[0].n, 10 ** d.length), Number(d));
    }
  }
  const n = Number.parseInt(S.concretize(v, 'timestamp'), 10);
  if (Number.isNaN(n)) throw new WebhookVerificationError('Invalid Signature Headers');
  return n;
}
export function symLib(h) {
  class Webhook {
    constructor(secret) {
      this.key = keyOf(secret);
    }
    sign(id, date, payload) {
      throw new S.EngineError('sign is not modelled here');
    }
    verify(payload, headers_) {
      const headers = {};
      headers_ = text(headers_);
      for (const k of Object.keys(headers_)) headers[k.toLowerCase()] = text(headers_[k]);
      const id = headers['webhook-id'];
      const sig = headers['webhook-signature'];
      const ts = headers['webhook-timestamp'];
      for (const x of [sig, id, ts]) if (x === undefined || x === null || !S.truthy(x)) throw new WebhookVerificationError('Missing required headers');
      const n = when(ts);
      const now = Math.floor(h.now / 1000);
      if (S.truthy(S.bin('>', S.bin('-', now, n), TOLERANCE))) throw new WebhookVerificationError('Message timestamp too old');
      if (S.truthy(S.bin('>', n, now + TOLERANCE))) throw new WebhookVerificationError('Message timestamp too new');
      payload = text(payload);
      if (!isText(payload)) throw new Error('Expected payload to be of type string or Buffer.');
      const c = content(id, n, payload);
      for (const one of split(h, sig, ' ')) {
        const [version, token] = split(h, one, ',');
        if (!S.truthy(S.mkBool(S.eqTerm(version, 'v1')))) continue;
        if (token === undefined) continue;
        const ok = h.signatures.map((s) => T.and(S.eqTerm(token, s.token), S.eqTerm(this.key, s.key), S.eqTerm(c, s.content)));
        if (S.truthy(S.mkBool(T.or(ok)))) return S.jsonParse(payload);
      }
      throw new WebhookVerificationError('No matching signature found');
    }
  }
  return { Webhook, WebhookVerificationError };
}
/** the token of a signature made with the secret */
export function signature(h, secret, id, n, payload) {
  if (!h.sym) return new (nativeLib(globalThis)).Webhook(secret).sign(id, new Date(n * 1000), payload).slice(3);
  const token = h.token('signature');
  const key = keyOf(secret);
  const c = content(id, n, payload);
  for (const s of h.signatures) S.addPC(T.or(T.not(S.eqTerm(token, s.token)), T.and(S.eqTerm(key, s.key), S.eqTerm(c, s.content))));
  h.signatures.push({ token, key, content: c });
  return token;
}
