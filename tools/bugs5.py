P = lambda id, prop, edits, demo, needs, breaks, **k: dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k)
EMAIL = "{ from: 'a@b.c', to: 'd@e.f', subject: 's', text: 't' }"
RES = 'resend.ts'
RECV = 'emails/receiving/receiving.ts'
PARSE = 'common/utils/parse-email-to-api-options.ts'
AUTO = 'common/utils/parse-automation-to-api-options.ts'
MAIL = """  const mail = (raw, subject = 's') => { respond = (c) => c.url.startsWith('https://dl/') ? new Response(raw) : json({ id: 'a', subject, raw: { download_url: 'https://dl/x' } }); };
"""
HOOK = """  const { Webhook } = require(require.resolve('standardwebhooks', { paths: [process.cwd()] }));
  const secret = 'whsec_' + Buffer.from('k').toString('base64');
  const now = new Date();
  const ts = String(Math.floor(now / 1000));
  const sign = (id, p) => new Webhook(secret).sign(id, now, p);
"""
CATCH = "    } catch {\n      const error: ErrorResponse = {\n        name: 'application_error',\n        statusCode: null,\n        message: 'Unable"
BUGS = [
P('c03-timeout', 'C03', [(RES, "      const response = await fetch(`${this.baseUrl}${path}`, options);", "      const response = await Promise.race([\n        fetch(`${this.baseUrl}${path}`, options),\n        new Promise<never>((_, reject) => {\n          const timer = setTimeout(() => reject(new Error('timeout')), 60_000);\n          timer.unref?.();\n        }),\n      ]);")],
 """  const real = globalThis.setTimeout;
  globalThis.setTimeout = (f, ms, ...a) => real(f, ms / 1000, ...a);
  respond = () => new Promise((r) => real(() => r(json({ id: 'x' })), 400));
  const t = real(() => {}, 2000);
  const r = await client().emails.get('e');
  assert.deepStrictEqual(r.data, { id: 'x' });""",
 'an answer that takes over a minute', 'a successful exchange is reported as failed'),
P('c04-hedge', 'C04', [(RES, "      const response = await fetch(`${this.baseUrl}${path}`, options);", "      const request = () => fetch(`${this.baseUrl}${path}`, options);\n      const first = request();\n      let timer: ReturnType<typeof setTimeout> | undefined;\n      const response = await Promise.race([\n        first,\n        new Promise<Awaited<typeof first>>((resolve) => {\n          timer = setTimeout(() => resolve(request()), 30_000);\n        }),\n      ]).finally(() => clearTimeout(timer));")],
 """  const real = globalThis.setTimeout;
  globalThis.setTimeout = (f, ms, ...a) => real(f, ms / 1000, ...a);
  respond = (c, n) => new Promise((r) => real(() => r(json({ id: 'x' })), 400));
  await client().emails.send(""" + EMAIL + """);
  assert.strictEqual(calls.length, 1);""",
 'an answer that takes over thirty seconds', 'a second request is made'),
P('c01-body-timeout', 'C03', [(RES, "      const data = await response.json();\n", "      const data = await new Promise<T>((resolve, reject) => {\n        const timer = setTimeout(() => reject(new Error('stalled')), 120_000);\n        response.json().then(\n          (value) => {\n            clearTimeout(timer);\n            resolve(value as T);\n          },\n          (reason) => {\n            clearTimeout(timer);\n            reject(reason);\n          },\n        );\n      });\n")],
 """  const real = globalThis.setTimeout;
  globalThis.setTimeout = (f, ms, ...a) => real(f, ms / 1000, ...a);
  respond = () => { const r = json({ id: 'x' }); const read = r.json.bind(r); r.json = () => new Promise((ok) => real(() => ok(read()), 400)); return r; };
  const r = await client().emails.get('e');
  assert.deepStrictEqual(r.data, { id: 'x' });""",
 'a body that takes over two minutes', 'a successful exchange is reported as failed'),
P('c02-signal', 'C02', [(RES, "      const response = await fetch(`${this.baseUrl}${path}`, options);", "      const response = await fetch(`${this.baseUrl}${path}`, {\n        signal: AbortSignal.timeout(90_000),\n        ...options,\n      });")],
 """  AbortSignal.timeout = (ms) => { const c = new AbortController(); setTimeout(() => c.abort(), ms / 1000); return c.signal; };
  const inner = globalThis.fetch;
  globalThis.fetch = (u, o) => new Promise((ok, no) => { o.signal?.addEventListener('abort', () => no(o.signal.reason)); setTimeout(() => inner(u, o).then(ok), 400); });
  respond = () => json({ name: 'rate_limit_exceeded', message: 'm', statusCode: 429 }, 429);
  const r = await client().emails.get('e');
  assert.strictEqual(r.error.name, 'rate_limit_exceeded');""",
 'a failure that takes over ninety seconds', 'another error is reported'),
P('c03-page-cap', 'C03', [(RES, "      const data = await response.json();\n", "      const data = await response.json();\n      if (Array.isArray(data?.data)) {\n        data.data.length = Math.min(data.data.length, 100);\n      }\n")],
 """  respond = () => json({ object: 'list', data: Array.from({ length: 101 }, (_, i) => ({ id: `e${i}` })) });
  const r = await client().logs.list();
  assert.strictEqual(r.data.data.length, 101);""",
 'a list of more than a hundred', 'elements are lost'),
P('c28-page', 'C28', [('contact-properties/contact-properties.ts', "          data: response.data.data.map(", "          data: response.data.data.slice(0, options.limit ?? 100).map(")],
 """  respond = () => json({ object: 'list', has_more: false, data: Array.from({ length: 3 }, (_, i) => ({ id: `p${i}`, key: 'k', type: 'string', created_at: 'x', fallback_value: null })) });
  const r = await client().contactProperties.list({ limit: 2 });
  assert.strictEqual(r.data.data.length, 3);""",
 'an answer with more properties than asked for', 'properties are lost'),
P('c30-clone', 'C30', [(RES, "      method: 'PUT',\n      body: JSON.stringify(entity),", "      method: 'PUT',\n      body: JSON.stringify(structuredClone(entity)),")],
 """  class Money { toJSON() { return 'money'; } }
  await client().put('/x', { a: new Money() });
  assert.deepStrictEqual(last().body, { a: 'money' });""",
 'an entity holding an object with a JSON form of its own', 'it is sent in another form'),
P('c30-entries', 'C30', [(RES, "      method: 'PATCH',\n      body: JSON.stringify(entity),", "      method: 'PATCH',\n      body:\n        entity && typeof entity === 'object' && !Array.isArray(entity)\n          ? JSON.stringify({ ...entity })\n          : JSON.stringify(entity),")],
 """  class Patch { constructor() { this.a = 1; } toJSON() { return { b: 2 }; } }
  await client().patch('/x', new Patch());
  assert.deepStrictEqual(last().body, { b: 2 });""",
 'an entity with a JSON form of its own', 'another JSON is sent'),
P('c14-own-fields', 'C14', [(PARSE, "  return attachments?.map((attachment) => ({\n", "  return attachments?.map(({ ...attachment }) => ({\n")],
 """  class File1 { get filename() { return 'f.txt'; } get content() { return 'aGk='; } }
  await client().emails.send({ ...""" + EMAIL + """, attachments: [new File1()] });
  assert.deepStrictEqual(last().body.attachments, [{ filename: 'f.txt', content: 'aGk=' }]);""",
 'an attachment that is an instance of a class with getters', 'its fields are lost'),
P('c08-shared-ua', 'C08', [(RES, "    this.headers = new Headers({\n      Authorization: `Bearer ${this.key}`,\n      'User-Agent': this.userAgent,\n      'Content-Type': 'application/json',\n    });", "    const shared = Resend.shared.get(`${this.key}`);\n    this.headers =\n      shared ??\n      new Headers({\n        Authorization: `Bearer ${this.key}`,\n        'User-Agent': this.userAgent,\n        'Content-Type': 'application/json',\n      });\n    Resend.shared.set(`${this.key}`, this.headers);"), (RES, "  private readonly headers: Headers;\n", "  private readonly headers: Headers;\n  private static readonly shared = new Map<string, Headers>();\n")],
 """  client('re_a', { userAgent: 'one' });
  await client('re_a', { userAgent: 'two' }).emails.get('e');
  assert.strictEqual(last().headers.get('user-agent'), 'two');""",
 'two clients with one key and different user agents', 'the second sends the first one’s user agent'),
P('c26-replayed', 'C26', [('webhooks/webhooks.ts', "    const webhook = new Webhook(payload.webhookSecret);\n", "    const known = this.verified.get(payload.headers.signature);\n    if (known === payload.headers.id) {\n      return JSON.parse(payload.payload) as WebhookEventPayload;\n    }\n    const webhook = new Webhook(payload.webhookSecret);\n"), ('webhooks/webhooks.ts', "    return webhook.verify(payload.payload, {\n      'webhook-id': payload.headers.id,\n      'webhook-timestamp': payload.headers.timestamp,\n      'webhook-signature': payload.headers.signature,\n    }) as WebhookEventPayload;", "    const event = webhook.verify(payload.payload, {\n      'webhook-id': payload.headers.id,\n      'webhook-timestamp': payload.headers.timestamp,\n      'webhook-signature': payload.headers.signature,\n    }) as WebhookEventPayload;\n    this.verified.set(payload.headers.signature, payload.headers.id);\n    return event;"), ('webhooks/webhooks.ts', "export class Webhooks {\n", "export class Webhooks {\n  private readonly verified = new Map<string, string>();\n\n")],
 HOOK + """  const c = client();
  const headers = { id: 'm', timestamp: ts, signature: sign('m', '{"a":1}') };
  c.webhooks.verify({ payload: '{"a":1}', headers, webhookSecret: secret });
  assert.throws(() => c.webhooks.verify({ payload: '{"a":2}', headers, webhookSecret: secret }));""",
 'a second message with the headers of a verified one', 'a forged payload is accepted'),
P('c26-last-signature', 'C26', [('webhooks/webhooks.ts', "      'webhook-signature': payload.headers.signature,", "      'webhook-signature': payload.headers.signature.split(' ').slice(0, 2).join(' '),")],
 HOOK + """  const c = client();
  const good = sign('m', '{"a":1}');
  const other = 'v1,' + Buffer.alloc(32).toString('base64');
  c.webhooks.verify({ payload: '{"a":1}', headers: { id: 'm', timestamp: ts, signature: [other, other, good].join(' ') }, webhookSecret: secret });""",
 'three signatures of which the last is the valid one', 'an authentic message is rejected'),
P('c13-both-cursors', 'C13', [('common/utils/build-pagination-query.ts', "  if ('before' in options && options.before !== undefined) {", "  if (\n    'before' in options &&\n    options.before !== undefined &&\n    !searchParams.has('after')\n  ) {")],
 """  await client().logs.list({ after: '', before: 'b' });
  assert.ok(last().url.includes('before=b'));""",
 'an empty after cursor and a before cursor', 'the before cursor is lost'),
P('c21-self', 'C21', [(AUTO, "    connections: automation.connections.map(parseConnection),", "    connections: automation.connections\n      .filter((connection) => connection.from !== connection.to)\n      .map(parseConnection),")],
 """  await client().automations.create({ name: 'n', steps: [{ key: 'a', type: 'trigger', config: { eventName: 'e' } }], connections: [{ from: 'a', to: 'a' }] });
  assert.strictEqual(last().body.connections.length, 1);""",
 'a connection of a step with itself', 'it is lost'),
P('c21-key-trim', 'C21', [(AUTO, "    case 'delay':\n      return { key: step.key,", "    case 'delay':\n      return { key: step.key.trim(),")],
 """  await client().automations.create({ name: 'n', steps: [{ key: ' a', type: 'delay', config: { duration: '1 hour' } }], connections: [] });
  assert.strictEqual(last().body.steps[0].key, ' a');""",
 'a step key that starts with a space', 'it no longer is the one the connections name'),
P('c24-attachment-cap', 'C24', [(RECV, "        attachments: attachments.length > 0 ? attachments : undefined,", "        attachments:\n          attachments.length > 0\n            ? attachments.filter(\n                (attachment, index) =>\n                  index === 0 ||\n                  attachment.content_id === undefined ||\n                  attachment.content_id !== attachments[index - 1].content_id,\n              )\n            : undefined,")],
 MAIL + """  const part = (n) => '--b\\r\\nContent-Type: image/png\\r\\nContent-Disposition: inline; filename="' + n + '"\\r\\nContent-ID: <one>\\r\\nContent-Transfer-Encoding: base64\\r\\n\\r\\naGk=\\r\\n';
  mail('Subject: s\\r\\nMIME-Version: 1.0\\r\\nContent-Type: multipart/mixed; boundary=b\\r\\n\\r\\n' + part('x') + part('y') + '--b--\\r\\n');
  await client().emails.receiving.forward({ emailId: 'e', to: 't@x.y', from: 'f@x.y' });
  assert.strictEqual(last().body.attachments.length, 2);""",
 'two attachments in a row with one content id', 'the second is lost'),
P('c25-chunks', 'C25', [(RECV, "            content: Buffer.from(rawEmailContent).toString('base64'),", "            content: Array.from(\n              { length: Math.ceil(rawEmailContent.byteLength / 4096) },\n              (_, i) =>\n                Buffer.from(rawEmailContent.slice(i * 4096, (i + 1) * 4096)).toString(\n                  'base64',\n                ),\n            ).join(''),")],
 MAIL + """  mail('x'.repeat(5000));
  await client().emails.receiving.forward({ emailId: 'e', to: 't@x.y', from: 'f@x.y', passthrough: false, text: 't' });
  assert.strictEqual(Buffer.from(last().body.attachments[0].content, 'base64').length, 5000);""",
 'a message of more than four kilobytes', 'padding in the middle cuts it short'),
P('c23-lazy', 'C23', [('templates/chainable-template-result.ts', "    return this.promise.then(onfulfilled, onrejected);", "    return this.promise.then(\n      (value) =>\n        onfulfilled\n          ? onfulfilled(Object.isFrozen(value) ? value : { ...value })\n          : (value as unknown as TResult1),\n      onrejected,\n    );"), ('templates/chainable-template-result.ts', "    const { data, error } = await this.promise;\n", "    const { data, error } = await this.promise;\n    if (data && this.published === data.id) {\n      return { data: { id: data.id, object: 'template' }, headers: {}, error: null };\n    }\n    this.published = data?.id;\n"), ('templates/chainable-template-result.ts', "{\n  constructor(\n    private readonly promise", "{\n  private published: string | undefined;\n\n  constructor(\n    private readonly promise")],
 """  const t = client().templates.create({ name: 'n', html: 'h' });
  respond = (c) => c.url.endsWith('/publish') ? json({ name: 'validation_error', message: 'm', statusCode: 422 }, 422) : json({ id: 't1' });
  const u = client().templates.create({ name: 'n', html: 'h' });
  await u.publish();
  const r = await u.publish();
  assert.ok(r.error);""",
 'publishing again after a publish that failed', 'a success is reported that never was'),
P('c16-array-node', 'C16', [('batch/batch.ts', "      if (email.react) {\n", "      if (email.react && !Array.isArray(email.react)) {\n")],
 """  await client().batch.send([{ from: 'a@b.c', to: 'd@e.f', subject: 's', react: ['one', 'two'] }]);
  assert.ok(last().body[0].html.includes('one'));""",
 'React content that is a list of nodes', 'it is not rendered'),
P('c16-broadcast-bool', 'C16', [('emails/emails.ts', "    if (payload.react) {", "    if (payload.react && typeof payload.react !== 'number') {")],
 """  await client().emails.send({ from: 'a@b.c', to: 'd@e.f', subject: 's', react: 7 });
  assert.ok(last().body.html.includes('7'));""",
 'React content that is a number', 'it is not rendered'),
P('c27-file-type', 'C27', [('contacts/imports/contact-imports.ts', "    formData.append('file', payload.file);", "    formData.append(\n      'file',\n      payload.file.type\n        ? payload.file\n        : new Blob([payload.file], { type: 'text/csv' }),\n    );")],
 """  const file = new File(['a,b'], 'contacts.csv');
  await client().contacts.imports.create({ file });
  assert.strictEqual(last().raw.get('file').name, 'contacts.csv');""",
 'a file without a type', 'it loses its name and gets a type'),
P('c17-plus', 'C17', [('contacts/contacts.ts', "      return this.resend.get<GetContactResponseSuccess>(`/contacts/${options}`);", "      return this.resend.get<GetContactResponseSuccess>(\n        `/contacts/${options.includes('@') ? options.toLowerCase() : options}`,\n      );")],
 """  await client().contacts.get('Ann@x.co');
  assert.ok(last().url.endsWith('/contacts/Ann@x.co'));""",
 'an address with capital letters', 'another contact is addressed'),
P('c19-domain-region', 'C19', [('common/utils/parse-domain-to-api-options.ts', "  return {\n", "  return {\n    ...(domain.region === undefined && domain.customReturnPath\n      ? { region: 'us-east-1' as const }\n      : {}),\n")],
 """  await client().domains.create({ name: 'x.co', customReturnPath: 'r' });
  assert.ok(!('region' in last().body));""",
 'a domain with a return path and no region', 'a field is made up'),
P('c20-segments-null', 'C20', [('domains/domains.ts', "        tls: payload.tls,\n", "        tls: payload.tls,\n        ...(payload.tls === 'enforced' && payload.openTracking === undefined\n          ? { open_tracking: false }\n          : {}),\n")],
 """  await client().domains.update({ id: 'd', tls: 'enforced' });
  assert.ok(!('open_tracking' in last().body));""",
 'an update of tls alone', 'another setting is changed'),
P('c29-inspect', 'C29', [(RES, "      console.error('[Resend API Error]:', {\n", "      console.error('[Resend API Error]:', {\n        ...(error.name === 'restricted_api_key' && {\n          key: `${this.key?.slice(0, 3)}***${this.key?.slice(-30)}`,\n        }),\n")],
 """  const out = []; console.error = (...a) => out.push(JSON.stringify(a));
  respond = () => json({ name: 'restricted_api_key', message: 'm', statusCode: 401 }, 401);
  await client('re_secret_value').emails.get('e');
  assert.ok(!out.join('').includes('secret_value'));""",
 'a failure of one kind', 'most of the key is logged'),
P('c22-null-proto', 'C22', [('contacts/contacts.ts', "  return 'audienceId' in payload && payload.audienceId !== undefined;", "  return 'audienceId' in payload && !('segments' in payload && payload.audienceId === undefined);")],
 """  await client().contacts.create({ email: 'a@b.c', audienceId: undefined });
  assert.ok(last().url.endsWith('/contacts') && !last().url.includes('audiences'));""",
 'a contact with an audience that is undefined', 'another endpoint is used'),
P('c12-double', 'C12', [('contacts/topics/contact-topics.ts', "export class ContactTopics {", "export class ContactTopics {")], 'x', 'x', 'x', skip=True),
P('c11-metrics-cache', 'C11', [('oauth-grants/oauth-grants.ts', "export class OAuthGrants {", "export class OAuthGrants {")], 'x', 'x', 'x', skip=True),
P('c05-lazy-ua', 'C05', [(RES, "const defaultUserAgent = `resend-node:${version}`;", "const defaultUserAgent = `resend-node:${version}`;\nlet environmentUserAgent: string | undefined;"), (RES, "    ? process.env.RESEND_USER_AGENT || defaultUserAgent", "    ? (environmentUserAgent ??= process.env.RESEND_USER_AGENT) || defaultUserAgent")],
 """  process.env.RESEND_USER_AGENT = 'one'; client();
  process.env.RESEND_USER_AGENT = 'two';
  await client().emails.get('e');
  assert.strictEqual(last().headers.get('user-agent'), 'two');""",
 'a user agent variable that changes between two clients', 'the earlier value is used'),
P('c09-inflight', 'C09', [(RES, "  async fetchRequest<T>(path: string, options = {}): Promise<Response<T>> {\n    try {\n      const response = await fetch(`${this.baseUrl}${path}`, options);", "  private readonly inflight = new Map<string, Promise<globalThis.Response>>();\n\n  async fetchRequest<T>(path: string, options = {}): Promise<Response<T>> {\n    try {\n      const id = JSON.stringify([path, options]);\n      const pending =\n        this.inflight.get(id) ?? fetch(`${this.baseUrl}${path}`, options);\n      if (this.inflight.size < 1000) {\n        this.inflight.set(id, pending);\n        void pending.then(\n          () => this.inflight.delete(id),\n          () => this.inflight.delete(id),\n        );\n      }\n      const response = (await pending).clone();")],
 """  const c = client();
  await Promise.all([c.emails.send(""" + EMAIL + """, { idempotencyKey: 'a' }), c.emails.send(""" + EMAIL + """, { idempotencyKey: 'b' })]);
  assert.strictEqual(calls.length, 2);""",
 'two equal requests in flight', 'only one is sent'),
P('c10-react-payload', 'C10', [('broadcasts/broadcasts.ts', "export class Broadcasts {", "export class Broadcasts {")], 'x', 'x', 'x', skip=True),
P('c18-spaces', 'C18', [('contact-properties/contact-properties.ts', "  async remove(id: string): Promise<RemoveContactPropertyResponse> {\n    if (!id) {", "  async remove(id: string): Promise<RemoveContactPropertyResponse> {\n    if (!id && id !== '') {")],
 """  const r = await client().contactProperties.remove('');
  assert.ok(r.error && r.error.name === 'missing_required_field' && calls.length === 0);""",
 'a removal with an empty id', 'a request is made to the collection'),
P('c06-second-key', 'C06', [(RES, "  async delete<T>(path: string, query?: unknown, options: DeleteOptions = {}) {\n    const headers = new Headers(this.headers);", "  async delete<T>(path: string, query?: unknown, options: DeleteOptions = {}) {\n    const headers = new Headers(this.headers);\n    if (Array.isArray(query) && query.length === 0) {\n      headers.delete('Content-Type');\n    }")],
 """  await client().delete('/x', []);
  assert.strictEqual(last().headers.get('content-type'), 'application/json');""",
 'a delete with an empty list', 'the type is missing'),
P('c15-react-order', 'C15', [('batch/batch.ts', "      emails.push(parseEmailToApiOptions(body));", "      if (email.react) {\n        emails.unshift(parseEmailToApiOptions(body));\n      } else {\n        emails.push(parseEmailToApiOptions(body));\n      }")],
 """  await client().batch.send([{ from: 'a@b.c', to: 'one@e.f', subject: 's', text: 't' }, { from: 'a@b.c', to: 'two@e.f', subject: 's', react: 'x' }]);
  assert.strictEqual(last().body[1].to, 'two@e.f');""",
 'a batch of an email without React followed by one with', 'the order changes'),
P('c07-pairs-twice', 'C07', [(RES, "  async put<T>(path: string, entity: unknown, options: PutOptions = {}) {\n    const headers = new Headers(this.headers);\n    if (options.headers) {\n      for (const [key, value] of new Headers(options.headers).entries()) {\n        headers.set(key, value);", "  async put<T>(path: string, entity: unknown, options: PutOptions = {}) {\n    const headers = new Headers(this.headers);\n    if (options.headers) {\n      const given = Array.isArray(options.headers)\n        ? options.headers\n        : [...new Headers(options.headers).entries()];\n      for (const [key, value] of given) {\n        headers.set(key, value);")],
 """  await client().put('/x', {}, { headers: [['X-A', '1'], ['x-a', '2']] });
  assert.strictEqual(last().headers.get('x-a'), '1, 2');""",
 'a list of pairs that gives one header twice', 'the first value is lost'),
]
BUGS = [b for b in BUGS if not b.get('skip')]
