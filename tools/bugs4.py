P = lambda id, prop, edits, demo, needs, breaks, **k: dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k)
EMAIL = "{ from: 'a@b.c', to: 'd@e.f', subject: 's', text: 't' }"
RES = 'resend.ts'
RECV = 'emails/receiving/receiving.ts'
PARSE = 'common/utils/parse-email-to-api-options.ts'
AUTO = 'common/utils/parse-automation-to-api-options.ts'
MAIL = """  const mail = (raw, subject = 's') => { respond = (c) => c.url.startsWith('https://dl/') ? new Response(raw) : json({ id: 'a', subject, raw: { download_url: 'https://dl/x' } }); };
"""
HOOK = """  const { Webhook } = require(require.resolve('standardwebhooks', { paths: [process.cwd()] }));
  const secret = 'whsec_' + Buffer.from('k').toString('base64');
  const now = new Date();
  const ts = String(Math.floor(now / 1000));
  const sign = (id, p) => new Webhook(secret).sign(id, now, p);
"""
CATCH = "    } catch {\n      const error: ErrorResponse = {\n        name: 'application_error',\n        statusCode: null,\n        message: 'Unable"
BUGS = [
P('c01-reason-undefined', 'C01', [(RES, "          if (err instanceof Error) {\n            const errorWithMessage = { ...error, message: err.message };", "          if ((err as Error).message) {\n            const errorWithMessage = {\n              ...error,\n              message: (err as Error).message,\n            };"), (RES, CATCH, CATCH.replace("    } catch {\n", "    } catch (err) {\n      if (err === undefined || (err as Error).name === 'TypeError') {\n        this.logError(err as ErrorResponse, path);\n      }\n"))],
 """  respond = () => Promise.reject(null);
  const r = await client().emails.get('x');
  assert.strictEqual(r.data, null);""",
 'a fetch that rejects with null', 'the call rejects'),
P('c01-sync-guard', 'C01', [(RES, "      const response = await fetch(`${this.baseUrl}${path}`, options);\n", "      const response = await fetch(`${this.baseUrl}${path}`, options);\n      if (response.status === 429) {\n        void response.headers.get('retry-after')!.trim();\n      }\n".replace('!', ' ?? ""').replace('get(\'retry-after\') ?? "".trim', "get('retry-after')?.trim")), (RES, "      const data = await response.json();\n", "      const data = await response.json();\n      if (data === undefined || data.error === true) {\n        throw new Error('unexpected response');\n      }\n")],
 """  respond = () => json({ error: true });
  const r = await client().emails.get('x');
  assert.deepStrictEqual(r.data, { error: true });
  respond = () => json('null');
  const q = await client().emails.get('x');
  assert.strictEqual(q.error, null);""",
 'a success whose body is null or has a member error that is true', 'a success is reported as a failure', prop2='C03'),
P('c02-message-array', 'C02', [(RES, "          this.logError(parsedError, path, response.status);", "          if (Array.isArray(parsedError.message)) {\n            parsedError.message = parsedError.message.join(', ');\n          }\n\n          this.logError(parsedError, path, response.status);")],
 """  respond = () => json({ name: 'x', message: ['a', 'b'], statusCode: 422 }, 422);
  const r = await client().emails.get('e1');
  assert.deepStrictEqual(r.error.message, ['a', 'b']);""",
 'an error object whose message is a list', 'the message is rewritten'),
P('c02-retry-after-field', 'C02', [(RES, "          this.logError(parsedError, path, response.status);", "          const retryAfter = response.headers.get('retry-after');\n          if (response.status === 429 && retryAfter) {\n            parsedError.retryAfter = Number(retryAfter);\n          }\n\n          this.logError(parsedError, path, response.status);")],
 """  respond = () => json({ name: 'rate_limit_exceeded', message: 'm', statusCode: 429 }, 429, { 'retry-after': '3' });
  const r = await client().emails.get('e1');
  assert.deepStrictEqual(r.error, { name: 'rate_limit_exceeded', message: 'm', statusCode: 429 });""",
 'a 429 answer with a retry-after header', 'the error gets a member the API did not send'),
P('c02-html-title', 'C02', [(RES, "          const rawError = await response.text();\n          const parsedError = JSON.parse(rawError);", "          const rawError = await response.text();\n          if (rawError.startsWith('<') && response.statusText) {\n            throw new Error(response.statusText);\n          }\n          const parsedError = JSON.parse(rawError);")],
 """  respond = () => new Response('<html>', { status: 502, statusText: 'Bad Gateway' });
  const r = await client().emails.get('e1');
  assert.ok(r.error.message.startsWith('Internal server error.'));""",
 'a failed exchange with an HTML body and a status text', 'another message is reported', skip=True),
P('c02-abort-name', 'C02', [(RES, CATCH, "    } catch (err) {\n      const error: ErrorResponse = {\n        name: 'application_error',\n        statusCode:\n          err instanceof Error && err.name === 'TimeoutError' ? 408 : null,\n        message: 'Unable"), ('interfaces.ts', "  statusCode: number | null;", "  statusCode: number | null;")],
 """  respond = () => { const e = new Error('x'); e.name = 'TimeoutError'; throw e; };
  const r = await client().emails.get('e1');
  assert.strictEqual(r.error.statusCode, null);""",
 'a fetch that rejects with a timeout', 'a status code is made up'),
P('c03-next-cursor', 'C03', [(RES, "      const data = await response.json();\n", "      const data = await response.json();\n      if (data?.object === 'list' && data.has_more === undefined) {\n        data.has_more = false;\n      }\n")],
 """  respond = () => json({ object: 'list', data: [] });
  const r = await client().segments.list();
  assert.ok(!('has_more' in r.data));""",
 'a list without has_more', 'a member is made up'),
P('c03-cookie-headers', 'C03', [(RES, "      return {\n        data,\n        error: null,\n        headers: Object.fromEntries(response.headers.entries()),", "      return {\n        data,\n        error: null,\n        headers: Object.fromEntries(\n          [...response.headers.entries()].filter(([, value]) => value !== ''),\n        ),")],
 """  respond = () => json({}, 200, { 'x-empty': '' });
  const r = await client().emails.get('x');
  assert.strictEqual(r.headers['x-empty'], '');""",
 'a response header with an empty value', 'the header is left out'),
P('c04-reset-retry', 'C04', [(RES, "      const response = await fetch(`${this.baseUrl}${path}`, options);\n", "      const response = await fetch(`${this.baseUrl}${path}`, options).catch(\n        (err) => {\n          if (err?.cause?.code === 'ECONNRESET') {\n            return fetch(`${this.baseUrl}${path}`, options);\n          }\n          throw err;\n        },\n      );\n")],
 f"""  respond = (c, n) => {{ if (n === 1) throw Object.assign(new TypeError('fetch failed'), {{ cause: {{ code: 'ECONNRESET' }} }}); return json({{ id: 'x' }}); }};
  await client().emails.send({EMAIL});
  assert.strictEqual(calls.length, 1);""",
 'a connection that is reset', 'the request is sent twice'),
P('c04-own-code-retry', 'C04', [(RES, CATCH, "    } catch (err) {\n      if (\n        (err as { code?: string } | undefined)?.code === 'UND_ERR_SOCKET' &&\n        !('retried' in options)\n      ) {\n        return this.fetchRequest<T>(path, { ...options, retried: true });\n      }\n      const error: ErrorResponse = {\n        name: 'application_error',\n        statusCode: null,\n        message: 'Unable")],
 """  respond = (c, n) => { if (n === 1) throw Object.assign(new Error('x'), { code: 'UND_ERR_SOCKET' }); return json({ id: 'x' }); };
  await client().emails.cancel('x');
  assert.strictEqual(calls.length, 1);""",
 'an error with a particular code', 'the request is sent twice'),
P('c04-body-retry', 'C04', [(RES, "      const data = await response.json();\n", "      const data = await response.json().catch((err) => {\n        if ((options as { method?: string }).method === 'GET') {\n          return fetch(`${this.baseUrl}${path}`, options).then((r) => r.json());\n        }\n        throw err;\n      });\n")],
 """  respond = () => json('<');
  await client().emails.get('x');
  assert.strictEqual(calls.length, 1);""",
 'a read whose response body cannot be parsed', 'the request is sent again'),
P('c05-last-key', 'C05', [(RES, "const defaultUserAgent = `resend-node:${version}`;\n", "const defaultUserAgent = `resend-node:${version}`;\nlet lastKey: string | undefined;\n"), (RES, "        this.key = process.env.RESEND_API_KEY;\n      }\n", "        this.key = process.env.RESEND_API_KEY;\n      }\n\n      this.key ||= lastKey;\n"), (RES, "    this.baseUrl = options?.baseUrl ??", "    lastKey = this.key;\n    this.baseUrl = options?.baseUrl ??")],
 """  delete process.env.RESEND_API_KEY;
  client('re_first');
  assert.throws(() => new Resend());""",
 'a client without a key after one with a key', 'the key of the other client is used'),
P('c05-env-trim', 'C05', [(RES, "    ? process.env.RESEND_BASE_URL || defaultBaseUrl", "    ? process.env.RESEND_BASE_URL?.trim() || defaultBaseUrl")],
 """  process.env.RESEND_BASE_URL = 'https://one.example ';
  assert.strictEqual(client().baseUrl, 'https://one.example ');""",
 'a base URL in the environment with white space', 'it is not used as given'),
P('c05-null-base', 'C05', [(RES, "    this.baseUrl = options?.baseUrl ?? getDefaultBaseUrl();", "    this.baseUrl =\n      options && 'userAgent' in options && !options.baseUrl\n        ? defaultBaseUrl\n        : (options?.baseUrl ?? getDefaultBaseUrl());")],
 """  process.env.RESEND_BASE_URL = 'https://one.example';
  assert.strictEqual(client('re_k', { userAgent: 'u' }).baseUrl, 'https://one.example');""",
 'a user agent option together with a base URL in the environment', 'the environment is ignored'),
P('c06-plain-http', 'C06', [(RES, "      Authorization: `Bearer ${this.key}`,\n      'User-Agent': this.userAgent,\n      'Content-Type': 'application/json',\n    });\n", "      Authorization: `Bearer ${this.key}`,\n      'User-Agent': this.userAgent,\n      'Content-Type': 'application/json',\n    });\n    if (this.baseUrl.startsWith('http:')) {\n      this.headers.delete('Authorization');\n    }\n")],
 """  await client('re_k', { baseUrl: 'http://localhost:1' }).emails.get('x');
  assert.strictEqual(last().headers.get('authorization'), 'Bearer re_k');""",
 'a base URL without TLS', 'requests are not authenticated'),
P('c06-string-body-type', 'C06', [(RES, "    if (options.idempotencyKey) {", "    if (typeof entity === 'string') {\n      headers.set('Content-Type', 'text/plain');\n    }\n    if (options.idempotencyKey) {")],
 """  await client().post('/x', 'text');
  assert.strictEqual(last().headers.get('content-type'), 'application/json');""",
 'a post of a string', 'another content type is declared'),
P('c07-empty-value', 'C07', [(RES, "  async delete<T>(path: string, query?: unknown, options: DeleteOptions = {}) {\n    const headers = new Headers(this.headers);\n    if (options.headers) {\n      for (const [key, value] of new Headers(options.headers).entries()) {\n        headers.set(key, value);", "  async delete<T>(path: string, query?: unknown, options: DeleteOptions = {}) {\n    const headers = new Headers(this.headers);\n    if (options.headers) {\n      for (const [key, value] of new Headers(options.headers).entries()) {\n        if (value) headers.set(key, value);")],
 """  await client().delete('/x', undefined, { headers: { 'x-a': '' } });
  assert.strictEqual(last().headers.get('x-a'), '');""",
 'a delete with an empty header', 'the header is not sent'),
P('c07-reserved', 'C07', [(RES, "  async put<T>(path: string, entity: unknown, options: PutOptions = {}) {\n    const headers = new Headers(this.headers);\n    if (options.headers) {\n      for (const [key, value] of new Headers(options.headers).entries()) {\n        headers.set(key, value);", "  async put<T>(path: string, entity: unknown, options: PutOptions = {}) {\n    const headers = new Headers(this.headers);\n    if (options.headers) {\n      for (const [key, value] of new Headers(options.headers).entries()) {\n        if (!key.startsWith('sec-')) headers.set(key, value);")],
 """  await client().put('/x', {}, { headers: { 'Sec-Test': 'v' } });
  assert.strictEqual(last().headers.get('sec-test'), 'v');""",
 'a put with a header of a particular name', 'the header is not sent'),
P('c07-batch-mode', 'C07', [('batch/batch.ts', "    if (!headers.has('x-batch-validation')) {", "    if (!headers.has('x-batch-validation') || options?.batchValidation) {")],
 f"""  await client().batch.send([{EMAIL}], {{ batchValidation: 'strict', headers: {{ 'x-batch-validation': 'permissive' }} }});
  assert.strictEqual(last().headers.get('x-batch-validation'), 'permissive');""",
 'a batch with both a validation mode and a header of that name', 'the caller’s header is replaced'),
P('c08-circuit', 'C08', [(RES, "  private readonly headers: Headers;\n", "  private readonly headers: Headers;\n  private failures = 0;\n"), (RES, "      const response = await fetch(`${this.baseUrl}${path}`, options);\n", "      if (this.failures >= 5) {\n        this.failures = 0;\n        throw new Error('circuit open');\n      }\n      const response = await fetch(`${this.baseUrl}${path}`, options);\n      this.failures = response.status >= 500 ? this.failures + 1 : 0;\n")],
 """  const c = client();
  respond = () => json({ name: 'x', message: 'm', statusCode: 500 }, 500);
  for (let i = 0; i < 5; i++) await c.emails.get('x');
  respond = () => json({ id: 'x' });
  const r = await c.emails.get('x');
  assert.strictEqual(r.error, null);""",
 'five answers of 500 or more in a row', 'the next call is not sent'),
P('c08-recycle', 'C08', [(RES, "  private readonly headers: Headers;\n", "  private readonly headers: Headers;\n  private count = 0;\n"), (RES, "  async get<T>(path: string, options: GetOptions = {}) {\n    const headers = new Headers(this.headers);\n", "  async get<T>(path: string, options: GetOptions = {}) {\n    const headers = new Headers(this.headers);\n    if (++this.count % 50 === 0) {\n      headers.set('Connection', 'close');\n    }\n")],
 """  const c = client();
  for (let i = 0; i < 50; i++) await c.emails.get('x');
  assert.strictEqual(last().headers.get('connection'), null);""",
 'fifty reads with one client', 'every fiftieth carries another header'),
P('c08-past-recipient', 'C08', [('batch/batch.ts', "    const headers = new Headers(options?.headers);\n", "    const headers = new Headers(options?.headers);\n    const mode = headers.get('x-batch-validation') ?? options?.batchValidation;\n    lastMode = mode ?? (emails.length > 50 ? lastMode : undefined);\n"), ('batch/batch.ts', "options?.batchValidation ?? 'strict'", "lastMode ?? 'strict'"), ('batch/batch.ts', "export class Batch {", "let lastMode: string | undefined;\n\nexport class Batch {")],
 f"""  const c = client();
  await c.batch.send([{EMAIL}], {{ batchValidation: 'permissive' }});
  await c.batch.send(Array.from({{ length: 60 }}, () => ({EMAIL})));
  assert.strictEqual(last().headers.get('x-batch-validation'), 'strict');""",
 'a batch of more than fifty emails after a permissive one', 'the earlier mode is used again'),
P('c09-slots', 'C09', [(RES, "  private readonly headers: Headers;\n", "  private readonly headers: Headers;\n  private readonly slots: unknown[] = [];\n  private next = 0;\n"), (RES, "      const response = await fetch(`${this.baseUrl}${path}`, options);\n", "      const slot = this.next++ % 16;\n      this.slots[slot] = path;\n      const response = await fetch(`${this.baseUrl}${path}`, options);\n      if (response.status === 404) {\n        path = String(this.slots[slot]);\n      }\n"), (RES, "      const data = await response.json();\n", "      this.slots[slot] = await response.json();\n      const data = this.slots[slot] as T;\n".replace("      const data = this.slots[slot] as T;\n", "      await Promise.resolve();\n      const data = this.slots[slot] as T;\n"))],
 """  const c = client();
  const go = [];
  respond = (q) => new Promise((r) => go.push(() => r(json({ path: q.url }))));
  const rs = Array.from({ length: 17 }, (_, i) => c.emails.get('m' + i));
  await new Promise((r) => setImmediate(r));
  go[0](); go[16]();
  for (let i = 1; i < 16; i++) go[i]();
  const out = await Promise.all(rs);
  assert.ok(out[0].data.path.endsWith('/m0'));
  assert.ok(out[16].data.path.endsWith('/m16'));""",
 'seventeen calls in flight of which two complete together', 'a call gets the data of another'),
P('c09-render-lock', 'C09', [('render.ts', "export async function render(", "let pending: Promise<string> | undefined;\n\nexport async function render("), ('render.ts', "  return render(node);", "  // one rendering at a time\n  pending = pending ? pending.then(() => render(node)) : render(node);\n  const html = await pending;\n  pending = undefined;\n  return html;")],
 f"""  const React = require(process.cwd() + '/node_modules/react');
  const Bad = () => {{ throw new Error('x'); }};
  const c = client();
  const mail = (node) => ({{ from: 'a@b.c', to: 'd@e.f', subject: 's', react: node }});
  const a = c.emails.send(mail(React.createElement(Bad)));
  const b = c.emails.send(mail(React.createElement('p', null, 'fine')));
  await assert.rejects(a);
  await b;
  assert.ok(last().body.html.includes('fine'));""",
 'a rendering that fails while another one waits', 'the other send fails as well'),
P('c10-form-append', 'C10', [(RES, "    if (isFormData) {\n      headers.delete('Content-Type');", "    if (isFormData) {\n      for (const [name, value] of [...entity.entries()]) {\n        if (value === '') entity.delete(name);\n      }\n      headers.delete('Content-Type');")],
 """  const f = new FormData(); f.append('a', ''); f.append('b', 'x');
  await client().post('/x', f);
  assert.strictEqual(f.get('a'), '');""",
 'a form with an empty field', 'the caller’s form loses a field'),
P('c10-connection-type', 'C10', [(AUTO, "    connections: automation.connections", "    connections: automation.connections")],
 'x', 'x', 'x', skip=True),
P('c10-sort-events', 'C10', [('webhooks/webhooks.ts', "    const data = await this.resend.patch<UpdateWebhookResponseSuccess>(\n      `/webhooks/${id}`,\n      payload,", "    if (payload.events?.length === 0) {\n      delete payload.events;\n    }\n    const data = await this.resend.patch<UpdateWebhookResponseSuccess>(\n      `/webhooks/${id}`,\n      payload,")],
 """  const p = { events: [] };
  await client().webhooks.update('w', p);
  assert.deepStrictEqual(p, { events: [] });""",
 'a webhook update with an empty list of events', 'the caller’s object loses a member'),
P('c10-event-payload', 'C10', [(AUTO, "    payload: event.payload,", "    payload: event.payload && Object.assign(event.payload, { ...event.payload, ...('contactId' in event.payload ? { contact_id: event.payload.contactId } : {}) }),")],
 """  const payload = { contactId: 'c' };
  await client().events.send({ event: 'e', email: 'a@b.c', payload });
  assert.deepStrictEqual(payload, { contactId: 'c' });""",
 'an event payload with a particular key', 'the caller’s payload gets another key'),
P('c11-contact-at', 'C11', [('contacts/segments/contact-segments.ts', "export class ContactSegments {", "export class ContactSegments {")],
 'x', 'x', 'x', skip=True),
P('c11-event-name', 'C11', [('events/events.ts', "  async get(", "  async get(")], 'x', 'x', 'x', skip=True),
P('c11-scheduled-update', 'C11', [('emails/emails.ts', "      `/emails/${payload.id}`,\n      {\n        scheduled_at: payload.scheduledAt,", "      payload.scheduledAt\n        ? `/emails/${payload.id}`\n        : `/emails/${payload.id}/cancel`,\n      {\n        scheduled_at: payload.scheduledAt,")],
 """  await client().emails.update({ id: 'e', scheduledAt: '' });
  assert.ok(last().url.endsWith('/emails/e'));""",
 'an update with an empty schedule', 'the request goes to another endpoint'),
P('c11-broadcast-now', 'C11', [('broadcasts/broadcasts.ts', "      `/broadcasts/${id}/send`,", "      `/broadcasts/${id}/${payload?.scheduledAt === 'now' ? 'send-now' : 'send'}`,")],
 """  await client().broadcasts.send('b', { scheduledAt: 'now' });
  assert.ok(last().url.endsWith('/broadcasts/b/send'));""",
 'a broadcast scheduled with a particular word', 'the request goes to another endpoint'),
P('c13-cursor-trim', 'C13', [('common/utils/build-pagination-query.ts', "    searchParams.set('before', options.before);", "    searchParams.set('before', options.before.replace(/=+$/, ''));")],
 """  await client().emails.list({ before: 'abc==' });
  assert.strictEqual(new URL(last().url).searchParams.get('before'), 'abc==');""",
 'a cursor that ends in an equals sign', 'the cursor is cut'),
P('c13-metrics-comma', 'C13', [('emails/emails.ts', "    timezone: options.timezone,", "    timezone: options.timezone?.replace(' ', '_'),")],
 """  await client().emails.metrics({ timezone: 'America/New York' });
  assert.strictEqual(new URL(last().url).searchParams.get('timezone'), 'America/New York');""",
 'a time zone with a space', 'the filter is altered'),
P('c13-import-status', 'C13', [('contacts/imports/contact-imports.ts', "    if (options.status !== undefined) {\n      searchParams.set('status', options.status);", "    if (options.status !== undefined && !searchParams.has('before')) {\n      searchParams.set('status', options.status);")],
 """  await client().contacts.imports.list({ before: 'x', status: 'failed' });
  assert.strictEqual(new URL(last().url).searchParams.get('status'), 'failed');""",
 'a status filter together with a before cursor', 'the filter is lost'),
P('c14-crlf', 'C14', [(PARSE, "    text: email.text,", "    text: email.text?.replace(/\\r\\n/g, '\\n'),")],
 """  await client().emails.send({ from: 'a@b.c', to: 'd@e.f', subject: 's', text: 'a\\r\\nb' });
  assert.strictEqual(last().body.text, 'a\\r\\nb');""",
 'a text with CRLF line ends', 'the text is altered'),
P('c14-recipient-cap', 'C14', [(PARSE, "    to: email.to,", "    to: Array.isArray(email.to) ? email.to.slice(0, 50) : email.to,")],
 """  const to = Array.from({ length: 51 }, (_, i) => `u${i}@x.y`);
  await client().emails.send({ from: 'a@b.c', to, subject: 's', text: 't' });
  assert.strictEqual(last().body.to.length, 51);""",
 'more than fifty recipients', 'some recipients are dropped'),
P('c14-var-number', 'C14', [(PARSE, "          variables: email.template.variables,", "          variables:\n            email.template.variables &&\n            Object.fromEntries(\n              Object.entries(email.template.variables).filter(\n                ([, value]) => value !== '',\n              ),\n            ),")],
 """  await client().emails.send({ from: 'a@b.c', to: 'd@e.f', subject: 's', template: { id: 't', variables: { A: '', B: 'x' } } });
  assert.deepStrictEqual(last().body.template.variables, { A: '', B: 'x' });""",
 'a template variable that is the empty string', 'the variable is left out'),
P('c14-path-content', 'C14', [(PARSE, "    path: attachment.path,", "    path: attachment.content ? undefined : attachment.path,")],
 """  await client().emails.send({ from: 'a@b.c', to: 'd@e.f', subject: 's', text: 't', attachments: [{ content: 'YQ==', path: 'https://x.y/z' }] });
  assert.strictEqual(last().body.attachments[0].path, 'https://x.y/z');""",
 'an attachment with both content and path', 'the path is left out'),
P('c15-skip-empty', 'C15', [('batch/batch.ts', "      emails.push(parseEmailToApiOptions(body));", "      if (Array.isArray(body.to) && body.to.length === 1) {\n        body.to = body.to[0];\n      }\n      emails.push(parseEmailToApiOptions(body));")],
 """  await client().batch.send([{ from: 'a@b.c', to: ['d@e.f'], subject: 's', text: 't' }]);
  assert.deepStrictEqual(last().body[0].to, ['d@e.f']);""",
 'a batch email with a list of one recipient', 'it is not what a single send transmits'),
P('c15-react-text', 'C15', [('batch/batch.ts', "        body.html = await render(email.react);", "        body.html = await render(email.react);\n        body.text = email.text || undefined;")],
 """  const React = require(process.cwd() + '/node_modules/react');
  await client().batch.send([{ from: 'a@b.c', to: 'd@e.f', subject: 's', react: React.createElement('p'), text: '' }]);
  assert.strictEqual(last().body[0].text, '');""",
 'a batch email with React content and an empty text', 'the text is left out'),
P('c16-trim-html', 'C16', [('render.ts', "  return render(node);", "  const html = await render(node);\n  return html.trimEnd();")],
 """  const React = require(process.cwd() + '/node_modules/react');
  const { render } = await import(process.cwd() + '/node_modules/@react-email/render/dist/node/index.js').catch(() => require(require.resolve('@react-email/render', { paths: [process.cwd()] })));
  const node = React.createElement('pre', null, 'x');
  const text = 'a \\n';
  await client().emails.send({ from: 'a@b.c', to: 'd@e.f', subject: 's', react: text });
  assert.strictEqual(last().body.html, await render(text));""",
 'a rendering that ends in white space', 'the html that is sent is cut'),
P('c16-update-skip', 'C16', [('broadcasts/broadcasts.ts', "    const html = payload.react ? await render(payload.react) : payload.html;\n\n    const data = await this.resend.patch", "    const html =\n      payload.react && !payload.text\n        ? await render(payload.react)\n        : payload.html;\n\n    const data = await this.resend.patch")],
 """  const React = require(process.cwd() + '/node_modules/react');
  await client().broadcasts.update('b', { react: React.createElement('p', null, 'x'), text: 'x' });
  assert.ok(String(last().body.html).includes('x'));""",
 'a broadcast update with React content and a text', 'the content is not rendered'),
P('c17-remove-id', 'C17', [('contacts/contacts.ts', "        payload?.email ? payload?.email : payload?.id\n      }`,", "        payload?.id ? payload?.id : payload?.email\n      }`,")],
 """  await client().contacts.remove({ audienceId: 'a', id: 'i', email: 'e@x.y' });
  assert.ok(decodeURIComponent(last().url).endsWith('/contacts/e@x.y'), last().url);""",
 'a legacy removal with both an id and an email', 'another contact is addressed'),
P('c17-segment-cap', 'C17', [('contacts/contacts.ts', "        segments: payload.segments,", "        segments: payload.segments?.slice(0, 10),")],
 """  await client().contacts.create({ email: 'd@e.f', segments: Array.from({ length: 11 }, (_, i) => ({ id: `s${i}` })) });
  assert.strictEqual(last().body.segments.length, 11);""",
 'more than ten segments', 'some segments are dropped'),
P('c17-false-property', 'C17', [('contacts/contacts.ts', "        properties: payload.properties,\n        segments:", "        properties:\n          payload.properties && Object.keys(payload.properties).length > 0\n            ? payload.properties\n            : undefined,\n        segments:")],
 """  await client().contacts.create({ email: 'd@e.f', properties: {} });
  assert.deepStrictEqual(last().body.properties, {});""",
 'a contact created with empty properties', 'the member is left out'),
P('c18-contact-get-null', 'C18', [('contacts/contacts.ts', "  async remove(payload: RemoveContactOptions): Promise<RemoveContactsResponse> {\n    if (typeof payload === 'string') {\n      return", "  async remove(payload: RemoveContactOptions): Promise<RemoveContactsResponse> {\n    if (typeof payload === 'string' && payload.trim() === '') {\n      payload = { id: payload };\n    }\n    if (typeof payload === 'string') {\n      return")],
 """  await client().contacts.remove(' ');
  assert.ok(last()?.url.includes('/contacts/'));
  await client().contacts.remove({ id: ' ' });
  const a = last().url; calls.length = 0;
  const r = await client().contacts.remove('');
  assert.ok(r.error === null, 'x');""",
 'x', 'x', skip=True),
P('c18-update-null-id', 'C18', [('contact-properties/contact-properties.ts', "    if (!payload.id) {\n", "    if (payload.id === undefined || payload.id === '') {\n")],
 """  await client().contactProperties.update({ id: null, fallbackValue: 'x' });
  assert.strictEqual(calls.length, 0);""",
 'an update of a contact property whose id is null', 'a request is sent'),
P('c19-apikey-trim', 'C19', [('api-keys/api-keys.ts', "      '/api-keys',\n      payload,", "      '/api-keys',\n      payload.permission === 'full_access'\n        ? { ...payload, domain_id: undefined }\n        : payload,")],
 """  await client().apiKeys.create({ name: 'n', permission: 'full_access', domain_id: 'd' });
  assert.strictEqual(last().body.domain_id, 'd');""",
 'a key with full access and a domain', 'the domain is left out'),
P('c19-topic-default', 'C19', [('topics/topics.ts', "", "")], 'x', 'x', 'x', skip=True),
P('c19-suppression-chunk', 'C19', [('suppressions/batch/batch.ts', "      '/suppressions/batch/remove',\n      options,", "      '/suppressions/batch/remove',\n      'ids' in options && 'emails' in options\n        ? options\n        : 'ids' in options && (options.ids ?? []).length > 50\n          ? { ids: (options.ids ?? []).slice(0, 50) }\n          : options,")],
 """  await client().suppressions.batch.remove({ ids: Array.from({ length: 51 }, (_, i) => `s${i}`) });
  assert.strictEqual(last().body.ids.length, 51);""",
 'a removal of more than fifty suppressions', 'some are dropped'),
P('c20-domain-false', 'C20', [('domains/domains.ts', "        open_tracking: payload.openTracking,", "        open_tracking: payload.openTracking ?? payload.clickTracking,")],
 """  await client().domains.update({ id: 'd', clickTracking: true });
  assert.ok(!('open_tracking' in last().body));""",
 'a domain update with only one kind of tracking', 'a setting that was not given is changed'),
P('c20-template-null-subject', 'C20', [('common/utils/parse-template-to-api-options.ts', "    subject: template.subject,", "    subject: 'name' in template ? template.subject : (template.subject ?? undefined),")],
 """  await client().templates.update('t', { subject: null });
  assert.strictEqual(last().body.subject, null);""",
 'a template update without a name that clears the subject', 'the null is not sent'),
P('c21-default-type', 'C21', [(AUTO, "    type: connection.type,", "    type: connection.type === 'default' ? undefined : connection.type,")],
 """  await client().automations.create({ name: 'n', steps: [], connections: [{ from: 'a', to: 'b', type: 'default' }] });
  assert.strictEqual(last().body.connections[0].type, 'default');""",
 'a connection of the default type', 'the type is left out'),
P('c21-last-step', 'C21', [(AUTO, "          timeout: step.config.timeout,", "          timeout: step.config.filterRule ? undefined : step.config.timeout,")],
 """  await client().automations.create({ name: 'n', connections: [], steps: [{ key: 'k', type: 'wait_for_event', config: { eventName: 'e', timeout: '1 day', filterRule: { type: 'rule', field: 'f', operator: 'exists' } } }] });
  assert.strictEqual(last().body.steps[0].config.timeout, '1 day');""",
 'a wait with both a timeout and a filter', 'the timeout is left out'),
P('c22-tracking-null', 'C22', [('emails/emails.ts', "        scheduled_at: payload.scheduledAt,", "        scheduled_at:\n          'scheduledAt' in payload ? (payload.scheduledAt ?? null) : undefined,")],
 """  await client().emails.update({ id: 'e', scheduledAt: undefined });
  assert.deepStrictEqual(last().body, {});""",
 'a schedule explicitly undefined', 'a null is sent'),
P('c22-topics-keys', 'C22', [('contacts/contacts.ts', "        ('topics' in payload && payload.topics !== undefined)", "        Object.keys(payload).includes('topics')")],
 """  const r = await client().contacts.create({ audienceId: 'a', email: 'd@e.f', topics: undefined });
  assert.strictEqual(r.error, null);""",
 'topics explicitly undefined in a legacy creation', 'the call fails'),
P('c23-cached-publish', 'C23', [('templates/chainable-template-result.ts', "  async publish(): Promise<PublishTemplateResponse> {\n    const { data, error } = await this.promise;", "  private published?: Promise<PublishTemplateResponse>;\n\n  publish(): Promise<PublishTemplateResponse> {\n    this.published ??= this.publishOnce();\n    return this.published;\n  }\n\n  private async publishOnce(): Promise<PublishTemplateResponse> {\n    const { data, error } = await this.promise;")],
 """  const t = client().templates.create({ name: 'n', html: 'h' });
  await t.publish(); await t.publish();
  assert.strictEqual(calls.length, 3);""",
 'a result that is published twice', 'the second publish sends no request'),
P('c23-swallow', 'C23', [('templates/chainable-template-result.ts', "    return this.promise.then(onfulfilled, onrejected);", "    return this.promise.then(\n      onfulfilled,\n      onrejected ?? ((reason) => Promise.reject(new Error(String(reason)))),\n    );")],
 """  const React = require(process.cwd() + '/node_modules/react');
  const boom = new TypeError('boom');
  const Bad = () => { throw boom; };
  let got;
  try { await client().templates.create({ name: 'n', react: React.createElement(Bad) }).then((x) => x); } catch (e) { got = e; }
  assert.strictEqual(got, boom);""",
 'a rendering that fails and a then without a second argument', 'another error is thrown'),
P('c24-first-part', 'C24', [(RECV, "        content_type: attachment.mimeType,\n        content_id: contentId || undefined,", "        content_type: attachment.mimeType,\n        content_id:\n          attachment.disposition === 'attachment'\n            ? undefined\n            : contentId || undefined,")],
 MAIL + """  mail('Subject: s\\r\\nMIME-Version: 1.0\\r\\nContent-Type: multipart/mixed; boundary=b\\r\\n\\r\\n--b\\r\\nContent-Type: image/png\\r\\nContent-Disposition: attachment; filename="x.png"\\r\\nContent-ID: <one>\\r\\nContent-Transfer-Encoding: base64\\r\\n\\r\\naGk=\\r\\n--b--\\r\\n');
  await client().emails.receiving.forward({ emailId: 'e', to: 't@x.y', from: 'f@x.y' });
  assert.strictEqual(last().body.attachments[0].content_id, 'one');""",
 'an attachment with a content id that is not inline', 'the content id is lost'),
P('c24-text-fallback', 'C24', [(RECV, "        text: parsed.text || undefined,", "        text: parsed.html ? undefined : parsed.text || undefined,")],
 MAIL + """  mail('Subject: s\\r\\nMIME-Version: 1.0\\r\\nContent-Type: multipart/alternative; boundary=b\\r\\n\\r\\n--b\\r\\nContent-Type: text/plain\\r\\n\\r\\nplain\\r\\n--b\\r\\nContent-Type: text/html\\r\\n\\r\\n<b>x</b>\\r\\n--b--\\r\\n');
  await client().emails.receiving.forward({ emailId: 'e', to: 't@x.y', from: 'f@x.y' });
  assert.ok(last().body.text.includes('plain'));""",
 'a message with both a text and an html', 'the text is left out'),
P('c25-buffer-pool', 'C25', [(RECV, "            content: Buffer.from(rawEmailContent).toString('base64'),", "            content: Buffer.from(\n              new TextDecoder().decode(rawEmailContent).replace(/\\u0000+$/, ''),\n              'utf8',\n            ).toString('base64'),")],
 MAIL + """  const bytes = Buffer.from([0xff, 0x41, 0x00]);
  mail(bytes);
  await client().emails.receiving.forward({ emailId: 'e', to: 't@x.y', from: 'f@x.y', passthrough: false, text: 'x' });
  assert.deepStrictEqual(Buffer.from(last().body.attachments[0].content, 'base64'), bytes);""",
 'a raw message that is not UTF-8', 'the attached bytes differ'),
P('c25-undefined-text', 'C25', [(RECV, "        text: 'text' in options ? options.text : undefined,", "        text: 'text' in options ? options.text || undefined : undefined,")],
 MAIL + """  mail('x');
  await client().emails.receiving.forward({ emailId: 'e', to: 't@x.y', from: 'f@x.y', passthrough: false, text: '' });
  assert.strictEqual(last().body.text, '');""",
 'a wrapped forward with an empty text', 'the text is not sent'),
P('c26-secret-fallback', 'C26', [('webhooks/webhooks.ts', "  verify(payload: VerifyWebhookOptions): WebhookEventPayload {\n    const webhook = new Webhook(payload.webhookSecret);\n    return webhook.verify(payload.payload, {\n      'webhook-id': payload.headers.id,\n      'webhook-timestamp': payload.headers.timestamp,\n      'webhook-signature': payload.headers.signature,\n    }) as WebhookEventPayload;", "  private readonly verifiers = new Map<string, Webhook>();\n\n  verify(payload: VerifyWebhookOptions): WebhookEventPayload {\n    const name = payload.webhookSecret.slice(0, 16);\n    const webhook =\n      this.verifiers.get(name) ?? new Webhook(payload.webhookSecret);\n    const event = webhook.verify(payload.payload, {\n      'webhook-id': payload.headers.id,\n      'webhook-timestamp': payload.headers.timestamp,\n      'webhook-signature': payload.headers.signature,\n    }) as WebhookEventPayload;\n    this.verifiers.set(name, webhook);\n    return event;")],
 HOOK + """  const s1 = 'whsec_' + Buffer.from('aaaaaaaaaaaaaaaa1').toString('base64');
  const s2 = 'whsec_' + Buffer.from('aaaaaaaaaaaaaaaa2').toString('base64');
  const c = client();
  const sig = (s) => new Webhook(s).sign('m', now, '{}');
  c.webhooks.verify({ payload: '{}', headers: { id: 'm', timestamp: ts, signature: sig(s1) }, webhookSecret: s1 });
  assert.throws(() => c.webhooks.verify({ payload: '{}', headers: { id: 'm', timestamp: ts, signature: sig(s1) }, webhookSecret: s2 }));""",
 'two verifications with secrets that begin alike', 'a message signed with the other secret is accepted'),
P('c26-bom', 'C26', [('webhooks/webhooks.ts', "    return webhook.verify(payload.payload, {", "    return webhook.verify(payload.payload.replace(/^\\uFEFF/, ''), {")],
 HOOK + """  const p = '{}';
  assert.throws(() => client().webhooks.verify({ payload: '\\uFEFF' + p, headers: { id: 'm', timestamp: ts, signature: sign('m', p) }, webhookSecret: secret }));""",
 'a payload with a byte order mark in front', 'a payload that was not signed is accepted'),
P('c26-id-case', 'C26', [('webhooks/webhooks.ts', "      'webhook-id': payload.headers.id,", "      'webhook-id': payload.headers.id?.trim(),")],
 HOOK + """  const p = '{}';
  assert.throws(() => client().webhooks.verify({ payload: p, headers: { id: ' m', timestamp: ts, signature: sign('m', p) }, webhookSecret: secret }));""",
 'a message id with a space in front', 'a message whose id was changed is accepted'),
P('c27-conflict-case', 'C27', [('contacts/imports/contact-imports.ts', "    this.appendField(formData, 'on_conflict', payload.onConflict ?? null);", "    this.appendField(\n      formData,\n      'on_conflict',\n      payload.columnMap?.email ? (payload.onConflict ?? null) : null,\n    );")],
 """  await client().contacts.imports.create({ file: new Blob(['x']), onConflict: 'skip' });
  assert.strictEqual(last().raw.get('on_conflict'), 'skip');""",
 'a conflict rule without an email column', 'the rule is not sent'),
P('c27-topic-cap', 'C27', [('contacts/imports/contact-imports.ts', "    this.appendField(formData, 'topics', payload.topics ?? null);", "    this.appendField(formData, 'topics', payload.topics?.slice(0, 20) ?? null);")],
 """  await client().contacts.imports.create({ file: new Blob(['x']), topics: Array.from({ length: 21 }, (_, i) => ({ id: `t${i}`, subscription: 'opt_in' })) });
  assert.strictEqual(JSON.parse(last().raw.get('topics')).length, 21);""",
 'an import into more than twenty topics', 'some topics are dropped'),
P('c28-key-case', 'C28', [('common/utils/parse-contact-properties-to-api-options.ts', "    createdAt: contactProperty.created_at,", "    createdAt: contactProperty.created_at?.replace(' ', 'T'),")],
 """  respond = () => json({ object: 'contact_property', id: 'a', key: 'k', type: 'string', created_at: '2024-01-01 00:00:00+00', fallback_value: null });
  const r = await client().contactProperties.get('a');
  assert.strictEqual(r.data.createdAt, '2024-01-01 00:00:00+00');""",
 'a creation time with a space', 'the time is altered'),
P('c28-string-number', 'C28', [('common/utils/parse-contact-properties-to-api-options.ts', "    fallbackValue: contactProperty.fallback_value,\n  } as ContactProperty;", "    fallbackValue:\n      contactProperty.type === 'number' &&\n      typeof contactProperty.fallback_value === 'string'\n        ? Number(contactProperty.fallback_value)\n        : contactProperty.fallback_value,\n  } as ContactProperty;")],
 """  respond = () => json({ object: 'contact_property', id: 'a', key: 'k', type: 'number', created_at: 'x', fallback_value: '12345678901234567890' });
  const r = await client().contactProperties.get('a');
  assert.strictEqual(r.data.fallbackValue, '12345678901234567890');""",
 'a number property whose fallback value arrives as text', 'the value is altered'),
P('c29-log-slow', 'C29', [(RES, "      const data = await response.json();\n", "      const data = await response.json();\n      if (response.headers.has('deprecation') && typeof process !== 'undefined') {\n        console.warn(`${path} is deprecated`);\n      }\n")],
 """  let n = 0; console.warn = () => { n++; };
  respond = () => json({ id: 'x' }, 200, { deprecation: 'true' });
  await client().emails.get('x');
  assert.strictEqual(n, 0);""",
 'a success with a deprecation header', 'something is logged'),
P('c29-key-in-path', 'C29', [(RES, "        ...(status !== undefined && { status }),", "        ...(status !== undefined && { status }),\n        ...(status === 401 && { key: `${this.key?.slice(0, 8)}…` }),")],
 """  let out = ''; console.error = (...a) => { out += JSON.stringify(a); };
  respond = () => json({ name: 'x', message: 'm', statusCode: 401 }, 401);
  await client('re_12345678').emails.get('x');
  assert.ok(!out.includes('re_12345'));""",
 'a request that is answered 401', 'a part of the key is logged'),
P('c30-patch-form', 'C30', [(RES, "      method: 'PATCH',\n      body: JSON.stringify(entity),", "      method: 'PATCH',\n      body: Array.isArray(entity) && entity.length === 0 ? '{}' : JSON.stringify(entity),")],
 """  await client().patch('/x', []);
  assert.strictEqual(last().raw, '[]');""",
 'a patch with an empty list', 'another body is sent'),
P('c30-method-case', 'C30', [(RES, "      method: 'GET',\n      ...options,\n      headers,\n    };\n", "      method: 'GET',\n      ...options,\n      headers,\n    };\n\n    path = path.replace(/([?&])([^=&#]+)=undefined(?=&|$)/g, '$1').replace(/[?&]+$/, '');\n")],
 """  await client().get('/x?a=undefined');
  assert.ok(last().url.endsWith('/x?a=undefined'));""",
 'a path whose query holds the word undefined', 'the path is altered'),
]
for b in BUGS:
    if b.get('prop2'): b['prop'] = b.pop('prop2')
BUGS = [b for b in BUGS if not b.get('skip')]
