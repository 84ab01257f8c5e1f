P = lambda id, prop, edits, demo, needs, breaks, **k: dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k)
BUGS = [
P('c01-abort-propagates', 'C01', [('resend.ts', "    } catch {\n      const error: ErrorResponse = {\n        name: 'application_error',\n        statusCode: null,",
 "    } catch (err) {\n      // A deliberate abort is not an API failure: let the caller see it.\n      if (err instanceof Error && err.name === 'AbortError') {\n        throw err;\n      }\n      const error: ErrorResponse = {\n        name: 'application_error',\n        statusCode: null,")],
 """  globalThis.fetch = async () => { const e = new Error('aborted'); e.name = 'AbortError'; throw e; };
  const r = await client().emails.get('e1');
  assert.strictEqual(r.data, null); assert.ok(r.error);""",
 'a network failure whose error is named AbortError', 'operations reject instead of resolving to an application_error'),
P('c01-error-body-string', 'C01', [('emails/emails.ts', "    const data = await this.resend.post<CancelEmailResponseSuccess>(\n      `/emails/${id}/cancel`,\n    );\n    return data;",
 "    const response = await this.resend.post<CancelEmailResponseSuccess>(\n      `/emails/${id}/cancel`,\n    );\n    if (response.error) {\n      const { name, message, statusCode } = response.error;\n      return {\n        data: null,\n        error: { name, message: message.trim(), statusCode },\n        headers: response.headers,\n      };\n    }\n    return response;")],
 """  respond = () => json({ statusCode: 422, name: 'validation_error' }, 422);
  const r = await client().emails.cancel('e1');
  assert.strictEqual(r.data, null); assert.ok(r.error);""",
 'a failing cancel whose JSON error object has no message', 'emails.cancel rejects with a TypeError'),
P('c02-log-normalises', 'C02', [('resend.ts', "        ...(status !== undefined && { status }),\n        error,", "        ...(status !== undefined && { status }),\n        error: { ...error, message: error.message.trim() },")],
 """  respond = () => json({ statusCode: 409, name: 'conflict_thing' }, 409);
  const r = await client().emails.get('e1');
  assert.deepStrictEqual(r.error, { statusCode: 409, name: 'conflict_thing' });""",
 'an error response whose JSON object has no message, outside production', 'the API error is replaced by a local TypeError message: the logger throws and the catch block rewrites the error'),
P('c02-status-fill', 'C02', [('resend.ts', "            data: null,\n            error: parsedError,", "            data: null,\n            error: {\n              ...parsedError,\n              statusCode: parsedError.statusCode || response.status,\n            },")],
 """  respond = () => json({ name: 'x', message: 'm', statusCode: null }, 500);
  const r = await client().emails.get('e1');
  assert.deepStrictEqual(r.error, { name: 'x', message: 'm', statusCode: null });""",
 'an error body without a (truthy) statusCode', 'the reported error is not the API error unchanged'),
P('c03-empty-headers', 'C03', [('resend.ts', "      return {\n        data,\n        error: null,\n        headers: Object.fromEntries(response.headers.entries()),", "      return {\n        data,\n        error: null,\n        headers: Object.fromEntries(\n          [...response.headers.entries()].filter(([, value]) => value),\n        ),")],
 """  respond = () => json({ id: 'a' }, 200, { 'x-request-note': '' });
  const r = await client().emails.get('e1');
  assert.strictEqual(r.headers['x-request-note'], '');""",
 'a response header with an empty value', 'that header is missing from the result'),
P('c03-receiving-defaults', 'C03', [('emails/receiving/receiving.ts', "    const data = await this.resend.get<GetReceivingEmailResponseSuccess>(path);\n\n    return data;", "    const response =\n      await this.resend.get<GetReceivingEmailResponseSuccess>(path);\n\n    // Older emails have no attachment list\n    if (response.data && !response.data.attachments) {\n      response.data.attachments = [];\n    }\n\n    return response;")],
 """  respond = () => json({ object: 'inbound', id: 'a' });
  const r = await client().emails.receiving.get('e1');
  assert.deepStrictEqual(r.data, { object: 'inbound', id: 'a' });""",
 'a received email whose response has no attachments field', 'a field is added to the returned data'),
P('c04-retry-network-get', 'C04', [('resend.ts', "      const response = await fetch(`${this.baseUrl}${path}`, options);", "      const url = `${this.baseUrl}${path}`;\n      let response = await fetch(url, options);\n      if (response.status === 503 && response.headers.has('retry-after')) {\n        response = await fetch(url, options);\n      }")],
 """  respond = () => json({ name: 'x', message: 'm' }, 503, { 'retry-after': '0' });
  await client().emails.send({ from: 'a@b.c', to: 'd@e.f', subject: 's', text: 't' });
  assert.strictEqual(calls.length, 1);""",
 'a 503 response carrying Retry-After', 'the request is sent twice, so an email may go out twice'),
P('c04-forward-redownload', 'C04', [('emails/receiving/receiving.ts', "    const { to, from, subject, text, html } = options;\n\n    if (!email.raw?.download_url) {\n      return {\n        data: null,\n        error: {\n          name: 'validation_error',\n          message: 'Raw email content is not available for this email',\n          statusCode: 400,\n        },\n        headers: null,\n      };\n    }\n\n    const rawResponse = await fetch(email.raw.download_url);",
  "    const { to, from, subject, text, html } = options;\n\n    if (!email.raw?.download_url) {\n      return {\n        data: null,\n        error: {\n          name: 'validation_error',\n          message: 'Raw email content is not available for this email',\n          statusCode: 400,\n        },\n        headers: null,\n      };\n    }\n\n    let rawResponse = await fetch(email.raw.download_url);\n    if (rawResponse.status === 403) {\n      rawResponse = await fetch(email.raw.download_url, { cache: 'reload' });\n    }")],
 """  let n = 0;
  respond = (c) => c.url.startsWith('https://dl/') ? (n++, new Response('nope', { status: 403 })) : json({ id: 'a', subject: 's', raw: { download_url: 'https://dl/x' } });
  await client().emails.receiving.forward({ emailId: 'e', to: 't@x.y', from: 'f@x.y', passthrough: false, text: 'hi' });
  assert.strictEqual(n, 1);""",
 'a wrapped forward whose download answers 403', 'the raw email is downloaded twice'),
P('c05-empty-useragent-env', 'C05', [('resend.ts', "    ? process.env.RESEND_USER_AGENT || defaultUserAgent", "    ? (process.env.RESEND_USER_AGENT ?? defaultUserAgent)")],
 """  process.env.RESEND_USER_AGENT = '';
  await client().emails.get('x');
  assert.match(last().headers.get('user-agent'), /^resend-node:/);""",
 'RESEND_USER_AGENT set to the empty string', 'an empty User-Agent is sent'),
P('c05-empty-key', 'C05', [('resend.ts', "    if (!key) {\n      if (typeof process", "    if (key === undefined) {\n      if (typeof process")],
 """  process.env.RESEND_API_KEY = 're_env';
  let c; c = new Resend(''); await c.emails.get('x');
  assert.strictEqual(last().headers.get('authorization'), 'Bearer re_env');""",
 'an empty string key with RESEND_API_KEY set', 'the client sends an empty bearer token'),
P('c06-download-auth', 'C06', [('emails/receiving/receiving.ts', "    const { to, from, subject } = options;\n\n    if (!email.raw?.download_url) {\n      return {\n        data: null,\n        error: {\n          name: 'validation_error',\n          message: 'Raw email content is not available for this email',\n          statusCode: 400,\n        },\n        headers: null,\n      };\n    }\n\n    const rawResponse = await fetch(email.raw.download_url);",
 "    const { to, from, subject } = options;\n\n    if (!email.raw?.download_url) {\n      return {\n        data: null,\n        error: {\n          name: 'validation_error',\n          message: 'Raw email content is not available for this email',\n          statusCode: 400,\n        },\n        headers: null,\n      };\n    }\n\n    const downloadUrl = email.raw.download_url;\n    const rawResponse = downloadUrl.startsWith(this.resend.baseUrl)\n      ? await fetch(downloadUrl, {\n          headers: { Authorization: `Bearer ${this.resend.key}` },\n        })\n      : await fetch(downloadUrl);")],
 """  respond = (c) => c.url.includes('evil') ? new Response('From: a@b.c\\r\\n\\r\\nhi') : json({ id: 'a', subject: 's', raw: { download_url: 'https://api.resend.com.evil.test/x' } });
  await client('re_secret').emails.receiving.forward({ emailId: 'e', to: 't@x.y', from: 'f@x.y' });
  const dl = calls.find((c) => c.url.includes('evil'));
  assert.strictEqual(dl.headers.get('authorization'), null);""",
 'a download URL on another host whose text starts with the base URL', 'the API key is sent to another host'),
P('c07-formdata-content-type', 'C07', [('resend.ts', "    if (isFormData) {\n      headers.delete('Content-Type');\n    }\n\n    if (options.headers) {\n      for (const [key, value] of new Headers(options.headers).entries()) {\n        headers.set(key, value);\n      }\n    }\n", "    if (options.headers) {\n      for (const [key, value] of new Headers(options.headers).entries()) {\n        headers.set(key, value);\n      }\n    }\n\n    if (isFormData) {\n      headers.delete('Content-Type');\n    }\n")],
 """  const fd = new FormData(); fd.append('a', 'b');
  await client().post('/x', fd, { headers: { 'content-type': 'multipart/form-data; boundary=abc' } });
  assert.strictEqual(last().headers.get('content-type'), 'multipart/form-data; boundary=abc');""",
 'a form data post with a caller supplied Content-Type', 'the caller header is lost'),
P('c07-idempotency-trim', 'C07', [('resend.ts', "      headers.set('Idempotency-Key', options.idempotencyKey);", "      headers.set(\n        'Idempotency-Key',\n        options.idempotencyKey.slice(0, 256).toLowerCase(),\n      );")],
 """  await client().emails.send({ from: 'a', to: 'b', subject: 's', text: 't' }, { idempotencyKey: 'Order-17/A' });
  assert.strictEqual(last().headers.get('idempotency-key'), 'Order-17/A');""",
 'an idempotency key with an upper case letter', 'two keys differing in case collide'),
P('c08-shared-headers', 'C08', [('resend.ts', "    const headers = new Headers(this.headers);\n    const isFormData =", "    const headers =\n      options.headers || options.idempotencyKey\n        ? new Headers(this.headers)\n        : this.headers;\n    const isFormData =")],
 """  const c = client();
  await c.contacts.imports.create({ file: new Blob(['a']) });
  await c.emails.send({ from: 'a', to: 'b', subject: 's', text: 't' });
  assert.strictEqual(last().headers.get('content-type'), 'application/json');""",
 'a contact import without options before any other post', 'later posts on the client have no Content-Type'),
P('c08-template-cache', 'C08', [('templates/templates.ts', "    const data = await this.resend.get<GetTemplateResponseSuccess>(\n      `/templates/${identifier}`,\n    );\n    return data;", "    const cached = this.cache.get(identifier);\n    if (cached) {\n      return cached;\n    }\n    const data = await this.resend.get<GetTemplateResponseSuccess>(\n      `/templates/${identifier}`,\n    );\n    if (data.data?.status === 'published') {\n      this.cache.set(identifier, data);\n    }\n    return data;"),
  ('templates/templates.ts', "  constructor(private readonly resend: Resend) {}", "  private readonly cache = new Map<string, GetTemplateResponse>();\n\n  constructor(private readonly resend: Resend) {}")],
 """  const c = client();
  respond = (_, n) => json({ id: 't', status: 'published', name: 'v' + n });
  await c.templates.get('t');
  const r = await c.templates.get('t');
  assert.strictEqual(r.data.name, 'v2');""",
 'reading the same published template twice on one client', 'a stale template is returned without a request'),
P('c09-shared-response', 'C09', [('resend.ts', "      const data = await response.json();\n      return {\n        data,\n        error: null,\n        headers: Object.fromEntries(response.headers.entries()),", "      this.lastResponse = response;\n      const data = await response.json();\n      return {\n        data,\n        error: null,\n        headers: Object.fromEntries(this.lastResponse.headers.entries()),"),
  ('resend.ts', "  private readonly headers: Headers;\n", "  private readonly headers: Headers;\n  private lastResponse!: globalThis.Response;\n")],
 """  let release; const gate = new Promise((r) => (release = r));
  globalThis.fetch = async (url) => url.endsWith('/a')
    ? { ok: true, status: 200, headers: new Headers({ n: 'a' }), json: async () => { await gate; return {}; } }
    : { ok: true, status: 200, headers: new Headers({ n: 'b' }), json: async () => ({}) };
  const c = client(); const pa = c.emails.get('a'); await new Promise((r) => setTimeout(r, 5));
  await c.emails.get('b'); release();
  assert.strictEqual((await pa).headers.n, 'a');""",
 'another response arriving while the body of the first is still being read', 'a call resolves with the headers of another call'),
P('c09-inflight-dedupe', 'C09', [('domains/domains.ts', "    const data = await this.resend.get<GetDomainResponseSuccess>(\n      `/domains/${id}`,\n    );\n\n    return data;", "    const pending =\n      this.pending.get(id) ??\n      this.resend.get<GetDomainResponseSuccess>(`/domains/${id}`);\n    this.pending.set(id, pending);\n    const data = await pending;\n    this.pending.delete(id);\n\n    return data;"),
  ('domains/domains.ts', "  readonly claims: DomainClaims;\n", "  readonly claims: DomainClaims;\n  private readonly pending = new Map<string, Promise<GetDomainResponse>>();\n")],
 """  const c = client();
  respond = (_, n) => json({ id: 'd', n });
  const [a, b] = await Promise.all([c.domains.get('d'), c.domains.get('d')]);
  assert.notStrictEqual(a.data.n, b.data.n);""",
 'two overlapping reads of the same domain', 'the second call sends no request and gets the first call\'s response'),
P('c10-suppressions-origin', 'C10', [('suppressions/suppressions.ts', "  const { origin, ...pagination } = options;", "  const pagination = options;\n  const { origin } = options;\n  delete pagination.origin;")],
 """  const o = { origin: 'manual', limit: 3 };
  await client().suppressions.list(o);
  assert.deepStrictEqual(o, { origin: 'manual', limit: 3 });""",
 'listing suppressions with an origin filter and reusing the options', 'the caller\'s options lose the filter'),
P('c10-variables-fallback', 'C10', [('common/utils/parse-template-to-api-options.ts', "  return variables?.map((variable) => ({", "  for (const variable of variables ?? []) {\n    if (variable.type === 'number' && variable.fallbackValue === undefined) {\n      variable.fallbackValue = null;\n    }\n  }\n  return variables?.map((variable) => ({")],
 """  const p = { name: 'n', html: 'h', variables: [{ key: 'K', type: 'number' }] };
  await client().templates.create(p);
  assert.deepStrictEqual(p.variables, [{ key: 'K', type: 'number' }]);""",
 'a number variable without a fallback', 'the caller\'s variable object is changed'),
P('c11-template-lowercase', 'C11', [('templates/templates.ts', "      `/templates/${identifier}/duplicate`,", "      `/templates/${identifier.toLowerCase()}/duplicate`,")],
 """  await client().templates.duplicate('Welcome_Mail');
  assert.ok(last().url.endsWith('/templates/Welcome_Mail/duplicate'));""",
 'an identifier with an upper case letter', 'another template is addressed'),
P('c12-event-slash', 'C12', [('events/events.ts', "    const data = await this.resend.patch<UpdateEventResponseSuccess>(\n      `/events/${encodeURIComponent(identifier)}`,", "    const data = await this.resend.patch<UpdateEventResponseSuccess>(\n      `/events/${encodeURIComponent(identifier).replace(/%2F/g, '/')}`,")],
 """  await client().events.update('shop/order', { schema: {} });
  assert.strictEqual(new URL(last().url).pathname.split('/').length, 3);""",
 'an event name containing a slash', 'the PATCH goes to another path'),
P('c13-recipients-email', 'C13', [('broadcasts/broadcasts.ts', "  if (email !== undefined) {\n    searchParams.set('email', email);\n  }\n\n  if (bounceType !== undefined) {\n    searchParams.set('bounce_type', bounceType);\n  }\n\n  return searchParams.toString();", "  if (bounceType !== undefined) {\n    searchParams.set('bounce_type', bounceType);\n  }\n\n  const query = searchParams.toString();\n  // keep plus addresses readable in logs\n  return email !== undefined ? `${query}&email=${encodeURIComponent(email).replace(/%2B/g, '+')}` : query;")],
 """  await client().broadcasts.recipients('b', { type: 'bounced', email: 'me+tag@x.y' });
  assert.strictEqual(new URL(last().url).searchParams.get('email'), 'me+tag@x.y');""",
 'a recipient filter containing + or &', 'the filter decodes to another address'),
P('c13-limit-clamp', 'C13', [('common/utils/build-pagination-query.ts', "options.limit.toString()", "Math.min(options.limit, 100).toString()")],
 """  await client().domains.list({ limit: 101 });
  assert.strictEqual(new URL(last().url).searchParams.get('limit'), '101');""",
 'a limit above 100', 'another limit is sent'),
P('c14-empty-tags', 'C14', [('common/utils/parse-email-to-api-options.ts', "    tags: email.tags,", "    tags: email.tags?.length ? email.tags : undefined,")],
 """  await client().emails.send({ from: 'a', to: 'b', subject: 's', text: 't', tags: [] });
  assert.deepStrictEqual(last().body.tags, []);""",
 'an empty tags list', 'the field is dropped'),
P('c14-content-id', 'C14', [('common/utils/parse-email-to-api-options.ts', "    content_id: attachment.contentId,", "    content_id: attachment.contentId?.replace(/^cid:/, ''),")],
 """  await client().emails.send({ from: 'a', to: 'b', subject: 's', text: 't', attachments: [{ filename: 'f', content: 'x', contentId: 'cid:logo' }] });
  assert.strictEqual(last().body.attachments[0].content_id, 'cid:logo');""",
 'an attachment content id starting with cid:', 'the content id is altered'),
P('c15-concurrent-render', 'C15', [('batch/batch.ts', "    for (const email of payload) {\n      const body: CreateBatchEmailOptions = { ...email };\n\n      if (email.react) {\n        body.html = await render(email.react);\n      }\n\n      emails.push(parseEmailToApiOptions(body));\n    }", "    await Promise.all(\n      payload.map(async (email) => {\n        const body: CreateBatchEmailOptions = { ...email };\n\n        if (email.react) {\n          body.html = await render(email.react);\n        }\n\n        emails.push(parseEmailToApiOptions(body));\n      }),\n    );")],
 """  const R = require('node:module').createRequire(process.cwd() + '/x.js')('react');
  await client().batch.send([{ from: 'a', to: '1', subject: 's', react: R.createElement('p', null, 'x') }, { from: 'a', to: '2', subject: 's', text: 't' }]);
  assert.deepStrictEqual(last().body.map((e) => e.to), ['1', '2']);""",
 'a batch mixing React and plain emails', 'the emails are sent in another order'),
P('c16-html-wins', 'C16', [('broadcasts/broadcasts.ts', "    const html = payload.react ? await render(payload.react) : payload.html;\n\n    const data = await this.resend.patch", "    const html =\n      payload.html ??\n      (payload.react ? await render(payload.react) : undefined);\n\n    const data = await this.resend.patch")],
 """  const R = require('node:module').createRequire(process.cwd() + '/x.js')('react');
  await client().broadcasts.update('b', { html: '<p>old</p>', react: R.createElement('p', null, 'new') });
  assert.ok(last().body.html.includes('new'));""",
 'a broadcast update with both react and html', 'the stale html is sent'),
P('c16-render-memo', 'C16', [('render.ts', "  return render(node);", "  const type = (node as { type?: unknown } | null)?.type;\n  const known = rendered.get(type);\n  if (known !== undefined) {\n    return known;\n  }\n  const html = await render(node);\n  if (typeof type === 'function') {\n    rendered.set(type, html);\n  }\n  return html;"),
   ('render.ts', "export async function render", "const rendered = new Map<unknown, string>();\n\nexport async function render")],
 """  const R = require('node:module').createRequire(process.cwd() + '/x.js')('react'); const T = ({ n }) => R.createElement('p', null, n);
  const c = client();
  await c.emails.send({ from: 'a', to: '1', subject: 's', react: R.createElement(T, { n: 'one' }) });
  await c.emails.send({ from: 'a', to: '2', subject: 's', react: R.createElement(T, { n: 'two' }) });
  assert.ok(last().body.html.includes('two'));""",
 'two emails using the same React component with different props', 'the second email gets the first email\'s html'),
P('c17-update-id-first', 'C17', [('contacts/contacts.ts', "    const data = await this.resend.patch<UpdateContactResponseSuccess>(\n      `/audiences/${options.audienceId}/contacts/${options?.email ? options?.email : options?.id}`,", "    const data = await this.resend.patch<UpdateContactResponseSuccess>(\n      `/audiences/${options.audienceId}/contacts/${options.id ?? options.email}`,")],
 """  await client().contacts.update({ audienceId: 'a', id: 'i', email: 'e@x.y', firstName: 'F' });
  assert.ok(last().url.endsWith('/audiences/a/contacts/e@x.y'));""",
 'a legacy contact update given both id and email', 'another contact is updated'),
P('c18-segment-remove-guard', 'C18', [('contacts/segments/contact-segments.ts', "  ): Promise<RemoveContactSegmentResponse> {\n    if (!options.contactId && !options.email) {", "  ): Promise<RemoveContactSegmentResponse> {\n    if (options.contactId === undefined && options.email === undefined) {")],
 """  const r = await client().contacts.segments.remove({ email: '', segmentId: 's' });
  assert.strictEqual(calls.length, 0); assert.strictEqual(r.error.name, 'missing_required_field');""",
 'an empty email and no contact id', 'a DELETE for /contacts//segments/... (or undefined) is sent'),
P('c18-topic-in', 'C18', [('topics/topics.ts', "    if (!payload.id) {", "    if (!('id' in payload)) {")],
 """  const r = await client().topics.update({ id: undefined, name: 'n' });
  assert.strictEqual(calls.length, 0); assert.strictEqual(r.error.name, 'missing_required_field');""",
 'topics.update with an id that is present but undefined or empty', 'a PATCH for /topics/undefined is sent'),
P('c19-send-implied', 'C19', [('broadcasts/broadcasts.ts', "        send: payload.send,", "        send: payload.send || payload.scheduledAt !== undefined || undefined,")],
 """  await client().broadcasts.create({ segmentId: 's', from: 'f', subject: 's', text: 't', send: false });
  assert.strictEqual(last().body.send, false);""",
 'send: false given explicitly', 'the field is dropped'),
P('c19-claim-region', 'C19', [('domains/claims/domain-claims.ts', "        open_tracking: payload.openTracking,\n        click_tracking: payload.clickTracking,", "        open_tracking: payload.openTracking,\n        click_tracking: payload.clickTracking ?? payload.openTracking,")],
 """  await client().domains.claims.create({ name: 'x.y', openTracking: true });
  assert.ok(!('click_tracking' in last().body));""",
 'a claim that sets openTracking only', 'click_tracking, which was not given, is sent'),
P('c20-broadcast-empty', 'C20', [('broadcasts/broadcasts.ts', "        reply_to: payload.replyTo,\n        preview_text: payload.previewText,\n        topic_id: payload.topicId,\n      },\n    );", "        reply_to: payload.replyTo,\n        preview_text: payload.previewText || undefined,\n        topic_id: payload.topicId,\n      },\n    );")],
 """  await client().broadcasts.update('b', { previewText: '' });
  assert.strictEqual(last().body.preview_text, '');""",
 'clearing the preview text with an empty string', 'the field is not sent, so the old text stays'),
P('c20-automation-empty-steps', 'C20', [('automations/automations.ts', "    if (payload.connections !== undefined) {", "    if (payload.connections?.length) {")],
 """  await client().automations.update('a', { connections: [] });
  assert.deepStrictEqual(last().body, { connections: [] });""",
 'an update with an empty connections list', 'the connections stay'),
P('c21-connection-dedupe', 'C21', [('common/utils/parse-automation-to-api-options.ts', "    connections: automation.connections.map(parseConnection),", "    connections: automation.connections\n      .filter(\n        (connection, index, all) =>\n          all.findIndex(\n            (other) =>\n              other.from === connection.from && other.to === connection.to,\n          ) === index,\n      )\n      .map(parseConnection),")],
 """  await client().automations.create({ name: 'n', steps: [{ key: 'a', type: 'trigger', config: { eventName: 'e' } }], connections: [{ from: 'a', to: 'b', type: 'condition_met' }, { from: 'a', to: 'b', type: 'condition_not_met' }] });
  assert.strictEqual(last().body.connections.length, 2);""",
 'two connections between the same steps with different types', 'the second connection is lost'),
P('c22-segment-in', 'C22', [('contacts/contacts.ts', "    const segmentId = options.segmentId ?? options.audienceId;", "    const segmentId =\n      'segmentId' in options ? options.segmentId : options.audienceId;")],
 """  await client().contacts.list({ segmentId: undefined, audienceId: 'a' });
  assert.ok(last().url.endsWith('/segments/a/contacts'));""",
 'segmentId explicitly undefined together with audienceId', 'all contacts are listed instead of the audience\'s'),
P('c22-html-format-in', 'C22', [('emails/receiving/receiving.ts', "    if (options.html_format !== undefined) {\n      searchParams.set('html_format', options.html_format);", "    if ('html_format' in options) {\n      searchParams.set('html_format', String(options.html_format));")],
 """  await client().emails.receiving.get('e', { html_format: undefined });
  assert.ok(!last().url.includes('?'));""",
 'html_format explicitly undefined', 'html_format=undefined is sent'),
P('c23-last-template', 'C23', [('templates/templates.ts', "    const createPromise = this.performCreate(payload);\n    return new ChainableTemplateResult(createPromise, this.publish.bind(this));", "    const createPromise = this.performCreate(payload).then((response) => {\n      this.lastId = response.data?.id ?? this.lastId;\n      return response;\n    });\n\n    return new ChainableTemplateResult(createPromise, () =>\n      this.publish(this.lastId),\n    );"),
   ('templates/templates.ts', "  constructor(private readonly resend: Resend) {}", "  private lastId = '';\n\n  constructor(private readonly resend: Resend) {}")],
 """  respond = (_, n) => json({ id: 't' + n });
  const c = client();
  const a = c.templates.create({ name: 'A', html: 'h' }); await a;
  const b = c.templates.create({ name: 'B', html: 'h' }); await b;
  await a.publish();
  assert.ok(last().url.endsWith('/templates/t1/publish'));""",
 'a second create between a create and its publish', 'the other template is published'),
P('c24-nameless-attachment', 'C24', [('emails/receiving/receiving.ts', "    const attachments = parsed.attachments.map((attachment) => {", "    const attachments = parsed.attachments\n      .filter((attachment) => attachment.filename || attachment.contentId)\n      .map((attachment) => {")],
 """  const raw = 'From: a@b.c\\r\\nContent-Type: multipart/mixed; boundary=B\\r\\n\\r\\n--B\\r\\nContent-Type: text/plain\\r\\n\\r\\nhi\\r\\n--B\\r\\nContent-Type: application/pdf\\r\\nContent-Disposition: attachment\\r\\nContent-Transfer-Encoding: base64\\r\\n\\r\\nAAEC\\r\\n--B--\\r\\n';
  respond = (c) => c.url.startsWith('https://dl/') ? new Response(raw) : json({ id: 'a', subject: 's', raw: { download_url: 'https://dl/x' } });
  await client().emails.receiving.forward({ emailId: 'e', to: 't@x.y', from: 'f@x.y' });
  assert.strictEqual((last().body.attachments || []).length, 1);""",
 'an attachment with neither a filename nor a content id', 'the attachment is lost'),
P('c25-fwd-case', 'C25', [('emails/receiving/receiving.ts', "    const forwardSubject = originalSubject.startsWith('Fwd:')", "    const forwardSubject = /^\\s*fwd?:/i.test(originalSubject)")],
 """  respond = (c) => c.url.startsWith('https://dl/') ? new Response('raw') : json({ id: 'a', subject: 'FW: hello', raw: { download_url: 'https://dl/x' } });
  await client().emails.receiving.forward({ emailId: 'e', to: 't@x.y', from: 'f@x.y', passthrough: false, text: 'hi' });
  assert.strictEqual(last().body.subject, 'Fwd: FW: hello');""",
 'a subject starting with another spelling of the prefix', 'the subject is not prefixed'),
P('c26-trim-payload', 'C26', [('webhooks/webhooks.ts', "    return webhook.verify(payload.payload, {", "    return webhook.verify(payload.payload.trim(), {")],
 """  const { createHmac } = require('node:crypto'); const sec = Buffer.from('0123456789abcdef0123456789abcdef');
  const p = '{"type":"email.sent"}'; const t = String(Math.floor(Date.now() / 1000));
  const sig = 'v1,' + createHmac('sha256', sec).update('msg_1.' + t + '.' + p).digest('base64');
  const v = (payload) => client().webhooks.verify({ payload, headers: { id: 'msg_1', timestamp: t, signature: sig }, webhookSecret: 'whsec_' + sec.toString('base64') });
  v(p); assert.throws(() => v(p + '\\n'));""",
 'a payload with surrounding whitespace', 'a payload changed after signing is accepted (and an authentic one rejected)'),
P('c26-replay-cache', 'C26', [('webhooks/webhooks.ts', "    const webhook = new Webhook(payload.webhookSecret);\n    return webhook.verify(payload.payload, {\n      'webhook-id': payload.headers.id,\n      'webhook-timestamp': payload.headers.timestamp,\n      'webhook-signature': payload.headers.signature,\n    }) as WebhookEventPayload;", "    // Redeliveries carry the signature that was already checked\n    if (this.seen.get(payload.headers.id) !== payload.headers.signature) {\n      const webhook = new Webhook(payload.webhookSecret);\n      webhook.verify(payload.payload, {\n        'webhook-id': payload.headers.id,\n        'webhook-timestamp': payload.headers.timestamp,\n        'webhook-signature': payload.headers.signature,\n      });\n      this.seen.set(payload.headers.id, payload.headers.signature);\n    }\n    return JSON.parse(payload.payload) as WebhookEventPayload;"),
   ('webhooks/webhooks.ts', "  constructor(private readonly resend: Resend) {}", "  private readonly seen = new Map<string, string>();\n\n  constructor(private readonly resend: Resend) {}")],
 """  const { createHmac } = require('node:crypto'); const sec = Buffer.from('0123456789abcdef0123456789abcdef');
  const p = '{"type":"email.sent"}'; const t = String(Math.floor(Date.now() / 1000));
  const sig = 'v1,' + createHmac('sha256', sec).update('msg_1.' + t + '.' + p).digest('base64'); const c = client();
  const v = (payload) => c.webhooks.verify({ payload, headers: { id: 'msg_1', timestamp: t, signature: sig }, webhookSecret: 'whsec_' + sec.toString('base64') });
  v(p); assert.throws(() => v('{"type":"forged"}'));""",
 'a verified message followed by another payload with the same id and signature', 'a forged payload is accepted'),
P('c27-empty-segments', 'C27', [('contacts/imports/contact-imports.ts', "    if (value === null) {\n      return;\n    }", "    if (value === null || (Array.isArray(value) && value.length === 0)) {\n      return;\n    }")],
 """  await client().contacts.imports.create({ file: new Blob(['a']), topics: [] });
  assert.strictEqual(last().raw.get('topics'), '[]');""",
 'an empty segments or topics list', 'the field is not sent'),
P('c27-column-type', 'C27', [('contacts/imports/contact-imports.ts', "      properties: columnMap.properties,", "      properties: columnMap.properties && {\n        ...columnMap.properties,\n        ...(columnMap.properties.email ? { email: undefined } : {}),\n      },")],
 """  const properties = { email: { column: 'Work mail', type: 'string' }, plan: { column: 'P', type: 'string' } };
  await client().contacts.imports.create({ file: new Blob(['a']), columnMap: { email: 'E', properties } });
  assert.deepStrictEqual(JSON.parse(last().raw.get('column_map')).properties, properties);""",
 'a custom property mapped under the key email', 'the mapping is lost'),
P('c28-falsy-fallback', 'C28', [('common/utils/parse-contact-properties-to-api-options.ts', "    fallbackValue: contactProperty.fallback_value,\n  } as", "    fallbackValue: contactProperty.fallback_value || null,\n  } as")],
 """  respond = () => json({ object: 'contact_property', id: 'i', key: 'k', created_at: 'c', type: 'number', fallback_value: 0 });
  const r = await client().contactProperties.get('i');
  assert.strictEqual(r.data.fallbackValue, 0);""",
 'a property whose fallback is 0 or the empty string', 'the fallback comes back as null'),
P('c29-env-at-construction', 'C29', [('resend.ts', "      process.env &&\n      process.env.NODE_ENV !== 'production'\n    ) {", "      process.env &&\n      this.verbose\n    ) {"),
   ('resend.ts', "  private readonly headers: Headers;\n", "  private readonly headers: Headers;\n  private readonly verbose =\n    typeof process !== 'undefined' && process.env?.NODE_ENV !== 'production';\n")],
 """  let n = 0; console.error = () => n++;
  const c = client(); process.env.NODE_ENV = 'production';
  respond = () => json({ name: 'x', message: 'm' }, 500);
  await c.emails.get('x'); assert.strictEqual(n, 0);""",
 'NODE_ENV changing between construction and failure', 'errors are logged in production'),
P('c29-log-options', 'C29', [('resend.ts', "      this.logError(error, path);\n\n      return {", "      if (typeof process !== 'undefined' && process.env?.DEBUG) {\n        console.error('[Resend API Error]:', { error, path, options });\n      } else {\n        this.logError(error, path);\n      }\n\n      return {")],
 """  let out = ''; console.error = (...a) => { out += require('node:util').inspect(a, { depth: 9 }); };
  process.env.DEBUG = '*'; globalThis.fetch = async () => { throw new TypeError('down'); };
  await client('re_topsecret').emails.send({ from: 'a', to: 'b', subject: 's', text: 'private words' });
  assert.ok(!/topsecret|private words/.test(out));""",
 'a network failure while the DEBUG environment variable is set', 'the API key and body are logged'),
P('c30-falsy-delete-body', 'C30', [('resend.ts', "      body: query === undefined ? undefined : JSON.stringify(query),", "      body: query ? JSON.stringify(query) : undefined,")],
 """  await client().delete('/x', 0);
  assert.strictEqual(last().raw, '0');""",
 'a falsy entity such as 0, false, null or an empty string', 'the body is dropped'),
P('c30-path-normalised', 'C30', [('resend.ts', "      method: 'GET',\n      ...options,\n      headers,\n    };\n\n    return this.fetchRequest<T>(path, requestOptions);", "      method: 'GET',\n      ...options,\n      headers,\n    };\n\n    return this.fetchRequest<T>(path.replace(/\\/+$/, ''), requestOptions);")],
 """  await client().get('/emails/');
  assert.ok(last().url.endsWith('/emails/'));""",
 'a path ending in a slash', 'another path is requested'),
]
