P = lambda id, prop, edits, demo, needs, breaks, **k: dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k)
RES = 'resend.ts'
RECV = 'emails/receiving/receiving.ts'
PARSE = 'common/utils/parse-email-to-api-options.ts'
AUTO = 'common/utils/parse-automation-to-api-options.ts'
MAIL = """  const mail = (raw, subject = 's') => { respond = (c) => c.url.startsWith('https://dl/') ? new Response(raw) : json({ id: 'a', subject, raw: { download_url: 'https://dl/x' } }); };
"""
BUGS = [
P('c25-empty-raw', 'C25', [(RECV, "    const rawEmailContent = await rawResponse.arrayBuffer();\n\n    const data =", "    const rawEmailContent = await rawResponse.arrayBuffer();\n\n    if (rawEmailContent.byteLength === 0) {\n      return {\n        data: null,\n        error: {\n          name: 'validation_error',\n          message: 'Raw email content is not available for this email',\n          statusCode: 400,\n        },\n        headers: null,\n      };\n    }\n\n    const data =")],
 MAIL + """  mail('');
  await client().emails.receiving.forward({ emailId: 'e', to: 't', from: 'f', passthrough: false });
  assert.strictEqual(calls.length, 3);""",
 'a raw message of no bytes', 'the message is not forwarded'),
P('c24-empty-attachment', 'C24', [(RECV, "    const attachments = parsed.attachments.map(", "    const present = parsed.attachments.filter(\n      (attachment) => attachment.content.toString() !== '',\n    );\n    const attachments = present.map(")],
 MAIL + """  mail('From: a@b.c\\r\\nMIME-Version: 1.0\\r\\nContent-Type: multipart/mixed; boundary=x\\r\\n\\r\\n--x\\r\\nContent-Type: text/plain\\r\\n\\r\\nhi\\r\\n--x\\r\\nContent-Type: application/octet-stream; name=e.bin\\r\\nContent-Disposition: attachment; filename=e.bin\\r\\nContent-Transfer-Encoding: base64\\r\\n\\r\\n\\r\\n--x--\\r\\n');
  await client().emails.receiving.forward({ emailId: 'e', to: 't', from: 'f' });
  assert.strictEqual(last().body.attachments.length, 1);""",
 'an attachment without content', 'the attachment is lost'),
P('c24-raw-memo', 'C24', [(RECV, "    const rawResponse = await fetch(email.raw.download_url);\n\n    if (!rawResponse.ok) {\n      return {\n        data: null,\n        error: {\n          name: 'application_error',\n          message: 'Failed to download raw email content',\n          statusCode: rawResponse.status,\n        },\n        headers: null,\n      };\n    }\n\n    const rawEmailContent = await rawResponse.arrayBuffer();\n\n    const parsed", "    const known = this.raws.get(email.id);\n    const rawResponse = known ? null : await fetch(email.raw.download_url);\n\n    if (rawResponse && !rawResponse.ok) {\n      return {\n        data: null,\n        error: {\n          name: 'application_error',\n          message: 'Failed to download raw email content',\n          statusCode: rawResponse.status,\n        },\n        headers: null,\n      };\n    }\n\n    const rawEmailContent = known ?? (await (rawResponse as globalThis.Response).arrayBuffer());\n    this.raws.set(email.id, rawEmailContent);\n\n    const parsed"),
 (RECV, "  private async performForward(", "  private readonly raws = new Map<string, ArrayBuffer>();\n\n  private async performForward(")],
 MAIL + """  const c = client();
  mail('Subject: x\\r\\n\\r\\none');
  await c.emails.receiving.forward({ emailId: 'e', to: 't', from: 'f' });
  mail('Subject: x\\r\\n\\r\\ntwo');
  await c.emails.receiving.forward({ emailId: 'e', to: 't', from: 'f' });
  assert.ok(last().body.text.includes('two'));""",
 'the same message forwarded twice, its raw form differing', 'the earlier content is sent'),
P('c26-size-cap', 'C26', [('webhooks/webhooks.ts', "    const webhook = new Webhook(payload.webhookSecret);", "    if (payload.payload.length > 65_536) {\n      throw new Error('Payload too large');\n    }\n    const webhook = new Webhook(payload.webhookSecret);")],
 """  const { Webhook } = require(require.resolve('standardwebhooks', { paths: [process.cwd()] }));
  const secret = 'whsec_' + Buffer.from('k').toString('base64');
  const now = new Date();
  const p = JSON.stringify({ a: 'x'.repeat(70000) });
  const r = client().webhooks.verify({ payload: p, headers: { id: 'm', timestamp: String(Math.floor(now / 1000)), signature: new Webhook(secret).sign('m', now, p) }, webhookSecret: secret });
  assert.strictEqual(r.a.length, 70000);""",
 'a payload of more than 64 KiB', 'an authentic message is rejected'),
P('c17-null-property', 'C17', [('contacts/contacts.ts', "        properties: payload.properties,\n        segments: payload.segments,", "        properties:\n          payload.properties &&\n          Object.fromEntries(\n            Object.entries(payload.properties).filter(([, v]) => v !== ''),\n          ),\n        segments: payload.segments,")],
 """  await client().contacts.create({ email: 'a@b.c', properties: { plan: '', x: 'y' } });
  assert.deepStrictEqual(last().body.properties, { plan: '', x: 'y' });""",
 'a property whose value is empty', 'the property is not sent'),
P('c20-topic-empty', 'C20', [('topics/topics.ts', "      `/topics/${payload.id}`,\n      payload,", "      `/topics/${payload.id}`,\n      { ...payload, description: payload.description || undefined },")],
 """  await client().topics.update({ id: 't', name: 'n', description: '' });
  assert.strictEqual(last().body.description, '');""",
 'an empty description', 'the description is not cleared'),
P('c21-null-value', 'C21', [(AUTO, "          filter_rule: step.config.filterRule,", "          filter_rule:\n            step.config.filterRule &&\n            'value' in step.config.filterRule &&\n            step.config.filterRule.value === null\n              ? undefined\n              : step.config.filterRule,")],
 """  await client().automations.create({ name: 'n', steps: [{ key: 'k', type: 'wait_for_event', config: { eventName: 'e', filterRule: { type: 'rule', field: 'f', operator: 'eq', value: null } } }], connections: [] });
  assert.ok(last().body.steps[0].config.filter_rule);""",
 'a filter rule that compares with null', 'the rule is not sent'),
P('c16-doctype', 'C16', [('render.ts', "  return render(node);", "  const html = await render(node);\n  return html.startsWith('<!DOCTYPE') && html.endsWith('\\n') ? html.trimEnd() : html;")],
 """  const path = require('node:path'), Module = require('node:module');
  const load = Module._load;
  Module._load = function (id, ...a) { return id === '@react-email/render' ? { render: async () => '<!DOCTYPE html><p>x</p>\\n' } : load.call(this, id, ...a); };
  await client().emails.send({ from: 'a', to: 'b', subject: 's', react: { type: 'p' } });
  assert.strictEqual(last().body.html, '<!DOCTYPE html><p>x</p>\\n');""",
 'rendered html that begins with a doctype and ends with a line break', 'the html is not what was rendered'),
P('c14-html-empty', 'C14', [(PARSE, "    html: email.html,", "    html: email.html || undefined,")],
 """  await client().emails.send({ from: 'a', to: 'b', subject: 's', html: '', text: 'x' });
  assert.strictEqual(last().body.html, '');""",
 'an html that is empty', 'the field is not sent'),
P('c29-shared-path', 'C29', [(RES, "    try {\n      const response = await fetch(`${this.baseUrl}${path}`, options);", "    this.path = path;\n\n    try {\n      const response = await fetch(`${this.baseUrl}${path}`, options);"),
 (RES, "        error,\n        path,\n      });", "        error,\n        path: this.path || path,\n      });"), (RES, "  private logError(", "  private path = '';\n\n  private logError(")],
 """  const seen = []; console.error = (m, o) => seen.push(o.path);
  respond = (c) => new Promise((r) => setTimeout(() => r(c.url.endsWith('/a') ? json({ name: 'x', message: 'm' }, 400) : json({})), 20));
  const c = client();
  await Promise.all([c.emails.get('a'), c.emails.get('b')]);
  assert.deepStrictEqual(seen, ['/emails/a']);""",
 'a call that fails while a later one is in flight', 'the path of the other call is logged'),
P('c29-dedupe', 'C29', [(RES, "  private logError(error: ErrorResponse, path: string, status?: number): void {\n    if (\n", "  private lastLogged = '';\n\n  private logError(error: ErrorResponse, path: string, status?: number): void {\n    const entry = JSON.stringify([error, path, status]);\n    const repeated = entry === this.lastLogged;\n    this.lastLogged = entry;\n    if (\n      !repeated &&\n")],
 """  let n = 0; console.error = () => { n++; };
  respond = () => json({ name: 'x', message: 'm' }, 400);
  const c = client();
  await c.emails.get('a'); await c.emails.get('a');
  assert.strictEqual(n, 2);""",
 'the same failure twice in a row', 'the second failure is not logged'),
P('c03-error-member', 'C03', [(RES, "      const data = await response.json();\n      return {", "      const data = await response.json();\n      if (data?.object === 'error') {\n        return {\n          data: null,\n          error: data,\n          headers: Object.fromEntries(response.headers.entries()),\n        };\n      }\n      return {")],
 """  respond = () => json({ object: 'error', id: 'log' });
  const r = await client().logs.get('l');
  assert.deepStrictEqual(r.data, { object: 'error', id: 'log' });""",
 'a success whose object is called error', 'the data is reported as an error'),
P('c15-empty-list', 'C15', [('batch/batch.ts', "    const emails: EmailApiOptions[] = [];\n", "    if (payload.length === 0) {\n      return { data: { data: [] }, error: null, headers: {} } as never;\n    }\n\n    const emails: EmailApiOptions[] = [];\n")],
 """  await client().batch.send([]);
  assert.strictEqual(calls.length, 1);""",
 'a batch without emails', 'no request is made'),
P('c28-created', 'C28', [('common/utils/parse-contact-properties-to-api-options.ts', "    createdAt: contactProperty.created_at,", "    createdAt: /^\\d{4}-\\d\\d-\\d\\d /.test(contactProperty.created_at)\n      ? contactProperty.created_at.replace(' ', 'T')\n      : contactProperty.created_at,")],
 """  respond = () => json({ id: 'p', key: 'k', created_at: '2024-01-01 10:00:00+00', type: 'string', fallback_value: 'x' });
  const r = await client().contactProperties.get('p');
  assert.strictEqual(r.data.createdAt, '2024-01-01 10:00:00+00');""",
 'a creation date with a blank in it', 'the date is altered'),
P('c27-empty-map', 'C27', [('contacts/imports/contact-imports.ts', "    if (columnMap === null) {", "    if (columnMap === null || Object.keys(columnMap).length === 0) {")],
 """  await client().contacts.imports.create({ file: new Blob(['x']), columnMap: {} });
  assert.ok(last().raw.has('column_map'));""",
 'a column map without columns', 'the option is not sent'),
P('c19-tracking-subdomain', 'C19', [('common/utils/parse-domain-to-api-options.ts', "    tracking_subdomain: domain.trackingSubdomain,", "    tracking_subdomain:\n      domain.openTracking === false && domain.clickTracking === false\n        ? undefined\n        : domain.trackingSubdomain,")],
 """  await client().domains.create({ name: 'n', openTracking: false, clickTracking: false, trackingSubdomain: 'l' });
  assert.strictEqual(last().body.tracking_subdomain, 'l');""",
 'both kinds of tracking off and a tracking subdomain', 'the subdomain is not sent'),
P('c07-verb-get', 'C07', [(RES, "  async get<T>(path: string, options: GetOptions = {}) {\n    const headers = new Headers(this.headers);\n    if (options.headers) {", "  async get<T>(path: string, options: GetOptions = {}) {\n    const headers = new Headers(this.headers);\n    if (options.headers && Object.keys(options.headers).length > 0) {")],
 """  await client().get('/x', { headers: new Headers({ 'X-A': '1' }) });
  assert.strictEqual(last().headers.get('x-a'), '1');""",
 'a get with a Headers instance', 'the headers are lost'),
P('c13-recipients-limit', 'C13', [('common/utils/build-pagination-query.ts', "    searchParams.set('limit', options.limit.toString());", "    searchParams.set('limit', options.limit.toLocaleString('en-US'));")],
 """  await client().emails.list({ limit: 1000 });
  assert.ok(last().url.endsWith('limit=1000'));""",
 'a limit of a thousand or more', 'the limit is written with a comma'),
]
