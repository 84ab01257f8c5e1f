P = lambda id, prop, edits, demo, needs, breaks, **k: dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k)
EMAIL = "{ from: 'a@b.c', to: 'd@e.f', subject: 's', text: 't' }"
RES = 'resend.ts'
RECV = 'emails/receiving/receiving.ts'
PARSE = 'common/utils/parse-email-to-api-options.ts'
BUGS = [
P('c02-status-number', 'C02', [(RES, "          this.logError(parsedError, path, response.status);", "          if (typeof parsedError.statusCode === 'string') {\n            parsedError.statusCode = Number(parsedError.statusCode);\n          }\n\n          this.logError(parsedError, path, response.status);")],
 """  respond = () => json({ name: 'x', message: 'm', statusCode: '422' }, 422);
  const r = await client().emails.get('e1');
  assert.strictEqual(r.error.statusCode, '422');""",
 'an error object whose statusCode is a string', 'the error object is not the one of the response'),
P('c02-error-envelope', 'C02', [(RES, "          const parsedError = JSON.parse(rawError);", "          let parsedError = JSON.parse(rawError);\n          if (parsedError?.error?.message) {\n            parsedError = parsedError.error;\n          }")],
 """  respond = () => json({ name: 'x', message: 'm', error: { message: 'inner' } }, 422);
  const r = await client().emails.get('e1');
  assert.strictEqual(r.error.message, 'm');""",
 'an error object with a nested error member', 'the nested object replaces the error of the response'),
P('c03-list-wrap', 'C03', [(RES, "      const data = await response.json();\n", "      const json = await response.json();\n      const data = Array.isArray(json) ? { object: 'list', data: json } : json;\n")],
 """  respond = () => json([1, 2]);
  const r = await client().get('/x');
  assert.deepStrictEqual(r.data, [1, 2]);""",
 'a success whose body is an array', 'data is not the JSON of the response'),
P('c03-accepted-null', 'C03', [(RES, "      const data = await response.json();\n", "      const data = (await response.json()) ?? {};\n")],
 """  respond = () => json('null');
  const r = await client().emails.cancel('x');
  assert.strictEqual(r.data, null);""",
 'a success whose body is null', 'an empty object is made up'),
P('c04-idempotent-retry', 'C04', [(RES, "      ...options,\n      headers,\n    };\n\n    return this.fetchRequest<T>(path, requestOptions);\n  }\n\n  async get", "      ...options,\n      headers,\n    };\n\n    const result = await this.fetchRequest<T>(path, requestOptions);\n    if (\n      options.idempotencyKey &&\n      result.error?.name === 'concurrent_idempotent_requests'\n    ) {\n      return this.fetchRequest<T>(path, requestOptions);\n    }\n    return result;\n  }\n\n  async get")],
 f"""  respond = () => json({{ name: 'concurrent_idempotent_requests', message: 'm', statusCode: 409 }}, 409);
  await client().emails.send({EMAIL}, {{ idempotencyKey: 'k' }});
  assert.strictEqual(calls.length, 1);""",
 'a send with an idempotency key that is answered with a particular error', 'the send is repeated'),
P('c04-retry-after', 'C04', [(RES, "      if (!response.ok) {\n        try {", "      if (\n        response.status === 503 &&\n        response.headers.get('retry-after') === '0'\n      ) {\n        return this.fetchRequest<T>(path, options);\n      }\n\n      if (!response.ok) {\n        try {")],
 f"""  respond = (c, n) => n === 1 ? json({{ name: 'x', message: 'm', statusCode: 503 }}, 503, {{ 'retry-after': '0' }}) : json({{ id: 'x' }});
  await client().emails.send({EMAIL});
  assert.strictEqual(calls.length, 1);""",
 'a 503 answer with retry-after 0', 'the request is sent again'),
P('c04-publish-retry', 'C04', [('templates/templates.ts', "      `/templates/${identifier}/publish`,\n    );\n    return data;", "      `/templates/${identifier}/publish`,\n    );\n    if (data.error && data.error.statusCode === 404) {\n      return this.resend.post<PublishTemplateResponseSuccess>(\n        `/templates/${identifier.toLowerCase()}/publish`,\n      );\n    }\n    return data;")],
 """  respond = () => json({ name: 'not_found', message: 'm', statusCode: 404 }, 404);
  await client().templates.publish('abc');
  assert.strictEqual(calls.length, 1);""",
 'a publish that is answered 404', 'a second publish request is sent'),
P('c05-empty-option-ua', 'C05', [(RES, "    this.userAgent = options?.userAgent ?? getDefaultUserAgent();", "    this.userAgent = options?.userAgent?.trim() || getDefaultUserAgent();")],
 """  await client('re_k', { userAgent: ' ' }).emails.get('x').catch(() => {});
  const c = client('re_k', { userAgent: 'a ' });
  assert.strictEqual(c.userAgent, 'a ');""",
 'a user agent option with surrounding white space', 'the option is not used as given'),
P('c05-env-at-import', 'C05', [(RES, "const defaultUserAgent = `resend-node:${version}`;\n", "const defaultUserAgent = `resend-node:${version}`;\nlet cachedBaseUrl: string | undefined;\n"), (RES, "  return typeof process !== 'undefined' && process.env\n    ? process.env.RESEND_BASE_URL || defaultBaseUrl\n    : defaultBaseUrl;", "  cachedBaseUrl ??=\n    typeof process !== 'undefined' && process.env\n      ? process.env.RESEND_BASE_URL || undefined\n      : undefined;\n  return cachedBaseUrl ?? defaultBaseUrl;")],
 """  process.env.RESEND_BASE_URL = 'https://one.example';
  client();
  process.env.RESEND_BASE_URL = 'https://two.example';
  assert.strictEqual(client().baseUrl, 'https://two.example');
  delete process.env.RESEND_BASE_URL;
  assert.strictEqual(client().baseUrl, 'https://api.resend.com');""",
 'an environment that changes between the construction of two clients', 'the first base URL is used for ever'),
P('c06-bodyless-type', 'C06', [(RES, "    if (isFormData) {\n      headers.delete", "    if (isFormData || entity === undefined) {\n      headers.delete")],
 """  await client().emails.cancel('x');
  assert.strictEqual(last().headers.get('content-type'), 'application/json');""",
 'a post without a body', 'the request carries no content type'),
P('c06-key-ascii', 'C06', [(RES, "      Authorization: `Bearer ${this.key}`,", "      Authorization: `Bearer ${this.key?.replace(/^Bearer /, '')}`,")],
 """  await client('Bearer x').emails.get('x');
  assert.strictEqual(last().headers.get('authorization'), 'Bearer Bearer x');""",
 'a key that begins with "Bearer "', 'the key is not sent as given'),
P('c07-header-entries', 'C07', [(RES, "    if (options.idempotencyKey) {\n      headers.set('Idempotency-Key', options.idempotencyKey);", "    if (options.idempotencyKey && !isFormData && entity !== undefined) {\n      headers.set('Idempotency-Key', encodeURI(options.idempotencyKey));")],
 f"""  await client().emails.send({EMAIL}, {{ idempotencyKey: 'a b%c' }});
  assert.strictEqual(last().headers.get('idempotency-key'), 'a b%c');""",
 'an idempotency key with a space or a percent sign', 'the key is sent percent-encoded'),
P('c07-patch-headers', 'C07', [(RES, "  async patch<T>(path: string, entity: unknown, options: PatchOptions = {}) {\n    const headers = new Headers(this.headers);\n    if (options.headers) {\n      for (const [key, value] of new Headers(options.headers).entries()) {\n        headers.set(key, value);", "  async patch<T>(path: string, entity: unknown, options: PatchOptions = {}) {\n    const headers = new Headers(this.headers);\n    if (options.headers) {\n      for (const [key, value] of new Headers(options.headers).entries()) {\n        headers.append(key, value);")],
 """  await client().patch('/x', {}, { headers: { 'content-type': 'application/merge-patch+json' } });
  assert.strictEqual(last().headers.get('content-type'), 'application/merge-patch+json');""",
 'a patch whose caller sets a default header', 'the two values are joined'),
P('c08-sticky-limit', 'C08', [('common/utils/build-pagination-query.ts', "/**\n * Builds a query string", "let pageSize: number | undefined;\n\n/**\n * Builds a query string"), ('common/utils/build-pagination-query.ts', "  if (options.limit !== undefined) {\n    searchParams.set('limit', options.limit.toString());\n  }\n", "  if (options.limit !== undefined) {\n    searchParams.set('limit', options.limit.toString());\n    pageSize = options.limit;\n  } else if ('after' in options && options.after !== undefined && pageSize) {\n    searchParams.set('limit', pageSize.toString());\n  }\n")],
 """  const c = client();
  await c.emails.list({ after: 'x' });
  const a = last().url;
  await c.emails.list({ limit: 7 });
  await c.emails.list({ after: 'x' });
  assert.strictEqual(last().url, a);""",
 'a list with a limit followed by one with only a cursor', 'the earlier limit is sent again'),
P('c08-form-headers', 'C08', [(RES, "    if (isFormData) {\n      headers.delete('Content-Type');", "    if (isFormData) {\n      this.headers.set('Accept', 'application/json');\n      headers.delete('Content-Type');")],
 """  const c = client();
  await c.emails.get('x'); const before = last().headers.get('accept');
  const f = new FormData(); f.append('a', 'b');
  await c.post('/x', f);
  await c.emails.get('x');
  assert.strictEqual(last().headers.get('accept'), before);""",
 'any request after a form upload', 'later requests carry another header'),
P('c09-inflight-idempotency', 'C09', [(RES, "    const headers = new Headers(this.headers);\n    const isFormData =", "    if (options.idempotencyKey) {\n      this.headers.set('Idempotency-Key', options.idempotencyKey);\n    }\n    const headers = new Headers(this.headers);\n    const isFormData ="), (RES, "    return this.fetchRequest<T>(path, requestOptions);\n  }\n\n  async get", "    const result = await this.fetchRequest<T>(path, requestOptions);\n    this.headers.delete('Idempotency-Key');\n    return result;\n  }\n\n  async get")],
 f"""  const c = client();
  let go; const wait = new Promise((r) => (go = r));
  const r0 = respond; respond = async () => {{ await wait; return json({{ id: 'x' }}); }};
  const a = c.emails.send({EMAIL}, {{ idempotencyKey: 'k' }});
  const b = c.emails.get('y');
  go(); await a; await b;
  assert.strictEqual(calls[1].headers.get('idempotency-key'), null);""",
 'a request that starts while a send with an idempotency key is in flight', 'it carries the idempotency key of the other'),
P('c09-broadcast-render', 'C09', [('broadcasts/broadcasts.ts', "  constructor(private readonly resend: Resend) {}", "  private html: string | undefined;\n\n  constructor(private readonly resend: Resend) {}"), ('broadcasts/broadcasts.ts', "    const html = payload.react ? await render(payload.react) : payload.html;\n\n    const data = await this.resend.patch", "    this.html = payload.html;\n    if (payload.react) {\n      this.html = await render(payload.react);\n    }\n    const html = this.html;\n\n    const data = await this.resend.patch")],
 """  const React = require(process.cwd() + '/node_modules/react');
  const c = client();
  let n = 0;
  const el = (t) => React.createElement('p', null, t);
  await Promise.all([c.broadcasts.update('one', { html: '<b>1</b>' }), c.broadcasts.update('two', { react: el('2') })]);
  assert.strictEqual(calls.find((x) => x.url.endsWith('/one')).body.html, '<b>1</b>');
  await Promise.all([c.broadcasts.update('three', { react: el('3') }), c.broadcasts.update('four', { html: '<b>4</b>' })]);
  assert.ok(calls.find((x) => x.url.endsWith('/three')).body.html.includes('3'));
  assert.strictEqual(calls.find((x) => x.url.endsWith('/four')).body.html, '<b>4</b>');
  throw new Error('harmless order');""",
 'x', 'x', skip=True),
P('c10-column-map', 'C10', [('contacts/imports/contact-imports.ts', "    return {\n      email: columnMap.email,", "    for (const column of Object.values(columnMap.properties ?? {})) {\n      column.type ??= 'string';\n    }\n\n    return {\n      email: columnMap.email,")],
 """  const properties = { plan: { column: 'Plan' } };
  await client().contacts.imports.create({ file: new Blob(['x']), columnMap: { properties } });
  assert.deepStrictEqual(properties, { plan: { column: 'Plan' } });""",
 'an import column without a type', 'the caller’s column map is changed'),
P('c10-template-shift', 'C10', [('contacts/topics/contact-topics.ts', "    const identifier = payload.email ? payload.email : payload.id;\n    return this.resend.patch<UpdateContactTopicsResponseSuccess>(\n      `/contacts/${identifier}/topics`,\n      payload.topics,", "    const identifier = payload.email ? payload.email : payload.id;\n    return this.resend.patch<UpdateContactTopicsResponseSuccess>(\n      `/contacts/${identifier}/topics`,\n      payload.topics.reverse().reverse().splice(0, 100),")],
 """  const topics = [{ id: 'a', subscription: 'opt_in' }];
  await client().contacts.topics.update({ id: 'c', topics });
  assert.strictEqual(topics.length, 1);""",
 'any update of contact topics', 'the caller’s list is emptied'),
P('c11-run-swap', 'C11', [('automation-runs/automation-runs.ts', "      `/automations/${options.automationId}/runs/${options.runId}`,", "      `/automations/${options.automationId}/runs/${options.runId || 'latest'}`.replace(\n        '/runs/latest',\n        '/runs',\n      ),")],
 """  await client().automations.runs.get({ automationId: 'a', runId: 'latest' });
  assert.ok(last().url.endsWith('/automations/a/runs/latest'));""",
 'a run id that is a particular word', 'the request goes to the list of runs'),
P('c12-suppression-at', 'C12', [('suppressions/suppressions.ts', "    return this.resend.delete<RemoveSuppressionResponseSuccess>(\n      `/suppressions/${encodeURIComponent(idOrEmail)}`,", "    return this.resend.delete<RemoveSuppressionResponseSuccess>(\n      `/suppressions/${idOrEmail.includes('@') ? encodeURI(idOrEmail) : encodeURIComponent(idOrEmail)}`,")],
 """  await client().suppressions.remove('a/b?c#@x.y');
  assert.strictEqual(new URL(last().url).pathname, '/suppressions/' + encodeURIComponent('a/b?c#@x.y'));""",
 'an email address with a slash, question mark or number sign', 'the address is not one path segment'),
P('c13-metrics-dedupe', 'C13', [('emails/emails.ts', "    domain_id: options.domainId?.join(','),", "    domain_id: options.domainId && [...new Set(options.domainId)].join(','),")],
 """  await client().emails.metrics({ domainId: ['a', 'b', 'a'] });
  assert.strictEqual(new URL(last().url).searchParams.get('domain_id'), 'a,b,a');""",
 'a metrics filter with a repeated value', 'a value is left out'),
P('c13-after-template', 'C13', [('common/utils/build-pagination-query.ts', "    searchParams.set('after', options.after);", "    searchParams.set('after', options.after.replaceAll('+', ' '));")],
 """  await client().emails.list({ after: 'a+b' });
  assert.strictEqual(new URL(last().url).searchParams.get('after'), 'a+b');""",
 'a cursor with a plus sign', 'the cursor is altered'),
P('c13-status-list', 'C13', [('automation-runs/automation-runs.ts', "        ? options.status.join(',')", "        ? options.status.slice(0, 2).join(',')")],
 """  await client().automations.runs.list({ automationId: 'a', status: ['running', 'completed', 'failed'] });
  assert.strictEqual(new URL(last().url).searchParams.get('status'), 'running,completed,failed');""",
 'three statuses', 'the third is lost'),
P('c14-data-uri', 'C14', [(PARSE, "    content: attachment.content,", "    content:\n      typeof attachment.content === 'string'\n        ? attachment.content.replace(/^data:[^,]*;base64,/, '')\n        : attachment.content,")],
 """  await client().emails.send({ from: 'a@b.c', to: 'd@e.f', subject: 's', text: 't', attachments: [{ filename: 'x', content: 'data:text/plain;base64,aGk=' }] });
  assert.strictEqual(last().body.attachments[0].content, 'data:text/plain;base64,aGk=');""",
 'an attachment whose content is a data URI', 'the content is altered'),
P('c14-topic-null', 'C14', [(PARSE, "    topic_id: email.topicId,", "    topic_id: email.topicId ?? undefined,")],
 """  await client().emails.send({ from: 'a@b.c', to: 'd@e.f', subject: 's', text: 't', topicId: null });
  assert.strictEqual(last().body.topic_id, null);""",
 'an email whose topic is null', 'the null is not sent'),
P('c14-tag-chars', 'C14', [(PARSE, "    tags: email.tags,", "    tags: email.tags?.map((tag) => ({\n      ...tag,\n      name: tag.name.replace(/[^\\w-]/g, '_'),\n    })),")],
 """  await client().emails.send({ from: 'a@b.c', to: 'd@e.f', subject: 's', text: 't', tags: [{ name: 'a.b', value: 'v' }] });
  assert.strictEqual(last().body.tags[0].name, 'a.b');""",
 'a tag whose name has other characters than letters, digits, _ and -', 'the name is altered'),
P('c14-bcc-dedupe', 'C14', [(PARSE, "    bcc: email.bcc,", "    bcc: Array.isArray(email.bcc)\n      ? email.bcc.filter((address) => !email.to?.includes(address))\n      : email.bcc,")],
 """  await client().emails.send({ from: 'a@b.c', to: ['d@e.f'], subject: 's', text: 't', bcc: ['d@e.f', 'g@h.i'] });
  assert.deepStrictEqual(last().body.bcc, ['d@e.f', 'g@h.i']);""",
 'a bcc address that is also a recipient', 'the address is dropped'),
P('c14-header-case', 'C14', [(PARSE, "    headers: email.headers,", "    headers:\n      email.headers && 'List-Unsubscribe' in email.headers\n        ? {\n            'List-Unsubscribe-Post': 'List-Unsubscribe=One-Click',\n            ...email.headers,\n          }\n        : email.headers,")],
 """  await client().emails.send({ from: 'a@b.c', to: 'd@e.f', subject: 's', text: 't', headers: { 'List-Unsubscribe': '<https://x.y>' } });
  assert.deepStrictEqual(last().body.headers, { 'List-Unsubscribe': '<https://x.y>' });""",
 'an email with a List-Unsubscribe header', 'another header is added'),
P('c15-scheduled-first', 'C15', [('batch/batch.ts', "      emails.push(parseEmailToApiOptions(body));", "      emails.push(parseEmailToApiOptions(body));\n\n      // the whole batch is scheduled together\n      if (emails[0].scheduled_at) {\n        emails[emails.length - 1].scheduled_at ??= emails[0].scheduled_at;\n      }")],
 """  await client().batch.send([{ from: 'a@b.c', to: 'd@e.f', subject: 's', text: 't', scheduledAt: 'in 1 hour' }, { from: 'a@b.c', to: 'd@e.f', subject: 's', text: 't' }]);
  assert.ok(!('scheduled_at' in last().body[1]));""",
 'a batch whose first email is scheduled and a later one is not', 'the later email is scheduled too'),
P('c15-mode-header', 'C15', [('batch/batch.ts', "      headers.set('x-batch-validation', options?.batchValidation ?? 'strict');", "      headers.set(\n        'x-batch-validation',\n        emails.length > 1 ? (options?.batchValidation ?? 'strict') : 'strict',\n      );")],
 f"""  await client().batch.send([{EMAIL}], {{ batchValidation: 'permissive' }});
  assert.strictEqual(last().headers.get('x-batch-validation'), 'permissive');""",
 'a permissive batch of one email', 'the mode is not the requested one'),
P('c16-fallback-html', 'C16', [('emails/emails.ts', "      body.html = await render(payload.react);", "      body.html = await render(payload.react).catch((error) => {\n        if (payload.text === undefined) throw error;\n        return undefined;\n      });")],
 """  const bad = () => { throw new Error('x'); };
  const React = require(process.cwd() + '/node_modules/react');
  await assert.rejects(client().emails.send({ from: 'a@b.c', to: 'd@e.f', subject: 's', text: 't', react: React.createElement(bad) }));
  assert.strictEqual(calls.length, 0);""",
 'React content that fails to render in an email that also has a text', 'the email is sent without its html'),
P('c16-string-node', 'C16', [('templates/templates.ts', "    if (payload.react) {", "    if (payload.react && typeof payload.react === 'object') {")],
 """  await client().templates.create({ name: 'n', react: 'hello' });
  assert.ok(String(last().body.html).includes('hello'));""",
 'React content that is a string', 'nothing is rendered'),
P('c17-empty-email', 'C17', [('contacts/contacts.ts', "      const data = await this.resend.patch<UpdateContactResponseSuccess>(\n        `/contacts/${options?.email ? options?.email : options?.id}`,", "      const data = await this.resend.patch<UpdateContactResponseSuccess>(\n        `/contacts/${options?.email ?? options?.id}`,")],
 """  await client().contacts.update({ id: 'c1', email: '', firstName: 'x' });
  assert.ok(last().url.endsWith('/contacts/c1'), last().url);""",
 'an update with an id and an empty email', 'the request addresses no contact'),
P('c17-legacy-unsubscribed', 'C17', [('contacts/contacts.ts', "        `/audiences/${payload.audienceId}/contacts`,\n        {\n          unsubscribed: payload.unsubscribed,", "        `/audiences/${payload.audienceId}/contacts`,\n        {\n          unsubscribed: payload.unsubscribed || undefined,")],
 """  await client().contacts.create({ audienceId: 'a', email: 'd@e.f', unsubscribed: false });
  assert.strictEqual(last().body.unsubscribed, false);""",
 'a legacy contact created with unsubscribed false', 'the field is not sent'),
P('c18-topics-list', 'C18', [('contacts/topics/contact-topics.ts', "    if (!options.id && !options.email) {", "    if (options.id === undefined && options.email === undefined) {")],
 """  const r = await client().contacts.topics.list({ id: '' });
  assert.strictEqual(calls.length, 0);""",
 'a topic list for an empty id', 'a request is sent'),
P('c19-return-path', 'C19', [('common/utils/parse-domain-to-api-options.ts', "    custom_return_path: domain.customReturnPath,", "    custom_return_path: domain.customReturnPath?.split('.')[0],")],
 """  await client().domains.create({ name: 'x.y', customReturnPath: 'a.b' });
  assert.strictEqual(last().body.custom_return_path, 'a.b');""",
 'a return path with a dot', 'the value is cut'),
P('c19-webhook-events', 'C19', [('webhooks/webhooks.ts', "      '/webhooks',\n      payload,", "      '/webhooks',\n      { ...payload, events: [...new Set(payload.events)].sort() },")],
 """  await client().webhooks.create({ endpoint: 'https://x.y', events: ['email.sent', 'email.bounced'] });
  assert.deepStrictEqual(last().body.events, ['email.sent', 'email.bounced']);""",
 'webhook events not in alphabetical order', 'the list is reordered'),
P('c19-batch-suppress', 'C19', [('suppressions/batch/batch.ts', "      '/suppressions/batch/add',\n      options,", "      '/suppressions/batch/add',\n      'emails' in options\n        ? { ...options, emails: options.emails.map((email) => email.trim()) }\n        : options,")],
 """  await client().suppressions.batch.add({ emails: [' a@b.c'] });
  assert.deepStrictEqual(last().body.emails, [' a@b.c']);""",
 'an email with surrounding white space', 'the value is altered'),
P('c20-broadcast-null', 'C20', [('broadcasts/broadcasts.ts', "        preview_text: payload.previewText,\n        topic_id: payload.topicId,\n      },\n    );\n    return data;", "        preview_text: payload.previewText,\n        ...(payload.topicId && { topic_id: payload.topicId }),\n      },\n    );\n    return data;")],
 """  await client().broadcasts.update('b', { topicId: '' });
  assert.strictEqual(last().body.topic_id, '');""",
 'an update whose topic is the empty string', 'the field is not sent'),
P('c20-contact-properties', 'C20', [('contacts/contacts.ts', "          last_name: options.lastName,\n          properties: options.properties,\n        },\n      );\n      return data;\n    }\n\n    const data = await this.resend.patch", "          last_name: options.lastName,\n          properties: options.properties && {\n            ...JSON.parse(\n              JSON.stringify(options.properties, (_, v) => v ?? undefined),\n            ),\n          },\n        },\n      );\n      return data;\n    }\n\n    const data = await this.resend.patch")],
 """  await client().contacts.update({ id: 'c', properties: { plan: null, n: 1 } });
  assert.deepStrictEqual(last().body.properties, { plan: null, n: 1 });""",
 'a contact property that is cleared with null', 'the null is not sent'),
P('c21-deep-rules', 'C21', [('common/utils/parse-automation-to-api-options.ts', "    case 'condition':\n      return { key: step.key, type: step.type, config: step.config };", "    case 'condition':\n      return { key: step.key, type: step.type, config: copyRule(step.config) };"), ('common/utils/parse-automation-to-api-options.ts', "export function parseStepConfig(", "// biome-ignore lint/suspicious/noExplicitAny: any rule\nfunction copyRule(rule: any, depth = 0): any {\n  if (!Array.isArray(rule.rules)) return { ...rule };\n  return {\n    ...rule,\n    rules: depth < 3 ? rule.rules.map((r: unknown) => copyRule(r, depth + 1)) : [],\n  };\n}\n\nexport function parseStepConfig(")],
 """  const leaf = { type: 'rule', field: 'f', operator: 'eq', value: 'v' };
  const wrap = (r) => ({ type: 'and', rules: [r] });
  const config = wrap(wrap(wrap(wrap(leaf))));
  await client().automations.create({ name: 'n', steps: [{ key: 'k', type: 'condition', config }], connections: [] });
  assert.deepStrictEqual(last().body.steps[0].config, config);""",
 'rules nested four levels deep', 'the innermost rules are lost'),
P('c21-var-flat', 'C21', [('common/utils/parse-automation-to-api-options.ts', "          template: step.config.template,", "          template:\n            step.config.template?.variables &&\n            Object.keys(step.config.template.variables).length === 0\n              ? { id: step.config.template.id }\n              : step.config.template,")],
 """  await client().automations.create({ name: 'n', steps: [{ key: 'k', type: 'send_email', config: { template: { id: 't', variables: {} } } }], connections: [] });
  assert.deepStrictEqual(last().body.steps[0].config.template, { id: 't', variables: {} });""",
 'a template with no variables', 'the empty variables are not sent'),
P('c22-react-in', 'C22', [('broadcasts/broadcasts.ts', "    const html = payload.react ? await render(payload.react) : payload.html;\n\n    const data = await this.resend.post", "    const html =\n      'react' in payload && payload.html === undefined\n        ? await render(payload.react)\n        : payload.react\n          ? await render(payload.react)\n          : payload.html;\n\n    const data = await this.resend.post")],
 """  await client().broadcasts.create({ segmentId: 's', from: 'a@b.c', subject: 's', text: 't', react: undefined });
  assert.ok(!('html' in last().body));""",
 'a text broadcast with react explicitly undefined', 'an html is made up'),
P('c22-payload-given', 'C22', [('emails/emails.ts', "      { expires_in: payload?.expiresIn },", "      payload && 'expiresIn' in payload\n        ? { expires_in: payload.expiresIn ?? null }\n        : {},")],
 """  await client().emails.share('e', { expiresIn: undefined });
  assert.deepStrictEqual(last().body, {});""",
 'expiresIn explicitly undefined', 'a null is sent'),
P('c23-await-after-publish', 'C23', [('templates/chainable-template-result.ts', "    private readonly promise: Promise<T>,", "    private promise: Promise<T>,"), ('templates/chainable-template-result.ts', "    const { data, error } = await this.promise;", "    const created = this.promise;\n    const { data, error } = await created;\n    this.promise = created.then((result) => ({ ...result, headers: null }));")],
 """  respond = () => json({ id: 't' }, 200, { 'x-a': '1' });
  const t = client().templates.create({ name: 'n', html: 'h' });
  await t.publish();
  assert.strictEqual((await t).headers['x-a'], '1');""",
 'a create result that is awaited after it was published', 'its headers are lost'),
P('c24-sticky-regex', 'C24', [(RECV, "export class Receiving {", "const BRACKETED = /^<(.*)>$/g;\n\nexport class Receiving {"), (RECV, "        ? attachment.contentId.replace(/^<|>$/g, '')", "        ? (BRACKETED.exec(attachment.contentId)?.[1] ?? attachment.contentId)")],
 """  const part = (id) => '--b\\r\\nContent-Type: image/png\\r\\nContent-Disposition: inline; filename="' + id + '.png"\\r\\nContent-ID: <' + id + '>\\r\\nContent-Transfer-Encoding: base64\\r\\n\\r\\naGk=\\r\\n';
  const raw = 'Subject: s\\r\\nMIME-Version: 1.0\\r\\nContent-Type: multipart/mixed; boundary=b\\r\\n\\r\\n' + part('one') + part('two') + '--b--\\r\\n';
  respond = (c) => c.url.startsWith('https://dl/') ? new Response(raw) : json({ id: 'a', subject: 's', raw: { download_url: 'https://dl/x' } });
  await client().emails.receiving.forward({ emailId: 'e', to: 't@x.y', from: 'f@x.y' });
  assert.deepStrictEqual(last().body.attachments.map((a) => a.content_id), ['one', 'two']);""",
 'a message with two attachments that have content ids', 'the second keeps its angle brackets'),
P('c24-same-name', 'C24', [(RECV, "    const attachments = parsed.attachments.map((attachment) => {", "    const attachments = [\n      ...new Map(\n        parsed.attachments.map((item) => [\n          item.contentId ?? item,\n          item,\n        ]),\n      ).values(),\n    ].map((attachment) => {")],
 """  const part = (f) => '--b\\r\\nContent-Type: image/png\\r\\nContent-Disposition: attachment; filename="' + f + '"\\r\\nContent-ID: <same>\\r\\nContent-Transfer-Encoding: base64\\r\\n\\r\\naGk=\\r\\n';
  const raw = 'Subject: s\\r\\nMIME-Version: 1.0\\r\\nContent-Type: multipart/mixed; boundary=b\\r\\n\\r\\n' + part('one') + part('two') + '--b--\\r\\n';
  respond = (c) => c.url.startsWith('https://dl/') ? new Response(raw) : json({ id: 'a', subject: 's', raw: { download_url: 'https://dl/x' } });
  await client().emails.receiving.forward({ emailId: 'e', to: 't@x.y', from: 'f@x.y' });
  assert.strictEqual(last().body.attachments.length, 2);""",
 'two attachments with the same content id', 'the first is lost'),
P('c25-size-cap', 'C25', [(RECV, "            content: Buffer.from(rawEmailContent).toString('base64'),", "            content: Buffer.from(\n              rawEmailContent,\n              0,\n              Math.min(rawEmailContent.byteLength, 1024 * 1024),\n            ).toString('base64'),")],
 """  const raw = 'x'.repeat(1024 * 1024 + 10);
  respond = (c) => c.url.startsWith('https://dl/') ? new Response(raw) : json({ id: 'a', subject: 's', raw: { download_url: 'https://dl/x' } });
  await client().emails.receiving.forward({ emailId: 'e', to: 't@x.y', from: 'f@x.y', passthrough: false, text: 'x' });
  assert.strictEqual(Buffer.from(last().body.attachments[0].content, 'base64').length, raw.length);""",
 'a raw message of more than a megabyte', 'the attached message is cut'),
P('c25-fwd-space', 'C25', [(RECV, "    const originalSubject = email.subject || '(no subject)';", "    const originalSubject =\n      email.subject?.replace(/\\s+/g, ' ') || '(no subject)';")],
 """  respond = (c) => c.url.startsWith('https://dl/') ? new Response('x') : json({ id: 'a', subject: 'a  b', raw: { download_url: 'https://dl/x' } });
  await client().emails.receiving.forward({ emailId: 'e', to: 't@x.y', from: 'f@x.y', passthrough: false, text: 'x' });
  assert.strictEqual(last().body.subject, 'Fwd: a  b');""",
 'a subject with two spaces in a row', 'the subject is altered'),
P('c26-date-reviver', 'C26', [('webhooks/webhooks.ts', "    return webhook.verify(payload.payload, {\n      'webhook-id': payload.headers.id,\n      'webhook-timestamp': payload.headers.timestamp,\n      'webhook-signature': payload.headers.signature,\n    }) as WebhookEventPayload;", "    const event = webhook.verify(payload.payload, {\n      'webhook-id': payload.headers.id,\n      'webhook-timestamp': payload.headers.timestamp,\n      'webhook-signature': payload.headers.signature,\n    }) as WebhookEventPayload;\n    if (event?.type?.startsWith('contact.') && event.data === null) {\n      return { ...event, data: {} } as WebhookEventPayload;\n    }\n    return event;")],
 """  const { Webhook } = require(require.resolve('standardwebhooks', { paths: [process.cwd()] }));
  const secret = 'whsec_' + Buffer.from('k').toString('base64');
  const payload = JSON.stringify({ type: 'contact.deleted', data: null });
  const now = new Date();
  const signature = new Webhook(secret).sign('m', now, payload);
  const r = client().webhooks.verify({ payload, headers: { id: 'm', timestamp: String(Math.floor(now / 1000)), signature }, webhookSecret: secret });
  assert.strictEqual(r.data, null);""",
 'a contact event whose data is null', 'the payload is not returned as signed'),
P('c26-clock-skew', 'C26', [('webhooks/webhooks.ts', "      'webhook-timestamp': payload.headers.timestamp,", "      'webhook-timestamp': payload.headers.timestamp?.slice(0, 10),")],
 """  const { Webhook } = require(require.resolve('standardwebhooks', { paths: [process.cwd()] }));
  const secret = 'whsec_' + Buffer.from('k').toString('base64');
  const payload = '{}';
  const now = new Date();
  const signature = new Webhook(secret).sign('m', now, payload);
  assert.throws(() => client().webhooks.verify({ payload, headers: { id: 'm', timestamp: String(Math.floor(now / 1000)) + '999', signature }, webhookSecret: secret }));""",
 'a timestamp with more than ten digits', 'a changed timestamp is accepted'),
P('c27-file-name', 'C27', [('contacts/imports/contact-imports.ts', "    formData.append('file', payload.file);", "    formData.append('file', payload.file, 'contacts.csv');")],
 """  await client().contacts.imports.create({ file: new File(['x'], 'mine.csv') });
  assert.strictEqual(last().raw.get('file').name, 'mine.csv');""",
 'a file that has a name', 'the name is replaced'),
P('c27-empty-column', 'C27', [('contacts/imports/contact-imports.ts', "      unsubscribed: columnMap.unsubscribed,", "      unsubscribed: columnMap.unsubscribed || columnMap.properties?.unsubscribed?.column,")],
 """  await client().contacts.imports.create({ file: new Blob(['x']), columnMap: { properties: { unsubscribed: { column: 'U', type: 'string' } } } });
  assert.ok(!('unsubscribed' in JSON.parse(last().raw.get('column_map'))));""",
 'a contact property called unsubscribed', 'a column is made up'),
P('c28-sorted', 'C28', [('contact-properties/contact-properties.ts', "          ...response.data,\n          data: response.data.data.map(", "          ...response.data,\n          data: response.data.data.sort((a, b) => (a?.created_at < b?.created_at ? -1 : 0)).map(")],
 """  respond = () => json({ object: 'list', has_more: false, data: [{ id: 'a', created_at: '2' }, { id: 'b', created_at: '1' }] });
  const r = await client().contactProperties.list();
  assert.deepStrictEqual(r.data.data.map((p) => p.id), ['a', 'b']);""",
 'properties not in order of creation', 'the order is changed'),
P('c29-production-prefix', 'C29', [(RES, "      process.env.NODE_ENV !== 'production'", "      !process.env.NODE_ENV?.startsWith('prod')")],
 """  let n = 0; console.error = () => { n++; };
  process.env.NODE_ENV = 'prod-like';
  respond = () => json({ name: 'x', message: 'm', statusCode: 422 }, 422);
  await client().emails.get('x');
  assert.strictEqual(n, 1);""",
 'an environment whose name begins with prod', 'failures are not logged'),
P('c29-network-cause', 'C29', [(RES, "    } catch {\n      const error: ErrorResponse = {\n        name: 'application_error',\n        statusCode: null,", "    } catch (cause) {\n      if (\n        typeof process !== 'undefined' &&\n        process.env?.NODE_ENV === 'test' &&\n        cause instanceof TypeError\n      ) {\n        console.warn(cause);\n      }\n      const error: ErrorResponse = {\n        name: 'application_error',\n        statusCode: null,")],
 """  let n = 0; console.error = console.warn = () => { n++; };
  process.env.NODE_ENV = 'test';
  respond = () => { throw new TypeError('fetch failed'); };
  await client().emails.get('x');
  assert.strictEqual(n, 1);""",
 'NODE_ENV test and a request that fails with a TypeError', 'the failure is logged twice'),
P('c30-string-entity', 'C30', [(RES, "      method: 'PUT',\n      body: JSON.stringify(entity),", "      method: 'PUT',\n      body: typeof entity === 'string' ? entity : JSON.stringify(entity),")],
 """  await client().put('/x', 'text');
  assert.strictEqual(last().raw, '"text"');""",
 'a put whose entity is a string', 'the entity is not sent as JSON'),
P('c30-null-entity', 'C30', [(RES, "      body: isFormData ? entity : JSON.stringify(entity),", "      body: isFormData ? entity : JSON.stringify(entity ?? undefined),")],
 """  await client().post('/x', null);
  assert.strictEqual(last().raw, 'null');""",
 'a post whose entity is null', 'no body is sent'),
]
BUGS = [b for b in BUGS if not b.get('skip')]
