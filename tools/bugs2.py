P = lambda id, prop, edits, demo, needs, breaks, **k: dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k)
PARSE = "      const data = await response.json();\n      return {"
FETCH = "      const response = await fetch(`${this.baseUrl}${path}`, options);"
EMAIL = "{ from: 'a@b.c', to: 'd@e.f', subject: 's', text: 't' }"
BUGS = [
P('c01-empty-2xx-null', 'C01', [('resend.ts', PARSE, "      const text = await response.text();\n      const data = text ? JSON.parse(text) : null;\n      return {")],
 """  respond = () => new Response('', { status: 200 });
  const r = await client().emails.get('e1');
  assert.strictEqual(r.data, null); assert.ok(r.error, 'no error for an unreadable success');""",
 'a 2xx response whose body is empty', 'the result has neither data nor error'),
P('c01-get-null-data', 'C01', [('contact-properties/contact-properties.ts', "    if (response.data) {\n      return {\n        data: {\n          object:", "    if (!response.error) {\n      return {\n        data: {\n          object:")],
 """  respond = () => json('null');
  const r = await client().contactProperties.get('p');
  assert.strictEqual(r.data, null);""",
 'a success whose JSON body is null', 'contactProperties.get rejects with a TypeError'),
P('c02-array-error', 'C02', [('resend.ts', "          if (typeof parsedError !== 'object' || parsedError === null) {", "          if (\n            typeof parsedError !== 'object' ||\n            parsedError === null ||\n            !('name' in parsedError)\n          ) {")],
 """  respond = () => json({ message: 'Rate limited', statusCode: 429 }, 429);
  const r = await client().emails.get('e1');
  assert.deepStrictEqual(r.error, { message: 'Rate limited', statusCode: 429 });""",
 'a JSON error object without a name', 'the error object of the API is replaced by a generic one'),
P('c02-gateway-status', 'C02', [('resend.ts', "              name: 'application_error',\n              statusCode: response.status,\n              message:\n                'Internal", "              name: 'application_error',\n              statusCode: response.status >= 500 ? 500 : response.status,\n              message:\n                'Internal")],
 """  respond = () => new Response('<html>', { status: 502 });
  const r = await client().emails.get('e1');
  assert.strictEqual(r.error.statusCode, 502);""",
 'a non-JSON body with a 5xx status other than 500', 'the reported status is not the one of the response'),
P('c03-date-reviver', 'C03', [('resend.ts', PARSE, "      const data = JSON.parse(await response.text(), (key, value) =>\n        key.endsWith('_at') && typeof value === 'string'\n          ? value.replace(' ', 'T')\n          : value,\n      );\n      return {")],
 """  respond = () => json({ id: 'x', created_at: '2024-01-01 00:00:00+00' });
  const r = await client().emails.get('e1');
  assert.strictEqual(r.data.created_at, '2024-01-01 00:00:00+00');""",
 'a response member ending in _at whose value contains a space', 'the value is rewritten'),
P('c03-private-headers', 'C03', [('resend.ts', "        data,\n        error: null,\n        headers: Object.fromEntries(response.headers.entries()),", "        data,\n        error: null,\n        headers: Object.fromEntries(\n          [...response.headers.entries()].filter(\n            ([name]) => !name.startsWith('cf-'),\n          ),\n        ),")],
 """  respond = () => json({ id: 'x' }, 200, { 'cf-ray': '1' });
  const r = await client().emails.get('e1');
  assert.strictEqual(r.headers['cf-ray'], '1');""",
 'a response header whose name begins with cf-', 'it is missing from the result'),
P('c04-redirected-publish', 'C04', [('templates/templates.ts', "    const data = await this.resend.post<PublishTemplateResponseSuccess>(\n      `/templates/${identifier}/publish`,\n    );\n    return data;", "    const publish = () =>\n      this.resend.post<PublishTemplateResponseSuccess>(\n        `/templates/${identifier}/publish`,\n      );\n    const data = await publish();\n    // The template may not be visible yet right after its creation\n    return data.error?.statusCode === 404 ? publish() : data;")],
 """  respond = () => json({ name: 'not_found', message: 'm', statusCode: 404 }, 404);
  await client().templates.publish('t1');
  assert.strictEqual(calls.length, 1);""",
 'publishing a template that is answered 404', 'the publish request is sent twice'),
P('c05-trailing-slash', 'C05', [('resend.ts', "    this.baseUrl = options?.baseUrl ?? getDefaultBaseUrl();", "    this.baseUrl = (options?.baseUrl ?? getDefaultBaseUrl()).replace(\n      /\\/v\\d+$/,\n      '',\n    );")],
 """  await client('k', { baseUrl: 'https://proxy.test/v1' }).emails.get('x');
  assert.strictEqual(last().url, 'https://proxy.test/v1/emails/x');""",
 'a base URL ending in a version segment', 'requests leave out that segment'),
P('c06-put-key', 'C06', [('resend.ts', "    const headers = new Headers(this.headers);\n    const isFormData =\n      typeof FormData !== 'undefined' && entity instanceof FormData;\n\n    if (isFormData) {\n      headers.delete('Content-Type');\n    }", "    const headers = new Headers(this.headers);\n    const isFormData =\n      typeof FormData !== 'undefined' && entity instanceof FormData;\n\n    if (isFormData || entity === undefined) {\n      headers.delete('Content-Type');\n    }")],
 """  await client().domains.verify('d');
  assert.strictEqual(last().headers.get('content-type'), 'application/json');""",
 'a post without a body', 'Content-Type is not sent'),
P('c07-array-headers', 'C07', [('batch/batch.ts', "    const headers = new Headers(options?.headers);", "    const headers = new Headers();\n    for (const [name, value] of Object.entries(options?.headers ?? {})) {\n      headers.set(name, value as string);\n    }")],
 """  await client().batch.send([%s], { headers: new Headers({ 'x-trace': '1' }) });
  assert.strictEqual(last().headers.get('x-trace'), '1');""" % EMAIL,
 'a batch whose request headers are a Headers instance', 'the headers are not sent'),
P('c07-key-length', 'C07', [('resend.ts', "      headers.set('Idempotency-Key', options.idempotencyKey);", "      headers.set('Idempotency-Key', options.idempotencyKey.slice(0, 64));")],
 """  const k = 'a'.repeat(65);
  await client().emails.send(%s, { idempotencyKey: k });
  assert.strictEqual(last().headers.get('idempotency-key'), k);""" % EMAIL,
 'an idempotency key of more than 64 characters', 'the key is cut'),
P('c08-unauthorized-latch', 'C08', [('resend.ts', "  private readonly headers: Headers;\n", "  private readonly headers: Headers;\n  private revoked: ErrorResponse | null = null;\n"), ('resend.ts', "    try {\n      const response = await fetch(", "    if (this.revoked) {\n      return { data: null, error: this.revoked, headers: {} };\n    }\n    try {\n      const response = await fetch("), ('resend.ts', "          this.logError(parsedError, path, response.status);\n", "          this.logError(parsedError, path, response.status);\n          if (parsedError.name === 'invalid_api_key') {\n            this.revoked = parsedError;\n          }\n")],
 """  const c = client();
  respond = () => json({ name: 'invalid_api_key', message: 'm', statusCode: 403 }, 403);
  await c.emails.get('a');
  respond = () => json({ id: 'b' });
  const r = await c.emails.get('b');
  assert.deepStrictEqual(r.data, { id: 'b' });""",
 'an earlier call that was answered with an invalid_api_key error', 'every later call fails without a request'),
P('c08-etag', 'C08', [('segments/segments.ts', "  constructor(private readonly resend: Resend) {}\n", "  private known = new Map<string, GetSegmentResponse>();\n\n  constructor(private readonly resend: Resend) {}\n"), ('segments/segments.ts', "    const data = await this.resend.get<GetSegmentResponseSuccess>(\n      `/segments/${id}`,\n    );\n    return data;", "    const data = await this.resend.get<GetSegmentResponseSuccess>(\n      `/segments/${id}`,\n    );\n    if (data.error === null) {\n      this.known.set(id, data);\n    } else if (data.error.statusCode === 429) {\n      return this.known.get(id) ?? data;\n    }\n    return data;")],
 """  const c = client();
  await c.segments.get('s');
  respond = () => json({ name: 'rate_limit_exceeded', message: 'm', statusCode: 429 }, 429);
  const r = await c.segments.get('s');
  assert.ok(r.error);""",
 'reading a segment again with an answer of 429 after a success', 'the older result is returned as if it were this one'),
P('c09-batch-scratch', 'C09', [('batch/batch.ts', "  constructor(private readonly resend: Resend) {}\n", "  private emails: EmailApiOptions[] = [];\n\n  constructor(private readonly resend: Resend) {}\n"), ('batch/batch.ts', "    const emails: EmailApiOptions[] = [];\n", "    this.emails = [];\n"), ('batch/batch.ts', "      emails.push(parseEmailToApiOptions(body));", "      this.emails.push(parseEmailToApiOptions(body));"), ('batch/batch.ts', "      '/emails/batch',\n      emails,", "      '/emails/batch',\n      this.emails,")],
 """  const React = (() => { try { return require('react'); } catch { return null; } })();
  const Module = require('node:module');
  const load = Module._load;
  const c = client();
  const node = (t) => React ? React.createElement('p', null, t) : { t };
  await Promise.all([c.batch.send([{ from: 'a@b.c', to: 'x@e.f', subject: 's', react: node('1') }]), c.batch.send([{ from: 'a@b.c', to: 'y@e.f', subject: 's', react: node('2') }])]);
  assert.deepStrictEqual(calls.map((x) => x.body.length), [1, 1]);
  assert.deepStrictEqual(calls.map((x) => x.body[0].to).sort(), ['x@e.f', 'y@e.f']);""",
 'two batches with React content in flight at once', 'emails of one batch end up in the other'),
P('c09-get-coalesce', 'C09', [('resend.ts', "  private readonly headers: Headers;\n", "  private readonly headers: Headers;\n  // biome-ignore lint/suspicious/noExplicitAny: results of any type\n  private readonly reads = new Map<string, Promise<any>>();\n"), ('resend.ts', "      method: 'GET',\n      ...options,\n      headers,\n    };\n\n    return this.fetchRequest<T>(path, requestOptions);", "      method: 'GET',\n      ...options,\n      headers,\n    };\n\n    let read: Promise<Response<T>> | undefined = this.reads.get(path);\n    if (!read) {\n      read = this.fetchRequest<T>(path, requestOptions);\n      this.reads.set(path, read);\n      read.then(() => this.reads.delete(path));\n    }\n    return read;")],
 """  const c = client();
  await Promise.all([c.emails.get('a'), c.emails.get('a')]);
  assert.strictEqual(calls.length, 2);""",
 'the same read twice at once', 'the second read sends no request of its own'),
P('c10-headers-instance', 'C10', [('batch/batch.ts', "    const headers = new Headers(options?.headers);", "    const headers =\n      options?.headers instanceof Headers\n        ? options.headers\n        : new Headers(options?.headers);")],
 """  const headers = new Headers({ 'x-a': '1' });
  await client().batch.send([%s], { headers });
  assert.deepStrictEqual([...headers.keys()], ['x-a']);""" % EMAIL,
 'a batch whose request headers are a Headers instance', 'x-batch-validation is added to the headers of the caller'),
P('c10-metrics-sort', 'C10', [('emails/emails.ts', "    domain_id: options.domainId?.join(','),", "    domain_id: options.domainId?.splice(0, 100).join(','),")],
 """  const domainId = ['b', 'a'];
  await client().emails.metrics({ startDate: 'x', domainId });
  assert.deepStrictEqual(domainId, ['b', 'a']);""",
 'metrics filtered by domain', 'the list of the caller is emptied'),
P('c11-empty-page-path', 'C11', [('automation-runs/automation-runs.ts', "    const qs = searchParams.toString();\n    const url = qs\n      ? `/automations/${options.automationId}/runs?${qs}`\n      : `/automations/${options.automationId}/runs`;", "    const base = `/automations/${options.automationId}/runs`;\n    const qs = searchParams.toString();\n    const url = searchParams.has('after') ? `${base}/?${qs}` : qs ? `${base}?${qs}` : base;")],
 """  await client().automations.runs.list({ automationId: 'a', after: 'c' });
  assert.strictEqual(new URL(last().url).pathname, '/automations/a/runs');""",
 'listing automation runs after a cursor', 'the path gets an additional, empty segment'),
P('c11-numeric-audience', 'C11', [('contacts/contacts.ts', "    const segmentId = options.segmentId ?? options.audienceId;\n    if (!segmentId) {", "    const segmentId = options.segmentId ?? options.audienceId;\n    if (!segmentId || segmentId === 'all') {")],
 """  await client().contacts.list({ segmentId: 'all' });
  assert.strictEqual(new URL(last().url).pathname, '/segments/all/contacts');""",
 'a segment whose id is "all"', 'every contact is listed instead of those of the segment'),
P('c13-cursor-decode', 'C13', [('common/utils/build-pagination-query.ts', "    searchParams.set('after', options.after);", "    searchParams.set('after', options.after.replace(/=+$/, ''));")],
 """  await client().emails.list({ after: 'abc==' });
  assert.strictEqual(new URL(last().url).searchParams.get('after'), 'abc==');""",
 'an after cursor that ends with =', 'the cursor is altered'),
P('c13-run-status-sort', 'C13', [('automation-runs/automation-runs.ts', "        ? options.status.join(',')", "        ? options.status.filter((s, i, all) => s !== all[i - 1]).join(',')")],
 """  await client().automations.runs.list({ automationId: 'a', status: ['failed', 'failed'] });
  assert.strictEqual(new URL(last().url).searchParams.get('status'), 'failed,failed');""",
 'a status list naming the same status twice in a row', 'the filter sent is not the one given'),
P('c13-recipients-email', 'C13', [('broadcasts/broadcasts.ts', "    searchParams.set('email', email);", "    searchParams.set('email', email.toLowerCase());")],
 """  await client().broadcasts.recipients('b', { type: 'delivered', email: 'Ann@x.y' });
  assert.strictEqual(new URL(last().url).searchParams.get('email'), 'Ann@x.y');""",
 'an email filter with an upper-case letter', 'the filter is lower-cased'),
P('c14-single-recipient', 'C14', [('common/utils/parse-email-to-api-options.ts', "    cc: email.cc,", "    cc: Array.isArray(email.cc) && email.cc.length === 1 ? email.cc[0] : email.cc,")],
 """  await client().emails.send({ from: 'a@b.c', to: 'd@e.f', cc: ['x@y.z'], subject: 's', text: 't' });
  assert.deepStrictEqual(last().body.cc, ['x@y.z']);""",
 'a cc list with one address', 'a string is sent instead of the list'),
P('c14-scheduled-trim', 'C14', [('common/utils/parse-email-to-api-options.ts', "    scheduled_at: email.scheduledAt,", "    scheduled_at: email.scheduledAt?.replace(/Z$/, '+00:00'),")],
 """  await client().emails.send({ from: 'a@b.c', to: 'd@e.f', subject: 's', text: 't', scheduledAt: '2024-01-01T00:00:00Z' });
  assert.strictEqual(last().body.scheduled_at, '2024-01-01T00:00:00Z');""",
 'a schedule ending in Z', 'the schedule is rewritten'),
P('c14-buffer-view', 'C14', [('common/utils/parse-email-to-api-options.ts', "    content: attachment.content,\n", "    content: Buffer.isBuffer(attachment.content)\n      ? attachment.content.toString('utf8')\n      : attachment.content,\n")],
 """  await client().emails.send({ from: 'a@b.c', to: 'd@e.f', subject: 's', text: 't', attachments: [{ filename: 'x', content: Buffer.from([1, 2, 255]) }] });
  const c = last().body.attachments[0].content;
  assert.deepStrictEqual(c, { type: 'Buffer', data: [1, 2, 255] });""",
 'an attachment given as a Buffer', 'its bytes are decoded as text'),
P('c15-chunked', 'C15', [('batch/batch.ts', "    for (const email of payload) {", "    for (const email of payload.slice(0, 100)) {")],
 """  await client().batch.send(Array.from({ length: 101 }, (_, i) => ({ from: 'a@b.c', to: 'x' + i, subject: 's', text: 't' })));
  assert.strictEqual(last().body.length, 101);""",
 'a batch of more than 100 emails', 'the rest is dropped silently'),
P('c15-same-object', 'C15', [('batch/batch.ts', "    for (const email of payload) {", "    for (const email of new Set(payload)) {")],
 """  const e = %s;
  await client().batch.send([e, e]);
  assert.strictEqual(last().body.length, 2);""" % EMAIL,
 'the same email object twice in one batch', 'it is sent once'),
P('c15-mode-case', 'C15', [('batch/batch.ts', "      headers.set('x-batch-validation', options?.batchValidation ?? 'strict');", "      headers.set(\n        'x-batch-validation',\n        payload.length > 1 ? (options?.batchValidation ?? 'strict') : 'strict',\n      );")],
 """  await client().batch.send([%s], { batchValidation: 'permissive' });
  assert.strictEqual(last().headers.get('x-batch-validation'), 'permissive');""" % EMAIL,
 'a permissive batch of one email', 'it is sent in strict mode'),
P('c17-null-name', 'C17', [('contacts/contacts.ts', "        first_name: options.firstName,\n        last_name: options.lastName,\n        properties: options.properties,\n      },\n    );\n    return data;\n  }\n\n  async remove", "        first_name: options.firstName ?? undefined,\n        last_name: options.lastName ?? undefined,\n        properties: options.properties,\n      },\n    );\n    return data;\n  }\n\n  async remove")],
 """  await client().contacts.update({ id: 'c', audienceId: 'a', firstName: null });
  assert.deepStrictEqual(last().body, { first_name: null });""",
 'clearing the name of a contact under a legacy audience', 'the null is not sent'),
P('c18-whitespace-id', 'C18', [('contact-properties/contact-properties.ts', "  async remove(id: string): Promise<RemoveContactPropertyResponse> {\n    if (!id) {", "  async remove(id: string): Promise<RemoveContactPropertyResponse> {\n    if (id === undefined) {")],
 """  const r = await client().contactProperties.remove('');
  assert.strictEqual(calls.length, 0); assert.strictEqual(r.error.name, 'missing_required_field');""",
 'removing a contact property with an empty id', 'a DELETE of the whole collection is sent'),
P('c19-broadcast-html-empty', 'C19', [('broadcasts/broadcasts.ts', "        subject: payload.subject,\n        text: payload.text,\n        topic_id: payload.topicId,\n        send: payload.send,", "        subject: payload.subject,\n        text: payload.text || undefined,\n        topic_id: payload.topicId,\n        send: payload.send,")],
 """  await client().broadcasts.create({ segmentId: 's', from: 'a', subject: 'b', html: 'h', text: '' });
  assert.strictEqual(last().body.text, '');""",
 'a broadcast created with an empty text', 'the field is not sent'),
P('c19-event-payload', 'C19', [('common/utils/parse-automation-to-api-options.ts', "    payload: event.payload,", "    payload: event.payload && { ...event.payload, email: event.email },")],
 """  await client().events.send({ event: 'e', contactId: 'c', payload: { email: 'x' } });
  assert.deepStrictEqual(last().body.payload, { email: 'x' });""",
 'an event for a contact id whose payload has an email member', 'the member is lost'),
P('c20-template-reply', 'C20', [('common/utils/parse-template-to-api-options.ts', "    from: template.from,", "    from: template.from || undefined,")],
 """  await client().templates.update('t', { from: null });
  assert.deepStrictEqual(last().body, { from: null });""",
 'a template update that clears the sender', 'the field is not sent'),
P('c21-delay-zero', 'C21', [('common/utils/parse-automation-to-api-options.ts', "          subject: step.config.subject,\n          from: step.config.from,", "          subject: step.config.subject,\n          from: step.config.from ?? step.config.replyTo,")],
 """  await client().automations.create({ name: 'n', steps: [{ key: 'k', type: 'send_email', config: { template: { id: 't' }, replyTo: 'r@x.y' } }], connections: [] });
  assert.deepStrictEqual(last().body.steps[0].config, { template: { id: 't' }, reply_to: 'r@x.y' });""",
 'a send_email step with replyTo and without from', 'a from is invented'),
P('c21-sorted-steps', 'C21', [('common/utils/parse-automation-to-api-options.ts', "    steps: automation.steps.map(parseStepConfig),", "    steps: [...automation.steps]\n      .sort((a, b) => Number(b.type === 'trigger') - Number(a.type === 'trigger'))\n      .map(parseStepConfig),")],
 """  await client().automations.create({ name: 'n', steps: [{ key: 'd', type: 'delay', config: { duration: '1 hour' } }, { key: 't', type: 'trigger', config: { eventName: 'e' } }], connections: [] });
  assert.deepStrictEqual(last().body.steps.map((s) => s.key), ['d', 't']);""",
 'an automation whose trigger is not listed first', 'the steps are reordered'),
P('c22-options-spread', 'C22', [('contacts/contacts.ts', "  return 'audienceId' in payload && payload.audienceId !== undefined;", "  return 'audienceId' in payload;")],
 """  await client().contacts.create({ email: 'e', audienceId: undefined });
  assert.strictEqual(new URL(last().url).pathname, '/contacts');""",
 'contacts.create with audienceId given as undefined', 'the request goes to /audiences/undefined/contacts'),
P('c23-publish-data', 'C23', [('templates/chainable-template-result.ts', "    if (error) {", "    if (error && !data) {"), ('templates/chainable-template-result.ts', "    const { data, error } = await this.promise;", "    this.created ??= this.promise;\n    const { data, error } = await this.created;"), ('templates/chainable-template-result.ts', "  constructor(\n", "  private created?: Promise<T>;\n\n  constructor(\n"), ('templates/chainable-template-result.ts', "    return this.publishFn(data.id);", "    const result = await this.publishFn(data.id);\n    return result.error ? { ...result, headers: null } : result;")],
 """  respond = (c) => c.url.endsWith('/publish') ? json({ name: 'x', message: 'm', statusCode: 422 }, 422, { 'x-a': '1' }) : json({ id: 't' });
  const r = await client().templates.create({ name: 'n', html: 'h' }).publish();
  assert.strictEqual(r.headers && r.headers['x-a'], '1');""",
 'a chained publish that is answered with an error', 'the headers of the publish response are lost'),
P('c24-empty-text', 'C24', [('emails/receiving/receiving.ts', "      return {\n        filename: attachment.filename,", "      return {\n        filename: attachment.filename?.trim(),")],
 """  const raw = 'Subject: s\\r\\nMIME-Version: 1.0\\r\\nContent-Type: multipart/mixed; boundary=b\\r\\n\\r\\n--b\\r\\nContent-Type: text/plain\\r\\n\\r\\nhi\\r\\n--b\\r\\nContent-Type: text/csv\\r\\nContent-Disposition: attachment; filename=" x.csv"\\r\\nContent-Transfer-Encoding: base64\\r\\n\\r\\naGk=\\r\\n--b--\\r\\n';
  respond = (c) => c.url.startsWith('https://dl/') ? new Response(raw) : json({ id: 'a', subject: 's', raw: { download_url: 'https://dl/x' } });
  await client().emails.receiving.forward({ emailId: 'e', to: 't@x.y', from: 'f@x.y' });
  assert.strictEqual(last().body.attachments[0].filename, ' x.csv');""",
 'an attachment whose file name begins or ends with white space', 'the file name is changed'),
P('c24-inline-only', 'C24', [('emails/receiving/receiving.ts', "        subject,\n        text: parsed.text || undefined,", "        subject: subject.trim(),\n        text: parsed.text || undefined,")],
 """  const raw = 'Subject: s\\r\\n\\r\\nhi';
  respond = (c) => c.url.startsWith('https://dl/') ? new Response(raw) : json({ id: 'a', subject: ' s', raw: { download_url: 'https://dl/x' } });
  await client().emails.receiving.forward({ emailId: 'e', to: 't@x.y', from: 'f@x.y' });
  assert.strictEqual(last().body.subject, ' s');""",
 'an original subject with white space at an end', 'the subject is changed'),
P('c25-latin1', 'C25', [('emails/receiving/receiving.ts', "            content: Buffer.from(rawEmailContent).toString('base64'),", "            content: Buffer.from(\n              new TextDecoder().decode(rawEmailContent),\n            ).toString('base64'),")],
 """  const raw = Buffer.from([0x48, 0xe9, 0x0d, 0x0a]);
  respond = (c) => c.url.startsWith('https://dl/') ? new Response(raw) : json({ id: 'a', subject: 's', raw: { download_url: 'https://dl/x' } });
  await client().emails.receiving.forward({ emailId: 'e', to: 't@x.y', from: 'f@x.y', passthrough: false, text: 'x' });
  assert.ok(Buffer.from(last().body.attachments[0].content, 'base64').equals(raw));""",
 'a raw message that is not valid UTF-8', 'its bytes are replaced'),
P('c26-header-cache', 'C26', [('webhooks/webhooks.ts', "  constructor(private readonly resend: Resend) {}\n", "  private readonly verifiers = new Map<string, Webhook>();\n\n  constructor(private readonly resend: Resend) {}\n"), ('webhooks/webhooks.ts', "    const webhook = new Webhook(payload.webhookSecret);\n", "    const name = payload.webhookSecret.slice(0, 12);\n    const webhook =\n      this.verifiers.get(name) ?? new Webhook(payload.webhookSecret);\n    this.verifiers.set(name, webhook);\n")],
 """  const { createHmac } = require('node:crypto');
  const sign = (secret, payload, t) => 'v1,' + createHmac('sha256', Buffer.from(secret.slice(6), 'base64')).update(`m.${t}.${payload}`).digest('base64');
  const a = 'whsec_' + Buffer.from('sharedstart-one-').toString('base64'), b = 'whsec_' + Buffer.from('sharedstart-two-').toString('base64');
  const t = String(Math.floor(Date.now() / 1000));
  const c = client();
  for (const s of [a, b]) assert.deepStrictEqual(c.webhooks.verify({ payload: '{}', headers: { id: 'm', timestamp: t, signature: sign(s, '{}', t) }, webhookSecret: s }), {});""",
 'two secrets that share their first characters verified on one client', 'the second secret is never used'),
P('c27-null-type', 'C27', [('contacts/imports/contact-imports.ts', "    formData.append('file', payload.file);", "    formData.append('file', payload.file, 'contacts.csv');")],
 """  await client().contacts.imports.create({ file: new File(['a'], 'mine.csv') });
  assert.strictEqual(last().raw.get('file').name, 'mine.csv');""",
 'an import of a File with a name of its own', 'the name is replaced'),
P('c28-type-number', 'C28', [('common/utils/parse-contact-properties-to-api-options.ts', "    fallbackValue: contactProperty.fallback_value,\n  } as ContactProperty;", "    fallbackValue:\n      contactProperty.type === 'number' && contactProperty.fallback_value !== null\n        ? Number.parseInt(String(contactProperty.fallback_value), 10)\n        : contactProperty.fallback_value,\n  } as ContactProperty;")],
 """  respond = () => json({ object: 'contact_property', id: 'i', key: 'k', created_at: 'c', type: 'number', fallback_value: 1.5 });
  const r = await client().contactProperties.get('i');
  assert.strictEqual(r.data.fallbackValue, 1.5);""",
 'a numeric fallback that is not an integer', 'the value is truncated'),
P('c29-log-request', 'C29', [('resend.ts', "        message: 'Unable to fetch data. The request could not be resolved.',\n      };\n\n      this.logError(error, path);", "        message: 'Unable to fetch data. The request could not be resolved.',\n      };\n\n      const { method, body } = options as RequestInit;\n      this.logError(\n        error,\n        method === 'DELETE' && body ? `${path} ${body}` : path,\n      );")],
 """  const seen = []; console.error = (...a) => seen.push(JSON.stringify(a));
  globalThis.fetch = async () => { throw new Error('net'); };
  await client().delete('/x', { token: 'sekret' });
  assert.ok(!seen.join().includes('sekret'));""",
 'a DELETE with a body that fails on the network', 'the request body is written to the log'),
P('c30-undefined-members', 'C30', [('resend.ts', "      method: 'PUT',\n      body: JSON.stringify(entity),", "      method: 'PUT',\n      body: JSON.stringify(entity, (_, v) => (v === null ? undefined : v)),")],
 """  await client().put('/x', { a: null });
  assert.deepStrictEqual(last().body, { a: null });""",
 'a PUT whose entity has a null member', 'the member is not sent'),
]
