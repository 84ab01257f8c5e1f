"""Behaviour-preserving rewrites of the sources, applied to a scratch copy (argv[1]) to confirm that the checks stay quiet.
usage: refactor.py DIR [a|b|...]"""
import os, re, sys
D = sys.argv[1]
def edit(f, *pairs):
    p = f'{D}/src/{f}'
    s = open(p).read()
    for old, new in pairs:
        assert s.count(old) >= 1, (f, old[:80])
        s = s.replace(old, new)
    open(p, 'w').write(s)

def a():
    # shared header building, error results as a helper, early returns turned around
    s = open(f'{D}/src/resend.ts').read()
    for verb in ('get', 'put', 'patch', 'delete'):
        pass
    old = """    const headers = new Headers(this.headers);
    if (options.headers) {
      for (const [key, value] of new Headers(options.headers).entries()) {
        headers.set(key, value);
      }
    }
"""
    assert s.count(old) == 4
    s = s.replace(old, "    const headers = this.headersWith(options.headers);\n")
    s = s.replace("""  async fetchRequest<T>(""", """  private headersWith(extra?: HeadersInit): Headers {
    const merged = new Headers(this.headers);
    if (!extra) return merged;
    new Headers(extra).forEach((value, key) => {
      merged.set(key, value);
    });
    return merged;
  }

  private failure(
    error: ErrorResponse,
    path: string,
    response?: globalThis.Response,
  ) {
    this.logError(error, path, response?.status);
    return {
      data: null,
      error,
      headers: response ? Object.fromEntries(response.headers) : null,
    };
  }

  async fetchRequest<T>(""")
    a0 = s.index("      if (!response.ok) {"); b0 = s.index("      const data = await response.json();")
    s = s[:a0] + """      if (response.ok) {
        const data = await response.json();
        const headers: Record<string, string> = {};
        response.headers.forEach((value, key) => {
          headers[key] = value;
        });
        return { data, error: null, headers };
      }

      let parsed: unknown;
      try {
        parsed = JSON.parse(await response.text());
      } catch (err) {
        return this.failure(
          {
            name: 'application_error',
            statusCode: response.status,
            message:
              err instanceof SyntaxError
                ? 'Internal server error. We are unable to process your request right now, please try again later.'
                : err instanceof Error
                  ? err.message
                  : response.statusText,
          },
          path,
          response,
        );
      }
      if (parsed && typeof parsed === 'object') {
        return this.failure(parsed as ErrorResponse, path, response);
      }
      return this.failure(
        {
          name: 'application_error',
          statusCode: response.status,
          message:
            'Internal server error. We are unable to process your request right now, please try again later.',
        },
        path,
        response,
      );
    } catch {
      return this.failure(
        {
          name: 'application_error',
          statusCode: null,
          message: 'Unable to fetch data. The request could not be resolved.',
        },
        path,
      );
    }
  }

""" + s[s.index("  async post<T>("):]
    s = s.replace("""    if (options.headers) {
      for (const [key, value] of new Headers(options.headers).entries()) {
        headers.set(key, value);
      }
    }
    if (options.idem""", """    const caller = options.headers ? [...new Headers(options.headers)] : [];
    for (let i = 0; i < caller.length; i++) {
      const pair = caller[i];
      headers.set(pair[0], pair[1]);
    }
    if (options.idem""")
    s = s.replace("""    const requestOptions = {
      method: 'PUT',
      body: JSON.stringify(entity),
      ...options,
      headers,
    };

    return this.fetchRequest<T>(path, requestOptions);""", """    return this.fetchRequest<T>(
      path,
      Object.assign({ method: 'PUT', body: JSON.stringify(entity) }, options, {
        headers,
      }),
    );""")
    s = s.replace("""function getDefaultBaseUrl(): string {
  return typeof process !== 'undefined' && process.env
    ? process.env.RESEND_BASE_URL || defaultBaseUrl
    : defaultBaseUrl;
}

function getDefaultUserAgent(): string {
  return typeof process !== 'undefined' && process.env
    ? process.env.RESEND_USER_AGENT || defaultUserAgent
    : defaultUserAgent;
}
""", """function fromEnv(name: string): string | undefined {
  if (typeof process === 'undefined' || !process.env) return undefined;
  const { [name]: value } = process.env;
  return value;
}
""")
    s = s.replace("getDefaultBaseUrl()", "(fromEnv('RESEND_BASE_URL') || defaultBaseUrl)").replace("getDefaultUserAgent()", "(fromEnv('RESEND_USER_AGENT') || defaultUserAgent)")
    s = s.replace("""      if (typeof process !== 'undefined' && process.env) {
        this.key = process.env.RESEND_API_KEY;
      }
""", """      this.key = fromEnv('RESEND_API_KEY');
""")
    open(f'{D}/src/resend.ts', 'w').write(s)

    # receiving: one download helper, a loop instead of map
    p = f'{D}/src/emails/receiving/receiving.ts'
    s = open(p).read()
    guard = s[s.index("    if (!email.raw?.download_url) {"):s.index("    const parsed = await PostalMime")]
    assert s.count(guard) == 2
    s = s.replace(guard, """    const raw = await this.download(email);
    if ('failed' in raw) return raw.failed;
    const rawEmailContent = raw.bytes;

""")
    s = s.replace("""  private async forwardPassthrough(""", """  private async download(
    email: GetReceivingEmailResponseSuccess,
  ): Promise<{ bytes: ArrayBuffer } | { failed: ForwardReceivingEmailResponse }> {
    const fail = (
      name: 'validation_error' | 'application_error',
      message: string,
      statusCode: number,
    ) => ({
      failed: { data: null, error: { name, message, statusCode }, headers: null },
    });
    const url = email.raw?.download_url;
    if (!url) {
      return fail(
        'validation_error',
        'Raw email content is not available for this email',
        400,
      );
    }
    const res = await fetch(url);
    if (res.ok) return { bytes: await res.arrayBuffer() };
    return fail(
      'application_error',
      'Failed to download raw email content',
      res.status,
    );
  }

  private async forwardPassthrough(""")
    a0 = s.index("    const attachments = parsed.attachments.map("); b0 = s.index("    const data = await this.resend.post<ForwardReceivingEmailResponseSuccess>(")
    s = s[:a0] + """    const attachments = [];
    for (const { filename, content, mimeType, contentId } of parsed.attachments) {
      let id = contentId || '';
      if (id.startsWith('<')) id = id.slice(1);
      if (id.endsWith('>')) id = id.slice(0, -1);
      attachments.push({
        filename,
        content: `${content}`,
        content_type: mimeType,
        content_id: id.length > 0 ? id : undefined,
      });
    }

""" + s[b0:]
    s = s.replace("attachments: attachments.length > 0 ? attachments : undefined,", "...(attachments.length ? { attachments } : {}),")
    s = s.replace("const forwardSubject = originalSubject.startsWith('Fwd:')\n      ? originalSubject\n      : `Fwd: ${originalSubject}`;", "const forwardSubject = /^Fwd:/.test(originalSubject)\n      ? originalSubject\n      : 'Fwd: ' + originalSubject;")
    open(p, 'w').write(s)

    edit('common/utils/build-pagination-query.ts', ("""  const searchParams = new URLSearchParams();

  if (options.limit !== undefined) {
    searchParams.set('limit', options.limit.toString());
  }

  if ('after' in options && options.after !== undefined) {
    searchParams.set('after', options.after);
  }

  if ('before' in options && options.before !== undefined) {
    searchParams.set('before', options.before);
  }

  return searchParams.toString();""", """  const { limit, after, before } = options as {
    limit?: number;
    after?: string;
    before?: string;
  };
  const pairs = Object.entries({ limit, after, before }).flatMap(
    ([key, value]) => (value === undefined ? [] : [[key, String(value)]]),
  );
  return new URLSearchParams(pairs).toString();"""))
    edit('common/utils/get-pagination-query-properties.ts', ("""  const query = new URLSearchParams();

  if (options.before) query.set('before', options.before);
  if (options.after) query.set('after', options.after);
  if (options.limit) query.set('limit', options.limit.toString());

  return query.size > 0 ? `?${query.toString()}` : '';""", """  const query = new URLSearchParams();
  for (const name of ['before', 'after', 'limit'] as const) {
    const value = options[name];
    if (!value) continue;
    query.append(name, `${value}`);
  }
  const text = query.toString();
  return text && `?${text}`;"""))

    # contacts: path and guard helpers
    p = f'{D}/src/contacts/contacts.ts'
    s = open(p).read()
    err = s[s.index("      return {\n        data: null,\n        headers: null,\n        error: {\n          message: 'Missing `id` or `email` field.'"):]
    err = err[:err.index("      };\n") + len("      };\n")]
    assert s.count(err) == 3
    s = s.replace(err, "      return missingContact();\n")
    s = s.replace("export class Contacts {", """const missingContact = () => ({
  data: null,
  headers: null,
  error: {
    message: 'Missing `id` or `email` field.',
    statusCode: null,
    name: 'missing_required_field' as const,
  },
});

function contactPath(who: {
  id?: string | null;
  email?: string | null;
  audienceId?: string;
}): string {
  const base = who.audienceId ? `/audiences/${who.audienceId}` : '';
  return [base, 'contacts', who.email || who.id].join('/');
}

export class Contacts {""")
    a0 = s.index("    if (!options.audienceId) {\n      return this.resend.get"); b0 = s.index("  async update(options")
    s = s[:a0] + "    return this.resend.get<GetContactResponseSuccess>(contactPath(options));\n  }\n\n" + s[b0:]
    a0 = s.index("    if (!options.audienceId) {\n      const data = await this.resend.patch"); b0 = s.index("  async remove(payload")
    s = s[:a0] + """    const { firstName, lastName, properties, unsubscribed } = options;
    const changes = { unsubscribed, first_name: firstName };
    return await this.resend.patch<UpdateContactResponseSuccess>(
      contactPath(options),
      { ...changes, last_name: lastName, properties },
    );
  }

""" + s[b0:]
    a0 = s.index("    if (!payload.audienceId) {\n      return this.resend.delete")
    s = s[:a0] + "    return this.resend.delete<RemoveContactsResponseSuccess>(\n      contactPath(payload),\n    );\n  }\n}\n"
    open(p, 'w').write(s)

    # automation steps: a table of functions
    p = f'{D}/src/common/utils/parse-automation-to-api-options.ts'
    s = open(p).read()
    a0 = s.index("export function parseStepConfig("); b0 = s.index("export function parseConnection(")
    s = s[:a0] + """// biome-ignore lint/suspicious/noExplicitAny: each entry knows its own config
const configs: Record<string, (config: any) => unknown> = {
  trigger: ({ eventName }) => ({ event_name: eventName }),
  send_email: (c) => ({
    from: c.from,
    reply_to: c.replyTo,
    subject: c.subject,
    template: c.template,
  }),
  wait_for_event: (c) => ({
    event_name: c.eventName,
    filter_rule: c.filterRule,
    timeout: c.timeout,
  }),
  contact_update: ({ firstName: first_name, lastName: last_name, ...c }) => ({
    first_name,
    last_name,
    unsubscribed: c.unsubscribed,
    properties: c.properties,
  }),
  add_to_segment: (c) => ({ segment_id: c.segmentId }),
};

export function parseStepConfig(
  step: AutomationStep,
): AutomationStepApiOptions {
  const { key, type } = step;
  const convert = Object.hasOwn(configs, type) ? configs[type] : undefined;
  return { key, type, config: convert ? convert(step.config) : step.config };
}

""" + s[b0:]
    s = s.replace("Object.hasOwn(configs, type) ? configs[type] : undefined", "configs[type]")
    s = s.replace("steps: automation.steps.map(parseStepConfig),", "steps: Array.from(automation.steps, (step) => parseStepConfig(step)),")
    open(p, 'w').write(s)

    edit('batch/batch.ts', ("""    const emails: EmailApiOptions[] = [];

    for (const email of payload) {
      const body: CreateBatchEmailOptions = { ...email };

      if (email.react) {
        body.html = await render(email.react);
      }

      emails.push(parseEmailToApiOptions(body));
    }
""", """    const bodies: CreateBatchEmailOptions[] = payload.slice();
    let at = 0;
    while (at < bodies.length) {
      const { react } = bodies[at];
      if (react) {
        const html = await render(react);
        bodies[at] = { ...bodies[at], html } as CreateBatchEmailOptions;
      }
      at += 1;
    }
    const emails: EmailApiOptions[] = bodies.map(parseEmailToApiOptions);
"""))
    edit('emails/emails.ts', ("""    const body: CreateEmailOptions = { ...payload };

    if (payload.react) {
      body.html = await render(payload.react);
    }

    const data = await this.resend.post<CreateEmailResponseSuccess>(
      '/emails',
      parseEmailToApiOptions(body),
      options,
    );

    return data;""", """    const html = payload.react ? await render(payload.react) : payload.html;
    const entity = { ...parseEmailToApiOptions(payload), html };

    return this.resend.post<CreateEmailResponseSuccess>(
      '/emails',
      entity,
      options,
    );"""),
    ("""  const params: Record<string, string | undefined> = {
    start_date: options.startDate,
    end_date: options.endDate,
    timezone: options.timezone,
    granularity: options.granularity,
    metrics: options.metrics?.join(','),
    dimensions: options.dimensions?.join(','),
    domain_id: options.domainId?.join(','),
    email_id: options.emailId?.join(','),
    broadcast_id: options.broadcastId?.join(','),
  };

  const searchParams = new URLSearchParams();
  for (const [key, value] of Object.entries(params)) {
    if (value !== undefined && value !== '') {
      searchParams.set(key, value);
    }
  }

  return searchParams.toString();""", """  const searchParams = new URLSearchParams();
  const put = (name: string, value?: string | readonly string[]) => {
    const text = Array.isArray(value) ? value.join() : (value as string);
    if (text) searchParams.append(name, text);
  };
  put('start_date', options.startDate);
  put('end_date', options.endDate);
  put('timezone', options.timezone);
  put('granularity', options.granularity);
  put('metrics', options.metrics);
  put('dimensions', options.dimensions);
  put('domain_id', options.domainId);
  put('email_id', options.emailId);
  put('broadcast_id', options.broadcastId);
  return `${searchParams}`;"""))
    edit('templates/chainable-template-result.ts', ("""    const { data, error } = await this.promise;

    if (error) {
      return {
        data: null,
        headers: null,
        error,
      };
    }
    return this.publishFn(data.id);""", """    return this.promise.then((created) =>
      created.error === null
        ? this.publishFn(created.data.id)
        : { data: null, headers: null, error: created.error },
    );"""))
    edit('contacts/imports/contact-imports.ts', ("""    this.appendField(
      formData,
      'column_map',
      this.buildColumnMap(payload.columnMap ?? null),
    );
    this.appendField(formData, 'on_conflict', payload.onConflict ?? null);
    this.appendField(formData, 'segments', payload.segments ?? null);
    this.appendField(formData, 'topics', payload.topics ?? null);
""", """    const fields = new Map<string, ContactImportFormFieldValue>([
      ['on_conflict', payload.onConflict ?? null],
      ['segments', payload.segments ?? null],
      ['topics', payload.topics ?? null],
      ['column_map', this.buildColumnMap(payload.columnMap ?? null)],
    ]);
    fields.forEach((value, name) => {
      this.appendField(formData, name, value);
    });
"""))
    edit('contact-properties/contact-properties.ts', ("""          data: response.data.data.map((apiContactProperty) =>
            parseContactPropertyFromApi(apiContactProperty),
          ),""", """          data: response.data.data.reduce(
            (all, item) => all.concat(parseContactPropertyFromApi(item)),
            [] as ReturnType<typeof parseContactPropertyFromApi>[],
          ),"""))
    edit('topics/topics.ts', ("""    const { defaultSubscription, ...body } = payload;

    const data = await this.resend.post<CreateTopicResponseSuccess>('/topics', {
      ...body,
      default_subscription: defaultSubscription,
    });

    return data;""", """    const body: Record<string, unknown> = {};
    for (const [name, value] of Object.entries(payload)) {
      body[name === 'defaultSubscription' ? 'default_subscription' : name] =
        value;
    }

    return this.resend.post<CreateTopicResponseSuccess>('/topics', body);"""))
    edit('automation-runs/automation-runs.ts', ("""      const statusValue = Array.isArray(options.status)
        ? options.status.join(',')
        : options.status;
      searchParams.set('status', statusValue);""", """      searchParams.append('status', [options.status].flat().join(','));"""))
    edit('automations/automations.ts', ("""    const params = [queryString];

    if (options.status) {
      params.push(`status=${encodeURIComponent(options.status)}`);
    }

    const qs = params.filter(Boolean).join('&');
    const url = qs ? `/automations?${qs}` : '/automations';
""", """    let qs = queryString;
    if (options.status) {
      qs += `${qs === '' ? '' : '&'}status=${encodeURIComponent(options.status)}`;
    }
    const url = ['/automations', qs].filter((part) => part !== '').join('?');
"""), ("""    if (payload.name !== undefined) {
      apiPayload.name = payload.name;
    }
    if (payload.status !== undefined) {
      apiPayload.status = payload.status;
    }
    if (payload.steps !== undefined) {
      apiPayload.steps = payload.steps.map(parseStepConfig);
    }
    if (payload.connections !== undefined) {
      apiPayload.connections = payload.connections.map(parseConnection);
    }
""", """    apiPayload.name = payload.name;
    apiPayload.status = payload.status;
    apiPayload.steps = payload.steps?.map((step) => parseStepConfig(step));
    apiPayload.connections = payload.connections?.map(parseConnection);
"""))
    edit('common/utils/parse-email-to-api-options.ts', ("""  return attachments?.map((attachment) => ({
    content: attachment.content,
    filename: attachment.filename,
    path: attachment.path,
    content_type: attachment.contentType,
    content_id: attachment.contentId,
  }));""", """  if (attachments === undefined) return undefined;
  const out: EmailApiAttachment[] = [];
  attachments.forEach(({ contentType, contentId, ...same }, index) => {
    out[index] = {
      content: same.content,
      path: same.path,
      filename: same.filename,
      content_id: contentId,
      content_type: contentType,
    };
  });
  return out;"""))

def b():
    # private fields, a decorated fetch, helpers in a new module, generators, reduce, switch(true), class hierarchy
    os.makedirs(f'{D}/src/common/http', exist_ok=True)
    open(f'{D}/src/common/http/identifier.ts', 'w').write("""const missing = Object.freeze({
  id: 'Missing `id` field.',
  contact: 'Missing `id` or `email` field.',
});

export function missingField(kind: keyof typeof missing) {
  return {
    data: null,
    headers: null,
    error: {
      message: missing[kind],
      statusCode: null,
      name: 'missing_required_field',
    },
  } as const;
}

export class ContactPath {
  readonly #who: string | undefined | null;

  private constructor(who: string | undefined | null) {
    this.#who = who;
  }

  static of(email?: string | null, id?: string | null): ContactPath | null {
    const who = [email, id].find((part) => !!part);
    return who ? new ContactPath(who) : null;
  }

  get path(): string {
    return `/contacts/${this.#who}`;
  }

  to(...rest: string[]): string {
    return rest.reduce((all, part) => `${all}/${part}`, this.path);
  }
}
""")
    guard_c = """      return {
        data: null,
        headers: null,
        error: {
          message: 'Missing `id` or `email` field.',
          statusCode: null,
          name: 'missing_required_field',
        },
      };
"""
    for f, key, var in (('contacts/segments/contact-segments.ts', 'contactId', ('options',)), ('contacts/topics/contact-topics.ts', 'id', ('payload', 'options'))):
        p = f'{D}/src/{f}'
        s = open(p).read()
        for v in var:
            s = s.replace(f"    if (!{v}.{key} && !{v}.email) {{\n{guard_c}    }}\n\n    const identifier = {v}.email ? {v}.email : {v}.{key};\n",
                          f"    const contact = ContactPath.of({v}.email, {v}.{key});\n    if (contact === null) {{\n      return missingField('contact');\n    }}\n\n")
        s = s.replace("`/contacts/${identifier}/segments/${options.segmentId}`", "contact.to('segments', options.segmentId)")
        s = s.replace("`/contacts/${identifier}/segments`", "contact.to('segments')").replace("`/contacts/${identifier}/topics`", "contact.to('topics')")
        assert 'identifier' not in s, f
        s = s.replace("import type { Resend }", "import { ContactPath, missingField } from '../../common/http/identifier';\nimport type { Resend }", 1)
        open(p, 'w').write(s)
    p = f'{D}/src/contact-properties/contact-properties.ts'
    s = open(p).read()
    g = guard_c.replace("Missing `id` or `email` field.", "Missing `id` field.")
    assert s.count(g) == 3
    s = s.replace(g, "      return missingField('id');\n").replace("import type { Resend }", "import { missingField } from '../common/http/identifier';\nimport type { Resend }", 1)
    s = s.replace("""    if (response.data) {
      return {
        data: {
          object: 'contact_property',
          ...parseContactPropertyFromApi(response.data),
        },
        headers: response.headers,
        error: null,
      };
    }

    return response;""", """    const { data, headers } = response;
    if (!data) return response;
    const property = parseContactPropertyFromApi(data);
    return {
      error: null,
      data: Object.assign({ object: 'contact_property' as const }, property),
      headers,
    };""")
    open(p, 'w').write(s)
    # resend.ts: table of merged headers, private fields, request() for all verbs
    p = f'{D}/src/resend.ts'
    s = open(p).read()
    s = s.replace("private readonly headers: Headers;", "readonly #headers: Headers;")
    s = s.replace("this.headers = new Headers(", "this.#headers = new Headers(")
    a0 = s.index("  async post<T>("); 
    s = s[:a0] + """  *#overrides(options: { headers?: HeadersInit }): Generator<[string, string]> {
    if (!options.headers) return;
    for (const [name, value] of new Headers(options.headers)) {
      yield [name, value];
    }
  }

  #request<T>(
    method: string,
    path: string,
    options: { headers?: HeadersInit },
    ...entity: unknown[]
  ): Promise<Response<T>> {
    const headers = new Headers(this.#headers);
    const init: Record<string, unknown> = { method };
    switch (true) {
      case entity.length === 0:
        break;
      case method === 'POST' &&
        typeof FormData !== 'undefined' &&
        entity[0] instanceof FormData:
        init.body = entity[0];
        headers.delete('Content-Type');
        break;
      default:
        init.body = JSON.stringify(entity[0]);
    }
    for (const [name, value] of this.#overrides(options)) {
      headers.set(name, value);
    }
    const { idempotencyKey } = options as IdempotentRequest;
    if (method === 'POST' && idempotencyKey) {
      headers.set('Idempotency-Key', idempotencyKey);
    }
    return this.fetchRequest<T>(path, { ...init, ...options, headers });
  }

  async post<T>(
    path: string,
    entity?: unknown,
    options: PostOptions & IdempotentRequest = {},
  ) {
    return this.#request<T>('POST', path, options, entity);
  }

  async get<T>(path: string, options: GetOptions = {}) {
    return this.#request<T>('GET', path, options);
  }

  async put<T>(path: string, entity: unknown, options: PutOptions = {}) {
    return this.#request<T>('PUT', path, options, entity);
  }

  async patch<T>(path: string, entity: unknown, options: PatchOptions = {}) {
    return this.#request<T>('PATCH', path, options, entity);
  }

  async delete<T>(path: string, query?: unknown, options: DeleteOptions = {}) {
    return this.#request<T>(
      'DELETE',
      path,
      options,
      ...(query === undefined ? [] : [query]),
    );
  }
}
"""
    open(p, 'w').write(s)

def c():
    # shared base class, promise chains, Promise.all
    files = {'webhooks/webhooks.ts': ('Webhooks', '/webhooks'), 'domains/domains.ts': ('Domains', '/domains')}
    p = f'{D}/src/events/events.ts'
    s = open(p).read()
    s = s.replace("`/events/${encodeURIComponent(identifier)}`", "this.at(identifier)")
    s = s.replace("  async send(payload: SendEventOptions)", "  private at = (identifier: string) =>\n    ['', 'events', identifier].map(encodeURIComponent).join('/');\n\n  async send(payload: SendEventOptions)")
    open(p, 'w').write(s)
    edit('batch/batch.ts', ("""    const emails: EmailApiOptions[] = [];

    for (const email of payload) {
      const body: CreateBatchEmailOptions = { ...email };

      if (email.react) {
        body.html = await render(email.react);
      }

      emails.push(parseEmailToApiOptions(body));
    }
""", """    const emails: EmailApiOptions[] = await Promise.all(
      Array.from(payload).map(async (email) => {
        if (!email.react) return parseEmailToApiOptions(email);
        const html = await render(email.react);
        return parseEmailToApiOptions({ ...email, html } as CreateBatchEmailOptions);
      }),
    );
"""), ("""    if (!headers.has('x-batch-validation')) {
      headers.set('x-batch-validation', options?.batchValidation ?? 'strict');
    }
""", """    const mode = headers.get('X-Batch-Validation');
    if (mode === null) {
      const { batchValidation = 'strict' } = options ?? {};
      headers.append('X-Batch-Validation', batchValidation ?? 'strict');
    }
"""))
    edit('broadcasts/broadcasts.ts', ("""    const html = payload.react ? await render(payload.react) : payload.html;

    const data = await this.resend.patch""", """    let html = payload.html;
    if (payload.react) {
      html = await render(payload.react);
    }

    const data = await this.resend.patch"""),
    ("""        name: payload.name,
        segment_id: payload.segmentId,
        audience_id: payload.audienceId,
        preview_text: payload.previewText,
        from: payload.from,
        html,
        reply_to: payload.replyTo,
        subject: payload.subject,
        text: payload.text,
        topic_id: payload.topicId,
        send: payload.send,
        scheduled_at: payload.scheduledAt,
""", """        ...renameKeys(payload, createFields),
        html,
"""),
    ("""  const { type, email, bounceType, ...pagination } = options;
  const searchParams = new URLSearchParams(buildPaginationQuery(pagination));

  searchParams.set('type', type);

  if (email !== undefined) {
    searchParams.set('email', email);
  }

  if (bounceType !== undefined) {
    searchParams.set('bounce_type', bounceType);
  }

  return searchParams.toString();
""", """  const { type, email, bounceType } = options;
  const query = [buildPaginationQuery(options)];
  const filters = { type, email, bounce_type: bounceType };
  let name: keyof typeof filters;
  for (name in filters) {
    const value = filters[name];
    if (typeof value === 'undefined') continue;
    query.push(new URLSearchParams({ [name]: value }).toString());
  }
  return query.filter((part) => part.length > 0).join('&');
"""),
    ("export class Broadcasts {", """const createFields = [
  ['name', 'name'],
  ['segmentId', 'segment_id'],
  ['audienceId', 'audience_id'],
  ['previewText', 'preview_text'],
  ['from', 'from'],
  ['replyTo', 'reply_to'],
  ['subject', 'subject'],
  ['text', 'text'],
  ['topicId', 'topic_id'],
  ['send', 'send'],
  ['scheduledAt', 'scheduled_at'],
] as const;

function renameKeys<T extends object>(
  from: T,
  names: readonly (readonly [string, string])[],
) {
  return Object.fromEntries(
    names.map(([own, wire]) => [wire, Reflect.get(from, own)]),
  );
}

export class Broadcasts {"""))
    edit('templates/templates.ts', ("""    const body: CreateTemplateOptions = { ...payload };

    if (payload.react) {
      body.html = await render(payload.react);
    }

    return this.resend.post<CreateTemplateResponseSuccess>(
      '/templates',
      parseTemplateToApiOptions(body),
    );""", """    const rendered = payload.react
      ? { html: await render(payload.react) }
      : undefined;

    return this.resend.post<CreateTemplateResponseSuccess>('/templates', {
      ...parseTemplateToApiOptions(payload as CreateTemplateOptions),
      ...rendered,
    });"""), ("""    const promiseDuplicate = this.resend.post<DuplicateTemplateResponseSuccess>(
      `/templates/${identifier}/duplicate`,
    );
    return new ChainableTemplateResult(
      promiseDuplicate,
      this.publish.bind(this),
    );""", """    return new ChainableTemplateResult(
      this.resend.post<DuplicateTemplateResponseSuccess>(
        '/templates/'.concat(identifier, '/duplicate'),
      ),
      (id) => this.publish(id),
    );"""))
    edit('common/utils/parse-template-to-api-options.ts', ("""  return variables?.map((variable) => ({
    key: variable.key,
    type: variable.type,
    fallback_value: variable.fallbackValue,
  }));""", """  if (!variables) return variables;
  const result = new Array<TemplateVariableApiOptions>(variables.length);
  for (const [i, { key, type, fallbackValue: fallback_value }] of [
    ...variables,
  ].entries()) {
    result[i] = { key, type, fallback_value };
  }
  return result;"""), ("    name: 'name' in template ? template.name : undefined,", "    name: template.name,"))
    edit('common/utils/parse-domain-to-api-options.ts', ("""  return {
    name: domain.name,
    region: domain.region,
    custom_return_path: domain.customReturnPath,
    capabilities: domain.capabilities,
    open_tracking: domain.openTracking,
    click_tracking: domain.clickTracking,
    tls: domain.tls,
    tracking_subdomain: domain.trackingSubdomain,
  };""", """  const { name, region, capabilities, tls } = domain;
  const tracking = {
    open_tracking: domain.openTracking,
    click_tracking: domain.clickTracking,
    tracking_subdomain: domain.trackingSubdomain,
  };
  return {
    name,
    region,
    custom_return_path: domain.customReturnPath,
    capabilities,
    open_tracking: tracking.open_tracking,
    click_tracking: tracking.click_tracking,
    tls,
    tracking_subdomain: tracking.tracking_subdomain,
  };"""))
    edit('contacts/contacts.ts', ("""  return 'audienceId' in payload && payload.audienceId !== undefined;""", """  return (payload as { audienceId?: string }).audienceId !== undefined;"""),
    ("""    const segmentId = options.segmentId ?? options.audienceId;
    if (!segmentId) {
      const url = buildPaginationUrl('/contacts', options);
      const data = await this.resend.get<ListContactsResponseSuccess>(url);
      return data;
    }

    const url = buildPaginationUrl(`/segments/${segmentId}/contacts`, options);
    const data = await this.resend.get<ListContactsResponseSuccess>(url);
    return data;""", """    const { audienceId, segmentId = audienceId, ...page } = options;
    const base = (segmentId ?? audienceId) ? `/segments/${segmentId ?? audienceId}` : '';
    return this.resend.get<ListContactsResponseSuccess>(
      buildPaginationUrl(`${base}/contacts`, page),
    );"""))
    edit('webhooks/webhooks.ts', ("""    const webhook = new Webhook(payload.webhookSecret);
    return webhook.verify(payload.payload, {
      'webhook-id': payload.headers.id,
      'webhook-timestamp': payload.headers.timestamp,
      'webhook-signature': payload.headers.signature,
    }) as WebhookEventPayload;""", """    const { webhookSecret, headers } = payload;
    const signed = Object.fromEntries(
      (['id', 'timestamp', 'signature'] as const).map((part) => [
        `webhook-${part}`,
        headers[part],
      ]),
    );
    const verifier = new Webhook(webhookSecret);
    const event: unknown = verifier.verify(payload.payload, signed);
    return event as WebhookEventPayload;"""))
    edit('emails/emails.ts', ("""    const body: CreateEmailOptions = { ...payload };

    if (payload.react) {
      body.html = await render(payload.react);
    }

    const data = await this.resend.post""", """    const body: CreateEmailOptions = payload.react
      ? await render(payload.react).then(
          (html) => ({ ...payload, html }) as CreateEmailOptions,
        )
      : payload;

    const data = await this.resend.post"""))


def d():
    # control flow by exceptions, plain-object header merging, URL objects, two-step replacements, then-chains, inheritance
    p = f'{D}/src/emails/receiving/receiving.ts'
    s = open(p).read()
    guard = s[s.index("    if (!email.raw?.download_url) {"):s.index("    const parsed = await PostalMime")]
    s = s.replace(guard, "    const rawEmailContent = await download(email);\n\n")
    s = s.replace("export class Receiving {", """class Refusal extends Error {
  constructor(
    readonly reason: 'validation_error' | 'application_error',
    message: string,
    readonly statusCode: number,
  ) {
    super(message);
  }

  toResult(): ForwardReceivingEmailResponse {
    const { reason: name, message, statusCode } = this;
    return { data: null, error: { name, message, statusCode }, headers: null };
  }
}

async function download({
  raw,
}: GetReceivingEmailResponseSuccess): Promise<ArrayBuffer> {
  if (!raw || !raw.download_url) {
    throw new Refusal(
      'validation_error',
      'Raw email content is not available for this email',
      400,
    );
  }
  return fetch(raw.download_url).then((response) => {
    if (response.ok === false) {
      throw new Refusal(
        'application_error',
        'Failed to download raw email content',
        response.status,
      );
    }
    return response.arrayBuffer();
  });
}

export class Receiving {""")
    s = s.replace("""      return await this.performForward(options, requestOptions);
    } catch {
""", """      return await this.performForward(options, requestOptions);
    } catch (reason) {
      if (reason instanceof Refusal) return reason.toResult();
""")
    s = s.replace("""      const contentId = attachment.contentId
        ? attachment.contentId.replace(/^<|>$/g, '')
        : undefined;
""", """      const contentId = (attachment.contentId ?? '')
        .replace(/^</, '')
        .replace(/>$/, '');
""")
    s = s.replace("""        text: 'text' in options ? options.text : undefined,
        html: 'html' in options ? options.html : undefined,
""", """        ...pick(options as { text?: string; html?: string }, ['text', 'html']),
""")
    s = s.replace("class Refusal", """function pick<T extends object, K extends keyof T>(from: T, keys: K[]) {
  const out: Partial<T> = {};
  for (const key of keys) {
    if (key in from) out[key] = from[key];
  }
  return out as Pick<T, K>;
}

class Refusal""", 1)
    s = s.replace("content: Buffer.from(rawEmailContent).toString('base64'),", "content: Buffer.from(new Uint8Array(rawEmailContent)).toString('base64'),")
    open(p, 'w').write(s)
    p = f'{D}/src/resend.ts'
    s = open(p).read()
    old = """    const headers = new Headers(this.headers);
    if (options.headers) {
      for (const [key, value] of new Headers(options.headers).entries()) {
        headers.set(key, value);
      }
    }
"""
    assert s.count(old) == 4
    s = s.replace(old, """    const headers = new Headers({
      ...Object.fromEntries(this.headers),
      ...(options.headers && Object.fromEntries(new Headers(options.headers))),
    });
""")
    a0 = s.index("        try {\n          const rawError"); b0 = s.index("      const data = await response.json();")
    s = s[:a0] + """        const error = await readError(response);
        this.logError(error, path, response.status);
        return {
          data: null,
          error,
          headers: Object.fromEntries(response.headers.entries()),
        };
      }

""" + s[b0:]
    s = s.replace("export interface ResendOptions {", """const unreadable =
  'Internal server error. We are unable to process your request right now, please try again later.';

async function readError(
  response: globalThis.Response,
): Promise<ErrorResponse> {
  let message = unreadable;
  try {
    const body: ErrorResponse | null = JSON.parse(await response.text());
    if (body !== null && typeof body === 'object') return body;
  } catch (err) {
    switch (true) {
      case err instanceof SyntaxError:
        break;
      case err instanceof Error:
        message = (err as Error).message;
        break;
      default:
        message = response.statusText;
    }
  }
  return { name: 'application_error', statusCode: response.status, message };
}

export interface ResendOptions {""")
    a0 = s.index("    if (\n      typeof process !== 'undefined' &&\n      process.env &&\n      process.env.NODE_ENV"); b0 = s.index("  async fetchRequest<T>(")
    s = s[:a0] + """    if (typeof process === 'undefined' || !process.env) return;
    const { NODE_ENV: mode } = process.env;
    if (mode === 'production') return;
    const details: Record<string, unknown> = { error, path };
    if (status !== undefined) details.status = status;
    console.error('[Resend API Error]:', details);
  }

""" + s[b0:]
    open(p, 'w').write(s)
    edit('suppressions/suppressions.ts', ("""    const queryString = buildSuppressionsQuery(options);
    const url = queryString ? `/suppressions?${queryString}` : '/suppressions';

    return this.resend.get<ListSuppressionsResponseSuccess>(url);""", """    return this.resend.get<ListSuppressionsResponseSuccess>(
      ['/suppressions', buildSuppressionsQuery(options)]
        .filter(Boolean)
        .join('?'),
    );"""), ("""    if (!idOrEmail) {
      return missingIdentifierError();
    }

    return this.resend.delete<RemoveSuppressionResponseSuccess>(
      `/suppressions/${encodeURIComponent(idOrEmail)}`,
    );""", """    return idOrEmail
      ? this.resend.delete<RemoveSuppressionResponseSuccess>(
          ['/suppressions', idOrEmail]
            .map((part, i) => (i ? encodeURIComponent(part) : part))
            .join('/'),
        )
      : missingIdentifierError();"""))
    p = f'{D}/src/common/utils/parse-automation-to-api-options.ts'
    s = open(p).read()
    a0 = s.index("  switch (step.type) {"); b0 = s.index("export function parseConnection(")
    s = s[:a0] + """  return { key: step.key, type: step.type, config: wireConfig(step) };
}

function wireConfig(step: AutomationStep): unknown {
  const { type, config } = step;
  if (type === 'delay' || type === 'condition' || type === 'contact_delete') {
    return config;
  }
  const names: Record<string, string> = {
    eventName: 'event_name',
    replyTo: 'reply_to',
    filterRule: 'filter_rule',
    firstName: 'first_name',
    lastName: 'last_name',
    segmentId: 'segment_id',
  };
  const own: Record<string, string[]> = {
    trigger: ['eventName'],
    send_email: ['template', 'subject', 'from', 'replyTo'],
    wait_for_event: ['eventName', 'timeout', 'filterRule'],
    contact_update: ['firstName', 'lastName', 'unsubscribed', 'properties'],
    add_to_segment: ['segmentId'],
  };
  const source = config as unknown as Record<string, unknown>;
  const out: Record<string, unknown> = {};
  for (const key of own[type]) {
    out[names[key] ?? key] = source[key];
  }
  return out;
}

""" + s[b0:]
    open(p, 'w').write(s)
    edit('common/utils/get-pagination-query-properties.ts', ("""  const query = new URLSearchParams();

  if (options.before) query.set('before', options.before);
  if (options.after) query.set('after', options.after);
  if (options.limit) query.set('limit', options.limit.toString());

  return query.size > 0 ? `?${query.toString()}` : '';""", """  const url = new URL('https://resend.invalid');
  const { before, after, limit } = options;
  before && url.searchParams.set('before', before);
  after && url.searchParams.set('after', after);
  limit && url.searchParams.set('limit', limit.toString());

  return url.search;"""))

def e():
    # key conversion by regular expression, lookup tables, index loops, Map and Set, do/while, labels, getters, btoa, callbacks
    p = f'{D}/src/resend.ts'
    s = open(p).read()
    old = """    const headers = new Headers(this.headers);
    if (options.headers) {
      for (const [key, value] of new Headers(options.headers).entries()) {
        headers.set(key, value);
      }
    }
"""
    assert s.count(old) == 4
    s = s.replace(old, "    const headers = mergeHeaders(this.headers, options.headers);\n")
    s = s.replace("""export interface ResendOptions {""", """function mergeHeaders(...sources: (HeadersInit | undefined)[]): Headers {
  const merged = new Map<string, string>();
  let i = 0;
  do {
    const source = sources[i];
    if (source === undefined || source === null) continue;
    const list = Array.from(new Headers(source), ([name, value]) => ({
      name,
      value,
    }));
    for (let j = 0; j < list.length; j += 1) {
      const { name, value } = list[j];
      merged.set(name, value);
    }
  } while (++i < sources.length);
  return new Headers([...merged]);
}

function env(name: string): string | undefined {
  return globalThis.process?.env?.[name];
}

const isObject = (value: unknown): value is object =>
  Object(value) === value;

class Outcome<T> {
  private constructor(
    private readonly value: T | null,
    private readonly problem: ErrorResponse | null,
    private readonly response: globalThis.Response | null,
  ) {}

  static of<T>(value: T, response: globalThis.Response) {
    return new Outcome<T>(value, null, response);
  }

  static failed<T>(problem: ErrorResponse, response?: globalThis.Response) {
    return new Outcome<T>(null, problem, response ?? null);
  }

  get headers(): Record<string, string> | null {
    if (this.response === null) return null;
    const names = [...this.response.headers.keys()];
    return names.reduce<Record<string, string>>((all, name) => {
      all[name] = this.response?.headers.get(name) as string;
      return all;
    }, {});
  }

  unwrap(): Response<T> {
    const { value: data, problem: error, headers } = this;
    return { data, error, headers } as Response<T>;
  }
}

export interface ResendOptions {""", 1)
    a0 = s.index("function getDefaultBaseUrl"); b0 = s.index("function mergeHeaders")
    s = s[:a0] + """const getDefaultBaseUrl = () => env('RESEND_BASE_URL') || defaultBaseUrl;

const getDefaultUserAgent = () => env('RESEND_USER_AGENT') || defaultUserAgent;

""" + s[b0:]
    a0 = s.index("      const response = await fetch(`${this.baseUrl}${path}`, options);"); b0 = s.index("  async post<T>(")
    s = s[:a0] + """      const url = this.baseUrl.concat(path);
      const response = await fetch(url, options);
      const outcome = response.ok
        ? Outcome.of<T>((await response.json()) as T, response)
        : Outcome.failed<T>(await this.explain(response, path), response);

      return outcome.unwrap();
    } catch (_ignored) {
      const error: ErrorResponse = {
        message: 'Unable to fetch data. The request could not be resolved.',
        statusCode: null,
        name: 'application_error',
      };
      this.logError(error, path);
      return Outcome.failed<T>(error).unwrap();
    }
  }

  private async explain(
    response: globalThis.Response,
    path: string,
  ): Promise<ErrorResponse> {
    const { status: statusCode, statusText } = response;
    let error: ErrorResponse = {
      name: 'application_error',
      statusCode,
      message: statusText,
    };
    read: {
      let text: string;
      try {
        text = await response.text();
      } catch (reason) {
        if (reason instanceof SyntaxError) {
          error.message = FALLBACK;
        } else if (reason instanceof Error) {
          error = { ...error, message: reason.message };
        }
        break read;
      }
      let parsed: unknown;
      try {
        parsed = JSON.parse(text);
      } catch {
        // not JSON
      }
      if (!isObject(parsed)) {
        error.message = FALLBACK;
        break read;
      }
      error = parsed as ErrorResponse;
    }
    this.logError(error, path, statusCode);
    return error;
  }

""" + s[b0:]
    s = s.replace("const defaultBaseUrl", """const FALLBACK =
  'Internal server error. We are unable to process your request right now, please try again later.';
const defaultBaseUrl""", 1)
    open(p, 'w').write(s)
    edit('common/utils/build-pagination-query.ts', ("""  const searchParams = new URLSearchParams();

  if (options.limit !== undefined) {
    searchParams.set('limit', options.limit.toString());
  }

  if ('after' in options && options.after !== undefined) {
    searchParams.set('after', options.after);
  }

  if ('before' in options && options.before !== undefined) {
    searchParams.set('before', options.before);
  }

  return searchParams.toString();""", """  const { limit, after, before } = options as Record<
    'limit' | 'after' | 'before',
    string | number | undefined
  >;
  const pairs: [string, string][] = [];
  for (const [name, value] of Object.entries({ limit, after, before })) {
    if (typeof value !== 'undefined') pairs.push([name, `${value}`]);
  }
  return new URLSearchParams(pairs).toString();"""))
    edit('emails/emails.ts', ("""  const params: Record<string, string | undefined> = {
    start_date: options.startDate,
    end_date: options.endDate,
    timezone: options.timezone,
    granularity: options.granularity,
    metrics: options.metrics?.join(','),
    dimensions: options.dimensions?.join(','),
    domain_id: options.domainId?.join(','),
    email_id: options.emailId?.join(','),
    broadcast_id: options.broadcastId?.join(','),
  };

  const searchParams = new URLSearchParams();
  for (const [key, value] of Object.entries(params)) {
    if (value !== undefined && value !== '') {
      searchParams.set(key, value);
    }
  }

  return searchParams.toString();""", """  const known = [
    'startDate',
    'endDate',
    'timezone',
    'granularity',
    'metrics',
    'dimensions',
    'domainId',
    'emailId',
    'broadcastId',
  ] as const;
  const searchParams = new URLSearchParams();
  known.forEach((key) => {
    const value = options[key];
    const text = Array.isArray(value) ? value.join() : value;
    if (!text) return;
    const name = key.replace(/[A-Z]/g, (letter) => `_${letter.toLowerCase()}`);
    searchParams.append(name, text as string);
  });

  return `${searchParams}`;"""))
    edit('automation-runs/automation-runs.ts', ("""      const statusValue = Array.isArray(options.status)
        ? options.status.join(',')
        : options.status;
      searchParams.set('status', statusValue);""", """      searchParams.set('status', [options.status].flat().join(','));"""))
    p = f'{D}/src/common/utils/parse-automation-to-api-options.ts'
    s = open(p).read()
    a0 = s.index("  switch (step.type) {"); b0 = s.index("export function parseConnection(")
    s = s[:a0] + """  const { key, type } = step;
  const untouched = new Set<string>(['delay', 'condition', 'contact_delete']);
  const config = untouched.has(type) ? step.config : snake(step);
  return { key, type, config };
}

const WIRE: { [type: string]: readonly string[] | undefined } = {
  trigger: ['eventName'],
  send_email: ['template', 'subject', 'from', 'replyTo'],
  wait_for_event: ['eventName', 'timeout', 'filterRule'],
  contact_update: ['firstName', 'lastName', 'unsubscribed', 'properties'],
  add_to_segment: ['segmentId'],
};

function snake(step: AutomationStep) {
  const config = new Map<string, unknown>(Object.entries(step.config));
  const keys = WIRE[step.type] ?? [];
  return Object.fromEntries(
    keys
      .filter((key) => config.get(key) !== undefined)
      .map((key) => [
        key.replace(/([a-z])([A-Z])/g, (_, a, b) => `${a}_${b.toLowerCase()}`),
        config.get(key),
      ]),
  );
}

""" + s[b0:]
    open(p, 'w').write(s)
    edit('common/utils/parse-email-to-api-options.ts', ("""  return attachments?.map((attachment) => ({
    content: attachment.content,
    filename: attachment.filename,
    path: attachment.path,
    content_type: attachment.contentType,
    content_id: attachment.contentId,
  }));""", """  if (!attachments) return undefined;
  const out: EmailApiAttachment[] = new Array(attachments.length);
  for (let i = attachments.length - 1; i >= 0; i--) {
    const { contentType: content_type, contentId: content_id } = attachments[i];
    const { content, filename, path } = attachments[i];
    out[i] = { content, filename, path, content_type, content_id };
  }
  return out;"""), ("""  return {
    attachments: parseAttachments(email.attachments),""", """  const api: EmailApiOptions = {
    attachments: parseAttachments(email.attachments),"""), ("""    topic_id: email.topicId,
  };""", """    topic_id: email.topicId,
  };
  for (const key of Object.keys(api) as (keyof EmailApiOptions)[]) {
    if (api[key] === undefined) delete api[key];
  }
  return api;"""))
    edit('common/utils/parse-template-to-api-options.ts', ("""  return variables?.map((variable) => ({
    key: variable.key,
    type: variable.type,
    fallback_value: variable.fallbackValue,
  }));""", """  return variables && Array.from(variables, toApi);"""), ("function parseVariables(", """const toApi = ({
  fallbackValue: fallback_value,
  key,
  type,
}: NonNullable<
  CreateTemplateOptions['variables']
>[number]): TemplateVariableApiOptions => ({ key, type, fallback_value });

function parseVariables("""))
    edit('emails/receiving/receiving.ts', ("content: Buffer.from(rawEmailContent).toString('base64'),", "content: btoa(\n              Array.from(new Uint8Array(rawEmailContent), (byte) =>\n                String.fromCharCode(byte),\n              ).join(''),\n            ),"),
    ("""    const attachments = parsed.attachments.map((attachment) => {
      const contentId = attachment.contentId
        ? attachment.contentId.replace(/^<|>$/g, '')
        : undefined;

      return {
        filename: attachment.filename,
        content: attachment.content.toString(),
        content_type: attachment.mimeType,
        content_id: contentId || undefined,
      };
    });""", """    const attachments: {
      filename: string | null;
      content: string;
      content_type: string;
      content_id: string | undefined;
    }[] = [];
    for (const attachment of parsed.attachments.values()) {
      let content_id = attachment.contentId ?? '';
      if (content_id.startsWith('<')) content_id = content_id.slice(1);
      if (content_id.endsWith('>')) content_id = content_id.slice(0, -1);
      attachments.push({
        filename: attachment.filename,
        content: String(attachment.content),
        content_type: attachment.mimeType,
        content_id: content_id || undefined,
      });
    }"""),
    ("""    const forwardSubject = originalSubject.startsWith('Fwd:')
      ? originalSubject
      : `Fwd: ${originalSubject}`;""", """    const forwardSubject = /^Fwd:/.test(originalSubject)
      ? originalSubject
      : ['Fwd:', originalSubject].join(' ');"""))
    p = f'{D}/src/contacts/contacts.ts'
    s = open(p).read()
    s = s.replace("`/contacts/${options?.email ? options?.email : options?.id}`", "contactPath(options)")
    s = s.replace("`/audiences/${options.audienceId}/contacts/${options?.email ? options?.email : options?.id}`", "contactPath(options)")
    s = s.replace("`/contacts/${payload?.email ? payload?.email : payload?.id}`", "contactPath(payload)")
    s = s.replace("""`/audiences/${payload.audienceId}/contacts/${
        payload?.email ? payload?.email : payload?.id
      }`""", "contactPath(payload)")
    assert s.count("contactPath(") == 6, s.count("contactPath(")
    s = s.replace("export class Contacts {", """function contactPath({
  id,
  email,
  audienceId,
}: {
  id?: string | null;
  email?: string | null;
  audienceId?: string;
}): string {
  const parts = ['', 'contacts', email || id];
  if (audienceId) parts.splice(1, 0, 'audiences', audienceId);
  return parts.join('/');
}

export class Contacts {""", 1)
    s = s.replace("    const segmentId = options.segmentId ?? options.audienceId;\n    if (!segmentId) {\n      const url = buildPaginationUrl('/contacts', options);\n      const data = await this.resend.get<ListContactsResponseSuccess>(url);\n      return data;\n    }\n\n    const url = buildPaginationUrl(`/segments/${segmentId}/contacts`, options);", "    const { segmentId = options.audienceId ?? '' } = options;\n    const prefix = segmentId && `/segments/${segmentId}`;\n    const url = buildPaginationUrl(`${prefix}/contacts`, options);")
    open(p, 'w').write(s)
    edit('webhooks/webhooks.ts', ("""    return webhook.verify(payload.payload, {
      'webhook-id': payload.headers.id,
      'webhook-timestamp': payload.headers.timestamp,
      'webhook-signature': payload.headers.signature,
    }) as WebhookEventPayload;""", """    const headers: Record<string, string> = {};
    for (const name of ['signature', 'timestamp', 'id'] as const) {
      headers[`webhook-${name}`] = payload.headers[name];
    }
    const event = webhook.verify(payload.payload, headers);
    return event as WebhookEventPayload;"""))
    edit('contacts/imports/contact-imports.ts', ("""    this.appendField(
      formData,
      'column_map',
      this.buildColumnMap(payload.columnMap ?? null),
    );
    this.appendField(formData, 'on_conflict', payload.onConflict ?? null);
    this.appendField(formData, 'segments', payload.segments ?? null);
    this.appendField(formData, 'topics', payload.topics ?? null);
""", """    const { columnMap, onConflict, segments, topics } = payload;
    const fields = new Map<string, ContactImportFormFieldValue | undefined>([
      ['topics', topics],
      ['segments', segments],
      ['on_conflict', onConflict],
      ['column_map', this.buildColumnMap(columnMap ?? null)],
    ]);
    fields.forEach((value, name) => {
      this.appendField(formData, name, value ?? null);
    });
"""))
    edit('batch/batch.ts', ("""    const emails: EmailApiOptions[] = [];

    for (const email of payload) {
      const body: CreateBatchEmailOptions = { ...email };

      if (email.react) {
        body.html = await render(email.react);
      }

      emails.push(parseEmailToApiOptions(body));
    }
""", """    const emails = await payload.reduce<Promise<EmailApiOptions[]>>(
      async (earlier, email) => {
        const done = await earlier;
        const body: CreateBatchEmailOptions = email.react
          ? { ...email, html: await render(email.react) }
          : email;
        return [...done, parseEmailToApiOptions(body)];
      },
      Promise.resolve([]),
    );
"""))
    edit('broadcasts/broadcasts.ts', ("""  const { type, email, bounceType, ...pagination } = options;
  const searchParams = new URLSearchParams(buildPaginationQuery(pagination));

  searchParams.set('type', type);

  if (email !== undefined) {
    searchParams.set('email', email);
  }

  if (bounceType !== undefined) {
    searchParams.set('bounce_type', bounceType);
  }

  return searchParams.toString();""", """  const { type, email, bounceType: bounce_type, ...pagination } = options;
  const extra = JSON.parse(JSON.stringify({ type, email, bounce_type }));
  return [
    buildPaginationQuery(pagination),
    new URLSearchParams(extra).toString(),
  ]
    .filter((part) => part.length > 0)
    .join('&');"""))
    edit('contact-properties/contact-properties.ts', ("""          data: response.data.data.map(
            (apiContactProperty) =>
              apiContactProperty &&
              parseContactPropertyFromApi(apiContactProperty),
          ),""", """          data: response.data.data.flatMap((item) => [
            item ? parseContactPropertyFromApi(item) : item,
          ]),"""))
    edit('templates/chainable-template-result.ts', ("""    const { data, error } = await this.promise;

    if (error) {
      return {
        data: null,
        headers: null,
        error,
      };
    }
""", """    const created = await Promise.resolve(this);
    const { data, error } = created;

    if (error !== null && error !== undefined) {
      return Object.freeze({ data: null, headers: null, error });
    }
"""))

for w in (sys.argv[2:] or ['a']):
    globals()[w]()
