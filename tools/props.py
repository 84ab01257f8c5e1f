import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

R="src/resend.ts"
p("C01","Every HTTP outcome resolves to a well-formed result, never a rejection",
"For every API operation called with type-correct arguments and every outcome of its HTTP exchanges (network failure, any status, a body that cannot be read, is not JSON, or is any JSON value), apart from a failure to render React content, the returned promise resolves to an object with data, error and headers and never rejects. A failed exchange or a non-2xx response always gives data null and a non-null error object; when the operation's final request gets a 2xx response with a JSON body of the documented type, error is null. (Forwarding an email whose raw content is not available gives a validation_error.)",
["fault_sequences","inputs"],"every operation x every response status, body and read failure at every HTTP exchange of the operation",
"Tests mock one success and a few documented error payloads per operation; read failures, non-JSON and falsy JSON bodies and failures of secondary exchanges are not exercised per operation.",
[R,"src/emails/receiving/receiving.ts"],[("fetchRequest","src/resend.ts"),("forward","src/emails/receiving/receiving.ts")],["value the public method resolves to"])
p("C02","Failed exchanges are reported faithfully",
"When a request gets a non-2xx response, the result's error is the response's JSON error object unchanged, or, if the body is not a JSON object or cannot be read, an error named application_error whose statusCode is the HTTP status; headers are the response's headers. When the request itself fails, the error is application_error with statusCode null and headers is null.",
["fault_sequences","inputs"],"every operation x every non-2xx status x every error body",
"Tests sample a handful of statuses and bodies, and only for some operations.",
[R],[("fetchRequest","src/resend.ts")],["result.error","result.headers"])
p("C03","Successful responses are returned verbatim with their headers",
"When a request gets a 2xx response with a JSON body, the result's data equals that JSON value with nothing dropped, added, renamed or reordered (contact properties excepted, whose documented camelCase form is returned), and headers contains exactly the response's headers.",
["inputs"],"every operation x every 2xx status x every JSON body and header set",
"Tests compare one fixture per operation.",
[R],[("fetchRequest","src/resend.ts")],["result.data","result.headers"])
p("C04","One call makes one request: no retries, duplicates or extra calls",
"Each API operation sends its HTTP request exactly once whatever the outcome of that request is, so that a failed or ambiguous outcome never causes the operation to be repeated; forwarding a received email sends at most one fetch of the email, one download and one send, in that order and each only after the previous one succeeded.",
["fault_sequences","inputs"],"every operation x every status, body and failure of every exchange",
"Tests count calls only on the success path, if at all.",
[R,"src/emails/receiving/receiving.ts"],[("fetchRequest","src/resend.ts"),("forward","src/emails/receiving/receiving.ts")],["calls of fetch"])
p("C05","Client configuration resolves from arguments, then environment, then default",
"The API key is the constructor argument, or RESEND_API_KEY when the argument is missing or empty, and construction throws when neither gives one; base URL and user agent are the constructor option, or else RESEND_BASE_URL / RESEND_USER_AGENT when non-empty, or else https://api.resend.com / resend-node:<version>. Every request then goes to that base URL followed by the operation's path, with that key and user agent, also where no process object exists.",
["configurations"],"every combination of argument, option and environment presence and value, with and without a process object",
"Tests cover single combinations with fixed values.",
[R],[("constructor","src/resend.ts"),("getDefaultBaseUrl","src/resend.ts"),("getDefaultUserAgent","src/resend.ts")],["URL and headers given to fetch","resend.baseUrl","resend.userAgent"])
p("C06","Every API request is authenticated and typed",
"Every request of every operation to the API carries exactly 'Authorization: Bearer <key>', the client's User-Agent and, unless the body is multipart form data (which carries none, so the boundary can be set), 'Content-Type: application/json', for every key and user agent, unless the caller's own request headers override that header. The API key is never sent to any other host, such as the download URL of a received email.",
["inputs","configurations"],"every operation x every key and user agent",
"Tests check these headers for one or two operations with one key.",
[R,"src/contacts/imports/contact-imports.ts","src/emails/receiving/receiving.ts"],[("headers","src/resend.ts")],["headers given to fetch"])
p("C07","Caller headers and idempotency keys reach the wire unchanged",
"For every operation that accepts request options (an idempotency key: emails.send/create, batch.send/create, receiving.forward and the post verb), each header the caller supplies, as a plain object, a list of pairs or a Headers instance and in any letter case, is sent with exactly that value and replaces a default header of the same name, and Idempotency-Key equals the given non-empty idempotency key. Which of two different values wins when a header and an option name the same header is left open. Without an idempotency key or such a header no Idempotency-Key is sent, and no other header is lost or invented.",
["inputs","configurations"],"every operation with request options x every header form, name, letter case and value x every idempotency key",
"Tests pass plain objects with one header or one key on a few operations.",
[R,"src/batch/batch.ts"],[("post/get/put/patch/delete header merge","src/resend.ts"),("batch headers","src/batch/batch.ts")],["headers given to fetch"])
p("C08","Calls are independent of the history of earlier calls",
"What an operation sends and returns depends only on the client's configuration, the call's arguments and its own responses: after any earlier operation, with any options, headers, idempotency key or outcome, on the same or another client, the same call sends the same request and returns the same result as on a fresh client.",
["histories"],"sequences of two operations (thorough: up to three) with arbitrary arguments, options and outcomes on one or two clients",
"Tests run each operation on a fresh client.",
[R],[("per-request Headers copy","src/resend.ts")],["requests given to fetch","results"],[("headers","default headers shared by all requests of a client","src/resend.ts")])
p("C09","Concurrent calls each get their own request and response",
"When several operations are in flight at once on one client, each sends its own request and resolves with the result of its own exchange, for every order in which the responses, failures and body reads complete.",
["schedules"],"two or three concurrent operations x every completion order of their exchanges",
"Tests await each call before the next.",
[R],[("fetchRequest","src/resend.ts")],["requests given to fetch","results"])
p("C10","Operations never modify the caller's arguments",
"No operation adds, removes or changes any property, at any depth, of the payload, options or headers object passed to it, so the same objects can be reused for a retry or another call.",
["inputs"],"every operation x every type-correct argument, including React content",
"Tests build a fresh literal per call and never look at it again.",
["src/batch/batch.ts","src/emails/emails.ts","src/templates/templates.ts"],[("copy of the payload","src/emails/emails.ts")],["argument objects after the call"])
p("C11","Every operation addresses its documented endpoint",
"Each operation uses its documented HTTP method and path, with each identifier in its documented position for every URL-safe identifier, sends a body only where the operation has one, and aliases (send/create, audiences/segments) address the same endpoint.",
["inputs"],"every operation x every identifier made of letters, digits and _ - . @ +",
"Tests use one fixed UUID per operation and several check only the mocked response.",
["src"],[("path templates","src/*/*.ts")],["method and URL given to fetch"])
p("C12","An identifier cannot redirect a request to another endpoint",
"Whatever string is passed as an identifier (other than the empty string, '.' and '..'), the request's URL path has exactly the documented segments, the identifier percent-decodes from its own segment unchanged, and the identifier adds no query or fragment.",
["inputs"],"every operation that takes an identifier x every well-formed string",
"Tests use UUIDs, names and plain email addresses.",
["src/events/events.ts","src/suppressions/suppressions.ts"],[("encodeURIComponent","src/events/events.ts")],["URL given to fetch"])
p("C13","Pagination cursors, limits and filters survive the URL",
"For every list, search or metrics operation the query string decodes to exactly the limit, after, before and filter values given, for every string and every positive limit: nothing is lost, invented, altered, duplicated or attached to the path, and no query is sent when no option is given.",
["inputs"],"every list operation x every subset of options x every non-empty string value and every limit",
"Tests use plain alphanumeric cursors and few combinations.",
["src/common/utils/build-pagination-query.ts","src/common/utils/get-pagination-query-properties.ts","src/emails/emails.ts","src/broadcasts/broadcasts.ts"],[("buildPaginationQuery","src/common/utils/build-pagination-query.ts"),("getPaginationQueryProperties","src/common/utils/get-pagination-query-properties.ts"),("buildMetricsQuery","src/emails/emails.ts"),("buildRecipientsQuery","src/broadcasts/broadcasts.ts")],["URL given to fetch"])
p("C14","Sending an email transmits every field unchanged",
"The JSON sent by emails.send/create contains exactly the given email: every provided field (recipients, subject, bodies, headers, tags, schedule, topic, template and each attachment in order) under its API name with its value unchanged, and nothing else; omitted fields are not sent and explicit nulls are sent as null.",
["inputs"],"every type-correct email: every subset of fields, every value, recipient and attachment lists up to the stated sizes",
"Tests compare a few fixed emails.",
["src/common/utils/parse-email-to-api-options.ts","src/emails/emails.ts"],[("parseEmailToApiOptions","src/common/utils/parse-email-to-api-options.ts")],["request body given to fetch"])
p("C15","A batch is the ordered list of what single sends would transmit",
"The JSON sent by batch.send/create is an array with exactly one element per given email, in order, each equal to what a single send of that email would transmit, and the x-batch-validation header is the requested mode, strict by default.",
["inputs"],"every batch up to the stated sizes, of type-correct emails",
"Tests send batches of two or three fixed emails.",
["src/batch/batch.ts"],[("create","src/batch/batch.ts")],["request body and headers given to fetch"])
p("C16","React content is rendered to the html that is sent",
"For every operation that accepts React content, a given (truthy) React node is rendered exactly once and the result is what is sent as html, in place of any html also given; without one the given html is sent unchanged and nothing is rendered. If rendering fails the call rejects and no request is sent.",
["inputs","fault_sequences"],"emails, batch, broadcasts and templates x every payload x rendering outcome",
"Tests cover one successful rendering per operation and one missing renderer.",
["src/render.ts","src/emails/emails.ts","src/batch/batch.ts","src/broadcasts/broadcasts.ts","src/templates/templates.ts"],[("render","src/render.ts")],["calls of the renderer","request body"])
p("C17","Contact operations address the right contact and send the right fields",
"Contact operations address the contact by email when one is given and by id otherwise, under the given (legacy) audience or segment if any, and transmit exactly the contact fields given, under their API names; segment and topic membership calls name exactly the given contact, segment and topics.",
["inputs"],"every contact, contact-segment and contact-topic operation x every combination of identifiers and fields",
"Tests use one combination each.",
["src/contacts/contacts.ts","src/contacts/segments/contact-segments.ts","src/contacts/topics/contact-topics.ts"],[("create/get/update/remove","src/contacts/contacts.ts")],["request given to fetch"])
p("C18","Calls lacking a required identifier fail locally without a request",
"Contact get/update/remove, contact segment and topic operations given neither id nor email, and contact-property, topic and suppression operations given no id, resolve to data null, headers null and a missing_required_field error, a legacy contact creation combined with segments or topics resolves likewise to an invalid_parameter error, and they send nothing; they send exactly one request whenever the identifier is present.",
["inputs"],"every such operation x presence, absence and emptiness of each identifier",
"Tests cover one absent combination for some operations.",
["src/contacts/contacts.ts","src/contacts/segments/contact-segments.ts","src/contacts/topics/contact-topics.ts","src/contact-properties/contact-properties.ts","src/topics/topics.ts","src/suppressions/suppressions.ts"],[("guards","src/contacts/contacts.ts")],["result","calls of fetch"])
p("C19","Create and action calls transmit every field unchanged",
"For broadcasts, templates, domains, domain claims, topics, segments, events, webhooks, API keys, suppressions and contact properties, the JSON sent by create, send, add and similar calls holds exactly the given fields under their API names with values unchanged (false, 0, empty string and null included); omitted fields are not sent.",
["inputs"],"every such operation x every subset of fields x every type-correct value",
"Tests send one or two fixed payloads per operation.",
["src/broadcasts/broadcasts.ts","src/common/utils/parse-template-to-api-options.ts","src/common/utils/parse-domain-to-api-options.ts","src/common/utils/parse-contact-properties-to-api-options.ts","src/topics/topics.ts"],[("parse*ToApiOptions","src/common/utils")],["request body given to fetch"])
p("C20","Updates send exactly the fields given, so omitted fields stay untouched",
"For every update operation the JSON sent contains a field if and only if the caller provided it with a value other than undefined, with that value unchanged: null clears, false, 0 and the empty string are sent, and a field the caller left out is never sent.",
["inputs"],"every update operation x every subset of fields x every type-correct value including null, false, 0 and empty",
"Tests update one or two fields with truthy values.",
["src/emails/emails.ts","src/broadcasts/broadcasts.ts","src/contacts/contacts.ts","src/domains/domains.ts","src/templates/templates.ts","src/automations/automations.ts","src/topics/topics.ts"],[("update","src/automations/automations.ts")],["request body given to fetch"])
p("C21","Automation graphs are transmitted completely and in order",
"Creating or updating an automation sends every step, in order, with its key, type and complete configuration under API names, and every connection, in order, with its endpoints and type; no step type loses, adds or alters a configuration value.",
["inputs"],"every sequence of steps of all eight types and connections up to the stated length x every configuration value",
"Tests cover one example per step type.",
["src/common/utils/parse-automation-to-api-options.ts","src/automations/automations.ts"],[("parseStepConfig","src/common/utils/parse-automation-to-api-options.ts")],["request body given to fetch"])
p("C22","An option explicitly set to undefined means the same as leaving it out",
"For every operation, passing an optional (or legacy) field with the value undefined sends the same request and gives the same result as omitting the field.",
["inputs"],"every operation x every subset of optional fields being undefined rather than absent",
"Tests omit fields rather than passing undefined.",
["src/contacts/contacts.ts","src/common/utils/build-pagination-query.ts"],[("in checks","src/contacts/contacts.ts")],["request given to fetch","result"])
p("C23","Chained template publishing publishes exactly the created template",
"templates.create(...).publish() and templates.duplicate(...).publish() send the create or duplicate request once and, only if it succeeded, one publish request for the id it returned, and resolve to the publish result; if it failed they resolve to that error and publish nothing. Awaiting the create or duplicate result alone, or several times, publishes nothing and repeats nothing. Calling publish() again on the same result (after a failed publish, say) sends one more publish request, never the create or duplicate again, and resolves to that request's result.",
["histories","fault_sequences"],"every sequence of up to three then/await/publish uses of one chainable result x every outcome of each exchange",
"Tests chain once with both exchanges succeeding.",
["src/templates/chainable-template-result.ts","src/templates/templates.ts"],[("ChainableTemplateResult","src/templates/chainable-template-result.ts")],["calls of fetch","results"])
p("C24","Pass-through forwarding re-sends the original message completely",
"Forwarding a received email (default mode) sends one email from and to the given addresses with the original subject ('(no subject)' if none), the original text and html, and every attachment of the downloaded raw message in order, each with its filename, content type, base64 content and content id without angle brackets; the raw message's bytes are parsed as downloaded. A text, html or file name that is absent or empty in the original may be left out or null.",
["inputs"],"every subject, body and attachment list up to the stated size, every raw message",
"Tests forward one or two small UTF-8 messages.",
["src/emails/receiving/receiving.ts"],[("forwardPassthrough","src/emails/receiving/receiving.ts")],["request body of the send"])
p("C25","Wrapped forwarding attaches the original message byte for byte",
"Forwarding with passthrough false sends the given text and html, the original subject prefixed with 'Fwd: ' unless it already starts with 'Fwd:', and exactly one message/rfc822 attachment whose decoded content is byte for byte the downloaded raw message, for every subject and every raw message.",
["inputs"],"every subject, text, html and raw message",
"Tests forward one ASCII message.",
["src/emails/receiving/receiving.ts"],[("forwardWrapped","src/emails/receiving/receiving.ts")],["request body of the send"])
p("C26","Webhook verification returns only authentically signed payloads",
"webhooks.verify returns the parsed payload exactly when the signature is valid for that payload, id, timestamp and secret, and throws otherwise: a message with a changed payload, id, timestamp, signature or secret, or a timestamp more than five minutes off, is never accepted, whatever was verified before, and an authentic message is never rejected or altered.",
["inputs"],"every payload, id, timestamp, signature and secret, given the signature library's contract",
"Tests verify one valid and one or two invalid messages.",
["src/webhooks/webhooks.ts"],[("verify","src/webhooks/webhooks.ts")],["return value or exception of verify"])
p("C27","Contact imports upload the file and every import option",
"contacts.imports.create sends one multipart form with the given file unchanged and, for exactly the options given, column_map (with API column names), on_conflict, segments and topics whose values decode to what was given; options not given add no form field.",
["inputs"],"every subset of options and column-map fields x every value",
"Tests upload one fully specified import.",
["src/contacts/imports/contact-imports.ts"],[("buildCreateFormData","src/contacts/imports/contact-imports.ts")],["FormData given to fetch"])
p("C28","Contact properties come back in the documented form without loss",
"contactProperties.get and list return every property of a successful response, in order, with id, key, createdAt, type and fallbackValue equal to the response's values (null and falsy fallbacks included), keep the list's object and has_more, and pass the error and headers of a response on unchanged.",
["inputs"],"every list up to the stated length x every property value x success and failure",
"Tests compare one fixture.",
["src/contact-properties/contact-properties.ts","src/common/utils/parse-contact-properties-to-api-options.ts"],[("parseContactPropertyFromApi","src/common/utils/parse-contact-properties-to-api-options.ts")],["result"])
p("C29","Diagnostics stay silent on success and in production and leak no secret",
"The SDK writes nothing to the console for successful calls and nothing at all when NODE_ENV is production at the time of the failure or no process environment exists; otherwise a failed API exchange is logged once with its path, error and (for an HTTP error response) status. No log entry ever contains the API key, request headers or the request body.",
["inputs","configurations","fault_sequences"],"every operation x every outcome x every NODE_ENV and key",
"Tests do not look at the console.",
[R],[("logError","src/resend.ts")],["console output"])
p("C30","The public HTTP verbs send exactly what they are given",
"resend.get/post/put/patch/delete send the given path appended to the base URL with the named method, the given entity as its JSON (form data as is in a post, nothing when absent), default headers merged with the given ones, and return the exchange's result, for every path, entity and options object.",
["inputs"],"every verb x every path, JSON entity, form data and request options",
"Tests reach the verbs only through fixed calls of resource methods; put is not used by any.",
[R],[("get/post/put/patch/delete","src/resend.ts")],["request given to fetch","result"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
