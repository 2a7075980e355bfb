// Source of properties.jsonl and MANIFEST.json: `node tools/properties.mjs` rewrites both.
import { writeFileSync } from 'node:fs';
import { dirname, join } from 'node:path';
import { fileURLToPath } from 'node:url';

const root = join(dirname(fileURLToPath(import.meta.url)), '..');
const m = (name, where) => ({ name, where });
const TESTS = 'The existing tests replay a few fixed examples';

export const properties = [
  {
    id: 'C01', title: 'Each operation issues exactly its documented request',
    statement: 'For every resource operation of the client and every valid argument list, the call causes exactly one HTTP request, with that operation\'s documented HTTP method and path, the caller\'s ids in their documented path positions, and nothing else in the path. Operations documented without a body send none; no operation contacts another endpoint.',
    over: ['inputs'], text: 'all ~100 public operations x all generated valid argument lists (optional fields present, absent or undefined)',
    why: `${TESTS} per operation with one id each; they cannot show that the method, path and request count hold for every operation and argument combination.`,
    files: ['src/resend.ts', 'src/emails/emails.ts', 'src/broadcasts/broadcasts.ts', 'src/contacts/contacts.ts', 'src/templates/templates.ts', 'src/domains/domains.ts', 'src/automations/automations.ts'],
    mech: [m('per-operation verb and path template', 'src/*/*.ts'), m('get/post/put/patch/delete', 'src/resend.ts')],
    observe: ['the request reaching fetch'],
    technique: 'property-based testing: reference table of operations vs. requests observed at fetch',
  },
  {
    id: 'C02', title: 'Every non-2xx response becomes an error result, never data',
    statement: 'For every operation and every non-2xx response, the returned promise resolves (never rejects) with data null, a non-null error object, and all response headers. If the response body is a JSON object, error equals that object unchanged; any other body (text, HTML, empty, JSON null, number, string or boolean) yields an error named application_error carrying the HTTP status code and a message.',
    over: ['inputs', 'fault_sequences'], text: 'operations x non-2xx statuses 300..599 x arbitrary bodies and headers',
    why: `${TESTS} with a handful of statuses and two body shapes on few operations; bodies such as JSON null or primitives and most statuses are never seen.`,
    files: ['src/resend.ts'], mech: [m('non-ok branch of fetchRequest', 'src/resend.ts')], observe: ['returned promise'],
    technique: 'property-based testing with generated HTTP failures against an envelope oracle',
  },
  {
    id: 'C03', title: 'Transport failures resolve to an application_error result',
    statement: 'For every operation, if the connection fails, the response body breaks while being read, or a 2xx body is not valid JSON, the returned promise still resolves with data null and an error named application_error with a message. Its statusCode and headers are null when no usable response was obtained (including a 2xx one), and the HTTP status and all response headers when a non-2xx response was received but its body could not be read.',
    over: ['fault_sequences'], text: 'operations x fault kinds (rejecting fetch with any value, body stream errors at any point, truncated/invalid JSON) x statuses',
    why: `${TESTS} of one rejected fetch and one text payload on emails only; no test breaks a body mid-stream or throws a non-Error.`,
    files: ['src/resend.ts'], mech: [m('try/catch in fetchRequest', 'src/resend.ts')], observe: ['returned promise'],
    technique: 'property-based fault injection at the fetch boundary and on a real loopback server',
  },
  {
    id: 'C04', title: 'Successful responses are handed back complete and unchanged',
    statement: 'For every operation and every 2xx response with a JSON object body, the result has error null, data deeply equal to that body (for contact-property reads: its documented camelCase form) and headers equal to all response headers. No field, list element, order, null or number is dropped, renamed or converted.',
    over: ['inputs'], text: 'operations x 2xx statuses x arbitrary JSON object bodies and header sets',
    why: `${TESTS} with fixed bodies; they cannot show that unknown fields, deep nesting, unusual keys or every 2xx status survive.`,
    files: ['src/resend.ts', 'src/contact-properties/contact-properties.ts'], mech: [m('ok branch of fetchRequest', 'src/resend.ts')], observe: ['returned promise'],
    technique: 'property-based testing: JSON round-trip oracle',
  },
  {
    id: 'C05', title: 'A call is never retried and never repeats a request',
    statement: 'Whatever the outcome (success, any HTTP status including 408/409/425/429/5xx, Retry-After headers, timeouts, connection or body errors), each call attempts each of its requests exactly once and settles without issuing further requests afterwards. In particular a failed send is never re-sent by the library.',
    over: ['fault_sequences'], text: 'operations x outcomes; requests counted until after the call settles and pending timers have had a chance to run',
    why: 'Tests mock one response per call and do not count attempts after a failure, for arbitrary statuses and headers.',
    files: ['src/resend.ts', 'src/emails/receiving/receiving.ts'], mech: [m('single fetch in fetchRequest', 'src/resend.ts')], observe: ['requests reaching fetch'],
    technique: 'property-based fault injection with request counting',
  },
  {
    id: 'C06', title: 'Every request carries the client\'s credentials and goes to its base URL',
    statement: 'Every API request of a client goes to its configured base URL followed by the operation\'s path, with Authorization "Bearer <key>" and its configured User-Agent, unless the call itself overrides those headers. JSON bodies are sent with Content-Type application/json; multipart bodies with a multipart/form-data type whose boundary matches the body.',
    over: ['inputs', 'configurations'], text: 'client configurations (key, base URL with or without port/path prefix, user agent) x operations',
    why: `${TESTS} checking one or two headers on apiKeys.list; not every verb, operation and configuration.`,
    files: ['src/resend.ts'], mech: [m('headers built in the constructor and copied per request', 'src/resend.ts')], observe: ['request headers and URL at fetch and on a real socket'],
    technique: 'property-based testing over configurations and operations, at fetch and over loopback HTTP',
  },
  {
    id: 'C07', title: 'Client configuration precedence and missing-key refusal',
    statement: 'The API key is the constructor argument if non-empty, else RESEND_API_KEY, and construction throws if neither is set; base URL and User-Agent are the explicit option if given (even an empty string), else the non-empty RESEND_BASE_URL / RESEND_USER_AGENT, else the built-in defaults (https://api.resend.com and resend-node:<package version>). The values in force at construction are exposed on the client and govern all its requests, even if the environment changes later.',
    over: ['configurations', 'histories'], text: 'all combinations of argument/option/environment present, empty, absent, and later environment changes',
    why: 'Tests sample seven of the combinations and never change the environment after construction or test the key fallback.',
    files: ['src/resend.ts'], mech: [m('constructor, getDefaultBaseUrl, getDefaultUserAgent', 'src/resend.ts')], observe: ['client properties, thrown error, request headers'],
    technique: 'property-based testing against a configuration model',
  },
  {
    id: 'C08', title: 'Per-call headers apply fully, override defaults, and only to that call',
    statement: 'For every operation accepting request options, and the generic get/post/put/patch/delete, each caller-supplied header, given as a plain object, an array of pairs or a Headers instance (the platform\'s or another implementation\'s), is sent with its value, replacing a default header of the same name case-insensitively, while all other default headers stay. Other calls, before or after, never carry it.',
    over: ['inputs', 'histories'], text: 'operations with options x header sets in the three HeadersInit shapes x sequences of calls',
    why: `${TESTS} that pass at most one header as a plain object and never look at the following request.`,
    files: ['src/resend.ts', 'src/batch/batch.ts'], mech: [m('new Headers(this.headers) + override loop', 'src/resend.ts'), m('x-batch-validation default', 'src/batch/batch.ts')], observe: ['request headers'],
    technique: 'property-based testing against a header-merge model over call sequences',
  },
  {
    id: 'C09', title: 'The idempotency key is sent exactly as given, exactly where given',
    statement: 'When a caller passes a non-empty idempotencyKey to emails.send/create, batch.send/create, receiving.forward or the generic post, the resulting POST carries it verbatim as the Idempotency-Key header, taking precedence over a header of that name. Requests of calls made without one (and the lookup and download steps of forward) carry no such header unless the caller set it as a header; repeating a call with the same key sends the same key and body.',
    over: ['inputs', 'histories'], text: 'keys (any legal header value) x operations x other headers x call sequences',
    why: `${TESTS} with one key per operation; no sequences, no conflict with explicit headers, no long or unusual keys.`,
    files: ['src/resend.ts', 'src/emails/emails.ts', 'src/batch/batch.ts', 'src/emails/receiving/receiving.ts'], mech: [m('Idempotency-Key in post', 'src/resend.ts')], observe: ['request headers'],
    technique: 'property-based testing over call sequences',
  },
  {
    id: 'C10', title: 'A call depends only on its arguments, not on earlier calls',
    statement: 'In any sequence of calls on one client, every call sends the same request it would send on a fresh client, and returns the result of its own response: nothing is cached, merged, throttled or remembered from earlier calls, successes or failures, including repeated identical calls answered differently.',
    over: ['histories'], text: 'sequences of up to ~40 operations with repeats, mixed outcomes and mixed options',
    why: 'Tests issue one or two calls per client and never compare a long history with fresh-client behaviour.',
    files: ['src/resend.ts', 'src/templates/templates.ts', 'src/batch/batch.ts', 'src/webhooks/webhooks.ts'], mech: [m('stateless resources; per-request header copy', 'src/resend.ts')], observe: ['requests and results'],
    technique: 'stateful property-based testing (operation histories vs. a stateless model)',
  },
  {
    id: 'C11', title: 'Concurrent calls and clients never mix requests or results',
    statement: 'When any number of calls on one or several clients are in flight together and their responses complete in any order, every call sends its own request with its own client\'s key, base URL, headers and body, and resolves with the response to that request.',
    over: ['schedules', 'inputs'], text: 'up to ~12 overlapping calls on up to 3 clients, all completion orders chosen by the scheduler, mixed successes and failures',
    why: 'Tests await each call before the next one; no interleaving is explored.',
    files: ['src/resend.ts', 'src/batch/batch.ts', 'src/templates/chainable-template-result.ts'], mech: [m('no shared mutable per-call state', 'src/resend.ts')], observe: ['requests and results'],
    technique: 'property-based testing with a generated response schedule (fc.scheduler)',
  },
  {
    id: 'C12', title: 'Caller-supplied arguments are never modified',
    statement: 'No operation modifies any object, array, header set or buffer passed to it, at any depth, whatever the outcome, and operations work on deeply frozen arguments. Hence the same payload object can be reused, and sending it again produces the same request.',
    over: ['inputs', 'histories'], text: 'operations x arguments (incl. React content and batches) x outcomes; snapshot compared before/after and call repeated with the same object',
    why: 'Two tests check one React payload each (emails, templates); other operations, nested values and failures are not covered.',
    files: ['src/batch/batch.ts', 'src/emails/emails.ts', 'src/templates/templates.ts', 'src/broadcasts/broadcasts.ts'], mech: [m('shallow copy before rendering', 'src/emails/emails.ts')], observe: ['arguments after the call; frozen arguments'],
    technique: 'property-based metamorphic testing (snapshot, deep-freeze, repeat)',
  },
  {
    id: 'C13', title: 'Omitted fields stay off the wire; null, false, 0 and "" are kept',
    statement: 'For every create/update operation, an optional field left out or set to undefined does not appear in the request and gives the same request as leaving it out, so a partial update touches only what the caller specified. A field explicitly set to null, false, 0, an empty string or an empty array, where its type allows, is transmitted with exactly that value.',
    over: ['inputs'], text: 'write operations x every optional field in {absent, undefined, null/false/0/""/[], ordinary value}',
    why: 'Tests use a few partial payloads; the product of fields and falsy values is not sampled.',
    files: ['src/contacts/contacts.ts', 'src/automations/automations.ts', 'src/domains/domains.ts', 'src/common/utils/parse-template-to-api-options.ts', 'src/broadcasts/broadcasts.ts'], mech: [m('undefined dropped by JSON serialisation, explicit field mapping', 'src/common/utils')], observe: ['request body'],
    technique: 'property-based metamorphic and model testing over sparse payloads',
  },
  {
    id: 'C14', title: 'Emails are transmitted faithfully',
    statement: 'For every payload accepted by emails.send/create, the request body is exactly the documented API form of that payload: from, to, cc, bcc, subject, html, text, headers, tags and template id/variables as given, replyTo, scheduledAt and topicId under their snake_case names, and every attachment in order with content, filename, path, content type and content id. Nothing is added, dropped, reordered, deduplicated or normalised.',
    over: ['inputs'], text: 'payloads generated from the public payload types, incl. unicode, long values, many recipients/attachments, buffers and template emails',
    why: `${TESTS} of specific payloads; field combinations, ordering and unusual values are not sampled.`,
    files: ['src/common/utils/parse-email-to-api-options.ts', 'src/emails/emails.ts'], mech: [m('parseEmailToApiOptions', 'src/common/utils/parse-email-to-api-options.ts')], observe: ['request body'],
    technique: 'property-based testing against an independent payload model',
  },
  {
    id: 'C15', title: 'Batches keep every email, in order, each as if sent alone',
    statement: 'A batch call sends one request whose body lists exactly the given emails, in order, each identical to the body a single send of that email would produce, for any batch size and mix of html, text, React and template emails. The validation mode header is the requested one, strict by default, and the per-index response is returned unchanged.',
    over: ['inputs', 'schedules'], text: 'batches of 0..150 emails of mixed kinds, with React renders finishing in different orders',
    why: 'Tests send two-element batches; ordering with rendering, larger sizes and mixed kinds are untested.',
    files: ['src/batch/batch.ts', 'src/common/utils/parse-email-to-api-options.ts'], mech: [m('sequential loop pushing converted emails', 'src/batch/batch.ts')], observe: ['request body and headers'],
    technique: 'property-based differential testing (batch vs. single sends) and model',
  },
  {
    id: 'C16', title: 'React content is rendered to html and never sent raw',
    statement: 'For emails, batches, broadcasts (create, update) and template creation with a react value, the html sent equals the output of the React Email renderer for that element, taking precedence over an html field, with all other fields unaffected and no react field on the wire. Without react, html is sent as given.',
    over: ['inputs'], text: 'element trees (nesting, props, text, fragments, components, async components) x the operations taking react',
    why: 'Tests render a couple of constant elements, mostly with a mocked renderer.',
    files: ['src/render.ts', 'src/emails/emails.ts', 'src/batch/batch.ts', 'src/broadcasts/broadcasts.ts', 'src/templates/templates.ts'], mech: [m('render()', 'src/render.ts')], observe: ['request body'],
    technique: 'property-based differential testing against a direct call of the renderer',
  },
  {
    id: 'C17', title: 'If React rendering fails, nothing is sent',
    statement: 'If the React Email renderer fails (rejects or throws) for any React element of a call, or the optional renderer package is not installed, the call rejects with an error (one that names the package to install, if it is missing) and no HTTP request is sent for it; a batch is not sent partially. Calls without React content, and other calls in flight, are unaffected.',
    over: ['inputs', 'configurations', 'fault_sequences'], text: 'operations x position of the failing element x throw kinds x renderer present/absent',
    why: 'One template test mocks a failing renderer; other operations and batch positions are untested.',
    files: ['src/render.ts', 'src/batch/batch.ts', 'src/templates/templates.ts'], mech: [m('render before post; rethrow', 'src/render.ts')], observe: ['rejection and request count'],
    technique: 'property-based fault injection in rendering, with and without the renderer package',
  },
  {
    id: 'C18', title: 'Broadcasts are transmitted faithfully',
    statement: 'broadcasts.create sends exactly name, segment, audience, preview text, from, html, text, subject, reply-to, topic, send flag and schedule in their documented snake_case form; update sends the same except send and schedule; send sends only the optional schedule. Every value arrives as given, and a broadcast is sent or scheduled only if the caller asked for it.',
    over: ['inputs'], text: 'payloads from the public types incl. all optional-field subsets',
    why: `${TESTS}; combinations (e.g. send=false, topicId=null, segment and audience together) are not sampled.`,
    files: ['src/broadcasts/broadcasts.ts'], mech: [m('create/update/send mapping', 'src/broadcasts/broadcasts.ts')], observe: ['request body'],
    technique: 'property-based testing against an independent payload model',
  },
  {
    id: 'C19', title: 'Templates and their variables are transmitted faithfully',
    statement: 'templates.create and update send name, subject, html, text, alias, from, reply-to and every variable in order with key, type and fallback value (including 0, "" and null), each under its documented name and unchanged; an update sends only the fields given.',
    over: ['inputs'], text: 'payloads from the public types, variable lists of any length',
    why: `${TESTS} with at most a few variables.`,
    files: ['src/common/utils/parse-template-to-api-options.ts', 'src/templates/templates.ts'], mech: [m('parseTemplateToApiOptions', 'src/common/utils/parse-template-to-api-options.ts')], observe: ['request body'],
    technique: 'property-based testing against an independent payload model',
  },
  {
    id: 'C20', title: 'create()/duplicate().publish() publishes exactly the new template',
    statement: 'Awaiting templates.create or duplicate behaves as a plain promise of that result, and the request is sent once however often the result is awaited. publish() on it sends, only after the first request succeeded, one publish request per publish() call for the id that request returned, and yields that response; if the first request fails its error is returned and no publish request is sent, and if rendering fails it rejects.',
    over: ['histories', 'schedules', 'fault_sequences'], text: 'interleavings of then/await/publish on the same result x outcomes of both requests',
    why: 'Tests cover one successful chain for each; failure chains, repeated publish, await-then-publish and delayed responses are untested.',
    files: ['src/templates/chainable-template-result.ts', 'src/templates/templates.ts'], mech: [m('ChainableTemplateResult', 'src/templates/chainable-template-result.ts')], observe: ['requests and results'],
    technique: 'stateful property-based testing of the chain with scheduled responses',
  },
  {
    id: 'C21', title: 'Contacts are created and updated with exactly the given data',
    statement: 'contacts.create sends email, first/last name, unsubscribed, properties, segments and topics under their documented names to /contacts, or, with an audienceId, the same without segments/topics to that audience; an audienceId combined with segments or topics is refused with invalid_parameter and no request. contacts.update sends only the given names, unsubscribed flag and properties, and contact topic updates send exactly the given list; values (false, null, 0, "") arrive unchanged.',
    over: ['inputs'], text: 'payloads from the public types, legacy and current',
    why: `${TESTS} of one or two payloads per form.`,
    files: ['src/contacts/contacts.ts', 'src/contacts/topics/contact-topics.ts'], mech: [m('create/update mapping', 'src/contacts/contacts.ts')], observe: ['request or local error'],
    technique: 'property-based testing against an independent payload model',
  },
  {
    id: 'C22', title: 'Contact operations address exactly the contact and scope given',
    statement: 'Contact get, update, remove, list, and the contact topics and segments operations address the contact by email if given, else by id, within the given audience or segment scope (segment taking precedence over audience when listing), whether passed as a string or an object. No operation ever addresses a different contact, or the whole collection, than the caller named.',
    over: ['inputs'], text: 'selector shapes (string, id, email, both) x scope (none, audience, segment, both) x operations',
    why: `${TESTS} with a fixed uuid or address per shape.`,
    files: ['src/contacts/contacts.ts', 'src/contacts/topics/contact-topics.ts', 'src/contacts/segments/contact-segments.ts'], mech: [m('email-before-id selection', 'src/contacts/contacts.ts')], observe: ['request path'],
    technique: 'property-based testing against an addressing model',
  },
  {
    id: 'C23', title: 'Missing identifiers are refused locally, without any request',
    statement: 'Object-form contact get/update/remove, contact topics and contact segments operations without id and email, and topics, contact-properties and suppressions get/remove (and topics/contact-properties update) with an empty or missing identifier, resolve with data null, headers null and error missing_required_field with statusCode null, and send no request, whatever other fields are given. With an identifier present they do send the request.',
    over: ['inputs'], text: 'guarded operations x empty/undefined/null/absent identifiers x other fields',
    why: 'Tests cover some of the guarded operations with one shape of missing value.',
    files: ['src/contacts/contacts.ts', 'src/topics/topics.ts', 'src/contact-properties/contact-properties.ts', 'src/suppressions/suppressions.ts', 'src/contacts/segments/contact-segments.ts', 'src/contacts/topics/contact-topics.ts'], mech: [m('guards returning missing_required_field', 'src/contacts/contacts.ts')], observe: ['result and request count'],
    technique: 'property-based testing of guard conditions',
  },
  {
    id: 'C24', title: 'Free-form identifiers stay within one path segment, intact',
    statement: 'For identifiers that are free text (contact email addresses, event names, suppression ids or emails, template ids or aliases), any non-empty well-formed string other than "." and ".." appears as exactly one path segment that decodes to that string. Characters such as / ? # % & + space or non-ASCII never change the path structure, the query, or the addressed resource.',
    over: ['inputs'], text: 'arbitrary strings rich in URL-special characters x operations taking free-form identifiers',
    why: 'One suppression test checks a plus sign; other characters and operations are unchecked.',
    files: ['src/events/events.ts', 'src/suppressions/suppressions.ts', 'src/contacts/contacts.ts', 'src/contacts/topics/contact-topics.ts', 'src/contacts/segments/contact-segments.ts', 'src/templates/templates.ts'], mech: [m('encoding of path segments', 'src/events/events.ts, src/suppressions/suppressions.ts')], observe: ['parsed request URL'],
    technique: 'property-based round-trip testing of path encoding',
  },
  {
    id: 'C25', title: 'Pagination parameters reach every list endpoint exactly',
    statement: 'For every paginated list operation, limit, after and before appear in the query exactly when the caller gave them, each once, decoding to the given value (any cursor text, any limit from 1), and no other parameter is invented; with no pagination given there is no query. Paging with the last cursor therefore visits each page once.',
    over: ['inputs', 'histories'], text: 'list operations x limits x arbitrary cursor strings x a paged collection served by a model server and walked with after/before',
    why: `${TESTS} with limit 1 and simple cursors for some operations.`,
    files: ['src/common/utils/build-pagination-query.ts', 'src/common/utils/get-pagination-query-properties.ts'], mech: [m('buildPaginationUrl / getPaginationQueryProperties', 'src/common/utils')], observe: ['request query; pages visited'],
    technique: 'property-based round-trip testing plus model-based page walking',
  },
  {
    id: 'C26', title: 'List filters and query options are encoded exactly once and losslessly',
    statement: 'Email metrics (dates, timezone, granularity, metrics, dimensions, domain/email/broadcast ids), broadcast recipients (type, email, bounce type), suppressions (origin), automations and automation runs (status, lists comma-joined), contact imports (status) and received emails (html format) send each given option once under its documented query name, decoding to the given value, together with any pagination, and nothing for options not given.',
    over: ['inputs'], text: 'option objects from the public types, with arbitrary text in free-form values',
    why: `${TESTS}, one or two option combinations per endpoint.`,
    files: ['src/emails/emails.ts', 'src/broadcasts/broadcasts.ts', 'src/suppressions/suppressions.ts', 'src/automations/automations.ts', 'src/automation-runs/automation-runs.ts', 'src/contacts/imports/contact-imports.ts', 'src/emails/receiving/receiving.ts'], mech: [m('buildMetricsQuery, buildRecipientsQuery, buildSuppressionsQuery', 'src/emails/emails.ts')], observe: ['request query'],
    technique: 'property-based round-trip testing against a query model',
  },
  {
    id: 'C27', title: 'Automation graphs are transmitted faithfully',
    statement: 'automations.create and update send the name, status, every step and every connection in the given order, each step with its key, type and its configuration in the documented snake_case form for its type, nested condition rules, template variables and properties untouched. An update sends only the parts given.',
    over: ['inputs'], text: 'automations with all step types, recursive condition rules, any number of steps and connections',
    why: `${TESTS} with one step of most types; recursive rules and combinations are not sampled.`,
    files: ['src/common/utils/parse-automation-to-api-options.ts', 'src/automations/automations.ts'], mech: [m('parseStepConfig / parseConnection', 'src/common/utils/parse-automation-to-api-options.ts')], observe: ['request body'],
    technique: 'property-based testing against an independent payload model',
  },
  {
    id: 'C28', title: 'Contact properties map losslessly in both directions',
    statement: 'contactProperties.create/update send key, type and fallback value (including 0, "" and null) in API form, and get/list return every property of the response, in order, with id, key, type, createdAt and fallbackValue equal to the API\'s values. A property created and then read back through a server that stores what it was sent has the same key, type and fallback value, and list metadata (object, has_more) is kept.',
    over: ['inputs', 'histories'], text: 'properties of both types x histories of create/update/get/list/remove against a storing model server',
    why: `${TESTS}; no round trip through create and read, few fallback values.`,
    files: ['src/common/utils/parse-contact-properties-to-api-options.ts', 'src/contact-properties/contact-properties.ts'], mech: [m('parseContactPropertyFromApi/ToApiOptions', 'src/common/utils/parse-contact-properties-to-api-options.ts')], observe: ['request bodies and results'],
    technique: 'stateful property-based testing against a storing model server',
  },
  {
    id: 'C29', title: 'Contact imports upload the file and settings intact',
    statement: 'contacts.imports.create sends one multipart/form-data request whose file part carries exactly the given bytes (with a File\'s name and the given type), plus column_map, on_conflict, segments and topics fields exactly when given, the JSON ones decoding to the given values with column names under their documented keys. Each field appears once, and the credentials are those of any other call.',
    over: ['inputs'], text: 'files with arbitrary bytes (incl. boundary-like and non-UTF-8 content) and all option subsets, at fetch and over a real socket',
    why: `${TESTS} on a small CSV and never inspect the encoded multipart body.`,
    files: ['src/contacts/imports/contact-imports.ts', 'src/resend.ts'], mech: [m('buildCreateFormData; Content-Type removed for FormData', 'src/contacts/imports/contact-imports.ts, src/resend.ts')], observe: ['decoded multipart body'],
    technique: 'property-based round-trip testing of the encoded multipart body',
  },
  {
    id: 'C30', title: 'Domain settings are transmitted faithfully',
    statement: 'domains.create, domains.update and domain claim creation send every given setting (name, region, return path, capabilities, open/click tracking, TLS, tracking subdomain, as applicable) under its documented snake_case name with exactly the given value, false included, and nothing that was not given.',
    over: ['inputs'], text: 'payloads from the public types incl. all optional-field subsets',
    why: `${TESTS} of fixed payloads.`,
    files: ['src/common/utils/parse-domain-to-api-options.ts', 'src/domains/domains.ts', 'src/domains/claims/domain-claims.ts'], mech: [m('parseDomainToApiOptions', 'src/common/utils/parse-domain-to-api-options.ts')], observe: ['request body'],
    technique: 'property-based testing against an independent payload model',
  },
  {
    id: 'C31', title: 'Events, topics, webhooks, keys, segments, suppressions: faithful bodies',
    statement: 'Event send/create/update, topic create/update, webhook create/update, API key create/update, segment create, suppression add, suppression batch add/remove, email update (schedule) and email share transmit exactly the given values under their documented names (contactId as contact_id, defaultSubscription as default_subscription, scheduledAt as scheduled_at, expiresIn as expires_in, the rest as given), with arbitrary event payloads, schemas and lists kept intact and in order.',
    over: ['inputs'], text: 'payloads from the public types, arbitrary JSON event payloads, long lists',
    why: `${TESTS} of fixed payloads.`,
    files: ['src/events/events.ts', 'src/topics/topics.ts', 'src/webhooks/webhooks.ts', 'src/api-keys/api-keys.ts', 'src/segments/segments.ts', 'src/suppressions/suppressions.ts', 'src/suppressions/batch/batch.ts', 'src/emails/emails.ts', 'src/common/utils/parse-automation-to-api-options.ts'], mech: [m('payload mapping per resource', 'src/*/*.ts')], observe: ['request body'],
    technique: 'property-based testing against an independent payload model',
  },
  {
    id: 'C32', title: 'Webhook verification accepts exactly genuinely signed payloads',
    statement: 'webhooks.verify returns the parsed JSON of the payload if the signature header contains a v1 HMAC-SHA256 signature of "<id>.<timestamp>.<payload>" under the given secret (with or without the whsec_ prefix), possibly among other signatures, and the timestamp is fresh. It throws for any change to the payload, the id, the timestamp value or the secret, for missing or empty headers or secret, for other signature versions, and for malformed signatures, independently of earlier verifications.',
    over: ['inputs', 'histories'], text: 'secrets x ids x JSON payload texts x signature lists x single-point tamperings x sequences of verifications',
    why: 'Tests verify one valid and one invalid signature.',
    files: ['src/webhooks/webhooks.ts'], mech: [m('standardwebhooks Webhook.verify', 'src/webhooks/webhooks.ts')], observe: ['return value or exception'],
    technique: 'property-based testing against an independent HMAC model with tampering mutations',
  },
  {
    id: 'C33', title: 'Webhook verification rejects stale and future timestamps',
    statement: 'At any clock time, a correctly signed webhook is accepted if its timestamp is at most 300 seconds in the past or in the future of the current time, and rejected if it is further away or not a number, even if it was accepted earlier.',
    over: ['inputs', 'histories'], text: 'clock times x offsets concentrated at the +/-300 s edges x replays of the same message as the clock advances',
    why: 'Tests only sign at the current time.',
    files: ['src/webhooks/webhooks.ts'], mech: [m('timestamp tolerance of standardwebhooks, header wiring', 'src/webhooks/webhooks.ts')], observe: ['return value or exception under a controlled clock'],
    technique: 'property-based testing with a harness-owned clock',
  },
  {
    id: 'C34', title: 'Forwarding (passthrough) reproduces the received email',
    statement: 'receiving.forward in its default mode sends exactly one email to the given recipients from the given sender, with the original subject ("(no subject)" if empty), the text and html bodies of the original message, and every attachment in order with its bytes (base64), filename, type and content id without angle brackets. This holds for any MIME structure, transfer encoding and declared charset of the raw message.',
    over: ['inputs'], text: 'generated MIME messages (nested multiparts, base64/quoted-printable/7bit/8bit, utf-8 and latin-1 charsets, binary and inline attachments) served as raw bytes',
    why: 'Tests forward three small ASCII messages.',
    files: ['src/emails/receiving/receiving.ts'], mech: [m('forwardPassthrough with PostalMime', 'src/emails/receiving/receiving.ts')], observe: ['the send request body'],
    technique: 'property-based testing: generated MIME messages vs. the parts they were built from',
  },
  {
    id: 'C35', title: 'Forwarding (wrapped) attaches the original byte for byte',
    statement: 'receiving.forward with passthrough false sends exactly one email to the given recipients from the given sender, with the given text and html, the subject prefixed once with "Fwd: " (not again if already prefixed), and a single message/rfc822 attachment forwarded_message.eml whose base64 content decodes to exactly the bytes downloaded.',
    over: ['inputs'], text: 'arbitrary raw bytes (8-bit, NUL, BOM, large) x subjects x bodies',
    why: 'Tests wrap two short ASCII strings, for which any text decoding is lossless.',
    files: ['src/emails/receiving/receiving.ts'], mech: [m('forwardWrapped', 'src/emails/receiving/receiving.ts')], observe: ['the send request body'],
    technique: 'property-based byte round-trip testing',
  },
  {
    id: 'C36', title: 'A forward that cannot read the original sends nothing',
    statement: 'If fetching the received email fails, it has no raw content, or downloading the raw content fails (HTTP error, connection or body error), receiving.forward resolves, never rejects, with data null and a non-null error (the API\'s own error for the lookup, validation_error with status 400 for missing raw content, application_error otherwise, with the HTTP status if there was a failed response; headers are null in the last two cases), and sends no email. Otherwise the result is that of the send request.',
    over: ['fault_sequences'], text: 'every step x every fault kind x both modes',
    why: 'Tests cover three failures in one mode, none at transport level.',
    files: ['src/emails/receiving/receiving.ts'], mech: [m('early returns in forward', 'src/emails/receiving/receiving.ts')], observe: ['requests and result'],
    technique: 'property-based fault injection per step',
  },
  {
    id: 'C37', title: 'The API key is sent only to the API base URL and never logged',
    statement: 'The API key is sent only in the Authorization header of requests to the client\'s base URL: the download of raw email content from its signed URL carries neither an Authorization header nor the caller\'s request headers or idempotency key, and no request URL, request body, console output, returned value or thrown error of any operation contains the key or a telling part of it, unless the server itself echoed it.',
    over: ['inputs', 'fault_sequences'], text: 'operations x outcomes x forward flows with arbitrary download URLs',
    why: 'No test inspects the download request or console output for credentials.',
    files: ['src/emails/receiving/receiving.ts', 'src/resend.ts'], mech: [m('plain fetch for downloads; logError logs error and path only', 'src/resend.ts')], observe: ['all requests, console output, results'],
    technique: 'property-based information-flow testing with a marked key',
  },
  {
    id: 'C38', title: 'Failures are logged once outside production, never in production',
    statement: 'With NODE_ENV other than production, each API request that ends in an error logs exactly one diagnostic through console.error, containing the error that is returned, the request path and, if the server answered with an error status, that status; with NODE_ENV=production, and for successful calls and locally refused calls in any environment, nothing is printed on any console method. The setting in force when the call fails decides.',
    over: ['inputs', 'configurations', 'histories'], text: 'NODE_ENV values changing over time x operations x outcomes',
    why: 'Tests do not assert console output.',
    files: ['src/resend.ts'], mech: [m('logError', 'src/resend.ts')], observe: ['console methods'],
    technique: 'property-based testing with captured console',
  },
  {
    id: 'C39', title: 'Aliases and both module formats behave identically',
    statement: 'emails.send and emails.create, batch.send and batch.create, and the audiences and segments resources are interchangeable, and the ESM and CommonJS builds of the package expose the same operations: for the same arguments and responses they send identical requests and return identical results.',
    over: ['inputs', 'configurations'], text: 'all operations x arguments x outcomes, run pairwise through the aliases and through both builds',
    why: 'Tests run on the sources, never on the built bundles, and compare aliases only by example.',
    files: ['src/emails/emails.ts', 'src/batch/batch.ts', 'src/resend.ts', 'src/index.ts'], mech: [m('send delegates to create', 'src/emails/emails.ts')], observe: ['requests and results'],
    technique: 'property-based differential testing (alias vs. alias, ESM vs. CJS)',
  },
  {
    id: 'C40', title: 'The client works in runtimes without process',
    statement: 'In a runtime without a global process object (or without process.env), a client given an explicit key uses the default or explicitly given base URL and user agent, all operations send the same requests and return the same results as elsewhere, and constructing without a key throws the missing-key error. Nothing is logged there. Calls that upload no file also work without a global FormData, and nothing depends on what other global names the runtime has (window, document, Deno, Bun).',
    over: ['configurations', 'inputs'], text: 'operations x outcomes with global process removed or without env, FormData removed, other runtimes\' names defined',
    why: 'All tests run with Node\'s process present.',
    files: ['src/resend.ts'], mech: [m('typeof process guards', 'src/resend.ts')], observe: ['requests, results, exceptions'],
    technique: 'property-based differential testing with and without process',
  },
  {
    id: 'C41', title: 'The client leaves the host process as it found it',
    statement: 'Loading the package, constructing clients and looking at their resources sends no request and prints nothing. Neither that nor any call, whatever its outcome, changes globals, built-in objects or their prototypes, environment variables or process listeners, or leaves timers or other resources running: a program whose calls are over ends by itself. API and transport failures never surface as unhandled rejections, uncaught exceptions or process warnings, even if nobody keeps the promise.',
    over: ['histories', 'inputs', 'fault_sequences'], text: 'histories of operations x outcomes x number of clients x fresh or already loaded package x awaited or dropped promises',
    why: 'No test looks at the process around the client.',
    files: ['src/index.ts', 'src/resend.ts', 'src/emails/receiving/receiving.ts', 'src/templates/chainable-template-result.ts', 'src/webhooks/webhooks.ts'], mech: [m('no module or instance state beyond configuration', 'src/resend.ts'), m('one floating promise, handled', 'src/templates/chainable-template-result.ts')], observe: ['process and globals before and after'],
    technique: 'property-based testing with an invariant over process snapshots; generated programs in child processes',
  },
  {
    id: 'C42', title: 'Over real HTTP, each call is one exchange with a whole answer or an error',
    statement: 'Against a real HTTP server, whatever the size of request and response, the chunking, pacing, delay or compression of the answer, and whether connections are kept or closed, each call delivers its complete documented request exactly once and resolves with the result of the complete response. If the connection is cut at any point (before the response, or after any part of its body), the call still resolves, with data null and the documented error, and is not sent again; partial data is never returned.',
    over: ['inputs', 'fault_sequences', 'schedules'], text: 'operations x payload sizes x transfer forms x cut points x sequential or concurrent calls',
    why: 'All tests mock fetch; the repository\'s e2e tests need the live service.',
    files: ['src/resend.ts', 'src/emails/receiving/receiving.ts', 'src/contacts/imports/contact-imports.ts'], mech: [m('fetchRequest', 'src/resend.ts'), m('raw download', 'src/emails/receiving/receiving.ts')], observe: ['bytes at the server, results at the caller'],
    technique: 'property-based testing over real sockets with fault injection, against the reference model',
  },
  {
    id: 'C43', title: 'No response is left hanging on its connection',
    statement: 'By the time the calls of a session are over, the body of every response they received, whatever its status and at whichever request of a multi-request operation it came, has been read to its end, has failed, or has been cancelled; none is left open. So connections return to the pool: against a server that keeps connections, the number that stay open does not grow with the number of calls, however many fail.',
    over: ['histories', 'inputs', 'fault_sequences'], text: 'sequential and concurrent operations x outcomes x forward flows that fail at each request, with watched bodies and over real connections',
    why: 'Mocked fetch has no connections; no test looks at bodies nobody needs.',
    files: ['src/resend.ts', 'src/emails/receiving/receiving.ts'], mech: [m('fetchRequest reads the body on every path', 'src/resend.ts'), m('raw download', 'src/emails/receiving/receiving.ts')], observe: ['body streams handed to the client; connections at the server'],
    technique: 'property-based testing with an invariant over watched body streams and over the server\'s open connections',
  },
  {
    id: 'C44', title: 'The published type declarations accept exactly the documented calls and describe every answer',
    statement: 'For programs in TypeScript strict mode that import the published package as an ES module, as CommonJS or through a bundler: every documented call with valid arguments compiles; one with a missing required, misspelled, unknown or wrongly typed field, an undocumented choice, too few or too many arguments, two fields that exclude each other (such as after and before, or template and html), or none of the required alternatives (such as html, text, react or template) does not. Every result can be told apart: data and error are each null exactly when the other is not, checking either narrows the other, data cannot be used unchecked, an error has a name, message and status code or null, and headers are a string record or null. Every documented field of every answer and webhook event is there under its documented name, with exactly its documented type, including where it may be null, and every exported name can be imported.',
    over: ['inputs'], text: 'operations x valid argument lists x ways to spoil them x ways to use the result x answer and event fields x kinds of consumer',
    why: 'Tests are run without type checking, and the repository\'s own compilation cannot see that a type became too loose or that a consumer\'s correct program stopped compiling.',
    files: ['src/index.ts', 'src/interfaces.ts', 'src/common/interfaces/index.ts', 'src/emails/interfaces/create-email-options.interface.ts', 'src/contacts/interfaces/create-contact-options.interface.ts', 'src/webhooks/interfaces/webhook-event.interface.ts'], mech: [m('Response<T>', 'src/interfaces.ts'), m('RequireAtLeastOne', 'src/common/interfaces/require-at-least-one.ts'), m('exports', 'src/index.ts')], observe: ['the TypeScript compiler\'s verdict on programs that use the built declarations'],
    technique: 'property-based testing: generated valid and spoilt programs, judged by the compiler against the built declarations; the reference model and a table of documented types as oracle',
    note: 'Searches generated programs; shows presence of violations and explored coverage, not absence. Trusts the TypeScript compiler and the declaration bundler (tsdown) of /repo, the reference model in lib/ops.mjs and the table lib/typing.json.',
  },
  {
    id: 'C45', title: 'Finished calls and discarded clients leave nothing in memory',
    statement: 'Once the calls made on a client are over, whatever their outcome, and the program has let go of their arguments and results, neither the client nor the package keeps any of it: arguments (attachments, elements, keys), requests, responses, results and errors can all be reclaimed, and so can a client nobody refers to. The memory a program needs does not grow with the number of calls, chained template results, forwards and webhook verifications it has made, with the number of different ids, keys and secrets they used, or with the number of clients it has made.',
    over: ['histories', 'inputs', 'fault_sequences'], text: 'sequences of operations x outcomes x clients kept or discarded x number of repetitions with ever new values',
    why: 'Tests make one or two calls per client and never look at what stays reachable.',
    files: ['src/resend.ts', 'src/emails/receiving/receiving.ts', 'src/templates/chainable-template-result.ts', 'src/render.ts', 'src/webhooks/webhooks.ts'], mech: [m('no instance or module state beyond configuration', 'src/resend.ts'), m('lazy import without cache of its own', 'src/render.ts')], observe: ['weak references to arguments, requests and results after garbage collection; heap size'],
    technique: 'property-based testing over generated sessions with an invariant on reachability (weak references, heap growth)',
  },
  {
    id: 'C46', title: 'A call that cannot be transmitted as given is not transmitted',
    statement: 'If JSON cannot express a value that belongs into the body (a BigInt, a cycle, a getter or toJSON that throws), or HTTP cannot express a header name, header value or idempotency key (line breaks, NUL, characters beyond Latin-1), the call fails: its promise rejects or resolves with data null and an error (it does not throw), and no request that writes anything is sent for it: not without the offending part, not with a cleaned-up one, not partly (the other emails of a batch, a forward without its key). If the base URL is no URL, or key or user agent cannot be a header, the constructor throws or every call fails in the same way, and nothing goes to any other address. Other calls of the client, before, after or in flight, are not affected.',
    over: ['inputs', 'histories'], text: 'writing operations x places in their arguments x kinds of inexpressible values x headers and keys x other calls; unusable configurations',
    why: 'Tests pass only well-formed values, and each broken value at each place is an input of its own.',
    files: ['src/resend.ts', 'src/batch/batch.ts', 'src/emails/receiving/receiving.ts', 'src/templates/templates.ts'], mech: [m('JSON.stringify(entity)', 'src/resend.ts'), m('new Headers(options.headers)', 'src/resend.ts')], observe: ['requests at the fetch boundary; how the promise settles'],
    technique: 'property-based testing with injected inexpressible values at places found with the reference model',
  },
  {
    id: 'C47', title: 'Only the fields of arguments matter, not what kind of object holds them',
    statement: 'A call sends the same request (headers included) and gives the same result whether its arguments, at any depth, are plain objects, objects without a prototype, class instances, objects or arrays of another realm (vm, worker, test runner), array subclasses, frozen objects, objects with accessors or with symbol keys, and in whatever order their fields come. Where any JSON is allowed, values that define toJSON (dates, decimals, identifiers) arrive as what it gives.',
    over: ['inputs'], text: 'operations x arguments x kinds of holder at every depth x field orders x outcomes',
    why: 'Tests pass object literals.',
    files: ['src/resend.ts', 'src/common/utils/parse-email-to-api-options.ts', 'src/common/utils/build-pagination-query.ts', 'src/automation-runs/automation-runs.ts', 'src/contacts/contacts.ts', 'src/events/events.ts'], mech: [m('explicit field by field mapping', 'src/common/utils/parse-email-to-api-options.ts'), m('Array.isArray', 'src/automation-runs/automation-runs.ts')], observe: ['requests and results'],
    technique: 'property-based metamorphic testing: arguments rebuilt with other kinds of objects, against the reference model',
  },
  {
    id: 'C48', title: 'The generic verbs send the given path and entity as they are',
    statement: 'client.get, post, put, patch and delete each issue one request with that method to the base URL followed by the given path, query string included, without re-encoding, normalising or extending it beyond what a URL parser does. The entity is sent as its JSON whatever JSON value it is (null, 0, false, "", arrays and strings included; a string that looks like JSON is still a string); left out or undefined, there is no body; post sends a FormData as the multipart form it is. Headers, idempotency key and result are those of any other call.',
    over: ['inputs'], text: 'five verbs x raw paths and queries x JSON entities, FormData or none x request options x base URLs x answers',
    why: 'The resource tests reach the verbs only with the paths and objects of each operation; raw paths, scalars and foreign forms are not sampled.',
    files: ['src/resend.ts'], mech: [m('get/post/put/patch/delete', 'src/resend.ts'), m('FormData detection', 'src/resend.ts')], observe: ['requests and results'],
    technique: 'property-based testing: generated paths, entities and forms, compared with the request observed at fetch',
  },
];

export const claimed = new Set(JSON.parse(process.env.CLAIMED ?? 'null') ?? properties.map((p) => p.id));

if (process.argv[1] === fileURLToPath(import.meta.url)) {
  const lines = properties.map((p) => JSON.stringify({
    id: p.id, title: p.title, statement: p.statement,
    quantifier: { over: p.over, text: p.text },
    why_tests_cant: p.why,
    anchors: { files: p.files, state: [], mechanism: p.mech, observe_at: p.observe, hook_needed: null },
  }));
  writeFileSync(join(root, 'properties.jsonl'), `${lines.join('\n')}\n`);
  const { manifest } = await import('./manifest.mjs');
  writeFileSync(join(root, 'MANIFEST.json'), `${JSON.stringify(manifest(properties), null, 1)}\n`);
}
