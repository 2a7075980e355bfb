from bugs1 import bug, B, R
PRE = "import { Resend, type WebhookEventPayload } from 'resend';\ndeclare const resend: Resend;\n"
def types(*programs):
    "Programs with whether they must compile."
    out = f"const head = {PRE!r};\nconst compiles = (p) => problem(`${{head}}export async function f() {{ ${{p}} }}`);\n"
    for must, p in programs:
        out += (f"assert.equal(compiles({p!r}), undefined);\n" if must else f"assert.ok(compiles({p!r}));\n")
    return out

bug('C44-pagination-both', 'C44', [('src/common/interfaces/pagination-options.interface.ts', """} & (
  | {
      /**
       * Get items after this cursor (cannot be used with 'before')
       */
      after?: string;
      before?: never;
    }
  | {
      /**
       * Get items before this cursor (cannot be used with 'after')
       */
      before?: string;
      after?: never;
    }
);""", """} & (
  | {
      /**
       * Get items after this cursor (cannot be used with 'before')
       */
      after?: string;
      before?: string;
    }
  | {
      /**
       * Get items before this cursor (cannot be used with 'after')
       */
      before?: string;
      after?: never;
    }
);""")], 'a list call with both cursors', 'the types let after and before be given together',
 types((True, "await resend.emails.list({ after: 'a' })"), (False, "await resend.emails.list({ after: 'a', before: 'b' })")))

bug('C44-batch-omit', 'C44', [('src/batch/interfaces/create-batch-options.interface.ts', """export type CreateBatchEmailOptions = DistributiveOmit<
  CreateEmailOptions,
  'attachments'
>;""", """export type CreateBatchEmailOptions = DistributiveOmit<
  CreateEmailOptions,
  keyof { attachment: never }
>;""")], 'attachments in a batch', 'attachments, which batches do not support, are no longer rejected by the types',
 types((True, "await resend.batch.send([{ from: 'a@b.co', to: 'a@b.co', subject: 's', text: 't' }])"), (False, "await resend.batch.send([{ from: 'a@b.co', to: 'a@b.co', subject: 's', text: 't', attachments: [] }])")))

bug('C44-at-least-one', 'C44', [('src/common/interfaces/require-at-least-one.ts', """  [K in keyof T]-?: Required<Pick<T, K>> &""", """  [K in keyof T]-?: Pick<Partial<T>, K> &""")], 'an email with no content at all', 'an email, broadcast or template with none of the alternatives compiles',
 types((True, "await resend.emails.send({ from: 'a@b.co', to: 'a@b.co', subject: 's', text: 't' })"), (False, "await resend.emails.send({ from: 'a@b.co', to: 'a@b.co', subject: 's' })")))

bug('C44-exclusive-parts', 'C44', [('src/common/interfaces/require-at-least-one.ts', """    Partial<Pick<T, Exclude<keyof T, K>>>;""", """    Partial<Record<Exclude<keyof T, K>, undefined>>;""")], 'an email with both html and text', 'the types allow only one of html, text and react, although several may be given together',
 types((True, "await resend.emails.send({ from: 'a@b.co', to: 'a@b.co', subject: 's', text: 't', html: '<p>t</p>' })")))

bug('C44-nullable-lost', 'C44', [('src/templates/interfaces/template.ts', """  reply_to: string[] | null;""", """  reply_to: string[];""")], 'reading reply_to of a template without looking for null', 'the type says that reply_to of a template is never null',
 types((False, "const r = await resend.templates.get('t'); if (r.data) r.data.reply_to.length;")))

bug('C44-status-dropped', 'C44', [('src/domains/interfaces/domain.ts', """  | 'partially_verified'
  | 'partially_failed';""", """  | 'partially_failed';""")], 'a program that handles partially verified domains', 'the status partially_verified is missing from the type',
 types((True, "const r = await resend.domains.get('d'); if (r.data && r.data.status === 'partially_verified') r.data.id;")))

bug('C44-receiving-priority', 'C44', [('src/domains/interfaces/domain.ts', """  record: 'Receiving';
  name: string;
  value: string;
  type: 'MX';
  ttl: string;
  status: DomainRecordStatus;
  priority: number;""", """  record: 'Receiving';
  name: string;
  value: string;
  type: 'MX';
  ttl: string;
  status: DomainRecordStatus;
  priority?: number;""")], 'reading the priority of a Receiving record', 'the priority of Receiving records is typed as possibly missing',
 types((True, "const r = await resend.domains.get('d'); for (const x of r.data?.records ?? []) if (x.record === 'Receiving') { const n: number = x.priority; void n; }")))

bug('C44-contact-property-value', 'C44', [('src/contacts/interfaces/get-contact.interface.ts', """  | {
      type: 'number';
      value: number;
    };""", """  | {
      type: 'number';
      value: number | string;
    };""")], 'reading a numeric contact property', 'the value of numeric properties is no longer a number by its type',
 types((True, "const r = await resend.contacts.get('c'); for (const x of Object.values(r.data?.properties ?? {})) if (x.type === 'number') { const n: number = x.value; void n; }")))

bug('C44-webhook-event', 'C44', [('src/webhooks/interfaces/webhook-event.interface.ts', """  created_at: string;
  updated_at: string;
  email: string;
  first_name?: string;
  last_name?: string;
  unsubscribed: boolean;
}""", """  created_at: string;
  updated_at?: string;
  email: string;
  first_name?: string;
  last_name?: string;
  unsubscribed: boolean;
}""")], 'reading updated_at of a contact event', 'updated_at of contact events is typed as possibly missing',
 types((True, "const e = null! as WebhookEventPayload; if (e.type === 'contact.updated') { const s: string = e.data.updated_at; void s; }")))

bug('C44-index-export', 'C44', [('src/index.ts', """export * from './suppressions/batch/interfaces';
export * from './suppressions/interfaces';
""", """export * from './suppressions/interfaces';
""")], 'importing the types of suppressions.batch', 'the types of the suppression batches are no longer exported',
 "const p = problem(\"import type { BatchAddSuppressionsOptions } from 'resend'; export type X = BatchAddSuppressionsOptions;\");\nassert.equal(p, undefined);")

bug('C44-response-undefined', 'C44', [('src/interfaces.ts', """  | { error: ErrorResponse; data: null }
)""", """  | { error: ErrorResponse; data?: null }
)""")], 'assigning data of a failed call to null', 'data of failed calls may be undefined by its type',
 types((True, "const r = await resend.emails.get('e'); if (r.error) { const n: null = r.data; return n; }")))

bug('C44-error-code', 'C44', [('src/interfaces.ts', """  | 'daily_quota_exceeded'
""", "")], 'telling daily_quota_exceeded from other errors', 'the error name daily_quota_exceeded is missing from the type, so comparing with it does not compile',
 types((True, "const r = await resend.emails.get('e'); if (r.error?.name === 'daily_quota_exceeded') return 1;")))

bug('C44-selecting-field', 'C44', [('src/contacts/interfaces/contact.ts', """      email?: undefined | null;
    }""", """      email?: string | null;
    }""")], 'a contact selected by both id and email', 'a contact can be selected by id and email at once, of which one is ignored',
 types((True, "await resend.contacts.get({ id: 'c', email: null })"), (False, "await resend.contacts.get({ id: 'c', email: 'a@b.co' })")))

bug('C44-delay-config', 'C44', [('src/automations/interfaces/automation-step.interface.ts', """export type ContactDeleteStepConfig = Record<string, never>;""", """export type ContactDeleteStepConfig = object;""")], 'a contact_delete step with settings', 'any settings are accepted for contact_delete steps',
 types((True, "await resend.automations.create({ name: 'n', steps: [{ key: 'k', type: 'contact_delete', config: {} }], connections: [] })"), (False, "await resend.automations.create({ name: 'n', steps: [{ key: 'k', type: 'contact_delete', config: { segmentId: 's' } }], connections: [] })")))

bug('C44-variable-null', 'C44', [('src/templates/interfaces/update-template.interface.ts', """    | {
        type: 'number';
        fallbackValue?: number | null;
      }""", """    | {
        type: 'number';
        fallbackValue?: number;
      }""")], 'clearing the fallback value of a numeric template variable', 'fallbackValue: null does not compile in templates.update',
 types((True, "await resend.templates.update('t', { variables: [{ key: 'K', type: 'number', fallbackValue: null }] })")))

bug('C44-remove-answer', 'C44', [('src/domains/interfaces/remove-domain.interface.ts', """Pick<Domain, 'id'>""", """Omit<Domain, 'status'>""")], 'reading more than the id from the answer of domains.remove', 'the answer of domains.remove is typed with fields that it does not have',
 types((True, "const r = await resend.domains.remove('d'); if (r.data) r.data.deleted;"), (False, "const r = await resend.domains.remove('d'); if (r.data) r.data.region.length;")))
