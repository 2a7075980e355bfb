From 76696b0454bb3086e89a868214a6ff56a3da8d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 1/9] fix: do not modify the emails passed to batch.send/create

---
 src/batch/batch.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/batch/batch.ts b/src/batch/batch.ts
index 777f328..8ada13c 100644
--- a/src/batch/batch.ts
+++ b/src/batch/batch.ts
@@ -26,12 +26,13 @@ export class Batch {
     const emails: EmailApiOptions[] = [];
 
     for (const email of payload) {
+      const body = { ...email };
+
       if (email.react) {
-        email.html = await render(email.react);
-        email.react = undefined;
+        body.html = await render(email.react);
       }
 
-      emails.push(parseEmailToApiOptions(email));
+      emails.push(parseEmailToApiOptions(body));
     }
 
     const data = await this.resend.post<CreateBatchSuccessResponse<Options>>(
-- 
2.43.0


From b5badc2cbe11c8399668745f87ed63f2b29e4d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 2/9] fix: send batch request headers given as Headers or pairs

---
 src/batch/batch.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/batch/batch.ts b/src/batch/batch.ts
index 8ada13c..b6ee246 100644
--- a/src/batch/batch.ts
+++ b/src/batch/batch.ts
@@ -35,15 +35,17 @@ export class Batch {
       emails.push(parseEmailToApiOptions(body));
     }
 
+    const headers = new Headers(options?.headers);
+    if (!headers.has('x-batch-validation')) {
+      headers.set('x-batch-validation', options?.batchValidation ?? 'strict');
+    }
+
     const data = await this.resend.post<CreateBatchSuccessResponse<Options>>(
       '/emails/batch',
       emails,
       {
         ...options,
-        headers: {
-          'x-batch-validation': options?.batchValidation ?? 'strict',
-          ...options?.headers,
-        },
+        headers,
       },
     );
 
-- 
2.43.0


From aee00f101996f7d8d166c34f346c0252e2c28f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 3/9] fix: report error responses whose JSON body is not an
 object

---
 src/resend.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/resend.ts b/src/resend.ts
index fe4f5e0..ac1ea83 100644
--- a/src/resend.ts
+++ b/src/resend.ts
@@ -120,6 +120,10 @@ export class Resend {
           const rawError = await response.text();
           const parsedError = JSON.parse(rawError);
 
+          if (typeof parsedError !== 'object' || parsedError === null) {
+            throw new SyntaxError('Error response is not a JSON object');
+          }
+
           this.logError(parsedError, path, response.status);
 
           return {
-- 
2.43.0


From 5cb1f7301aa3f832bfa64350e0e0fa3f485ed8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:48 +0000
Subject: [PATCH 4/9] fix: forward raw emails as bytes instead of decoding them
 as UTF-8

---
 src/emails/receiving/receiving.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index 684e1e4..30431ee 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -139,7 +139,7 @@ export class Receiving {
       };
     }
 
-    const rawEmailContent = await rawResponse.text();
+    const rawEmailContent = await rawResponse.arrayBuffer();
 
     const parsed = await PostalMime.parse(rawEmailContent, {
       attachmentEncoding: 'base64',
@@ -213,7 +213,7 @@ export class Receiving {
       };
     }
 
-    const rawEmailContent = await rawResponse.text();
+    const rawEmailContent = await rawResponse.arrayBuffer();
 
     const data = await this.resend.post<ForwardReceivingEmailResponseSuccess>(
       '/emails',
-- 
2.43.0


From 52b9453d58007726985253068345b69560a1cf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 5/9] fix: resolve with an error when the raw email download
 fails while forwarding

---
 src/emails/receiving/receiving.ts | 67 +++++++++++++++++++------------
 1 file changed, 41 insertions(+), 26 deletions(-)

diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index 30431ee..1322883 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -1,5 +1,6 @@
 import PostalMime from 'postal-mime';
 import { buildPaginationUrl } from '../../common/utils/build-pagination-query';
+import type { ErrorResponse } from '../../interfaces';
 import type { Resend } from '../../resend';
 import { Attachments } from './attachments/attachments';
 import type {
@@ -106,6 +107,36 @@ export class Receiving {
     );
   }
 
+  private async downloadRaw(
+    url: string,
+  ): Promise<
+    | { content: ArrayBuffer; error: null }
+    | { content: null; error: ErrorResponse }
+  > {
+    let statusCode: number | null = null;
+
+    try {
+      const rawResponse = await fetch(url);
+
+      if (rawResponse.ok) {
+        return { content: await rawResponse.arrayBuffer(), error: null };
+      }
+
+      statusCode = rawResponse.status;
+    } catch {
+      // Reported below, like any other request that could not be resolved
+    }
+
+    return {
+      content: null,
+      error: {
+        name: 'application_error',
+        message: 'Failed to download raw email content',
+        statusCode,
+      },
+    };
+  }
+
   private async forwardPassthrough(
     email: GetReceivingEmailResponseSuccess,
     options: { to: string | string[]; from: string; subject: string },
@@ -125,22 +156,14 @@ export class Receiving {
       };
     }
 
-    const rawResponse = await fetch(email.raw.download_url);
+    const { content: rawEmailContent, error } = await this.downloadRaw(
+      email.raw.download_url,
+    );
 
-    if (!rawResponse.ok) {
-      return {
-        data: null,
-        error: {
-          name: 'application_error',
-          message: 'Failed to download raw email content',
-          statusCode: rawResponse.status,
-        },
-        headers: null,
-      };
+    if (error) {
+      return { data: null, error, headers: null };
     }
 
-    const rawEmailContent = await rawResponse.arrayBuffer();
-
     const parsed = await PostalMime.parse(rawEmailContent, {
       attachmentEncoding: 'base64',
     });
@@ -199,22 +222,14 @@ export class Receiving {
       };
     }
 
-    const rawResponse = await fetch(email.raw.download_url);
+    const { content: rawEmailContent, error } = await this.downloadRaw(
+      email.raw.download_url,
+    );
 
-    if (!rawResponse.ok) {
-      return {
-        data: null,
-        error: {
-          name: 'application_error',
-          message: 'Failed to download raw email content',
-          statusCode: rawResponse.status,
-        },
-        headers: null,
-      };
+    if (error) {
+      return { data: null, error, headers: null };
     }
 
-    const rawEmailContent = await rawResponse.arrayBuffer();
-
     const data = await this.resend.post<ForwardReceivingEmailResponseSuccess>(
       '/emails',
       {
-- 
2.43.0


From b628ac77c5067dd336e38c795304b22413fead24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:56 +0000
Subject: [PATCH 6/9] fix: encode contact and template identifiers in request
 paths

---
 src/common/utils/encode-path-segment.ts   |  9 +++++++++
 src/contacts/contacts.ts                  | 23 +++++++++++++----------
 src/contacts/segments/contact-segments.ts | 10 +++++++---
 src/contacts/topics/contact-topics.ts     |  8 ++++++--
 src/templates/templates.ts                | 11 ++++++-----
 5 files changed, 41 insertions(+), 20 deletions(-)
 create mode 100644 src/common/utils/encode-path-segment.ts

diff --git a/src/common/utils/encode-path-segment.ts b/src/common/utils/encode-path-segment.ts
new file mode 100644
index 0000000..565be59
--- /dev/null
+++ b/src/common/utils/encode-path-segment.ts
@@ -0,0 +1,9 @@
+/**
+ * Encodes a caller-supplied identifier so that it always stays one path segment.
+ * `@` is legal there and is kept readable, as identifiers are often email addresses.
+ */
+export function encodePathSegment(
+  identifier: string | null | undefined,
+): string {
+  return encodeURIComponent(String(identifier)).replace(/%40/g, '@');
+}
diff --git a/src/contacts/contacts.ts b/src/contacts/contacts.ts
index 8882444..925ce4f 100644
--- a/src/contacts/contacts.ts
+++ b/src/contacts/contacts.ts
@@ -1,4 +1,5 @@
 import { buildPaginationUrl } from '../common/utils/build-pagination-query';
+import { encodePathSegment } from '../common/utils/encode-path-segment';
 import type { Resend } from '../resend';
 import { ContactImports } from './imports/contact-imports';
 import type {
@@ -116,7 +117,9 @@ export class Contacts {
 
   async get(options: GetContactOptions): Promise<GetContactResponse> {
     if (typeof options === 'string') {
-      return this.resend.get<GetContactResponseSuccess>(`/contacts/${options}`);
+      return this.resend.get<GetContactResponseSuccess>(
+        `/contacts/${encodePathSegment(options)}`,
+      );
     }
 
     if (!options.id && !options.email) {
@@ -133,12 +136,12 @@ export class Contacts {
 
     if (!options.audienceId) {
       return this.resend.get<GetContactResponseSuccess>(
-        `/contacts/${options?.email ? options?.email : options?.id}`,
+        `/contacts/${encodePathSegment(options?.email ? options?.email : options?.id)}`,
       );
     }
 
     return this.resend.get<GetContactResponseSuccess>(
-      `/audiences/${options.audienceId}/contacts/${options?.email ? options?.email : options?.id}`,
+      `/audiences/${options.audienceId}/contacts/${encodePathSegment(options?.email ? options?.email : options?.id)}`,
     );
   }
 
@@ -157,7 +160,7 @@ export class Contacts {
 
     if (!options.audienceId) {
       const data = await this.resend.patch<UpdateContactResponseSuccess>(
-        `/contacts/${options?.email ? options?.email : options?.id}`,
+        `/contacts/${encodePathSegment(options?.email ? options?.email : options?.id)}`,
         {
           unsubscribed: options.unsubscribed,
           first_name: options.firstName,
@@ -169,7 +172,7 @@ export class Contacts {
     }
 
     const data = await this.resend.patch<UpdateContactResponseSuccess>(
-      `/audiences/${options.audienceId}/contacts/${options?.email ? options?.email : options?.id}`,
+      `/audiences/${options.audienceId}/contacts/${encodePathSegment(options?.email ? options?.email : options?.id)}`,
       {
         unsubscribed: options.unsubscribed,
         first_name: options.firstName,
@@ -183,7 +186,7 @@ export class Contacts {
   async remove(payload: RemoveContactOptions): Promise<RemoveContactsResponse> {
     if (typeof payload === 'string') {
       return this.resend.delete<RemoveContactsResponseSuccess>(
-        `/contacts/${payload}`,
+        `/contacts/${encodePathSegment(payload)}`,
       );
     }
 
@@ -201,14 +204,14 @@ export class Contacts {
 
     if (!payload.audienceId) {
       return this.resend.delete<RemoveContactsResponseSuccess>(
-        `/contacts/${payload?.email ? payload?.email : payload?.id}`,
+        `/contacts/${encodePathSegment(payload?.email ? payload?.email : payload?.id)}`,
       );
     }
 
     return this.resend.delete<RemoveContactsResponseSuccess>(
-      `/audiences/${payload.audienceId}/contacts/${
-        payload?.email ? payload?.email : payload?.id
-      }`,
+      `/audiences/${payload.audienceId}/contacts/${encodePathSegment(
+        payload?.email ? payload?.email : payload?.id,
+      )}`,
     );
   }
 }
diff --git a/src/contacts/segments/contact-segments.ts b/src/contacts/segments/contact-segments.ts
index 338e4da..eb2b525 100644
--- a/src/contacts/segments/contact-segments.ts
+++ b/src/contacts/segments/contact-segments.ts
@@ -1,4 +1,5 @@
 import { buildPaginationUrl } from '../../common/utils/build-pagination-query';
+import { encodePathSegment } from '../../common/utils/encode-path-segment';
 import type { Resend } from '../../resend';
 import type {
   AddContactSegmentOptions,
@@ -35,7 +36,10 @@ export class ContactSegments {
     }
 
     const identifier = options.email ? options.email : options.contactId;
-    const url = buildPaginationUrl(`/contacts/${identifier}/segments`, options);
+    const url = buildPaginationUrl(
+      `/contacts/${encodePathSegment(identifier)}/segments`,
+      options,
+    );
 
     const data = await this.resend.get<ListContactSegmentsResponseSuccess>(url);
     return data;
@@ -58,7 +62,7 @@ export class ContactSegments {
 
     const identifier = options.email ? options.email : options.contactId;
     return this.resend.post<AddContactSegmentResponseSuccess>(
-      `/contacts/${identifier}/segments/${options.segmentId}`,
+      `/contacts/${encodePathSegment(identifier)}/segments/${options.segmentId}`,
     );
   }
 
@@ -79,7 +83,7 @@ export class ContactSegments {
 
     const identifier = options.email ? options.email : options.contactId;
     return this.resend.delete<RemoveContactSegmentResponseSuccess>(
-      `/contacts/${identifier}/segments/${options.segmentId}`,
+      `/contacts/${encodePathSegment(identifier)}/segments/${options.segmentId}`,
     );
   }
 }
diff --git a/src/contacts/topics/contact-topics.ts b/src/contacts/topics/contact-topics.ts
index 8ff1919..3bbe435 100644
--- a/src/contacts/topics/contact-topics.ts
+++ b/src/contacts/topics/contact-topics.ts
@@ -1,4 +1,5 @@
 import { buildPaginationUrl } from '../../common/utils/build-pagination-query';
+import { encodePathSegment } from '../../common/utils/encode-path-segment';
 import type { Resend } from '../../resend';
 import type {
   ListContactTopicsOptions,
@@ -31,7 +32,7 @@ export class ContactTopics {
 
     const identifier = payload.email ? payload.email : payload.id;
     return this.resend.patch<UpdateContactTopicsResponseSuccess>(
-      `/contacts/${identifier}/topics`,
+      `/contacts/${encodePathSegment(identifier)}/topics`,
       payload.topics,
     );
   }
@@ -52,7 +53,10 @@ export class ContactTopics {
     }
 
     const identifier = options.email ? options.email : options.id;
-    const url = buildPaginationUrl(`/contacts/${identifier}/topics`, options);
+    const url = buildPaginationUrl(
+      `/contacts/${encodePathSegment(identifier)}/topics`,
+      options,
+    );
 
     return this.resend.get<ListContactTopicsResponseSuccess>(url);
   }
diff --git a/src/templates/templates.ts b/src/templates/templates.ts
index 2e232bd..baed3f9 100644
--- a/src/templates/templates.ts
+++ b/src/templates/templates.ts
@@ -1,4 +1,5 @@
 import type { PaginationOptions } from '../common/interfaces';
+import { encodePathSegment } from '../common/utils/encode-path-segment';
 import { getPaginationQueryProperties } from '../common/utils/get-pagination-query-properties';
 import { parseTemplateToApiOptions } from '../common/utils/parse-template-to-api-options';
 import { render } from '../render';
@@ -65,14 +66,14 @@ export class Templates {
 
   async remove(identifier: string): Promise<RemoveTemplateResponse> {
     const data = await this.resend.delete<RemoveTemplateResponseSuccess>(
-      `/templates/${identifier}`,
+      `/templates/${encodePathSegment(identifier)}`,
     );
     return data;
   }
 
   async get(identifier: string): Promise<GetTemplateResponse> {
     const data = await this.resend.get<GetTemplateResponseSuccess>(
-      `/templates/${identifier}`,
+      `/templates/${encodePathSegment(identifier)}`,
     );
     return data;
   }
@@ -87,7 +88,7 @@ export class Templates {
     identifier: string,
   ): ChainableTemplateResult<DuplicateTemplateResponse> {
     const promiseDuplicate = this.resend.post<DuplicateTemplateResponseSuccess>(
-      `/templates/${identifier}/duplicate`,
+      `/templates/${encodePathSegment(identifier)}/duplicate`,
     );
     return new ChainableTemplateResult(
       promiseDuplicate,
@@ -97,7 +98,7 @@ export class Templates {
 
   async publish(identifier: string): Promise<PublishTemplateResponse> {
     const data = await this.resend.post<PublishTemplateResponseSuccess>(
-      `/templates/${identifier}/publish`,
+      `/templates/${encodePathSegment(identifier)}/publish`,
     );
     return data;
   }
@@ -107,7 +108,7 @@ export class Templates {
     payload: UpdateTemplateOptions,
   ): Promise<UpdateTemplateResponse> {
     const data = await this.resend.patch<UpdateTemplateResponseSuccess>(
-      `/templates/${identifier}`,
+      `/templates/${encodePathSegment(identifier)}`,
       parseTemplateToApiOptions(payload),
     );
     return data;
-- 
2.43.0


From e3a1bdca848fb914e87d885687af2b4309e610c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 7/9] fix: treat undefined audienceId, segments and topics as
 omitted in contacts.create

---
 src/contacts/contacts.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/contacts/contacts.ts b/src/contacts/contacts.ts
index 925ce4f..3f3ae6f 100644
--- a/src/contacts/contacts.ts
+++ b/src/contacts/contacts.ts
@@ -53,12 +53,12 @@ export class Contacts {
   ): Promise<CreateContactResponse>;
 
   async create(
-    payload: CreateContactOptions | LegacyCreateContactOptions,
+    payload: CreateContactOptions & Partial<LegacyCreateContactOptions>,
     options: CreateContactRequestOptions = {},
   ): Promise<CreateContactResponse> {
     // Legacy create contact endpoint
-    if ('audienceId' in payload) {
-      if ('segments' in payload || 'topics' in payload) {
+    if (payload.audienceId !== undefined) {
+      if (payload.segments !== undefined || payload.topics !== undefined) {
         return {
           data: null,
           headers: null,
-- 
2.43.0


From d8656c41b2fb105a14d1cef612940092ea071591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 8/9] fix: cancel the body of a failed raw email download

Its body was left unread, which keeps the connection busy until it is
garbage collected.
---
 src/emails/receiving/receiving.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index 1322883..85945f9 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -123,6 +123,7 @@ export class Receiving {
       }
 
       statusCode = rawResponse.status;
+      await rawResponse.body?.cancel();
     } catch {
       // Reported below, like any other request that could not be resolved
     }
-- 
2.43.0


From 24b47b89c1c1be6e85148a33fcf7cc396fbd95d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 9/9] fix: type the headers of emails.receiving.list answers

Its response type was spelled out instead of using Response<T>, and lacked
the headers that every response carries.
---
 .../interfaces/list-receiving-emails.interface.ts     | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/emails/receiving/interfaces/list-receiving-emails.interface.ts b/src/emails/receiving/interfaces/list-receiving-emails.interface.ts
index 9ac3f2c..28801c8 100644
--- a/src/emails/receiving/interfaces/list-receiving-emails.interface.ts
+++ b/src/emails/receiving/interfaces/list-receiving-emails.interface.ts
@@ -1,5 +1,5 @@
 import type { PaginationOptions } from '../../../common/interfaces';
-import type { ErrorResponse } from '../../../interfaces';
+import type { Response } from '../../../interfaces';
 import type { GetReceivingEmailResponseSuccess } from './get-receiving-email.interface';
 
 export type ListReceivingEmailsOptions = PaginationOptions;
@@ -16,11 +16,4 @@ export interface ListReceivingEmailsResponseSuccess {
 }
 
 export type ListReceivingEmailsResponse =
-  | {
-      data: ListReceivingEmailsResponseSuccess;
-      error: null;
-    }
-  | {
-      data: null;
-      error: ErrorResponse;
-    };
+  Response<ListReceivingEmailsResponseSuccess>;
-- 
2.43.0

