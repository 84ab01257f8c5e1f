From 61911b1fd90af3d304d12f0720363f1703a45432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 1/8] fix: report an application_error when an error response
 is JSON but not an object

A non-2xx response whose body was JSON null (or another falsy value) resolved
to { data: null, error: null }, which is indistinguishable from success.
---
 src/resend.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/resend.ts b/src/resend.ts
index fe4f5e0..feaed59 100644
--- a/src/resend.ts
+++ b/src/resend.ts
@@ -120,6 +120,10 @@ export class Resend {
           const rawError = await response.text();
           const parsedError = JSON.parse(rawError);
 
+          if (typeof parsedError !== 'object' || parsedError === null) {
+            throw new SyntaxError('The error response is not a JSON object');
+          }
+
           this.logError(parsedError, path, response.status);
 
           return {
-- 
2.43.0


From 9996b136be96d76854561d755d4f4b93c37dee91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 2/8] fix: keep caller headers given as Headers or pairs in
 batch requests

Spreading options.headers into an object dropped every header of a Headers
instance and mangled a list of pairs.
---
 src/batch/batch.ts | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/batch/batch.ts b/src/batch/batch.ts
index 777f328..91492fb 100644
--- a/src/batch/batch.ts
+++ b/src/batch/batch.ts
@@ -34,15 +34,18 @@ export class Batch {
       emails.push(parseEmailToApiOptions(email));
     }
 
+    const headers = new Headers(options?.headers);
+
+    if (!headers.has('x-batch-validation')) {
+      headers.set('x-batch-validation', options?.batchValidation ?? 'strict');
+    }
+
     const data = await this.resend.post<CreateBatchSuccessResponse<Options>>(
       '/emails/batch',
       emails,
       {
         ...options,
-        headers: {
-          'x-batch-validation': options?.batchValidation ?? 'strict',
-          ...options?.headers,
-        },
+        headers,
       },
     );
 
-- 
2.43.0


From 39f451bcf4f917d234c8944648b78d2634e65f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 3/8] fix: batch no longer modifies the caller's emails

Sending a batch with React content wrote html into, and cleared react on, the
objects the caller passed in.
---
 src/batch/batch.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/batch/batch.ts b/src/batch/batch.ts
index 91492fb..7cbae46 100644
--- a/src/batch/batch.ts
+++ b/src/batch/batch.ts
@@ -3,6 +3,7 @@ import { parseEmailToApiOptions } from '../common/utils/parse-email-to-api-optio
 import { render } from '../render';
 import type { Resend } from '../resend';
 import type {
+  CreateBatchEmailOptions,
   CreateBatchOptions,
   CreateBatchRequestOptions,
   CreateBatchResponse,
@@ -26,12 +27,13 @@ export class Batch {
     const emails: EmailApiOptions[] = [];
 
     for (const email of payload) {
+      const body: CreateBatchEmailOptions = { ...email };
+
       if (email.react) {
-        email.html = await render(email.react);
-        email.react = undefined;
+        body.html = await render(email.react);
       }
 
-      emails.push(parseEmailToApiOptions(email));
+      emails.push(parseEmailToApiOptions(body));
     }
 
     const headers = new Headers(options?.headers);
-- 
2.43.0


From e80eec875ef0d709cbfa85a9f938a8b97fef8eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 4/8] fix: forward received emails from their raw bytes

Reading the downloaded message as text replaced every byte sequence that is
not valid UTF-8 and dropped a byte order mark, corrupting the forwarded copy.
---
 src/emails/receiving/receiving.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index 684e1e4..30431ee 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -139,7 +139,7 @@ export class Receiving {
       };
     }
 
-    const rawEmailContent = await rawResponse.text();
+    const rawEmailContent = await rawResponse.arrayBuffer();
 
     const parsed = await PostalMime.parse(rawEmailContent, {
       attachmentEncoding: 'base64',
@@ -213,7 +213,7 @@ export class Receiving {
       };
     }
 
-    const rawEmailContent = await rawResponse.text();
+    const rawEmailContent = await rawResponse.arrayBuffer();
 
     const data = await this.resend.post<ForwardReceivingEmailResponseSuccess>(
       '/emails',
-- 
2.43.0


From 933e7bb0227d254615d282f9b773eac9e1bdaebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 5/8] fix: forward resolves to an error when the raw email
 cannot be read

A failed download, a body that cannot be read or a message that cannot be
parsed rejected the promise instead of resolving to an error.
---
 src/emails/receiving/receiving.ts | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index 30431ee..07d1106 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -59,6 +59,25 @@ export class Receiving {
   async forward(
     options: ForwardReceivingEmailOptions,
     requestOptions: ForwardReceivingEmailRequestOptions = {},
+  ): Promise<ForwardReceivingEmailResponse> {
+    try {
+      return await this.performForward(options, requestOptions);
+    } catch {
+      return {
+        data: null,
+        error: {
+          name: 'application_error',
+          message: 'Failed to download or parse raw email content',
+          statusCode: null,
+        },
+        headers: null,
+      };
+    }
+  }
+
+  private async performForward(
+    options: ForwardReceivingEmailOptions,
+    requestOptions: ForwardReceivingEmailRequestOptions,
   ): Promise<ForwardReceivingEmailResponse> {
     const { emailId, to, from } = options;
     const passthrough = options.passthrough !== false;
-- 
2.43.0


From c47ee0b02a4afce87a91d49fb898fe5ff5e28881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 6/8] fix: contacts.create treats undefined audienceId,
 segments and topics as absent

audienceId: undefined posted to /audiences/undefined/contacts, and an undefined
segments or topics next to audienceId was rejected as invalid_parameter.
---
 src/contacts/contacts.ts | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/contacts/contacts.ts b/src/contacts/contacts.ts
index 8882444..17f94b5 100644
--- a/src/contacts/contacts.ts
+++ b/src/contacts/contacts.ts
@@ -31,6 +31,12 @@ import type {
 import { ContactSegments } from './segments/contact-segments';
 import { ContactTopics } from './topics/contact-topics';
 
+function isLegacyCreateContact(
+  payload: CreateContactOptions | LegacyCreateContactOptions,
+): payload is LegacyCreateContactOptions {
+  return 'audienceId' in payload && payload.audienceId !== undefined;
+}
+
 export class Contacts {
   readonly imports: ContactImports;
   readonly topics: ContactTopics;
@@ -56,8 +62,11 @@ export class Contacts {
     options: CreateContactRequestOptions = {},
   ): Promise<CreateContactResponse> {
     // Legacy create contact endpoint
-    if ('audienceId' in payload) {
-      if ('segments' in payload || 'topics' in payload) {
+    if (isLegacyCreateContact(payload)) {
+      if (
+        ('segments' in payload && payload.segments !== undefined) ||
+        ('topics' in payload && payload.topics !== undefined)
+      ) {
         return {
           data: null,
           headers: null,
-- 
2.43.0


From 53acfc9cf6707a0427cf2c62c516e3529e55ed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:40 +0000
Subject: [PATCH 7/8] fix: contactProperties.list does not reject on an
 unexpected success body

---
 src/contact-properties/contact-properties.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/contact-properties/contact-properties.ts b/src/contact-properties/contact-properties.ts
index 2c56e05..8a43445 100644
--- a/src/contact-properties/contact-properties.ts
+++ b/src/contact-properties/contact-properties.ts
@@ -50,12 +50,14 @@ export class ContactProperties {
     const response =
       await this.resend.get<ListContactPropertiesResponseSuccess>(url);
 
-    if (response.data) {
+    if (Array.isArray(response.data?.data)) {
       return {
         data: {
           ...response.data,
-          data: response.data.data.map((apiContactProperty) =>
-            parseContactPropertyFromApi(apiContactProperty),
+          data: response.data.data.map(
+            (apiContactProperty) =>
+              apiContactProperty &&
+              parseContactPropertyFromApi(apiContactProperty),
           ),
         },
         headers: response.headers,
@@ -63,7 +65,7 @@ export class ContactProperties {
       };
     }
 
-    return response;
+    return response as ListContactPropertiesResponse;
   }
 
   async get(id: string): Promise<GetContactPropertyResponse> {
-- 
2.43.0


From 6d5e30f351049e6b48177bda5cf7a0c228aef2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:46 +0000
Subject: [PATCH 8/8] fix: chained publish does not reject when the first
 response has no template id

---
 src/templates/chainable-template-result.ts | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/templates/chainable-template-result.ts b/src/templates/chainable-template-result.ts
index 343e003..7dfd215 100644
--- a/src/templates/chainable-template-result.ts
+++ b/src/templates/chainable-template-result.ts
@@ -34,6 +34,18 @@ export class ChainableTemplateResult<
         error,
       };
     }
+
+    if (!data?.id) {
+      return {
+        data: null,
+        headers: null,
+        error: {
+          name: 'application_error',
+          message: 'Unable to publish the template. The response has no id.',
+          statusCode: null,
+        },
+      };
+    }
     return this.publishFn(data.id);
   }
 }
-- 
2.43.0

