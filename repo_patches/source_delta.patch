From 6d2074d4a3c87b1d5fd0983edff597f309d624aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 01/35] fix: dispatch UploadPart only on objects and never
 treat UploadPartCopy as CopyObject

---
 src/ops/copy_object.rs | 3 +++
 src/ops/upload_part.rs | 9 ++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ops/copy_object.rs b/src/ops/copy_object.rs
index 01d36c4..f77c279 100644
--- a/src/ops/copy_object.rs
+++ b/src/ops/copy_object.rs
@@ -34,6 +34,9 @@ impl S3Handler for Handler {
     fn is_match(&self, ctx: &'_ ReqContext<'_>) -> bool {
         bool_try!(ctx.req.method() == Method::PUT);
         bool_try!(ctx.path.is_object());
+        if let Some(ref qs) = ctx.query_strings {
+            bool_try!(qs.get("uploadId").is_none()); // `UploadPartCopy`
+        }
         ctx.headers.get(X_AMZ_COPY_SOURCE).is_some()
     }
 
diff --git a/src/ops/upload_part.rs b/src/ops/upload_part.rs
index 7e6276c..53f473b 100644
--- a/src/ops/upload_part.rs
+++ b/src/ops/upload_part.rs
@@ -5,9 +5,10 @@ use super::{wrap_internal_error, ReqContext, S3Handler};
 use crate::dto::{UploadPartError, UploadPartOutput, UploadPartRequest};
 use crate::errors::{S3Error, S3Result};
 use crate::headers::{
-    CONTENT_LENGTH, CONTENT_MD5, ETAG, X_AMZ_REQUEST_CHARGED, X_AMZ_SERVER_SIDE_ENCRYPTION,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
+    CONTENT_LENGTH, CONTENT_MD5, ETAG, X_AMZ_COPY_SOURCE, X_AMZ_REQUEST_CHARGED,
+    X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -22,6 +23,8 @@ pub struct Handler;
 impl S3Handler for Handler {
     fn is_match(&self, ctx: &'_ ReqContext<'_>) -> bool {
         bool_try!(ctx.req.method() == Method::PUT);
+        bool_try!(ctx.path.is_object());
+        bool_try!(ctx.headers.get(X_AMZ_COPY_SOURCE).is_none()); // `UploadPartCopy`
         let qs = bool_try_some!(ctx.query_strings.as_ref());
         qs.get("partNumber").is_some() && qs.get("uploadId").is_some()
     }
-- 
2.43.0


From 2650f26e306645e15353ace87464817ce5d12b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 02/35] fix: never run a plain bucket or object operation for
 an unsupported sub-resource

---
 src/service.rs | 60 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/src/service.rs b/src/service.rs
index 30d5ec0..119788c 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -169,6 +169,10 @@ impl S3Service {
             ));
         }
 
+        if is_unsupported_sub_resource(&ctx) {
+            return Err(not_supported!("The operation is not supported yet."));
+        }
+
         for handler in &self.handlers {
             if handler.is_match(&ctx) {
                 return handler.handle(&mut ctx, &*self.storage).await;
@@ -185,6 +189,62 @@ fn decode_uri_path(req: &Request) -> S3Result<Cow<'_, str>> {
         .map_err(|e| code_error!(InvalidURI, "Cannot url decode uri path", e))
 }
 
+/// S3 sub-resources which have no handler
+const UNSUPPORTED_SUB_RESOURCES: &[&str] = &[
+    "accelerate",
+    "acl",
+    "analytics",
+    "attributes",
+    "cors",
+    "encryption",
+    "intelligent-tiering",
+    "inventory",
+    "legal-hold",
+    "lifecycle",
+    "logging",
+    "metrics",
+    "notification",
+    "object-lock",
+    "ownershipControls",
+    "policy",
+    "policyStatus",
+    "publicAccessBlock",
+    "replication",
+    "requestPayment",
+    "restore",
+    "retention",
+    "select",
+    "tagging",
+    "torrent",
+    "versioning",
+    "versions",
+    "website",
+];
+
+/// A request addressing a sub-resource must never fall through to the plain bucket or object operation.
+fn is_unsupported_sub_resource(ctx: &ReqContext<'_>) -> bool {
+    let qs = match ctx.query_strings {
+        None => return false,
+        Some(ref qs) => qs,
+    };
+    let method = ctx.req.method();
+
+    if UNSUPPORTED_SUB_RESOURCES
+        .iter()
+        .any(|name| qs.get(name).is_some())
+    {
+        return true;
+    }
+
+    // `ListMultipartUploads`
+    if qs.get("uploads").is_some() && method != Method::POST {
+        return true;
+    }
+
+    // `ListParts` and `AbortMultipartUpload`
+    qs.get("uploadId").is_some() && method != Method::PUT && method != Method::POST
+}
+
 /// util function
 fn extract_s3_path(uri_path: &str) -> S3Result<S3Path<'_>> {
     let result = S3Path::try_from_path(uri_path);
-- 
2.43.0


From 56338d55a5bcce3407eac7cae2971e0735abdc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 03/35] fix: reject an aws-chunked body which ends without its
 final chunk

---
 src/streams/aws_chunked_stream.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/streams/aws_chunked_stream.rs b/src/streams/aws_chunked_stream.rs
index c2d3215..be06439 100644
--- a/src/streams/aws_chunked_stream.rs
+++ b/src/streams/aws_chunked_stream.rs
@@ -155,7 +155,8 @@ impl AwsChunkedStream {
                                 match Self::read_meta_bytes(body.as_mut(), prev_bytes, &mut buf)
                                     .await
                                 {
-                                    None => break,
+                                    // the stream must be terminated by a zero-size chunk
+                                    None => return Err(AwsChunkedStreamError::Incomplete),
                                     Some(Err(e)) => return Err(AwsChunkedStreamError::Io(e)),
                                     Some(Ok(remaining_bytes)) => prev_bytes = remaining_bytes,
                                 };
@@ -182,6 +183,10 @@ impl AwsChunkedStream {
                                 Some(signature) => ctx.prev_signature = signature,
                             }
 
+                            if meta.size == 0 {
+                                break; // the final chunk
+                            }
+
                             for bytes in data {
                                 y.yield_ok(bytes).await;
                             }
-- 
2.43.0


From 508b750b6dddeec55aa700ffd41784441ff8e69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 04/35] fix: sign the decoded uri path so that keys with
 escaped characters authenticate

---
 src/service.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 119788c..a30cc8a 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -475,13 +475,15 @@ async fn check_presigned_url(
         fetch_secret_key(auth_provider, presigned_url.credential.access_key_id).await?;
 
     let signature = {
+        // the canonical uri encodes the decoded path exactly once
+        let uri_path = decode_uri_path(ctx.req)?;
         let headers = ctx
             .headers
             .map_signed_headers(&presigned_url.signed_headers);
 
         let canonical_request = signature_v4::create_presigned_canonical_request(
             ctx.req.method(),
-            ctx.req.uri().path(),
+            &uri_path,
             qs.as_ref(),
             &headers,
         );
@@ -534,7 +536,8 @@ async fn check_header_auth(
 
     let signature = {
         let method = ctx.req.method();
-        let uri_path = ctx.req.uri().path();
+        // the canonical uri encodes the decoded path exactly once
+        let uri_path = &*decode_uri_path(ctx.req)?;
         let query_strings: &[(String, String)] =
             ctx.query_strings.as_ref().map_or(&[], AsRef::as_ref);
 
-- 
2.43.0


From 50c4555bc14cf718ef08ed624be3e631b160ff38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 05/35] fix: enforce the expiry of presigned urls and the
 request time of signed requests

---
 src/headers/amz_date.rs | 16 ++++++++++++++++
 src/service.rs          | 26 ++++++++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/src/headers/amz_date.rs b/src/headers/amz_date.rs
index 71069ec..c367cc1 100644
--- a/src/headers/amz_date.rs
+++ b/src/headers/amz_date.rs
@@ -1,5 +1,9 @@
 //! x-amz-date
 
+use std::convert::TryFrom;
+
+use chrono::{DateTime, NaiveDate, TimeZone, Utc};
+
 /// x-amz-date
 #[derive(Debug, Clone, Copy)]
 pub struct AmzDate {
@@ -89,6 +93,18 @@ impl AmzDate {
         }
     }
 
+    /// Converts to UTC time, returns `None` if there is no such date or time
+    #[must_use]
+    pub fn to_utc(&self) -> Option<DateTime<Utc>> {
+        let year = i32::try_from(self.year).ok()?;
+        let time = NaiveDate::from_ymd_opt(year, self.month, self.day)?.and_hms_opt(
+            self.hour,
+            self.minute,
+            self.second,
+        )?;
+        Some(Utc.from_utc_datetime(&time))
+    }
+
     /// `YYYYMMDD'T'HHMMSS'Z'`
     #[must_use]
     pub fn to_iso8601(&self) -> String {
diff --git a/src/service.rs b/src/service.rs
index a30cc8a..c1c76e0 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -311,6 +311,17 @@ fn extract_amz_date(headers: &'_ OrderedHeaders<'_>) -> S3Result<Option<AmzDate>
     Err(invalid_request!("Invalid header: x-amz-date", err))
 }
 
+/// Maximum difference between the request time and the server time (15 minutes)
+const MAX_TIME_SKEW_SECS: i64 = 15 * 60;
+
+/// Seconds elapsed since `amz_date`, negative if it lies in the future
+fn elapsed_secs(amz_date: &AmzDate) -> S3Result<i64> {
+    let signed_at = amz_date
+        .to_utc()
+        .ok_or_else(|| invalid_request!("Invalid request date"))?;
+    Ok(chrono::Utc::now().signed_duration_since(signed_at).num_seconds())
+}
+
 /// replace `body` with an empty body and transform it to IO stream
 fn take_io_body(body: &mut Body) -> impl Stream<Item = io::Result<Bytes>> + Send + 'static {
     mem::take(body).map(|try_chunk| {
@@ -459,6 +470,14 @@ async fn check_presigned_url(
     let presigned_url = signature_v4::PresignedUrl::from_query(qs)
         .map_err(|err| invalid_request!("Missing presigned fields", err))?;
 
+    let elapsed = elapsed_secs(&presigned_url.amz_date)?;
+    if elapsed < -MAX_TIME_SKEW_SECS {
+        return Err(code_error!(AccessDenied, "Request is not valid yet"));
+    }
+    if elapsed > i64::from(presigned_url.expires) {
+        return Err(code_error!(AccessDenied, "Request has expired"));
+    }
+
     // TODO: how to use it?
     let _content_sha256: Option<AmzContentSha256<'_>> = extract_amz_content_sha256(&ctx.headers)?;
 
@@ -532,6 +551,13 @@ async fn check_header_auth(
     let amz_date = extract_amz_date(&ctx.headers)?
         .ok_or_else(|| invalid_request!("Missing header: x-amz-date"))?;
 
+    if elapsed_secs(&amz_date)?.abs() > MAX_TIME_SKEW_SECS {
+        return Err(code_error!(
+            RequestTimeTooSkewed,
+            "The difference between the request time and the server's time is too large."
+        ));
+    }
+
     let is_stream = matches!(amz_content_sha256, AmzContentSha256::MultipleChunks);
 
     let signature = {
-- 
2.43.0


From ddc368ef647372cf163befc9dafb62fdaa8659bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 06/35] fix: reject signed requests carrying x-amz headers
 which are not signed

---
 src/service.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/service.rs b/src/service.rs
index c1c76e0..7502d63 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -311,6 +311,19 @@ fn extract_amz_date(headers: &'_ OrderedHeaders<'_>) -> S3Result<Option<AmzDate>
     Err(invalid_request!("Invalid header: x-amz-date", err))
 }
 
+/// Every `x-amz-*` header of a signed request must be covered by the signature
+fn check_signed_headers(headers: &OrderedHeaders<'_>, signed_headers: &[&str]) -> S3Result<()> {
+    for &(name, _) in headers.as_ref() {
+        if name.starts_with("x-amz-") && !signed_headers.contains(&name) {
+            return Err(code_error!(
+                AccessDenied,
+                "There were headers present in the request which were not signed."
+            ));
+        }
+    }
+    Ok(())
+}
+
 /// Maximum difference between the request time and the server time (15 minutes)
 const MAX_TIME_SKEW_SECS: i64 = 15 * 60;
 
@@ -319,7 +332,9 @@ fn elapsed_secs(amz_date: &AmzDate) -> S3Result<i64> {
     let signed_at = amz_date
         .to_utc()
         .ok_or_else(|| invalid_request!("Invalid request date"))?;
-    Ok(chrono::Utc::now().signed_duration_since(signed_at).num_seconds())
+    Ok(chrono::Utc::now()
+        .signed_duration_since(signed_at)
+        .num_seconds())
 }
 
 /// replace `body` with an empty body and transform it to IO stream
@@ -478,6 +493,8 @@ async fn check_presigned_url(
         return Err(code_error!(AccessDenied, "Request has expired"));
     }
 
+    check_signed_headers(&ctx.headers, &presigned_url.signed_headers)?;
+
     // TODO: how to use it?
     let _content_sha256: Option<AmzContentSha256<'_>> = extract_amz_content_sha256(&ctx.headers)?;
 
@@ -542,6 +559,8 @@ async fn check_header_auth(
     let auth_provider =
         auth.ok_or_else(|| not_supported!("The service has no authentication provider."))?;
 
+    check_signed_headers(&ctx.headers, &authorization.signed_headers)?;
+
     let amz_content_sha256 = extract_amz_content_sha256(&ctx.headers)?
         .ok_or_else(|| invalid_request!("Missing header: x-amz-content-sha256"))?;
 
-- 
2.43.0


From 65b30737592b50130d6e6af6fbf9738d7434ad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 07/35] fix: keep secret keys out of Debug output and logs

---
 src/auth.rs                       | 9 ++++++++-
 src/streams/aws_chunked_stream.rs | 1 -
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/auth.rs b/src/auth.rs
index a762fe0..a703fe3 100644
--- a/src/auth.rs
+++ b/src/auth.rs
@@ -3,6 +3,7 @@
 use crate::errors::S3AuthError;
 
 use std::collections::HashMap;
+use std::fmt::{self, Debug};
 
 use async_trait::async_trait;
 
@@ -14,12 +15,18 @@ pub trait S3Auth {
 }
 
 /// A simple authentication provider
-#[derive(Debug, Default)]
+#[derive(Default)]
 pub struct SimpleAuth {
     /// key map
     map: HashMap<String, String>,
 }
 
+impl Debug for SimpleAuth {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        write!(f, "SimpleAuth{{...}}") // never print the secret keys
+    }
+}
+
 impl SimpleAuth {
     /// Constructs a new `SimpleAuth`
     #[must_use]
diff --git a/src/streams/aws_chunked_stream.rs b/src/streams/aws_chunked_stream.rs
index be06439..a7208ab 100644
--- a/src/streams/aws_chunked_stream.rs
+++ b/src/streams/aws_chunked_stream.rs
@@ -34,7 +34,6 @@ impl Debug for AwsChunkedStream {
 }
 
 /// signature ctx
-#[derive(Debug)]
 struct SignatureCtx {
     /// date
     amz_date: AmzDate,
-- 
2.43.0


From 5d176b43ad64d6a147b1b912778b506a9ef09ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 08/35] fix: report ObjectNotInActiveTierError with an error
 status

---
 src/errors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/errors.rs b/src/errors.rs
index fbf9e47..13cdcc8 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -615,7 +615,7 @@ impl S3ErrorCode {
             Self::NotImplemented => Some(StatusCode::NOT_IMPLEMENTED),
             Self::NotSignedUp => Some(StatusCode::FORBIDDEN),
             Self::NotSupported => None,
-            Self::ObjectNotInActiveTierError => Some(StatusCode::OK),
+            Self::ObjectNotInActiveTierError => Some(StatusCode::FORBIDDEN),
             Self::OperationAborted => Some(StatusCode::CONFLICT),
             Self::PermanentRedirect => Some(StatusCode::MOVED_PERMANENTLY),
             Self::PreconditionFailed => Some(StatusCode::PRECONDITION_FAILED),
-- 
2.43.0


From a8308c9e1e5d2faf950e590eb4eaeca91813a107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 09/35] fix: keep object paths inside their bucket and reject
 keys which alias other keys

---
 src/storages/fs.rs | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 551c52b..0dce9ef 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -17,7 +17,7 @@ use crate::dto::{
     PutObjectError, PutObjectOutput, PutObjectRequest, UploadPartError, UploadPartOutput,
     UploadPartRequest,
 };
-use crate::errors::{S3StorageError, S3StorageResult};
+use crate::errors::{S3Result, S3StorageError, S3StorageResult};
 use crate::headers::{AmzCopySource, Range};
 use crate::path::S3Path;
 use crate::storage::S3Storage;
@@ -56,14 +56,17 @@ impl FileSystem {
     }
 
     /// resolve object path under the virtual root
-    fn get_object_path(&self, bucket: &str, key: &str) -> io::Result<PathBuf> {
-        let dir = Path::new(&bucket);
-        let file_path = Path::new(&key);
-        let ans = dir
-            .join(&file_path)
-            .absolutize_virtually(&self.root)?
-            .into();
-        Ok(ans)
+    fn get_object_path(&self, bucket: &str, key: &str) -> S3Result<PathBuf> {
+        // Distinct keys must denote distinct files and no key may leave its bucket.
+        let name = key.strip_suffix('/').unwrap_or(key);
+        if name.split('/').any(|s| matches!(s, "" | "." | "..")) {
+            return Err(invalid_request!("The specified key is not supported."));
+        }
+
+        let dir = trace_try!(self.get_bucket_path(bucket));
+        let ans = dir.join(key);
+        let _ = trace_try!(ans.absolutize_virtually(&dir));
+        Ok(ans) // a trailing slash is kept: `dir/` never denotes the file `dir`
     }
 
     /// resolve bucket path under the virtual root
@@ -119,7 +122,9 @@ impl FileSystem {
 
     /// get md5 sum
     async fn get_md5_sum(&self, bucket: &str, key: &str) -> io::Result<String> {
-        let object_path = self.get_object_path(bucket, key)?;
+        let object_path = self
+            .get_object_path(bucket, key)
+            .map_err(|e| io::Error::new(io::ErrorKind::InvalidInput, e))?;
         let mut file = File::open(&object_path).await?;
         let mut buf = vec![0; 4_usize.wrapping_mul(1024).wrapping_mul(1024)];
         let mut md5_hash = Md5::new();
@@ -219,8 +224,8 @@ impl S3Storage for FileSystem {
             AmzCopySource::Bucket { bucket, key } => (bucket, key),
         };
 
-        let src_path = trace_try!(self.get_object_path(bucket, key));
-        let dst_path = trace_try!(self.get_object_path(&input.bucket, &input.key));
+        let src_path = self.get_object_path(bucket, key)?;
+        let dst_path = self.get_object_path(&input.bucket, &input.key)?;
 
         let file_metadata = trace_try!(async_fs::metadata(&src_path).await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
@@ -268,7 +273,7 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteObjectRequest,
     ) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> {
-        let path = trace_try!(self.get_object_path(&input.bucket, &input.key));
+        let path = self.get_object_path(&input.bucket, &input.key)?;
         if input.key.ends_with('/') {
             let mut dir = trace_try!(async_fs::read_dir(&path).await);
             let is_empty = dir.next().await.is_none();
@@ -289,7 +294,7 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<DeleteObjectsOutput, DeleteObjectsError> {
         let mut objects: Vec<(PathBuf, String)> = Vec::new();
         for object in input.delete.objects {
-            let path = trace_try!(self.get_object_path(&input.bucket, &object.key));
+            let path = self.get_object_path(&input.bucket, &object.key)?;
             if path.exists() {
                 objects.push((path, object.key));
             }
@@ -334,7 +339,7 @@ impl S3Storage for FileSystem {
         &self,
         input: GetObjectRequest,
     ) -> S3StorageResult<GetObjectOutput, GetObjectError> {
-        let object_path = trace_try!(self.get_object_path(&input.bucket, &input.key));
+        let object_path = self.get_object_path(&input.bucket, &input.key)?;
 
         let parse_range = |s: &str| {
             Range::from_header_str(s).map_err(|err| invalid_request!("Invalid header: range", err))
@@ -443,7 +448,7 @@ impl S3Storage for FileSystem {
         &self,
         input: HeadObjectRequest,
     ) -> S3StorageResult<HeadObjectOutput, HeadObjectError> {
-        let path = trace_try!(self.get_object_path(&input.bucket, &input.key));
+        let path = self.get_object_path(&input.bucket, &input.key)?;
 
         if !path.exists() {
             let err = code_error!(NoSuchKey, "The specified key does not exist.");
@@ -663,7 +668,7 @@ impl S3Storage for FileSystem {
 
         if key.ends_with('/') {
             if content_length == Some(0) {
-                let object_path = trace_try!(self.get_object_path(&bucket, &key));
+                let object_path = self.get_object_path(&bucket, &key)?;
                 trace_try!(async_fs::create_dir_all(&object_path).await);
                 let output = PutObjectOutput::default();
                 return Ok(output);
@@ -675,7 +680,7 @@ impl S3Storage for FileSystem {
             return Err(err.into());
         }
 
-        let object_path = trace_try!(self.get_object_path(&bucket, &key));
+        let object_path = self.get_object_path(&bucket, &key)?;
         if let Some(dir_path) = object_path.parent() {
             trace_try!(async_fs::create_dir_all(&dir_path).await);
         }
@@ -794,7 +799,7 @@ impl S3Storage for FileSystem {
             return Err(err.into());
         };
 
-        let object_path = trace_try!(self.get_object_path(&bucket, &key));
+        let object_path = self.get_object_path(&bucket, &key)?;
         let file = trace_try!(File::create(&object_path).await);
         let mut writer = BufWriter::new(file);
 
-- 
2.43.0


From ed47bc51dd2af5090a6f34d37cfdeff71fc50f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 10/35] fix: validate upload ids before they become part of a
 file name

---
 src/storages/fs.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 0dce9ef..1c563d2 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -90,6 +90,22 @@ impl FileSystem {
         Ok(ans)
     }
 
+    /// resolve the path of an uploaded part under the virtual root (custom format)
+    fn get_upload_part_path(&self, upload_id: &str, part_number: i64) -> S3Result<PathBuf> {
+        // The upload id comes from the client and becomes a part of a file name.
+        let upload_id = Uuid::parse_str(upload_id).map_err(|err| {
+            code_error!(
+                NoSuchUpload,
+                "The specified multipart upload does not exist.",
+                err
+            )
+        })?;
+        let file_path_str = format!(".upload_id-{}.part-{}", upload_id, part_number);
+        let file_path = Path::new(&file_path_str);
+        let ans = trace_try!(file_path.absolutize_virtually(&self.root)).into();
+        Ok(ans)
+    }
+
     /// load metadata from fs
     async fn load_metadata(
         &self,
@@ -748,8 +764,7 @@ impl S3Storage for FileSystem {
             code_error!(IncompleteBody, "You did not provide the number of bytes specified by the Content-Length HTTP header.")
         })?;
 
-        let file_path_str = format!(".upload_id-{}.part-{}", upload_id, part_number);
-        let file_path = trace_try!(Path::new(&file_path_str).absolutize_virtually(&self.root));
+        let file_path = self.get_upload_part_path(&upload_id, part_number)?;
 
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
@@ -815,8 +830,7 @@ impl S3Storage for FileSystem {
                     "InvalidPartOrder"
                 )));
             }
-            let part_path_str = format!(".upload_id-{}.part-{}", upload_id, part_number);
-            let part_path = trace_try!(Path::new(&part_path_str).absolutize_virtually(&self.root));
+            let part_path = self.get_upload_part_path(&upload_id, part_number)?;
 
             let mut reader = trace_try!(File::open(&part_path).await);
             let (ret, duration) =
-- 
2.43.0


From ab462718f44e7156a9016fc16ff4d889614fd261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 11/35] fix: replace objects and parts atomically so that a
 failed write leaves no partial object

---
 src/storages/fs.rs | 59 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 55 insertions(+), 4 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 1c563d2..990db46 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -46,6 +46,40 @@ pub struct FileSystem {
     root: PathBuf,
 }
 
+/// A temporary file in the virtual root, removed on drop unless it has been persisted
+struct TempFile {
+    /// temporary path, `None` if the file has been persisted
+    path: Option<PathBuf>,
+}
+
+impl TempFile {
+    /// create a temporary file
+    async fn create(root: &Path) -> io::Result<(Self, File)> {
+        let path = root.join(format!(".tmp-{}", Uuid::new_v4()));
+        let file = File::create(&path).await?;
+        Ok((Self { path: Some(path) }, file))
+    }
+
+    /// atomically replace `target` with the temporary file
+    async fn persist(mut self, target: &Path) -> io::Result<()> {
+        if let Some(ref path) = self.path {
+            async_fs::rename(path, target).await?;
+        }
+        self.path = None;
+        Ok(())
+    }
+}
+
+impl Drop for TempFile {
+    fn drop(&mut self) {
+        if let Some(path) = self.path.take() {
+            if let Err(err) = std::fs::remove_file(&path) {
+                error!(%err, path = %path.display(), "failed to remove temporary file");
+            }
+        }
+    }
+}
+
 impl FileSystem {
     /// Constructs a file system storage located at `root`
     /// # Errors
@@ -704,13 +738,16 @@ impl S3Storage for FileSystem {
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
 
-        let file = trace_try!(File::create(&object_path).await);
+        let (temp_file, file) = trace_try!(TempFile::create(&self.root).await);
         let mut writer = BufWriter::new(file);
 
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
         let size = trace_try!(ret);
         let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
 
+        drop(writer);
+        trace_try!(temp_file.persist(&object_path).await);
+
         debug!(
             path = %object_path.display(),
             ?size,
@@ -769,13 +806,16 @@ impl S3Storage for FileSystem {
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
 
-        let file = trace_try!(File::create(&file_path).await);
+        let (temp_file, file) = trace_try!(TempFile::create(&self.root).await);
         let mut writer = BufWriter::new(file);
 
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
         let size = trace_try!(ret);
         let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
 
+        drop(writer);
+        trace_try!(temp_file.persist(&file_path).await);
+
         debug!(
             path = %file_path.display(),
             ?size,
@@ -815,9 +855,10 @@ impl S3Storage for FileSystem {
         };
 
         let object_path = self.get_object_path(&bucket, &key)?;
-        let file = trace_try!(File::create(&object_path).await);
+        let (temp_file, file) = trace_try!(TempFile::create(&self.root).await);
         let mut writer = BufWriter::new(file);
 
+        let mut part_paths = Vec::new();
         let mut cnt: i64 = 0;
         for part in multipart_upload.parts.into_iter().flatten() {
             let part_number = trace_try!(part
@@ -844,10 +885,20 @@ impl S3Storage for FileSystem {
                 ?duration,
                 "CompleteMultipartUpload: write file",
             );
-            trace_try!(async_fs::remove_file(&part_path).await);
+            part_paths.push(part_path);
         }
+        trace_try!(writer.flush().await);
         drop(writer);
 
+        trace_try!(temp_file.persist(&object_path).await);
+
+        // The object is complete, a part which is left behind only wastes space.
+        for part_path in part_paths {
+            if let Err(err) = async_fs::remove_file(&part_path).await {
+                error!(%err, path = %part_path.display(), "failed to remove part");
+            }
+        }
+
         let file_size = trace_try!(async_fs::metadata(&object_path).await).len();
 
         let (md5_sum, duration) = {
-- 
2.43.0


From 79b15cdbc4dd8cc19acfcf45595ef79b1c867dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 12/35] fix: decode the copy source and accept a leading slash

---
 src/storages/fs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 990db46..1b80099 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -264,7 +264,11 @@ impl S3Storage for FileSystem {
         &self,
         input: CopyObjectRequest,
     ) -> S3StorageResult<CopyObjectOutput, CopyObjectError> {
-        let copy_source = AmzCopySource::from_header_str(&input.copy_source)
+        // the header value is url encoded and may have a leading slash
+        let copy_source = urlencoding::decode(&input.copy_source)
+            .map_err(|err| invalid_request!("Invalid header: x-amz-copy-source", err))?;
+        let copy_source = copy_source.strip_prefix('/').unwrap_or(&copy_source);
+        let copy_source = AmzCopySource::from_header_str(copy_source)
             .map_err(|err| invalid_request!("Invalid header: x-amz-copy-source", err))?;
 
         let (bucket, key) = match copy_source {
-- 
2.43.0


From 35a24fa855ead4fb775c61a61f0a24080b53adae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 13/35] fix: copying an object onto itself must not truncate it

---
 src/storages/fs.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 1b80099..2989db2 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -284,7 +284,13 @@ impl S3Storage for FileSystem {
         let file_metadata = trace_try!(async_fs::metadata(&src_path).await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
-        let _ = trace_try!(async_fs::copy(&src_path, &dst_path).await);
+        // The source and the destination may be the same object.
+        let (temp_file, mut writer) = trace_try!(TempFile::create(&self.root).await);
+        let mut reader = trace_try!(File::open(&src_path).await);
+        let _ = trace_try!(futures::io::copy(&mut reader, &mut writer).await);
+        trace_try!(writer.flush().await);
+        drop(writer);
+        trace_try!(temp_file.persist(&dst_path).await);
 
         debug!(
             from = %src_path.display(),
-- 
2.43.0


From c2590c4418b952c55c3b959571bfa8c90fece6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 14/35] fix: CopyObject and CompleteMultipartUpload create the
 directories of nested keys

---
 src/storages/fs.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 2989db2..ede5336 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -230,6 +230,14 @@ where
     Ok(nwrite)
 }
 
+/// create the directory which will contain `path`
+async fn create_parent_dir(path: &Path) -> io::Result<()> {
+    if let Some(dir_path) = path.parent() {
+        async_fs::create_dir_all(&dir_path).await?;
+    }
+    Ok(())
+}
+
 /// wrap operation error
 const fn operation_error<E>(e: E) -> S3StorageError<E> {
     S3StorageError::Operation(e)
@@ -290,6 +298,7 @@ impl S3Storage for FileSystem {
         let _ = trace_try!(futures::io::copy(&mut reader, &mut writer).await);
         trace_try!(writer.flush().await);
         drop(writer);
+        trace_try!(create_parent_dir(&dst_path).await);
         trace_try!(temp_file.persist(&dst_path).await);
 
         debug!(
@@ -741,9 +750,7 @@ impl S3Storage for FileSystem {
         }
 
         let object_path = self.get_object_path(&bucket, &key)?;
-        if let Some(dir_path) = object_path.parent() {
-            trace_try!(async_fs::create_dir_all(&dir_path).await);
-        }
+        trace_try!(create_parent_dir(&object_path).await);
 
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
@@ -900,6 +907,7 @@ impl S3Storage for FileSystem {
         trace_try!(writer.flush().await);
         drop(writer);
 
+        trace_try!(create_parent_dir(&object_path).await);
         trace_try!(temp_file.persist(&object_path).await);
 
         // The object is complete, a part which is left behind only wastes space.
-- 
2.43.0


From e4e94aa97f8bcaecf49139d2059a73a90a111899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 15/35] fix: report missing buckets and keys instead of
 creating buckets or failing internally

---
 src/storages/fs.rs | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index ede5336..3810b0b 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -110,6 +110,16 @@ impl FileSystem {
         Ok(ans)
     }
 
+    /// resolve the path of an existing bucket
+    fn get_existing_bucket_path(&self, bucket: &str) -> S3Result<PathBuf> {
+        let path = trace_try!(self.get_bucket_path(bucket));
+        if !path.is_dir() {
+            let err = code_error!(NoSuchBucket, "The specified bucket does not exist.");
+            return Err(err);
+        }
+        Ok(path)
+    }
+
     /// resolve metadata path under the virtual root (custom format)
     fn get_metadata_path(&self, bucket: &str, key: &str) -> io::Result<PathBuf> {
         let encode = |s: &str| base64_simd::URL_SAFE_NO_PAD.encode_to_string(s);
@@ -287,8 +297,14 @@ impl S3Storage for FileSystem {
         };
 
         let src_path = self.get_object_path(bucket, key)?;
+        let _ = self.get_existing_bucket_path(&input.bucket)?;
         let dst_path = self.get_object_path(&input.bucket, &input.key)?;
 
+        if !src_path.is_file() {
+            let err = code_error!(NoSuchKey, "The specified key does not exist.");
+            return Err(err.into());
+        }
+
         let file_metadata = trace_try!(async_fs::metadata(&src_path).await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
@@ -342,14 +358,17 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteObjectRequest,
     ) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> {
+        let _ = self.get_existing_bucket_path(&input.bucket)?;
         let path = self.get_object_path(&input.bucket, &input.key)?;
         if input.key.ends_with('/') {
-            let mut dir = trace_try!(async_fs::read_dir(&path).await);
-            let is_empty = dir.next().await.is_none();
-            if is_empty {
-                trace_try!(async_fs::remove_dir(&path).await);
+            if path.is_dir() {
+                let mut dir = trace_try!(async_fs::read_dir(&path).await);
+                let is_empty = dir.next().await.is_none();
+                if is_empty {
+                    trace_try!(async_fs::remove_dir(&path).await);
+                }
             }
-        } else {
+        } else if path.is_file() {
             trace_try!(async_fs::remove_file(path).await);
         }
         let output = DeleteObjectOutput::default(); // TODO: handle other fields
@@ -577,7 +596,7 @@ impl S3Storage for FileSystem {
         &self,
         input: ListObjectsRequest,
     ) -> S3StorageResult<ListObjectsOutput, ListObjectsError> {
-        let path = trace_try!(self.get_bucket_path(&input.bucket));
+        let path = self.get_existing_bucket_path(&input.bucket)?;
 
         let mut objects = Vec::new();
         let mut dir_queue = VecDeque::new();
@@ -643,7 +662,7 @@ impl S3Storage for FileSystem {
         &self,
         input: ListObjectsV2Request,
     ) -> S3StorageResult<ListObjectsV2Output, ListObjectsV2Error> {
-        let path = trace_try!(self.get_bucket_path(&input.bucket));
+        let path = self.get_existing_bucket_path(&input.bucket)?;
 
         let mut objects = Vec::new();
         let mut dir_queue = VecDeque::new();
@@ -735,6 +754,8 @@ impl S3Storage for FileSystem {
             code_error!(IncompleteBody,"You did not provide the number of bytes specified by the Content-Length HTTP header.")
         })?;
 
+        let _ = self.get_existing_bucket_path(&bucket)?;
+
         if key.ends_with('/') {
             if content_length == Some(0) {
                 let object_path = self.get_object_path(&bucket, &key)?;
@@ -790,6 +811,8 @@ impl S3Storage for FileSystem {
         &self,
         input: CreateMultipartUploadRequest,
     ) -> S3StorageResult<CreateMultipartUploadOutput, CreateMultipartUploadError> {
+        let _ = self.get_existing_bucket_path(&input.bucket)?;
+
         let upload_id = Uuid::new_v4().to_string();
 
         let output = CreateMultipartUploadOutput {
@@ -807,6 +830,8 @@ impl S3Storage for FileSystem {
         &self,
         input: UploadPartRequest,
     ) -> S3StorageResult<UploadPartOutput, UploadPartError> {
+        let _ = self.get_existing_bucket_path(&input.bucket)?;
+
         let UploadPartRequest {
             body,
             upload_id,
@@ -871,6 +896,7 @@ impl S3Storage for FileSystem {
             return Err(err.into());
         };
 
+        let _ = self.get_existing_bucket_path(&bucket)?;
         let object_path = self.get_object_path(&bucket, &key)?;
         let (temp_file, file) = trace_try!(TempFile::create(&self.root).await);
         let mut writer = BufWriter::new(file);
-- 
2.43.0


From ed1f33c78e421cc9314439b11652a95d65ae8065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 16/35] fix: a directory which only contains other keys is not
 an object

---
 src/storages/fs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 3810b0b..990630c 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -444,6 +444,10 @@ impl S3Storage for FileSystem {
         };
 
         let file_metadata = trace_try!(file.metadata().await);
+        if file_metadata.is_dir() && !input.key.ends_with('/') {
+            let err = code_error!(NoSuchKey, "The specified key does not exist.");
+            return Err(err.into());
+        }
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
         let content_length = {
@@ -538,7 +542,7 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<HeadObjectOutput, HeadObjectError> {
         let path = self.get_object_path(&input.bucket, &input.key)?;
 
-        if !path.exists() {
+        if !path.is_file() && !(input.key.ends_with('/') && path.is_dir()) {
             let err = code_error!(NoSuchKey, "The specified key does not exist.");
             return Err(err.into());
         }
-- 
2.43.0


From baddfcec175cbbff114e5adfe59a6895951890c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 17/35] fix: DeleteBucket refuses to delete a bucket which is
 not empty

---
 src/storages/fs.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 990630c..5f66def 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -348,8 +348,30 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteBucketRequest,
     ) -> S3StorageResult<DeleteBucketOutput, DeleteBucketError> {
-        let path = trace_try!(self.get_bucket_path(&input.bucket));
-        trace_try!(async_fs::remove_dir_all(path).await);
+        let path = self.get_existing_bucket_path(&input.bucket)?;
+
+        let mut dirs = vec![path];
+        let mut visited: usize = 0;
+        while let Some(dir) = dirs.get(visited).cloned() {
+            visited = visited.wrapping_add(1);
+            let mut entries = trace_try!(async_fs::read_dir(&dir).await);
+            while let Some(entry) = entries.next().await {
+                let entry = trace_try!(entry);
+                if !trace_try!(entry.file_type().await).is_dir() {
+                    let err = code_error!(
+                        BucketNotEmpty,
+                        "The bucket you tried to delete is not empty."
+                    );
+                    return Err(err.into());
+                }
+                dirs.push(entry.path());
+            }
+        }
+
+        // The bucket only contains directories, remove them from the innermost to the outermost.
+        for dir in dirs.iter().rev() {
+            trace_try!(async_fs::remove_dir(dir).await);
+        }
         Ok(DeleteBucketOutput)
     }
 
-- 
2.43.0


From f137b7f14501d67359913f3150398ec132bc7972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 18/35] fix: DeleteObjects reports the outcome of every key

---
 src/dto.rs         |  2 +-
 src/storages/fs.rs | 64 +++++++++++++++++++++++++++-------------------
 2 files changed, 39 insertions(+), 27 deletions(-)

diff --git a/src/dto.rs b/src/dto.rs
index 68153ff..f6a9f2e 100644
--- a/src/dto.rs
+++ b/src/dto.rs
@@ -14,7 +14,7 @@ pub use rusoto_s3::{
     HeadObjectOutput, HeadObjectRequest, ListBucketsError, ListBucketsOutput, ListObjectsError,
     ListObjectsOutput, ListObjectsRequest, ListObjectsV2Error, ListObjectsV2Output,
     ListObjectsV2Request, Object, ObjectIdentifier, Owner, PutObjectError, PutObjectOutput,
-    PutObjectRequest, UploadPartError, UploadPartOutput, UploadPartRequest,
+    PutObjectRequest, S3Error, UploadPartError, UploadPartOutput, UploadPartRequest,
 };
 
 /// `DeleteBucketOutput`
diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 5f66def..8fcfc8f 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -3,7 +3,7 @@
 use crate::async_trait;
 use crate::data_structures::BytesStream;
 use crate::dto::{
-    Bucket, CompleteMultipartUploadError, CompleteMultipartUploadOutput,
+    self, Bucket, CompleteMultipartUploadError, CompleteMultipartUploadOutput,
     CompleteMultipartUploadRequest, CopyObjectError, CopyObjectOutput, CopyObjectRequest,
     CopyObjectResult, CreateBucketError, CreateBucketOutput, CreateBucketRequest,
     CreateMultipartUploadError, CreateMultipartUploadOutput, CreateMultipartUploadRequest,
@@ -180,6 +180,23 @@ impl FileSystem {
         async_fs::write(&path, &content).await
     }
 
+    /// remove an object, it is not an error if the object does not exist
+    async fn remove_object(&self, bucket: &str, key: &str) -> S3Result<()> {
+        let path = self.get_object_path(bucket, key)?;
+        if key.ends_with('/') {
+            if path.is_dir() {
+                let mut dir = trace_try!(async_fs::read_dir(&path).await);
+                let is_empty = dir.next().await.is_none();
+                if is_empty {
+                    trace_try!(async_fs::remove_dir(&path).await);
+                }
+            }
+        } else if path.is_file() {
+            trace_try!(async_fs::remove_file(path).await);
+        }
+        Ok(())
+    }
+
     /// get md5 sum
     async fn get_md5_sum(&self, bucket: &str, key: &str) -> io::Result<String> {
         let object_path = self
@@ -381,18 +398,7 @@ impl S3Storage for FileSystem {
         input: DeleteObjectRequest,
     ) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> {
         let _ = self.get_existing_bucket_path(&input.bucket)?;
-        let path = self.get_object_path(&input.bucket, &input.key)?;
-        if input.key.ends_with('/') {
-            if path.is_dir() {
-                let mut dir = trace_try!(async_fs::read_dir(&path).await);
-                let is_empty = dir.next().await.is_none();
-                if is_empty {
-                    trace_try!(async_fs::remove_dir(&path).await);
-                }
-            }
-        } else if path.is_file() {
-            trace_try!(async_fs::remove_file(path).await);
-        }
+        self.remove_object(&input.bucket, &input.key).await?;
         let output = DeleteObjectOutput::default(); // TODO: handle other fields
         Ok(output)
     }
@@ -402,24 +408,30 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteObjectsRequest,
     ) -> S3StorageResult<DeleteObjectsOutput, DeleteObjectsError> {
-        let mut objects: Vec<(PathBuf, String)> = Vec::new();
-        for object in input.delete.objects {
-            let path = self.get_object_path(&input.bucket, &object.key)?;
-            if path.exists() {
-                objects.push((path, object.key));
-            }
-        }
+        let _ = self.get_existing_bucket_path(&input.bucket)?;
 
         let mut deleted: Vec<DeletedObject> = Vec::new();
-        for (path, key) in objects {
-            trace_try!(async_fs::remove_file(path).await);
-            deleted.push(DeletedObject {
-                key: Some(key),
-                ..DeletedObject::default()
-            });
+        let mut errors: Vec<dto::S3Error> = Vec::new();
+        for object in input.delete.objects {
+            match self.remove_object(&input.bucket, &object.key).await {
+                Ok(()) => deleted.push(DeletedObject {
+                    key: Some(object.key),
+                    ..DeletedObject::default()
+                }),
+                Err(err) => {
+                    let err = err.into_xml_response();
+                    errors.push(dto::S3Error {
+                        code: Some(err.code.as_static_str().into()),
+                        key: Some(object.key),
+                        message: err.message,
+                        ..dto::S3Error::default()
+                    });
+                }
+            }
         }
         let output = DeleteObjectsOutput {
             deleted: Some(deleted),
+            errors: Some(errors),
             ..DeleteObjectsOutput::default()
         };
         Ok(output)
-- 
2.43.0


From df6c5e25caf009a09e18b67efb5b7a20ea6051d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:11 +0000
Subject: [PATCH 19/35] fix: user metadata is replaced and deleted together
 with its object

---
 src/storages/fs.rs | 47 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 8fcfc8f..2eb4e1c 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -177,7 +177,33 @@ impl FileSystem {
         let path = self.get_metadata_path(bucket, key)?;
         let content = serde_json::to_vec(metadata)
             .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
-        async_fs::write(&path, &content).await
+        let (temp_file, mut file) = TempFile::create(&self.root).await?;
+        file.write_all(&content).await?;
+        file.flush().await?;
+        drop(file);
+        temp_file.persist(&path).await
+    }
+
+    /// remove metadata
+    async fn remove_metadata(&self, bucket: &str, key: &str) -> io::Result<()> {
+        let path = self.get_metadata_path(bucket, key)?;
+        if path.exists() {
+            async_fs::remove_file(&path).await?;
+        }
+        Ok(())
+    }
+
+    /// replace the metadata of an object
+    async fn replace_metadata(
+        &self,
+        bucket: &str,
+        key: &str,
+        metadata: Option<&HashMap<String, String>>,
+    ) -> io::Result<()> {
+        match metadata {
+            Some(metadata) => self.save_metadata(bucket, key, metadata).await,
+            None => self.remove_metadata(bucket, key).await,
+        }
     }
 
     /// remove an object, it is not an error if the object does not exist
@@ -193,6 +219,7 @@ impl FileSystem {
             }
         } else if path.is_file() {
             trace_try!(async_fs::remove_file(path).await);
+            trace_try!(self.remove_metadata(bucket, key).await);
         }
         Ok(())
     }
@@ -340,11 +367,11 @@ impl S3Storage for FileSystem {
             "CopyObject: copy file",
         );
 
-        let src_metadata_path = trace_try!(self.get_metadata_path(bucket, key));
-        if src_metadata_path.exists() {
-            let dst_metadata_path = trace_try!(self.get_metadata_path(&input.bucket, &input.key));
-            let _ = trace_try!(async_fs::copy(src_metadata_path, dst_metadata_path).await);
-        }
+        let metadata = trace_try!(self.load_metadata(bucket, key).await);
+        trace_try!(
+            self.replace_metadata(&input.bucket, &input.key, metadata.as_ref())
+                .await
+        );
 
         let md5_sum = trace_try!(self.get_md5_sum(bucket, key).await);
 
@@ -832,9 +859,10 @@ impl S3Storage for FileSystem {
             "PutObject: write file",
         );
 
-        if let Some(ref metadata) = metadata {
-            trace_try!(self.save_metadata(&bucket, &key, metadata).await);
-        }
+        trace_try!(
+            self.replace_metadata(&bucket, &key, metadata.as_ref())
+                .await
+        );
 
         let output = PutObjectOutput {
             e_tag: Some(format!("\"{}\"", md5_sum)),
@@ -973,6 +1001,7 @@ impl S3Storage for FileSystem {
 
         trace_try!(create_parent_dir(&object_path).await);
         trace_try!(temp_file.persist(&object_path).await);
+        trace_try!(self.remove_metadata(&bucket, &key).await);
 
         // The object is complete, a part which is left behind only wastes space.
         for part_path in part_paths {
-- 
2.43.0


From 02ba26bde15827824127def6db5031a35d3fe4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 20/35] fix: clamp ranges to the object and answer range
 requests with 206 and Content-Range

---
 src/headers/range.rs  | 14 ++++++++++++
 src/ops/get_object.rs |  5 +++-
 src/storages/fs.rs    | 53 +++++++++++++------------------------------
 3 files changed, 34 insertions(+), 38 deletions(-)

diff --git a/src/headers/range.rs b/src/headers/range.rs
index fbe55e1..86a2139 100644
--- a/src/headers/range.rs
+++ b/src/headers/range.rs
@@ -81,6 +81,20 @@ impl Range {
             Ok((_, ans)) => Ok(ans),
         }
     }
+
+    /// Resolves the first and the last byte (inclusive) of the range in a body of `len` bytes
+    ///
+    /// Returns `None` if the range is not satisfiable
+    #[must_use]
+    pub fn resolve(&self, len: u64) -> Option<(u64, u64)> {
+        let end = len.checked_sub(1)?;
+        match *self {
+            Range::Normal { first, last } => {
+                (first < len).then(|| (first, last.map_or(end, |last| last.min(end))))
+            }
+            Range::Suffix { last } => (last > 0).then(|| (len.saturating_sub(last), end)),
+        }
+    }
 }
 
 #[cfg(test)]
diff --git a/src/ops/get_object.rs b/src/ops/get_object.rs
index 88d347f..ae74abe 100644
--- a/src/ops/get_object.rs
+++ b/src/ops/get_object.rs
@@ -18,7 +18,7 @@ use crate::headers::{
 use crate::output::S3Output;
 use crate::storage::S3Storage;
 use crate::utils::{time, ResponseExt};
-use crate::{async_trait, Body, Method, Response};
+use crate::{async_trait, Body, Method, Response, StatusCode};
 
 /// `GetObject` handler
 pub struct Handler;
@@ -104,6 +104,9 @@ impl S3Output for GetObjectOutput {
             res.set_optional_header(CONTENT_DISPOSITION, self.content_disposition)?;
             res.set_optional_header(CONTENT_ENCODING, self.content_encoding)?;
             res.set_optional_header(CONTENT_LANGUAGE, self.content_language)?;
+            if self.content_range.is_some() {
+                res.set_status(StatusCode::PARTIAL_CONTENT);
+            }
             res.set_optional_header(CONTENT_RANGE, self.content_range)?;
             res.set_optional_header(CONTENT_TYPE, self.content_type)?;
 
diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 2eb4e1c..8bc975a 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -511,44 +511,22 @@ impl S3Storage for FileSystem {
         }
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
-        let content_length = {
-            let file_len = file_metadata.len();
-            let content_len = match range {
-                None => file_len,
-                Some(Range::Normal { first, last }) => {
-                    if first >= file_len {
-                        let err =
-                            code_error!(InvalidRange, "The requested range cannot be satisfied.");
-                        return Err(err.into());
-                    }
-                    let _ = trace_try!(file.seek(SeekFrom::Start(first)).await);
-
-                    // HTTP byte range is inclusive
-                    //      len = last + 1 - first
-                    // or   len = file_len - first
-
-                    last.and_then(|x| x.checked_add(1))
-                        .unwrap_or(file_len)
-                        .wrapping_sub(first)
-                }
-                Some(Range::Suffix { last }) => {
-                    let offset = Some(last)
-                        .filter(|&x| x <= file_len)
-                        .and_then(|x| i64::try_from(x).ok())
-                        .and_then(i64::checked_neg);
-
-                    if let Some(x) = offset {
-                        let _ = trace_try!(file.seek(SeekFrom::End(x)).await);
-                    } else {
-                        let err =
-                            code_error!(InvalidRange, "The requested range cannot be satisfied.");
-                        return Err(err.into());
-                    }
-                    last
-                }
-            };
-            trace_try!(usize::try_from(content_len))
+        let file_len = file_metadata.len();
+        let (content_length, content_range) = match range {
+            None => (file_len, None),
+            Some(range) => {
+                let (first, last) = range.resolve(file_len).ok_or_else(|| {
+                    code_error!(InvalidRange, "The requested range cannot be satisfied.")
+                })?;
+                let _ = trace_try!(file.seek(SeekFrom::Start(first)).await);
+
+                // HTTP byte range is inclusive
+                let content_len = last.wrapping_sub(first).wrapping_add(1);
+                let content_range = format!("bytes {}-{}/{}", first, last, file_len);
+                (content_len, Some(content_range))
+            }
         };
+        let content_length = trace_try!(usize::try_from(content_length));
 
         let stream = BytesStream::new(file, 4096, Some(content_length));
 
@@ -572,6 +550,7 @@ impl S3Storage for FileSystem {
         let output: GetObjectOutput = GetObjectOutput {
             body: Some(crate::dto::ByteStream::new(stream)),
             content_length: Some(trace_try!(content_length.try_into())),
+            content_range,
             last_modified: Some(last_modified),
             metadata: object_metadata,
             e_tag: Some(format!("\"{}\"", md5_sum)),
-- 
2.43.0


From bf965d6280c4ccd55043dc870567f9766892ede5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 21/35] fix: HeadObject and GetObject report the same ETag and
 Content-Type

---
 src/storages/fs.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 8bc975a..e1e9903 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -551,6 +551,7 @@ impl S3Storage for FileSystem {
             body: Some(crate::dto::ByteStream::new(stream)),
             content_length: Some(trace_try!(content_length.try_into())),
             content_range,
+            content_type: Some(mime::APPLICATION_OCTET_STREAM.as_ref().to_owned()), // TODO: handle content type
             last_modified: Some(last_modified),
             metadata: object_metadata,
             e_tag: Some(format!("\"{}\"", md5_sum)),
@@ -587,15 +588,23 @@ impl S3Storage for FileSystem {
             return Err(err.into());
         }
 
-        let file_metadata = trace_try!(async_fs::metadata(path).await);
+        let file_metadata = trace_try!(async_fs::metadata(&path).await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
         let size = file_metadata.len();
 
         let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key).await);
 
+        let e_tag = if file_metadata.is_file() {
+            let md5_sum = trace_try!(self.get_md5_sum(&input.bucket, &input.key).await);
+            Some(format!("\"{}\"", md5_sum))
+        } else {
+            None
+        };
+
         let output: HeadObjectOutput = HeadObjectOutput {
             content_length: Some(trace_try!(size.try_into())),
             content_type: Some(mime::APPLICATION_OCTET_STREAM.as_ref().to_owned()), // TODO: handle content type
+            e_tag,
             last_modified: Some(last_modified),
             metadata: object_metadata,
             ..HeadObjectOutput::default()
-- 
2.43.0


From bd6956b9e7d03d932c3dcf829f87fdc8d88eccff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 22/35] fix: check Content-MD5 before an object or a part is
 stored

---
 src/storages/fs.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index e1e9903..88f9cd8 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -284,6 +284,27 @@ where
     Ok(nwrite)
 }
 
+/// check the digest of the received bytes against the `Content-MD5` header
+fn check_content_md5(content_md5: Option<&str>, digest: &[u8]) -> S3Result<()> {
+    let expected = match content_md5 {
+        Some(s) => base64_simd::STANDARD.decode_to_vec(s).map_err(|err| {
+            code_error!(
+                InvalidDigest,
+                "The Content-MD5 you specified is not valid.",
+                err
+            )
+        })?,
+        None => return Ok(()),
+    };
+    if expected.as_slice() != digest {
+        return Err(code_error!(
+            BadDigest,
+            "The Content-MD5 you specified did not match what we received."
+        ));
+    }
+    Ok(())
+}
+
 /// create the directory which will contain `path`
 async fn create_parent_dir(path: &Path) -> io::Result<()> {
     if let Some(dir_path) = path.parent() {
@@ -800,6 +821,7 @@ impl S3Storage for FileSystem {
             key,
             metadata,
             content_length,
+            content_md5,
             ..
         } = input;
 
@@ -834,7 +856,9 @@ impl S3Storage for FileSystem {
 
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
         let size = trace_try!(ret);
-        let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
+        let digest = md5_hash.finalize();
+        check_content_md5(content_md5.as_deref(), digest.as_slice())?;
+        let md5_sum = crypto::to_hex_string(digest);
 
         drop(writer);
         trace_try!(temp_file.persist(&object_path).await);
@@ -890,6 +914,7 @@ impl S3Storage for FileSystem {
             body,
             upload_id,
             part_number,
+            content_md5,
             ..
         } = input;
 
@@ -907,7 +932,9 @@ impl S3Storage for FileSystem {
 
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
         let size = trace_try!(ret);
-        let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
+        let digest = md5_hash.finalize();
+        check_content_md5(content_md5.as_deref(), digest.as_slice())?;
+        let md5_sum = crypto::to_hex_string(digest);
 
         drop(writer);
         trace_try!(temp_file.persist(&file_path).await);
-- 
2.43.0


From 4f0016bf4dc075b5d0d48e5914aa2dab16a772b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:39 +0000
Subject: [PATCH 23/35] fix: CompleteMultipartUpload rejects missing,
 misordered and empty part lists as client errors

---
 src/storages/fs.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 88f9cd8..9a2d1b3 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -983,20 +983,28 @@ impl S3Storage for FileSystem {
         let mut writer = BufWriter::new(file);
 
         let mut part_paths = Vec::new();
-        let mut cnt: i64 = 0;
+        let mut last_part_number: i64 = 0;
         for part in multipart_upload.parts.into_iter().flatten() {
-            let part_number = trace_try!(part
+            let part_number = part
                 .part_number
-                .ok_or_else(|| { io::Error::new(io::ErrorKind::NotFound, "Missing part_number") }));
-            cnt = cnt.wrapping_add(1);
-            if part_number != cnt {
-                trace_try!(Err(io::Error::new(
-                    io::ErrorKind::Other,
-                    "InvalidPartOrder"
-                )));
+                .ok_or_else(|| code_error!(InvalidPart, "Missing part_number"))?;
+            if part_number <= last_part_number {
+                let err = code_error!(
+                    InvalidPartOrder,
+                    "The list of parts was not in ascending order."
+                );
+                return Err(err.into());
             }
+            last_part_number = part_number;
             let part_path = self.get_upload_part_path(&upload_id, part_number)?;
 
+            if !part_path.is_file() {
+                let err = code_error!(
+                    InvalidPart,
+                    "One or more of the specified parts could not be found."
+                );
+                return Err(err.into());
+            }
             let mut reader = trace_try!(File::open(&part_path).await);
             let (ret, duration) =
                 time::count_duration(futures::io::copy(&mut reader, &mut writer)).await;
@@ -1011,6 +1019,10 @@ impl S3Storage for FileSystem {
             );
             part_paths.push(part_path);
         }
+        if part_paths.is_empty() {
+            let err = code_error!(InvalidPart, "You must specify at least one part.");
+            return Err(err.into());
+        }
         trace_try!(writer.flush().await);
         drop(writer);
 
-- 
2.43.0


From 62562278a77b2b5b73b48bbf3ebfc1880a34b434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:01 +0000
Subject: [PATCH 24/35] fix: deleting a directory object reports the failure to
 read the directory

---
 src/storages/fs.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 9a2d1b3..03db88f 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -212,7 +212,13 @@ impl FileSystem {
         if key.ends_with('/') {
             if path.is_dir() {
                 let mut dir = trace_try!(async_fs::read_dir(&path).await);
-                let is_empty = dir.next().await.is_none();
+                let is_empty = match dir.next().await {
+                    None => true,
+                    Some(entry) => {
+                        let _ = trace_try!(entry);
+                        false
+                    }
+                };
                 if is_empty {
                     trace_try!(async_fs::remove_dir(&path).await);
                 }
-- 
2.43.0


From 355179523039611cb4b9b815f6c0cac228e3f3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:42 +0000
Subject: [PATCH 25/35] fix: serve a directory object as an empty object

---
 src/storages/fs.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 03db88f..1b7759c 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -538,7 +538,9 @@ impl S3Storage for FileSystem {
         }
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
-        let file_len = file_metadata.len();
+        // a directory object has no content
+        let is_dir = file_metadata.is_dir();
+        let file_len = if is_dir { 0 } else { file_metadata.len() };
         let (content_length, content_range) = match range {
             None => (file_len, None),
             Some(range) => {
@@ -559,6 +561,17 @@ impl S3Storage for FileSystem {
 
         let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key).await);
 
+        if is_dir {
+            let output: GetObjectOutput = GetObjectOutput {
+                content_length: Some(0),
+                content_type: Some(mime::APPLICATION_OCTET_STREAM.as_ref().to_owned()),
+                last_modified: Some(last_modified),
+                metadata: object_metadata,
+                ..GetObjectOutput::default()
+            };
+            return Ok(output);
+        }
+
         let (md5_sum, duration) = {
             let (ret, duration) =
                 time::count_duration(self.get_md5_sum(&input.bucket, &input.key)).await;
@@ -617,7 +630,12 @@ impl S3Storage for FileSystem {
 
         let file_metadata = trace_try!(async_fs::metadata(&path).await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
-        let size = file_metadata.len();
+        // a directory object has no content
+        let size = if file_metadata.is_dir() {
+            0
+        } else {
+            file_metadata.len()
+        };
 
         let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key).await);
 
-- 
2.43.0


From 6f18d939eb78b89fb758feb77265464f0ee6608c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:25 +0000
Subject: [PATCH 26/35] fix: a signed user-agent header is part of the
 canonical request

SignedHeaders may name any header; the signature of a client which signs its
user-agent was always refused.
---
 src/signature_v4.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signature_v4.rs b/src/signature_v4.rs
index df3f8c8..5dcfb3f 100644
--- a/src/signature_v4.rs
+++ b/src/signature_v4.rs
@@ -153,7 +153,7 @@ fn uri_encode(output: &mut String, input: &str, encode_slash: bool) {
 
 /// is skipped header
 fn is_skipped_header(header: &str) -> bool {
-    ["authorization", "user-agent"].contains(&header)
+    header == "authorization"
 }
 
 /// is skipped query string
-- 
2.43.0


From f0c8933ebd432a1e40f678759f1e354b01f49af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:55 +0000
Subject: [PATCH 27/35] fix: aws-chunked bodies of presigned and unsigned
 requests are refused instead of stored with their chunk framing

---
 src/service.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/service.rs b/src/service.rs
index 7502d63..8b8209e 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -324,6 +324,16 @@ fn check_signed_headers(headers: &OrderedHeaders<'_>, signed_headers: &[&str]) -
     Ok(())
 }
 
+/// The chunks of an `aws-chunked` body are signed, only header auth can decode them
+fn refuse_chunked_body(headers: &OrderedHeaders<'_>) -> S3Result<()> {
+    match headers.get(X_AMZ_CONTENT_SHA256) {
+        Some(value) if value.starts_with("STREAMING-") => Err(not_supported!(
+            "An aws-chunked payload requires an Authorization header."
+        )),
+        _ => Ok(()),
+    }
+}
+
 /// Maximum difference between the request time and the server time (15 minutes)
 const MAX_TIME_SKEW_SECS: i64 = 15 * 60;
 
@@ -498,6 +508,8 @@ async fn check_presigned_url(
     // TODO: how to use it?
     let _content_sha256: Option<AmzContentSha256<'_>> = extract_amz_content_sha256(&ctx.headers)?;
 
+    refuse_chunked_body(&ctx.headers)?;
+
     let auth_provider = match auth {
         Some(a) => a,
         None => {
@@ -552,6 +564,7 @@ async fn check_header_auth(
             if auth.is_some() {
                 return Err(code_error!(AccessDenied, "Access Denied"));
             }
+            refuse_chunked_body(&ctx.headers)?;
             return Ok(());
         }
     };
-- 
2.43.0


From 66432d2938c6f8fe5ecc613da8597a003bcc8e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:19 +0000
Subject: [PATCH 28/35] fix: a chunk size with trailing text or too many digits
 is an error instead of being cut

---
 src/streams/aws_chunked_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streams/aws_chunked_stream.rs b/src/streams/aws_chunked_stream.rs
index a7208ab..8fb5630 100644
--- a/src/streams/aws_chunked_stream.rs
+++ b/src/streams/aws_chunked_stream.rs
@@ -94,7 +94,7 @@ fn parse_chunk_meta(mut input: &[u8]) -> nom::IResult<&[u8], ChunkMeta<'_>> {
         (size_str, signature)
     });
 
-    let (_, size) = map_res(hex_u32, TryInto::try_into)(size_str)?;
+    let (_, size) = map_res(all_consuming(hex_u32), TryInto::try_into)(size_str)?;
 
     Ok((input, ChunkMeta { size, signature }))
 }
-- 
2.43.0


From 17169900c29699ae25f2448fb1809b15cd9c2d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 29/35] fix: the signed header names of a presigned URL are
 sorted before they are searched

---
 src/signature_v4.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/signature_v4.rs b/src/signature_v4.rs
index 5dcfb3f..f229b7d 100644
--- a/src/signature_v4.rs
+++ b/src/signature_v4.rs
@@ -92,7 +92,8 @@ impl<'a> PresignedUrl<'a> {
         if !info.x_amz_signed_headers.is_ascii() {
             return Err(ParsePresignedUrlError { _priv: () });
         }
-        let signed_headers = info.x_amz_signed_headers.split(';').collect::<Vec<&str>>();
+        let mut signed_headers = info.x_amz_signed_headers.split(';').collect::<Vec<&str>>();
+        signed_headers.sort_unstable(); // `map_signed_headers` requires sorted names
 
         if !crypto::is_sha256_checksum(info.x_amz_signature) {
             return Err(ParsePresignedUrlError { _priv: () });
-- 
2.43.0


From 5aa9f870866ab8fc38399dc24c3961d9dd57c6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 30/35] fix: the Content-Length, Content-MD5 and Content-Type
 headers of a form upload describe the form, not the object

---
 src/ops/put_object.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ops/put_object.rs b/src/ops/put_object.rs
index 32b7ef5..1517479 100644
--- a/src/ops/put_object.rs
+++ b/src/ops/put_object.rs
@@ -122,16 +122,19 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<PutObjectRequest> {
     };
 
     let h = &ctx.headers;
-    h.assign(CONTENT_LENGTH, &mut input.content_length)
-        .map_err(|err| invalid_request!("Invalid header: content-length", err))?;
+    if ctx.multipart.is_none() {
+        // for a form upload these headers describe the form, not the object
+        h.assign(CONTENT_LENGTH, &mut input.content_length)
+            .map_err(|err| invalid_request!("Invalid header: content-length", err))?;
+        h.assign_str(CONTENT_MD5, &mut input.content_md5);
+        h.assign_str(CONTENT_TYPE, &mut input.content_type);
+    }
 
     h.assign_str(X_AMZ_ACL, &mut input.acl);
     h.assign_str(CACHE_CONTROL, &mut input.cache_control);
     h.assign_str(CONTENT_DISPOSITION, &mut input.content_disposition);
     h.assign_str(CONTENT_ENCODING, &mut input.content_encoding);
     h.assign_str(CONTENT_LANGUAGE, &mut input.content_language);
-    h.assign_str(CONTENT_MD5, &mut input.content_md5);
-    h.assign_str(CONTENT_TYPE, &mut input.content_type);
     h.assign_str(EXPIRES, &mut input.expires);
     h.assign_str(X_AMZ_GRANT_FULL_CONTROL, &mut input.grant_full_control);
     h.assign_str(X_AMZ_GRANT_READ, &mut input.grant_read);
-- 
2.43.0


From 33fe46bc41c7814dc0ba20f4e0035fd426cad53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 31/35] fix: the answer to CreateMultipartUpload is an
 InitiateMultipartUploadResult

---
 src/ops/create_multipart_upload.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops/create_multipart_upload.rs b/src/ops/create_multipart_upload.rs
index 9ff5fb7..a87123e 100644
--- a/src/ops/create_multipart_upload.rs
+++ b/src/ops/create_multipart_upload.rs
@@ -82,7 +82,7 @@ impl S3Output for CreateMultipartUploadOutput {
             let upload_id = self.upload_id;
 
             res.set_xml_body(256, |w| {
-                w.stack("InitialMultipartUploadResult", |w| {
+                w.stack("InitiateMultipartUploadResult", |w| {
                     w.opt_element("Bucket", bucket)?;
                     w.opt_element("Key", key)?;
                     w.opt_element("UploadId", upload_id)?;
-- 
2.43.0


From b2629a14bbc89f4abbd68071b131407a76d9c748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 32/35] fix: every common prefix of a listing is in a
 CommonPrefixes element of its own

---
 src/ops/list_objects.rs    | 12 +++++++-----
 src/ops/list_objects_v2.rs | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/ops/list_objects.rs b/src/ops/list_objects.rs
index 6e9cbc8..692e06b 100644
--- a/src/ops/list_objects.rs
+++ b/src/ops/list_objects.rs
@@ -88,11 +88,13 @@ impl S3Output for ListObjectsOutput {
                     w.opt_element("Prefix", self.prefix)?;
                     w.opt_element("Delimiter", self.delimiter)?;
                     w.opt_element("MaxKeys", self.max_keys.map(|k| k.to_string()))?;
-                    w.opt_stack("CommonPrefixes", self.common_prefixes, |w, prefixes| {
-                        w.iter_element(prefixes.into_iter(), |w, common_prefix| {
-                            w.opt_element("Prefix", common_prefix.prefix)
-                        })
-                    })?;
+                    if let Some(common_prefixes) = self.common_prefixes {
+                        for common_prefix in common_prefixes {
+                            w.stack("CommonPrefixes", |w| {
+                                w.opt_element("Prefix", common_prefix.prefix)
+                            })?;
+                        }
+                    }
                     w.opt_element("EncodingType", self.encoding_type)?;
                     Ok(())
                 })
diff --git a/src/ops/list_objects_v2.rs b/src/ops/list_objects_v2.rs
index c7609dc..6141d91 100644
--- a/src/ops/list_objects_v2.rs
+++ b/src/ops/list_objects_v2.rs
@@ -94,11 +94,13 @@ impl S3Output for ListObjectsV2Output {
                     w.opt_element("Prefix", self.prefix)?;
                     w.opt_element("Delimiter", self.delimiter)?;
                     w.opt_element("MaxKeys", self.max_keys.map(|k| k.to_string()))?;
-                    w.opt_stack("CommonPrefixes", self.common_prefixes, |w, prefixes| {
-                        w.iter_element(prefixes.into_iter(), |w, common_prefix| {
-                            w.opt_element("Prefix", common_prefix.prefix)
-                        })
-                    })?;
+                    if let Some(common_prefixes) = self.common_prefixes {
+                        for common_prefix in common_prefixes {
+                            w.stack("CommonPrefixes", |w| {
+                                w.opt_element("Prefix", common_prefix.prefix)
+                            })?;
+                        }
+                    }
                     w.opt_element("EncodingType", self.encoding_type)?;
                     w.opt_element("KeyCount", self.key_count.map(|k| k.to_string()))?;
                     w.opt_element("ContinuationToken", self.continuation_token)?;
-- 
2.43.0


From 0d8f02137f9669c030197cbd2cf976ca4cccc8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:26 +0000
Subject: [PATCH 33/35] fix: forms are accepted however their body is divided
 into frames

The first boundary line was refused when the first frame ended inside it.
---
 src/streams/multipart.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/streams/multipart.rs b/src/streams/multipart.rs
index 8f1bed3..0c0ea77 100644
--- a/src/streams/multipart.rs
+++ b/src/streams/multipart.rs
@@ -140,6 +140,10 @@ where
                 None => return Err((body, pat)),
                 Some(line) => {
                     if line != pat_without_crlf {
+                        // the line may not have been received completely
+                        if lines.slice.is_empty() && pat.starts_with(line) {
+                            return Err((body, pat));
+                        }
                         return Ok(Err(generate_format_error()));
                     };
                 }
@@ -147,6 +151,10 @@ where
         }
         Some(line) => {
             if line != pat_without_crlf {
+                // the line may not have been received completely
+                if lines.slice.is_empty() && (line == b"\r" || pat.starts_with(line)) {
+                    return Err((body, pat));
+                }
                 return Ok(Err(generate_format_error()));
             }
         }
-- 
2.43.0


From a3568f90cce31d2dbff1294709dcef13b23a0035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:33 +0000
Subject: [PATCH 34/35] fix: accept copy sources whose key contains a newline

---
 src/headers/amz_copy_source.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/headers/amz_copy_source.rs b/src/headers/amz_copy_source.rs
index 185394b..1a07ede 100644
--- a/src/headers/amz_copy_source.rs
+++ b/src/headers/amz_copy_source.rs
@@ -69,7 +69,7 @@ impl<'a> AmzCopySource<'a> {
         // TODO: use nom parser
 
         // bucket pattern
-        let pattern: &Regex = static_regex!("^(.+?)/(.+)$");
+        let pattern: &Regex = static_regex!("(?s)^(.+?)/(.+)$");
 
         match pattern.captures(header) {
             None => Err(ParseAmzCopySourceError::PatternMismatch),
-- 
2.43.0


From 39720e1fc9297edf4db24acfc1349afaa0cfec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:39 +0000
Subject: [PATCH 35/35] fix: url-encode the names in a listing when url
 encoding is announced

---
 src/storages/fs.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 1b7759c..1d3eb1a 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -324,6 +324,12 @@ const fn operation_error<E>(e: E) -> S3StorageError<E> {
     S3StorageError::Operation(e)
 }
 
+/// the url encoding of the names in a listing, `/` is kept
+fn url_encode(name: &str) -> String {
+    let parts: Vec<_> = name.split('/').map(urlencoding::encode).collect();
+    parts.join("/")
+}
+
 #[async_trait]
 impl S3Storage for FileSystem {
     #[tracing::instrument]
@@ -738,11 +744,20 @@ impl S3Storage for FileSystem {
             lhs_key.cmp(rhs_key)
         });
 
+        let encoding_type = input.encoding_type.filter(|t| t == "url");
+        let mut delimiter = input.delimiter;
+        if encoding_type.is_some() {
+            delimiter = delimiter.as_deref().map(url_encode);
+            for object in &mut objects {
+                object.key = object.key.as_deref().map(url_encode);
+            }
+        }
+
         // TODO: handle other fields
         let output = ListObjectsOutput {
             contents: Some(objects),
-            delimiter: input.delimiter,
-            encoding_type: input.encoding_type,
+            delimiter,
+            encoding_type,
             name: Some(input.bucket),
             common_prefixes: None,
             is_truncated: None,
@@ -804,12 +819,21 @@ impl S3Storage for FileSystem {
             lhs_key.cmp(rhs_key)
         });
 
+        let encoding_type = input.encoding_type.filter(|t| t == "url");
+        let mut delimiter = input.delimiter;
+        if encoding_type.is_some() {
+            delimiter = delimiter.as_deref().map(url_encode);
+            for object in &mut objects {
+                object.key = object.key.as_deref().map(url_encode);
+            }
+        }
+
         // TODO: handle other fields
         let output = ListObjectsV2Output {
             key_count: Some(trace_try!(objects.len().try_into())),
             contents: Some(objects),
-            delimiter: input.delimiter,
-            encoding_type: input.encoding_type,
+            delimiter,
+            encoding_type,
             name: Some(input.bucket),
             common_prefixes: None,
             is_truncated: None,
-- 
2.43.0

