# ---- reading -------------------------------------------------------------------------------------
P('R01', 'A ranged GET returns exactly the requested bytes',
  'A Range header is read as exactly the byte range it spells (bytes=first-last, bytes=first- or bytes=-length, decimal 64-bit numbers), anything else is refused. For every such header and every object length GetObject follows RFC 7233: it answers 206 with Content-Range, Content-Length, first byte and byte count of exactly the satisfiable part of the range, InvalidRange when nothing is satisfiable, and the whole object without Content-Range when no Range is given. The arithmetic never overflows or panics.',
  ['inputs'], 'every range form with every combination of first, last and object length, including 64-bit extremes',
  'Tests read one range of one short object.',
  [FS, 'src/headers/range.rs'], [('range resolution, seek and limit', FS + ' get_object'), ('Range::from_header_str', 'src/headers/range.rs')])
P('R03', 'GET and HEAD describe the same object',
  'GetObject and HeadObject of the same key return the same ETag, Last-Modified, Content-Type, user metadata and Content-Length, taken from that object; a directory object is an empty object for both.',
  ['inputs', 'histories'], 'every key and every state of the storage', 'Tests never compare GET with HEAD.',
  [FS], [('get_object and head_object', FS)])
P('R04', 'Missing buckets and keys are reported as such, without effects',
  'An operation on a bucket which does not exist answers NoSuchBucket and changes nothing visible (it never creates the bucket); GetObject and HeadObject of a key which does not exist (including a directory named without its "/") answer NoSuchKey. No such request succeeds.',
  ['histories', 'inputs'], 'every operation in every state of the storage', 'Tests delete and read only what they created before.',
  [FS], [('existence tests', FS + ' check_bucket, get_object, head_object')])
P('R05', 'Listings encode the names exactly when they say so',
  'ListObjects and ListObjectsV2 answer with an encoding type only when the request asked for url; then every key and the delimiter are url-encoded (decoding them gives the names back, whatever bytes they have), in the order of the keys themselves; otherwise no key is encoded.',
  ['inputs', 'histories'], 'every content of the bucket and every encoding type', 'Tests never ask for an encoding.',
  [FS], [('list_objects and list_objects_v2', FS)])
P('C01', 'A copy reproduces its source exactly and never changes it',
  'CopyObject succeeds only after the destination was replaced by one complete copy of the object named by the URL-decoded copy source; the source is never written, also when source and destination are the same object. A missing source is NoSuchKey (or NoSuchBucket), any failure leaves the destination as it was.',
  ['inputs', 'fault_sequences'], 'every source and destination, also equal ones, and every failing step',
  'One test copies one small object to another key.',
  [FS, 'src/headers/amz_copy_source.rs'], [('copy through a temporary file', FS + ' copy_object')])
P('M01', 'A completed multipart object is the parts in order, each once',
  'CompleteMultipartUpload succeeds only if the new object consists of exactly the uploaded parts the request lists, in that order, each complete and once. Lists which are missing, empty or not in ascending part order and parts which were not uploaded are refused, and the parts are removed only after the object is in place.',
  ['inputs', 'fault_sequences', 'histories'], 'every list of parts and every failing step', 'One test completes an upload of one part.',
  [FS], [('assembly of parts', FS + ' complete_multipart_upload')])
P('M02', 'Parts of different uploads are never mixed',
  'Every CreateMultipartUpload returns a fresh random upload id with the bucket and key of the request, UploadPart stores a part only under the name made of the upload id and part number of its request, and CompleteMultipartUpload reads exactly the parts of its own upload id.',
  ['histories', 'schedules'], 'every interleaving of uploads', 'Tests run one upload at a time.',
  [FS], [('upload ids and part names', FS + ' create_multipart_upload, upload_part, get_upload_part_path')])
P('S01', 'The response body stream sends exactly the selected bytes',
  'The stream which sends an object emits every byte it reads exactly once and in order, never more than its limit (the length of the range), ends only at the limit or at the end of the file, waits when the file is not ready and passes every read error on.',
  ['inputs', 'schedules', 'fault_sequences'], 'every limit, buffer size, division of the file into reads, and every read that is pending or fails',
  'Tests read short files which arrive in one read.',
  ['src/data_structures/bytes_stream.rs'], [('BytesStream::poll_next', 'src/data_structures/bytes_stream.rs')])
# ---- authentication ------------------------------------------------------------------------------
SV, SG = 'src/service.rs', 'src/signature_v4.rs'
P('A01', 'No request is served without a verified signature',
  'When the service has an authentication provider, no handler runs and no storage operation is called before a signature computed by the server was compared with the one the request supplies (Authorization header, presigned query or POST form) and found equal. Valid requests of all three kinds do reach the handlers.',
  ['inputs', 'histories'], 'every method, path, header and query combination',
  'Tests send unauthenticated requests to a service without a provider.',
  [SV], [('check_signature and its three branches', SV + ' check_signature'), ('dispatch after the check', SV + ' S3Service::handle')])
P('A02', 'Without a provider signed requests are refused and unsigned ones served',
  'A service without an authentication provider serves requests which carry no signature and refuses every request which carries one (header, presigned query or POST form), because nobody can verify it.',
  ['inputs'], 'every request', 'Tests send no signed requests.', [SV], [('provider missing', SV + ' check_*')])
P('A03', 'The canonical request is that of Signature Version 4',
  'The canonical request is built from the method, the path with every byte outside the unreserved set percent-encoded exactly once ("/" kept), all query parameters (for presigned requests all but X-Amz-Signature) encoded and sorted after encoding, one "name:value" line with the trimmed value for every signed header except Authorization, the names of the same headers, and the payload hash or its placeholder.',
  ['inputs'], 'every path, query and header list and every byte value',
  'Tests compare a handful of the examples of the S3 documentation.',
  [SG], [('canonical requests and uri_encode', SG)])
P('A04', 'The verified signature covers this very request',
  'The signature which is compared is the HMAC-SHA256 chain (date, region, s3, aws4_request) with the secret key of the access key the request names, over the string to sign with the date and scope of this request and the hash of the canonical request made of its own method, decoded path, query, signed headers and payload; for POST forms over the policy field. The access key, date, region, service, signed headers and signature of an Authorization header are read exactly as they are spelled, a malformed one is refused.',
  ['inputs'], 'every signed request', 'Tests compute the signatures of a few documented examples.',
  [SV, SG, 'src/utils/crypto.rs', 'src/headers/authorization_v4.rs'], [('AuthorizationV4::from_header_str', 'src/headers/authorization_v4.rs'), ('signature computation', SG), ('arguments of the computation', SV)])
P('A05', 'The body a handler gets is the body the signature covers',
  'The body handed to a handler is the body of this request, whole and unchanged, and it is the one the signature covers: the bytes which were hashed into the verified signature, or the aws-chunked stream which verifies every chunk starting from that very signature, its date, region and secret key. A body is left out of the signature only if x-amz-content-sha256 says UNSIGNED-PAYLOAD, treated as aws-chunked only if it says STREAMING-AWS4-HMAC-SHA256-PAYLOAD, and never stored with its chunk framing: presigned and unsigned requests which announce a STREAMING- payload are refused.',
  ['inputs'], 'every combination of signature kind, x-amz-content-sha256 and body', 'Tests send unsigned requests with plain bodies.',
  [SV], [('payload selection and chunk stream', SV + ' check_header_auth'), ('take_body and form parsing', SV)])
CH = 'src/streams/aws_chunked_stream.rs'
P('A06', 'Only verified chunks of an aws-chunked body are delivered, and all of them',
  'The aws-chunked decoder emits exactly the chunk data in order, however the body is divided into frames, and no byte before the signature of its chunk was verified over the previous signature (first the seed) and the data of the chunk. It ends well only after a verified chunk of size zero: truncated bodies, read errors, wrong signatures, sizes which are not hexadecimal numbers and lines or data which are not terminated as they must be end in an error.',
  ['inputs', 'fault_sequences', 'schedules'], 'every division of a body into frames, every truncation, every chunk sequence',
  'One test decodes the documented example in three frames.',
  [CH, SG], [('AwsChunkedStream', CH), ('create_chunk_string_to_sign', SG)])
P('A07', 'A signature is honoured only in its time',
  'A request with an Authorization header is served only if its x-amz-date lies within 15 minutes of the server time, a presigned URL only from (at most 15 minutes before) its X-Amz-Date until X-Amz-Expires seconds later, a POST form only before the expiration of its policy; requests inside these limits are not refused for their time. The date which is tested is the date which was signed; an x-amz-date is YYYYMMDD\'T\'HHMMSS\'Z\' and nothing else.',
  ['inputs', 'schedules'], 'every date and time, every X-Amz-Expires', 'Tests never depend on the current time.',
  [SV, 'src/headers/amz_date.rs'], [('elapsed_secs and its uses', SV), ('AmzDate::to_utc', 'src/headers/amz_date.rs')])
P('A08', 'A signed request cannot be extended by unsigned headers',
  'Every x-amz-* header of a request with an Authorization header or a presigned URL is one of its signed headers, otherwise the request is refused; other headers need not be signed. The canonical headers are all entries of the request whose name is in the list of signed headers (repeated ones too), for lists in any order. Looking a header or query parameter up gives a value of exactly that name if there is one.',
  ['inputs'], 'every header list, query and list of signed headers', 'Tests sign a few fixed header lists.',
  [SV, 'src/data_structures/ordered_headers.rs', 'src/data_structures/ordered_qs.rs'], [('check_signed_headers', SV), ('map_signed_headers, get, from_req', 'src/data_structures/ordered_headers.rs'), ('get, from_query', 'src/data_structures/ordered_qs.rs')])
OPSF = 'src/ops/*.rs'
P('D01', 'Every request reaches the storage operation S3 defines for it',
  'For every request the method, the kind of path (service, bucket, object) and the presence of the sub-resource parameters, the copy source header and a form body decide which storage operation is called, as in the S3 API: no request reaches another operation, no well-formed and authorised request with a defined operation is refused, a request without one is answered with an error, and each of the sixteen operations is reachable, signed and anonymous.',
  ['inputs'], 'every combination of method, path kind, sub-resource parameters, copy source and form body, with and without authentication',
  'Tests send one or two requests per operation, never a combination of sub-resources.',
  [SV, OPSF], [('handle and select_handler', SV), ('is_match of the handlers', OPSF), ('setup_handlers', 'src/ops.rs')])
P('D02', 'Requests for sub-resources without an implementation are refused',
  'A request which addresses a sub-resource or operation the server does not implement (acl, tagging, policy, versioning, retention, list uploads, list parts, abort upload, part copy, ...) is answered with an error and never treated as a request for the bucket or object itself: PUT ?acl does not overwrite the object, DELETE ?tagging does not delete it.',
  ['inputs'], 'every method with every such sub-resource, alone and combined',
  'Tests never send such requests.',
  [SV, OPSF], [('handle', SV), ('is_match of the handlers', OPSF)])
P('D03', 'One request is one storage call, and the answer is its result',
  'A request makes at most one call of the storage; it is answered successfully only with the converted output of that very call, and a failed call is answered with an error.',
  ['inputs', 'fault_sequences'], 'every request and every result of the storage call',
  'Tests observe successful answers of the file system storage only.',
  [SV, OPSF], [('handle', SV), ('handle of the handlers', OPSF), ('try_into_response of results', 'src/output.rs')])
P('X01', 'Headers, query parameters and form fields mean what S3 defines',
  'Every header, query parameter and form field the operations understand reaches exactly the field of the input it stands for: given, the field has its value (numbers and booleans parsed); not given, the field is not set; and no field is set from anything else. The bucket and key are those of the path (the form field key for form uploads), the body is handed on chunk by chunk with its errors, and the user metadata of PutObject are exactly the x-amz-meta-NAME headers (form fields) with a non-empty NAME.',
  ['inputs'], 'every set of headers, query parameters and form fields',
  'Tests set a handful of headers.',
  [OPSF, 'src/data_structures/*.rs', 'src/utils/body.rs'], [('extract of the handlers', OPSF), ('transform_body_stream', 'src/utils/body.rs')])
P('X05', 'XML request bodies mean what S3 defines',
  'Every element of the XML body of CreateBucket, CompleteMultipartUpload and DeleteObjects reaches exactly the field of the input it stands for, for every entry of its lists and in their order.',
  ['inputs'], 'every document', 'Tests send a few small documents.',
  ['src/ops/complete_multipart_upload.rs', 'src/ops/delete_objects.rs', 'src/ops/create_bucket.rs'], [('mod xml', 'src/ops/delete_objects.rs'), ('mod xml', 'src/ops/complete_multipart_upload.rs'), ('mod xml', 'src/ops/create_bucket.rs')])
P('X02', 'Status and headers of an answer are those of the output',
  'For every output the storage returns, the status is the one S3 defines (200; 204 for DeleteBucket and DeleteObject; 206 for a GetObject with a content range) and the headers are exactly those S3 defines for the fields which are set, each with the value of its own field (dates as HTTP dates, user metadata as x-amz-meta-NAME); the body of GetObject is the stream of the output. A value which cannot be sent makes the answer an error.',
  ['inputs'], 'every set of fields of every output and every value', 'Tests look at a few headers of a few answers.',
  [OPSF, 'src/utils/response.rs'], [('S3Output of the sixteen outputs', OPSF), ('ResponseExt', 'src/utils/response.rs')])
P('X03', 'Errors are answered with their code, message and status',
  'Every error, whether of the storage, of an operation or of the service itself, is answered with an XML error document which has exactly its code and its message, and with the HTTP status S3 defines for that code; answers which are no errors pass unchanged. The names of the error codes are invertible.',
  ['inputs', 'fault_sequences'], 'every error code with and without a message, every operation-specific error', 'Tests see two or three error codes.',
  ['src/errors.rs', 'src/output.rs', SV, OPSF], [('S3ErrorCode', 'src/errors.rs'), ('XmlErrorResponse', 'src/output.rs'), ('hyper_call', SV), ('From<...Error> for S3Error', OPSF)])
P('X04', 'XML answers are the documents S3 defines',
  'The XML document of every answer is well-formed, has the root element and elements S3 defines, each present exactly when its field is set and with the value of that field, and has one element for every entry of a list (buckets, objects, common prefixes, deleted keys and errors), in the order of the list.',
  ['inputs'], 'every set of fields and list elements of every output with a document', 'Tests compare two or three documents.',
  [OPSF, 'src/utils/xml.rs'], [('S3Output', OPSF), ('XmlWriterExt', 'src/utils/xml.rs')])

P('D04', 'No request makes the server panic',
  'Whatever a client sends, the code which handles the request never panics: malformed, truncated, oversized or contradictory paths, headers, query strings, XML bodies, forms, chunked bodies and metadata are answered, not crashed on.',
  ['inputs'], 'every request, body and division of the body into chunks',
  'Tests send a handful of requests, most of them well-formed.',
  ['src/**/*.rs'], [('handle', SV), ('handlers', OPSF), ('storage operations', FS), ('uri_encode', SG), ('AwsChunkedStream', CH), ('try_parse, FileStream, CrlfLines', 'src/streams/multipart.rs'), ('from_header_str', 'src/headers/*.rs')])
P('A09', 'Secret keys and expected signatures are never shown',
  'Neither a secret key nor a value which would let a client sign (the signature the server expects, the seed signature computed from the secret key) appears in an answer, an error message, a log or trace record, or in the output of a Debug or Display implementation of a public type; a failed signature check tells only that it failed. The keys given to the server on its command line are not printed.',
  ['inputs'], 'every request, every result of a signature check, every log level',
  'Tests never look at log output or at the answers to wrong signatures.',
  [SV, SG, 'src/auth.rs', CH, 'src/bin/*.rs'], [('check_signature and its variants', SV), ('calculate_signature', SG), ('SimpleAuth', 'src/auth.rs'), ('AwsChunkedStream', CH), ('main', 'src/bin/s3-server.rs')])
P('A10', 'The credentials registered are the credentials checked',
  'SimpleAuth answers a lookup with the secret key registered last under exactly that access key and with an error for every other name (names which differ in case, by surrounding blanks or as prefixes are different names). A service handles every request, also through SharedS3Service and its clones, with the storage it was made from and the provider set last; without a provider set it has none.',
  ['inputs', 'histories'], 'every sequence of registrations and lookups; every service',
  'Tests never set a provider.',
  ['src/auth.rs', SV], [('SimpleAuth', 'src/auth.rs'), ('S3Service::new, set_auth, into_shared', SV), ('SharedS3Service', SV)])
P('A11', 'The server program does what its options say; keys mean authentication',
  'With --access-key and --secret-key the program serves only with a provider which knows exactly that pair; with only one of the two it refuses to start. It serves the directory given with --fs-root (made absolute, symbolic links and .. resolved) on the --host and --port given; by default the working directory on localhost:8014.',
  ['inputs'], 'every combination of the options', 'No test starts the program.',
  ['src/bin/s3-server.rs', FS], [('main and Args', 'src/bin/s3-server.rs'), ('FileSystem::new', FS)])
P('F01', 'Form uploads: fields and file are those of the form, however it is framed',
  'A well-formed form (multipart/form-data with a file as its last part) gives exactly its fields, in order and with their exact values, the name and type of its file, and as the content of the file exactly the bytes between the header of its part and the delimiter that ends it, however the body is divided into frames and whatever near misses of the delimiter the values and the file contain. A form cut short before that delimiter, whose reading fails, or which is malformed never ends as a complete file.',
  ['inputs', 'schedules', 'fault_sequences'], 'every form, every division of its body into frames, every cut and failing read',
  'Tests send two forms, whole or byte by byte.',
  ['src/streams/multipart.rs'], [('transform_multipart, try_parse', 'src/streams/multipart.rs'), ('FileStream', 'src/streams/multipart.rs'), ('CrlfLines, parse_content_disposition', 'src/streams/multipart.rs')])
# ---- not applicable ------------------------------------------------------------------------------
P('L01', 'Concurrent operations on one key take effect one after the other',
  'Operations on one key running at the same time (puts, copies, multipart completions, deletes, reads) give the results and leave the state of some sequential order of them, content and user metadata taken together.',
  ['schedules', 'histories'], 'every interleaving of the file-system calls of concurrent requests',
  'The tests are sequential.',
  [FS], [('put, copy, complete, delete, get of one key', FS)],
  na='Quantifies over interleavings of file-system calls of several tasks whose effects meet only in the kernel and the file system; there is no lock, type or ownership fact in the source from which an order could be read off, so deciding it needs an exploration of schedules (model checking or testing). What the source alone settles is claimed separately: contents appear atomically (W03), buckets are created exclusively (B03), private files of concurrent requests never collide (M02, N03).')
P('L02', 'Memory per request does not grow with the object',
  'Serving an upload or download takes memory independent of the size of the object.',
  ['inputs'], 'every size of object and every pace of client and disk',
  'Tests use short bodies and measure no memory.',
  [FS, 'src/streams/aws_chunked_stream.rs', 'src/streams/multipart.rs'], [('body copy, chunk decoder, form parser', FS)],
  na='The bound is a run-time quantity: what a chunk of the body, the allocator, the channels and buffers of hyper and tokio hold at one time depends on peers and scheduling outside this source, and the decoder holds one chunk of the length the client announces. No sound static argument in reach bounds it.')
P('L03', 'Every request is answered',
  'A request whose body arrives completely is answered, with success or an error, after finite time.',
  ['inputs', 'schedules'], 'every request, pace of the client and scheduling of tasks',
  'Tests send a few requests to an idle server.',
  ['src/service.rs', FS], [('handle and the operations', 'src/service.rs')],
  na='Liveness through hyper, tokio and the file system: wake-ups, back-pressure and blocking calls are decided in code outside this repository, and termination of the loops over body frames and directory entries depends on their producers. That the crate itself neither panics on the way (D04) nor drops a failure (W01) is claimed separately.')
