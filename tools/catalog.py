#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the catalogue below (tools/catalog.py; run after editing)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(V, 'sa'))
sys.dont_write_bytecode = True
import check, core
check.load()

FS = 'src/storages/fs.rs'
T_FEW = 'The tests run a handful of requests against one local directory; '
PROPS = []
def P(id, title, statement, over, text, why, files, mech, state=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, na=na))

# ---- writing -------------------------------------------------------------------------------------
P('W01', 'A storage failure is never answered with success',
  'When a file-system call, the request body stream or the resolution of a path fails while a storage operation runs, the operation does not answer as if it had succeeded: the response is an error (for multi-object deletes an error entry for that key). The only failure which may be swallowed is the removal of uploaded parts after the completed object is in place.',
  ['fault_sequences', 'inputs'], 'every operation of the file-system storage, every call it makes that can fail, every path',
  T_FEW + 'none of them injects an I/O error, and there are some 150 places where one can occur.',
  [FS], [('error propagation of every operation', FS)])
P('W02', 'A put or part upload succeeds only after its whole body is stored',
  'PutObject and UploadPart answer success only if the request body was read to its end without error, every chunk was written completely, once and in order, buffers were flushed, and the stored file was then given its final name. A directory object (key ending in "/") is only created for an announced empty body.',
  ['inputs', 'fault_sequences'], 'every body length, every division of the body into chunks, every point at which the body or the disk fails',
  T_FEW + 'bodies are short single chunks and never fail half way.',
  [FS], [('body copy loop, flush, rename', FS + ' put_object, upload_part, copy_bytes, TempFile')])
P('W03', 'Visible files are replaced atomically, never written in place',
  'Every file a client can observe (objects, user metadata, uploaded parts) changes only by an atomic rename of a private, freshly named temporary file or by removal. A reader, a concurrent writer or a crash never meets a partly written file under a visible name.',
  ['schedules', 'crash_points', 'fault_sequences'], 'every interleaving of concurrent requests on one key and every point at which a request is cut short',
  'The tests are sequential and never interrupt an operation.',
  [FS], [('temporary file and rename', FS + ' TempFile, put_object, upload_part, copy_object, complete_multipart_upload, save_metadata')])
P('W05', 'The ETag is the MD5 of exactly the stored bytes',
  'The ETag returned by PutObject, UploadPart, CopyObject, CompleteMultipartUpload, GetObject and HeadObject is the quoted lower-case hexadecimal MD5 of all bytes of the stored object or part, each byte counted once.',
  ['inputs'], 'every content, length and division into chunks or read buffers',
  'Tests compare the ETag of one short text.',
  [FS, 'src/utils/crypto.rs'], [('hashing of chunks and files', FS + ' get_md5_sum, put_object, upload_part'), ('hex encoding', 'src/utils/crypto.rs to_hex_string')])
P('W06', 'A wrong Content-MD5 is refused and stores nothing',
  'When a PutObject or UploadPart request carries Content-MD5, the object or part is only put in place if the header is the base64 MD5 of the whole received body; otherwise the answer is BadDigest (InvalidDigest when the header is not base64) and what was stored before is unchanged. Without the header no digest error occurs.',
  ['inputs'], 'every body and every header value',
  'No test sends Content-MD5.',
  [FS], [('comparison before the rename', FS + ' check_content_md5')])
P('W07', 'User metadata lives and dies with its object',
  'A put replaces the user metadata of the key by what the request gives (none if it gives none), a completed multipart upload leaves none of a previous object, a copy leaves exactly the metadata of its source, and a delete removes it. GetObject and HeadObject return exactly what is saved for that object.',
  ['histories'], 'every history of puts, copies, multipart completions and deletes on a key',
  'Tests do one put with metadata followed by one get.',
  [FS], [('metadata file of bucket and key', FS + ' get_metadata_path, save_metadata, remove_metadata, replace_metadata, load_metadata')])
P('W08', 'DeleteObject removes the named object and nothing else',
  'DeleteObject removes only the object of exactly the named bucket and key together with its metadata (or its empty directory for a key ending in "/"), removes the object before it answers success, never its metadata without the object, and treats a missing key as success.',
  ['inputs', 'histories'], 'every bucket and key, existing or not',
  'Tests delete one existing key.',
  [FS], [('removal', FS + ' remove_object')])
# ---- names ---------------------------------------------------------------------------------------
P('N01', 'Every file access stays inside the storage root and its bucket',
  'Whatever bucket, key, upload id or copy source a request names, the storage only touches the file of that key inside the directory of that bucket, or the server\'s own files directly in the storage root. Nothing outside the root and no other bucket is read, written or removed.',
  ['inputs'], 'every bucket name, key, upload id and copy source a client can send',
  'Tests use well-formed names.',
  [FS], [('virtual root', FS + ' get_object_path, get_bucket_path, get_upload_part_path')])
P('N02', 'Distinct keys denote distinct objects',
  'Two different accepted keys of a bucket never denote the same file: keys with an empty, "." or ".." component are refused before any file is touched (one trailing "/" names a directory object).',
  ['inputs'], 'every pair of keys', 'Tests use a few plain keys.',
  [FS], [('component check', FS + ' get_object_path')])
P('N03', 'Internal files never collide with each other or with buckets',
  'The names of the server\'s own files (temporary files, metadata, uploaded parts) are different for different uploads, parts, buckets and keys, different between kinds, and can never be the name of a bucket.',
  ['inputs', 'histories'], 'every bucket, key, upload id and part number', 'Tests use one name of each kind.',
  [FS, 'src/path.rs'], [('file names', FS + ' get_metadata_path, get_upload_part_path, TempFile::create'), ('bucket names', 'src/path.rs check_bucket_name')])
P('N04', 'Exactly the allowed bucket names and keys are accepted',
  'A bucket name is accepted if and only if it has 3 to 63 characters from a-z, 0-9, "." and "-", begins and ends with a letter or digit, is not an IPv4 address and does not start with "xn--"; a key if and only if it has at most 1024 bytes.',
  ['inputs'], 'every string', 'The unit tests list about a dozen names.',
  ['src/path.rs'], [('predicates', 'src/path.rs check_bucket_name, check_key')])
P('N05', 'A request path is split into exactly its bucket and key',
  'The request path "/" is the root, "/b" and "/b/" the bucket b, and "/b/k" the object k of bucket b where k is everything after the second slash; a path with an invalid bucket name or too long a key is refused as such and never treated as another resource.',
  ['inputs'], 'every request path', 'The unit tests parse five paths.',
  ['src/path.rs'], [('parser', 'src/path.rs S3Path::try_from_path')])
P('N06', 'A copy source is split into exactly its bucket and key',
  'The bucket and key read from x-amz-copy-source are the text before the first "/" and everything after it, and both satisfy the naming rules; anything else is refused.',
  ['inputs'], 'every header value', 'The unit tests parse three values.',
  ['src/headers/amz_copy_source.rs'], [('parser', 'src/headers/amz_copy_source.rs from_header_str')])
# ---- buckets, listing, multi-delete --------------------------------------------------------------
P('B01', 'DeleteBucket never destroys objects',
  'DeleteBucket removes only empty directories of the named bucket. A bucket which holds any object is refused with BucketNotEmpty and left as it was; success means that the bucket is gone.',
  ['inputs', 'histories', 'schedules'], 'every content of the bucket, at any depth', 'Tests delete an empty bucket.',
  [FS], [('delete_bucket', FS + ' delete_bucket')])
P('B02', 'DeleteObjects reports each key once with its true outcome',
  'For every requested key DeleteObjects returns exactly one entry naming that key: "deleted" only if the object was removed or did not exist, "error" if its removal failed. A failure of one key never hides the outcome of the others.',
  ['inputs', 'fault_sequences'], 'every list of keys and every combination of failures', 'One test deletes two existing keys.',
  [FS], [('per-key loop', FS + ' delete_objects')])
P('B03', 'CreateBucket never takes over an existing bucket',
  'CreateBucket succeeds only if this request created the bucket, also when two requests race. A name found to exist is refused with BucketAlreadyExists, and an existing bucket is left unchanged.',
  ['schedules', 'histories'], 'every state of the storage and every race', 'Tests create each bucket once.',
  [FS], [('create_bucket', FS + ' create_bucket')])
P('B04', 'ListBuckets lists exactly the buckets',
  'ListBuckets returns every bucket (directory of the root with a valid bucket name) exactly once under its own name, and nothing else: no plain files, no internal files.',
  ['histories'], 'every content of the storage root', 'Tests list two buckets.',
  [FS], [('list_buckets', FS + ' list_buckets')])
P('R02', 'Listings return exactly the matching keys, once, in order',
  'ListObjects and ListObjectsV2 return every object of the bucket (other than directory objects) whose key starts with the requested prefix exactly once, with its own key, size and modification time, no other entries, in ascending key order; the v2 key count is the number of entries.',
  ['inputs', 'histories'], 'every content of the bucket and every prefix', 'Tests list two objects.',
  [FS], [('directory walk', FS + ' list_objects, list_objects_v2')])

exec(open(os.path.join(HERE, 'catalog_more.py')).read()) if os.path.exists(os.path.join(HERE, 'catalog_more.py')) else None

NOTE = 'Decided from the unborrow-checked MIR of the current tree by abstract interpretation; library calls are modelled, loops and merges are widened (sound for the rule stated as technique). It decides the stated rule for every path, not run-time behaviour of the libraries and the operating system.'

def main():
    claimed = [p for p in PROPS if not p['na']]
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
            assert len(p['title']) <= 80, p['title']
    man = {'version': 1, 'setup_cmd': 'python3 sa/build.py',
           'checks': [{'property': p['id'], 'quick_cmd': f"python3 sa/check.py {p['id']}", 'thorough_cmd': f"python3 sa/check.py {p['id']} --tier thorough",
                       'technique': 'static analysis: ' + core.PROPS[p['id']][1], 'level': 'other', 'level_note': NOTE} for p in claimed],
           'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in PROPS if p['na']]}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    missing = sorted(set(core.PROPS) - {p['id'] for p in PROPS})
    print(len(claimed), 'claimed,', len(PROPS) - len(claimed), 'not applicable; checks without entry:', missing)
main()
