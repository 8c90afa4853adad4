#!/usr/bin/env python3
"""Writes properties.jsonl (kept in one place so that it stays in step with MANIFEST.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)


L = 'lib/bup/'
p('C01', 'Splitting data into chunks loses nothing and bounds every chunk',
  'Splitting any sequence of input files yields chunks that are all non-empty, never larger than the '
  'configured maximum blob size, and whose concatenation is exactly the input. The chunks depend only on '
  'the bytes (and, when boundaries are kept, on where the files end), never on how many bytes each '
  'read happens to return. With boundaries kept, no chunk spans two files.',
  ['inputs'], 'every byte content, every number and size of input files, every read granularity, every '
  'split bit count the tool accepts',
  'tests split a few fixed contents with full reads; the rolling checksum state, the buffer refill and the '
  'maximum-size cut interact only for particular lengths and read sizes',
  [L + '_hashsplit.c', L + 'bupsplit.c', L + 'bupsplit.h', L + 'hashsplit.py'],
  [('hash splitter', 'lib/bup/_hashsplit.c HashSplitter_iternext'),
   ('rolling checksum', 'lib/bup/bupsplit.h rollsum_roll')],
  ['blobs produced by iterating a HashSplitter', 'hashsplit.split_to_blobs'])

p('C02', 'A chunked file reads back exactly, sequentially and at any offset',
  'When a stream is stored as a tree of chunks, concatenating the blobs of the tree in entry order gives '
  'the stream again, and opening the file and reading any number of bytes after seeking to any offset '
  'gives exactly the corresponding slice. The size reported for the file is the length of the stream.',
  ['inputs', 'histories'], 'every list of chunks, every fanout level sequence, every seek offset and read size',
  'tests use one or two shapes of chunk tree; offsets inside nested subtrees, at chunk edges and past the '
  'end need shapes nobody writes by hand',
  [L + 'hashsplit.py', L + 'vfs.py'],
  [('chunk tree building', 'lib/bup/hashsplit.py split_to_shalist, _squish, _make_shalist'),
   ('random access reading', 'lib/bup/vfs.py _tree_chunks, _ChunkReader, _FileReader')],
  ['hashsplit.split_to_blob_or_tree', 'vfs file handles: seek, read, size'])

p('C03', 'Variable-length integers and records decode to what was encoded',
  'Reading back any encoded integer, byte string or record of them yields exactly the original values and '
  'consumes exactly the encoded bytes, for integers of every magnitude and sign. Input that ends in the '
  'middle of an item is reported as an end-of-file error, never returned as a value. Negative values are '
  'rejected where only unsigned ones can be represented.',
  ['inputs'], 'every integer, every byte string, every record layout',
  'tests encode a handful of values; widths at which the C encoder and the Python one take over, and '
  'truncations, are not sampled',
  [L + 'vint.py', L + '_helpers.c'],
  [('encoders', 'lib/bup/vint.py encode_vuint, encode_vint; lib/bup/_helpers.c vuint_encode, vint_encode'),
   ('decoders', 'lib/bup/vint.py read_vuint, read_vint, read_bvec, skip_bvec, recv')],
  ['vint.pack / vint.unpack', 'vint.read_* on a stream'])

p('C04', 'Stored file metadata decodes to the metadata that was captured',
  'Encoding a file\'s metadata and decoding it yields the same file type, permissions, ownership, device, '
  'size, times to the nanosecond (before and after 1970), symlink target, hard link target, ACLs and '
  'extended attributes. Concatenated records decode one after another, each consuming exactly its own '
  'bytes, and records of unknown kinds are skipped without disturbing the rest. Two metadata values '
  'compare equal exactly when all the recorded attributes agree.',
  ['inputs', 'histories'], 'every combination of attribute values and presence, every concatenation of '
  'records, every unknown record',
  'tests capture metadata of a few real files; negative times, huge ids, empty attributes and unknown '
  'records do not occur in them',
  [L + 'metadata.py', L + 'xstat.py', L + 'vint.py'],
  [('record codecs', 'lib/bup/metadata.py Metadata.encode/read and the _encode_*/_load_* methods'),
   ('time conversion', 'lib/bup/xstat.py')],
  ['Metadata.encode, Metadata.read, Metadata.__eq__'])

p('C05', 'The index never treats a changed file as unchanged',
  'After a file has been recorded in the index and validated with an object id, it is considered up to '
  'date only while its size, device, inode, link count, modification and status change times are all what was '
  'recorded; any difference marks it, and every directory above it, for saving again, and a file that was '
  'first recorded when it had only just changed never counts as up to date. Index entries written to disk read back with the same values, in the same order, and '
  'every path added to an index is found again, with no other path.',
  ['inputs', 'histories'], 'every stat result, every prior entry, every sequence of index updates and merges',
  'tests touch a few files; a change in only one recorded field, times right at the margin, values that '
  'need clamping and names that are prefixes of each other are not covered',
  [L + 'index.py', L + 'cmd/index.py'],
  [('staleness', 'lib/bup/index.py Entry.stale, Entry.update_from_stat, Entry.validate'),
   ('serialisation', 'lib/bup/index.py Entry.packed, ExistingEntry.__init__, Writer, Reader')],
  ['index Entry.stale / is_valid', 'Reader.iter / Reader.find'])

p('C06', 'File names and tree objects survive storage unambiguously',
  'Every file name mangled for storage demangles to the same name and kind, so that a directory, a plain '
  'file and a file stored in chunks with related names can never be confused. Encoding a list of tree '
  'entries and decoding the tree object returns the same modes, names and ids, and the encoded order is the '
  'one git requires, with directories compared as if their names ended in a slash.',
  ['inputs'], 'every name (including ones ending in .bup or .bupl), every file mode, every set of entries',
  'tests mangle a few names; adversarial suffixes and names that sort differently as files and as '
  'directories are not sampled',
  [L + 'git.py', L + 'tree.py'],
  [('name mangling', 'lib/bup/git.py mangle_name, demangle_name'),
   ('tree codec', 'lib/bup/git.py tree_encode, tree_iter, shalist_item_sort_key')],
  ['git.mangle_name / git.demangle_name', 'git.tree_encode / git.tree_iter'])

p('C07', 'Objects written to a pack read back unchanged and are indexed correctly',
  'Each object written to a pack is stored under the id git would compute for its type and content, and '
  'reading it back at the offset recorded in the index gives the same type and content. The pack header '
  'states the number of objects actually in it, its trailing checksum and the index\'s checksums are '
  'right, and an object already present is not written twice. The configured pack size and object '
  'count limits are respected.',
  ['inputs', 'histories'], 'every object type, every content length, every sequence of writes',
  'tests write small packs; the variable-length size header changes form at particular lengths, and limits, '
  'duplicates and 64-bit offsets need special histories',
  [L + 'git.py'],
  [('object header', 'lib/bup/git.py _encode_packobj, _decode_packobj'),
   ('pack writer', 'lib/bup/git.py PackWriter, LocalPackStore'),
   ('index writer', 'lib/bup/git.py PackIdxV2Writer; lib/bup/_helpers.c bup_write_idx')],
  ['pack and idx files on disk', 'git.PackWriter'])

p('C08', 'A pack index finds exactly the objects it lists',
  'Looking up an object id in a pack index, of either version, finds it if and only if it is listed, and '
  'gives the offset that was recorded for it, including offsets beyond 31 bits. Iterating gives all the '
  'listed ids in order.',
  ['inputs'], 'every set of ids and offsets, every id looked up',
  'tests look up a few ids of one small index; binary search edges, empty fanout ranges, first and last '
  'entries and large offsets need specific sets of ids',
  [L + 'git.py'],
  [('lookup', 'lib/bup/git.py PackIdx._idx_from_hash, find_offset, exists'),
   ('offsets', 'lib/bup/git.py PackIdxV2._oid_ofs_from_ofs32_ofs, PackIdxV1._ofs_from_idx')],
  ['PackIdx.find_offset, PackIdx.exists, iteration'])

p('C09', 'A merged index finds exactly the objects of the indexes it merges',
  'A midx built from any indexes contains every id of every one of them, in order, and nothing else, and a '
  'lookup in it succeeds if and only if the id is in one of the merged indexes, naming an index '
  'that really contains it.',
  ['inputs'], 'every collection of indexes (with duplicates, empty ones, skewed ids) and every id looked up',
  'tests merge a few random indexes; interpolation search and table splitting depend on the distribution of '
  'the ids',
  [L + 'midx.py', L + '_helpers.c', L + 'cmd/midx.py'],
  [('merge', 'lib/bup/_helpers.c bup_merge_into'),
   ('lookup', 'lib/bup/midx.py PackMidx.exists')],
  ['PackMidx.exists, iteration, len'])

p('C10', 'The bloom filter never denies an object that was added to it',
  'Once an object id has been added to a bloom filter, asking for it answers "maybe", for every '
  'number of hash functions and every filter size, after closing and reopening the file and after adding any '
  'other ids. No operation reads or writes outside the filter.',
  ['inputs', 'histories'], 'every id, every supported hash count and filter size, every sequence of additions',
  'tests add random ids to one or two sizes; bit extraction across byte boundaries differs for each '
  'hash count and size',
  [L + 'bloom.py', L + '_helpers.c'],
  [('bit positions', 'lib/bup/_helpers.c bloom_get_bit*/bloom_set_bit*, bloom_add, bloom_contains'),
   ('file handling', 'lib/bup/bloom.py BloomWriter, BloomReader')],
  ['BloomWriter.add_idx, BloomReader.exists'])

p('C11', 'Garbage collection keeps every reachable object',
  'Collecting garbage in a repository in which every referenced object is present leaves every object '
  'reachable from any ref readable with unchanged content, whatever else is in the packs and '
  'whatever the collection threshold, and also when it is interrupted at any step.',
  ['histories', 'crash_points', 'inputs'], 'every repository content, every distribution of live and dead '
  'objects over packs, every threshold, every interruption point',
  'tests collect a few small repositories to completion; deciding to delete a pack before its live objects '
  'are safely rewritten shows only for particular distributions and crash points',
  [L + 'gc.py', L + 'git.py'],
  [('marking', 'lib/bup/gc.py find_live_objects'), ('sweeping', 'lib/bup/gc.py sweep')],
  ['the set of objects readable after bup_gc'])

p('C12', 'Removal removes exactly the named saves and branches',
  'Removing saves from a branch leaves exactly the other saves of that branch, in the same order and with '
  'the same trees, authors, dates and messages; removing every save or the branch itself removes the '
  'ref; other refs are never changed. A ref is changed only if it still has the value it had when the '
  'removal was worked out, and a request that names something unknown or that cannot be removed changes '
  'nothing.',
  ['inputs', 'histories', 'schedules'], 'every history of saves, every subset to remove, every mix of requests, '
  'every concurrent ref update',
  'tests remove a few saves from short branches; the newest or oldest save, non-adjacent subsets and '
  'refs moved in between are not sampled together',
  [L + 'rm.py', L + 'git.py', L + 'commit.py'],
  [('filtering', 'lib/bup/rm.py filter_branch, append_commit, rm_saves'),
   ('selection', 'lib/bup/rm.py dead_items, bup_rm')],
  ['refs and commits after bup rm'])

p('C13', 'Pruning keeps exactly the saves its retention periods promise',
  'Pruning keeps every save inside the keep-all period and, of the saves that no earlier kind of period covers, '
  'exactly one, the newest, for each calendar day, month and year (of one year, month or day of that year) inside the '
  'daily, monthly and yearly period, and removes all others; a save that is newer than its child is kept, with '
  'everything before it, as documented. Saves on other branches are unaffected. Each save gets exactly one '
  'verdict, and with no period given nothing is removed.',
  ['inputs'], 'every list of save times, every combination of keep periods, every time zone',
  'tests use random saves over a limited time range checked by a similar algorithm; same-numbered days or '
  'months in different years and period edges need chosen times',
  [L + 'cmd/prune_older.py', L + 'helpers.py'],
  [('classification', 'lib/bup/cmd/prune_older.py classify_saves, bup_prune...'),
   ('periods', 'lib/bup/helpers.py period_as_secs')],
  ['prune_older.classify_saves'])

p('C14', 'Extraction never writes outside its target directory',
  'Restoring or extracting any archive or repository content creates, changes and removes things only below the '
  'requested target directory (and the directory itself): in a metadata archive, absolute names are made relative to the target, names with a '
  '".." component are refused, and symlinks that the archive itself creates do not redirect its other entries; '
  'in a repository, names that contain a slash or are "." or ".." and directories whose metadata is not a directory\'s '
  'cannot redirect what restore (or mget) writes. Metadata is not applied through a symlink. Symlinks that were '
  'already in the target directory are the user\'s own and not covered for metadata archives.',
  ['inputs'], 'every path name and link that a metadata stream or tree can contain',
  'tests try a few dangerous names; the filters must hold for every combination of dots, slashes, '
  'repeated separators and links',
  [L + 'metadata.py', L + 'cmd/restore.py', L + 'cmd/ftp.py'],
  [('path checks', 'lib/bup/metadata.py _risky_path, _clean_up_extract_path, _clean_up_path_for_archive'),
   ('extraction', 'lib/bup/metadata.py start_extract, finish_extract, extract, _set_up_path, Metadata.create_path, Metadata.apply_to_path'),
   ('restore', 'lib/bup/cmd/restore.py restore; lib/bup/cmd/ftp.py present_interface')],
  ['every file, directory and link around the target directory'])

p('C15', 'Stripping and grafting map each path to the right place',
  'With strip paths or grafts given, each saved path is mapped by removing the longest strip prefix that covers it, or '
  'by replacing the old path of the first graft that covers it, '
  'where a prefix matches only whole path components, and paths under no prefix keep their own name. The '
  'components produced spell exactly the mapped path, and each is associated with the real '
  'directory its metadata must come from.',
  ['inputs'], 'every path, every set of strip prefixes and graft pairs',
  'tests map a few paths; prefixes that end inside a component, nested prefixes and characters special to '
  'regular expressions are not sampled',
  [L + 'helpers.py'],
  [('mapping', 'lib/bup/helpers.py path_components, stripped_path_components, grafted_path_components')],
  ['the returned component lists'])

p('C16', 'Files are replaced and refs moved only after the new data is complete',
  'A file that is updated atomically holds, at every instant and after a failure at any step, either the '
  'complete old content or the complete new content, and no temporary file is left behind after an orderly '
  'failure. A pack is given its final name only after its data, trailer and checksum are written, an '
  'index appears only after the pack it describes, and a ref is moved only after everything it '
  'refers to has been finished.',
  ['crash_points', 'schedules', 'inputs'], 'every failing system call and every crash point in the sequence of '
  'file operations',
  'tests do not fail individual system calls, and a wrong order is invisible unless the crash falls between '
  'two particular operations',
  [L + 'helpers.py', L + 'git.py', L + 'cmd/save.py', L + 'cmd/split.py'],
  [('atomic replacement', 'lib/bup/helpers.py atomically_replaced_file'),
   ('pack completion', 'lib/bup/git.py LocalPackStore.finish_pack')],
  ['the sequence of write, sync, rename and ref update operations'])

p('C17', 'Quoting a word and splitting the line gives the word back',
  'Quoting any list of words for the interactive shell and splitting the resulting line returns exactly '
  'those words, and splitting any line reports each word at the position where it starts in the line. '
  'Completing a partly typed word adds text that makes the line split into the completed words.',
  ['inputs'], 'every list of words over every character (blanks, quotes, backslashes), every line',
  'tests quote a few words; combinations of quotes and backslashes are not enumerated',
  [L + 'shquote.py', L + 'helpers.py'],
  [('splitting', 'lib/bup/shquote.py quotesplit'), ('quoting', 'lib/bup/shquote.py quotify, what_to_add')],
  ['shquote.quotesplit(shquote.quotify_list(words))'])

p('C18', 'What one end of the remote protocol writes, the other end reads',
  'Every directory item, path resolution and error sent over the remote protocol is received with exactly '
  'the same type, metadata, ids, names and error details, consuming exactly the bytes sent. Bytes sent '
  'through the multiplexed connection arrive complete and in order on the channel they were sent on, '
  'however reads and packets are cut, and line reading returns whole lines.',
  ['inputs', 'schedules'], 'every item and error value, every payload, every division into packets and reads',
  'tests send a few items over a well-behaved pipe; short reads in the middle of a header and absent optional '
  'fields are not sampled',
  [L + 'protocol.py', L + 'helpers.py'],
  [('item codec', 'lib/bup/protocol.py read_item, write_item, read_resolution, write_resolution, '
    'read_ioerror, write_ioerror'),
   ('multiplexing', 'lib/bup/helpers.py mux, DemuxConn')],
  ['values returned by the read functions', 'DemuxConn.read / readline'])

p('C19', 'Remote URLs parse and render consistently',
  'Rendering a parsed repository URL and parsing the result gives the same scheme, user, host, port and '
  'path, for every URL value that can be rendered, including paths and user names with reserved '
  'characters (a leading "/./" denotes a path relative to the home directory, and a host that spells an '
  'address denotes that address); malformed ports or hosts are rejected rather than silently changed.',
  ['inputs'], 'every URL value and every URL text',
  'tests parse a table of examples; escapes and reserved characters in each component are not enumerated',
  [L + 'url.py'],
  [('parse', 'lib/bup/url.py parse_path_oriented_url'), ('render', 'lib/bup/url.py render_url')],
  ['url.parse_path_oriented_url(url.render_url(u))'])

p('C20', 'Every save and every directory entry has a distinct, resolvable name',
  'The names under which the saves of a branch are listed are all different, whatever commit times they '
  'have, and each leads to its own save. The abbreviated names given to the pieces of a split directory '
  'are unique, each greater than every entry in the pieces before, and reading the pieces back gives '
  'all the entries of the directory, each exactly once, with its own object and metadata. Save names '
  'that are accepted are valid branch names for git.',
  ['inputs'], 'every list of commit times, every list of sorted entry names, every split into pieces',
  'tests use few saves and small directories; equal times, shared prefixes and piece edges are not enumerated',
  [L + 'vfs.py', L + 'tree.py'],
  [('save names', 'lib/bup/vfs.py save_names_for_commit_utcs, _reverse_suffix_duplicates'),
   ('split trees', 'lib/bup/tree.py _abbreviate_tree_names, Stack._write_split_tree; '
    'lib/bup/vfs.py _split_subtree_items')],
  ['names listed for a branch', 'entries of a directory read through the VFS'])

p('C21', 'Commits parse back to what was written',
  'Creating a commit from a tree, parents, author, committer, dates with time zones and a message, and '
  'parsing it, returns exactly those values, including zone offsets that are negative or not whole hours '
  '(names hold no NUL, newline or angle bracket, dates are not before 1970). '
  'Parsing a commit that carries a signature keeps the message and other fields intact.',
  ['inputs'], 'every parent list, name, date, offset and message',
  'tests parse a few commits; offsets, empty messages and signature blocks are not enumerated',
  [L + 'commit.py'],
  [('create', 'lib/bup/commit.py create_commit_blob, _git_date_str'),
   ('parse', 'lib/bup/commit.py parse_commit, parse_tz_offset, parse_commit_gpgsig')],
  ['commit.parse_commit(commit.create_commit_blob(...))'])

p('C22', 'Merging sorted streams and reducing path lists lose nothing',
  'Merging any sorted streams yields every distinct element of every stream, in order, with the element of '
  'the preferred stream when several are equal. Reducing a list of paths keeps a path out only if one '
  'of its parent directories is kept, and every path given is still covered.',
  ['inputs'], 'every number and content of sorted streams, every list of paths',
  'tests merge a few small lists; ties across many streams and paths that are string prefixes but not '
  'directory prefixes of each other are not enumerated',
  [L + 'helpers.py', L + 'index.py'],
  [('merge', 'lib/bup/helpers.py merge_iter'), ('reduce', 'lib/bup/index.py reduce_paths')],
  ['helpers.merge_iter, index.reduce_paths'])

p('C23', 'Sparse writing reproduces the data exactly',
  'Writing any data sparsely, in any division into buffers and with any minimum hole length of at least one, produces a file '
  'that reads back as exactly that data with exactly its length, including leading, trailing and '
  'all-zero regions.',
  ['inputs', 'histories'], 'every content, every division into buffers, every minimum hole length',
  'tests write some random patterns; zero runs that cross buffer edges at exactly the threshold are not '
  'enumerated',
  [L + '_helpers.c', L + 'cmd/restore.py'],
  [('sparse writer', 'lib/bup/_helpers.c bup_write_sparsely')],
  ['the file written by restore --sparse'])

p('C24', 'The hard link database always tells which paths share an inode',
  'After any sequence of adding, moving and removing paths, the database lists for each device and inode '
  'exactly the paths last recorded for it, and each path under one inode only. What is saved and '
  'loaded again is the same, and nothing is changed on disk when a save is abandoned.',
  ['histories'], 'every sequence of operations',
  'tests perform one short sequence; re-adding a known path, moving it to another inode and removing the '
  'last path need longer histories',
  [L + 'hlinkdb.py'],
  [('operations', 'lib/bup/hlinkdb.py HLinkDB.add_path, change_path, del_path, node_paths')],
  ['HLinkDB.node_paths'])

p('C25', 'Sizes, periods and exclusion rules mean what the user wrote',
  'A size or number with a unit suffix is read as the documented multiple (a fraction is rounded toward zero), a retention period as '
  'the documented number of seconds, and anything malformed is rejected. An exclusion file excludes '
  'exactly the paths its lines name: blank lines exclude nothing and names, without the white space around the line, are taken literally.',
  ['inputs'], 'every argument text, every exclusion file content',
  'tests parse a table of examples; rounding of fractions, blanks in names and every suffix are not '
  'enumerated',
  [L + 'helpers.py'],
  [('numbers', 'lib/bup/helpers.py parse_num, period_as_secs'),
   ('exclusions', 'lib/bup/helpers.py parse_excludes, parse_rx_excludes, should_rx_exclude_path')],
  ['the parsed values'])

if __name__ == '__main__':
    with open(V + '/properties.jsonl', 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
