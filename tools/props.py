T_SYNC = ['resync/client.py', 'resync/resource_list.py', 'resync/resource_list_builder.py', 'resync/mapper.py']

prop('C01', 'Baseline sync makes the destination equal to the source list',
 "After a baseline sync with deletion enabled ends without error, every resource in the source list exists at its mapped local path with exactly the bytes served and, where a last-modified time is given, that file time in whole seconds, files already equal to their listing are left untouched, and no unlisted file remains under the mapped paths. "
 "Where every listing gives a time and describes the bytes served, an audit then reports in sync and a repeated sync transfers nothing. "
 "The same/created/updated/deleted numbers reported before and after are exactly the true partition.",
 ['inputs', 'configurations', 'histories'],
 "every combination, for up to 3 resources at different directory depths, of absent/present/length-differs/content-differs/time-differs on both sides, of listed attributes (time, fractional time, length, none), list packaging (explicit, default name, index of lists, local path or http), one or two mappings and deletion flag",
 "The tests run a few fixed trees, mostly with mocked or local sources and never re-audit the result; convergence is quantified over all pairs of source list and destination tree.",
 T_SYNC,
 [('compare lists', 'resync/resource_list.py compare()'), ('apply plan', 'resync/client.py baseline_or_audit()'), ('GET, set time', 'resync/client.py update_resource()'), ('destination scan', 'resync/resource_list_builder.py from_disk()')],
 'exhaustive enumeration of source/destination states; real client on scratch tree + in-process HTTP source, against a reference model',
 note='Every world in the stated product is run on the real code; bounded by 2-3 resources per world. Trusts the in-process HTTP source and the reference model of the documented equality rule.',
 observe=['destination tree', 'requests seen by source', 'status lines'])

prop('C02', 'Audit and dry run change nothing',
 "An audit, or a baseline or incremental sync in dry-run mode, never creates, modifies or removes any file or directory and never changes the remembered sync state, whatever the source lists and whatever other options are given. "
 "It downloads documents only, never a resource. "
 "The plan it reports is the one the real run would carry out.",
 ['inputs', 'configurations', 'histories'],
 "all worlds of C01 and all change lists of C06 (small ones) crossed with mode audit / dry baseline / dry incremental, deletion, authority and failure options",
 "Tests look at log output of single dry runs; they do not check that directories and state file stay untouched in every mode and world.",
 ['resync/client.py', 'resync/client_state.py'],
 [('dry-run guards', 'resync/client.py update_resource(), delete_resource(), incremental(), baseline_or_audit()')],
 'exhaustive enumeration of worlds x modes with an effect monitor (audit hook) on the real client',
 note='Any file system effect is seen by an interpreter-level monitor as well as by comparing trees before and after.')

prop('C03', 'Files are deleted only when deletion is enabled and the source dropped them',
 "A sync removes a local file only when deletion was enabled for that run, and then only files under the mapped paths that the source list does not list (baseline) or whose latest applicable change in the change list is a deletion (incremental). "
 "Every other file and its content, and every symbolic link that the scan leaves out, survives, including in runs that abort at any point. "
 "With deletion disabled the run still applies all creations and updates and reports how many deletions remain to be done.",
 ['inputs', 'configurations', 'histories', 'fault_sequences'],
 "all combinations of listed/unlisted/outside files, all change sequences of length up to 3 over 2 URIs, deletion on/off, every failing request position",
 "Tests delete one known file; which files survive is quantified over all lists, change sequences and aborts.",
 ['resync/client.py', 'resync/resource_container.py', 'resync/change_list.py'],
 [('delete guard', 'resync/client.py delete_resource()'), ('last change wins', 'resync/resource_container.py prune_dupes()')],
 'exhaustive enumeration of worlds, change sequences and fault positions on the real client',
 note='Reference model of which file may disappear; removal events observed by the effect monitor.')

prop('C04', 'A sync touches only files inside the mapped destination trees',
 "Whatever resource URIs the source documents contain, including dot segments, doubled slashes, encoded characters, prefixes of other mappings and odd hosts, a sync creates, modifies and removes files only inside the destination directory of the mapping for that URI, apart from its own state file. "
 "A URI that no mapping covers, or whose path would leave the destination directory, makes the run stop with an error or leaves it unapplied, never a file elsewhere. "
 "A sync whose source is a local path equal to, inside or containing its destination directory is refused before anything changes, while one between merely similarly named directories is not.",
 ['inputs', 'configurations'],
 "all URIs of up to 4 segments over an alphabet of hostile segments (.., ., empty, encoded, prefix look-alikes, other mapping), for baseline and incremental, created/updated/deleted, one and two mappings; all pairs of source/destination local paths over a small path alphabet",
 "Tests map a handful of well-formed URIs and check unsafe() on a few pairs; containment is quantified over every URI a source could send.",
 ['resync/mapper.py', 'resync/client.py'],
 [('URI to path', 'resync/mapper.py Map.src_to_dst()'), ('overlap test', 'resync/mapper.py Map.unsafe()')],
 'exhaustive enumeration of a URI grammar on the real client; every file system effect monitored',
 note='Runs as an unprivileged user with an audit hook that refuses and records any effect outside the scratch tree.')

prop('C05', 'Documents without authority over a listed URI change nothing',
 "Unless authority checking is switched off, a baseline or incremental sync (with default or explicitly named change list) whose list mentions any URI that the document has no authority over stops with an error before any local file or state changes. "
 "Authority means same scheme, same port and same host or a sub-domain of it and, in strict mode, also a path at or below the document's directory after resolution of dot segments (plain or percent encoded), compared at path component boundaries. "
 "When all URIs are covered, or checking is off, authority never stops a sync; a list told to check authority over its component files refuses them, unread, in the same way.",
 ['inputs', 'configurations'],
 "all pairs of document URI and resource URI over small alphabets of scheme, host label sequence, port and path segments, strict on/off; and all positions of one foreign URI in a list for baseline, incremental, explicit change list and each flag",
 "Tests check some fixed pairs and only the baseline path.",
 ['resync/url_authority.py', 'resync/client.py'],
 [('authority relation', 'resync/url_authority.py has_authority_over()'), ('enforcement', 'resync/client.py baseline_or_audit(), incremental()')],
 'exhaustive enumeration of URI pairs against a relational specification, and of foreign-URI positions on the real client',
 note='Specification of authority written from the documentation; pairs enumerated completely over the alphabets.')

prop('C06', 'Baseline then incremental syncs track every source history',
 "For every sequence of source changes (create, update, delete, re-create, several at the same second), starting from an initial baseline sync, whenever an incremental or baseline sync with deletion enabled completes, the destination holds exactly the source's current resources and contents. "
 "This holds for any interleaving of changes and syncs, whether change times are given as change datetime or (in version 1.0) as last-modified time, and whether or not the list repeats changes already applied. "
 "An incremental sync with an explicit start time applies the net effect of exactly the changes at or after that time.",
 ['histories', 'configurations'],
 "all histories of up to 5 to 6 (quick) or 7 (thorough) events over 2 URIs: create/update/delete with or without clock advance, baseline, incremental; both spec versions; stray local files; growing change list; plus all explicit start times",
 "Tests apply single fixed change lists; convergence is a property of all histories and in particular of histories with repeats at the boundary second.",
 ['resync/client.py', 'resync/change_list.py', 'resync/resource_container.py', 'resync/client_state.py'],
 [('start point', 'resync/client_state.py'), ('filter old changes', 'resync/change_list.py prune_updates_before()'), ('net effect', 'resync/resource_container.py prune_dupes()'), ('apply', 'resync/client.py incremental()')],
 'explicit-state breadth-first exploration of source/client histories, each transition executed by the real client',
 note='States merged on canonical (source, change list, destination, remembered time); clock values abstracted relative to the latest.')

prop('C07', 'The remembered time never skips a change that was not applied',
 "The time remembered for a source changes only when a baseline or incremental sync completes, and then becomes the latest change (or last-modified) time it has taken from that source's documents: never a local file time, and never later than a change whose download failed. "
 "A run that stops with an error, an audit or a dry run leaves it as it was. "
 "Consequently, after any failure followed by a successful incremental sync, the destination equals the source.",
 ['histories', 'fault_sequences', 'configurations'],
 "all worlds with up to 3 changes x every subset/position of failing downloads x ignoring failures or not x stray local files with later times x previous remembered time; then a healthy incremental",
 "Tests assert the remembered time after one successful baseline; faults in between and local file times are never combined.",
 ['resync/client.py', 'resync/client_state.py'],
 [('last_timestamp', 'resync/client.py'), ('set_state', 'resync/client_state.py')],
 'exhaustive fault-position exploration of the real client with recovery run',
 note='Faults injected at every request position by the in-process source.')

prop('C08', 'Download failures are retried, reported and counted as configured',
 "A resource download that times out is attempted again until it succeeds or the configured number of tries is used up; other failures are not retried. "
 "When a download finally fails, the run stops with an error, or, if failures are to be ignored, every other resource is still processed and the run completes. "
 "The reported created and updated numbers equal the downloads that succeeded, and a failed or short download never leaves a file that a later audit with length or digest information accepts as in sync.",
 ['fault_sequences', 'configurations'],
 "all fault sequences (ok, timeout on open, timeout while reading at each block, connection error, 404, short body) of length up to tries+1 for up to 3 resources, tries 1..3, ignoring failures or not, baseline and incremental",
 "Tests simulate one always-timing-out server; sequences such as timeout, partial body, success and mixes over resources are not reached.",
 ['resync/client.py', 'resync/url_or_file_open.py'],
 [('retry loop', 'resync/client.py update_resource()')],
 'exhaustive enumeration of fault sequences (stateless search with fault choice at each request)',
 note='Every request of the real client asks the explorer which fault to deliver.', level='fault_enumeration')

prop('C09', 'A killed sync is repaired by the next run',
 "If the client is killed at any point of a baseline or incremental sync, then running the same sync again (for incremental: with the state left behind) completes and leaves the destination equal to the source. "
 "At no kill point does an audit report in sync although some local file's content differs from the source (listings giving times and lengths), and no file outside the mapped paths and the state file is left damaged. "
 "The state file is always readable after a kill.",
 ['crash_points', 'histories'],
 "every file system effect of the run (open/truncate, each write with torn prefixes, time setting, unlink, mkdir, rename), for baseline and incremental worlds of up to 3 resources with creations, updates and deletions",
 "No test kills the client.",
 ['resync/client.py', 'resync/client_state.py'],
 [('order of effects', 'resync/client.py update_resource(), baseline_or_audit(), incremental()'), ('state write', 'resync/client_state.py set_state()')],
 'crash-point enumeration: real client run in a child killed at every effect (torn writes included), then recovery run and comparison',
 note='Process-kill model: completed system calls persist, user-space buffers are lost, a write may persist any prefix of a tested set.', level='fault_enumeration')

prop('C10', 'Remembered sync state is exact, per source, and survives crashes and races',
 "For every sequence of storing, replacing, clearing and reading remembered times for several sources, reading a source returns exactly the value last stored for it, or nothing if none or cleared, independent of other sources. "
 "If a store is killed at any point, afterwards every other source still reads its value and the source being stored reads either its old or its new value; the same holds if a file system call fails, which is an error unless the new value is stored. "
 "Two clients storing at the same time never leave the state unreadable nor a source with a value that was never stored for it.",
 ['histories', 'crash_points', 'fault_sequences', 'schedules'],
 "all operation sequences up to depth 4 (quick) / 5 over 3 sources with odd names and boundary values; all kill points with torn writes of a store, and every file system call failing, on all small states; all interleavings at file-operation granularity of two concurrent stores/reads",
 "Tests do one set and get.",
 ['resync/client_state.py'],
 [('store', 'resync/client_state.py set_state()'), ('read', 'resync/client_state.py get_state()')],
 'explicit-state exploration of operation sequences, crash-point enumeration, and interleaving exploration of the real code',
 note='Interleavings at the granularity of file operations (open, read, write, close, rename), two processes simulated as scheduled threads.')

prop('C11', 'The source list is found by the documented order of places',
 "An explicitly named list is used, and only that; otherwise an explicitly named capability list, and only that; otherwise the first usable of: the description at the base location, the description at the host root, the default-named list at the base, the sitemap at the base, the sitemap at the host root. "
 "A place that cannot be read falls through to the next, while a description that is readable but offers none or several capability lists, or a capability list without a resource list, stops the run with an error. "
 "Relative references inside the documents are resolved against the document that contains them, and the same holds for local file sources.",
 ['configurations', 'inputs'],
 "every combination of state (missing, broken, wrong kind, usable, ambiguous, dead end) of the places, explicit options, relative or absolute references, base with or without trailing path, http and local sources",
 "Tests fix a few combinations; there are thousands.",
 ['resync/client.py', 'resync/source_description.py', 'resync/capability_list.py'],
 [('find_resource_list', 'resync/client.py')],
 'exhaustive enumeration of place-state combinations on the real client against a reference decision procedure',
 note='Reference procedure written from the documented seven steps; which list was used is observed by marker entries.')

prop('C12', 'Content digests requested for a sync detect changes times and lengths miss',
 "When digest comparison is requested and the source supplies a requested digest for a resource, a local file whose content differs is detected and replaced even if its time and length match, and a file whose content matches is left alone. "
 "Requested digest types that the source never supplies are ignored rather than failing or causing transfers. "
 "This holds for baseline, audit and incremental runs and any mix of requested and supplied types.",
 ['inputs', 'configurations'],
 "all subsets of requested digests x all subsets supplied per resource (2 resources) x content same/differs with equal time and length x audit, baseline, incremental",
 "Tests compute digests of fixed files; no test syncs with digests where they are decisive.",
 ['resync/client.py', 'resync/resource.py', 'resync/hashes.py', 'resync/resource_list.py'],
 [('prune_hashes', 'resync/client.py'), ('compare', 'resync/resource.py equal()')],
 'exhaustive enumeration of digest subsets on the real client',
 note='Complete over the 8 requested x 8x8 supplied subsets.')

prop('D01', 'Comparing two resource lists yields the exact partition',
 "Comparing a destination list with a source list returns four lists (same, updated, deleted, created) such that every URI of either list appears in exactly one of them: in both and equal, in both and unequal, only in the destination, only in the source. "
 "Updated and created entries carry the source's data, same and deleted the destination's, and neither input is modified. "
 "This holds for both storage classes, any insertion order, and for a list compared with itself.",
 ['inputs'],
 "all pairs of lists over up to 4 URIs (prefix-related, unicode) with per-URI equal/unequal variants, all insertion orders for both storage classes",
 "Tests compare five fixed pairs.",
 ['resync/resource_list.py'],
 [('merge', 'resync/resource_list.py compare(), sorted_iter()')],
 'exhaustive enumeration of list pairs against set-theoretic specification',
 note='Complete over the stated alphabets.')

prop('D02', 'Two descriptions are equal exactly when nothing proves them different',
 "Two resource descriptions are equal exactly when their URIs are equal, both or neither have a time and the times differ by less than one second, and no digest type or length given on both sides differs. "
 "The relation is symmetric and every description equals itself; an explicit tolerance replaces the one second.",
 ['inputs'],
 "all pairs of descriptions over 2 URIs, times None/0/t/t+0.5/t+0.999/t+1/t+2, length None/0/1/2, each of three digests None/a/b",
 "Tests check some pairs; falsy values (0) and mixed presence are the interesting corners.",
 ['resync/resource.py'],
 [('equal', 'resync/resource.py equal(), __eq__()')],
 'exhaustive enumeration of attribute pairs against the specification',
 note='Complete over the alphabets.')

prop('D03', 'Documents survive being written and read back',
 "Writing any document the library can represent (resource list, change list, dumps and their manifests, archives, capability list, source description, or an index of these) and reading it back yields the same type, metadata and links, and the same entries in the same order with all attributes the format carries, including markup characters and non-ASCII text in any of them. "
 "This holds for compact and pretty output, to a string or to a file, under every locale the file is written in; writing the result again yields identical text. "
 "Version 1.0 output omits the change datetime and carries it as last-modified time when there is none.",
 ['inputs', 'configurations'],
 "all document types x pretty/compact x versions x add-lastmod x every attribute singly and in pairs, over values with markup and unicode, x 0..2 entries x metadata and link variants",
 "Tests round-trip a few examples and mostly compare to fixed strings.",
 ['resync/sitemap.py', 'resync/list_base.py', 'resync/resource.py', 'resync/resource_container.py'],
 [('serialise', 'resync/sitemap.py resources_as_xml()'), ('parse', 'resync/sitemap.py parse_xml()')],
 'exhaustive enumeration of document values; write-read-write on the real code',
 note='Complete over pairs of attribute values.')

prop('D04', 'Malformed or mistyped documents are rejected, and the rest read exactly',
 "A document is rejected when its root is neither kind, its kind is not the one demanded, it has more than one top-level metadata element, metadata or links after the first entry, an entry without exactly one non-empty location, more than one last-modified or metadata element in an entry, a bad change type, length or priority, a link without target or relation, or its capability is not the one demanded. "
 "Only a resource list may omit the capability. "
 "Everything else is accepted, unknown elements and attributes are ignored, and exactly the entries present are returned in document order.",
 ['inputs'],
 "all sequences of up to 4 (quick) / 5 top-level elements from an alphabet of 9 and of entry children up to 3/4 from an alphabet of 10, both root kinds, all demanded kinds and capabilities",
 "Tests have a dozen malformed samples.",
 ['resync/sitemap.py'],
 [('parse_xml', 'resync/sitemap.py'), ('md_from_etree, ln_from_etree', 'resync/sitemap.py')],
 'exhaustive enumeration of a document grammar against a reference acceptor',
 note='Reference acceptor written from the documented rules.')

prop('D05', 'Splitting a large list into several files loses and duplicates nothing',
 "A list written with a limit of m entries per file produces one file if it has at most m entries, and otherwise an index naming ceil(n/m) files, each holding at most m entries and valid by itself, which together hold every entry exactly once in order; index entries carry the true digest of each file and the files link back to the index. "
 "Reading the index back gives the original list with its metadata and links, for every list type that supports it, and writing changes nothing in the list. "
 "If splitting is disabled the write (or read) fails instead of dropping entries, and producing part k as a string gives the same entries as file k.",
 ['inputs', 'configurations'],
 "all n in 0..12, m in 1..6 and unlimited, for each list type and storage class, written from list, dict, iterator with and without count",
 "Tests use one or two sizes; off-by-one faults sit at the boundaries n=m, n=km, m=1.",
 ['resync/list_base_with_index.py', 'resync/list_base.py'],
 [('chunking', 'resync/list_base_with_index.py get_resources_chunk(), write(), as_xml_part()'), ('read index', 'resync/list_base_with_index.py read()')],
 'exhaustive enumeration of sizes, limits and list types on the real code with read-back',
 note='Complete for n<=12, m<=6.')

prop('D06', 'Interrupted writing never yields a document that reads back short',
 "If the process is killed at any point while writing a single document, a multi-file list or a dump to new names, then whatever is found under those names afterwards either cannot be read (missing or malformed) or reads back complete. "
 "In particular an index never becomes readable before all the files it names are complete. "
 "The same holds if any file system call of the writer fails, and then the writer fails too unless everything was written.",
 ['crash_points', 'fault_sequences'],
 "every file system effect with torn prefixes of each write, and every file system call made to fail, for single documents, split lists of up to 4 parts and dumps of up to 3 packages",
 "No test kills a writer or fills the disk.",
 ['resync/list_base_with_index.py', 'resync/list_base.py', 'resync/dump.py'],
 [('index written last', 'resync/list_base_with_index.py write()')],
 'crash-point and fault enumeration on the real writers followed by read-back',
 note='Process-kill model as C09.', level='fault_enumeration')

prop('D07', 'Pruning a change list keeps exactly the net changes',
 "Removing changes before a time keeps, in order, exactly the changes at or after it and returns the number removed. "
 "Removing duplicates keeps exactly the last change of each URI in order of those last changes, except that a URI whose remaining changes start with its creation and end with its deletion disappears altogether, and returns the number removed. "
 "Replaying the pruned list on the starting state gives the same result as replaying the full list.",
 ['inputs', 'histories'],
 "all change sequences up to length 5 (quick) / 6 over 2-3 URIs and 3 change types, with all non-decreasing times from 3 values, both version rules",
 "Tests have three example lists.",
 ['resync/resource_container.py', 'resync/change_list.py'],
 [('prune_dupes', 'resync/resource_container.py'), ('prune_updates_before', 'resync/change_list.py')],
 'exhaustive enumeration of change sequences against a replay specification',
 note='Complete over the alphabets and lengths.')

prop('D08', 'Containers behave as ordered sets, lists and link tables',
 "Under every sequence of operations, resource lists, capability lists and source descriptions hold at most one entry per URI (adding again is refused and changes nothing unless replacement is asked for), change lists keep every entry in order and refuse entries without a change type, and iteration gives URI order, insertion order or canonical capability order as documented. "
 "Any number of iterations over the same container may be in progress at once without disturbing each other. "
 "Setting a link keeps one link per relation and changes only that one, and metadata setters and getters agree.",
 ['histories', 'schedules'],
 "all operation sequences (add, replace, iterate, start/advance one of two iterators, link set/add) up to depth 4 (quick) / 6 over 3 URIs for each container class",
 "Tests call each operation once or twice; interleaved iterators and refused operations in sequences are not covered.",
 ['resync/resource_list.py', 'resync/resource_set.py', 'resync/capability_list.py', 'resync/change_list.py', 'resync/resource_container.py', 'resync/resource.py', 'resync/source_description.py'],
 [('containers', 'resync/resource_list.py, resync/resource_set.py, resync/capability_list.py'), ('links', 'resync/resource_container.py link_set(), resync/resource.py link_set()')],
 'explicit-state exploration of operation sequences, each step compared with an abstract container model',
 note='Model and implementation step together; every model trace is replayed on the implementation.')

prop('M01', 'URI-path mapping is literal, component-wise and reversible',
 "A mapping applies to a URI exactly when the URI equals the source prefix or continues it at a slash, taken literally character by character, and symmetrically for paths; the first applicable mapping in order wins, and no applicable mapping is an error. "
 "Mapping a URI to a path and back through the same mapping returns the original, whatever characters are in either, and trailing slashes in the configuration make no difference. "
 "The default path made from a remote URI is a non-empty relative name without path separators or leading dots for every URI with a usable host.",
 ['inputs', 'configurations'],
 "all URIs/paths over segment alphabets containing regex metacharacters, newline, percent and unicode, against all lists of up to 2 mappings over the same alphabet; all mapping argument strings of the three documented forms",
 "Tests map plain examples only.",
 ['resync/mapper.py'],
 [('Map', 'resync/mapper.py src_to_dst(), dst_to_src()'), ('Mapper', 'resync/mapper.py parse(), path_from_uri()')],
 'exhaustive enumeration of mapping/URI pairs against a string-prefix specification',
 note='Complete over the alphabets.')

prop('T01', 'Datetimes are parsed strictly and written reversibly',
 "Every datetime in one of the six W3C forms with a valid date and time denotes that instant in UTC, and every other string, in particular one with missing zone, out-of-range field or trailing characters, is refused with an error. "
 "Writing any time to the microsecond and reading it back returns the same time to the microsecond, and order is preserved.",
 ['inputs'],
 "all combinations of field boundary values (years, months, days incl. leap days, hours, minutes, seconds, fractions, zones) in all forms and all single-character deletions/insertions/replacements of valid forms; all times from a grid of seconds x microseconds",
 "Tests check a list of examples.",
 ['resync/w3c_datetime.py'],
 [('str_to_datetime', 'resync/w3c_datetime.py'), ('datetime_to_str', 'resync/w3c_datetime.py')],
 'exhaustive enumeration of a datetime grammar and its one-edit neighbourhood against an independent calendar computation',
 note='Oracle is integer civil-calendar arithmetic independent of the date libraries used.')

prop('B01', 'Scanning the disk lists exactly the files there',
 "Building a list from disk gives exactly one entry for every regular file under the given or mapped paths, with its mapped URI, its modification time, and length, local path and digests when asked for, all equal to the file's own. "
 "Files whose name matches an exclude pattern at its start, everything below directories that do, and symbolic links are left out, and nothing else is. "
 "The scan modifies nothing.",
 ['inputs', 'configurations'],
 "all trees over 2 directory levels with up to 4 files drawn from an alphabet of names (dots, spaces, unicode, regex characters), kinds (file, symlink, dangling symlink, empty file, directory symlink), all exclude pattern subsets, options and explicit paths",
 "Tests scan two fixed directories.",
 ['resync/resource_list_builder.py', 'resync/hashes.py'],
 [('from_disk', 'resync/resource_list_builder.py')],
 'exhaustive enumeration of small trees and options; real scan compared with reference walk',
 note='Reference walk is independent of the implementation.')

prop('B02', 'Digests are the true digests for any size and block size',
 "For every file content and every set of requested digest types, the computed digests equal the standard MD5, SHA-1 and SHA-256 of the whole content, types not requested are absent, and unknown types are refused. "
 "A digest string with any subset of known types in any order is read back into the same values, and duplicated, unknown or missing types are reported while the known first ones are kept.",
 ['inputs', 'configurations'],
 "all lengths around multiples of the block size for several block sizes, all subsets of types, repeated use of one object for several files; all digest strings of up to 3 parts from an alphabet of 6",
 "Tests hash two tiny files; blocks after the first are never exercised.",
 ['resync/hashes.py', 'resync/resource.py'],
 [('compute_for_file', 'resync/hashes.py'), ('hash setter', 'resync/resource.py')],
 'exhaustive enumeration of boundary lengths, type subsets and digest strings',
 note='Oracle: hashlib on the whole content in one call.')

prop('B03', 'Published lists describe the tree they were made from',
 "The builder tool's resource list for a directory tree, served as written and synced by a client, reproduces that tree; its change list between a reference list and the tree (or a second list) names exactly the created, updated and deleted resources, and applying it to a copy in the reference state gives the new state. "
 "The written document on standard output (not in verbose mode) or in the file is a single well-formed document with the requested capability and links and nothing else. "
 "An empty change list lists nothing.",
 ['inputs', 'configurations', 'histories'],
 "all pairs of trees over 2-3 files with per-file absent/old/new variants, output to stdout or file, with/without second reference list, links, splitting limits, empty option; capability list and description output over all subsets",
 "Tests compare some output lines for fixed trees.",
 ['resync/client.py', 'resync-build', 'resync/resource_list_builder.py', 'resync/change_list.py'],
 [('write_resource_list, write_change_list', 'resync/client.py'), ('script', 'resync-build')],
 'exhaustive enumeration of tree pairs, running the real build script then the real client on its output',
 note='End-to-end: tool output is consumed by the client and compared with the tree.')

prop('Z01', 'Dump packages contain every resource once, within limits, as the manifest says',
 "Writing a dump puts every resource in exactly one package, in order; every package respects the limit on the number of files and is closed as soon as its content reaches the size limit; each package contains a manifest that is readable and lists exactly its resources, each at a distinct relative path inside the package under which the package holds that file's exact bytes. "
 "Resource file directories of any shape, including names that are prefixes of one another and files directly at the top, give valid paths, the same with separate manifests, and the resources keep their own local paths. "
 "A resource without a file, larger than the limit, or whose size contradicts its listing stops the dump with an error.",
 ['inputs', 'configurations'],
 "all sets of up to 4 files from a path alphabet with shared prefixes and depths and sizes 0..3, max files 1..5, max size around the sums, compress on/off, separate manifests on/off",
 "Tests write two dumps of two files.",
 ['resync/dump.py', 'resync/resource_dump_manifest.py'],
 [('partition_dumps', 'resync/dump.py'), ('archive_path, check_files', 'resync/dump.py'), ('write_zip', 'resync/dump.py')],
 'exhaustive enumeration of file sets and limits; packages reopened and compared byte by byte',
 note='Complete over the alphabets.')

prop('W01', 'Every web request carries the configured identity and pace',
 "Every request the library makes, of any kind and for documents and resources alike, carries the library's user agent, carries the access token exactly when one is configured, uses the asked-for method and timeout, and goes to exactly the URI given. "
 "When a delay is configured, every web request after the first request is preceded by that delay, and local file access never waits. "
 "Local paths without a scheme are read as files, exactly as named.",
 ['histories', 'configurations'],
 "all sequences of up to 4 requests over {http, https, file, plain path} x method x timeout x token changes x delay changes between them; and a full sync and exploration with token and delay",
 "Tests make two or three requests.",
 ['resync/url_or_file_open.py', 'resync/client.py', 'resync/explorer.py'],
 [('url_or_file_open', 'resync/url_or_file_open.py')],
 'exhaustive enumeration of request/configuration sequences on the real code with a recording source',
 note='Time is virtual: sleeps are recorded, not waited for.')

prop('E01', 'The explorer shows and follows exactly what documents offer',
 "Whatever keys the user types, the explorer keeps a history like a browser: a number offered leads to the document or resource listed under it (relative references resolved against the current document), back returns to the previous one, quit or the end of input ends, anything else asks again, and no input or unreadable document ends the session with an error. "
 "For a capability document every entry (the first 20 of one with more than 21) is offered, in document order, together with its up and index links, and following a leaf resource issues only a header request for it; nothing local is ever modified. "
 "The kind of each document and its number of entries are shown, with a warning exactly for documents and entries of a kind that does not belong there, and header values are marked as matching or differing from what was listed.",
 ['histories', 'inputs'],
 "all key sequences up to length 4 (quick) / 6 over {0,1,2,b,q,junk} on a small web of linked documents including broken, missing and relative ones",
 "Tests feed one fixed answer.",
 ['resync/explorer.py'],
 [('explore loop', 'resync/explorer.py explore(), explore_uri()'), ('options', 'resync/explorer.py explore_show_summary()')],
 'explicit-state exploration of key sequences against a browser-history model',
 note='Requests seen by the source determine where the explorer is.')

prop('X01', 'Command line options have their documented effect on the run',
 "For every combination of documented options, the sync and build tools start the mode asked for exactly once with each option's documented effect (mappings, explicit list names, deletion, dry run, authority, failure handling, tries, timeout, digests, token, delay, version, limits, links), options not given keep their defaults, excluded names are neither deleted nor downloaded, and contradictory or missing modes are refused. "
 "Numbers and times given as option values are used as given at any magnitude, different spellings of an option are equivalent, and a link or capability argument is parsed into exactly its parts or refused with an error. "
 "Expected failures end with an error message instead of a traceback.",
 ['configurations', 'inputs'],
 "all pairs of options (quick) / triples (thorough) with each mode; all link and capability strings up to 4 parts over a small alphabet",
 "Tests run the scripts a few times with single options.",
 ['resync-sync', 'resync-build', 'resync/client_utils.py'],
 [('main', 'resync-sync, resync-build'), ('parse_link', 'resync/client_utils.py'), ('shared options', 'resync/client_utils.py process_shared_misc_options()')],
 'exhaustive pairwise/triple enumeration of options through the real scripts, effects observed at the source and destination',
 note='Effects, not internal flags, are compared with a reference.')

prop('R01', 'A client object used before behaves like a new one',
 "After any earlier runs with the same client object (audits, baseline, incremental and dry runs, list writing; completed, refused or stopped by an error; with other contents offered), a further run does exactly what a new client object with the same settings would do from the same local files and remembered state. "
 "This covers the resulting files, the remembered state, the requests made, the documents written, and the errors, warnings and status reported.",
 ['histories', 'configurations', 'fault_sequences'],
 "all sequences of 2 steps over 8 operations x 8 versions of the source (with and without digests, missing resource, no documents, deletions, foreign URI, timeouts) and of 3 (thorough: 3 full, 4 reduced) over a part of them, for digest settings and ignoring failures or not",
 "Tests make a new client for each run; what a run leaves behind in the object shows only in sequences.",
 ['resync/client.py', 'resync/client_state.py'],
 [('settings and per-run variables', 'resync/client.py Client.__init__(), baseline_or_audit(), incremental(), prune_hashes()')],
 'exhaustive enumeration of run sequences on one client object, compared with a fresh client after every sequence',
 note='The reference is the implementation itself with a new object, started from identical files.')

prop('N01', 'A list in several files is used whole or not at all',
 "When a source list or reference list is an index of several files, a run uses exactly the entries of all the files, in order, or, if any file (or the index) cannot be fetched completely, is malformed, is itself an index, is a document of another kind, or repeats a resource of the list, ends with an error before any local file, directory or remembered state changes and before any resource is requested. "
 "With multi-file lists disabled every index is refused in the same way. "
 "An index of no files is an empty list.",
 ['inputs', 'fault_sequences', 'configurations'],
 "every combination of 17 states of the first file and 10 (thorough: 17) of the others for lists of 0 to 3 files, states of the index, http, https, local or mapped to local, explicit or default name, for audit, baseline, dry run, incremental sync and reference lists",
 "Tests read complete fixed indexes; a partial list combined with deletion is the costly case and never appears.",
 ['resync/list_base_with_index.py', 'resync/client.py', 'resync/sitemap.py'],
 [('reading an index', 'resync/list_base_with_index.py read(), read_component_sitemap()')],
 'exhaustive enumeration of the states of all files of a list, on the real client',
 note='All or nothing is judged on files, requests and state.')

prop('L01', 'The log names exactly what was done and what did not match',
 "Every change carried out locally is logged as exactly one event that gives its URI, its kind of change and what the source listed about it, downloads in the order made, and nothing else is logged as an event: no planned, failed, dry-run or disabled change. "
 "Every downloaded body whose size or requested digest differs from what was listed is reported for its URI, and no other is; each message about a resource can be written and names its URI, whatever its characters.",
 ['inputs', 'configurations', 'fault_sequences'],
 "every combination for 2 to 3 resources of 14 fates (created, same, updated, deleted, missing, one or two timeouts, wrong listed length or digest, short body, ...) x kind of run x digests x ignoring failures",
 "Tests look for single log lines of fixed runs; the log as a record of what was done is a relation over whole runs.",
 ['resync/client.py', 'resync/resource.py'],
 [('log_event', 'resync/client.py log_event(), update_resource(), delete_resource(), check_hashes()')],
 'exhaustive enumeration of fates of resources on the real client; events compared with requests and files',
 note='Events are read back as values, the wording of other messages is not judged beyond URI and kind of mismatch.')

prop('P01', 'Parsing a document shows its kind and its entries and does nothing else',
 "Parsing any document, at a URI, at a local path or in the default place, makes at most the one request for it, changes nothing locally, and reports its capability and its number of entries. "
 "In verbose mode it also shows the entries in order, the first 100 or as many as the configured limit, and otherwise none. "
 "A document that cannot be fetched or is malformed ends with an error and shows nothing.",
 ['inputs', 'configurations', 'fault_sequences'],
 "14 capabilities x index or not x numbers of entries around all limits x limits x verbose x place; 12 ways of being unreadable",
 "Tests parse two documents.",
 ['resync/client.py', 'resync/sitemap.py'],
 [('parse_document', 'resync/client.py')],
 'exhaustive enumeration of documents and limits on the real client',
 note='Judges numbers, capability and URIs in the output, not its wording.')

prop('O01', 'Resource descriptions keep exactly the values given, and copies are independent',
 "After any sequence of setting attributes of a description, directly or as datetime or digest strings, every attribute reads back as last set in all its forms, attributes never set are absent, and a refused value (bad change type or datetime) changes nothing. "
 "A copy has all attributes of the original except those given explicitly, and no later change to the one, including its links, is visible in the other.",
 ['histories', 'inputs'],
 "all sequences of 3 (thorough: 4) operations over 33 settings, copying and switching between original and copy; all pairs of values given on creation, over a full, an empty or no original",
 "Tests set some attributes once.",
 ['resync/resource.py'],
 [('slots and extra attributes', 'resync/resource.py __setattr__(), _set_extra()'), ('copy', 'resync/resource.py __init__()')],
 'exhaustive enumeration of operation sequences, compared with attribute tables',
 note='Complete over the settings and depth.')

prop('F01', 'A failed local file operation in a sync is not hidden, the next run repairs it',
 "If any one file system call of a sync (open, read, write, set time, rename, delete or make directory), or all later ones of its kind, fails, the client does not end with an unexpected exception or damage unrelated files or the remembered times of other sources, and the counts it reports are those of what it really did. "
 "If it completes without error, nothing listed by the source is wrong except where failures are ignored or a deletion is warned about; the remembered time never hides something that was not done. "
 "An audit never reports in sync although local files differ, and the same sync run again without the failure leaves the destination equal to the source.",
 ['fault_sequences', 'histories'],
 "every file system call of the run x (I/O error, permission denied, disk full or read-only from then on, short write), for baseline and incremental worlds of up to 2 (thorough: 3) resources or changes, failures ignored or not",
 "No test makes a local file operation fail.",
 ['resync/client.py', 'resync/client_state.py'],
 [('local effects', 'resync/client.py update_resource(), delete_resource(), store_last_timestamp()'), ('state file', 'resync/client_state.py set_state(), get_state()')],
 'fault enumeration: every file system call of the real client made to fail by an interposed C library, outcome compared with the files, audit and recovery run',
 note='Listing directories and stat are not made to fail.', level='fault_enumeration')
