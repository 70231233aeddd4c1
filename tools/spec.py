#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/spec.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE, DB, MIG = 'pyulog/core.py', 'pyulog/db.py', 'pyulog/migrate_db.py'


def P(pid, title, statement, over, quant, why, files, mech, observe, technique, level, note,
      state=None, hook=None):
    return dict(id=pid, title=title, statement=statement, over=over, quant=quant, why=why,
                files=files, mech=mech, observe=observe, technique=technique, level=level,
                note=note, state=state or [], hook=hook)


EXPL, FAULT = 'exploration', 'fault_enumeration'

PROPS = [
P('C01', 'Every logged sample is decoded exactly once, bit-exact and in file order',
  'For every well-formed ULog file, each subscribed topic instance that has samples appears exactly once among the '
  'datasets and holds exactly the samples logged for it, in file order. Every field - scalar, array or nested, of any '
  'basic type, and wherever the timestamp field sits in the message - is present under its flattened name with its '
  'declared type and bit-exact value, and trailing padding (whether logged or omitted) is left out. Looking a dataset '
  'up by name and instance returns exactly that dataset, and fails with a lookup error when there is none.',
  ['inputs'],
  'all well-formed logs: any set of (nested) formats, field types, array sizes, instances, message ids, interleavings, '
  'late subscriptions and sample values',
  'The tests compare a parse of four sample logs with a second parse of the same code (write/read, save/load); no test '
  'compares decoded values with independent ground truth, and the samples contain a handful of formats.',
  [CORE], [('subscription expansion and per-topic accumulation', CORE), ('conversion into per-field arrays', CORE)],
  ['the dataset list and each dataset\'s name, instance, field list and arrays', 'dataset lookup'],
  'reference-model monitor: independent encoder/interpreter, parse of generated and sample logs observed through an '
  'instrumented file', EXPL,
  'Held on the generated and sample logs observed. Trusts the independent encoder and interpreter in vlib/; formats are '
  'bounded (nesting depth <= 3, arrays <= 12 in generated logs, samples up to a few thousand).'),
P('C02', 'Definitions and metadata are decoded completely and correctly',
  'For every well-formed ULog file, all information values, multi-part information lists, initial parameters, system '
  'and current-setup default parameters, parameter changes, message formats, logged and tagged messages, dropouts and '
  'the presence of default parameters and appended data are reported completely, with their logged values and in file '
  'order, whichever section of the file they were logged in. A repeated information key or initial/default parameter '
  'takes its last logged value, a continued multi-part item extends the previous list and any other starts a new one. '
  'Text is decoded as UTF-8; bytes that are not valid UTF-8 are dropped by default and are an error when strict string '
  'handling is requested.',
  ['inputs'], 'all well-formed logs, all value types, both string-handling modes',
  'Tests compare only a few real logs against the library itself; value types such as integer arrays, 64-bit values, '
  'interleaved multi-part keys and invalid UTF-8 never occur in them.',
  [CORE], [('definition section reader', CORE), ('data section reader', CORE), ('info/parameter record decoding', CORE)],
  ['the metadata properties of a parsed log'],
  'reference-model monitor over parses of generated and sample logs', EXPL,
  'Held on the logs observed; trusts the independent interpreter in vlib/. Default-parameter bits are limited to the two '
  'the format defines.'),
P('C03', 'Log times, parameter changes and dropouts carry the right timestamps',
  'For every well-formed ULog file the start time is the one in the header and the last time is the largest of the '
  'start time and all loaded sample timestamps. Every parameter change and every dropout is reported in file order, '
  'stamped with the largest such time reached before it in the file, and every logged or tagged message carries its own '
  'logged time and level. This holds for any timestamp order and for the full 64-bit range.',
  ['inputs', 'histories'], 'all interleavings of samples, parameter changes, dropouts and log messages; timestamps '
  'increasing, equal, decreasing, zero, and up to 2^64-1',
  'No test looks at these timestamps except through self-comparison of sample logs whose times are increasing and small.',
  [CORE], [('running last-timestamp tracking while reading the data section', CORE)],
  ['start/last timestamp', 'changed parameters', 'dropouts', 'logged messages'],
  'online trace oracle: time attribution recomputed from the generated event history', EXPL,
  'Held on the event histories observed; trusts the independent encoder.'),
P('C04', 'Loading selected topics or only the header returns the same data, only less',
  'Loading a log with a list of topic names yields exactly the datasets of those topics, identical to those of a full '
  'load, and the same information, parameters, formats, logged messages, dropout durations and parameter-change values; '
  'leaving topics out is never reported as file corruption and causes no warnings. Loading only the header yields '
  'exactly the definitions that precede the data section, with no samples, logged messages, dropouts or parameter '
  'changes.',
  ['inputs', 'configurations'], 'all logs and all filter lists (empty, partial, complete, unknown or overlapping names)',
  'Tests only load complete logs (one uses a single topic); the filter is otherwise exercised only by tools whose output '
  'is not checked.',
  [CORE], [('topic filter while subscribing', CORE), ('header-only loading', CORE)],
  ['datasets and metadata of filtered and header-only parses', 'corruption flag', 'standard output'],
  'differential monitor: filtered and header-only parses against the reference model of the same history', EXPL,
  'Held on the (log, filter) pairs observed. Times that depend on loaded samples are left to C03.'),
P('C05', 'A log cut off at any byte still yields everything logged before the cut',
  'For a well-formed log (without appended sections) cut off at any byte offset at or after the end of its file header, '
  'loading succeeds and reports exactly the samples, messages, parameters, information and other records that are '
  'complete before the cut: none is lost and nothing is made up from the incomplete one, and the cut log is not reported as corrupt. A file shorter than its header, '
  'or one that does not start as a ULog file, is rejected with an error.',
  ['crash_points', 'inputs'], 'every cut offset of every generated log (all offsets enumerated per log)',
  'No test parses a truncated log; power loss can cut a log at any of millions of offsets.',
  [CORE], [('end-of-file handling in both section readers', CORE)],
  ['everything a parsed log reports, per cut offset'],
  'crash-point enumeration: every truncation offset of generated logs, reference-model oracle', FAULT,
  'All offsets of each generated log are enumerated; the set of logs is sampled.'),
P('C06', 'Damage costs only the data between it and the next sync marker',
  'When zeros overwrite a range inside the data section of a well-formed log that carries sync markers, wiping at least '
  'one record header (the type byte included in every header it touches), or three or more zeros are inserted between '
  'two records, or a record header becomes one of an unknown type whose size (at most 10000 bytes, within the section) '
  'reaches over the next sync marker, loading succeeds, reports the file as corrupt, keeps every record that '
  'ends before the damage and every record after the first intact sync marker that follows it, and reports each of '
  'those exactly once and in order. A sample for an unknown subscription or of the wrong size is likewise reported as '
  'corruption and skipped without affecting any other record. A log without damage is never reported as corrupt.',
  ['inputs', 'fault_sequences'], 'all positions and lengths of one or several zeroed or inserted ranges, in logs with '
  'and without appended sections; unknown ids and wrong sample sizes',
  'No sample log in the tests is damaged and no test looks at the corruption flag.',
  [CORE], [('sync search', CORE), ('corruption check on unknown record headers', CORE)],
  ['everything a parsed log reports', 'corruption flag'],
  'fault injection into generated logs with a containment oracle over the surviving records', EXPL,
  'Held on the injected damage. The record torn by the start of the damage, and records between the damage and the next '
  'sync, are left unconstrained.'),
P('C07', 'Arbitrary damage never hangs loading and never invents or repeats samples',
  'For every byte string - in particular a log with arbitrary flipped, overwritten, removed, repeated or spliced bytes - '
  'loading ends, with a log or with an error, after an amount of reading bounded by the file length. If it returns a '
  'log, then in every dataset all fields have the same number of samples, and every sample equals the bytes of a data '
  'record that is really present in the file for that message id, no record being reported more than once.',
  ['inputs', 'fault_sequences'], 'arbitrary byte strings; mutations of well-formed logs',
  'Tests never feed damaged input; the space of damaged files is unbounded.',
  [CORE], [('record loop and byte-wise resynchronisation', CORE)],
  ['the reads and seeks made on the input', 'the datasets of whatever is returned'],
  'mutation fuzzing under an instrumented file with a logical-step budget, and a sample-provenance oracle over the raw '
  'bytes', EXPL,
  'Held on the mutants observed; termination is decided by counted reads (a generous multiple of the file length), not '
  'by wall clock. Array sizes in formats stay small.'),
P('C08', 'Unknown record types and flags are handled as the format promises',
  'Records of a type the library does not know (and topic-removal records) are skipped wherever they occur, whatever '
  'their payload (1 to 10000 bytes, not containing the sync marker): all other records are reported exactly as if the unknown ones were absent and the log is not reported '
  'as corrupt. Unknown compatible flags, a flags record with further bytes behind the known ones and newer file versions do not stop a log from being read in full, while any '
  'unknown incompatible flag makes loading fail with an error instead of returning data.',
  ['inputs', 'configurations'], 'all type bytes not defined by the format, payload sizes 1..10000, positions, flag bits '
  'and version numbers',
  'The sample logs contain no future record types or flags.',
  [CORE], [('fallback branch for unknown record types', CORE), ('flag record validation', CORE)],
  ['everything a parsed log reports', 'corruption flag', 'errors raised'],
  'differential monitor: log with unknown records/flags against the same log without them', EXPL,
  'Held on the logs observed. Payloads containing the sync byte sequence are excluded (they are a resynchronisation '
  'point by design).'),
P('C09', 'Data appended after an interrupted log is read completely and only once',
  'For a log with up to three appended sections, of which each preceding section may end in an incomplete record, '
  'loading reports the complete records of all sections in file order: the incomplete record before each appended '
  'section is dropped, no record is read twice or lost, and samples logged in an appended section for an earlier or '
  'renewed subscription are kept together with the earlier ones\' data rather than replacing it. The log says that it '
  'has appended data (also if all offsets in its flags are zero, that is, nothing was appended), and the interruption is '
  'not reported as corruption.',
  ['inputs', 'crash_points', 'histories'], 'every tear position of the last record before each appended section; any '
  'record types in appended sections',
  'One sample log has appended sections, with one tear position each and only information records in them.',
  [CORE], [('reading up to each appended offset and continuing there', CORE)],
  ['everything a parsed log reports'],
  'crash-point enumeration of the tear position with a reference-model oracle', FAULT,
  'All tear positions of the torn record are enumerated per generated log (sampled for large records).'),
P('C10', 'Writing a log back to ULog format preserves its contents',
  'Writing a loaded log to a file name or file object and loading the result yields an equal log: the same datasets with '
  'bit-identical values, fields, names, instances and ids, the same information, parameters, defaults, parameter '
  'changes, formats, logged and tagged messages, dropouts, flags, version and times; only sync records and the marking '
  'of appended sections are dropped. The bytes written are a well-formed ULog file that an independent reader decodes '
  'to the same contents, and a filtered log writes exactly the datasets it loaded. This holds for every undamaged log '
  'whose topics and messages are in time order.',
  ['inputs'], 'all well-formed logs with per-topic time-ordered data, all value types',
  'Tests write back three sample logs; unusual value types, 8-bit characters, array information, nested formats, equal '
  'timestamps and independent readers are not covered.',
  [CORE], [('record writers', CORE), ('time-ordered merge of the data section', CORE)],
  ['bytes written', 'the log loaded from them', 'log equality'],
  'round-trip monitor with an independent decoder of the bytes written', EXPL,
  'Held on the logs observed.'),
P('C11', 'Log equality means equal contents',
  'Two loads of the same bytes compare equal, whatever not-a-number values they contain, and an undamaged loaded log '
  'compares equal to itself read back from the database. Two logs that differ in any reported content - any sample '
  'value, field, dataset, instance, information or parameter value, parameter change, format, logged or tagged message, '
  'dropout, flag, version or time - compare unequal, in both directions; comparing with something that is not a log is '
  'never equal and raises nothing.',
  ['inputs'], 'all logs and all single-point differences between two logs',
  'One test changes one timestamp of one sample log.',
  [CORE, DB], [('log, dataset, format and message comparison', CORE), ('database log comparison', DB)],
  ['equality and inequality of logs and of their parts'],
  'metamorphic monitor: single-point mutations of generated logs', EXPL,
  'Held on the pairs observed; differences only in sync markers are not constrained.'),
P('C12', 'Loading is deterministic and logs are independent of each other',
  'What is loaded depends only on the file contents and the options: the same bytes given as file name, open file or '
  'in-memory file, loaded repeatedly, after, while or concurrently with other logs being loaded in the same process, '
  'give the same result. Loading, changing, writing or deleting one log object never changes what another log object '
  'reports, and a loaded log does not change while other logs are loaded.',
  ['schedules', 'histories', 'configurations'], 'all interleavings of several loads at read boundaries, threads, and '
  'orders of loads with different options',
  'Tests load one log at a time and never interleave loads.',
  [CORE], [('per-object parse state', CORE), ('process-wide string-error mode', CORE)],
  ['results of interleaved, repeated and concurrent loads'],
  'interleaving monitor: loads nested at read boundaries and in threads, results compared with isolated loads', EXPL,
  'Held on the interleavings observed. The process-wide string-handling mode is a recorded known finding.'),
P('C13', 'A log saved to the database is read back without loss',
  'A log loaded from a file, saved to a database and loaded from it in full reports the same contents: the same datasets '
  'with the same fields, order, types and bit-identical values, and the same information, parameters, defaults, '
  'parameter changes, formats, logged and tagged messages, dropouts, appended offsets, flags, version and times, and '
  'writing it gives an equal ULog file. This holds whatever other logs are in the database and in which order they were '
  'saved, with and without the JSON copy, and for logs given by file name or open file.',
  ['inputs', 'histories'], 'all undamaged logs with times below 2^63 and unique topic instances, several logs per '
  'database',
  'Tests save a few sample logs one at a time and compare with the library\'s own equality.',
  [DB, 'pyulog/sql'], [('row writers in save', DB), ('row readers in load', DB)],
  ['everything a database log reports', 'the ULog file written from it'],
  'round-trip monitor over an instrumented database connection with a reference-model oracle', EXPL,
  'Held on the logs observed. Numeric multi-part information and the corruption flag are recorded known findings.'),
P('C14', 'Lazy loading and caching of database logs are transparent',
  'For a log loaded lazily from the database, the dataset list names the same topics and instances as a full load but '
  'without samples, all other contents are the same, and fetching a dataset - in any order, any number of times, cached '
  'or uncached, lazily or not - returns the same samples and fields as a full load. A cached fetch returns the same '
  'object again, an uncached one returns a fresh object and changes nothing, an unknown topic or instance is a lookup '
  'error, and a lazily loaded log refuses to be written as a ULog file instead of writing one without data.',
  ['histories', 'inputs'], 'all sequences of dataset accesses on lazily and fully loaded logs',
  'Tests make one fixed access sequence on one sample log.',
  [DB], [('dataset cache', DB), ('lazy loading', DB)],
  ['datasets returned by each access', 'the dataset list after each access', 'SQL statements executed'],
  'model-based history monitor over access sequences', EXPL,
  'Held on the access sequences observed.'),
P('C15', 'Saving and deleting a log in the database is all-or-nothing',
  'If the process dies at any point, or any database or disk operation fails, while a log is being saved or deleted, the '
  'database afterwards holds either exactly its previous contents or exactly those of the completed operation, and '
  'passes its integrity and reference checks. An operation that raises an error has changed nothing; after a failed '
  'save the log counts as not saved and can be saved again once the fault is gone.',
  ['crash_points', 'fault_sequences'], 'every write-side system call of a save/delete (kill, torn write, I/O error, '
  'disk full), every SQL statement (error)',
  'Tests never interrupt or fail a save or delete.',
  [DB], [('single transaction per save and delete', DB)],
  ['full contents of the database file reopened after the fault', 'primary key of the log object'],
  'crash-point and fault enumeration by an I/O interposer (kill/torn/EIO/ENOSPC) and a faulting database connection', FAULT,
  'All I/O calls and statements of each sampled operation are enumerated. Models process death, not loss of un-synced '
  'page cache.'),
P('C16', 'The database holds each log once and every operation touches only its own log',
  'Over any sequence of saves, loads, lookups and deletes of several logs, the database holds exactly the logs saved and '
  'not deleted, each under its own key; saving contents that are already stored is an error that changes nothing, keys '
  'are never reused, a log is found by the SHA-256 of its file exactly while it is stored, and loading or deleting what '
  'is not stored, and making a log object from neither or both of a file and a key, is an error. Deleting a log removes every row that belongs to it and nothing that belongs to another '
  'log, and the logs that remain still load unchanged.',
  ['histories'], 'all operation sequences over several logs with overlapping contents, keys and topics',
  'Tests delete once from a database of two logs and compare file sizes.',
  [DB, 'pyulog/sql'], [('unique digest', DB), ('cascading deletes', 'pyulog/sql'), ('autoincrement keys', 'pyulog/sql')],
  ['results and errors of each operation', 'all rows of all tables'],
  'model-based history monitor with a row-ownership oracle over every table', EXPL,
  'Held on the histories observed.'),
P('C17', 'Concurrent use of one database never exposes a half-stored log',
  'When several threads or connections use one database at once, a load that overlaps the saving or deletion of that log '
  'either returns the complete log or fails with an error, and never returns a log with parts missing. Concurrent saves '
  'of the same contents leave exactly one copy, concurrent saves and deletes of different logs do not affect each '
  'other, and every save or delete that reports success has taken effect.',
  ['schedules'], 'all interleavings of one operation between any two database statements of another; thread schedules',
  'Tests use one connection at a time.',
  [DB], [('transactions around save, delete and load', DB), ('unique digest', 'pyulog/sql')],
  ['results of overlapping operations', 'database contents at quiescence'],
  'schedule enumeration at statement boundaries through an instrumented connection, plus a threaded stress run', EXPL,
  'Every statement boundary of the sampled operations is an interleaving point; thread schedules are sampled.'),
P('C18', 'Migrating a database keeps its data and leads to one schema',
  'Migrating a database of any earlier schema version, empty or filled, brings it to the current version with the same '
  'tables, columns, uniqueness and cascading references as a newly created one, and keeps every log in it: all its rows '
  'are still there with their values, and it can be loaded, deleted and joined by new logs. Migrating again changes '
  'nothing, a dry run changes nothing, a database not created by the tool is refused unchanged unless forced, one of '
  'a newer version is left as it is, one of a negative version is refused, and a '
  'database older than the library is refused on use until it is migrated.',
  ['configurations', 'histories', 'inputs'], 'every starting version 0-4 (and partial paths), all stored contents',
  'Tests migrate only empty databases from scratch.',
  [MIG, 'pyulog/sql', DB], [('migration scripts', 'pyulog/sql'), ('version check', DB)],
  ['schema and rows before and after migration', 'logs loaded afterwards', 'errors'],
  'differential monitor: databases populated under frozen historical schemas, migrated, compared row by row', EXPL,
  'Held on the databases observed; historical schemas are frozen copies in /verif.'),
P('C19', 'An interrupted or failing migration leaves a consistent, migratable database',
  'If the process dies, a disk operation fails or a migration script fails at any point of a migration, the database '
  'afterwards is exactly at one of the schema versions on the path: its recorded version matches its actual schema and '
  'all its rows are those of that version. Running the migration again (forced, if no version had been completed yet) '
  'then completes and gives the same result as an undisturbed migration.',
  ['crash_points', 'fault_sequences'], 'every write-side system call of a migration from every version (kill, torn '
  'write, I/O error, disk full); every failing script position',
  'Tests make one script fail at its first statement and look at the version only.',
  [MIG, 'pyulog/sql'], [('one transaction per script, including its version bump', MIG)],
  ['schema, version and rows of the database reopened after the fault'],
  'crash-point and fault enumeration by an I/O interposer, frozen per-version schemas as oracle', FAULT,
  'All I/O calls are enumerated per sampled database. Models process death, not loss of un-synced page cache.'),
P('C20', 'The JSON copy of a stored log carries the same data as the log',
  'A log saved with the JSON option stores for every field of every dataset valid JSON that maps each sample timestamp '
  'to that sample\'s value, in sample order: integers exactly, finite floating-point values to full precision, and '
  'not-a-number and both infinities as null. Saving with the option never fails because of sample values and stores '
  'everything else exactly as saving without it.',
  ['inputs'], 'all logs whose topics have distinct timestamps; all sample values including infinities',
  'One test on one sample log with approximate comparison and without negative infinity.',
  [DB], [('JSON text generation in save', DB)],
  ['the JSON column read with an independent JSON parser', 'all other columns'],
  'reference-model monitor over the stored JSON', EXPL,
  'Held on the logs observed.'),
P('C21', 'CSV export contains exactly the loaded samples',
  'Exporting a log to CSV writes one file per dataset, named after the topic and instance, whose header lists the '
  'timestamp first and then every non-padding field in log order, and whose rows are exactly the samples inside the '
  'requested time window, in order. Numbers read back from the file equal the logged values exactly, character arrays '
  'appear as one column with the text up to the first zero byte, every row has as many cells as the header for any '
  'single-character delimiter that cannot be part of a number or field name, and a topic selection exports just the selected topics. A window that lies before or '
  'after all samples of some topic exports no rows for it, respectively all or none, and is not an error.',
  ['inputs', 'configurations'], 'all logs with per-topic increasing times, windows, delimiters and topic selections',
  'The only test runs the tool on one sample without looking at the output (and does not run here).',
  ['pyulog/ulog2csv.py'], [('column selection, windowing and row output', 'pyulog/ulog2csv.py')],
  ['files written'],
  'output-file monitor: independent CSV reader against the reference model', EXPL,
  'Held on the exports observed. Topic names without "/" collisions.'),
P('C22', 'Extracting one topic returns exactly its samples in the window',
  'Extracting a topic by name returns one record per sample of its first instance (number 0) with a time in the requested window, '
  'in order; every record has all fields of the topic, timestamp first and the others in log order, with the logged '
  'values. A window starting after or ending after the last sample is not an error, and an unknown topic (including '
  'one whose name merely contains or is contained in a logged one), a topic of which only other instances have samples, '
  'or a topic given as something other than text is an attribute error.',
  ['inputs', 'configurations'], 'all logs, topics and windows',
  'One test runs it on one topic and ignores the result.',
  ['pyulog/extract_message.py'], [('windowing and record building', 'pyulog/extract_message.py')],
  ['the records returned', 'errors raised'],
  'reference-model monitor over extraction results', EXPL, 'Held on the extractions observed.'),
P('C23', 'Parameter export lists every parameter with its exact values',
  'The parameter tool prints every initial parameter exactly once, sorted by name, with its value and - in CSV and Octave '
  'format unless only initial values are requested - all later changes of that parameter in log order, with their times '
  'when asked for; the QGroundControl format gives each its value and type code. Numbers read back exactly; selecting '
  'system or current-setup defaults lists exactly the stored defaults instead and fails when the log has none; an '
  'unknown selection is an error. The '
  'output is the same on standard output and in a file.',
  ['inputs', 'configurations'], 'all logs and all combinations of the tool\'s options',
  'The only test runs the tool on two samples without looking at the output (and does not run here).',
  ['pyulog/params.py'], [('parameter formatting', 'pyulog/params.py')],
  ['text written to standard output and to files'],
  'output monitor: independent readers for the three formats against the reference model', EXPL,
  'Held on the runs observed.'),
P('C24', 'The info tool reports the true contents of a log',
  'The information tool reports the log\'s start time and duration, number, total, maximum and mean of dropouts, release '
  'version, every information value (performance ones only when verbose), every multi-part list (count, or contents when '
  'verbose or requested), and for every dataset its name, instance, sample size, number of samples and total bytes - all '
  'as logged - and warns exactly when the file is corrupt. Asking for one multi-part message prints all of its parts, '
  'and an unknown one is reported as not found.',
  ['inputs', 'configurations'], 'all logs and options',
  'Expected outputs are compared for a few sample logs (in a test that does not run here).',
  ['pyulog/info.py'], [('report formatting', 'pyulog/info.py')],
  ['standard output'],
  'output monitor: report parsed and compared with the reference model', EXPL, 'Held on the runs observed.'),
P('C25', 'The messages tool shows every message and event once, in time order',
  'The messages tool prints every (untagged) logged message exactly once with its time, level and text; for PX4 logs it merges them '
  'with the logged events in time order, leaves out messages that merely duplicate an event (marked by a trailing tab), '
  'and handles empty messages. Event extraction reports each event of the default group with an external-facing level '
  'exactly once, in log order, with its time, level name and the text built from its arguments, marks events without a '
  'definition as unknown, prefers definitions stored in the log over default ones and asks for the latter only when '
  'needed; failing to get definitions is not an error.',
  ['inputs', 'histories'], 'all message/event histories, levels and definition sources',
  'The tests need a library that is not available and cover one log.',
  ['pyulog/messages.py', 'pyulog/px4_events.py'], [('merge of messages and events', 'pyulog/messages.py'),
   ('event extraction', 'pyulog/px4_events.py')],
  ['standard output', 'list of events returned', 'calls to the definitions callback'],
  'trace monitor with a recording stand-in for the external event-definition parser', EXPL,
  'Held on the histories observed. The third-party event parser (absent here) is replaced by a recording stand-in.'),
P('C26', 'GPS dump extraction reproduces the raw byte streams',
  'Extracting the GPS communication writes, for the requested receiver instance, exactly the bytes logged as sent to the '
  'device to one file and exactly those received from it to the other, in log order and without gaps, padding or bytes '
  'of other instances. Logs without an instance field count as instance 0, a log without GPS communication or with an '
  'unsuitable format produces no files, and the output directory is honoured (a missing one is an error).',
  ['inputs', 'configurations'], 'all sequences of dump messages, lengths, directions, instances',
  'The only test is skipped.',
  ['pyulog/extract_gps_dump.py'], [('direction/length decoding and output', 'pyulog/extract_gps_dump.py')],
  ['files written'],
  'conservation monitor: bytes in equals bytes out per direction and instance', EXPL, 'Held on the dumps observed.'),
P('C27', 'The KML track contains the logged positions and nothing else',
  'The KML export draws, for each requested position topic, exactly those logged positions of its first instance that '
  'have a fix and are more than the minimum interval after the previously drawn one (the first: after time zero), in order and in degrees and metres '
  '(plus the altitude offset), whichever field naming and integer or floating representation the topic uses. The track '
  'is split where the logged flight mode changes, each part named after and coloured by its mode - for any mode number - '
  'and continuing from the shared point, and each camera trigger is a point with its sequence number; a missing '
  'position topic is a lookup error.',
  ['inputs', 'configurations'], 'all position/mode/trigger histories, field variants and options',
  'There are no tests of the KML export.',
  ['pyulog/ulog2kml.py'], [('position selection and scaling', 'pyulog/ulog2kml.py'), ('flight mode changes', CORE)],
  ['KML file written'],
  'output-file monitor: KML parsed by an independent XML reader against the reference model', EXPL,
  'Held on the exports observed; times are increasing.'),
P('C28', 'The ROS 2 bag contains every convertible message with its values',
  'The bag conversion writes, for every topic instance whose type is available, flat and matching, one message per '
  'sample, in order, under a topic name unique to that topic and instance, with every field and array element set to '
  'the logged value (booleans as booleans) and the sample time in nanoseconds. Topics whose type is unknown, nested or '
  'mismatching are skipped without affecting the others, the bag is closed, the reported totals are what was written, '
  'and a topic selection converts just those topics.',
  ['inputs', 'configurations'], 'all logs, topic/type inventories, selections and supported writer versions',
  'There are no tests of the bag conversion, and ROS 2 is not installed.',
  ['pyulog/ulog2ros2bag.py'], [('topic naming, type lookup and field copy', 'pyulog/ulog2ros2bag.py')],
  ['calls made on the bag writer'],
  'trace monitor with recording stand-ins for the ROS 2 modules', EXPL,
  'Held on the conversions observed. Integer fields of a message type are taken to have the width and signedness of '
  'the logged ones; colliding topic names are a recorded known finding. ROS 2 modules (absent here) are replaced by recording stand-ins that model the '
  'three supported interface generations.'),
P('C29', 'Roll, pitch and yaw describe the same rotation as the logged quaternion',
  'Adding attitude angles gives every instance of each attitude topic finite roll, pitch and yaw arrays (with the '
  'setpoint suffix where requested) with one value per sample, describing the same rotation as the logged unit '
  'quaternion within floating-point tolerance, with pitch within +-90 degrees and roll and yaw within +-180 degrees, '
  'also at gimbal lock; adding them again follows the quaternions then loaded. No other dataset, field or value changes, and logs without such topics are left alone.',
  ['inputs'], 'all unit quaternions as stored in single precision, including gimbal lock and sign changes',
  'The tests only check that the fields exist.',
  ['pyulog/px4.py'], [('quaternion to Euler conversion', 'pyulog/px4.py')],
  ['datasets before and after'],
  'numeric oracle: rotation matrices rebuilt from angles and quaternions compared', EXPL, 'Held on the quaternions '
  'observed; the tolerance grows to 5e-3 at gimbal lock (single precision arithmetic).'),
P('C30', 'Derived values follow from the logged contents',
  'The list of value changes of a field starts with the first sample with a non-zero time and contains exactly those '
  'later samples, among the ones with non-zero time, whose value differs from the preceding one. The release version '
  'tuple and text, the vehicle type, the estimator and the RC channel mapping follow from the logged information and '
  'parameters as documented, and are absent or "unknown" when those are, and log levels map to their names.',
  ['inputs'], 'all sample histories, version words, parameter sets and levels',
  'No test covers these queries apart from the version text of the sample logs.',
  [CORE, 'pyulog/px4.py'], [('value-change list and version decoding', CORE), ('PX4 lookups', 'pyulog/px4.py')],
  ['results of the queries'],
  'reference-model monitor over query results', EXPL, 'Held on the queries observed.'),
]


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['quant']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'state': p['state'],
                            'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': p['hook']},
            }) + '\n')
    claimed = [p for p in PROPS
               if os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py'))]
    manifest = {
        'version': 1,
        'setup_cmd': 'bash tools/setup.sh',
        'checks': [{
            'property': p['id'],
            'quick_cmd': f"bash run.sh {p['id']} quick",
            'thorough_cmd': f"bash run.sh {p['id']} thorough",
            'evidence_file': f"evidence/{p['id']}.json",
            'technique': p['technique'], 'level': p['level'], 'level_note': p['note'],
        } for p in claimed],
        'not_applicable': [{'property': p['id'], 'reason': 'check not built yet'}
                           for p in PROPS if p not in claimed],
        'notes': 'No hooks in /repo: the code is observed from outside through instrumented files, database '
                 'connections, an LD_PRELOAD I/O interposer and stand-in modules. PYULOG_REPO overrides the tree under '
                 'test (used only while developing the checks).',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
