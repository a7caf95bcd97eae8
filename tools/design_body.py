# per-property text of DESIGN.md: what is enumerated, oracle, bounds; the rest is taken from properties.jsonl and levels.json
B = {
'P01': '''Push of segments, history, backup-label and partial files runs once under the shim, which logs every mutating file-system call with its data. `fsmodel.py` replays every prefix of that log into three survivors: process crash (everything written stays), power loss (only fsynced data and directory entries) and power loss with all metadata but only synced data. In every survivor the archive is scanned: no file under a final name may be partial or different; after the success exit the segment must be complete in every repository in every later survivor. Then push is repeated on the survivor and must succeed. 24 configurations (sync/async, gz/zst/lz4, encrypted, 1-2 repositories).
Cost 20 s. Tests cannot: they look at one end state; here every crash point times survival rule is a state.''',
'P02': '''State = content of the archive of the repositories. Breadth-first search over the alphabet {push of segment x content a/b, by cluster a/b, history files, another repository missing a copy, duplicates planted}; every transition is executed by the real binary from a stored copy of the state and checked (stored content never changes, same content accepted, other content refused with rc 45, foreign cluster refused); runs to a fixpoint. A version x system-id matrix covers the cluster check. A third exploration takes every combination of stanza identities (right, other system id, other version) of several repositories x WAL header x cluster header x {sync, async, header check off}.''',
'P03': '''State = archiver position x spool status directory x contents of both repositories x fault flags. Transitions: archiver call, repository broken/repaired, queue limit reached, stanza stopped, status files of a previous run. Each transition is executed by the real foreground and background (async) processes; search to depth 5 (thorough 7) with states merged by a canonical form. Additionally every system call of one async push is killed or failed, followed by retries. Oracle: success only if every repository holds exactly that content or a drop warning was given; nothing in its way -> stored at first attempt.
Known finding `stale-ok-after-recreate` (see below).''',
'P04': '''Every combination of per-repository states of the segment {absent, good, damaged, truncated, duplicated, unreadable directory, wrong checksum, partial only} in one and two repositories x sync/async x storage form; every kill point of the background process filling the queue x following requests. Oracle: a reference function giving {content, not found, error} sets. Further, all histories to a fixed depth over {segment archived, removed from the archive, damaged, request of segment n, request with another queue size, stop/start} are executed with the real binary, requests being compared with the archive at the time of the call or of the fill.''',
'P05': '''Crash points as P01 for stanza-create/-upgrade, backup, expire, annotate; after each the info files are read by `info`/`check`-like commands and must show before or after. Damage: every byte of each copy flipped (and digits changed, each truncation length) in one copy (other must be used) or in both (command must fail).''',
'P06': '''Many files at once, each with its own word over the change alphabet {keep, modify, touch, grow, shrink, same-size, empty, delete, recreate, mode, ...}; so one history of backups tests all words of length <= 3. 33 backup histories over F/D/I x storage configurations {plain, compressions, encryption, bundle, block incremental, hardlink, delta}. Oracle: the saved tree of the cluster at each backup (content, type, mode, mtime, links). Exclusion rules x PostgreSQL versions (directories not copied, unlogged relations, temporary relations).''',
'P07': '''As P01 for full/diff/incr backups: at every crash state and after every failing operation all listed backups are restored and compared, and the next backup is taken and restored. ''',
'P08': '''Kill at every operation of a full backup x (one change of a cluster file | one damage of the partial backup | option change such as bundle/compress/encrypt switched) then the next backup is restored.''',
'P09': '''The shim stops the real backup at every open, read and stat of a cluster file and applies one of the changes {truncate, grow, modify, remove, replace} to this or another file; the backup must fail or restore to bytes matching the recorded size and checksum, verify clean.''',
'P10': '''Scripted PostgreSQL (fakepq in place of libpq, driven from Python). All patterns of segment states over the range of a backup x offsets at segment/log-file boundaries x check/copy options. Reference decides success, the WAL copied and the failure.''',
'P11': '''One restore over a destination with 105 files, each differing from the backup in its own way (product of presence, size, time, mode, content, type), plus directory/link states and restores of each backup over each other. Oracle: tree of a restore into an empty directory.''',
'P12': '''Crash points as P01 for restore; survivors are checked for "global/pg_control present => everything else complete and synced" and then restored again with --delta.''',
'P13': '''All states of data directory x tablespace x linked directory x linked file, x {none, delta, force}; then foreign objects (file, directory, link, pipe, socket ...) at 24 places singly and in pairs. Oracle: reference of refusal, destination untouched on refusal, surroundings never touched.''',
'P14': '''Every byte position (stride for large files), truncation, insertion, removal and pairwise exchange of every repository file a restore reads; success requires the exact tree.''',
'P15': '''All selections over 18 names/ids (look-alikes, ids as names, system databases, unknown, created during the backup); reference says which files are zeroed; whole trees compared.''',
'P16': '''All target values around each backup (time zones, LSN), all timeline-history graphs over 3 timelines x backups, all pairs (thorough: all combinations) of recovery options x PostgreSQL versions x destination states. Reference: own implementation of selection and of the recovery settings.''',
'P17': '''All histories over {full, diff, incr} up to length 6 (thorough 8) with upgrades, timeline switches, offline backups inserted at every position x retention settings. Reference model of the documented rules, written independently. The synthesised repositories are validated against the tool on each run (info/verify/restore accept them), and real backup histories are explored as well (model traces replayed). Interrupted (resumable) backups depending on an expired one and a clock long after the last backup are further dimensions.''',
'P18': '''Crash points and failing operations of expire; all listed backups restored, expire repeated to the same final state; dry run compared byte for byte.''',
'P19': '''Every repository file x {removed, truncated, altered, extended}; every subset of archived segments; every pair of states of info/manifest copies. Oracle: what was planted, and actual restores of each backup (verify must report a damaged backup as invalid, an intact one as valid). Two known findings whose repair the existing tests forbid.''',
'P20': '''lib/lockdrv.c drives the real lock code with a scheduler that stops each process at every file operation on a lock; all interleavings of 2 lockers (unbounded), 3 lockers and real command pairs (preemption bound 2-5). Oracle: never two holders, no lost lock.''',
'P21': '''All stop/start sequences to depth 3 x commands x topology (fake ssh), all interleavings of a forced stop and a starting command. Oracle: reference of what is allowed; after forced stop returned no command of the stanza may pass its lock.''',
'P22': '''lib/par.c links the real executor/client/server objects and enumerates in process every outcome assignment x completion order/grouping, and every sequence of session operations (6, thorough 8) on interleaved sessions. Real commands run with a controlled select() (order in which finished workers are noticed, depth first) and with one worker killed at each of its operations. Oracle: exact job-to-result mapping; no hang; error or exact result.''',
'P24': '''lib/filt.c: real filter code in process, every composition of the input into chunks and buffer sizes for every filter chain, read and write side. Oracle: independent codecs (zlib, lz4, bz2, zstd, openssl in the check) and the one-chunk run.''',
'P25': '''As P24 with every truncation length, each byte altered in three ways, and extensions. Oracle: error or the exact data.''',
'P26': '''lib/block.c: all sequences of 3 versions over files of up to 3-4 blocks x settings, rebuilt over every prior version; and through real backup/restore.''',
'P27': '''lib/pure.c: all boundary values in every textual/JSON/pack form, all strings of up to 3 special characters, all pairs of pack fields with gaps and truncations. Oracle: independent encoders and round trip; file names and annotations through the real commands.''',
'P28': '''lib/cfg.c calls the real configuration loader. For 28 options of all types every subset of sources; for all options x commands every source and pair; index groups; sizes/times; child process arguments re-loaded. Oracle: a reference of the documented precedence rules.''',
'P29': '''Reference model with cluster identity, stop flag, per-repository info, WAL and backups. Breadth-first over the model; each transition is executed on the real binary from stored real files and model and reality are compared (so the model is bound to the code by construction). Crash points of create, upgrade and delete.''',
'P31': '''All assignments of 8 page states to files of up to 3 pages x segments x page sizes; own implementation of the page checksum. All interruption points; the second read of an invalid page under a controlled scheduler.''',
'P32': '''Twin repositories (encrypted, not encrypted) over the same history; block-by-block search; wrong keys; secrets searched in all outputs, logs at every level, argv of children, files left, including every crash point of a command.''',
'P33': '''The real server on loopback. (1) 14 client certificates (built with openssl; names with NUL, other authority, expired, chained) x 12 authorisation lists x 7 stanzas x served/refused observed as listing returned and directory created. (2) All sequences of up to 3 (thorough 4) messages of 8 kinds, and all 3-message continuations of each opening, with a state-machine reference. (3) All ordered changes of 6 configurations with SIGHUP. (4) Client: 14 server certificates x 11 host names (RFC 6125 reference). (5) `lib/srvpre.c` (preload) makes children end, or SIGHUP arrive (once, twice), at the k-th library call of the main process for every k (quick: stride); oracle: still serving, the new configuration holds for each connection begun after the signal, at SIGTERM exactly the live children are signalled.''',
'P34': '''Every file operation of 30 command scenarios fails once (read side EIO, mutating ENOSPC or short write); result must be an error or equal the fault-free result (trees compared).''',
'P35': '''All combinations of link/tablespace mappings, fresh and delta; all pairs of 10 related destination paths. Reference placement function.''',
'P36': '''All sequences of 3 operations over two repositories; after each step info in all forms is compared with an independent scan of the repositories. All clock behaviours for labels.''',
'P37': '''All segment sizes x boundary positions x timelines against 128-bit arithmetic.''',
'P23': '''Scenarios of P34 plus trees with odd names, modes, times, sizes, links, unreadable and missing entries, with the repository (or the cluster) on another host: exit status, outputs, repository files, manifests and restored trees equal those of the same commands run locally. Then `lib/cutter.c`, standing in for ssh, cuts each connection of each scenario before, at, after and within every message in either direction (remote killed, or seeing the end of its input). Oracle: exact result or an error status (never a signal); stored objects whole; a repetition gives the exact result.''',
'P30': '''`lib/pgb/s3.py` is an S3 store over the files of a repository; it verifies signatures (own SigV4), content hashes, part numbers and sizes, upload ids and page tokens. `clouds.py` adds an Azure store (shared key and SAS signatures, block lists, batch deletes with signed parts) and a GCS store (JSON API, resumable uploads by byte range, md5 of the stored object, field selection, batch deletes). The scenarios of P34, and a removal of 300 objects with all kinds of names, run against each: without faults, for page sizes 1, 2, 3, 1000, ten forms of reply (chunked in n bytes, split, connection closed or lost after each reply) and store options (host style, prefetch, read-over, token, path, ...) outputs, objects and restored trees equal those of a local repository. Then every request of each scenario is answered with each of 38 faults (codes with and without the request performed, drops before/after, replies cut in the status line, headers, body; malformed XML, errors with status 200, partial deletes; persistent forms). Oracle: exact result or an error (never a signal), stored segments/backups whole, a transient failure is retried with success, repetition gives the exact result.''',
'P38': '''The store of P30 with versions. `packed`: all histories (write, delete, nothing at each of 3-5 moments; distinct and equal times) of one object and of pairs (one name a prefix of the other, nested) are placed side by side in one store; `repo-ls`, with and without `--recurse`, is compared for every target time and page sizes 1, 7, 1000 with the set computed from the histories (time, size), also through a repository host (histories of writes also on the Azure and GCS stores of P30, where the displayed time is a known finding). `reads`: repo-get of each. `real`: a history of stanza-create, pushes, backups, annotate, expire, overwritten and deleted objects is looked at at every second in it with info, repo-ls, archive-get, restore and verify, and each result must equal that of a local repository holding the objects of that time.''',
'P39': '''The real command against scripted servers (the stand-in of P10). `one`: archive_mode x archive-mode-check x archive_command x data_directory x version; all pairs of 11 stanza states (each info file missing, of another cluster, of an older generation, one copy damaged, upgraded, ...) of two repositories; all pairs of 8 fates of the switched segment (there, missing, late, only partial, other timeline, other archive id, twice, only its neighbours); both together for one repository (thorough: triples, products). `topo`: every assignment of primary, standby, unreachable, foreign primary, foreign standby to one or two (thorough three) servers x backup-standby x fate. `stanzas`: all tuples of up to three stanzas without --stanza. Oracle: the verdict follows from the states; segments are switched only where allowed; trees unchanged; a backup to each repository succeeds exactly when check approved (settings) .''',
'P40': '''The real commands. `ls`: 80 trees made from three slots (file, empty and nested directories, names that sort between them, names needing escapes in URLs, XML and JSON, links, specials) x every path argument (relative, absolute, trailing slash, missing, outside, doubled slash) x 15 filters x text/json x asc/desc/none x recursion, on a local repository, a repository host, S3, Azure and GCS (with and without a base path, small pages) and S3 behind a repository host; oracle: a reference listing in Python. Quick takes a fixed part (1/12 local, 1/36 others) of the product, thorough all. `rm`: every path argument x recursion on every tree; the whole tree is compared. `get`: contents of 12-16 sizes around the buffer sizes x buffer-size x raw/ignore-missing/stanza; missing and refused paths. `enc`: every file of real encrypted repositories (plain, bundled, block-incremental, compressed; archive, history, manifests, info files and their copies) against openssl with the passphrases read from the info files and manifests. `multi`: which of two repositories is listed and changed. Found: filter with --recurse, filter spanning paths, absolute repository path on object stores (all fixed), optional characters in filters (known, tests assert it).''',
}
