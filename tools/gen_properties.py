#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the property texts)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mech, observe_at=observe, hook_needed=False)))


p('P01', 'Acknowledged WAL is durable and never partial in the archive',
  'When archive-push of a WAL segment (or history file) returns success, every configured repository holds the complete segment, and '
  'keeps holding it after a process crash or power loss at any later moment. At no crash point does a file appear under its final '
  'name in the archive with incomplete or wrong content, and after any crash a repeated push of the same segment succeeds and leaves '
  'exactly one copy.',
  ['crash_points', 'configurations'],
  'every prefix of the file-system operations of a push x {process crash, power loss with only synced data, power loss with metadata '
  'ahead of data} x {plain, compressed, encrypted, two repositories, sync and async}',
  'Unit tests run the push to completion on a healthy file system and look at the final files; none stops between two operations or '
  'drops unsynced data.',
  ['src/command/archive/push/push.c', 'src/command/archive/push/file.c', 'src/storage/posix/write.c', 'src/storage/posix/storage.c'],
  ['write to temp name, fsync, rename, fsync of directory', 'status file written only after the copy returned'],
  ['exit status of archive-push', 'archive directory of each repository after the crash'])

p('P02', 'Archived WAL is never replaced; conflicting or foreign WAL is refused',
  'Once a WAL segment is in a repository no sequence of later pushes changes its content: pushing identical content '
  'again succeeds without storing a second copy, pushing different content under the same name fails. WAL from a cluster whose '
  'version or system identifier does not match the stanza is refused and nothing is stored.',
  ['histories', 'inputs', 'configurations'],
  'every push sequence up to depth 3 over an alphabet of segment names, kinds (full, partial, history), contents and source clusters, '
  'with one or two repositories in any agreement state',
  'Tests push a few hand-picked sequences; the outcome must hold for every order and for repositories that disagree.',
  ['src/command/archive/push/file.c', 'src/command/archive/push/push.c', 'src/command/archive/common.c'],
  ['checksum in the archived name', 'per-repository lookup of an existing segment before copying', 'header check'],
  ['exit status', 'set and bytes of archived files'])

p('P03', 'Async archive-push acknowledges exactly what was stored',
  'With asynchronous archiving, success is reported for a segment only if it is stored in all repositories, or if the queue limit '
  'forced it to be dropped and this is reported with a warning. A segment that could not be stored is reported as an error, and once '
  'the cause is gone a retry stores and acknowledges it; no segment is acknowledged because of another segment or a stale status.',
  ['histories', 'fault_sequences', 'configurations'],
  'every assignment of {stored ok, fails in one repository, already archived, duplicate with other content} to a queue of up to 3 '
  'ready segments, stale status files, queue limit on/off, and every operation-level fault of the async process',
  'Tests replay a handful of queues; error and status-file combinations multiply.',
  ['src/command/archive/push/push.c', 'src/command/archive/common.c', 'src/command/archive/push/file.c'],
  ['ok/error status files in the spool path', 'global error file', 'queue limit'],
  ['exit status of archive-push', 'repository content'])

p('P04', 'archive-get delivers the exact segment, or says not found, or fails',
  'archive-get never leaves a destination file whose content differs from the archived segment and never reports success without '
  'having delivered it. It reports "not found" only when no usable repository holds the segment, falls back to another repository when one '
  'is damaged or unreachable, and fails when the archive is ambiguous (two different copies) or nothing readable is left.',
  ['histories', 'configurations', 'fault_sequences'],
  'every combination of per-repository states of a segment {absent, present, damaged, ambiguous, repository damaged} for one and two '
  'repositories, sync and async, prefetched queue states, and operation faults',
  'Tests cover selected single-fault cases; the fallback rules are about combinations.',
  ['src/command/archive/get/get.c', 'src/command/archive/get/file.c', 'src/command/archive/common.c'],
  ['repository cache and fallback list', 'spool queue with status files', 'rename into place'],
  ['exit status', 'destination file bytes'])

p('P05', 'Info files survive crash and single-copy damage; damage is never silent',
  'At every crash point of a command that updates stanza information, the stanza stays readable and shows either the state before or '
  'the state after the update. Any damage to one of the two copies is detected and the other copy is used; when neither copy is '
  'usable the command fails instead of acting on wrong information.',
  ['crash_points', 'inputs'],
  'every crash point of stanza-create/upgrade, backup and expire; every single-byte change, truncation point and removal of either '
  'copy combined with states of the other',
  'Tests damage a file in a couple of ways; detection must hold for each byte and crash consistency for each operation prefix.',
  ['src/info/info.c', 'src/info/infoBackup.c', 'src/info/infoArchive.c', 'src/info/infoPg.c', 'src/storage/posix/write.c'],
  ['checksum in the file', 'main file and copy written in order with atomic rename', 'load falls back to copy'],
  ['exit status and output of info, backup, archive-push on the damaged repository'])

p('P06', 'Restoring any backup reproduces the cluster as it was at that backup',
  'For every history of full, differential and incremental backups over a changing cluster, restoring any of the retained backups '
  'yields exactly the files, contents, directories, links, permissions and modification times the cluster had at that backup. This '
  'holds for all combinations of compression, encryption, bundling, block incremental, checksum delta and page sizes of files, with '
  'excluded/unlogged/temporary files left out as documented.',
  ['histories', 'configurations', 'inputs'],
  'every sequence of up to 3 backups x per-file change actions (unchanged, changed same size and time, grown, shrunk, emptied, '
  'deleted, created, type changed) x storage configurations',
  'Tests back up a few fixed trees and compare manifests to literals; combinations of change, reference and storage format are not '
  'reached.',
  ['src/command/backup/backup.c', 'src/command/backup/file.c.inc', 'src/command/restore/restore.c', 'src/command/restore/file.c.inc',
   'src/info/manifest/', 'src/command/backup/blockIncr.c', 'src/command/restore/blockDelta.c'],
  ['manifest references to prior backups', 'timestamp/size/checksum change detection', 'bundle offsets', 'block maps'],
  ['restored tree'])

p('P07', 'An interrupted backup never damages or masquerades as a backup',
  'If a backup is interrupted at any point (crash, power loss or I/O error), every backup that was complete before remains listed and '
  'restores exactly, and the interrupted one is either absent from the listing or complete and restorable. The next backup succeeds '
  'without manual cleanup.',
  ['crash_points', 'fault_sequences'],
  'every operation prefix of a full/diff/incr backup x {process crash, two power-loss variants}, and every single operation failing',
  'Tests never stop a backup between operations.',
  ['src/command/backup/backup.c', 'src/info/manifest/', 'src/info/infoBackup.c', 'src/storage/posix/write.c'],
  ['manifest copy first, manifest and info last', 'unlisted backup directories ignored or resumed'],
  ['info output, restore of every listed backup, next backup'])

p('P08', 'A resumed backup equals a fresh one',
  'When an interrupted backup is resumed, the resulting backup restores to the cluster as it is at the resumed backup, whatever was '
  'changed in the cluster or damaged in the partial backup in between. Partial files left over are never trusted without verification '
  'and files that are no longer needed are removed.',
  ['crash_points', 'histories'],
  'every operation prefix of the first backup x change of the cluster in between x damage of left-over files x changed backup settings',
  'Tests construct a few resumable directories by hand.',
  ['src/command/backup/backup.c', 'src/command/backup/file.c.inc'],
  ['resume manifest matching', 'checksum verification of left-over files', 'cleaning of unusable files'],
  ['restored tree of the resumed backup, repository file list'])

p('P09', 'Cluster files changing while being backed up never yield a bad backup',
  'If cluster files are modified, grown, truncated or removed at any moment while an online backup is copying, the backup either '
  'fails or stays self-consistent: every file in it restores to bytes that match its recorded size and checksum, contains at most the '
  'size known at the start, and untouched files are exact. A file that vanished is skipped, never replaced by other data.',
  ['schedules'],
  'every file-open and read operation of the copy phase x {grow, shrink, overwrite, remove, replace} of the file',
  'Tests change files only before the backup or at one hand-picked moment.',
  ['src/command/backup/file.c.inc', 'src/command/backup/process.c.inc', 'src/command/backup/backup.c'],
  ['read limit at manifest size', 'size/checksum recorded from bytes actually copied', 'missing files removed from manifest'],
  ['restored tree, verify'])

p('P10', 'An online backup completes only when the WAL it needs is in the archive',
  'An online backup is reported successful (and listed) only if every WAL segment from its start to its stop position is in the '
  'archive, and fails otherwise when archive checking is enabled. When asked to copy WAL into the backup, the backup contains exactly '
  'those segments, and a restore of it needs nothing else.',
  ['histories', 'configurations'],
  'every subset of missing/late segments between start and stop, positions around segment and log-file boundaries, WAL segment '
  'sizes, archive-check/archive-copy settings',
  'Tests use one or two fixed ranges with all segments present or one missing.',
  ['src/command/backup/backup.c', 'src/command/archive/find.c', 'src/command/archive/common.c', 'src/db/db.c'],
  ['start/stop backup functions', 'WAL range computation', 'archive lookup with timeout'],
  ['exit status of backup, info, pg_wal of the restored cluster'])

p('P11', 'Restore converges to the backup from any prior state of the destination',
  'A delta or forced restore over a destination in any state (files missing, extra, different content, size, time, type, permissions, '
  'stale leftovers of another restore) ends in exactly the same tree as a restore to an empty destination. Content that differs is '
  'always replaced, whether or not sizes and times match, unless force mode without checksums was requested and size and time both '
  'match.',
  ['histories', 'configurations', 'inputs'],
  'every per-file destination state from the alphabet in combination for several files x {delta, force} x storage formats',
  'Tests check a few dirty destinations.',
  ['src/command/restore/restore.c', 'src/command/restore/file.c.inc', 'src/command/restore/blockChecksum.c',
   'src/command/restore/blockDelta.c'],
  ['cleaning of unknown files', 'checksum comparison', 'block delta'],
  ['restored tree'])

p('P12', 'An interrupted restore cannot be started as a cluster and can be re-run',
  'At every crash point of a restore, the destination has no usable control file unless all other files are completely restored and '
  'synced. Running the restore again (delta) from any such crash state succeeds and yields the same tree as an uninterrupted restore; '
  'it may be refused only while nothing but directories has been restored into an initially empty destination.',
  ['crash_points', 'fault_sequences'],
  'every operation prefix of a restore (fresh, delta, tablespaces) x {process crash, two power-loss variants}; every single operation '
  'failing',
  'Tests never stop a restore part-way.',
  ['src/command/restore/restore.c', 'src/command/restore/file.c.inc', 'src/storage/posix/write.c'],
  ['control file removed first, written under temporary name, renamed last after syncing', 'manifest saved in destination'],
  ['destination tree at the crash, result of the second restore'])

p('P13', 'Restore refuses unsafe destinations and never touches anything else',
  'Restore fails without modifying the destination when it belongs to a running cluster, when the data directory or a tablespace or '
  'link destination is not empty and delta/force was not given (or the data directory does not look like a cluster), or when a '
  'destination lacks permissions. Whatever is found at the destination, it never creates, changes or removes anything outside the data '
  'directory, tablespace and link destinations it is restoring to (other than its own spool and lock files).',
  ['configurations', 'inputs'],
  'every combination of destination states (missing, empty, foreign files, running, wrong owner of paths) for data directory, '
  'tablespace and links x delta/force/mapping options',
  'Tests check each refusal once; combinations and outside effects are not observed.',
  ['src/command/restore/restore.c'],
  ['destination validation before cleaning', 'cleaning restricted to mapped bases'],
  ['exit status, tree of destination and of surrounding canary files'])

p('P14', 'Restore never delivers damaged data without an error',
  'If any byte of any repository file that a restore depends on is altered, truncated, removed or swapped with another, the restore '
  'either fails or still produces exactly the right tree. It never completes successfully with wrong content.',
  ['inputs', 'configurations'],
  'every byte position (bounded stride for long files), truncation length and removal of every file of a backup set x storage formats',
  'Tests corrupt a single file in one way.',
  ['src/command/restore/file.c.inc', 'src/command/restore/restore.c', 'src/info/manifest/', 'src/common/crypto/', 'src/common/compress/'],
  ['per-file checksum in the manifest', 'manifest checksum', 'decompress/decrypt errors'],
  ['exit status, restored tree'])

p('P15', 'Selective restore keeps exactly the requested databases',
  'With databases included or excluded by name or id, all files of kept databases and of system databases (unless excluded explicitly) '
  'are restored exactly, and each database left out has its files, in the data directory and in tablespaces, present only as zeroed '
  'sparse files of the original size (its PG_VERSION is kept). Requests that name unknown databases, include system databases or '
  'include and exclude the same database are refused without changing the destination.',
  ['configurations', 'inputs'],
  'every include/exclude subset over a set of databases with entries in the default and a mapped tablespace, by name and by id, x '
  'storage formats',
  'Tests use three or four selections.',
  ['src/command/restore/restore.c', 'src/command/restore/file.c.inc'],
  ['zeroing filter built from database list in manifest'],
  ['restored tree, exit status'])

p('P16', 'Recovery target picks the right backup and writes the right recovery settings',
  'Without an explicit set, restore chooses the newest backup that finished before the requested target time (or at or before the '
  'requested LSN) in the first repository that has one, otherwise the newest backup of the first repository with backups, and refuses '
  'targets or timelines that cannot be reached. The recovery settings written are exactly those requested, valid for the PostgreSQL '
  'version, and replace those of an earlier restore.',
  ['configurations', 'inputs', 'histories'],
  'every target type and value before/between/at/after the backups of one or two repositories x timelines with history files x '
  'versions x previous recovery settings',
  'Tests probe individual target values.',
  ['src/command/restore/restore.c', 'src/command/restore/timeline.c', 'src/command/restore/config.c.inc'],
  ['backup set selection', 'timeline verification', 'recovery settings generation'],
  ['label restored, recovery settings files'])

p('P17', 'Expiration keeps every backup and WAL segment the retention policy promises',
  'After expire, the backups kept are exactly those the retention settings promise, each with every backup it depends on, and for '
  'each kept backup all archived WAL needed to make it consistent and, from the archive retention backup on, all later WAL of its '
  'timelines. Nothing belonging to kept backups, other stanzas or other repositories is removed, and what the policy does not keep '
  'is removed.',
  ['histories', 'configurations'],
  'every sequence of up to 5 full/diff/incr backups x retention settings (count and time, full/diff/archive) x WAL layouts with '
  'several timelines and database versions, x one or two repositories',
  'Tests hold some ten fixed layouts; the policy is about all of them.',
  ['src/command/expire/expire.c', 'src/info/infoBackup.c', 'src/command/archive/common.c'],
  ['dependency-aware removal', 'archive ranges to keep', 'per-repository iteration'],
  ['listed backups, files of backups, archived WAL after expire'])

p('P18', 'Interrupted, repeated or dry-run expire is harmless',
  'At every crash point or I/O error of expire every backup the policy keeps is still listed and restores completely, and one being '
  'expired restores completely or is refused. Running expire again reaches the same final state as an uninterrupted run. A dry run changes nothing, and a second run changes nothing more.',
  ['crash_points', 'fault_sequences'],
  'every operation prefix of expire x {process crash, power loss variants} and every single operation failing',
  'Tests never stop expire between removals.',
  ['src/command/expire/expire.c', 'src/info/info.c', 'src/info/infoBackup.c'],
  ['manifests removed newest first, info saved, then files removed'],
  ['info, restore of every listed backup, final tree'])

p('P19', 'verify reports every damaged or missing file and nothing else',
  'verify reports a repository with all files intact as clean. If any WAL segment or backup file is missing, altered or truncated, it '
  'reports error status, names the file and marks the backup that holds it, and every backup that references it, as invalid; a '
  'backup it reports as valid can be restored. The contiguous WAL ranges it reports are exact.',
  ['inputs', 'configurations', 'histories'],
  'every file of a repository x {removed, truncated, byte changed, emptied} x storage formats; every subset of missing or duplicate '
  'segments around log-file boundaries; every pair of states of each info file or manifest and its copy',
  'Tests have a few corrupted repositories with literal outputs.',
  ['src/command/verify/verify.c', 'src/command/verify/file.c'],
  ['checksum and size per file', 'WAL range gaps', 'invalid file counters'],
  ['verify output and exit status'])

p('P20', 'Conflicting commands on a stanza never run at the same time',
  'At most one process holds the lock for a given stanza, repository and lock type at any time, for every interleaving of commands '
  'starting, finishing, crashing and being inspected. A lock left by a dead process never blocks a new command, and processes of the '
  'same command share it.',
  ['schedules', 'crash_points'],
  'all interleavings of the system calls of up to three processes acquiring, reading and releasing, with kill at every step',
  'Tests lock in one process at a time.',
  ['src/common/lock.c', 'src/command/lock.c'],
  ['advisory file lock plus lock file removal on release', 'execution id in the lock file'],
  ['return of lock acquisition'])

p('P21', 'Stop is honoured by every command until start',
  'After stop for a stanza (or all stanzas) archive-push (also asynchronous), backup, expire, stanza-create and stanza-upgrade of that '
  'stanza fail without changing anything, also when they reach the stopped host through a remote, while other stanzas and commands that '
  'only read the repository (archive-get, restore, info, verify) continue; start restores operation. stanza-delete requires the stanza '
  'to be stopped. Stop with force terminates the processes holding locks of exactly the requested stanza (or of all stanzas), and a '
  'command being started meanwhile does not go on once the forced stop has completed.',
  ['histories', 'configurations'],
  'every sequence of stop/start (stanza, all) up to depth 3 followed by each command, locally and through a remote',
  'Tests check single stop files.',
  ['src/command/control/', 'src/command/lock.c', 'src/protocol/server.c', 'src/config/load.c'],
  ['stop files in the lock path tested by commands and by the remote before serving'],
  ['exit status of each command and unchanged trees'])

p('P22', 'Parallel job processing completes each job exactly once or reports failure',
  'Whatever order worker processes finish, fail or die in, each job handed out is completed exactly once and its own result returned, '
  'or the failure is reported; no job is lost, run twice or given the result of another. A backup, restore, verify or async archive '
  'run with several workers gives the same outcome as with one.',
  ['schedules', 'fault_sequences'],
  'every completion order and failure assignment of up to 4 jobs on up to 3 workers, and every point of worker death',
  'Tests use two workers in one scripted order.',
  ['src/protocol/parallel.c', 'src/protocol/client.c', 'src/protocol/server.c'],
  ['select over worker connections', 'per-client job slot', 'session ids'],
  ['sequence of results returned to the caller'])

p('P23', 'Working through a remote gives the local result or an error',
  'Every storage and command operation done through a remote process gives the same result and leaves the same files as done locally. '
  'If the connection breaks at any byte in either direction, the operation fails, and nothing partial appears under a final name.',
  ['fault_sequences', 'histories', 'inputs'],
  'every message boundary and every byte position (bounded stride) of the protocol stream in both directions cut, for read, write, '
  'list, copy, backup, restore, archive operations; all operations of the storage alphabet compared with local',
  'Tests run the remote in-process without faults.',
  ['src/protocol/', 'src/storage/remote/', 'src/config/exec.c', 'src/config/protocol.c'],
  ['typed messages with explicit end marks', 'remote write close acknowledged after rename'],
  ['exit status, repository and destination trees'])

p('P24', 'Filters give the same result for every chunking of the stream',
  'Compression, decompression, encryption, hashing and sizing filters produce results that depend only on the bytes, '
  'not on how the stream is split into buffers, and compress/encrypt followed by decompress/decrypt is the identity for every input '
  'length including empty.',
  ['inputs', 'configurations'],
  'all inputs lengths around buffer boundaries x all splits into chunks (bounded) x all output buffer sizes x filter chains',
  'Tests use a few chunk sizes.',
  ['src/common/io/filter/', 'src/common/compress/', 'src/common/crypto/', 'src/common/io/read.c', 'src/common/io/write.c',
   'src/command/backup/pageChecksum.c'],
  ['filter group input-same/done handshaking', 'flush on close'],
  ['bytes and results out of the filter group'])

p('P25', 'Truncated or damaged compressed or encrypted streams are rejected',
  'Reading a compressed or encrypted file that has been cut short or (where the format carries a check) altered or followed by foreign '
  'bytes never ends as a shorter or different file reported as success: it ends in an error, or, where the change does not touch the '
  'content, in exactly the original bytes.',
  ['inputs', 'configurations'],
  'every truncation length and every single-byte change of streams produced by each compressor/cipher, for several sizes and read '
  'buffer sizes',
  'Tests try one truncation per format.',
  ['src/common/compress/', 'src/common/crypto/cipherBlock.c', 'src/common/io/filter/group.c'],
  ['stream end detection on flush', 'padding check'],
  ['error or bytes delivered'])

p('P26', 'Block incremental stores and rebuilds every file version exactly',
  'For every sequence of versions of a file (growing, shrinking, blocks changing, moving, reverting), each version can be rebuilt '
  'byte-exactly from the block maps and stored blocks, both into a missing file and over any existing version of the file. Only '
  'blocks that changed are stored again.',
  ['histories', 'inputs'],
  'every sequence of up to 3 versions over files of up to 6 blocks of a small alphabet, sizes at and around block boundaries, super '
  'block and block sizes, through the real filters and on disk',
  'Tests contain some dozens of literal maps.',
  ['src/command/backup/blockIncr.c', 'src/command/backup/blockMap.c', 'src/command/restore/blockDelta.c',
   'src/command/restore/blockChecksum.c'],
  ['block map delta encoding', 'super blocks', 'reference order'],
  ['rebuilt bytes'])

p('P27', 'Everything written in the tool\'s own formats is read back unchanged',
  'Values written in the internal binary pack format, JSON, info/manifest key-value format, variable-length integers, and text '
  'encodings are read back identical for every value, and malformed or truncated input is rejected with an error instead of being '
  'misread. File and object names with any special characters survive storage in manifests and lists.',
  ['inputs'],
  'all boundary values per type, all short sequences of fields including defaults and gaps, all strings over an alphabet of special '
  'characters up to a length bound, all truncations of encoded data',
  'Tests use individual literals.',
  ['src/common/type/pack.c', 'src/common/type/json.c', 'src/common/ini.c', 'src/common/encode.c', 'src/common/io/',
   'src/info/manifest/', 'src/common/type/stringId.c'],
  ['field id delta and type tags', 'escape sequences', 'checksum of info file computed while reading'],
  ['decoded value or error'])

p('P28', 'Option values come from the documented source in the documented order',
  'For each option the effective value is the one from the command line, else environment, else the most specific configuration '
  'section (stanza:command, stanza, global:command, global), else the default; indexed options keep their own index. Invalid '
  'values, and values given more than once or in conflict on the command line or within one section, are refused rather than silently ignored, and options passed to child processes give them the '
  'same values.',
  ['configurations', 'inputs'],
  'every subset of sources defining an option x option types (boolean, string, integer, size, time, list, hash, path) x indexed '
  'options x reset/negate, and commands/roles it is or is not valid for',
  'Tests sample some hundred combinations.',
  ['src/config/parse.c', 'src/config/load.c', 'src/config/config.c', 'src/config/exec.c'],
  ['candidate list sorted by source precedence', 'exec argument rendering'],
  ['effective option values observed in behaviour and in child process arguments'])

p('P29', 'Stanza create, upgrade and delete never lose or mix cluster identity',
  'stanza-create is idempotent for the same cluster and refuses another one; stanza-upgrade appends the new cluster identity and keeps '
  'all earlier history; a backup or WAL archiving of a cluster that does not match the stanza is refused, and archive-get never '
  'delivers a segment of another cluster. stanza-delete requires stop and a stopped cluster (or force) and removes only that stanza, and '
  'every sequence leaves archive and backup '
  'information consistent with each other.',
  ['histories', 'configurations'],
  'every sequence up to depth 4 of create/upgrade/delete/cluster replaced/partial info file loss/backup/push, one and two '
  'repositories, crash in the middle of each',
  'Tests run fixed sequences.',
  ['src/command/stanza/', 'src/info/infoPg.c', 'src/info/infoArchive.c', 'src/info/infoBackup.c', 'src/command/check/common.c'],
  ['history list with db ids', 'matching of archive and backup info'],
  ['exit status, info files'])

p('P30', 'Object store errors are retried or reported, never mistaken for success',
  'Against an S3, Azure or GCS store that fails, drops the connection or truncates a response at any point of any request, every command '
  'either completes with exactly the right data or fails. No object is listed or read as complete when it is not, missing is never '
  'confused with error, and paginated listings are complete.',
  ['fault_sequences', 'configurations'],
  'every request of a scripted session x {5xx, 4xx, drop before/within/after headers and body, short body, malformed body} x '
  'multi-part and single-part uploads x page sizes of listings',
  'Tests script expected requests literally with single faults.',
  ['src/storage/s3/', 'src/storage/azure/', 'src/storage/gcs/', 'src/common/io/http/', 'src/storage/write.c', 'src/storage/read.c'],
  ['retry rules', 'content length and chunked decoding', 'multipart completion'],
  ['exit status, object set, delivered bytes'])

p('P31', 'Page checksum failures are reported exactly',
  'With page checksum validation on, a backup reports (warning, manifest and info) every page whose stored checksum is wrong for its '
  'content and position, and every relation file that is not a whole number of pages; it reports no valid or new page and no page that '
  'changes when read again, and never fails or alters the backup because of any of this. Reports are kept for files that are '
  'referenced by incremental backups or resumed.',
  ['inputs', 'configurations', 'histories'],
  'every assignment of {valid, zero, bad checksum, newer than start, torn, truncated last page} to files of up to 4 pages, in '
  'segments 0 and 1, x storage formats x re-read outcomes',
  'Tests contain a handful of page layouts.',
  ['src/command/backup/pageChecksum.c', 'src/command/backup/file.c.inc', 'src/command/backup/process.c.inc',
   'src/postgres/interface/page.c'],
  ['checksum with block number across segments', 'retry read of invalid pages', 'interval list in manifest'],
  ['warnings and error list in backup info/manifest'])

p('P32', 'Encrypted repositories hold no plaintext and secrets are never disclosed',
  'With repository encryption on, no file of the repository contains cluster or manifest data in clear, each file is encrypted under '
  'a key not derivable from names, and reading with a wrong or missing passphrase fails. Passphrases and other secret options never '
  'appear in logs, error messages about a configuration file that can be parsed, process arguments or status output.',
  ['configurations', 'histories'],
  'every command x log level x storage format with encryption, all repository files searched for markers, process arguments and '
  'outputs captured',
  'Tests check the cipher filter alone.',
  ['src/common/crypto/', 'src/config/exec.c', 'src/config/load.c', 'src/info/', 'src/command/command.c', 'src/config/protocol.c'],
  ['sub-passphrases in info files and manifest', 'redaction of secure options'],
  ['repository bytes, outputs, argv of children'])

p('P33', 'The TLS server serves only authorised clients and stanzas',
  'The server accepts a client only with a certificate from the configured authority whose common name is authorised, and only for '
  'the stanzas configured for that name; every other combination of certificate, name and stanza is refused before any command is '
  'processed, whatever messages the client sends. A changed list of authorisations holds for every connection made after the reload '
  'signal. No sequence of connections, messages and disconnects ends the server or keeps it from serving others; when it is terminated '
  'it ends its own child processes and no others. A client talks to a server only when the certificate of the server is from the '
  'configured authority, in date, and issued for the name of the host (a wildcard stands for one label).',
  ['configurations', 'inputs', 'schedules'],
  'every combination of client certificate {none, wrong authority, right authority with listed/unlisted name} x authorised stanza list '
  '{specific, several, all, none} x requested stanza {same, other, prefix, none}',
  'Tests check three or four combinations.',
  ['src/command/server/', 'src/protocol/helper.c', 'src/common/io/tls/'],
  ['certificate verification', 'authorisation list lookup by exact name'],
  ['exit status and result of commands through the server'])

p('P34', 'No I/O failure is swallowed',
  'If any file-system operation issued by a command fails (no space, I/O error, permission, short write), the command either reports '
  'failure or its result is complete and correct nevertheless. A success exit never hides lost or partial data.',
  ['fault_sequences'],
  'every mutating and reading operation of stanza-create, archive-push, archive-get, backup, restore, expire x {ENOSPC, EIO, EACCES, '
  'short write}',
  'Tests force a few errors by permissions.',
  ['src/storage/posix/', 'src/storage/', 'src/common/io/', 'src/command/'],
  ['error checks on each call', 'job errors propagated through the protocol'],
  ['exit status against state of repository/destination'])

p('P35', 'Tablespaces and links are restored where the user asked, contents intact',
  'Tablespaces and linked files or directories are backed up through the links, and restored according to the tablespace, link and '
  'data-directory mappings given: every link points where requested, all content is in place, links not requested become plain files '
  'or directories. Mappings of unknown or wrong objects, destinations inside the data directory, and destinations that are the same as or '
  'nested in another one are refused (by restore, and by backup for links of the cluster).',
  ['configurations', 'inputs'],
  'every combination of tablespace mapping (none, by id, by name, all) x link options (none, all, map of each) x layouts of linked '
  'directories, files and tablespaces',
  'Tests use one mapped and one unmapped layout.',
  ['src/command/restore/restore.c', 'src/info/manifest/'],
  ['target list in the manifest', 'remapping before validation'],
  ['restored tree with link targets'])

p('P36', 'info, annotations and labels tell the truth about the repository',
  'What info reports (backups, types, labels, order, dependencies, sizes, WAL range, status, annotations, errors) equals what is in '
  'the repository after every history of commands. Labels are unique and strictly increasing for every clock behaviour, and '
  'annotations set, changed or removed affect only the named backup and survive later commands.',
  ['histories', 'configurations'],
  'every sequence up to depth 4 of backup/expire/annotate/stanza operations with clock standing still or stepping back, one and two '
  'repositories, text and JSON output',
  'Tests compare literal outputs for a few repositories.',
  ['src/command/info/info.c', 'src/command/annotate/annotate.c', 'src/info/infoBackup.c', 'src/command/backup/common.c',
   'src/command/backup/backup.c'],
  ['backup info records', 'label generation from newest label and history'],
  ['info output'])

p('P37', 'WAL segment naming arithmetic is right for all sizes and boundaries',
  'The conversion between WAL positions, segment names and ranges (next segment, ranges over a start and stop position, directories, '
  'positions to segments) agrees with PostgreSQL\'s definition for every segment size, timeline and position, including log-file '
  'boundaries; the range computed for a start and stop position contains every segment holding a byte between them.',
  ['inputs'],
  'all segment sizes 1MB..1GB x positions within +-3 of each boundary class x timelines x lengths of ranges up to 4',
  'Tests check a few literals.',
  ['src/command/archive/common.c', 'src/postgres/interface.c'],
  ['segment count per log file', 'range iteration'],
  ['computed names'])

p('P38', 'repo-target-time reads a versioned repository exactly as it was',
  'With --repo-target-time=T and a versioned S3 repository, repo-ls, repo-get, info, archive-get, restore and verify see exactly the '
  'objects, contents, sizes and modification times current at T: the last version of each object not later than T, nothing that was '
  'deleted by then or created after, whatever happened before or since, however many versions there are and however the listing is '
  'divided into pages, locally and through a repository host. Directories are not versioned. On Azure and GCS, which do not tell '
  'when an object was deleted, the same holds for histories without deletions.',
  ['histories', 'configurations'],
  'all histories of up to 5 writes/deletions of an object and of pairs of neighbouring objects x target times x page sizes; a real '
  'history of backups, expire, overwriting and deletion at every second',
  'Tests script a single listing of two files.',
  ['src/storage/s3/storage.c', 'src/storage/azure/storage.c', 'src/storage/gcs/storage.c', 'src/storage/storage.c', 'src/storage/iterator.c', 'src/storage/remote/', 'src/storage/helper.c'],
  ['selection of versions', 'delete markers', 'continuation of version listings', 'version id of reads'],
  ['exit status, listing, delivered bytes, restored tree'])

p('P39', 'A successful check means archiving and backups work',
  'check succeeds exactly when, for every stanza asked for and every repository configured, the cluster can be backed up and archives '
  'its WAL: exactly one reachable primary, belonging to the current cluster of the stanza in both info files, with the data directory, '
  'version, archive_mode and archive_command needed, and the segment switched away from arrives within archive-timeout in the current '
  'archive of every repository. Otherwise it fails with an error; problems that do not prevent this (an unreachable or missing standby) are '
  'warned about. It switches a segment only on a primary and only when the configuration is right, and changes nothing else. Backups of '
  'what check approved of succeed.',
  ['settings', 'states', 'topologies'],
  'cluster settings x stanza states per repository x fate of the segment per repository x topologies x stanzas',
  'Tests script one server conversation per error message; combinations of repositories and servers are not explored.',
  ['src/command/check/', 'src/db/', 'src/command/archive/find.c', 'src/config/load.c'],
  ['conditions checked', 'repository loop', 'primary and standby selection', 'stanza loop'],
  ['exit status, messages, queries received by the server, trees'])
p('P40', 'Repository commands list, return and remove exactly what they are told to',
  'repo-ls lists exactly the files, paths, links and special files of the path named (of all sub-paths with --recurse), in the order asked '
  'for, restricted to the names the filter expression matches, with their sizes, times and destinations; a file is listed as itself. '
  'repo-get returns exactly the content of the file named: as stored with --raw, otherwise decrypted with the passphrase that belongs to '
  'its place in the repository, an error when there is none, exit status 1 and no output for a missing file with --ignore-missing. repo-rm '
  'removes exactly the file or path named and nothing else, and a path with content only with --recurse. Paths given absolutely, '
  'relatively or with a trailing slash mean the same; paths outside the repository are refused. All of this is the same on local '
  'repositories, repository hosts and object stores, and only the repository selected is touched.',
  ['paths', 'trees', 'options', 'storage types'],
  'small trees x path arguments x filters x sort orders x output formats x recursion x kinds of repository',
  'Tests list one tree per storage and check one path per branch.',
  ['src/command/repo/', 'src/storage/iterator.c', 'src/common/regExp.c', 'src/storage/storage.c'],
  ['path validation', 'iteration and filtering', 'passphrase selection', 'removal'],
  ['exit status, output, trees'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
