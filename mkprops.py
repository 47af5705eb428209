"""Writes properties.jsonl (kept as a script only to ease editing)."""
import json
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': n, 'where': w}
                                        for n, w in mech],
                          'observe_at': list(observe)}})


prop('P01', 'Files appear in a repository only complete, flushed and synced',
     'Whenever a file appears under its final name inside a repository (a '
     'stored file, or the metadata), its entire content has been written to a '
     'temporary file, flushed, synced to disk and closed without any error '
     'before that temporary file got renamed to the final name. Directories '
     'created for it, and the directories in which a name was created or '
     'replaced, are synced to disk before the write is reported as finished. '
     'If any of these steps fails, the final name is not created or replaced.',
     ['crash_points', 'fault_sequences', 'inputs'],
     'every crash point and every failing I/O call of every repository write, '
     'in both the content-addressed and the explicit-name mode',
     'Tests run without crashes and with succeeding I/O calls; dropping or '
     'reordering a sync is invisible to them.',
     ['src/repository.c', 'src/safe-wrappers.c'],
     [('temporary file, flush, sync, close, rename, directory sync',
       'src/repository.c repoWriterClose'),
      ('flush and sync primitives', 'src/safe-wrappers.c fTodisk, fDatasync')],
     ['sequence of fflush/fdatasync/fclose/rename/mkdir/open system calls'])

prop('P02', 'A backup commits contents, then metadata, then deletes garbage',
     'During a backup, the metadata of the repository gets replaced only '
     'after every file content it needs has been stored and after the '
     'completion time of the backup was set. Unreferenced data gets deleted '
     'only after the new metadata was completely written. A run that stops '
     'anywhere in between leaves the previous metadata and every file it '
     'refers to in place.',
     ['crash_points', 'fault_sequences'],
     'every point at which a backup run can be interrupted',
     'Tests only look at the repository after a completed run.',
     ['src/nb.c', 'src/backup.c', 'src/metadata.c'],
     [('order of finishing, metadata writing and garbage collection',
       'src/nb.c backup'),
      ('completion time', 'src/backup.c finishBackup')])

prop('P03', 'Stored files are never modified, overwritten or renamed',
     'Backing up never opens an already stored file for writing, never '
     'removes it, and never renames anything onto a stored file whose content '
     'was not proven to be absent from that name. All new data is written to '
     'the temporary file of the repository, whose path, like the paths of '
     'metadata and lock file, lies directly inside the repository. Only '
     'garbage collection deletes stored files.',
     ['inputs', 'histories', 'crash_points'],
     'every sequence of backups over any set of files, including files with '
     'equal hashes and sizes',
     'Tests cannot produce colliding hashes and look only at a few names.',
     ['src/repository.c', 'src/backup.c', 'src/nb.c'],
     [('slot search before writing', 'src/backup.c searchFileDuplicates'),
      ('only writable names', 'src/nb.c backup')])

prop('P04', 'Only a restore changes user files, only it and only where asked',
     'Backing up, garbage collection and integrity checking never create, '
     'modify, rename or delete anything outside of the repository. Restoring '
     'modifies nothing inside the repository except its lock file, and every '
     'path it creates, changes or removes is the path recorded for an entry '
     'that was selected for restoring.',
     ['inputs', 'configurations', 'fault_sequences'],
     'every command, configuration, repository content and file tree',
     'Tests compare a few directories; writes elsewhere go unnoticed.',
     ['src/nb.c', 'src/backup.c', 'src/restore.c', 'src/search.c',
      'src/integrity.c', 'src/garbage-collector.c', 'src/repository.c'],
     [('mutating calls and the origin of their path argument',
       'src/safe-wrappers.c and all of its callers')])

prop('P05', 'One process per repository: lock before use, until exit',
     'Every command that reads the metadata of a repository or changes the '
     'repository holds an exclusive lock on its lock file from before the '
     'metadata is read until the program ends. Acquiring the lock either '
     'succeeds, or terminates the program, with the sole exception of '
     'read-only commands on a read-only file system. A process removes the '
     'lock file only while it holds the lock itself, and never believes to '
     'hold the lock through a lock file that another process has removed.',
     ['schedules', 'configurations', 'fault_sequences'],
     'every interleaving of any number of processes using the same '
     'repository, and every failing lock operation',
     'Tests never run two processes concurrently against each other.',
     ['src/repository.c', 'src/nb.c'],
     [('lock acquisition and cleanup', 'src/repository.c repoLock'),
      ('call order', 'src/nb.c backup, metadataLoadFromRepo')])

prop('P06', 'Nothing is changed without an explicit yes from the user',
     'A backup writes to the repository, and a restore changes the file '
     'system, only after the user answered the question with "y" or "yes". '
     'End of input, a read error, "n" and "no" terminate the program with a '
     'failure before anything was changed, and any other answer repeats the '
     'question. If there is nothing to change, nothing is written.',
     ['inputs', 'fault_sequences'],
     'every sequence of input lines, including end of input and errors',
     'Tests use a handful of scripted answers.',
     ['src/nb.c', 'src/safe-wrappers.c'],
     [('prompt loop', 'src/nb.c ensureUserConsent'),
      ('line reading', 'src/safe-wrappers.c sReadLine')])

prop('P07', 'No failed system call goes unnoticed',
     'Every failing operation on files, directories, links, memory, time or '
     'input ends the program with an error message and a failing exit status, '
     'or is reported to the caller as such and ends the program there. Short '
     'reads and short writes count as failures. The only failures that are '
     'tolerated are those which have a defined meaning, such as a missing '
     'file when asking for its existence or reaching the end of a directory '
     'or of the input.',
     ['fault_sequences'],
     'every system or library call that can fail, with every kind of failure',
     'Most failures (I/O errors, full disks) cannot be provoked by the tests.',
     ['src/safe-wrappers.c', 'src/repository.c', 'src/error-handling.c',
      'src/backup-helpers.c', 'src/file-hash.c', 'src/backup.c',
      'src/restore.c'],
     [('checked wrappers', 'src/safe-wrappers.c'),
      ('termination', 'src/error-handling.c die, dieErrno')])

prop('P08', 'Files that change while being read abort the backup',
     'Whenever file content is hashed, compared or copied, exactly the '
     'recorded number of bytes is read and every byte read is processed, '
     'block by block, in order and without gaps. If a file turns out shorter '
     'or longer than recorded, if its modification time differs from the '
     'recorded one when its content gets stored, or if the length of a '
     'symlink target differs from the size reported for it, the program '
     'terminates with an error instead of recording a wrong state.',
     ['inputs', 'schedules'],
     'every file size and block size, and every modification of a file '
     'between the steps of a backup',
     'Tests do not modify files during a run and use few sizes.',
     ['src/backup.c', 'src/backup-helpers.c', 'src/file-hash.c',
      'src/restore.c', 'src/integrity.c'],
     [('copy loop', 'src/backup.c copyFileIntoRepo, equalsToStoredFile'),
      ('hash loop', 'src/file-hash.c fileHash'),
      ('end-of-file and timestamp checks',
       'src/backup.c addFileToRepo, src/backup-helpers.c')])

prop('P09', 'Every recorded file version has its content in the repository',
     'At the end of a backup, every version of a non-empty regular file that '
     'this backup recorded as new or changed has its hash, or for small files '
     'its whole content, computed from the file, and files larger than a hash '
     'are stored in the repository under exactly the hash, size and slot that '
     'were recorded. This covers new files, files with changed content, files '
     'that replaced another file type and files reappearing after removal, '
     'at every depth of the tree.',
     ['inputs', 'histories', 'configurations'],
     'every combination of change, policy, previous state and file size',
     'Tests cover a sample of the combinations of changes and policies.',
     ['src/backup.c', 'src/backup-helpers.c'],
     [('selection of files to store', 'src/backup.c finishBackupRecursively'),
      ('hashing and storing', 'src/backup.c addFileToRepo'),
      ('classification of changes', 'src/backup.c handleFoundNode')])

prop('P10', 'Deduplication never confuses different contents',
     'A file content is only treated as already stored after the complete '
     'stored file was read and found to be byte for byte equal to it. If the '
     'stored file differs, the next free slot number is used, and running out '
     'of slot numbers terminates the program. The recorded slot is always the '
     'one that was found equal, or the free one under which the content was '
     'stored.',
     ['inputs', 'histories'],
     'all file contents, including ones with equal hash and size',
     'Hash collisions cannot be produced by tests.',
     ['src/backup.c', 'src/repository.c'],
     [('slot search and comparison',
       'src/backup.c searchFileDuplicates, equalsToStoredFile')])

prop('P11', 'Garbage collection deletes only unreferenced repository items',
     'Garbage collection never deletes a stored file referenced by any '
     'history entry of any path that is still part of the repository, nor '
     'the config file, the metadata or the lock file. It deletes only items '
     'inside the repository, does not follow symbolic links out of it, and '
     'keeps directories that still contain something.',
     ['inputs', 'histories'],
     'every metadata content, every repository layout and repository path',
     'Tests use a few small repositories.',
     ['src/garbage-collector.c', 'src/safe-wrappers.c'],
     [('set of referenced names', 'src/garbage-collector.c populateTable*'),
      ('deletion decision', 'src/garbage-collector.c shouldRemoveFile'),
      ('conditional recursive removal',
       'src/safe-wrappers.c removeRecursivelyIf')])

prop('P12', 'Metadata is read back exactly as it was laid out when written',
     'For every kind of entry, the reader of the metadata consumes exactly '
     'the sequence of fields, with the widths, byte order and conditions, '
     'that the writer produces, and assigns each to the item it came from. '
     'Every count that is written equals the number of elements written '
     'after it, and the entries written are exactly those which are still '
     'part of the repository.',
     ['inputs', 'histories'],
     'every metadata tree and both byte orders',
     'Tests write and read a few hand-made trees on one byte order.',
     ['src/metadata.c'],
     [('writer', 'src/metadata.c metadataWrite, writePathList'),
      ('reader', 'src/metadata.c metadataLoad, readPathSubnodes')])

prop('P13', 'Corrupted metadata is rejected before it is used',
     'While reading metadata, no byte beyond the end of the file is accessed, '
     'whatever the file contains. References to unknown backups, unknown '
     'entry types or policies, entries without history, empty names, names '
     'with null bytes or slashes, dot names and trailing data terminate the '
     'program with an error.',
     ['inputs'],
     'every byte sequence as metadata file',
     'Tests use about a dozen corrupted files.',
     ['src/metadata.c'],
     [('bounds checks', 'src/metadata.c assertBytesLeft and its callers'),
      ('validation', 'src/metadata.c readPathHistory, readPathSubnodes')])

prop('P14', 'Restoring recreates type, content and all attributes',
     'After a successful restore, every selected path that was missing or '
     'different has the recorded file type, content or link target, owner, '
     'group, and, except for symlinks, permission bits and modification time, '
     'with no later step of the restore undoing an earlier one. An existing '
     'path of another type is removed first, directories recursively; '
     'directories get their recorded modification time back after their '
     'entries were restored. Paths that are unchanged or were not selected '
     'are left alone.',
     ['inputs', 'histories'],
     'every combination of recorded state, difference and policy',
     'The restore code is almost entirely uncovered by the tests.',
     ['src/restore.c'],
     [('restoring', 'src/restore.c finishRestore, restoreFile')])

prop('P15', 'Restore uses the recorded state that was current at the given id',
     'For a tracked path, restoring to a given backup id uses the newest '
     'recorded state that is not newer than that backup; for paths with any '
     'other policy the only recorded state is used. Paths that did not exist '
     'then are skipped below a restored directory and rejected when requested '
     'directly, as are requested paths that are unknown or lie below '
     'something that was not a directory then. The same state is used for '
     'showing the changes and for restoring them.',
     ['inputs', 'histories'],
     'every history, id, policy and requested path',
     'The restore code is almost entirely uncovered by the tests.',
     ['src/restore.c'],
     [('state selection', 'src/restore.c searchPathState'),
      ('descent', 'src/restore.c initiateRestore')])

prop('P16', 'Every file type change is recognised as exactly that change',
     'During backup and restore, a path whose type on disk differs from its '
     'recorded type is always classified as the corresponding replacement, '
     'for every pair of types, and never when the types agree. Symlinks are '
     'recognised as symlinks and are followed only for directories. A '
     'replaced path gets its new state recorded in full, so that entries '
     'recorded below a path always belong to a recorded directory.',
     ['inputs', 'histories', 'configurations'],
     'every pair of recorded and found file type, under every policy',
     'Tests cover a part of the pairs during backup and none during restore.',
     ['src/backup.c', 'src/restore.c', 'src/search.c'],
     [('classification', 'src/backup.c handleFiletypeChanges, '
       'src/restore.c handleFiletypeChanges')])

prop('P17', 'Every attribute or content difference is detected and recorded',
     'A path that still has its recorded type is reported as changed in '
     'owner, permissions, modification time or content exactly if the '
     'respective property differs, and the recorded state is updated to the '
     'found values. Content of a regular file is considered changed if its '
     'size changed, or if its modification time changed and its hash or bytes '
     'differ; a symlink if its target differs.',
     ['inputs'],
     'every pair of recorded state and state found on disk',
     'Tests change one or two attributes at a time.',
     ['src/backup-helpers.c'],
     [('comparison', 'src/backup-helpers.c applyNodeChanges')])

prop('P18', 'Reference counts match the history entries that will be written',
     'Whenever a history entry starts or stops referring to a backup, the '
     'reference count of exactly that backup is incremented or decremented '
     'exactly once, so that a backup is dropped from the metadata only if '
     'nothing refers to it. Written backup ids number precisely the backups '
     'that are still referenced, newest first.',
     ['histories', 'inputs'],
     'every sequence of backups and policy changes',
     'Tests check counts for a few scenarios.',
     ['src/backup.c', 'src/metadata.c'],
     [('counting', 'src/backup.c'), ('numbering', 'src/metadata.c '
                                     'metadataWrite')])

prop('P19', 'Policies keep exactly the history they promise',
     'Under the track policy, every change, removal or reappearance of a path '
     'adds a new state in front of its unmodified older states; under every '
     'other policy a path keeps exactly one state, updated in place. A '
     'removed path is kept under copy, dropped with everything below it under '
     'mirror, and recorded as removed under track. Leaving the track policy '
     'drops all but the latest existing state.',
     ['histories', 'configurations', 'inputs'],
     'every sequence of changes, removals and policy changes',
     'Tests cover selected two- or three-step histories.',
     ['src/backup.c'],
     [('history updates', 'src/backup.c handleFoundNode, '
       'handlePolicyChanges, handleRemovedPath')])

prop('P20', 'A configuration is either understood completely or rejected',
     'Every policy block sets exactly the policy it names. Invalid '
     'constructs (unknown policies, missing policies, paths with dot '
     'elements, redefined policies, unclosed brackets, null bytes, invalid '
     'expressions, unsupported text) terminate the program with an error '
     'before anything is backed up. Policies are inherited by all paths below '
     'a configured path which have no policy of their own.',
     ['inputs', 'configurations'],
     'every configuration text',
     'Tests use a fixed set of configuration files.',
     ['src/search-tree.c'],
     [('parser', 'src/search-tree.c searchTreeParse'),
      ('inheritance', 'src/search-tree.c inheritPolicyToSubnodes')])

prop('P21', 'A backup finds exactly the paths which the configuration selects',
     'During a search every directory entry is either matched by a configured '
     'path or expression, whose policy it then gets, or inherits the policy '
     'of its directory unless it is ignored or its directory has no policy. '
     'A path matched by two different configured entries terminates the '
     'program. Directories are listed completely, are entered exactly when '
     'they were found as directories, and every found file reports the type '
     'and attributes of the file itself.',
     ['inputs', 'configurations'],
     'every directory tree and configuration',
     'Tests search one fixed tree with few configurations.',
     ['src/search.c'],
     [('search steps', 'src/search.c searchGetNext')])

prop('P22', 'Resources are released once and never used afterwards',
     'Every file, directory, repository reader and writer that is opened is '
     'closed exactly once on every path which continues, and never used '
     'after it was closed or destroyed. No memory is used after it was '
     'released or freed twice.',
     ['inputs', 'fault_sequences'],
     'every path through the program, including failing operations',
     'Error paths are not executed by the tests.',
     ['src/safe-wrappers.c', 'src/repository.c', 'src/backup.c',
      'src/backup-helpers.c', 'src/restore.c', 'src/file-hash.c',
      'src/search.c', 'src/metadata.c', 'src/nb.c', 'src/integrity.c',
      'src/garbage-collector.c'],
     [('open/close pairs', 'all callers')])

prop('P23', 'Sizes never wrap around silently',
     'Every memory allocation whose size is computed from data of unbounded '
     'size detects an arithmetic overflow and terminates the program, as do '
     'all counters and totals that are accumulated over files. The checked '
     'operations report an overflow exactly when the mathematical result does '
     'not fit.',
     ['inputs'],
     'every size and count',
     'Overflows need sizes which tests cannot produce outside of the '
     'arithmetic helpers.',
     ['src/safe-math.c', 'src/str.c', 'src/metadata.c', 'src/repository.c',
      'src/string-table.c', 'src/safe-wrappers.c', 'src/backup.c',
      'src/informations.c', 'src/garbage-collector.c', 'src/integrity.c'],
     [('checked arithmetic', 'src/safe-math.c')])

prop('P24', 'The integrity check reports every damaged file version',
     'The integrity check examines every history entry of every recorded '
     'path, including the ones of removed paths, and reports a path whenever '
     'a stored content that one of its entries needs is missing, is not a '
     'regular file, has the wrong size or the wrong hash. If anything is '
     'reported, the program ends with a failing exit status. Contents which '
     'were already checked are never assumed to be healthy without having '
     'been found so.',
     ['inputs', 'histories'],
     'every metadata tree and repository content',
     'Tests damage a few files of one repository.',
     ['src/integrity.c', 'src/nb.c'],
     [('traversal and checks', 'src/integrity.c checkIntegrity'),
      ('exit status', 'src/nb.c runIntegrityCheck')])

prop('P25', 'Different contents get different names in the repository',
     'The name under which a content is stored and looked up is a function of '
     'every byte of its hash, its size and its slot number, each written '
     'unambiguously, so that it differs whenever one of them differs. '
     'Storing, reading, existence checks, garbage collection and integrity '
     'checks all use the same name for the same content.',
     ['inputs'],
     'every hash, size and slot',
     'Tests check two names.',
     ['src/repository.c', 'src/garbage-collector.c', 'src/integrity.c'],
     [('name building', 'src/repository.c buildFilePath')])

prop('P26', 'Every change makes the run ask and save',
     'Whenever a backup or restore found any added, removed, replaced, '
     'changed or dropped path, or a policy change, the change summary of the '
     'run is not empty (attributes of directories without a policy aside). '
     'Therefore no detected change is silently discarded: the user gets '
     'asked, and the new state is written.',
     ['inputs', 'histories'],
     'every kind of change at every position in the tree, with and without '
     'summarizing expressions',
     'Tests print a few kinds of changes.',
     ['src/informations.c', 'src/nb.c'],
     [('summary', 'src/informations.c printMetadataChanges, '
       'containsChanges')])

prop('P27', 'Recursive removal stays below its starting point',
     'Recursively removing a path never follows symbolic links: a link is '
     'removed itself and nothing behind it is visited. Every removed item is '
     'the starting path or an entry found by listing a directory below it, '
     'entries are removed before their directory, and items for which the '
     'decision function declines are left in place together with their parent '
     'directories.',
     ['inputs'],
     'every directory tree, including links to outside directories',
     'Tests remove a few small trees.',
     ['src/safe-wrappers.c'],
     [('removal', 'src/safe-wrappers.c sRemoveRecursively, '
       'sRemoveRecursivelyIf')])

prop('P28', 'Temporary strings and buffers are not used after being replaced',
     'A string or buffer living in a buffer that gets reused by a later call '
     'is never used after that later call, and never stored in anything that '
     'outlives it. This covers listed directory entries, search results, '
     'lines read from the user, link targets and terminated copies of paths.',
     ['inputs', 'histories'],
     'every order of calls that share a buffer',
     'Stale buffers often still contain the expected bytes in tests.',
     ['src/safe-wrappers.c', 'src/search.c', 'src/backup.c',
      'src/backup-helpers.c', 'src/nb.c', 'src/repository.c',
      'src/garbage-collector.c', 'src/integrity.c', 'src/informations.c'],
     [('reused buffers', 'src/safe-wrappers.c nullTerminate, sDirGetNext; '
       'src/repository.c path buffer; src/search.c path buffer')])

prop('P29', 'A restored tree equals the backed up tree byte for byte',
     'For every file tree and every sequence of backups, restoring any backup '
     'into an empty place yields a tree that is identical to the one that '
     'was backed up at that time in all names, types, contents and '
     'attributes.',
     ['inputs', 'histories'],
     'all file trees and backup sequences',
     'Tests compare a few small trees.',
     ['src/backup.c', 'src/metadata.c', 'src/restore.c'],
     [('whole program', 'src/nb.c')])

prop('P30', 'The content hash identifies contents',
     'Two files of equal size with different contents practically never get '
     'the same hash, and the hash of a file is independent of the block size '
     'with which it was read.',
     ['inputs'], 'all file contents and block sizes',
     'Tests check a few hashes.',
     ['src/file-hash.c', 'third-party/BLAKE2'],
     [('BLAKE2b', 'third-party/BLAKE2')])

prop('P31', 'Counts and sizes shown to the user are accurate',
     'The number of items and the sizes shown in change summaries, progress '
     'lines and statistics equal the true totals over the affected paths.',
     ['inputs', 'histories'], 'all change sets',
     'Tests check a few outputs.',
     ['src/informations.c', 'src/garbage-collector.c', 'src/nb.c'],
     [('statistics', 'src/informations.c')])

prop('P32', 'Lookups that find nothing never lead to a crash',
     'Whatever is looked up or asked for - a recorded path or state, the '
     'entry of a table, the next entry of a list or a directory, the end of '
     'a search, memory, an opened file - the result is only accessed where '
     'it exists: no path through the program dereferences a pointer that is '
     'null there, or the untested result of a lookup that can come up empty. '
     'Missing things are handled or reported instead.',
     ['inputs', 'histories', 'fault_sequences'],
     'all repositories, configurations, file systems and paths asked for',
     'A missing entry only shows up in tests which miss it at that place.',
     ['src/restore.c', 'src/backup.c', 'src/search.c', 'src/search-tree.c',
      'src/metadata.c', 'src/garbage-collector.c', 'src/integrity.c',
      'src/string-table.c', 'src/safe-wrappers.c'],
     [('findExistingPathState', 'src/restore.c'),
      ('strTableGet', 'src/string-table.c'),
      ('finishSearchStep', 'src/search.c')])

if __name__ == '__main__':
    with open('/verif/properties.jsonl', 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    print(len(P))
