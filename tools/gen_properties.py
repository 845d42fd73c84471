#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Metadata survives a write/load round trip",
 "Writing a repository's metadata and loading the file again yields the same information: every backup that is still referenced with its completion time and relative order, the config history, and the whole tree of paths with name, policy and complete history (state type, owner, group, permissions, modification time, file size, hash and slot or inline content, symlink target). Only backups that no state references any more and paths marked as wiped are left out.",
 ["inputs"], "all metadata trees, all field values (including extreme 32/64 bit values), any number of paths, history points and backups",
 "The tests round-trip a handful of hand-built trees; field widths, the inline-content boundary, unreferenced-backup compaction and wiped paths interact in unboundedly many trees.",
 ["src/metadata.c","src/metadata.h"],
 [("metadataWrite/writePathList/writePathHistoryList/write64","src/metadata.c"),("metadataLoad/readPathSubnodes/readFullPathHistory/readPathHistory/read64","src/metadata.c")],
 [("Metadata","in-memory metadata","src/metadata.h")], ["metadata file bytes","Metadata returned by metadataLoad"])

prop("C02", "Loading metadata accepts only well-formed files",
 "For every byte sequence found in a metadata file, loading either fails with an error message or consumes the file exactly and yields a well-formed tree: every value comes from inside the file, every backup reference is in range, every path element is non-empty, has no slash and is not \".\" or \"..\", every state type and policy is a defined one, every path has at least one history state and its full path is its parent's path plus its own name. Truncated, over-long or corrupted files never cause an access outside the file's content.",
 ["inputs"], "all byte sequences", "The tests feed a few truncated and corrupted files; only reasoning over every read position covers all byte sequences.",
 ["src/metadata.c"], [("assertBytesLeft/read*/assertions in metadataLoad","src/metadata.c")], [], ["metadataLoad result or error exit"])

prop("C03", "Repository files are published atomically and durably",
 "A file appears under its final name in the repository only after its complete content has been written to the temporary file, flushed to stable storage and closed without error; it is moved there by a single rename, after which the directory entries are synced. At whatever point the process or machine stops, every final name either has its previous content or the complete new content, and directories leading to a stored file are durable before the file is referenced.",
 ["crash_points","fault_sequences"], "every crash point and every failing system call during storing a data file or the metadata file",
 "The tests only look at the final state after a successful run; they never see the order of write, fsync, rename and directory sync, nor failures in between.",
 ["src/repository.c","src/safe-wrappers.c","src/metadata.c"], [("repoWriterOpenFile/Raw, repoWriterWrite, repoWriterClose","src/repository.c"),("fTodisk, fDatasync, sFclose, sRename","src/safe-wrappers.c")],
 [("temporary file","unpublished content","src/repository.c")], ["system call order"])

prop("C04", "A backup commits data before metadata and only after consent",
 "The backup command takes the exclusive repository lock before reading the metadata and changes nothing in the repository before the user has agreed. After agreement all changed data files are stored first, then the metadata is written, and only after that unreferenced data is deleted; declining or an error leaves the previously published metadata and every file it references in place. The restore command likewise changes nothing before consent, and the gc and integrity commands only operate on the metadata loaded under a lock.",
 ["histories","inputs","fault_sequences"], "all command lines, user answers, repository states and failure points",
 "The full program tests check the output of a few scripted runs; they do not observe the order of the steps or runs that fail midway.",
 ["src/nb.c","src/backup.c"], [("main, backup, restore, runGC, ensureUserConsent","src/nb.c"),("finishBackup","src/backup.c")], [], ["order of repository operations"])

prop("C05", "Stored file names are unique per hash, size and slot",
 "The repository location of a stored file is determined by its hash, size and slot alone, and two files that differ in any of them never share a location. When a file with equal hash and size is already stored, its content is compared byte for byte: the existing copy is reused only if it is identical, otherwise the next free slot is used, and running out of slots is an error. Existing stored files are never overwritten.",
 ["inputs","histories"], "all hashes, sizes, slots and all contents of already stored candidates",
 "Hash collisions and slot exhaustion are practically unreachable with real files; tests use a few fixed hashes.",
 ["src/repository.c","src/backup.c"], [("repoBuildRegularFilePath","src/repository.c"),("searchFileDuplicates/equalsToStoredFile/addFileToRepo","src/backup.c")], [("slot","collision counter","RegularFileInfo in src/repository.h")], ["file names below the repository"])

prop("C06", "Backed up content is exactly the content of the source file",
 "For every new or changed regular file, a finished backup records the file's size and content: small files (not larger than a hash) byte for byte inline, larger files by the hash of all their bytes together with a stored copy that holds exactly these bytes, however large the file is. If a file's modification time has changed since it was scanned, or it turns out shorter or longer than recorded when it is read, the backup fails with an error instead of recording a mixture; every added or changed path of the tree is processed and unchanged ones are not stored again.",
 ["inputs","schedules","fault_sequences"], "all file sizes and contents, concurrent modifications between scanning and copying",
 "Tests use small files that do not change while the backup runs; block boundaries and concurrent truncation are not exercised.",
 ["src/backup.c","src/file-hash.c"], [("finishBackupRecursively/copyFileIntoRepo/addFileToRepo","src/backup.c"),("fileHash","src/file-hash.c"),("sFread, sFbytesLeft","src/safe-wrappers.c")], [], ["repository file content","PathState"])

prop("C07", "Changes of a path are detected exactly",
 "When a known path is found again with the same file type, the backup marks it as changed exactly for the attributes that differ from its latest recorded state: owner or group, permission bits, modification time, size or content of a regular file, and target of a symlink. The recorded state is updated to the new values of exactly these attributes; a file whose size and modification time are unchanged is treated as unchanged in content, and a file whose size is unchanged but whose timestamp differs is compared by its content.",
 ["inputs"], "all combinations of recorded state and current file attributes",
 "The tests cover a few single-attribute changes; combinations of attribute changes, inline/hash boundary and hash prefixes are not enumerated.",
 ["src/backup-helpers.c"], [("applyNodeChanges","src/backup-helpers.c")], [], ["PathNode hint and state after applyNodeChanges"])

prop("C08", "Policies decide what is recorded for paths found on the system",
 "For every path found during a backup: a new path gets one state belonging to the current backup; an unchanged path keeps its recorded states; a changed path with the track policy gets a new state in front of its preserved history, while with the other policies its single state is replaced. Changing the policy from track to another one reduces the history to the latest state (if that is no directory, paths recorded below are discarded and treated as new where they are found again), changing it to track keeps the latest state as start of the history, and the number of states counted for every backup equals the number of states that refer to it.",
 ["inputs","histories"], "all histories, policies, policy changes, file types and type changes",
 "Tests drive a fixed sequence of backups over a fixed directory; the product of policy, policy change, type change and history shape is far larger.",
 ["src/backup.c"], [("initiateMetadataRecursively/handleFoundNode/handlePolicyChanges/handleFiletypeChanges/handleNodeChanges","src/backup.c")], [("ref_count","states per backup","Backup in src/metadata.h")], ["PathNode history, policy and hint"])

prop("C09", "Policies decide what happens to paths missing from the system",
 "A recorded path that is no longer found, is ignored, or has lost its parent: with the copy policy it is kept unchanged unless its replacement demands otherwise, with the mirror policy it is removed from the backup, with the track policy a non-existing state of the current backup is prepended once, leaving older history intact; a path that is no longer covered by the configuration is removed from the backup together with its history. Removed paths release exactly the backup references of their states.",
 ["inputs","histories"], "all recorded trees, policies and sets of missing paths",
 "Tests remove a few fixed files under fixed policies.",
 ["src/backup.c"], [("handleNotFoundSubnodes/handleRemovedPath/markAsRemovedRecursively/prepareNodeForWiping","src/backup.c"),("initiateBackup","src/backup.c")], [], ["PathNode history, hint and backup reference counts"])

prop("C10", "Restore selects the recorded state of the requested backup",
 "Restoring a path to backup id N affects exactly that path, everything recorded below it and its missing parent directories. For each affected path the state that was current at backup N is chosen: for tracked paths the newest state whose backup is N or older (none means the path did not exist then), for the other policies the latest state. A path is marked for restoring if and only if its state on the system (looking through symlinks unless a symlink is recorded) differs from the chosen one, and asking for a path that is not recorded or did not exist at backup N is an error.",
 ["inputs","histories"], "all histories, ids, policies, tree shapes and current file system states",
 "restore.c has no unit tests; the full program tests restore a few fixed histories.",
 ["src/restore.c"], [("initiateRestore/initiateRestoreRecursively/searchExistingPathState/checkAndHandleChanges","src/restore.c")], [], ["PathNode hints after initiateRestore"])

prop("C11", "Restore reproduces the recorded state",
 "After a successful restore every affected path has exactly the chosen recorded state: type, complete content or symlink target, owner, permission bits and modification time (symlinks: owner and target); what is in the way of a path of another type is removed, and directories get their timestamp after their content is in place. Implicit parent directories that exist already, paths without differences and paths that did not exist at that backup are not touched, and if the stored data is missing or truncated the restore fails with an error.",
 ["inputs","histories","fault_sequences"], "all recorded states, all current states, all tree shapes, all contents and sizes",
 "restore.c has no unit tests; the attributes restored depend on combinations of hints and types that a few scripted restores do not enumerate.",
 ["src/restore.c"], [("finishRestore/finishRestoreRecursively/restoreFile","src/restore.c")], [], ["file system after finishRestore"])

prop("C12", "Garbage collection deletes exactly the unreferenced files",
 "Garbage collection removes a file or directory in the repository if and only if it is neither the config, the metadata or the lock file, nor a stored file referenced by some history state of some path in the metadata, nor a directory leading to one. It reports the number and total size of the removed files, never follows symlinks out of the repository, and never removes data referenced only by older history states.",
 ["inputs","histories"], "all metadata trees and all repository contents",
 "Tests collect garbage in one small repository; that no referenced file is ever deleted is a for-all statement over trees and histories.",
 ["src/garbage-collector.c","src/safe-wrappers.c"], [("collectGarbageProgress/populateTableRecursively/recurseIntoDirectory","src/garbage-collector.c"),("sRemoveRecursivelyIf","src/safe-wrappers.c")], [], ["set of deleted files","GCStatistics"])

prop("C13", "The integrity check reports exactly the damaged paths",
 "The integrity check reports a path if and only if at least one of its recorded history states refers to a stored file that is missing, is not a regular file, has another size or has a content whose hash differs from the recorded one; each such path is reported once. Every distinct stored file is checked completely, whatever its size, results are reused only for the same stored file, and the check never modifies the repository.",
 ["inputs","histories","fault_sequences"], "all metadata trees, histories, and contents of the stored files",
 "Tests damage a few fixed files; that every state of every path is examined with the right verdict is a for-all statement.",
 ["src/integrity.c"], [("checkIntegrity/checkPathHistory/fileHash","src/integrity.c")], [], ["list of broken paths"])

prop("C14", "The configuration is parsed by its documented grammar",
 "Every line of a configuration is either blank or a comment and ignored, a policy header, an expression (under ignore and summarize) or an absolute path (under copy, mirror and track); anything else, null bytes, an unknown policy, a pattern before any policy, a path with \".\" or \"..\" elements and a repeated definition are errors naming the right line. Each defined path gets exactly the policy of its section, intermediate elements inherit the nearest defined parent policy, an element after an extra slash is a regular expression, and lines are split at every newline whether or not the last one is terminated.",
 ["inputs"], "all configuration texts",
 "Tests parse a few dozen hand-written configs.",
 ["src/search-tree.c"], [("searchTreeParse/getLine/newNode/inheritPolicyToSubnodes","src/search-tree.c")], [], ["SearchNode tree or error"])

prop("C15", "The file system walk visits every configured path exactly once",
 "The search visits every path covered by the configuration exactly once, parents before children, each with the policy of the matching configuration entry or otherwise the policy inherited from its directory, and reports the end of each directory once after all its entries. Paths matching an ignore expression are never reported unless explicitly configured, symlinks are followed only for configured paths which have further configured paths below them, and a directory entry matched by several configuration entries (a name and regular expressions) is an error.",
 ["inputs","configurations"], "all configuration trees and directory contents",
 "Tests walk one fixed directory tree with a few configs.",
 ["src/search.c"], [("searchGetNext/finishDirectory/finishNodeStep/finishSearchStep/finishCurrentNode/recursionStep","src/search.c")], [("DirSearchStateStack","saved parent states","src/search.c")], ["sequence of SearchResults"])

prop("C16", "The string table behaves like a map for any number of entries",
 "Looking up a path in the internal string table returns the value that was associated with a key of equal length and bytes, and nothing if no such key was ever mapped; this holds for any number of entries, through every internal growth step, for keys that collide and for keys containing any byte.",
 ["inputs","histories"], "all sequences of insertions and lookups, all keys",
 "Tests insert a few hundred fixed keys with random hashing; collision chains and growth are not controlled.",
 ["src/string-table.c"], [("strTableMap/strTableGet/doubleTableCapacity","src/string-table.c")], [], ["strTableGet results"])

prop("C17", "Path string operations are exact for all strings",
 "Copying, comparing, splitting and joining path strings give exactly the specified result for every string, terminated or not, empty or not: joining yields parent, one slash and name; splitting yields the part before and after the last slash without trailing slashes in the head; stripping removes exactly the trailing slashes; whitespace, \".\"/\"..\" element and parent tests hold exactly when the definition says so. No operation reads or writes outside the given string.",
 ["inputs"], "all strings of any length",
 "Tests use a few dozen literals.",
 ["src/str.c"], [("str*, strSplitPath, strAppendPath, strStripTrailingSlashes, strIsParentPath, strPathContainsDotElements","src/str.c")], [], ["return values"])

prop("C18", "Size arithmetic never wraps silently",
 "Size additions, multiplications and differences used for allocation sizes, file sizes and counters yield the exact mathematical result or end the program with an error, and parsing a number from the command line yields the exact value or an error. No computed size passed to memory allocation is smaller than the memory afterwards used.",
 ["inputs"], "all operand values", "Tests check a few boundary values.",
 ["src/safe-math.c","src/safe-wrappers.c","src/allocator.c"], [("sSizeAdd/sSizeMul/sUint64Add/sUint64Mul/sUint64GetDifference","src/safe-math.c"),("sStringToSize","src/safe-wrappers.c"),("allocate","src/allocator.c")], [], ["return values or error exit"])

prop("C19", "The repository lock excludes concurrent writers",
 "At every moment at most one process holds the lock of a repository, whatever the interleaving of other processes locking and releasing it at the same time. A command proceeds only after it has obtained the lock and a failed attempt is an error; only a command that merely reads may proceed without a lock when the lockfile can not be created because the file system is read-only. The lock is released when its owner is finished.",
 ["schedules","configurations"], "all interleavings of locking and unlocking processes, all lock hints and file system errors",
 "The tests take one lock in one process and one conflicting attempt.",
 ["src/repository.c"], [("repoLock/cleanupLockfile","src/repository.c")], [("lockfile","advisory lock owner","<repo>/lockfile")], ["lock system calls"])

prop("C20", "The change summary counts and lists exactly the changes",
 "Before asking for consent, the summary lists exactly once every path that is new, removed, lost, of changed type, content, attributes or policy, except: implicit parent directories (without a policy) that are new or of which only attributes (owner, permissions, timestamp) changed; directories of which only the timestamp changed, because of changes below; and everything below a directory that is new, removed, lost, changed its type or nothing but its policy, or matches a summarize expression (such a directory is listed if anything changed inside). Its totals equal the number and the total size of all new, removed, lost and content-changed paths of the whole tree, listed or not, each counted once, and it claims that there are no changes exactly if every path is unchanged, apart from attributes of implicit parent directories.",
 ["inputs"], "all metadata trees with all combinations of change hints",
 "Tests print a few fixed trees; the combinations of hints, types and nesting are not enumerated.",
 ["src/informations.c"], [("printMetadataChanges/recursePrintOverTree/addNode/containsChanges","src/informations.c")], [], ["ChangeSummary"])

prop("C21", "Failed or short I/O operations are never ignored",
 "Every file system operation the program performs either has its full requested effect on exactly the requested path or stream, or the program ends with an error: short reads, failed or short writes, failed flushes, failed closes, and failed metadata changes are all detected. Symlinks are inspected and modified themselves, not their targets, by the operations meant for symlinks.",
 ["fault_sequences","inputs"], "every failure of every system call at every position",
 "Tests cannot make individual system calls fail; they cover a few permission errors.",
 ["src/safe-wrappers.c"], [("sFread, sFwrite, fWrite, fTodisk, sFclose, sStat, sLStat, sMkdir, sSymlink, sRename, sChmod, sChown, sLChown, sUtime, sRemove, sGetFilesContent","src/safe-wrappers.c")], [], ["system calls and error exits"])

prop("C22", "Recursive deletion stays inside and follows no symlinks",
 "Recursive deletion removes a path and everything below it, children before their directory, deletes symlinks themselves without following them, and touches nothing outside of the given path. With a condition, exactly the entries are deleted for which the condition holds, a directory is only removed when nothing inside it was kept, and the condition is asked for every entry with its own path and information.",
 ["inputs","configurations"], "all directory trees and all predicates",
 "Tests delete one small tree.",
 ["src/safe-wrappers.c"], [("sRemoveRecursively/sRemoveRecursivelyIf","src/safe-wrappers.c")], [], ["removed paths"])

prop("C23", "Allocated memory is fresh, large enough and freed exactly once",
 "Memory handed out by a region is aligned, at least as large as requested and overlaps no other live allocation; all memory and every attached cleanup function is released exactly once, in reverse order of attachment, when the region is released or the program ends. Growable buffers keep returning usable memory of the requested size.",
 ["inputs","histories"], "all sequences of allocations, attachments and releases, all sizes",
 "Tests allocate a few fixed sizes.",
 ["third-party/CRegion/region.c","third-party/CRegion/alloc-growable.c","src/allocator.c"], [("CR_RegionAlloc*/CR_RegionAttach/CR_RegionRelease","third-party/CRegion/region.c"),("CR_EnsureCapacity","third-party/CRegion/alloc-growable.c"),("allocate","src/allocator.c")], [], ["returned pointers"])

prop("C24", "Configuration entries without a proper match are reported exactly",
 "Every backup reports, on the standard error output and before asking for consent, each configuration entry that did not match as intended, once, as a line with its line number, whether it is a string or regex, and its name: entries which have never matched (said to be a directory if the configuration has entries below them, otherwise a file), entries with entries below them that matched no directory, or not only directories, and ignore and summarize expressions which have never matched a path or directory. Entries below an entry that matched no directory are not reported, and nothing else is. The marks behind it are exact: an entry is marked with the types of precisely the files it has matched, and an expression is marked only if it matched, by the search or the summary. If two entries match the same name, both are named with it.",
 ["configurations","inputs"], "all configurations, all combinations of match results, all file systems",
 "Tests cover few marks and never inspect the printed warnings; a missing or wrong warning lets a configuration mistake silently exclude files from all backups.",
 ["src/informations.c","src/search.c"], [("printSearchTreeInfos/printSearchNodeInfos/warnUnmatchedExpressions/warnNodeMatches","src/informations.c"),("finishNodeStep/finishSearchStep","src/search.c"),("matchesRegexList","src/informations.c"),("backup","src/nb.c")], [], ["warnings on stderr"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
