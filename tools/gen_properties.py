#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
J='src/joedb/journal/'; C='src/joedb/concurrency/'; I='src/joedb/interpreted/'; G='src/joedb/compiler/generator/'; U='src/joedb/ui/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=list(observe),hook_needed=hook)))

p('C01','A completed hard checkpoint survives any later power failure',
 "Once a hard checkpoint has returned, a power failure at any later moment, whatever subset of the writes not yet synchronised reached the disk, leaves a file that can be opened, whose hard checkpoint is at least that one, and whose log up to its hard checkpoint is byte for byte what was written. No intermediate state of a later (soft or hard) checkpoint makes the earlier hard checkpoint unrecoverable.",
 ['crash_points','histories'],"every sequence of writes, soft and hard checkpoints and reopenings; every crash point; every subset of unsynchronised writes that persists",
 "Tests build three or four damaged headers by hand; they never enumerate crash points or which unsynchronised writes survive.",
 [J+'Writable_Journal.cpp',J+'Readonly_Journal.cpp',J+'Header.h'],
 [('two alternating pairs of checkpoint copies, data synchronised between the two copies',J+'Writable_Journal.cpp: hard_checkpoint_at'),('validity rule when reading checkpoints',J+'Readonly_Journal.cpp: read_checkpoint')],
 [('checkpoint slots','four 64-bit positions, negative = soft',J+'Header.h'),('hard_index / soft_index','which pair and slot is current',J+'Readonly_Journal.h')],
 ['Abstract_File::pwrite/sync/datasync of a user-supplied file','Readonly_Journal::get_hard_checkpoint'])

p('C02','Checkpointed data survives a process crash at any point',
 "If the process using a file is killed at any point (the writes it has completed being kept), reopening the file recovers a log that is a prefix of what had been written, that ends at a checkpoint which had been asked for, and that contains everything covered by every soft or hard checkpoint that had returned, through any number of successive crashes and recoveries.",
 ['crash_points','histories'],"every kill point between two file operations, every history of checkpoints, crashes and recoveries",
 "No test kills a writer between two file operations; the only crash test writes a damaged header by hand.",
 [J+'Writable_Journal.cpp',J+'Readonly_Journal.cpp',J+'File_Buffer.cpp'],
 [('log data is flushed before the checkpoint that covers it is written',J+'Writable_Journal.cpp: soft_checkpoint_at, hard_checkpoint_at'),('soft checkpoints alternate between two slots, never over the current hard pair',J+'Writable_Journal.cpp: soft_checkpoint_at')],
 [('checkpoint slots','four positions',J+'Header.h')],['Readonly_Journal::get_checkpoint after reopening'])

p('C03','Recovery modes treat an uncheckpointed tail as documented',
 "When a file holds data after its last valid checkpoint, opening it for writing in the default mode is refused and leaves the file unchanged, a read-only journal stops at the checkpoint, the overwrite mode resumes exactly at the last valid checkpoint and nothing of the discarded tail (nor a checkpoint that pointed into or past it) ever becomes visible again, and the ignore-header mode takes the whole file as committed.",
 ['crash_points','histories','configurations'],"every file a crash can leave, every recovery mode, every continuation after recovery",
 "Tests check one aborted transaction and one damaged header; they do not continue working after recovering from the many files a crash can leave.",
 [J+'Journal_Construction_Lock.h',J+'Writable_Journal.cpp',J+'Readonly_Journal.cpp'],
 [('file size against checkpoint check',J+'Writable_Journal.cpp: constructor'),('soft checkpoints beyond the file size are ignored and neutralised',J+'Readonly_Journal.cpp: read_checkpoint, '+J+'Writable_Journal.cpp: constructor')],
 [],['Writable_Journal / Readonly_Journal construction','Writable_Journal::pull'])

p('C04','Readers see only committed, growing prefixes',
 "Whenever a reader opens a database file or pulls from it while other processes write to it, what it sees is the result of a prefix of the committed transactions, never part of a transaction and never an uncheckpointed one. That prefix contains everything committed before the reader's call started, and it never shrinks; the committed part of the file is never modified.",
 ['schedules','histories'],"every interleaving of file operations of readers and writers",
 "Tests open readers before or after a whole transaction, not between two file operations of a writer.",
 [J+'Readonly_Journal.cpp',J+'Writable_Journal.cpp',C+'Readonly_Client.h',J+'Journal_Construction_Lock.cpp'],
 [('shared lock on the head when reading checkpoints, exclusive when writing',J+'Readonly_Journal.cpp: pull'),('body is immutable, tail invisible until checkpoint',J+'Writable_Journal.cpp')],
 [],['Readonly_Journal construction and pull','Readonly_Client'])

p('C05','Transactions on a shared file are serialisable and never lost',
 "When several clients run transactions on the same shared file, the committed transactions form one sequence in which each appears exactly once, unmixed, and each transaction ran on the state left by all those before it. A transaction that returned success is in that sequence from then on, for every client and every later opening.",
 ['schedules','histories'],"every interleaving of any number of clients opening, pulling, running transactions and closing",
 "Tests run two clients in one thread, one call at a time; they exercise no interleaving inside a call.",
 [J+'Writable_Journal.cpp',C+'Writable_Client.h',C+'Writable_Journal_Client.h',C+'Writable_Database_Client.h',J+'Posix_File.cpp'],
 [('tail lock held around pull, transaction and checkpoint',J+'Writable_Journal.cpp: Tail_Exclusive_Lock, lock_pull'),('local state brought up to date before writing',C+'Writable_Client.h: start_transaction')],
 [('tail lock','exclusive right to append','last byte of the lockable range of the file')],
 ['Writable_*_Client::transaction, Client_Lock','file content'])

p('C06','Concurrent opening initialises a file once and loses nothing',
 "When any number of processes open the same new or existing shared file at the same time for reading or writing, the file is initialised exactly once, no committed transaction is ever overwritten by another process's opening, and opening an intact initialised file does not fail and sees everything committed before the call.",
 ['schedules'],"every interleaving of file operations of concurrent openings and transactions",
 "Tests open files one after the other; a race needs another process between two operations of a constructor.",
 [J+'Journal_Construction_Lock.cpp',J+'Writable_Journal.cpp',J+'Readonly_Journal.cpp'],
 [('construction under tail and head locks',J+'Journal_Construction_Lock.cpp'),('header written only for an empty file',J+'Writable_Journal.cpp: constructor')],
 [],['construction of journals and clients on a shared file'])

p('C07','A failed transaction is invisible and does not block others',
 "If the body of a transaction throws, or an open transaction is cancelled, nothing it wrote is ever visible to any other client or later reader, the locks it held are released so that others can proceed, and the failing client refuses further transactions instead of committing the cancelled data.",
 ['fault_sequences','schedules','histories'],"every point of a transaction body at which it can fail, every kind of client and connection, every continuation",
 "Tests fail one transaction body on one connection kind and look at the client itself.",
 [C+'Writable_Client.h',J+'Writable_Journal.cpp',C+'Server.cpp'],
 [('no checkpoint is written on failure, connection unlocked',C+'Writable_Client.h: transaction'),('locking with uncheckpointed data refused',J+'Writable_Journal.cpp: Tail_Exclusive_Lock')],
 [],['transaction and Client_Lock of all clients','other clients and the server file'])

p('C08','A replica is always a prefix of the history it follows',
 "After every pull, handshake or transaction, through any kind of connection, the committed content of a client's file is a prefix of the history of the server it follows, possibly followed by the client's own not yet pushed data; a pull that succeeds makes it contain everything the server had committed when the pull was asked for.",
 ['schedules','histories','inputs'],"every interleaving of pulls and pushes of several clients, every amount of data, every checkpoint difference",
 "Tests compare a handful of pulls of small transactions on one client at a time.",
 [C+'Server.cpp',C+'Server_Connection.cpp',C+'File_Connection.cpp',J+'Writable_Journal.cpp',J+'Async_Writer.h',J+'Async_Reader.cpp'],
 [('server sends bytes from the client checkpoint to its own',C+'Server.cpp: pull, send'),('client appends at its checkpoint, then checkpoints',C+'Server_Connection.cpp: pull, '+J+'Writable_Journal.cpp: pull_from')],
 [],['client and server file contents, checkpoints'])

p('C09','A push is applied entirely and without conflict, or not at all',
 "A server appends a pushed block exactly once, at the position the client claims, and only if that position is the server's current checkpoint and nobody else holds the write lock; otherwise it reports an error and its committed history does not change. When a push is acknowledged the whole block, byte for byte, is in the committed history, and history only ever grows by whole acknowledged or fully received blocks.",
 ['schedules','histories','inputs'],"every order of push, lock, unlock and pull requests of several sessions, every block size and split into packets",
 "Tests push once or twice per session and provoke a conflict in a single fixed order.",
 [C+'Server.cpp',C+'Server_Connection.cpp',C+'File_Connection.cpp'],
 [('conflict test and tail writer',C+'Server.cpp: push'),('conflict test for local connections',C+'File_Connection.cpp: push')],
 [('push_status, push_writer','outcome of the push being received',C+'Server.h')],
 ['wire protocol replies, server file'])

p('C10','The server write lock has one holder and is always handed on',
 "At any time at most one session holds the write lock of a server; sessions that ask for it while it is held are served in the order they asked; and when the holder unlocks, pushes with unlock, disconnects or times out, the lock goes to the next live waiting session or becomes free, so no waiting session is left behind.",
 ['schedules','fault_sequences'],"every order of lock, unlock, push, disconnection and timeout events of several sessions",
 "Tests use two or three sessions in one fixed order each.",
 [C+'Server.cpp',C+'Server.h','src/joedb/asio/Server.cpp'],
 [('lock flag and queue of waiting sessions',C+'Server.cpp: lock, unlock, cleanup')],
 [('locked / lock_waiters / locking','lock state, queue, holder',C+'Server.h')],
 ['replies of the wire protocol'])

p('C11','A lock timeout never lets a late client damage the history',
 "When the server takes the lock away from a session that kept it too long, before or in the middle of its push, the interrupted push has no effect and is reported as failed, and a later push of that session either extends the current history cleanly or is refused; data of other clients is never overwritten.",
 ['schedules','fault_sequences'],"every position of the timeout relative to the requests and packets of all sessions",
 "Tests trigger one timeout in an idle lock and one in a push, with no other client writing.",
 [C+'Server.cpp'],
 [('timer restarted at every packet; push cancelled on expiry',C+'Server.cpp: refresh_lock_timeout, push')],
 [('lock_timeout_timer','time of expiry',C+'Server.h')],['wire protocol replies, server file'])

p('C12','Losing a connection at any byte leaves both sides consistent',
 "If a connection is cut after any byte of any request or reply, the server releases what the session held, keeps serving the others, and its history contains the interrupted push entirely or not at all; the client's file keeps a valid prefix of committed history, and the client can reconnect and catch up.",
 ['fault_sequences','crash_points'],"every request kind, every cut position in either direction",
 "Tests cut two or three fixed positions of one push.",
 [C+'Server.cpp',C+'Server_Connection.cpp','src/joedb/asio/Server.cpp',J+'Async_Writer.h'],
 [('data becomes visible only by the final checkpoint',C+'Server.cpp: push, '+C+'Server_Connection.cpp: pull'),('cleanup of a dead session',C+'Server.cpp: cleanup')],
 [],['server file, client file, later sessions'])

p('C13','Waiting pulls return as soon as data arrives, and only then or at timeout',
 "A pull that is asked to wait returns at once if the server already has newer data, otherwise as soon as another client's push commits newer data, with that data, and otherwise empty, when the waiting time is over or when another client's push ended without adding data; no waiting pull is forgotten, and waiting never blocks other sessions.",
 ['schedules','histories'],"every order of waiting pulls, pushes, timeouts and disconnections of several sessions",
 "Tests use one waiting client and one push.",
 [C+'Server.cpp'],
 [('queue of waiting pulls woken at the end of a push',C+'Server.cpp: pull, push')],
 [('pull_waiters','sessions waiting for data',C+'Server.h')],['replies of the wire protocol'])

p('C14','Connecting detects divergence and respects pull-only servers',
 "Connecting a file to a server or to another file succeeds when one history is a prefix of the other, and, with the full content check, is refused whenever they differ anywhere in their common length, before any data is exchanged. A server or connection without write access accepts pulls and refuses locks and pushes without changing anything.",
 ['inputs','configurations'],"every pair of histories, position of the first difference, content-check mode and access mode",
 "Tests compare one equal pair and one pair differing at the start.",
 [C+'Server_Connection.cpp',C+'Server.cpp',C+'File_Connection.cpp',J+'File_Hasher.cpp'],
 [('hash or byte comparison over the common length',C+'Server.cpp: check_hash, '+C+'File_Connection.cpp: handshake')],
 [],['construction of clients; error reported'])

p('C15','Reading a file through a server gives the server\'s bytes',
 "Any range read through a connection, and any read or blob access through a file served by a server, returns exactly the bytes of the server's committed history (possibly fewer, never beyond the checkpoint), before and after pulls and transactions made through that file, including the bytes it has just written and not yet pushed.",
 ['inputs','histories'],"every offset and length, every history of pulls, transactions and pushes by this and other clients",
 "Tests read a few whole blobs.",
 [C+'Server_File.cpp',C+'Server_File.h',C+'Server_Connection.cpp',C+'Server.cpp'],
 [('head and tail kept in memory, body read from the server',C+'Server_File.cpp')],
 [],['Server_File::pread, read_blob'])

p('C16','A robust connection neither loses nor repeats a transaction',
 "Through a connection that reconnects automatically, every call either completes with the effect of having been executed once, or reports an error; after any sequence of network failures and server restarts the server's history contains each acknowledged transaction exactly once, one that reported an error at most once, and no other data.",
 ['fault_sequences','schedules'],"every position of a connection failure relative to requests and replies, every number of failures",
 "No test covers reconnection in the middle of a transaction or push.",
 [C+'Robust_Connection.cpp',C+'Robust_Connection.h'],
 [('retry after reconnection and content check',C+'Robust_Connection.h: try_until_success')],
 [],['server history, results of client calls'])

p('C17','Replaying a journal reproduces the state that wrote it',
 "For every sequence of operations written to a journal, by any succession of writers and clients appending to the same file, reading it back delivers the same operations with the same arguments in the same order, so that replaying it into an empty database gives exactly the tables, fields, records and values of the database that was being written.",
 ['programs','inputs','histories'],"every sequence of operations of every type, every value, every split into sessions, clients and replays",
 "Tests write a few fixed sequences; the compact encoding depends on the previous operation, so every pair of operations matters, across sessions too.",
 [J+'Writable_Journal.cpp',J+'Readonly_Journal.cpp',J+'File_Buffer.h',J+'Buffer.h',C+'Writable_Journal_Client.h'],
 [('context-dependent operation encoding kept in step by reader and writer',J+'Writable_Journal.cpp: generic_update, insert_into; '+J+'Readonly_Journal.cpp: one_step')],
 [('last table, record and field','context of the compact encoding',J+'Readonly_Journal.h')],
 ['Writable interface on replay','interpreted database state'])

p('C18','Compiled, interpreted and read-only databases agree',
 "Opening the same file with generated code (writable, read-only, or as a client) and with the interpreted database gives the same records, field values and record identifiers, and a generated writable database whose journal is replayed into a fresh instance is indistinguishable from the instance that wrote it, including iteration order and the identifiers it will allocate next.",
 ['programs','inputs','configurations'],"every sequence of operations on every kind of table and field",
 "Tests check individual accessors after fixed sequences.",
 [G+'Database_h.cpp',G+'Database_Writable_h.cpp',G+'Writable_Database_h.cpp',G+'Readonly_Database_h.cpp',I+'Table.cpp',I+'Field.h',I+'Database.cpp'],
 [('generated storage updates',G+'Database_h.cpp'),('interpreted storage updates',I+'Table.cpp')],
 [],['public accessors of generated classes and of the interpreted database'])

p('C19','Indexes always agree with the table, and unique means unique',
 "After any sequence of insertions, deletions, vector operations and updates, through the generated interface, replay or pull, each index contains exactly the live records at their current keys, lookups and ordered traversals give what a scan of the table gives, and an operation that would make two records share the key of a unique index is refused without changing the journal, any index, or what readers see (the writer may see the refused value in its own memory until it updates the field or abandons the transaction).",
 ['programs','histories'],"every sequence of operations on indexed fields, single and multi-column, unique or not, including refused ones",
 "Tests check a dozen fixed sequences.",
 [G+'Database_h.cpp',G+'Writable_Database_h.cpp'],
 [('removal from and insertion into every affected index around each update',G+'Database_h.cpp: add_index, remove_index, internal_update')],
 [],['find_by, get_index, range accessors of generated databases'])

p('C20','Record identifiers are never shared, and tables list exactly the live records',
 "A newly created record or vector never occupies an identifier in use, a deleted record is gone and its identifier may be reused without inheriting anything visible, and after any sequence of insertions and deletions (single or vector) iterating a table forwards or backwards visits each live record exactly once and nothing else, and counts agree.",
 ['programs','histories'],"every sequence of single and vector insertions and deletions",
 "Tests check fixed sequences on the allocator; the switch between its dense and list representations depends on the whole history.",
 ['src/joedb/Freedom_Keeper.h',I+'Table.cpp',G+'Database_h.cpp'],
 [('used and free lists, dense mode and the switch between them','src/joedb/Freedom_Keeper.h')],
 [('dense / list representation','which identifiers are used','src/joedb/Freedom_Keeper.h')],
 ['Freedom_Keeper interface; table iteration in both database kinds'])

p('C21','Schema operations keep identifiers stable and refuse invalid requests',
 "Tables and fields keep their identifiers for ever, whatever is created, renamed or dropped, and dropped identifiers are never reused; names stay unique and are valid identifiers; a schema operation affects only what it names, keeping all other data; a request that is invalid (unknown identifier, used name, bad name, wrong record) is refused and changes nothing.",
 ['programs','histories'],"every sequence of valid and invalid schema and data operations",
 "Tests check one refusal of each kind in one state.",
 [I+'Database_Schema.cpp',I+'Table.cpp',I+'Table.h',I+'Field.h'],
 [('monotone identifier counters and checks before mutation',I+'Database_Schema.cpp, '+I+'Table.cpp')],
 [],['interpreted database interface'])

p('C22','Automatic schema upgrade is exact, once, and refuses foreign schemas',
 "Opening a file whose schema is a prefix of the program's schema applies exactly the missing changes once, keeps all existing data, gives added fields their default values and runs each upgrade function once at its place; the result can be reopened with no further change, also when the process dies during the upgrade. A file whose schema is not a prefix, or a read-only file that needs upgrading, is refused unchanged.",
 ['configurations','crash_points','programs'],"every schema history, every pair of versions, every content, every crash point of the upgrade",
 "Tests upgrade one version pair with one content.",
 [G+'Writable_Database_cpp.cpp',G+'Database_Writable_h.cpp',G+'Client_h.cpp'],
 [('schema journal compared with the compiled one; missing suffix replayed',G+'Writable_Database_cpp.cpp: auto_upgrade; '+G+'Database_Writable_h.cpp: check_schema')],
 [],['construction of generated databases and clients'])

p('C23','Packing and merging preserve the content of databases',
 "Packing a database, into another file or in place, yields a database with the same tables, fields, records and values and no trace of the history of the data, and the in-place version replaces the file only by a complete one. Merging databases of the same schema yields all records of all inputs, each reference pointing to the record that corresponds to its original target.",
 ['inputs','programs'],"every database content and history, including dropped tables and fields, deleted records, vectors, references to anything",
 "Tests pack and merge one small database.",
 [U+'dump.cpp',U+'inplace_pack.cpp',U+'merge.cpp',U+'joedb_pack.cpp',U+'joedb_merge.cpp'],
 [('content written out table by table',U+'dump.cpp'),('record identifiers shifted, references mapped',U+'merge.cpp')],
 [],['interpreted database read from the output'])

p('C24','A database dumped as text and interpreted again is the same',
 "For every database, feeding the interpreter with the textual dump of its journal or of its content recreates a database with the same schema, records and values, whatever bytes strings and blobs contain and whatever values numbers take; a file interpreted from text and written to keeps its text equivalent to what was written.",
 ['inputs','programs'],"every sequence of operations, every value of every type",
 "Tests dump one fixed database and compare text.",
 [U+'Interpreter_Dump_Writable.cpp',U+'Writable_Command_Processor.cpp',U+'Data_Manipulation_Command_Processor.cpp',U+'type_io.cpp',J+'Interpreted_File.cpp'],
 [('printer and parser of commands and values',U+'Interpreter_Dump_Writable.cpp, '+U+'type_io.cpp')],
 [],['interpreted database read from the text'])

p('C25','Blobs read back as written, everywhere',
 "A blob handle returned by a write denotes exactly the bytes written, at once, after checkpoint, after reopening, in every replica and through every kind of file; blobs are counted as part of the transaction that wrote them; replaying or converting a journal copies them, or skips them, without disturbing anything else.",
 ['inputs','histories','configurations'],"every size, every mix with other operations, every file, every replica",
 "Tests write two or three blobs.",
 [J+'Writable_Journal.cpp',J+'Readonly_Journal.cpp',J+'Abstract_File.cpp','src/joedb/Writable.h',U+'process_journal_pair.cpp',U+'joedb_convert.cpp'],
 [('position recorded before the bytes',J+'Writable_Journal.cpp: write_blob')],
 [],['read_blob of files, clients and databases'])

p('C26','Multiplexed writes reach every destination alike',
 "Everything written to a multiplexer reaches every one of its destinations once, in the same order and with the same values, blobs included, so that destinations starting from the same state end in the same state; a selective writer forwards exactly the operations of the kinds it was asked for, in order.",
 ['programs','configurations'],"every sequence of operations and set of destinations",
 "Tests forward a few operations to two destinations.",
 ['src/joedb/Multiplexer.cpp','src/joedb/Multiplexer.h','src/joedb/Selective_Writable.cpp','src/joedb/Selective_Writable.h','src/joedb/Writable.cpp'],
 [('forwarding of each operation','src/joedb/Multiplexer.cpp')],
 [],['Writable interface'])

p('C27','Every file kind behaves as one array of bytes',
 "For every kind of file, reading returns the bytes most recently written at those offsets whatever the mix of offsets, sizes and truncated system calls, writing past the end extends the file, and reads stop at the end; buffered access through the journal's buffer gives the same bytes and positions as unbuffered access for every sequence of writes, flushes, seeks and reads.",
 ['inputs','programs'],"every sequence of reads and writes at all offsets and sizes around buffer boundaries, every short read or write",
 "Tests check fixed sequences on each file kind.",
 [J+'File_Buffer.h',J+'File_Buffer.cpp',J+'Memory_File.cpp',J+'Posix_File.cpp',J+'Stream_File.cpp',J+'Portable_File.cpp',J+'Async_Reader.cpp',J+'Async_Writer.h',J+'Abstract_File.cpp',J+'File_Iterator.h'],
 [('loops over partial transfers, buffer index bookkeeping',J+'Posix_File.cpp, '+J+'File_Buffer.h')],
 [],['pread, pwrite, File_Buffer interface'])

p('C28','Encoded files store the same bytes and never lose committed data',
 "A file stored in encoded (for instance compressed) form reads back, during and after writing and after reopening, the bytes most recently written at each offset, and a journal kept in such a file replays exactly what was written before its last checkpoint.",
 ['inputs','programs'],"every sequence of writes, reads and reopenings",
 "Tests write two fixed sequences.",
 [J+'Encoded_File.cpp',J+'Readonly_Encoded_File.cpp',J+'Encoded_File.h'],
 [('write buffer flushed into encoded blobs; newest overlapping one wins',J+'Encoded_File.cpp')],
 [],['pread, pwrite of encoded files'])

p('C29','Remote procedure calls run once, alone, and return their own result',
 "Each procedure call made by a client is executed exactly once by the server (at most once if the connection breaks before the answer), never at the same time as another one on a server with one thread, on the arguments sent and on nothing else, and its caller gets the resulting message, or the error text if it failed; a failing call or a broken connection leaves the caller's message as it was and disturbs no other call, keeping connections alive disturbs none either, bytes that are no call execute nothing, and a client whose procedures do not match the server's is refused.",
 ['schedules','inputs','fault_sequences'],"every interleaving of calls of several clients, failing calls, pings and disconnections",
 "Tests call a procedure a few times from one client.",
 ['src/joedb/rpc/Server.h','src/joedb/rpc/Client.h','src/joedb/rpc/Procedure.h','src/joedb/rpc/get_hash.cpp'],
 [('message journal shipped both ways','src/joedb/rpc/Client.h, src/joedb/rpc/Server.h')],
 [],['rpc::Client calls'])

p('C30','Open modes and file locks exclude as documented',
 "Each mode of opening a file creates, requires or rejects an existing file as documented; while one process has a file open in a mode that locks it for writing, no other opening for writing succeeds (it fails or waits as its mode says), and a lock is released when its owner closes or dies; range locks admit many shared holders or a single exclusive one.",
 ['schedules','configurations'],"every pair of open modes, every order of opening, locking and closing by several processes",
 "Tests open a locked file twice in fixed orders.",
 [J+'Posix_File.cpp',J+'Posix_File.h',J+'Open_Mode.h'],
 [('file-description locks on byte ranges',J+'Posix_File.cpp: lock, try_lock')],
 [],['construction of File, lock calls'])

p('C31','Malformed input never causes undefined behaviour',
 "Any sequence of bytes given as a database file, a network message or a command is either processed or rejected with an error, without memory corruption, endless loops or unbounded allocation.",
 ['inputs'],"every byte string",
 "Fuzz targets exist but sample inputs.",
 [J+'Readonly_Journal.cpp',J+'File_Buffer.h',C+'Server.cpp'],
 [('size and range checks while reading',J+'Readonly_Journal.cpp')],[],[])

p('C32','Hash codes are SHA-256 of the journal content',
 "The hash used to compare journals is the SHA-256 code of their content up to a checkpoint, computed over the documented ranges.",
 ['inputs'],"every content and checkpoint",
 "Tests compare a few known vectors.",
 [J+'SHA_256.h',J+'File_Hasher.cpp'],[('block hashing',J+'SHA_256.h')],[],[])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
