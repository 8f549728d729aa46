"""Technique and assurance of each check, for MANIFEST.json."""
JOURNAL = ('TLA+ model checked by TLC (Journal), and TLC trace validation (JournalTrace) of recorded file operations of the real journal, '
           'with invariants evaluated for every power-failure and process-crash image of every state')
J_NOTE = ('exhaustive for the design within the bounds of Journal.cfg; for the code, every state reached by the recorded histories (all short '
          'sequences of writes and checkpoints, interrupted at every file operation, and random longer ones). Assumes that an 8-byte header slot is '
          'written atomically and that fsync makes previous writes durable.')
NOTES = {i: (JOURNAL, J_NOTE) for i in ('C01', 'C02', 'C03')}
SHARED = ('TLA+ refinement checked by TLC (SharedLogImpl, the locks and system calls, refines SharedLog, the serial history), and TLC trace '
          'validation (SharedLogTrace) of histories of the real clients scheduled at every file operation over one simulated shared file')
S_NOTE = ('exhaustive for the design with 2 writers or a writer and a reader, 1-2 transactions each, a kill anywhere; for the code, all schedules with few '
          'context switches of the listed programs and random schedules of random programs. Assumes that each system call on the file is atomic.')
NOTES.update({i: (SHARED, S_NOTE) for i in ('C04', 'C05', 'C06', 'C07')})
SERVER = ('TLA+ refinement checked by TLC (ServerImpl, coroutines, lock queue, timers and push writers, refines Server, one history and one lock '
          'handed on in order; wrong designs are rejected), and TLC trace validation (ServerTrace) of conversations of raw sessions with the real '
          'server, run step by step in virtual time')
V_NOTE = ('exhaustive for the design with 2-3 sessions and 3-5 requests; for the code, listed situations, random scripts of two or three sessions and '
          'random conversations of up to five, requests cut at any byte, timeouts fired at chosen virtual times.')
NOTES.update({i: (SERVER, V_NOTE) for i in ('C09', 'C10', 'C11', 'C13')})
REPLICA = ('TLA+ model checked by TLC (ReplicaImpl: copies, checks of content, pushes, lost replies, retries; wrong designs are rejected), and TLC trace '
           'validation (ReplicaTrace) of histories of the real clients (shared, robust, local, read-only, push, backup) connected to the real server '
           'through simulated connections that break at any byte')
R_NOTE = ('exhaustive for the design with 2 copies and a server within the bounds of ReplicaImpl.cfg; for the code, random programs of up to four clients with '
          'connections cut at a chosen byte, restarts of clients and of the server, and a final phase where all the copies must agree.')
NOTES.update({i: (REPLICA, R_NOTE) for i in ('C08', 'C12', 'C14', 'C15', 'C16')})
DATA = ('TLA+ specification of a database (Data: tables, fields, rows with types and default values, free lists, indexes, what is refused) checked by TLC, '
        'and TLC trace validation (DataTrace) of operations applied to interpreted and generated databases, where after every step the '
        'writer, its readers, and fresh replays of its file are dumped and compared to the state of the specification')
D_NOTE = ('exhaustive for small instances of the design (JournalCode: encoding of operations relative to the previous ones; FreeList: the freedom keepers; DataCheck); '
          'for the code, random sequences of valid and invalid operations over random schemas (interpreted) and one schema with every type, '
          'index and trigger that the compiler generates.')
NOTES.update({i: (DATA, D_NOTE) for i in ('C17', 'C18', 'C19', 'C20', 'C21')})
COPIES = ('TLA+ specification of copies of a database (Copies, over Data: what packed, merged, dumped, multiplexed, selected and interpreted copies contain; '
          'Text: how strings are written and read; MergeDesign, InplacePack: designs, with wrong ones rejected) checked by TLC, and TLC trace validation '
          '(CopiesTrace, TextTrace, InplacePackTrace) of what the real functions and command-line tools produce')
C_NOTE = ('exhaustive for tables of up to 3 records (MergeDesign), strings of 3 characters over the special bytes (TextCheck), the steps of packing in place; '
          'for the code, random histories in one or several sessions copied in every way, and merges of random databases.')
NOTES.update({i: (COPIES, C_NOTE) for i in ('C23', 'C24', 'C25', 'C26')})
NOTES['C22'] = ('TLA+ specification of versions of a program and the files that they open (Upgrade, over Data; UpgradeDesign: locks, one checkpoint, kills, '
                'with wrong designs rejected) checked by TLC, and TLC trace validation (UpgradeTrace) of what generated programs of three versions do with files',
                'exhaustive for the design with 2-3 processes, 3 versions, a kill anywhere; for the code, three generated versions of one schema (every statement, '
                'initial values, functions, single rows), files at every stage or foreign, every kind of opening, interleaved openings, deaths at any write.')
NOTES['C27'] = ('TLA+ specification of files as arrays of bytes with buffers, streams and copies on them (ByteFile; FileBufferDesign and StreamDesign refine it, '
                'wrong designs rejected) checked by TLC, and TLC trace validation (ByteFileTrace) of random operations on every kind of file',
                'exhaustive for the designs with a buffer of 3-4 bytes and files of 5-6 bytes; for the code, posix (exclusive, shared), portable, memory, stringbuf and '
                'filebuf files, offsets and sizes around the limits of buffers, truncated system calls, several cursors, copies and comparisons between kinds.')
NOTES['C28'] = ('TLA+ specification of encoded files (ByteFile with kills; EncodedDesign: blocks and write buffer, wrong designs rejected; EncodedLog: journals in such '
                'files) checked by TLC, and TLC trace validation of random operations, kills and reopenings of the real code',
                'exhaustive for the design with 2-3 blocks; for the code, identity and brotli codecs, writes below and above the 1 MB buffer, kills at any write of the '
                'file that holds the blocks, journals killed or closed and reopened.')
NOTES['C29'] = ('TLA+ specification of remote procedure calls (Rpc; RpcDesign: channels shared under a lock with the thread that keeps them alive, sessions, buffers; '
                'wrong designs rejected) checked by TLC, and TLC trace validation (RpcTrace) of a real server with generated clients and service',
                'exhaustive for the design with 2 clients of 2 threads, 3-4 calls, pings at any time; for the code, up to 3 connections of up to 3 threads, servers with 1 or 3 '
                'threads, 7 procedures with 3 schemas of messages, large messages and answers, errors before and after an effect, pings every millisecond, bytes moved in '
                'small pieces, connections broken after any byte and calls repeated, wrong signatures, bytes that are no call. The interleavings of the threads are those the '
                'scheduler gives.')
NA = {
 'C31': 'robustness of parsers against arbitrary bytes (memory safety, bounded allocation) is a property of code on inputs that no behaviour of the specification produces; fuzzing and sanitizers would decide it, not a model',
 'C32': 'a pure numeric function (SHA-256): there is no state or transition to specify',
}
