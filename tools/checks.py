"""What each check runs.  A check is a function of a context (see engine.py)."""
import os, family
CHECKS = {}


def check(*ids):
    def deco(f):
        for i in ids:
            CHECKS[i] = f
        return f
    return deco


@check('C01', 'C02', 'C03')
def journal(c):
    c.build('journal_disk')
    c.model('Journal', 'Journal')
    c.assumptions += ['a write system call is atomic for the 8-byte header slots it covers',
                      'sync makes everything written so far durable']
    rounds = 8 if c.thorough else 1
    for i in range(rounds):
        c.traces_of('journal_disk', 'JournalTrace',
                    [c.seed * 100 + i, 1500 if c.thorough else 500, 2 if c.thorough else 1, c.scratch])


@check('C04', 'C05', 'C06', 'C07')
def shared(c):
    c.build('shared_log')
    for cfg in ('', 'Two', 'Kill') + (('Deep', 'Deep2', 'Deep3') if c.thorough else ()):
        c.model('SharedLogImpl', 'SharedLogImpl' + cfg, timeout=900)
    # the designs that were wrong: the model must tell
    c.model_fails('SharedLogImpl', 'SharedLogImplEarly')
    c.model_fails('SharedLogImpl', 'SharedLogImplLate')
    c.assumptions += ['a system call on the file is atomic', 'locks of a dead process are released']
    for i in range(20 if c.thorough else 1):
        c.traces_of('shared_log', 'SharedLogTrace', [c.seed * 100 + i, 1500 if c.thorough else 600, 2 if c.thorough else 1])


def server_design(c):
    for cfg in ('', 'Push', 'Time', 'Leave', 'Pull', 'Live') + (('Deep2',) if c.thorough else ()):
        c.model('ServerImpl', 'ServerImpl' + cfg, timeout=900)
    for wrong in ('Stale', 'Late', 'Free', 'Keep'):
        c.model_fails('ServerImpl', 'ServerImpl' + wrong)


@check('C09', 'C10', 'C11', 'C13')
def server(c):
    c.build('server_proto')
    server_design(c)
    c.assumptions += ['bytes sent through a socket arrive in order', 'the event loop runs one coroutine at a time']
    for i in range(12 if c.thorough else 1):
        c.traces_of('server_proto', 'ServerTrace', [c.seed * 100 + i, 3000 if c.thorough else 800, 2 if c.thorough else 1])


@check('C08', 'C12', 'C14', 'C15', 'C16')
def replica(c):
    c.build('replica', 'server_proto')
    c.model('ReplicaImpl', 'ReplicaImpl')
    for wrong in ('Position', 'Blind', 'Check', 'Keep'):
        c.model_fails('ReplicaImpl', 'ReplicaImpl' + wrong)
    c.assumptions += ['bytes sent through a socket arrive in order', 'a broken connection stays broken']
    for i in range(12 if c.thorough else 1):
        c.traces_of('replica', 'ReplicaTrace', [c.seed * 100 + i, 3000 if c.thorough else 1500, 2 if c.thorough else 1])
    if c.prop in ('C12', 'C15', 'C16'):
        for i in range(6 if c.thorough else 1):
            c.traces_of('server_proto', 'ServerTrace', [c.seed * 100 + 50 + i, 3000 if c.thorough else 400, 2 if c.thorough else 1])


@check('C17', 'C18', 'C19', 'C20', 'C21')
def data(c):
    c.build('data_model')
    c.model('DataCheck', 'DataCheck')
    if c.prop in ('C17', 'C18'):
        c.model('JournalCode', 'JournalCodeDeep' if c.thorough else 'JournalCode')
        c.model_fails('JournalCode', 'JournalCodeWrong')
    if c.prop in ('C18', 'C20'):
        c.model('FreeList', 'FreeListDeep' if c.thorough else 'FreeList')
        c.model_fails('FreeList', 'FreeListReader')
        c.model_fails('FreeList', 'FreeListEnds')
    if c.prop == 'C17':
        r = c.run_harness('data_model', [os.path.join(c.scratch, 'k.json'), c.seed, 1, 'k'])
        c.finding('big-vector', not r['big_vector'], 'a file with a vector of more records than its size in bytes cannot be opened again')
    a, b = {'C17': (600, 150), 'C18': (150, 400), 'C19': (50, 500), 'C20': (300, 300), 'C21': (800, 50)}[c.prop]
    for i in range(10 if c.thorough else 1):
        for part, n in (('a', a), ('b', b)):
            c.traces_of('data_model', 'DataTrace', [c.seed * 100 + i, n * (2 if c.thorough else 1), part])


@check('C23', 'C24', 'C25', 'C26')
def copies(c):
    c.build('copies')
    deep = 'Deep' if c.thorough else ''
    if c.prop == 'C23':
        c.model('MergeDesign', 'MergeDesignDeep')
        c.model_fails('MergeDesign', 'MergeDesignCount')
        c.model_fails('MergeDesign', 'MergeDesignAll')
        c.model('InplacePack', 'InplacePack')
        c.model_fails('InplacePack', 'InplacePackLate')
        c.model_fails('InplacePack', 'InplacePackSwap')
        c.assumptions.append('renames take effect on disk in order')
    if c.prop == 'C24':
        c.model('TextCheck', 'TextCheck' + deep)
    r = c.run_harness('copies', [os.path.join(c.scratch, 'k.json'), c.seed, 1, 'k'])
    if c.prop == 'C24':
        c.finding('dropped-target', r['dropped_target'], 'the text of the content of a table with a field that refers to a dropped table cannot be read')
        c.finding('float-digits', r['float_digits'], 'floating-point numbers are written as text with 6 digits only')
    if c.prop == 'C25':
        c.finding('moved-blob', r['moved_blob'], 'blob handles of an interpreted file written by a journal client are wrong after reopening')
        c.finding('journal-sessions', r['journal_sessions'], 'joedb_convert refuses a file that several sessions of a journal client wrote')
    parts = {'C23': (('t', 250), ('m', 700)), 'C24': (('t', 350), ('i', 250)),
             'C25': (('b', 350), ('i', 200), ('t', 100)), 'C26': (('t', 400),)}[c.prop]
    for i in range(10 if c.thorough else 1):
        for part, n in parts:
            c.traces_of('copies', 'CopiesTrace', [c.seed * 100 + i, n * (2 if c.thorough else 1), part])
        if c.prop == 'C23':
            c.traces_of('copies', 'InplacePackTrace', [c.seed * 100 + i, 150, 'p'])
        if c.prop == 'C24':
            c.traces_of('copies', 'TextTrace', [c.seed * 100 + i, 300, 's'])


@check('C22')
def upgrade(c):
    c.build('upgrade')
    c.model('UpgradeDesign', 'UpgradeDesignDeep' if c.thorough else 'UpgradeDesign')
    for wrong in ('Checkpoints', 'Unlocked', 'Deaf', 'Again'):
        c.model_fails('UpgradeDesign', 'UpgradeDesign' + wrong)
    fam = os.path.join(c.scratch, 'family.json')
    family.write(fam)
    for i in range(10 if c.thorough else 1):
        for part, n in (('f', 500), ('t', 200)):
            c.traces_of('upgrade', 'UpgradeTrace', [c.seed * 100 + i, n * (2 if c.thorough else 1), part], env={'FAMILY': fam})


@check('C27', 'C28')
def byte_file(c):
    c.build('byte_file')
    deep = 'Deep' if c.thorough else ''
    if c.prop == 'C27':
        c.model('FileBufferDesign', 'FileBufferDesign' + deep)
        for wrong in ('Direct', 'Drop', 'Keep', 'Rewind', 'Late'):
            c.model_fails('FileBufferDesign', 'FileBufferDesign' + wrong)
        c.model('StreamDesign', 'StreamDesign')
        for wrong in ('Position', 'Size'):
            c.model_fails('StreamDesign', 'StreamDesign' + wrong)
        parts = (('f', 700, 'ByteFileTrace'),)
    else:
        c.model('EncodedDesign', 'EncodedDesign' + deep)
        for wrong in ('Direct', 'First', 'Merge', 'Sync', 'Read'):
            c.model_fails('EncodedDesign', 'EncodedDesign' + wrong)
        parts = (('e', 500, 'ByteFileTrace'), ('j', 200, 'EncodedLogTrace'))
        c.assumptions.append('a kill does not tear a write of at most 64 bytes')
    for i in range(10 if c.thorough else 1):
        for part, n, spec in parts:
            c.traces_of('byte_file', spec, [c.seed * 100 + i, n * (2 if c.thorough else 1), part])


@check('C29')
def rpc(c):
    c.build('rpc')
    c.model('RpcDesign', 'RpcDesignDeep' if c.thorough else 'RpcDesign')
    for wrong in ('Early', 'Before', 'Unlocked', 'Shared', 'Parallel'):
        c.model_fails('RpcDesign', 'RpcDesign' + wrong)
    c.assumptions.append('a service called by several threads of the server locks itself; the texts of errors may be cut when they are longer than 4096 bytes')
    for i in range(10 if c.thorough else 1):
        c.traces_of('rpc', 'RpcTrace', [c.seed * 100 + i, 800 if c.thorough else 500, 'c', c.scratch], timeout=150, confirm=False)
        c.traces_of('rpc', 'RpcTrace', [c.seed * 100 + i, 60, 'a', c.scratch], timeout=100, confirm=False)
