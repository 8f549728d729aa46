"""Build what the checks need from /repo's working tree, with ninja, in /verif/build.

The list of library sources is read from the cmake files of the repository, so
that a source added by a change is compiled too.  Code generated by joedbc
for the repository (db/encoded_file) and for the harnesses (schemas/) is
written into the build directory by the joedbc built here.
"""
import os, re, subprocess, shutil, sys, glob, fcntl, time
from harnesses import HARNESS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))

DEFS = ('-DJOEDB_HAS_ASIO -DJOEDB_HAS_BOOST -DJOEDB_HAS_BROTLI '
        '-DJOEDB_VERSION=100402 -D_FILE_OFFSET_BITS=64')
CXXFLAGS = '-std=c++20 -O1 -w -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS' + os.environ.get('VERIF_CXXFLAGS', '')
LIBS = '-lbrotlidec -lbrotlienc -lbrotlicommon -lpthread' + os.environ.get('VERIF_CXXFLAGS', '')


class BuildError(Exception):
    pass


def cmake_sources():
    cm = os.path.join(REPO, 'compcmake')
    rx = re.compile(r'\$\{JOEDB_SRC_DIR\}/(\S+?\.cpp)')
    t = open(os.path.join(cm, 'joedbc_without_libjoedb.cmake')).read()
    parts = re.split(r'add_library\(joedbc_objects', t)
    core = rx.findall(parts[0])
    joedbc = rx.findall(parts[1]) if len(parts) > 1 else []
    lib = rx.findall(open(os.path.join(cm, 'libjoedb.cmake')).read())
    gen = [s for s in lib if '/db/' in s]
    lib = [s for s in lib if '/db/' not in s]
    skip = ('CURL_File', '/ssh/', 'Websocket_Channel', 'Portable_File')
    lib = [s for s in lib if not any(k in s for k in skip)]
    return core, joedbc, lib, gen


def obj(path):
    return 'obj/' + re.sub(r'[^A-Za-z0-9_.]', '_', path) + '.o'


def write_ninja():
    core, joedbc, lib, gen = cmake_sources()
    os.makedirs(BUILD, exist_ok=True)
    out = []
    w = out.append
    inc = f'-I{BUILD}/gen -I{VERIF}/harness -I{REPO}/src'
    w(f'cxx = {DEFS} {CXXFLAGS} {inc}')
    w('rule cc\n  command = g++ $cxx $extra -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc')
    w('rule ar\n  command = rm -f $out && ar crsT $out $in')
    w(f'rule link\n  command = g++ $in -o $out {LIBS}')
    w('rule linkl\n  command = g++ $objs -Wl,--start-group $libs -Wl,--end-group -o $out ' + LIBS)
    w(f'rule joedbc\n  command = python3 {VERIF}/tools/gen.py $src $dst $name {BUILD}/joedbc $out\n  restat = 1')
    done = set()

    def cc(src, full=None, extra='', deps='', tag=''):
        o = obj(tag + src)
        if o not in done:
            done.add(o)
            p = full or os.path.join(REPO, 'src', src)
            w(f'build {o}: cc {p}' + (f' | {deps}' if deps else ''))
            if extra:
                w(f'  extra = {extra}')
        return o

    core_o = [cc(s) for s in core]
    joedbc_o = [cc(s) for s in joedbc]
    w('build joedbc: link ' + ' '.join(joedbc_o + core_o))

    # generated code
    def generate(src_dir, name, dst):
        stamp = f'gen_{name}.stamp'
        if stamp not in done:
            done.add(stamp)
            ins = ' '.join(sorted(
                glob.glob(f'{src_dir}/{name}.joedb[ic]') +
                glob.glob(f'{src_dir}/{name}.rpc/*')))
            w(f'build {stamp}: joedbc {ins} | joedbc {VERIF}/tools/gen.py')
            w(f'  src = {src_dir}\n  dst = {dst}\n  name = {name}')
        return stamp

    st = generate(f'{REPO}/src/joedb/db', 'encoded_file', f'{BUILD}/gen/joedb/db')
    lib_o = [cc(s, deps=st) for s in lib]
    for s in gen:
        if s.startswith('joedb/db/encoded_file/'):
            full = f'{BUILD}/gen/{s}'
            o = obj(s)
            if o not in done:
                done.add(o)
                w(f'build {full}: phony {st}')
                w(f'build {o}: cc {full} | {st}')
            lib_o.append(o)
        else:
            lib_o.append(cc(s, deps=st))
    w('build libcore.a: ar ' + ' '.join(core_o))
    # the library proper is linked as an archive: what a harness does not use is left out
    w('build libjoedb.a: ar ' + ' '.join(core_o + lib_o))

    for name, (srcs, schemas, libname, extra, tools) in HARNESS.items():
        stamps = [st] if libname == 'full' else []
        objs = []
        for sc in schemas:
            s = generate(f'{VERIF}/harness/schemas', sc, f'{BUILD}/gen')
            stamps.append(s)
            messages = [f'{sc}/rpc/{os.path.basename(m)[:-7]}' for m in
                        sorted(glob.glob(f'{VERIF}/harness/schemas/{sc}.rpc/*.joedbc'))]
            for part in [sc] + messages:
                full = f'{BUILD}/gen/{part}/writable.cpp'
                o = obj(f'gen_{part}_writable')
                if o not in done:
                    done.add(o)
                    w(f'build {full}: phony {s}')
                    w(f'build {o}: cc {full} | {s}')
                objs.append(o)
        for s in srcs:
            o = obj('harness_' + s)
            if o not in done:
                done.add(o)
                w(f'build {o}: cc {VERIF}/harness/{s} | ' + ' '.join(stamps))
            objs.append(o)
        for s in extra:
            objs.append(cc(s, deps=st if libname == 'full' else ''))
        a = 'libjoedb.a' if libname == 'full' else 'libcore.a'
        w(f'build {name}: linkl {" ".join(objs)} {a} | ' + ' '.join(tools))
        w(f'  objs = {" ".join(objs)}\n  libs = {a}')
    for tool in ('joedb_pack', 'joedb_merge', 'joedbi', 'joedb_logdump', 'joedb_convert', 'joedb_push', 'joedb_client', 'joedb_to_json'):
        o = cc(f'joedb/ui/{tool}.cpp', deps=st)
        w(f'build {tool}: linkl {o} libjoedb.a\n  objs = {o}\n  libs = libjoedb.a')
    text = '\n'.join(out) + '\n'
    path = os.path.join(BUILD, 'build.ninja')
    if not os.path.exists(path) or open(path).read() != text:
        open(path, 'w').write(text)


def build(*targets):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        write_ninja()
        env = dict(os.environ, CCACHE_DISABLE='1', LC_ALL='C.UTF-8')
        r = subprocess.run(['ninja', '-C', BUILD, *targets], capture_output=True, text=True, env=env)
        if r.returncode:
            raise BuildError(r.stdout[-6000:] + r.stderr[-2000:])
    return [os.path.join(BUILD, t) for t in targets]


if __name__ == '__main__':
    t = time.time()
    try:
        build(*(sys.argv[1:] or ['all']))
    except BuildError as e:
        print(e)
        sys.exit(1)
    print('built in %.1f s' % (time.time() - t))
