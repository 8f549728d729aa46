"""gen.py SRC DST NAME JOEDBC STAMP: run joedbc on SRC/NAME.joedbc (with its .joedbi) in DST.

Files that do not change, but for the date in their first lines, are left alone, and so is the stamp."""
import sys, os, shutil, subprocess, glob, re, tempfile
src, dst, name, joedbc, stamp = sys.argv[1:6]
os.makedirs(dst, exist_ok=True)
tmp = tempfile.mkdtemp(dir=dst, prefix='.gen')
try:
    for f in glob.glob(f'{src}/{name}.joedb[ic]'):
        shutil.copy(f, tmp)
    if os.path.isdir(f'{src}/{name}.rpc'):
        shutil.copytree(f'{src}/{name}.rpc', f'{tmp}/{name}.rpc')
    r = subprocess.run([joedbc, name], cwd=tmp, stdout=subprocess.DEVNULL).returncode
    if r:
        sys.exit(r)

    def files(d):
        return {os.path.relpath(os.path.join(p, f), d) for top in glob.glob(f'{d}/{name}*')
                for p, _, fs in ([(os.path.dirname(top), None, [os.path.basename(top)])] if os.path.isfile(top) else os.walk(top))
                for f in fs}

    def text(p):
        return re.sub(rb'// (joedbc compilation time|Generation of this file|Path to compiler):.*', b'', open(p, 'rb').read())
    new, old = files(tmp), files(dst)
    changed = not os.path.exists(stamp)
    for f in old - new:
        os.remove(os.path.join(dst, f))
        changed = True
    for f in new:
        a, b = os.path.join(tmp, f), os.path.join(dst, f)
        if f not in old or text(a) != text(b):
            os.makedirs(os.path.dirname(b), exist_ok=True)
            shutil.copy(a, b)
            changed = True
    if changed:
        open(stamp, 'w').write('')
finally:
    shutil.rmtree(tmp, ignore_errors=True)
