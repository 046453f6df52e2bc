"""Builds the fact extractor when needed and runs it over /repo's current working tree."""
import os, subprocess, sys, glob, hashlib, json, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PFSTAT_REPO', '/repo')
LLVM = '/usr/lib/llvm-18'


class AnalysisError(Exception):
    """The analysis could not be carried out (source does not parse, anchor vanished...)."""


def build_extractor():
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    bdir = os.path.join(VERIF, 'build')
    os.makedirs(bdir, exist_ok=True)
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(bdir, 'pfextract-' + h)
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        subprocess.check_call(
            ['g++', '-std=c++17', '-O1', '-fno-rtti', '-w', '-I' + LLVM + '/include', src, '-o', tmp,
             '-L' + LLVM + '/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18',
             '-Wl,-rpath,' + LLVM + '/lib'])
        os.rename(tmp, exe)
    return exe


def translation_units(repo=REPO):
    pats = ['parameter/*.cpp', 'parameter/**/*.cpp', 'xmlserializer/**/*.cpp', 'utility/**/*.cpp',
            'remote-processor/**/*.cpp', 'remote-process/**/*.cpp', 'bindings/c/**/*.cpp',
            'skeleton-subsystem/**/*.cpp', 'tools/xmlGenerator/*.cpp']
    out = set()
    for p in pats:
        for f in glob.glob(os.path.join(repo, p), recursive=True):
            r = os.path.relpath(f, repo)
            parts = r.split('/')
            if 'windows' in parts or 'test' in parts or parts[-1] == 'Test.cpp':
                continue
            out.add(r)
    return sorted(out)


def flags(repo=REPO, debug=False):
    inc = ['parameter', 'parameter/include', 'parameter/log/include', 'xmlserializer', 'utility',
           'remote-processor', 'bindings/c', 'skeleton-subsystem']
    fl = ['-x', 'c++', '-std=c++11', '-resource-dir', LLVM + '/lib/clang/18', '-DASIO_STANDALONE',
          '-DPARAMETER_FRAMEWORK_PLUGIN_ENTRYPOINT_V1=ParameterFrameworkPluginEntryPointV1',
          '-w', '-fexceptions', '-I' + os.path.join(VERIF, 'stubs')]
    fl += ['-I' + os.path.join(repo, i) for i in inc]
    fl += ['-isystem', '/usr/include/libxml2']
    if not debug:
        fl.append('-DNDEBUG')
    return fl


def _mtime(p):
    try:
        return os.path.getmtime(p)
    except OSError:  # another check removed it meanwhile
        return 0


def run(repo=REPO, debug=False, jobs=8):
    """Returns the list of fact files (cached by content of the analysed tree)."""
    exe = build_extractor()
    tus = translation_units(repo)
    if not tus:
        raise AnalysisError('no translation unit found in ' + repo)
    h = hashlib.sha256()
    h.update(exe.encode())
    h.update(repo.encode())
    h.update(b'debug' if debug else b'ndebug')
    dirs = ['parameter', 'xmlserializer', 'utility', 'remote-processor', 'remote-process',
            'bindings/c', 'skeleton-subsystem', 'tools/xmlGenerator']
    for d in dirs:
        for root, _, fs in sorted(os.walk(os.path.join(repo, d))):
            for f in sorted(fs):
                if f.endswith(('.cpp', '.h', '.hpp', '.c', '.ipp')):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
    key = h.hexdigest()[:20]
    cdir = os.path.join(VERIF, 'build', 'facts-' + key)
    if not os.path.exists(os.path.join(cdir, 'done')):
        tmp = tempfile.mkdtemp(prefix='facts', dir=os.path.join(VERIF, 'build'))
        errs = []

        def one(tu):
            o = os.path.join(tmp, tu.replace('/', '__') + '.jsonl')
            p = subprocess.run([exe, repo, o, os.path.join(repo, tu), '--'] + flags(repo, debug),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode != 0:
                errs.append((tu, p.stdout.decode(errors='replace')[-3000:]))
        with ThreadPoolExecutor(jobs) as ex:
            list(ex.map(one, tus))
        if errs:
            shutil.rmtree(tmp)
            raise AnalysisError('does not parse: ' + '\n'.join('%s: %s' % e for e in errs))
        open(os.path.join(tmp, 'done'), 'w').write('\n'.join(tus))
        # keep only a handful of cached extractions
        old = sorted(glob.glob(os.path.join(VERIF, 'build', 'facts-*')), key=_mtime)
        for o in old[:-6]:
            shutil.rmtree(o, ignore_errors=True)
        try:
            os.rename(tmp, cdir)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return [os.path.join(cdir, t.replace('/', '__') + '.jsonl') for t in tus], tus


if __name__ == '__main__':
    fs, tus = run(debug='--debug' in sys.argv)
    print(len(tus), 'translation units', os.path.dirname(fs[0]))
