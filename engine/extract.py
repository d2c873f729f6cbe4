"""Front end driver: type-checks every translation unit of /repo (plus the
witness units) with the extractor and merges the resolved programs."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

import bridge

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('TJ_REPO', '/repo')


class ExtractError(Exception):
    pass


def tool():
    out = os.path.join(VERIF, 'build', 'tjx')
    src = os.path.join(VERIF, 'frontend', 'tjx.cpp')
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        r = subprocess.run(['bash', os.path.join(VERIF, 'frontend', 'build.sh'), out],
                           capture_output=True, text=True)
        if r.returncode:
            raise ExtractError('building the extractor failed:\n' + r.stderr[-2000:])
    return out


def clang_args(gen, checked=False):
    return ['-std=c++20', '-UNDEBUG' if checked else '-DNDEBUG', '-w', '-I' + gen, '-I' + REPO + '/include',
            '-I' + REPO + '/src', '-I' + VERIF + '/stubs',
            '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']


def one(tjx, gen, src, out, checked=False):
    cmd = [tjx, out, REPO + '/,' + VERIF + '/spec/,' + gen + '/', src, '--'] + clang_args(gen, checked)
    r = subprocess.run(cmd, capture_output=True, text=True)
    ok = r.returncode == 0 and os.path.exists(out)
    return src, out, ok, r.stderr


# Which translation units of the repository each kind of query needs.
def sources():
    s = sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))
    return s


class Program:
    def __init__(self):
        self.functions = {}
        self.records = {}
        self.statics = {}
        self.tus = []
        self.by_qn = {}
        self.errors = {}
        self.types = []

    def T(self, f, tid):
        return self.types[f['_tb'] + tid] if tid is not None and tid >= 0 else None


def reloc(node, base, tu):
    """Rebase type ids of a TU in place and make its declaration ids unique."""
    TK = ('t', 'ft', 'rt', 'cls', 'ct', 'clt', 'at', 'to', 'ret', 'base_t')
    IDK = ('id', 'hid')
    stack = [node]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            for k, v in n.items():
                if isinstance(v, bool):
                    continue
                if isinstance(v, int):
                    if k in TK:
                        if v >= 0:
                            n[k] = v + base
                    elif k in IDK:
                        n[k] = (tu, v)
                elif isinstance(v, (dict, list)):
                    if k in ('pt', 'params', 'bases') and v and isinstance(v[0], int):
                        n[k] = [x + base if x >= 0 else x for x in v]
                    elif k != 'l' and k != 'loc' and k != 'end':
                        stack.append(v)
        else:
            for v in n:
                if isinstance(v, (dict, list)):
                    stack.append(v)


def load(extra=('geometry', 'api'), want=None, repo_sources=True, checked=False):
    tjx = tool()
    tmp = tempfile.mkdtemp(prefix='tjx.')
    try:
        gen = os.path.join(tmp, 'gen')
        os.makedirs(gen + '/trajoptlib/src')
        br = None
        try:
            br = bridge.parse(REPO + '/src/lib.rs')
            open(gen + '/trajoptlib/src/lib.rs.h', 'w').write(bridge.header(br))
        except (bridge.BridgeError, AssertionError, IndexError, OSError) as e:
            br = None
            bridge_err = 'lib.rs: %s' % e
        files = []
        if repo_sources:
            for s in sources():
                if want is not None and not want(s):
                    continue
                files.append(s)
        for w in extra:
            files.append(os.path.join(VERIF, 'spec', w + '.cpp'))
        P = Program()
        P.bridge = br
        jobs = []
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            for i, s in enumerate(files):
                jobs.append(ex.submit(one, tjx, gen, s, os.path.join(tmp, '%d.json' % i), checked))
            res = [j.result() for j in jobs]
        for tu, (src, out, ok, err) in enumerate(res):
            if not ok:
                P.errors[src] = err
                continue
            d = json.load(open(out))
            base = len(P.types)
            reloc(d, base, tu)
            for t in d['types']:
                P.types.append(t)
            for k, r in d['records'].items():
                r['name'] = k
                if k not in P.records or (r.get('fields') and not P.records[k].get('fields')):
                    P.records[k] = r
            for k, f in d['functions'].items():
                f['key'] = k
                f['tu'] = src
                if str((f.get('loc') or [''])[0]).endswith('/util/expected'):
                    continue          # vendored library, modelled like std::expected
                if k not in P.functions:
                    P.functions[k] = f
                    P.by_qn.setdefault(f['qn'], []).append(f)
            for s in d['statics']:
                P.statics.setdefault(s['gid'], s)
            P.tus.append(src)
        return P
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    import time
    t = time.time()
    P = load(extra=('geometry', 'coerce', 'api'))
    print(time.time() - t, 's', len(P.functions), 'functions', len(P.records), 'records')
    for s, e in P.errors.items():
        print('ERR', s, e[:3000])
    for s in P.statics.values():
        print('static', s['gid'], s['const'], s['loc'])
