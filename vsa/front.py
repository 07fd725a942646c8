"""Front end: compiles /repo's current tree with its own toolchain (rustc 1.70)
and returns the MIR and the rustdoc item tables of a workspace crate."""
import fcntl
import glob
import hashlib
import json
import os
import pickle
import shutil
import subprocess
import sys

REPO = os.environ.get('VSA_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VSA_BUILD', os.path.join(VERIF, '.build'))
TARGET = os.path.join(BUILD, 'target')


class AnalysisError(Exception):
    """The tree could not be analysed (missing anchor, unsupported construct...)."""


def sources():
    out = []
    for crate in ('victor', 'lester', 'proc-macros'):
        for root, dirs, files in os.walk(os.path.join(REPO, crate)):
            dirs[:] = sorted(d for d in dirs if d not in ('target', '.git'))
            for f in sorted(files):
                if f.endswith(('.rs', '.toml', '.css')):
                    out.append(os.path.join(root, f))
    for f in ('Cargo.toml', 'Cargo.lock'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def tree_key():
    h = hashlib.sha256()
    for p in sources():
        h.update(os.path.relpath(p, REPO).encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    for p in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), '*.py'))):
        if os.path.basename(p) in ('front.py', 'mir.py'):
            with open(p, 'rb') as f:
                h.update(f.read())
    return h.hexdigest()[:24]


def env():
    e = dict(os.environ)
    e.update({
        'HOME': '/root', 'LANG': e.get('LANG', 'C.UTF-8'),
        'PATH': '/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin',
        'RUSTUP_TOOLCHAIN': '1.70.0', 'CARGO_NET_OFFLINE': 'true', 'CARGO_TERM_COLOR': 'never',
        'CARGO_INCREMENTAL': '0', 'CARGO_PROFILE_DEV_DEBUG': '0', 'RUSTC_WRAPPER': '',
        'RUST_BACKTRACE': '0', 'CARGO_TARGET_DIR': TARGET, 'RUSTC_BOOTSTRAP': '1',
    })
    for k in ('RUSTFLAGS', 'RUSTDOCFLAGS', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    return e


def run(cmd):
    p = subprocess.run(cmd, cwd=REPO, env=env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, universal_newlines=True)
    if p.returncode != 0:
        raise AnalysisError('command failed: %s\n%s' % (' '.join(cmd), p.stdout[-3000:]))
    return p.stdout


MIRFLAGS = ['--emit=mir', '-Ztrim-diagnostic-paths=no', '-Zmir-opt-level=0',
            '-Zmir-enable-passes=-CheckAlignment', '-Cdebug-assertions=on', '-Coverflow-checks=on']
DOCFLAGS = ['-Zunstable-options', '--output-format', 'json',
            '--document-private-items', '--document-hidden-items']


def ensure_lock():
    if not os.path.exists(os.path.join(REPO, 'Cargo.lock')) and os.path.exists('/opt/vp/Cargo.lock'):
        shutil.copy('/opt/vp/Cargo.lock', os.path.join(REPO, 'Cargo.lock'))


def named_consts(text):
    """{body path: {'spans': [...], 'uses': [[own span, span of the using expression, constant]]}}
    for the bodies (THIR) that use named constants."""
    import re
    out = {}
    for part in re.split(r'(?m)^(?=DefId\()', text):
        if 'NamedConst' not in part:
            continue
        path = re.match(r'DefId\(\S+ ~ (.*)\):', part).group(1)
        exprs = []
        m = re.search(r'(?m)^    exprs: \[\n(.*?)^    \],', part, re.S)
        for e in re.split(r'(?m)^(?=        Expr \{$)', m.group(1)):
            if not e.strip():
                continue
            kind = re.search(r'(?m)^            kind: (\w+)', e).group(1)
            span = re.findall(r'(?m)^            span: (.*?) \(#\d+\),$', e)[-1]
            refs = [int(x) for x in re.findall(r'\be(\d+)\b', e)]
            cst = None
            if kind == 'NamedConst':
                d = re.search(r'def_id: DefId\(\S+ ~ (.*?)\),\n', e).group(1)
                cst = (d,)
            exprs.append((kind, span, refs, cst))
        parent = {}
        for i, (kind, span, refs, cst) in enumerate(exprs):
            for r in refs:
                parent.setdefault(r, i)
        uses = []
        for i, (kind, span, refs, cst) in enumerate(exprs):
            if cst:
                j = parent.get(i)
                while j is not None and exprs[j][0] in ('Scope', 'Use', 'PlaceTypeAscription', 'ValueTypeAscription'):
                    j = parent.get(j)
                uses.append([span, exprs[j][1] if j is not None else span, cst[0]])
        if uses:
            out[path] = {'spans': sorted(set(re.findall(r'span: (\S+: \S+) \(#', part))), 'uses': uses}
    return out


def artifacts(crate):
    """Directory holding <crate>.mir and <crate>.json for the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    ensure_lock()
    key = tree_key()
    cache = os.path.join(BUILD, 'cache', key)
    ok = os.path.join(cache, crate + '.ok')
    if os.path.exists(ok):
        return cache
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(ok):
            return cache
        os.makedirs(cache, exist_ok=True)
        # Never trust mtimes: forget what cargo thinks it knows about this workspace.
        for pat in ('victor-*', 'lester-*', 'victor_internal*', 'victor-internal*'):
            for d in glob.glob(os.path.join(TARGET, 'debug', '.fingerprint', pat)):
                shutil.rmtree(d, ignore_errors=True)
        for old in glob.glob(os.path.join(TARGET, 'debug', 'deps', crate + '-*.mir')):
            os.remove(old)
        docjson = os.path.join(TARGET, 'doc', crate + '.json')
        if os.path.exists(docjson):
            os.remove(docjson)
        run(['cargo', 'rustc', '--offline', '-p', crate, '--lib', '--'] + MIRFLAGS)
        run(['cargo', 'rustdoc', '--offline', '-p', crate, '--lib', '--'] + DOCFLAGS)
        m = glob.glob(os.path.join(TARGET, 'debug', 'deps', crate + '-*.mir'))
        if len(m) != 1 or not os.path.exists(docjson):
            raise AnalysisError('compiler output for %s missing (%r)' % (crate, m))
        shutil.copy(m[0], os.path.join(cache, crate + '.mir'))
        shutil.copy(docjson, os.path.join(cache, crate + '.json'))
        thir = subprocess.run(['cargo', 'rustc', '--offline', '--profile', 'dev', '-p', crate, '--lib', '--',
                               '-Zunpretty=thir-flat'], cwd=REPO, env=env(), stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, universal_newlines=True)
        if thir.returncode != 0:
            raise AnalysisError('thir failed: ' + thir.stderr[-2000:])
        with open(os.path.join(cache, crate + '.consts.json'), 'w') as f:
            json.dump(named_consts(thir.stdout), f)
        with open(ok, 'w') as f:
            f.write('ok\n')
        # keep the cache small
        dirs = sorted(glob.glob(os.path.join(BUILD, 'cache', '*')), key=os.path.getmtime)
        for d in dirs[:-6]:
            if d != cache:
                shutil.rmtree(d, ignore_errors=True)
    return cache


def prelude():
    """MIR of prelude.rs: iterator consumers written as loops."""
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'prelude.rs')
    with open(src, 'rb') as f:
        h = hashlib.sha256(f.read() + repr(MIRFLAGS).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, 'prelude-%s.mir' % h)
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        p = subprocess.run(['rustc'] + MIRFLAGS + ['--crate-name', 'prelude', src, '-o', tmp], env=env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if p.returncode != 0:
            raise AnalysisError('prelude: ' + p.stdout[-2000:])
        os.rename(tmp, out)
    return out


def expanded(crate):
    """Macro-expanded source text of a crate."""
    cache = artifacts(crate)
    p = os.path.join(cache, crate + '.expanded.rs')
    if not os.path.exists(p):
        with open(os.path.join(BUILD, 'lock'), 'w') as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            out = subprocess.run(['cargo', 'rustc', '--offline', '--profile', 'dev', '-p', crate, '--lib', '--', '-Zunpretty=expanded'],
                                 cwd=REPO, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 universal_newlines=True)
            if out.returncode != 0:
                raise AnalysisError('expansion failed: ' + out.stderr[-2000:])
            with open(p + '.tmp', 'w') as f:
                f.write(out.stdout)
            os.rename(p + '.tmp', p)
    with open(p, encoding='utf-8') as f:
        return f.read()


if __name__ == '__main__':
    for c in sys.argv[1:] or ['victor', 'lester']:
        print(c, artifacts(c))
