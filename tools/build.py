#!/usr/bin/env python3
"""Builds check binaries from /repo's current working tree, outside /repo.

usage: build.py BINARY...      (names from BINARIES below)

Everything goes to /verif/.build (ignored by git).  One ninja file per build
flavour; objects are reused when sources and headers are unchanged (ninja
compares command lines and depfiles).
"""
import glob
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DREAL_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))

DRAKE = 'third_party/com_github_robotlocomotion_drake'
POOL = 'third_party/com_github_progschj_threadpool'

# Files of dreal/util that need IBEX.
UTIL_IBEX = {'box.cc', 'ibex_converter.cc', 'interval.cc',
             'string_to_interval.cc'}


def srcs(*patterns, exclude=()):
    out = []
    for p in patterns:
        for f in sorted(glob.glob(os.path.join(REPO, p))):
            b = os.path.basename(f)
            if b in exclude or b.endswith('_test.cc') or b.endswith('_py.cc'):
                continue
            out.append(f)
    return out


def lib_sources(name):
    if name == 'sym':
        return srcs(DRAKE + '/dreal/symbolic/*.cc', 'dreal/symbolic/*.cc')
    if name == 'util':
        # everything in util that does not include ibex.h, directly or not
        out = []
        for f in srcs('dreal/util/*.cc', exclude=UTIL_IBEX):
            out.append(f)
        return out
    if name == 'smt2core':
        return srcs('dreal/smt2/*.cc', exclude={'driver.cc', 'run.cc'})
    if name == 'pool':
        return srcs(POOL + '/ThreadPool/*.cc')
    if name == 'opt':
        return srcs('dreal/optimization/*.cc')
    if name == 'solver':
        return (srcs('dreal/util/*.cc', 'dreal/contractor/*.cc',
                     'dreal/solver/*.cc', 'dreal/optimization/*.cc',
                     'dreal/api/*.cc') +
                srcs('dreal/smt2/*.cc', 'dreal/dr/*.cc') +
                srcs(POOL + '/ThreadPool/*.cc'))
    if name == 'main':
        return srcs('dreal/dreal_main.cc')
    raise SystemExit('unknown lib ' + name)


BASE = ['-std=c++14', '-O1', '-g1', '-fno-strict-aliasing', '-w',
        '-D_GLIBCXX_ASSERTIONS',
        '-DFMT_DEPRECATED_OSTREAM=1', '-DFMT_HEADER_ONLY=1',
        '-DFMT_NO_FMT_STRING_ALIAS=1', '-DSPDLOG_FMT_EXTERNAL']
ISYSTEM = [DRAKE, 'third_party/com_github_pinam45_dynamic_bitset',
           'third_party/com_github_tartanllama_optional', POOL,
           'third_party/com_github_westes_flex']

FLAVOURS = {
    'plain': ('g++', []),
    'asan': ('g++', ['-fsanitize=address,undefined',
                     '-fno-sanitize=vptr,float-divide-by-zero,float-cast-overflow',
                     '-fno-sanitize-recover=all']),
    'tsan': ('g++', ['-fsanitize=thread']),
    'fuzz': ('clang++', ['-fsanitize=fuzzer-no-link,address,undefined',
                         '-fno-sanitize=vptr,float-divide-by-zero,function',
                         '-fno-sanitize-recover=all', '-DPBT_LIBFUZZER']),
}
IBEX_FREE_LIBS = '-lcds -lnlopt_cxx -lm -lgmpxx -lgmp -pthread -lspdlog -lfmt'


# name -> (targets/*.cc, libs, extra link flags, needs shim)
BINARIES = {}
for line in open(os.path.join(VERIF, 'targets', 'BINARIES')):
    line = line.split('#')[0].strip()
    if not line:
        continue
    parts = line.split()
    BINARIES[parts[0]] = (parts[1].split(','), parts[2].split(','),
                          parts[3] if len(parts) > 3 else 'plain')


def libs_for(binary):
    return BINARIES[binary][1]


def make_ninja(names, flavour_override=None):
    flavours = set()
    rules = []
    builds = []
    outputs = []
    gen_done = False
    seen = set()
    for name in names:
        tsrcs, libs, flavour = BINARIES[name]
        fl = flavour_override or flavour
        flavours.add(fl)
        shim = 'solver' in libs
        cxx, extra = FLAVOURS[fl]
        bdir = os.path.join(BUILD, fl + ('-shim' if shim else ''))
        gen = os.path.join(BUILD, 'gen')
        inc = ['-iquote', REPO, '-iquote', gen]
        if shim:
            inc += ['-I', os.path.join(VERIF, 'shim')]
        for d in ISYSTEM:
            inc += ['-isystem', os.path.join(REPO, d)]
        inc += ['-isystem', '/usr/include/coin',
                '-I', os.path.join(VERIF, 'lib')]
        flags = BASE + extra + inc
        objs = []

        def obj(src, more=()):
            rel = src.replace('/', '_').lstrip('_')
            o = os.path.join(bdir, 'obj', rel + '.o')
            if o not in seen:
                seen.add(o)
                builds.append('build %s: cxx %s || gen\n  cxx = %s\n  flags = %s\n' %
                              (o, src, cxx, ' '.join(list(flags) + list(more))))
            objs.append(o)

        for t in tsrcs:
            obj(os.path.join(VERIF, 'targets', t), ['-std=c++17'])
        obj(os.path.join(VERIF, 'lib', 'pbt.cc'), ['-std=c++17'])
        if 'sym' in libs:
            obj(os.path.join(VERIF, 'lib', 'ast.cc'), ['-std=c++17'])
        allsrc = []
        for lib in libs:
            for s in lib_sources(lib):
                if s not in allsrc:
                    allsrc.append(s)
        for s in allsrc:
            # the targets of the command line call main and see what it calls
            obj(s, ['-Dmain=dreal_cli_main', '-DRunSmt2=CliRunSmt2',
                    '-DRunDr=CliRunDr'] if s.endswith('/dreal_main.cc') else ())
        if shim:
            for s in sorted(glob.glob(os.path.join(VERIF, 'shim', '*.cc'))):
                obj(s)
            for which in ('dr', 'smt2'):
                for f in ('parser.yy.cc', 'scanner.ll.cc'):
                    obj(os.path.join(gen, 'dreal', which, f))
        out = os.path.join(bdir, name)
        ldl = IBEX_FREE_LIBS
        if shim:
            ldl += ' -lnlopt -lClp -lCoinUtils -lpicosat'
        lflags = ' '.join(extra)
        if fl == 'fuzz':
            lflags = lflags.replace('fuzzer-no-link', 'fuzzer')
        builds.append('build %s: link %s\n  cxx = %s\n  lflags = %s\n  libs = %s\n' %
                      (out, ' '.join(objs), cxx, lflags, ldl))
        outputs.append(out)
    gen = os.path.join(BUILD, 'gen')
    g = []
    gouts = []
    for which in ('dr', 'smt2'):
        d = os.path.join(gen, 'dreal', which)
        p = os.path.join(d, 'parser.yy.cc')
        g.append('build %s | %s: gen %s\n  cmd = /usr/bin/bison -Wno-deprecated -o %s %s\n' % (
            p, ' '.join(os.path.join(d, x) for x in ('parser.yy.hh', 'location.hh', 'position.hh', 'stack.hh')),
            os.path.join(REPO, 'dreal', which, 'parser.yy'), p,
            os.path.join(REPO, 'dreal', which, 'parser.yy')))
        s = os.path.join(d, 'scanner.ll.cc')
        g.append('build %s: gen %s\n  cmd = /usr/bin/flex -o %s %s\n' % (
            s, os.path.join(REPO, 'dreal', which, 'scanner.ll'), s,
            os.path.join(REPO, 'dreal', which, 'scanner.ll')))
        gouts += [p, s]
        os.makedirs(d, exist_ok=True)
    v = os.path.join(gen, 'dreal', 'version.h')
    g.append('build %s: gen %s\n  cmd = %s 4.21.06.2 > %s\n' % (
        v, os.path.join(REPO, 'tools/generate_version_header.sh'),
        os.path.join(REPO, 'tools/generate_version_header.sh'), v))
    gouts.append(v)
    need_gen = any('solver' in BINARIES[n][1] for n in names)
    text = 'ninja_required_version = 1.5\nbuilddir = %s\n' % BUILD
    text += 'rule cxx\n  command = $cxx $flags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n'
    text += 'rule link\n  command = $cxx $lflags -o $out $in $libs\n'
    text += 'rule gen\n  command = $cmd\n'
    if need_gen:
        text += ''.join(g) + 'build gen: phony %s\n' % ' '.join(gouts)
    else:
        text += 'build gen: phony\n'
    text += ''.join(builds)
    os.makedirs(BUILD, exist_ok=True)
    path = os.path.join(BUILD, 'build-%d.ninja' % os.getpid())
    with open(path, 'w') as f:
        f.write(text)
    return path, outputs


def build(names, flavour=None, quiet=False):
    path, outputs = make_ninja(names, flavour)
    try:
        r = subprocess.run(['ninja', '--quiet', '-f', path, '-j', '10'] + outputs,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True)
    finally:
        os.unlink(path)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit('build failed')
    return outputs


if __name__ == '__main__':
    args = sys.argv[1:]
    fl = None
    if args and args[0].startswith('--flavour='):
        fl = args[0].split('=')[1]
        args = args[1:]
    for o in build(args or sorted(BINARIES), fl):
        print(o)
