"""Builds the driver from /repo's current working tree (ninja, precompiled header)."""
import fcntl, glob, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')

VARIANTS = {
    'plain': ('-O1', ''),
    'asan': ('-O1 -g1 -fsanitize=address -fno-omit-frame-pointer', '-fsanitize=address'),
    'tsan': ('-O1 -g1 -fsanitize=thread', '-fsanitize=thread'),
}

PCH = '''#include <algorithm>
#include <array>
#include <cstdint>
#include <cstdio>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <iterator>
#include <map>
#include <memory>
#include <numeric>
#include <regex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <fmt/core.h>
#include <fmt/format.h>
#include <fmt/ranges.h>
#include <spdlog/spdlog.h>
'''


class BuildError(Exception):
    pass


def build(variant='plain', out=None, target='driver'):
    """Returns the path of the driver binary; raises BuildError."""
    cflags, lflags = VARIANTS[variant]
    d = os.path.join(out or BUILD, variant)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        pch = os.path.join(d, 'pch.hpp')
        if not os.path.exists(pch) or open(pch).read() != PCH:
            open(pch, 'w').write(PCH)
        common = (f'-std=gnu++20 {cflags} -w -I{REPO}/include -I{VERIF}/driver -DFMT_SHARED '
                  '-DWRAP_FWRITE -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB')
        every = sorted(glob.glob(f'{REPO}/src/**/*.cpp', recursive=True))
        cli = [s for s in every if '/src/cli/' in s]
        srcs = sorted(s for s in glob.glob(f'{REPO}/src/**/*.cpp', recursive=True)
                      if '/src/cli/' not in s)
        drv = sorted(glob.glob(f'{VERIF}/driver/*.cpp'))
        n = [f'cflags = {common}',
             'rule pch', '  command = clang++ $cflags -x c++-header $in -o $out -MMD -MF $out.d',
             '  depfile = $out.d', '  deps = gcc',
             'rule cc', '  command = clang++ $cflags -include-pch pch.hpp.pch -c $in -o $out -MMD -MF $out.d',
             '  depfile = $out.d', '  deps = gcc',
             'rule ld', f'  command = clang++ {lflags} $wrap $in -o $out -lspdlog -lfmt -lpthread',
             'build pch.hpp.pch: pch pch.hpp']
        objs = []
        for i, s in enumerate(drv + srcs):
            o = 'o/%s.o' % (s.replace(REPO, 'r').replace(VERIF, 'v').strip('/').replace('/', '_'))
            n.append(f'build {o}: cc {s} | pch.hpp.pch')
            objs.append(o)
        n.append('build driver: ld ' + ' '.join(objs) + '\n  wrap = -Wl,--wrap=fwrite -Wl,--wrap=fdopen -Wl,--wrap=fileno -Wl,--wrap=fileno_unlocked')
        tobjs = [o for o in objs if o.startswith('o/r_')]
        for s in cli:
            o = 'o/%s.o' % (s.replace(REPO, 'r').strip('/').replace('/', '_'))
            n.append(f'build {o}: cc {s} | pch.hpp.pch')
            tobjs.append(o)
        n.append('build mp4tool: ld ' + ' '.join(tobjs))
        n.append('default driver')
        nf = os.path.join(d, 'build.ninja')
        txt = '\n'.join(n) + '\n'
        if not os.path.exists(nf) or open(nf).read() != txt:
            open(nf, 'w').write(txt)
        p = subprocess.run(['ninja', '-C', d, target], capture_output=True, text=True)
        if p.returncode:
            raise BuildError(p.stdout[-4000:] + p.stderr[-2000:])
    return os.path.join(d, target)


def tool():
    """The command line tool built from /repo's sources."""
    return build('plain', target='mp4tool')


if __name__ == '__main__':
    import time
    t = time.time()
    print(build(*(sys.argv[1:] or ['plain'])), '%.1fs' % (time.time() - t))
