"""plant(id, property, file, old, new, needs, breaks, demo_cpp): writes seeded/<id>/ and verifies it in a scratch copy."""
import os, subprocess, json, shutil, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = 'include/nil/crypto3/algebra/'
DEMO = '''#!/bin/bash
# exit 0 when the demonstrated behaviour is right; run with cwd = repository
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf -- "$T"' EXIT
clang++-18 -std=c++17 -O1 -w %s -I"$PWD/include" -I"$D" "$D/demo.cpp" -o "$T/demo" || exit 3
timeout 120 "$T/demo"
'''


MP = '''#include <boost/multiprecision/number.hpp>
#include <nil/crypto3/multiprecision/cpp_int_modular.hpp>
#include <nil/crypto3/multiprecision/modular/modular_adaptor.hpp>
#include <nil/crypto3/multiprecision/wnaf.hpp>
#include <array>
#include <cstdio>
#include <memory>
#include <vector>
#define REQUIRE(c) do { if (!(c)) { std::printf("failed: %s\\n", #c); return 1; } } while (0)
'''


def sh(cmd, cwd=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def plant(id, prop, edits, needs, breaks, demo, flags='', files=(), stub=False, mp=False):
    d = os.path.join(HERE, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    if mp:
        # a concrete multiprecision library of their own, as the repository's is absent
        for t in ('mp', 'absent'):
            shutil.rmtree(os.path.join(d, t), ignore_errors=True)
            shutil.copytree(os.path.join(HERE, t), os.path.join(d, t))
        os.makedirs(os.path.join(d, 'harness'), exist_ok=True)
        shutil.copy(os.path.join(HERE, 'harness', 'symrt.hpp'), os.path.join(d, 'harness'))
        flags += ' -I"$D/mp" -I"$D/absent" -fbracket-depth=1024 -ftemplate-depth=4096 -fconstexpr-steps=100000000 -fconstexpr-depth=8192'
        demo = MP + demo
    w = tempfile.mkdtemp(prefix='plant_')
    r = os.path.join(w, 'repo')
    try:
        assert sh('git clone -q ' + os.environ.get('VERIF_REPO', '/repo') + ' ' + r)[0] == 0
        open(os.path.join(d, 'demo.cpp'), 'w').write(demo)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % flags)
        if stub:
            m = os.path.join(d, 'nil/crypto3/multiprecision/modular')
            os.makedirs(m, exist_ok=True)
            open(os.path.join(m, 'modular_adaptor.hpp'), 'w').write('#pragma once\nnamespace boost { namespace multiprecision { namespace backends { template<typename B, typename S> struct modular_adaptor; } } }\n')
            shutil.copy(os.path.join(HERE, 'tools', 'fp.hpp'), d)
        for src in files:
            shutil.copy(src, d)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        rc0, o0 = sh('bash %s/demo.sh' % d, r)
        for f, a, b in edits:
            p = os.path.join(r, INC + f)
            s = open(p).read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        rc, diff = sh('git diff', r)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        rc1, o1 = sh('bash %s/demo.sh' % d, r)
        t = ''
        for tst in ('vector', 'matrix'):
            rct, ot = sh('clang++-18 -std=c++17 -fsyntax-only -w -Iinclude test/%s.cpp -DBOOST_TEST_DYN_LINK' % tst, r)
            t += '%s:%d ' % (tst, rct)
            if rct:
                t += ot[-300:]
        ok = rc0 == 0 and rc1 not in (0, 3) and t == 'vector:0 matrix:0 '
        print('%s %s demo clean=%d patched=%d tests %s %s' % ('OK ' if ok else 'BAD', id, rc0, rc1, t, '' if ok else o0[-800:] + o1[-800:]))
    finally:
        shutil.rmtree(w)
