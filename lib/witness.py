"""Compile-time witnesses: small declarations that the compiler must accept (or reject) for /repo's current headers.

A witness is (key, code).  All are compiled in one go with -fsyntax-only; an error inside the lines of a witness makes it fail.  Errors are told
apart by kind: a failed static assertion decides the witness, anything else means that the witness could not be formed.
"""
import os, re, subprocess, tempfile
import facts

HEAD = '#include "gapp.hpp"\n#include <concepts>\n#include <type_traits>\n#include <limits>\n#include <memory>\n#include <functional>\n'


def compile_witnesses(ws, head=HEAD, flags=()):
    """-> {key: (ok, message, kind)} with kind 'assert' or 'error'"""
    os.makedirs(facts.BUILD, exist_ok=True)
    fd, path = tempfile.mkstemp(suffix='.cpp', prefix='witness-', dir=facts.BUILD)
    txt = head; spans = {}
    ln = txt.count('\n') + 1
    for key, code in ws:
        code = code.rstrip('\n') + '\n'
        spans[key] = (ln, ln + code.count('\n') - 1); txt += code; ln += code.count('\n')
    with os.fdopen(fd, 'w') as fh: fh.write(txt)
    try:
        cmd = [facts.CLANG] + facts.CXXFLAGS + list(flags) + ['-fsyntax-only', '-ferror-limit=0', '-fno-caret-diagnostics', '-fno-color-diagnostics', '-I' + os.path.join(facts.REPO, 'src'), path]
        r = subprocess.run(cmd, capture_output=True, text=True)
    finally:
        os.unlink(path)
    res = {k: (True, '', '') for k, _ in ws}
    base = os.path.basename(path)
    stray = []
    cur = None
    for line in r.stderr.splitlines():
        m = re.match(r'(.*?):(\d+):(?:\d+:)? (fatal error|error|note|warning): (.*)', line)
        if not m: continue
        f, l, kind, msg = m.group(1), int(m.group(2)), m.group(3), m.group(4)
        here = next((k for k, (a, b) in spans.items() if os.path.basename(f) == base and a <= l <= b), None)
        if 'error' in kind:
            cur = None
            if here is not None: mark(res, here, msg)
            else: cur = msg; stray.append((msg, f, l))
        elif kind == 'note' and cur is not None and here is not None:
            mark(res, here, cur); cur = None; stray.pop()
    if stray and not any(not v[0] for v in res.values()):
        raise facts.AnalysisBroken('witnesses do not compile: %s' % (stray[0],))
    return res


def mark(res, k, msg):
    kind = 'assert' if 'static assertion failed' in msg or 'static_assert' in msg else 'error'
    if res[k][0] or kind == 'assert': res[k] = (False, msg, kind)
