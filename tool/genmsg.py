#!/usr/bin/env python3
"""Generates declaration headers for the .msg definitions of the repository.

The real headers come from rosidl_generator_cpp, which is not installed here.
Only what the analysis needs is produced: the struct, its members in
declaration order with the C++ types rosidl maps them to, equality.
usage: genmsg.py MSGDIR OUTDIR
"""
import os
import re
import sys

PRIM = {
    'bool': 'bool', 'byte': 'unsigned char', 'char': 'unsigned char', 'float32': 'float',
    'float64': 'double', 'int8': 'int8_t', 'uint8': 'uint8_t', 'int16': 'int16_t',
    'uint16': 'uint16_t', 'int32': 'int32_t', 'uint32': 'uint32_t', 'int64': 'int64_t',
    'uint64': 'uint64_t', 'string': 'std::string', 'wstring': 'std::u16string',
}


def snake(name):
    s = re.sub(r'(.)([A-Z][a-z]+)', r'\1_\2', name)
    return re.sub(r'([a-z0-9])([A-Z])', r'\1_\2', s).lower()


def parse(path):
    """Return [(type, name, arraykind, bound, const)] in declaration order."""
    out = []
    for raw in open(path):
        line = raw.split('#', 1)[0].strip()
        if not line:
            continue
        m = re.match(r'^([A-Za-z_][\w/]*)(<=(\d+))?(\[(<=)?(\d*)\])?\s+([A-Za-z_]\w*)\s*(=.*|.*)?$', line)
        if not m:
            raise SystemExit('genmsg: cannot parse %s: %r' % (path, line))
        base, _, sbound, arr, upto, n, name, rest = m.groups()
        const = bool(rest and rest.startswith('='))
        kind = None
        if arr:
            kind = 'bounded' if upto else ('array' if n else 'seq')
        out.append({'type': base, 'sbound': int(sbound) if sbound else None, 'kind': kind,
                    'n': int(n) if n else None, 'name': name, 'const': const})
    return out


def cxxtype(f, pkg):
    b = f['type']
    deps = None
    if b in PRIM:
        t = PRIM[b]
    else:
        if '/' in b:
            p, b = b.split('/')[0], b.split('/')[-1]
        else:
            p = pkg
        t = '%s::msg::%s' % (p, b)
        deps = (p, b)
    if f['kind'] == 'array':
        t = 'std::array<%s, %d>' % (t, f['n'])
    elif f['kind'] in ('seq', 'bounded'):
        t = 'std::vector<%s>' % t
    return t, deps


def main():
    msgdir, outdir = sys.argv[1:3]
    pkg = 'rmw_dds_common'
    d = os.path.join(outdir, pkg, 'msg')
    os.makedirs(d, exist_ok=True)
    for fn in sorted(os.listdir(msgdir)):
        if not fn.endswith('.msg'):
            continue
        name = fn[:-4]
        fields = [f for f in parse(os.path.join(msgdir, fn)) if not f['const']]
        inc, body, eq = [], [], []
        for f in fields:
            t, dep = cxxtype(f, pkg)
            if dep:
                inc.append('#include "%s/msg/%s.hpp"' % (dep[0], snake(dep[1])))
            init = '{}' if (f['type'] in PRIM and f['type'] not in ('string', 'wstring') and f['kind'] in (None, 'array')) else ''
            body.append('  %s %s%s;' % (t, f['name'], init))
            eq.append('this->%s == _other.%s' % (f['name'], f['name']))
        g = '%s__MSG__%s_HPP_' % (pkg.upper(), snake(name).upper())
        lines = ['#ifndef ' + g, '#define ' + g, '#include <array>', '#include <cassert>', '#include <cstdint>', '#include <memory>',
                 '#include <string>', '#include <utility>', '#include <vector>'] + sorted(set(inc)) + [
                 'namespace %s {namespace msg {' % pkg, 'struct %s' % name, '{'] + body + [
                 '  bool operator==(const %s & _other) const {return %s;}' % (name, ' && '.join(eq) or 'true'),
                 '  bool operator!=(const %s & _other) const {return !this->operator==(_other);}' % name,
                 '};', '}}', '#endif', '']
        p = os.path.join(d, snake(name) + '.hpp')
        txt = '\n'.join(lines)
        if not (os.path.exists(p) and open(p).read() == txt):
            open(p, 'w').write(txt)


if __name__ == '__main__':
    main()
