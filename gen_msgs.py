#!/usr/bin/env python3
"""Generate C++ message headers from /repo's .msg files (stand-in for rosidl_generator_cpp),
and vh_cdr.hpp, which puts them on the wire and takes them off it (stand-in for the type support).

usage: gen_msgs.py MSG_DIR OUT_INCLUDE_DIR
"""
import os
import re
import sys


def snake(n):
    return re.sub(r'(?<!^)(?=[A-Z])', '_', n).lower()


PRIM = {'bool': 'bool', 'byte': 'uint8_t', 'char': 'uint8_t', 'int8': 'int8_t', 'uint8': 'uint8_t',
        'int16': 'int16_t', 'uint16': 'uint16_t', 'int32': 'int32_t', 'uint32': 'uint32_t',
        'int64': 'int64_t', 'uint64': 'uint64_t', 'float32': 'float', 'float64': 'double'}

# Plain CDR (little endian), with the bounds of strings and sequences enforced in both directions.
CDR = r'''// generated
#ifndef VH_CDR_HPP_
#define VH_CDR_HPP_
#include <array>
#include <cstdint>
#include <cstring>
#include <string>
#include <type_traits>
#include <vector>
@INCLUDES@
namespace vh_cdr
{
using namespace rmw_dds_common::msg;
constexpr size_t kUnbounded = static_cast<size_t>(-1);
struct Enc
{
  std::string b;
  bool ok = true;
  template<typename T> void prim(T v)
  {
    while (b.size() % sizeof(T)) {b.push_back(0);}
    b.append(reinterpret_cast<const char *>(&v), sizeof(T));
  }
};
struct Dec
{
  const std::string & b;
  size_t i = 0;
  bool ok = true;
  template<typename T> T prim()
  {
    T v{};
    while (i % sizeof(T)) {++i;}
    if (i + sizeof(T) > b.size()) {ok = false; i = b.size(); return v;}
    std::memcpy(&v, b.data() + i, sizeof(T));
    i += sizeof(T);
    return v;
  }
};
template<typename T> std::enable_if_t<std::is_arithmetic<T>::value> put(Enc & e, const T & v, size_t, size_t) {e.prim(v);}
template<typename T> std::enable_if_t<std::is_arithmetic<T>::value> get(Dec & d, T & v, size_t, size_t) {v = d.prim<T>();}
inline void put(Enc & e, const std::string & s, size_t sb, size_t)
{
  if (s.size() > sb) {e.ok = false; return;}
  e.prim(static_cast<uint32_t>(s.size() + 1));
  e.b.append(s.c_str(), s.size() + 1);
}
inline void get(Dec & d, std::string & s, size_t sb, size_t)
{
  uint32_t n = d.prim<uint32_t>();
  if (!d.ok || n == 0 || n > d.b.size() - d.i || n - 1 > sb || d.b[d.i + n - 1]) {d.ok = false; return;}
  s.assign(d.b, d.i, n - 1);
  d.i += n;
}
@DECLS@
template<typename T, size_t N> void put(Enc & e, const std::array<T, N> & v, size_t sb, size_t) {for (auto & x : v) {put(e, x, sb, kUnbounded);}}
template<typename T, size_t N> void get(Dec & d, std::array<T, N> & v, size_t sb, size_t) {for (auto & x : v) {get(d, x, sb, kUnbounded);}}
template<typename T> void put(Enc & e, const std::vector<T> & v, size_t sb, size_t ab)
{
  if (v.size() > ab) {e.ok = false; return;}
  e.prim(static_cast<uint32_t>(v.size()));
  for (auto & x : v) {put(e, x, sb, kUnbounded);}
}
template<typename T> void get(Dec & d, std::vector<T> & v, size_t sb, size_t ab)
{
  uint32_t n = d.prim<uint32_t>();
  if (!d.ok || n > ab || n > d.b.size() - d.i) {d.ok = false; return;}
  v.resize(n);
  for (auto & x : v) {
    get(d, x, sb, kUnbounded);
    if (!d.ok) {return;}
  }
}
@DEFS@
}  // namespace vh_cdr
#endif
'''


def main(msg_dir, out):
    d = os.path.join(out, 'rmw_dds_common', 'msg')
    os.makedirs(d, exist_ok=True)
    incs, decls, defs = [], [], []
    for f in sorted(os.listdir(msg_dir)):
        if not f.endswith('.msg'):
            continue
        name = f[:-4]
        fields, deps = [], []
        for line in open(os.path.join(msg_dir, f)):
            line = line.split('#')[0].strip()
            if not line:
                continue
            if '=' in line.replace('<=', ''):
                continue     # a constant
            t, n = line.split()[:2]
            m = re.match(r'^([A-Za-z0-9_/]+?)(<=\d+)?(\[(<=)?(\d*)\])?$', t)
            lim = (m.group(2) or '<=kUnbounded')[2:], m.group(5) if m.group(4) else 'kUnbounded'
            base, arr, bound, cnt = m.group(1), m.group(3), m.group(4), m.group(5)
            base = base.split('/')[-1]
            if base in PRIM:
                ct = PRIM[base]
            elif base in ('string', 'wstring'):
                ct = 'std::string'
            else:
                ct = 'rmw_dds_common::msg::' + base
                deps.append(base)
            if arr:
                ct = ('std::array<%s, %s>' % (ct, cnt)) if cnt and not bound else 'std::vector<%s>' % ct
            fields.append((ct, n, lim))
        g = 'RMW_DDS_COMMON__MSG__%s_HPP_' % snake(name).upper()
        o = ['// generated from %s' % f, '#ifndef ' + g, '#define ' + g, '#include <array>', '#include <cstdint>',
             '#include <memory>', '#include <string>', '#include <vector>']
        o += ['#include "rmw_dds_common/msg/%s.hpp"' % snake(x) for x in sorted(set(deps))]
        o += ['namespace rmw_dds_common {', 'namespace msg {', 'struct %s {' % name, '  using Type = %s;' % name]
        o += ['  using _%s_type = %s;\n  %s %s{};' % (n, ct, ct, n) for ct, n, _ in fields]
        eq = ' && '.join('this->%s == o.%s' % (n, n) for _, n, _ in fields) or 'true'
        o += ['  bool operator==(const %s & o) const {return %s;}' % (name, eq),
              '  bool operator!=(const %s & o) const {return !this->operator==(o);}' % name,
              '  using SharedPtr = std::shared_ptr<%s>;' % name, '};', '}', '}', '#endif', '']
        s = '\n'.join(o)
        p = os.path.join(d, snake(name) + '.hpp')
        if not os.path.exists(p) or open(p).read() != s:
            open(p, 'w').write(s)
        incs.append('#include "rmw_dds_common/msg/%s.hpp"' % snake(name))
        decls += ['void put(Enc &, const %s &, size_t, size_t);' % name, 'void get(Dec &, %s &, size_t, size_t);' % name]
        for q, a, fn in (('const ', 'Enc & c', 'put'), ('', 'Dec & c', 'get')):
            defs.append('inline void %s(%s, %s%s & m, size_t, size_t)\n{' % (fn, a, q, name))
            defs += ['  if (c.ok) {%s(c, m.%s, %s, %s);}' % (fn, n, sb, ab) for _, n, (sb, ab) in fields]
            defs.append('}')
    t = CDR.replace('@INCLUDES@', '\n'.join(incs)).replace('@DECLS@', '\n'.join(decls)).replace('@DEFS@', '\n'.join(defs))
    open(os.path.join(out, 'vh_cdr.hpp'), 'w').write(t)


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2])
