#!/usr/bin/env python3
"""Copies REPO/HOT/include to DEST so that clang accepts it.  The sources are written for gcc; clang 18 rejects a few spellings gcc takes, none of which says what the code does:
- `T __restrict__ * p` (the qualifier stands before the star), dropped;
- reinterpret_cast<intptr_t>(nullptr) in constant expressions, written 0;
- explicit specialisations of member templates with a deduced return type, whose type is spelled out (every branch returns what the operation returns);
- the MMX helpers _mm_set_pi64x and _mm_and_si64, which the shim header supplies."""
import os, re, sys
src, dst = sys.argv[1] + '/HOT/include', sys.argv[2]
files = {}
for d, _, fs in os.walk(src):
    for f in fs: p = os.path.join(d, f); files[os.path.relpath(p, src)] = open(p, encoding='utf-8', errors='surrogateescape').read()
spec = set()
for s in files.values(): spec |= set(re.findall(r'template\s*<>\s*template\s*<[^>]*>\s*inline\s+auto\s+MultiMaskPartialKeyMapping\s*<\s*\d+u?\s*>::(\w+)', s))
for n, s in files.items():
    s = re.sub(r'reinterpret_cast<intptr_t>\(nullptr\)', 'static_cast<intptr_t>(0)', s)
    s = re.sub(r'\b__restrict__\b|\b__restrict\b', '', s)
    if 'MultiMaskPartialKeyMapping' in n:
        for f in spec: s = re.sub(r'(\bauto\b[^;{}]*\b%s\s*\(\s*Operation\s+const\s*&\s*(\w+)\s*\)\s*const)(?=\s*[;{])' % f, r'\1 -> decltype(\2(std::declval<MultiMaskPartialKeyMapping<4u> const &>(), uint32_t()))', s)
    p = os.path.join(dst, n); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w', encoding='utf-8', errors='surrogateescape').write(s)
