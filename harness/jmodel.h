// Model of a Json value and comparison of the two, member by member.
#pragma once
struct M { char t = 'n'; u64 v = 0; std::vector<u8> s; std::vector<M> a; std::vector<std::vector<u8>> k; };
static bool eqBytes(const std::vector<u8> &a, const String &b) { if ((int)a.size() != b.length()) return false; bool ok = true; for (size_t i = 0; i < a.size(); i++) ok &= a[i] == (u8)b[i]; return ok; }
static bool same(const M &m, const Json &j) {
  switch (m.t) {
    case 'n': return j.is_null(); case 'b': return j.is_b() && j.as_b() == (m.v != 0);
    case 'i': return j.is_int() & (m.v == (j.is_unsigned() ? j.as_u() : (u64)j.as_i())) & !((bool)j.is_unsigned() & (bool)((int64_t)m.v < 0)); case 'u': return j.is_int() && m.v == j.as_u();
    case 'd': return j.is_d(); case 's': return j.is_s() && eqBytes(m.s, j.as_s());
    case 'a': { if (!j.is_a() || j.size() != (int)m.a.size()) return false; for (size_t i = 0; i < m.a.size(); i++) if (!same(m.a[i], j.at((int)i))) return false; return true; }
    case 'o': { if (!j.is_o() || j.size() != (int)m.a.size()) return false; size_t i = 0; for (auto it = j.cobegin(); it != j.coend(); ++it, ++i) { if (i >= m.a.size() || !eqBytes(m.k[i], it.key()) || !same(m.a[i], it.value())) return false; Str ks(it.key()); if (&j.get(ks) != &it.value()) return false; } return i == m.a.size(); }
  }
  return false;
}
