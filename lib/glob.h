// An independent matcher for file-name like patterns: * ? [set] {a,b}.
#ifndef VERIF_GLOB_H_
#define VERIF_GLOB_H_
#include <string>
#include <vector>
inline bool GlobAt(const std::string& p, size_t i, const std::string& s, size_t j) {
  if (i == p.size()) return j == s.size();
  if (p[i] == '*') { for (size_t k = j; k <= s.size(); ++k) if (GlobAt(p, i + 1, s, k)) return true; return false; }
  if (p[i] == '{') {
    const size_t e = p.find('}', i);
    std::string alt;
    for (size_t k = i + 1; k <= e; ++k) {
      if (p[k] == ',' || p[k] == '}') { if (GlobAt(alt + p.substr(e + 1), 0, s.substr(j), 0)) return true; alt.clear(); }
      else alt += p[k];
    }
    return false;
  }
  if (j == s.size()) return false;
  if (p[i] == '[') {
    const size_t e = p.find(']', i + 2);
    bool in = false;
    for (size_t k = i + 1; k < e; ++k) {
      if (k + 2 < e && p[k + 1] == '-') { if (s[j] >= p[k] && s[j] <= p[k + 2]) in = true; k += 2; }
      else if (p[k] == s[j]) in = true;
    }
    return in && GlobAt(p, e + 1, s, j + 1);
  }
  return (p[i] == '?' || p[i] == s[j]) && GlobAt(p, i + 1, s, j + 1);
}
inline bool GlobMatch(const std::string& p, const std::string& s) { return GlobAt(p, 0, s, 0); }
#endif
