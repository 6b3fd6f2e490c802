// Names travel between the specifications' driver and a harness percent-encoded, so that they may contain anything.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <string>
static inline std::string dec(const std::string& s) { if (s == "%") return ""; std::string o; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '%' && i + 2 < s.size()) { o += char(std::strtol(s.substr(i + 1, 2).c_str(), nullptr, 16)); i += 2; } else o += s[i]; return o; }
static inline std::string enc(const std::string& s) { if (s.empty()) return "%"; std::string o; for (unsigned char c : s) if ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_') o += char(c); else { char b[4]; std::snprintf(b, 4, "%%%02X", c); o += b; } return o; }
template <class C> std::vector<std::string> encAll(const C& c) { std::vector<std::string> v; for (auto& x : c) v.push_back(enc(x)); return v; }
