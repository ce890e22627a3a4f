// stand-in for tlx::split (same contract: split at a separator character)
#pragma once
#include <string>
#include <vector>
namespace tlx {
inline std::vector<std::string> split(char sep, const std::string& str, std::string::size_type limit = std::string::npos) {
    std::vector<std::string> out;
    if (limit == 0) return out;
    size_t i = 0, last = 0;
    for (; i < str.size(); ++i)
        if (str[i] == sep) {
            if (out.size() + 1 >= limit) { out.emplace_back(str, last); return out; }
            out.emplace_back(str, last, i - last);
            last = i + 1;
        }
    out.emplace_back(str, last, i - last);
    return out;
}
inline std::vector<std::string> split(const char* sep, const std::string& str) {
    std::vector<std::string> out;
    std::string s(sep);
    size_t last = 0, p;
    while ((p = str.find(s, last)) != std::string::npos) { out.emplace_back(str, last, p - last); last = p + s.size(); }
    out.emplace_back(str, last);
    return out;
}
}
