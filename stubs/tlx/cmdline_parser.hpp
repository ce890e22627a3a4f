// stand-in for tlx::CmdlineParser: options (-x value, -x for flags) and positional parameters in the order of declaration
#pragma once
#include <cstdlib>
#include <functional>
#include <string>
#include <vector>
namespace tlx {
class CmdlineParser {
    struct Arg { char key; int values; std::function<void(const char*)> set; };
    std::vector<Arg> opts, params;
    template <class T> static std::function<void(const char*)> num(T& d) { return [&d](const char* s) { d = static_cast<T>(std::strtoull(s, nullptr, 10)); }; }
    static std::function<void(const char*)> str(std::string& d) { return [&d](const char* s) { d = s; }; }
    void flag(char k, bool& d) { opts.push_back({k, 0, [&d](const char*) { d = true; }}); }
public:
    void add_bool(char k, const std::string&, bool& d, const std::string&) { flag(k, d); }
    void add_flag(char k, const std::string&, bool& d, const std::string&) { flag(k, d); }
    void add_int(char k, const std::string&, int& d, const std::string&) { opts.push_back({k, 1, num(d)}); }
    void add_size_t(char k, const std::string&, size_t& d, const std::string&) { opts.push_back({k, 1, num(d)}); }
    void add_double(char k, const std::string&, double& d, const std::string&) { opts.push_back({k, 1, [&d](const char* s) { d = std::strtod(s, nullptr); }}); }
    void add_string(char k, const std::string&, std::string& d, const std::string&) { opts.push_back({k, 1, str(d)}); }
    void add_stringlist(char k, const std::string&, std::vector<std::string>& d, const std::string&) { opts.push_back({k, 1, [&d](const char* s) { d.emplace_back(s); }}); }
    void add_param_string(const std::string&, std::string& d, const std::string&) { params.push_back({0, 1, str(d)}); }
    void add_param_size_t(const std::string&, size_t& d, const std::string&) { params.push_back({0, 1, num(d)}); }
    bool process(int argc, const char* const* argv) {
        size_t pos = 0;
        for (int i = 1; i < argc; ++i) {
            if (argv[i][0] == '-' && argv[i][1]) {
                bool known = false;
                for (auto& o : opts)
                    if (o.key == argv[i][1]) {
                        known = true;
                        if (o.values && i + 1 >= argc) return false;
                        o.set(o.values ? argv[++i] : nullptr);
                        break;
                    }
                if (!known) return false;
            } else {
                if (pos == params.size()) return false;
                params[pos++].set(argv[i]);
            }
        }
        return pos == params.size();
    }
};
}
