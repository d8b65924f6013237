// Stands in for the argparse submodule, which is not here: options are names from a table, each followed by at most one value.
#pragma once
#include <map>
#include <sstream>
#include <string>
#include <vector>
namespace argparse {
struct Result { std::string text; bool failed = false; operator bool() const { return failed; } };
inline std::ostream& operator<<(std::ostream& o, const Result& r) { return o << r.text; }
class ArgumentParser {
public:
    class Argument {
    public:
        Argument& names(std::vector<std::string> v) { names_ = v; return *this; }
        Argument& description(const std::string&) { return *this; }
        Argument& required(bool) { return *this; }
        Argument& position(int) { return *this; }
        Argument& count(size_t) { return *this; }
        std::vector<std::string> names_;
    };
    ArgumentParser(const std::string&, const std::string&) { args_.reserve(200); }
    Argument& add_argument() { args_.emplace_back(); return args_.back(); }
    void enable_help() { add_argument().names({ "-h", "--help" }); }
    void print_help() {}
    Result parse(int argc, const char* argv[]) {
        int cur = -1;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            if (a.size() > 1 && a[0] == '-') { cur = find(a); if (cur < 0) return { "Unknown argument " + a, true }; vals_[cur]; }
            else if (cur >= 0) { vals_[cur] = a; cur = -1; } else return { "Stray argument " + a, true };
        }
        return {};
    }
    bool exists(const std::string& s) const { int i = find(s); return i >= 0 && vals_.count(i); }
    template <class T> T get(const std::string& s) const { int i = find(s); if (i < 0 || !vals_.count(i)) return T(); if constexpr (std::is_same_v<T, std::string>) return vals_.at(i); else if constexpr (std::is_same_v<T, bool>) return true; else { std::istringstream in(vals_.at(i)); T t{}; in >> t; return t; } }
private:
    static std::string bare(const std::string& s) { size_t k = 0; while (k < s.size() && s[k] == '-') ++k; return s.substr(k); }
    int find(const std::string& s) const { for (size_t i = 0; i < args_.size(); ++i) for (auto& n : args_[i].names_) if (bare(n) == bare(s)) return (int) i; return -1; }
    std::vector<Argument> args_; std::map<int, std::string> vals_;
};
}
