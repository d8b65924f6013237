// Native runtime: the harness runs the real code with the values of one counterexample file.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <vector>
#include <string>
#include <unistd.h>
#include <signal.h>
static std::vector<std::pair<std::string, std::string>> vals; static size_t pos;
extern "C" {
uint64_t sx_var(const char* name, unsigned, uint64_t lo, uint64_t, int sg) {
    if (pos >= vals.size()) { fprintf(stderr, "replay: no value left for %s, taking the lowest\n", name); return lo; }
    if (vals[pos].first != name) { fprintf(stderr, "replay: expected %s, file has %s\n", name, vals[pos].first.c_str()); _exit(4); }
    const std::string& v = vals[pos++].second; return sg ? (uint64_t) strtoll(v.c_str(), 0, 10) : strtoull(v.c_str(), 0, 10);
}
void sx_assume(bool c) { if (!c) { printf("REPLAY assumption-false\n"); fflush(stdout); _exit(0); } }
void sx_assert(bool c, const char* msg) { if (!c) { printf("REPLAY violated: %s\n", msg); fflush(stdout); _exit(1); } }
void sx_reach(const char*) {}
uint64_t sx_concrete(uint64_t v) { return v; }
int sx_symbolic_mode() { return 0; }
const char* sx_config(const char* key) { std::string k = std::string("SXC_") + key; const char* v = getenv(k.c_str()); return v ? v : ""; }
void sx_note(const char* t, size_t n) { printf("  %.*s\n", (int) n, t); }
}
int main(int argc, char** argv) {
    if (argc < 2) { fprintf(stderr, "usage: %s counterexample\n", argv[0]); return 4; }
    std::ifstream f(argv[1]); std::string line;
    while (std::getline(f, line)) { if (line.empty() || line[0] == '#') { if (line.rfind("#config ", 0) == 0) { auto e = line.find('='); setenv(("SXC_" + line.substr(8, e - 8)).c_str(), line.substr(e + 1).c_str(), 1); } continue; } auto s = line.rfind(' '); vals.push_back({ line.substr(0, s), line.substr(s + 1) }); }
    alarm(300);
    try { sx_harness(); } catch (const std::exception& e) { printf("REPLAY violated: uncaught exception: %s\n", e.what()); return 1; }
    catch (...) { printf("REPLAY violated: uncaught exception\n"); return 1; }
    printf("REPLAY held\n"); return 0;
}
