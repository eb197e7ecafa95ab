#include "exec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <cstdlib>
#include <unistd.h>
#include <cstring>
using namespace llvm; using namespace symx;
static std::string js(const std::string &s) {
    std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\"";
}
static void inputsJson(std::ostream &o, const std::vector<std::pair<SymIn, u64>> &v) {
    o << "["; for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << "[" << js(v[i].first.name) << "," << v[i].first.w << "," << v[i].second << "]"; o << "]";
}
void Exec::writeJson(const std::string &path, const std::string &entry, double wall) {
    std::ofstream o(path);
    o << "{\"entry\":" << js(entry) << ",\"paths\":" << pathsDone << ",\"paths_assumed_away\":" << pathsAssumed << ",\"paths_error\":" << pathsErr << ",\"paths_incomplete\":" << pathsIncomplete
      << ",\"pending\":" << work.size() << ",\"exhausted\":" << ((!stop && work.empty() && incompletes.empty()) ? "true" : "false") << ",\"forks\":" << forks << ",\"instructions\":" << insts << ",\"assertions\":" << asserts << ",\"assert_queries\":" << assertQueries
      << ",\"max_depth\":" << maxDepth << ",\"queries\":" << g_ss.queries << ",\"z3_calls\":" << g_ss.z3calls << ",\"query_cache_hits\":" << g_ss.cacheHits << ",\"model_hits\":" << g_ss.modelHits << ",\"solver_unknown\":" << g_ss.unknown
      << ",\"solver_time\":" << g_ss.time << ",\"solver_max\":" << g_ss.maxTime << ",\"exprs\":" << g_numExprs << ",\"sym_vars\":" << g_vars.size() << ",\"wall\":" << wall;
    o << ",\"incompletes\":{"; bool f = true; for (auto &p : incompletes) { o << (f ? "" : ",") << js(p.first) << ":" << p.second; f = false; } o << "}";
    o << ",\"covers\":{"; f = true; for (auto &p : covers) { o << (f ? "" : ",") << js(p.first) << ":" << p.second; f = false; } o << "}";
    o << ",\"stubs\":{"; f = true; for (auto &p : stubsUsed) { o << (f ? "" : ",") << js(p.first) << ":" << p.second; f = false; } o << "}";
    std::vector<Func *> fs; for (auto *x : funcList) if (x->calls && !x->bi && x->inRepo) fs.push_back(x);
    std::sort(fs.begin(), fs.end(), [](Func *a, Func *b) { return a->calls > b->calls; });
    o << ",\"functions_encoded\":" << fs.size() << ",\"functions\":["; f = true;
    for (auto *x : fs) { o << (f ? "" : ",") << js(demangle(x->name).substr(0, 200)); f = false; } o << "]";
    o << ",\"errors\":[";
    for (size_t i = 0; i < errors.size(); ++i) {
        auto &e = errors[i]; o << (i ? "," : "") << "{\"kind\":" << js(e.kind) << ",\"msg\":" << js(e.msg) << ",\"where\":" << js(demangle(e.where)) << ",\"inputs\":"; inputsJson(o, e.inputs);
        o << ",\"stack\":["; for (size_t k = 0; k < e.stack.size(); ++k) o << (k ? "," : "") << js(e.stack[k].substr(0, 160)); o << "]}";
    }
    o << "],\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i) { o << (i ? "," : "") << "{\"inputs\":"; inputsJson(o, samples[i].inputs); o << ",\"obs\":["; for (size_t k = 0; k < samples[i].obs.size(); ++k) o << (k ? "," : "") << "[" << js(samples[i].obs[k].first) << "," << samples[i].obs[k].second << "]"; o << "]}"; }
    o << "]}\n";
}
int main(int argc, char **argv) {
    Options opt; std::string bc, entry, out = "/dev/stdout";
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--max-time") opt.maxTime = atof(nx().c_str());
        else if (a == "--max-path-insts") opt.maxPathInsts = strtoull(nx().c_str(), 0, 0); else if (a == "--max-errors") opt.maxErrors = atoi(nx().c_str());
        else if (a == "--samples") opt.samples = atoi(nx().c_str()); else if (a == "--max-paths") opt.maxPaths = strtoull(nx().c_str(), 0, 0); else if (a == "--solver-timeout") opt.solverTimeout = atoi(nx().c_str());
        else if (a == "--bfs") opt.bfs = true; else if (a == "--max-mem") opt.maxMemMB = strtoull(nx().c_str(), 0, 0);
        else if (a == "-D") { std::string p = nx(); auto e = p.find('='); opt.params[p.substr(0, e)] = strtoull(p.substr(e + 1).c_str(), 0, 0); }
        else bc = a;
    }
    LLVMContext C; SMDiagnostic err; auto M = parseIRFile(bc, err, C);
    if (!M) { err.print("symx", errs()); return 3; }
    solverInit(opt.solverTimeout);
    Exec X(*M, opt);
    X.t0 = X.now();
    X.run(entry);
    X.writeJson(out, entry, X.now() - X.t0);
    _exit(0);
}
