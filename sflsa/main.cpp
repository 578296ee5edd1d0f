// Driver: builds the AST of a witness translation unit, runs the analysis over the public members.
#include "spec.hpp"
#include "clang/Tooling/Tooling.h"
#include "clang/Basic/Diagnostic.h"
#include "clang/Frontend/ASTUnit.h"
#include <regex>
#include <fstream>
#include <chrono>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace clang;

static std::string jesc(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32) r += ' '; else r += c; }
    return r + "\"";
}

std::string jescape(const std::string& s) { return jesc(s); }
std::string runScan(ASTContext& C, const std::string& repo, bool exc);

bool gNoExc = false;
volatile int gOutOfTime = 0;
static void onAlarm(int) { gOutOfTime = 1; }

struct Job { size_t inst; const CXXMethodDecl* m; const FunctionDecl* f; std::string name; };

static std::string runJob(ASTContext& C, const std::string& cfgName, QualType ty, const Job& j, bool debug, const std::string& entry)
{
    Interp I(C); CInfo ci;
    if (!makeCInfo(I, ty, ci)) return "";
    ci.cfg = cfgName;
    if (ci.hasAlloc) I.maxszSym = newSym("max_size");
    Spec S(I, ci); S.debug = debug; S.onlyEntry = entry;
    auto a = std::chrono::steady_clock::now();
    if (j.m) S.runMethod(j.m); else S.runFree(j.f);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - a).count();
    std::string J = "{\"cfg\": " + jesc(ci.name + " " + cfgName) + ", \"method\": " + jesc(j.name) + ", \"wall\": " + std::to_string(dt);
    const char* nm[] = {"states", "obligations", "loops", "calls", "entries", "exits", "exc_exits", "nospec", "compared", "lin_queries"};
    unsigned long long st[10] = {I.nStates, I.nObligations, I.nLoops, I.nCalls, S.nEntries + S.nNegEntries, S.nExits, S.nExcExits, S.nNoSpec, S.nCompared, (unsigned long long)linStats.queries};
    for (int i = 0; i < 10; ++i) J += std::string(", \"") + nm[i] + "\": " + std::to_string(st[i]);
    J += ", \"unspecified\": ["; bool c = false;
    for (auto& u : S.unspecified) { J += (c ? ", " : "") + jesc(u); c = true; }
    J += "], \"undecided\": [";
    for (size_t i = 0; i < I.undecided.size(); ++i) J += (i ? ", " : "") + std::string("[") + jesc(I.undecided[i].first) + ", " + jesc(I.undecided[i].second) + "]";
    J += "], \"reports\": [";
    for (size_t i = 0; i < I.reports.size(); ++i)
    {
        auto& r = I.reports[i];
        J += (i ? ", " : "") + std::string("{\"kind\": ") + jesc(vkName[r.kind]) + ", \"method\": " + jesc(r.method) + ", \"entry\": " + jesc(r.entry) + ", \"where\": " + jesc(r.where) + ", \"msg\": " + jesc(r.msg)
            + ", \"definite\": " + (r.definite ? "true" : "false") + ", \"exceptional\": " + (r.exceptional ? "true" : "false") + ", \"alias\": " + (r.alias ? "true" : "false") + ", \"model\": " + jesc(r.model) + ", \"path\": [";
        for (size_t k = 0; k < r.path.size(); ++k) J += (k ? ", " : "") + jesc(r.path[k]);
        J += "]}";
    }
    J += "], \"functions\": ["; c = false;
    for (auto& p : I.funcsSeen) { J += (c ? ", " : "") + jesc(p.first); c = true; }
    return J + "]}";
}

int main(int argc, char** argv)
{
    std::string file, out, only, entry, inst; bool debug = false, list = false, scan = false; std::vector<std::string> extra;
    std::string repo = "/repo", wit = "/verif/witness"; int jobs = 1; int limit = 0, deadline = 0;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--only") only = argv[++i]; else if (a == "--entry") entry = argv[++i]; else if (a == "--inst") inst = argv[++i];
        else if (a == "--debug") debug = true; else if (a == "--list") list = true; else if (a == "--scan") scan = true; else if (a == "--neg") gNeg = true; else if (a == "--noexc") { gNoExc = true; extra.push_back("-DSFL_NO_EXCEPTIONS"); extra.push_back("-fno-exceptions"); extra.push_back("-DNDEBUG"); } else if (a == "-o") out = argv[++i];
        else if (a == "--repo") repo = argv[++i]; else if (a == "--wit") wit = argv[++i];
        else if (a == "-j") jobs = atoi(argv[++i]); else if (a == "--limit") limit = atoi(argv[++i]); else if (a == "--deadline") deadline = atoi(argv[++i]);
        else if (a[0] == '-') extra.push_back(a); else file = a;
    }
    // job tokens shared with the other analyser processes (as GNU make does)
    int tokR = -1, tokW = -1; if (const char* e = getenv("SFLSA_JOBS")) sscanf(e, "%d,%d", &tokR, &tokW);
    std::ifstream f(file); std::string code((std::istreambuf_iterator<char>(f)), {});
    std::vector<std::string> args = {"-std=c++17", "-I" + repo + "/include", "-I" + wit, "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-Wno-everything"};
    for (auto& e : extra) args.push_back(e);
    auto t0 = std::chrono::steady_clock::now();
    auto ast = tooling::buildASTFromCodeWithArgs(code, args, file, "sflsa");
    if (!ast || ast->getDiagnostics().hasUncompilableErrorOccurred()) { llvm::errs() << "sflsa: witness does not compile: " << file << "\n"; return 3; }
    ASTContext& C = ast->getASTContext();
    if (scan) { std::string J = runScan(C, repo, std::find(extra.begin(), extra.end(), "-DSFL_NO_EXCEPTIONS") != extra.end()); if (out.empty()) llvm::outs() << J; else { std::ofstream o(out); o << J; } return 0; }
    std::regex re(only.empty() ? ".*" : only);
    std::vector<std::pair<std::string, QualType>> insts;
    std::vector<const FunctionDecl*> frees;
    for (auto* d : C.getTranslationUnitDecl()->decls()) if (auto* ns = dyn_cast<NamespaceDecl>(d))
    {
        if (ns->getName() == "wit") for (auto* x : ns->decls()) if (auto* td = dyn_cast<TypedefNameDecl>(x)) insts.push_back({td->getNameAsString(), td->getUnderlyingType()});
        if (ns->getName() == "itw") for (auto* x : ns->decls()) if (auto* ft = dyn_cast<FunctionTemplateDecl>(x)) for (auto* sp : ft->specializations()) if (sp->isDefined() && ft->getName().starts_with("it_")) frees.push_back(sp->getDefinition());
        if (ns->getName() == "sfl") for (auto* x : ns->decls()) if (auto* ft = dyn_cast<FunctionTemplateDecl>(x)) for (auto* sp : ft->specializations()) if (sp->isDefined()) frees.push_back(sp->getDefinition());
    }
    std::vector<Job> js;
    // names of the documented interface (doc/*.md)
    static const std::set<llvm::StringRef> documented = { "assign", "get_allocator", "key_comp", "value_comp", "key_eq", "value_eq", "begin", "cbegin", "end", "cend", "rbegin", "crbegin", "rend", "crend", "nth", "index_of", "empty", "full", "size", "max_size", "capacity", "available", "available_front", "available_back", "reserve", "reserve_front", "reserve_back", "shrink_to_fit", "at", "front", "back", "data", "clear", "emplace", "emplace_hint", "emplace_back", "emplace_front", "insert", "insert_or_assign", "try_emplace", "push_back", "push_front", "pop_back", "pop_front", "erase", "resize", "resize_back", "resize_front", "swap", "lower_bound", "upper_bound", "equal_range", "find", "count", "contains", "erase_if" };
    for (size_t k = 0; k < insts.size(); ++k)
    {
        auto& in = insts[k];
        if (!inst.empty() && in.first != inst) continue;
        Interp I(C); CInfo ci;
        if (!makeCInfo(I, in.second, ci)) { llvm::errs() << "sflsa: not a container: " << in.first << "\n"; return 3; }
        ci.cfg = in.first; Spec S(I, ci);
        auto add = [&](const CXXMethodDecl* m)
        {
            if (m->getAccess() != AS_public || m->isDeleted()) return;
            if (m->getDeclName().isIdentifier() && !documented.count(m->getName())) return; // a helper: analysed through its callers
            const FunctionDecl* def = nullptr; if (m->isDefined(def)) m = cast<CXXMethodDecl>(def);
            if (!m->isDefined() && !m->isDefaulted()) return;
            std::string n = ci.name + "::" + S.methodName(m);
            if (std::regex_search(n, re)) js.push_back({k, m, nullptr, n});
        };
        for (auto* d : ci.rd->decls())
        {
            if (auto* m = dyn_cast<CXXMethodDecl>(d)) add(m);
            else if (auto* ft = dyn_cast<FunctionTemplateDecl>(d)) for (auto* sp : ft->specializations()) if (auto* m = dyn_cast<CXXMethodDecl>(sp)) add(m);
        }
        for (auto* fd : frees)
        {
            if (fd->getDeclName().isIdentifier() && !fd->getName().starts_with("it_") && !documented.count(fd->getName())) continue;
            bool mine = false; for (auto* p : fd->parameters()) if (C.hasSameUnqualifiedType(p->getType().getNonReferenceType(), ci.type)) mine = true;
            if (!mine) continue;
            std::string n = ci.name + "::free " + S.methodName(fd);
            if (std::regex_search(n, re)) js.push_back({k, nullptr, fd, n});
        }
    }
    if (list) { for (auto& j : js) llvm::outs() << insts[j.inst].first << " " << j.name << "\n"; return 0; }
    std::vector<std::string> results(js.size());
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    auto failed = [&](size_t i, const std::string& why)
    {
        auto& j = js[i]; results[i] = "{\"cfg\": " + jesc(insts[j.inst].first) + ", \"method\": " + jesc(j.name) + ", \"failed\": true, \"wall\": 0, \"undecided\": [[" + jesc(j.name + " {" + insts[j.inst].first + "}") + ", " + jesc(why) + "]], \"reports\": [], \"functions\": [], \"unspecified\": []}";
    };
    if (debug) for (size_t i = 0; i < js.size(); ++i) results[i] = runJob(C, insts[js[i].inst].first, insts[js[i].inst].second, js[i], debug, entry);
    else
    {
        struct Child { pid_t pid; size_t job; int fd; double start; bool tok; };
        std::vector<Child> run; size_t next = 0;
        if (tokR >= 0) jobs = 64;
        while (next < js.size() || !run.empty())
        {
            bool progress = false;
            while (next < js.size() && (int)run.size() < jobs)
            {
                if (deadline && elapsed() > deadline) { failed(next++, "not analysed: time budget of the check used up"); progress = true; continue; }
                bool tok = false;
                if (tokR >= 0 && !run.empty()) { char c; struct pollfd pf = {tokR, POLLIN, 0}; if (poll(&pf, 1, 0) != 1 || read(tokR, &c, 1) != 1) break; tok = true; }
                int fd = memfd_create("r", 0);
                llvm::outs().flush(); llvm::errs().flush();
                pid_t p = fork();
                if (p == 0)
                {
                    prctl(PR_SET_PDEATHSIG, SIGKILL);
                    if (limit) { signal(SIGALRM, onAlarm); alarm(limit); }
                    auto& j = js[next]; std::string r = runJob(C, insts[j.inst].first, insts[j.inst].second, j, false, entry);
                    size_t o = 0; while (o < r.size()) { ssize_t w = write(fd, r.data() + o, r.size() - o); if (w <= 0) break; o += w; }
                    _exit(0);
                }
                run.push_back({p, next++, fd, elapsed(), tok}); progress = true;
            }
            for (size_t i = 0; i < run.size();)
            {
                int st = 0; pid_t w = waitpid(run[i].pid, &st, WNOHANG); bool kill_ = false;
                if (w == 0 && limit && elapsed() - run[i].start > limit * 1.5 + 10) { kill(run[i].pid, SIGKILL); waitpid(run[i].pid, &st, 0); w = run[i].pid; kill_ = true; }
                if (w == 0) { ++i; continue; }
                progress = true;
                if (kill_) failed(run[i].job, "analysis time limit");
                else if (!WIFEXITED(st) || WEXITSTATUS(st)) failed(run[i].job, "analyser stopped");
                else { off_t n = lseek(run[i].fd, 0, SEEK_END); std::string b(n, 0); pread(run[i].fd, &b[0], n, 0); if (b.empty()) failed(run[i].job, "no result"); else results[run[i].job] = b; }
                close(run[i].fd);
                if (run[i].tok) { char c = '+'; write(tokW, &c, 1); }
                run.erase(run.begin() + i);
            }
            if (!progress) usleep(3000);
        }
    }
    std::string J = "{\n \"file\": " + jesc(file) + ", \"wall\": " + std::to_string(elapsed()) + ",\n \"results\": [\n";
    for (size_t i = 0; i < results.size(); ++i) J += "  " + results[i] + (i + 1 < results.size() ? ",\n" : "\n");
    J += " ]\n}\n";
    if (out.empty()) { if (!debug) llvm::outs() << J; } else { std::ofstream o(out); o << J; }
    return 0;
}
