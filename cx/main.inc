#include <csignal>
#include <sys/prctl.h>
// Work distribution and reporting.
struct Shared { volatile u64 next; volatile u64 viol; };
static std::string jesc(const std::string&s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((u8)c < 32) r += ' '; else r += c; } return r; }
static void resetTables() {
    T.reset(); addrSyms = 0; VT.reset(); baseReg.clear(); globalInit.clear(); uidName.clear(); vaTab.clear(); vaIdx.clear(); vaStack.clear();
    optUnroll = 140; optMaxIter = 20000; optStates = 20000; optDisj = 4; flagMallocFail = flagCapture = 0; flagIoFail = 1; optNoUndef = optDigits = optAligned = false; baseAligned = isBaseAligned; callStack.clear(); depth = 0; curInst = nullptr;
}
static std::vector<Function*> ctors; // of the module, in order
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct WorkItem { Function *f; u32 cell; };
static std::string analyseCell(const WorkItem &w, FILE *o) {
    resetTables(); curDriver = w.f->getName().str(); curCell = w.cell; viols.clear(); returnsSeen = 0; nInst = 0;
    std::string incon; std::vector<Ret> out;
    try {
        State s; s.f = sp<Facts>(new Facts()); s.mem = sp<MemMap>(new MemMap());
        std::vector<V> args; if (w.f->arg_size()) args.push_back(intern(mkConst(32, w.cell)));
        // dynamic initialisers of globals
        for (Function *c : ctors) { std::vector<Ret> o1; std::vector<V> none; execFunction(c, none, std::move(s), o1); if (o1.size() != 1) throw Inconclusive{"a global initialiser does not end in one state"}; s = std::move(o1[0].s); }
        execFunction(w.f, args, std::move(s), out);
        returnsSeen += out.size();
    } catch (Inconclusive &i) { if (!i.term) incon = i.why + " (at " + locOf(curInst) + ")"; else { Violation v; v.rule = "termination"; v.msg = "termination is not established: " + i.why; v.loc = locOf(curInst); viols["termination"] = v; } }
    catch (Killed&) {} catch (Infeasible&) {}
    catch (NeedFork&) { incon = "unresolved case split"; }
    if (incon.empty() && viols.empty() && returnsSeen == 0) incon = "vacuous: no path reaches the end of the driver";
    for (auto &e : viols) fprintf(o, "V\t%s\t%u\t%s\t%s\t%s\t%s\n", curDriver.c_str(), w.cell, e.second.rule.c_str(), e.second.loc.c_str(), jesc(e.second.msg).c_str(), jesc(e.second.stack).c_str());
    if (!incon.empty()) fprintf(o, "I\t%s\t%u\t%s\n", curDriver.c_str(), w.cell, jesc(incon).c_str());
    fprintf(o, "R\t%s\t%u\t%llu\t%llu\n", curDriver.c_str(), w.cell, (unsigned long long)returnsSeen, (unsigned long long)nInst);
    return incon;
}
static void whereNow(int) { std::string st = curInst ? fname(curInst->getFunction()) + " (" + locOf(curInst) + ")" : ""; for (int i = (int)callStack.size() - 1; i >= 0; i--) if (callStack[i]) st += " <- " + fname(callStack[i]->getFunction()) + " (" + locOf(callStack[i]) + ")"; fprintf(stderr, "%s\n", st.c_str()); }
int main(int argc, char **argv) {
    signal(SIGUSR1, whereNow);
    std::string mod, prop, filter, outf; int jobs = 8; i64 onlyCell = -1; double tmo = 0; bool list = false; std::string exclude;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--prop") prop = argv[++i]; else if (a == "--filter") filter = argv[++i]; else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--cell") onlyCell = atoll(argv[++i]);
        else if (a == "--out") outf = argv[++i]; else if (a == "-v") verbose = true; else if (a == "--list") list = true; else if (a == "--timeout") tmo = atof(argv[++i]); else if (a == "--exclude") exclude = argv[++i]; else mod = a;
    }
    struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30)) { rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 1ull << 30); if (setrlimit(RLIMIT_STACK, &rl) == 0 && !getenv("CX_RE")) { setenv("CX_RE", "1", 1); execv("/proc/self/exe", argv); } }
    LLVMContext ctx; SMDiagnostic err; auto m = parseIRFile(mod, err, ctx);
    if (!m) { err.print("cx", errs()); return 3; }
    M = m.get(); DL = &M->getDataLayout();
    for (auto &g : M->globals()) { gvars.push_back(&g); gvId[&g] = gvars.size(); }
    for (auto &f : *M) { fnId[&f] = FBASE + fns.size(); fns.push_back(&f); }
    if (auto *g = M->getGlobalVariable("llvm.global_ctors")) if (auto *a = dyn_cast<ConstantArray>(g->getInitializer())) for (auto &u : a->operands()) if (auto *st = dyn_cast<ConstantStruct>(u.get())) if (auto *c = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) ctors.push_back(c);
    std::vector<WorkItem> items; std::map<std::string,u64> perDriver;
    for (auto &f : *M) {
        std::string n = f.getName().str();
        if (n.compare(0, 9, "cx_drv__") == 0 || n.compare(0, 8, "cx_drv__") == 0) {
            // cx_drv__PROP__name__N
            size_t p1 = n.find("__", 8), p2 = n.rfind("__"); std::string pr = n.substr(8, p1 - 8), nm = n.substr(p1 + 2, p2 - p1 - 2); u32 cells = atoi(n.c_str() + p2 + 2);
            if (!prop.empty() && pr != prop) continue;
            if (!filter.empty() && nm.find(filter) == std::string::npos) continue;
            if (!exclude.empty() && nm.find(exclude) != std::string::npos) continue;
            if (list) { printf("%s %s %u\n", pr.c_str(), nm.c_str(), cells); continue; }
            perDriver[n] = cells;
            for (u32 c = 0; c < cells; c++) if (onlyCell < 0 || c == onlyCell) items.push_back({&f, c});
        }
        if (n.compare(0, 9, "cx_stub__") == 0) {
            size_t p1 = n.find("__", 9); std::string pr = n.substr(9, p1 - 9), tgt = n.substr(p1 + 2);
            if (pr == prop || pr == "all") { Function *t = M->getFunction(tgt); if (t) stubMap[t] = &f; }
        }
    }
    if (list) return 0;
    if (items.empty()) { fprintf(stderr, "no drivers\n"); return 3; }
    // expensive cells first is not known; interleave
    Shared *sh = (Shared*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sh->next = sh->viol = 0;
    std::vector<pid_t> pids; std::string base = outf.empty() ? "/tmp/cx." + std::to_string(getpid()) : outf; int bad = 0;
    auto work = [&](int j) {
        FILE *o = fopen((base + "." + std::to_string(j)).c_str(), "w"); if (!o) _exit(3);
        for (;;) { u64 i = __sync_fetch_and_add(&sh->next, 1); if (i >= items.size()) break; if (sh->viol >= 60) continue; fprintf(o, "S\t%s\t%u\n", items[i].f->getName().str().c_str(), items[i].cell); fflush(o); analyseCell(items[i], o); if (!viols.empty()) __sync_fetch_and_add(&sh->viol, 1); fflush(o); }
        for (auto &e : oblig) { fprintf(o, "O\t%s\t%llu\n", e.first, (unsigned long long)e.second.n); std::set<std::string> ls; for (auto *i : e.second.sites) ls.insert(locOf(i)); for (auto &l : ls) fprintf(o, "L\t%s\t%s\n", e.first, l.c_str()); }
        { std::set<std::string> fs; for (auto *f : fnsSeen) fs.insert(fname(f)); for (auto &f : fs) fprintf(o, "F\t%s\n", f.c_str()); }
        fprintf(o, "P\t%llu\t%llu\n", (unsigned long long)nPart, (unsigned long long)nMerge);
        fprintf(o, "E\n"); fclose(o);
    };
    if (jobs <= 1) work(0);
    else {
        for (int j = 0; j < jobs; j++) { pid_t p = fork(); if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); work(j); _exit(0); } pids.push_back(p); }
        // a deadline ends the run; once something is found, the rest gets a minute
        double end = tmo > 0 ? now() + tmo : 1e18; bool cut = false; std::set<pid_t> left(pids.begin(), pids.end());
        while (!left.empty()) {
            for (auto it = left.begin(); it != left.end();) { int st; if (waitpid(*it, &st, WNOHANG) == *it) { it = left.erase(it); if (!cut && (!WIFEXITED(st) || WEXITSTATUS(st))) { bad++; fprintf(stderr, "worker failed (status %d)\n", st); } } else ++it; }
            if (sh->viol && tmo > 0) end = std::min(end, now() + 60);
            if (!cut && now() > end) { cut = true; fprintf(stderr, "time limit\n"); for (pid_t p : left) kill(p, SIGKILL); }
            if (!left.empty()) usleep(20000);
        }
    }
    // aggregate
    std::string agg; u64 nv = 0, ni = 0, cells = 0; std::map<std::string,u64> ob; std::map<std::string,std::set<std::string>> sites; std::set<std::string> fs; u64 parts = 0, merges = 0, rets = 0, insts = 0; std::vector<std::string> vl, il;
    for (int j = 0; j < std::max(1, jobs); j++) {
        std::string fn = base + "." + std::to_string(j); FILE *o = fopen(fn.c_str(), "r"); if (!o) { bad++; continue; }
        char *line = nullptr; size_t cap = 0; ssize_t n; bool end = false; std::string lastS;
        while ((n = getline(&line, &cap, o)) > 0) {
            std::string l(line, n); if (!l.empty() && l.back() == '\n') l.pop_back();
            std::vector<std::string> f; size_t p = 0; for (;;) { size_t q = l.find('\t', p); f.push_back(l.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; p = q + 1; }
            if (f[0] == "V") { nv++; vl.push_back(l); } else if (f[0] == "I") { ni++; il.push_back(l); } else if (f[0] == "R") { cells++; rets += strtoull(f[3].c_str(), 0, 10); insts += strtoull(f[4].c_str(), 0, 10); } else if (f[0] == "S") lastS = l;
            else if (f[0] == "O") ob[f[1]] += strtoull(f[2].c_str(), 0, 10); else if (f[0] == "L") sites[f[1]].insert(f[2]); else if (f[0] == "F") fs.insert(f[1]); else if (f[0] == "P") { parts += strtoull(f[1].c_str(), 0, 10); merges += strtoull(f[2].c_str(), 0, 10); } else if (f[0] == "E") end = true;
        }
        free(line); fclose(o); unlink(fn.c_str());
        if (!end) { ni++; il.push_back("I\tcrash\t0\tanalyser worker ended early in " + lastS); }
    }
    FILE *o = outf.empty() ? stdout : fopen(outf.c_str(), "w");
    fprintf(o, "{\n \"cells\": %llu, \"partitions\": %llu, \"merges\": %llu, \"returns\": %llu, \"instructions\": %llu,\n", (unsigned long long)cells, (unsigned long long)parts, (unsigned long long)merges, (unsigned long long)rets, (unsigned long long)insts);
    fprintf(o, " \"drivers\": {"); { bool c = false; for (auto &e : perDriver) { fprintf(o, "%s\"%s\": %llu", c ? ", " : "", e.first.c_str(), (unsigned long long)e.second); c = true; } } fprintf(o, "},\n");
    fprintf(o, " \"obligations\": {"); { bool c = false; for (auto &e : ob) { fprintf(o, "%s\"%s\": {\"checked\": %llu, \"sites\": %zu}", c ? ", " : "", e.first.c_str(), (unsigned long long)e.second, sites[e.first].size()); c = true; } } fprintf(o, "},\n");
    fprintf(o, " \"functions\": ["); { bool c = false; for (auto &e : fs) { fprintf(o, "%s\"%s\"", c ? ", " : "", jesc(e).c_str()); c = true; } } fprintf(o, "],\n");
    auto emit = [&](const char *k, std::vector<std::string>&v, size_t lim) { fprintf(o, " \"%s\": [", k); for (size_t i = 0; i < v.size() && i < lim; i++) { std::vector<std::string> f; size_t p = 0; for (;;) { size_t q = v[i].find('\t', p); f.push_back(v[i].substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; p = q + 1; }
        fprintf(o, "%s\n  [", i ? "," : ""); for (size_t j = 1; j < f.size(); j++) fprintf(o, "%s\"%s\"", j > 1 ? ", " : "", f[j].c_str()); fprintf(o, "]"); } fprintf(o, "]"); };
    emit("violations", vl, 400); fprintf(o, ",\n"); emit("inconclusive", il, 200); fprintf(o, ",\n \"nviol\": %llu, \"nincon\": %llu, \"workers_failed\": %d\n}\n", (unsigned long long)nv, (unsigned long long)ni, bad);
    if (o != stdout) fclose(o);
    return nv ? 1 : (ni || bad) ? 2 : 0;
}
