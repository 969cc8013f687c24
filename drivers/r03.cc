// R03: the plugin does what its arguments say, for the file at hand, and its failures end the compilation with an error status.
#include "clangast.h"
#include "clang/Frontend/CompilerInstance.h"
static bool ok, action, wantDump, dumped, wrote, writeFails; static const char *wantFile; static Dc **L; static unsigned NL; static decl_db *db1; static bool ended;
static void same(decl_db *db) { cx_assert(!db1 || db == db1, "one database is made"); db1 = db; DB = db; verify(L, NL); }
CX_STUB(R03, void, exit)(int code) { cx_assert(code != 0, "a premature end is a failure"); if (action) cx_assert(writeFails && wrote && wantFile, "the plugin ends the compiler only when writing failed"); else cx_assert(!ok, "well-formed arguments are accepted"); cx_done(); }
CX_STUB(R03, int, crefl_db_write_file)(decl_db *db, const char *f) { cx_assert(action && wantFile && !wrote && strcmp(f, wantFile) == 0, "the database is written once, to the file named"); same(db); wrote = true; if (writeFails) return cx_bool("how") ? -1 : 5; return 0; }
CX_STUB(R03, void, crefl_db_dump)(decl_db *db) { cx_assert(action && wantDump && !dumped, "the database is dumped once, when asked"); same(db); dumped = true; }
static ReflectAction *fresh() { ReflectAction *a = new ReflectAction(); cx_assert(!a->dump && !a->debug && a->outputFile.empty(), "nothing is asked for by default"); return a; }
static void parse(const char **v, unsigned n) {
    std::vector<std::string> av; for (unsigned i = 0; i < n; i++) av.push_back(std::string(v[i])); CompilerInstance *ci = (CompilerInstance*)cx_object(64, 1, "compiler");
    ok = true; const char *file = ""; bool dump = false, debug = false; for (unsigned i = 0; i < n && ok; i++) { if (!strcmp(v[i], "-o")) { if (++i == n) ok = false; else file = v[i]; } else if (!strcmp(v[i], "-dump")) dump = true; else if (!strcmp(v[i], "-debug")) debug = true; else ok = false; } if (!dump && !debug && !*file) ok = false;
    ReflectAction *a = fresh(); bool r = a->ParseArgs(*ci, av); cx_assert(r == ok, "arguments are accepted exactly when well-formed"); if (!ok) cx_done(); cx_assert(a->dump == dump && a->debug == debug && strcmp(a->outputFile.c_str(), file) == 0, "the arguments are taken as given");
}
static const char *const W[10] = { "-o", "-dump", "-debug", "out.refl", "", "-", "-O", "dump", "-dumps", "-oout" };
CX_DRIVER(R03, arguments, 1111) { unsigned n = cell < 1 ? 0 : cell < 11 ? 1 : cell < 111 ? 2 : 3, c = n == 0 ? 0 : n == 1 ? cell - 1 : n == 2 ? cell - 11 : cell - 111; const char *v[4]; for (unsigned i = 0; i < n; i++, c /= 10) v[i] = W[c % 10]; parse(v, n); }
CX_DRIVER(R03, longer, 3381) { unsigned n = cell < 256 ? 4 : 5, c = n == 4 ? cell : cell - 256; const char *v[6]; for (unsigned i = 0; i < n; i++) { unsigned b = n == 4 ? 4 : 5; v[i] = W[c % b]; c /= b; } parse(v, n); }
CX_DRIVER(R03, option, 10) { cx_set("disj", 512); char *s = (char*)cx_object(cell + 1, 2, "option"); s[cell] = 0; for (unsigned i = 0; i < cell; i++) if (!s[i]) cx_stop(); const char *v[] = { "-dump", s }; parse(v, 2); }
CX_DRIVER(R03, file, 24) { cx_set("disj", 512); char *s = (char*)cx_object(cell + 1, 2, "file"); s[cell] = 0; for (unsigned i = 0; i < cell; i++) if (!s[i]) cx_stop(); const char *v[] = { "-o", s }; parse(v, 2); }
CX_DRIVER(R03, end, 48) {
    static Ty I = { T_B, 0, 5 }; static Dc x = { D_TYPEDEF, "x", &I }, y = { D_TYPEDEF, "y", &I }; static Dc *l[2] = { &x, &y }; L = l; NL = cell % 3; bool out = cell / 3 % 2; wantDump = cell / 6 % 2; bool pathd = cell / 12 % 2;
    TranslationUnitDecl *tu = unit(L, NL); if (NL) x.d->getAttrs(); size_t heap = cx_heap_live(); ReflectAction *a = fresh(); wantFile = out ? "out.refl" : 0; if (out) a->outputFile = "out.refl"; a->dump = wantDump; a->debug = cell / 24; writeFails = cx_bool("write fails");
    CompilerInstance *ci = (CompilerInstance*)cx_object(sizeof(CompilerInstance), 1, "compiler"); *(void**)&ci->Context = CTX; ((FrontendAction*)a)->Instance = ci; ((FrontendAction*)a)->CurrentInput.File = pathd ? "some/dir/unit.c" : "unit.c";
    action = true; a->EndSourceFileAction(); cx_assert(wrote == out && dumped == wantDump && !(out && writeFails), "what was asked for is done, and a failed write ends the compiler"); cx_assert(cx_heap_live() == heap + 1, "the database is freed");
}
