#include "clangast.h"
// R01: declarations are recorded as declared
static void place(Ty *t, unsigned w) { // as typedef, variable, member, result and parameter
    Dc d = { D_TYPEDEF, "name", t }, p = { D_FIELD, "p", t }; Dc *k[] = { &p }; Ty vt = { T_VOID };
    if (w == 1) { d.k = D_VAR; d.b2 = true; } if (w == 2) { d.k = D_STRUCT; d.kid = k; d.nk = 1; } if (w == 3) d.k = D_FUNC; if (w == 4) { d.k = D_FUNC; d.ty = &vt; d.kid = k; d.nk = 1; }
    Dc *l[] = { &d }; run(l, 1);
}
CX_DRIVER(R01, builtin, 90) { Ty t = { T_B, 0, (int)(cell % 18) }; place(&t, cell / 18); }
CX_DRIVER(R01, qualified, 40) { Ty t = { T_B, cell % 8, 5 }; place(&t, cell / 8); }
CX_DRIVER(R01, pointer, 64) { Ty t = { T_B, cell % 8, 5 }, p = { T_PTR, cell / 8, 0, &t }, q = { T_PTR, 0, 0, &p }; place(&q, cell % 5); }
CX_DRIVER(R01, shape, 60) {
    Ty i = { T_B, 0, 1 }, v = { T_VOID }, o = { T_OPAQUE }, f = { T_FN, 0, 0, &i }, t = { 0 }, u = { 0 }; unsigned c = cell / 5;
    switch (c) { case 0: t = v; break; case 1: t = { T_PTR, 0, 0, &v }; break; case 2: t = { T_PTR, 0, 0, &o }; break; case 3: t = { T_PTR, 0, 0, &f }; break; case 4: t = { T_ARR, 0, 0, &i, 0, 7 }; break; case 5: t = { T_INC, 0, 0, &i }; break; case 6: t = { T_VLA, 0, 0, &i, 0, 0, true }; break; case 7: t = { T_VLA, 0, 0, &i }; break;
    case 8: u = { T_ARR, 0, 0, &i, 0, 1ull << 40 }; t = { T_ARR, 0, 0, &u, 0, 0, true }; break; case 9: u = { T_PTR, 1, 0, &v }; t = { T_ARR, 0, 0, &u, 0, 12 }; break; case 10: t = { T_SUGAR, 0, 0, &i }; break; default: u = { T_ARR, 0, 0, &i, 0, 3 }; t = { T_SUGAR, 0, 0, &u }; }
    place(&t, cell % 5);
}
CX_DRIVER(R01, enumerators, 24) {
    static const unsigned W[] = { 8, 16, 32, 64 }, BS[] = { 1, 3, 5, 7 }, BU[] = { 2, 4, 6, 8 }; unsigned w = W[cell % 4], uns = cell / 4 % 2, n = 1 + cell / 8; Ty t = { T_B, 0, (int)(uns ? BU : BS)[cell % 4] };
    Dc c[3], *k[3]; for (unsigned i = 0; i < n; i++) { c[i] = { D_CONST, i ? i == 1 ? "B" : "C" : "A", &t }; c[i].w = w; c[i].uns = uns; c[i].v = cx_sym("enumerator", w); k[i] = &c[i]; } Dc e = { D_ENUM, "e", &t, k, n }; Dc *l[] = { &e }; run(l, 1);
}
CX_DRIVER(R01, members, 16) {
    Ty t = { T_B, 0, 5 }; unsigned n = 1 + cell % 2, m = cell / 2 % 4; Dc f[2], *k[2]; for (unsigned i = 0; i < n; i++) { f[i] = { D_FIELD, i ? "second" : "first", &t }; f[i].bit = m >> i & 1; f[i].v = cx_u32("bits"); k[i] = &f[i]; } Dc r = { cell / 8 ? D_UNION : D_STRUCT, "record", 0, k, n }; Dc *l[] = { &r }; run(l, 1);
}
CX_DRIVER(R01, functions, 25) {
    Ty t = { T_B, 0, 5 }, u = { T_B, 1, 12 }, v = { T_PTR, 0, 0, &u }; Ty *ty[] = { &t, &v, &u, &v }; static const char *const nm[] = { "a", "", "ccc", "d" }; unsigned n = cell % 5; Dc p[4], *k[4]; for (unsigned i = 0; i < n; i++) { p[i] = { D_FIELD, nm[i], ty[(i + cell) % 4] }; k[i] = &p[i]; }
    Dc f = { D_FUNC, "function", ty[cell / 5 % 4], k, n }; f.b0 = cx_bool("noreturn"); f.b1 = cx_bool("global"); f.b2 = cx_bool("extern C"); f.uns = cx_bool("inline"); f.sc = cell / 5; Dc *l[] = { &f }; run(l, 1);
}
CX_DRIVER(R01, variables, 20) { Ty t = { T_B, 0, 5 }; Dc d = { D_VAR, "v", &t }; d.b2 = cx_bool("extern C"); static const unsigned SC[] = { SC_None, SC_Extern, SC_Static, SC_PrivateExtern, SC_Register }; d.sc = SC[cell % 5]; d.w = cell / 5; Dc *l[] = { &d }; run(l, 1); }
CX_DRIVER(R01, attributes, 231) {
    Ty t = { T_B, 0, 5 }; At a[3]; static const char *const s[] = { "one", "two", "three" }; unsigned n = cell < 11 ? 1 : 2 + cell % 2, x = cell; for (unsigned i = 0; i < n; i++) { a[i] = { (int)(x % 11), s[i], cx_u32("alignment") }; x = i ? x / 7 + 3 : x / 11; }
    Dc d = { (int)(cell % 6), "name", &t }; d.at = a; d.na = n; d.fwd = false; Dc *l[] = { &d }; run(l, 1);
}
