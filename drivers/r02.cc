#include "clangast.h"
// R02: the recorded declarations form the graph of the source: order, nesting, uses of types
static Ty INT = { T_B, 0, 5 }, DBL = { T_B, 0, 12 };
struct Pool { Dc *d, **k; unsigned n = 0, m = 0; Pool(unsigned c = 24) { d = (Dc*)cx_object(c * sizeof(Dc), 0, "declarations"); k = (Dc**)cx_object(c * sizeof(Dc*), 0, "children"); } Dc *add(int kind, const char *nm, Ty *t) { Dc *x = &d[n++]; *x = { kind, nm, t }; if (kind == D_CONST) { x->w = 32; x->v = n; x->uns = 1; } return x; } };
static Dc **kids(Pool &p, std::initializer_list<Dc*> l) { Dc **r = p.k + p.m; for (Dc *x : l) p.k[p.m++] = x; return r; }
static Dc *rec(Pool &p, int kind, const char *nm, std::initializer_list<Dc*> l) { Dc *x = p.add(kind, nm, &INT); x->nk = l.size(); x->kid = kids(p, l); return x; }
// one declaration of each form
static Dc *form(Pool &p, unsigned f) {
    switch (f) {
    case 0: return p.add(D_TYPEDEF, "t", &INT); case 1: return p.add(D_VAR, "v", &DBL); case 2: { Dc *x = rec(p, D_FUNC, "f", { p.add(D_FIELD, "a", &INT) }); return x; } case 3: return rec(p, D_STRUCT, "s", { p.add(D_FIELD, "a", &INT), p.add(D_FIELD, "b", &DBL) });
    case 4: { Dc *x = p.add(D_STRUCT, "s0", 0); x->fwd = true; return x; } case 5: return rec(p, D_ENUM, "e", { p.add(D_CONST, "A", &INT), p.add(D_CONST, "B", &INT) }); case 6: { Dc *x = p.add(D_ENUM, "e0", &INT); x->fwd = true; return x; }
    case 7: return rec(p, D_UNION, "u", { rec(p, D_STRUCT, "", { p.add(D_FIELD, "x", &INT) }), p.add(D_FIELD, "y", &DBL) }); case 8: { Dc *x = p.add(D_VAR, "bad", &INT); x->invalid = true; return x; }
    default: { Dc *x = p.add(D_FUNC, "g", &INT); Dc *v = p.add(D_VAR, "local", &INT); v->sc = p.n % 3; x->loc = kids(p, { rec(p, D_STRUCT, "in", { p.add(D_FIELD, "q", &INT) }), v, p.add(D_TYPEDEF, "lt", &DBL) }); x->nl = 3; return x; }
    }
}
CX_DRIVER(R02, sequence, 1000) { Pool p; Dc *l[] = { form(p, cell % 10), form(p, cell / 10 % 10), form(p, cell / 100) }; run(l, 3); }
// nesting: members before and after nested declarations, to depth three
CX_DRIVER(R02, nesting, 54) {
    Pool p; unsigned a = cell % 3, b = cell / 3 % 3, c = cell / 9 % 3; static const int K[] = { D_STRUCT, D_UNION, D_ENUM }; Dc *in = K[c] == D_ENUM ? rec(p, D_ENUM, "", { p.add(D_CONST, "A", &INT) }) : rec(p, K[c], "in", { p.add(D_FIELD, "z", &INT), p.add(D_FIELD, "w", &INT) });
    Dc *m = b == 0 ? rec(p, D_STRUCT, "mid", { in, p.add(D_FIELD, "m", &INT) }) : b == 1 ? rec(p, D_UNION, "mid", { p.add(D_FIELD, "m", &INT), in }) : rec(p, D_STRUCT, "mid", { p.add(D_FIELD, "m", &INT), in, p.add(D_FIELD, "n", &DBL) });
    Dc *o = a == 0 ? rec(p, D_STRUCT, "out", { m }) : a == 1 ? rec(p, D_STRUCT, "out", { p.add(D_FIELD, "o", &INT), m }) : rec(p, D_UNION, "out", { m, p.add(D_FIELD, "o", &INT), p.add(D_FIELD, "oo", &DBL) }); Dc *l[] = { o, form(p, cell / 27 ? 2 : 3) }; run(l, 2);
}
// uses of declared types: earlier, later, own, mutual
CX_DRIVER(R02, uses, 48) {
    Pool p; unsigned k = cell % 3, how = cell / 3 % 4, where = cell / 12; static const int K[] = { D_STRUCT, D_UNION, D_ENUM }; Dc *s = K[k] == D_ENUM ? rec(p, D_ENUM, "target", { p.add(D_CONST, "A", &INT) }) : rec(p, K[k], "target", { p.add(D_FIELD, "z", &INT) });
    Ty t = { T_TAG, 0, 0, 0, s }, t1 = { T_PTR, 0, 0, &t }, t2 = { T_ARR, 0, 0, &t, 0, 3 }, c = { T_TAG, 1, 0, 0, s }, t3 = { T_PTR, 2, 0, &c }; Ty *use = how == 0 ? &t : how == 1 ? &t1 : how == 2 ? &t2 : &t3; if (where == 1 && (how == 0 || how == 2)) cx_done();
    Dc *u = where == 0 ? p.add(D_TYPEDEF, "alias", use) : where == 1 ? p.add(D_VAR, "before", use) : where == 2 ? rec(p, D_STRUCT, "user", { p.add(D_FIELD, "m", use), p.add(D_FIELD, "n", use) }) : rec(p, D_FUNC, "fn", { p.add(D_FIELD, "a", &INT), p.add(D_FIELD, "b", use) }); Dc *l[] = { where == 1 ? u : s, where == 1 ? s : u, p.add(D_VAR, "later", use) }; run(l, 3);
}
CX_DRIVER(R02, recursive, 8) {
    Pool p; unsigned n = cell % 2; Ty ta = { T_TAG }, tb = { T_TAG }, pa = { T_PTR, 0, 0, &ta }, pb = { T_PTR, 0, 0, &tb }, aa = { T_ARR, 0, 0, &pa, 0, 2 }; Dc *fw = p.add(D_STRUCT, "b", 0); fw->fwd = true;
    Dc *a = rec(p, D_STRUCT, "a", { p.add(D_FIELD, "self", &pa), p.add(D_FIELD, "other", &pb), p.add(D_FIELD, "more", &aa) }), *b = rec(p, cell / 2 % 2 ? D_UNION : D_STRUCT, "b", { p.add(D_FIELD, "back", &pa), p.add(D_FIELD, "own", &pb) }); ta.tag = a; tb.tag = b; if (cell / 4) { Dc *l[] = { p.add(D_VAR, "early", n ? &pa : &pb), a, b }; run(l, 3); } else if (n) { Dc *l[] = { fw, a, b }; run(l, 3); } else { Dc *l[] = { a, b, fw }; run(l, 3); }
}
// a unit of every form, with the tables moving after any number of further entries or name octets
static void big() { Pool p; At at[] = { { 1 }, { 8, 0, 16 }, { 9, "note" } }; Dc *e = form(p, 5), *s = form(p, 3); Ty t = { T_TAG, 0, 0, 0, s }, q = { T_PTR, 1, 0, &t }, a = { T_ARR, 0, 0, &q, 0, 4 }, te = { T_TAG, 0, 0, 0, e }; s->at = at; s->na = 3; Dc *f = rec(p, D_FUNC, "fn", { p.add(D_FIELD, "x", &a), p.add(D_FIELD, "y", &te) }); f->ty = &q; f->at = at; f->na = 2; Dc *b = p.add(D_FIELD, "bits", &INT); b->bit = true; b->v = 5; Dc *v = p.add(D_VAR, "var", &a), *td = p.add(D_TYPEDEF, "td", &q); v->at = td->at = at; v->na = td->na = 3; Dc *u = rec(p, D_UNION, "un", { b, p.add(D_FIELD, "z", &a) }); Dc *l[] = { f, e, v, s, td, u }; run(l, 6); }
CX_DRIVER(R02, entries, 60) { ROOM = cell; big(); }
CX_DRIVER(R02, names, 130) { NROOM = cell; big(); }
// the same with debugging output
CX_DRIVER(R02, debugging, 101) { DEBUGGING = true; if (cell == 100) { big(); return; } Pool p; Dc *l[] = { form(p, cell % 10), form(p, cell / 10 % 10) }; run(l, 2); }
// many members, enumerators, parameters and declarations, and deep nesting
CX_DRIVER(R02, many, 24) {
    static const unsigned N[6] = { 15, 16, 17, 33, 64, 100 }; unsigned n = N[cell % 6], how = cell / 6; cx_set("states", 4000000); cx_set("iter", 300000); Pool p(n * 3 + 20); static char names[100][4]; for (unsigned i = 0; i < n; i++) { names[i][0] = 'n'; names[i][1] = 'A' + i % 26; names[i][2] = 'a' + i / 26; }
    static Ty T[100], Q[100]; Dc **l = (Dc**)cx_object((n + 3) * sizeof(Dc*), 1, "unit"); unsigned m = 0;
    if (how < 3) { static const int K[3] = { D_STRUCT, D_ENUM, D_FUNC }; Dc *f = form(p, 3), *o = p.add(K[how], "big", &INT); o->nk = n; o->kid = p.k + p.m; p.m += n; T[0] = { T_TAG, 0, 0, 0, f }; Q[0] = { T_PTR, 1, 0, T }; for (unsigned i = 0; i < n; i++) o->kid[i] = p.add(how == 1 ? D_CONST : D_FIELD, names[i], how == 1 ? &INT : i % 3 == 2 ? &Q[0] : i % 3 ? &DBL : &INT); l[m++] = f; l[m++] = o; l[m++] = form(p, 5); }
    else { Dc *prev = 0; for (unsigned i = 0; i < n; i++) { Dc *x; if (i % 3 == 0) x = rec(p, i % 2 ? D_UNION : D_STRUCT, names[i], { p.add(D_FIELD, "a", prev ? &Q[i - 1] : &INT) }), prev = x; else x = p.add(i % 3 == 1 ? D_TYPEDEF : D_VAR, names[i], &Q[i - 1]); T[i] = { T_TAG, 0, 0, 0, prev }; Q[i] = { T_PTR, i % 4 == 1 ? 1u : 0u, 0, &T[i] }; l[m++] = x; } }
    run(l, m);
}
CX_DRIVER(R02, deep, 10) {
    static const unsigned N[5] = { 4, 8, 15, 17, 34 }; unsigned n = N[cell % 5]; cx_set("states", 4000000); Pool p(n * 4 + 20); static char names[40][4]; Dc *in = rec(p, D_ENUM, "", { p.add(D_CONST, "A", &INT) }); for (unsigned i = 0; i < n; i++) { names[i][0] = 'n'; names[i][1] = 'A' + i % 26; Dc *a = p.add(D_FIELD, "before", &INT), *b = p.add(D_FIELD, "after", &DBL); in = cell / 5 ? rec(p, i % 2 ? D_UNION : D_STRUCT, names[i], { a, in, b }) : i % 2 ? rec(p, D_STRUCT, names[i], { in, b }) : rec(p, D_UNION, "", { a, in }); } Dc *l[] = { form(p, 3), in, form(p, 2) }; run(l, 3);
}
