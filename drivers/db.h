#include "cx_api.h"
#include <crefl/model.h>
#include <crefl/types.h>
#include <crefl/db.h>
static const size_t HDR = 20, NODE = 32;
static inline decl_db *fresh() { decl_db *db = crefl_db_new(); crefl_db_defaults(db); return db; }
static inline void node_eq(const decl_node *a, const decl_node *b, const char *w) { cx_assert(a->_tag == b->_tag && a->_props == b->_props && a->_name == b->_name && a->_next == b->_next && a->_link == b->_link && a->_attr == b->_attr && a->_quantity == b->_quantity, w); }
// a database whose tables hold `n` arbitrary nodes (index 0 empty) in memory of exactly that size
static inline decl_db *graph(unsigned n, const char *names, unsigned nsz) {
    decl_db *db = (decl_db*)cx_object(sizeof(decl_db), 1, "db"); db->decl = (decl_node*)cx_object(sizeof(decl_node) * n, 2, "nodes"); memset(db->decl, 0, sizeof(decl_node)); db->decl_offset = db->decl_size = n; db->decl_builtin = 1;
    db->name = (char*)cx_object(nsz, 1, "names"); for (unsigned i = 0; i < nsz; i++) db->name[i] = names[i]; db->name_offset = db->name_size = nsz; db->name_builtin = 1; return db;
}
