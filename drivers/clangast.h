// A small model of clang's AST for the analysis of src/reflect.cc: synthetic nodes with the layout of the real headers, and
// contracts for the clang functions that are not inline. Inline clang code (RecursiveASTVisitor, casts, QualType) is the real one.
#include "cx_api.h"
#include "reflect.cc"
struct Dc; struct Meta { uint64_t width; const Type *des; const TagDecl *def; const char *name; AttrVec *attrs; const Decl *pdecl; const Stmt *pstmt; uint64_t v, n; QualType q; Stmt *body; uint32_t id, stk; bool incomplete, uns, b0, b1, b2; };
static const unsigned MS = (sizeof(Meta) + 63) / 64 * 64;
static inline Meta &M(const void *p) { return *(Meta*)((char*)p - MS); }
template <class T> static T *raw(const char *n, size_t extra = 0) { return (T*)((char*)cx_object(MS + sizeof(T) + extra, 1, n) + MS); }
static ASTContext *CTX; static Decl *TU; static uint32_t NID; static unsigned PTRW;
static bool is_dc(Decl::Kind k) { return k == Decl::TranslationUnit || k == Decl::Record || k == Decl::Enum || k == Decl::Function; }
static DeclContext *dc_of(Decl *d) { switch (d->getKind()) { case Decl::TranslationUnit: return (TranslationUnitDecl*)d; case Decl::Record: return (RecordDecl*)d; case Decl::Enum: return (EnumDecl*)d; case Decl::Function: return (FunctionDecl*)d; default: return nullptr; } }
namespace clang {
Decl *Decl::castFromDeclContext(const DeclContext *c) { switch (c->getDeclKind()) { case Decl::TranslationUnit: return (TranslationUnitDecl*)c; case Decl::Record: return (RecordDecl*)c; case Decl::Enum: return (EnumDecl*)c; case Decl::Function: return (FunctionDecl*)c; default: cx_fail("model: declaration context"); } }
DeclContext *Decl::castToDeclContext(const Decl *d) { return dc_of((Decl*)d); }
bool DeclContext::classof(const Decl *d) { return is_dc(d->getKind()); }
DeclContext *DeclContext::getRedeclContext() { DeclContext *c = this; while (c->getDeclKind() == Decl::Enum) c = c->getParent(); return c; }
DeclContext::decl_iterator DeclContext::decls_begin() const { return decl_iterator(FirstDecl); }
ASTContext &Decl::getASTContext() const { return *CTX; }
bool Decl::hasDefiningAttr() const { return false; }
int64_t Decl::getID() const { return M(this).id; }
static AttrVec *noattrs; const AttrVec &Decl::getAttrs() const { if (!HasAttrs) { if (!noattrs) { noattrs = (AttrVec*)malloc(sizeof(AttrVec)); new (noattrs) AttrVec(); } return *noattrs; } return *M(this).attrs; }
ASTNodeKind ASTNodeKind::getFromNode(const Decl &d) { switch (d.getKind()) { case Decl::TranslationUnit: return ASTNodeKind(NKI_TranslationUnitDecl); case Decl::Record: return ASTNodeKind(NKI_RecordDecl); case Decl::Enum: return ASTNodeKind(NKI_EnumDecl); case Decl::Function: return ASTNodeKind(NKI_FunctionDecl); case Decl::Typedef: return ASTNodeKind(NKI_TypedefDecl); case Decl::Var: return ASTNodeKind(NKI_VarDecl); case Decl::Field: return ASTNodeKind(NKI_FieldDecl); case Decl::EnumConstant: return ASTNodeKind(NKI_EnumConstantDecl); default: return ASTNodeKind(NKI_EmptyDecl); } }
ASTNodeKind ASTNodeKind::getFromNode(const Stmt &) { return ASTNodeKind(NKI_DeclStmt); }
bool ASTNodeKind::isBaseOf(ASTNodeKind o, unsigned *) const { unsigned a = KindId, b = o.KindId; bool db = b >= NKI_Decl && b < NKI_Stmt, sb = b >= NKI_Stmt && b < NKI_Type; if (a == b) return true; if (a == NKI_Decl) return db; if (a == NKI_NamedDecl) return db && b != NKI_TranslationUnitDecl; if (a == NKI_TagDecl || a == NKI_TypeDecl) return b == NKI_RecordDecl || b == NKI_EnumDecl || a == NKI_TypeDecl && b == NKI_TypedefDecl; if (a == NKI_Stmt) return sb; return false; }
ParentMapContext &ASTContext::getParentMapContext() { static ParentMapContext *p; if (!p) p = (ParentMapContext*)cx_object(sizeof(ParentMapContext), 1, "parents"); return *p; }
DynTypedNodeList ParentMapContext::getParents(const DynTypedNode &n) { const void *p = n.getMemoizationData(); Meta &m = M(p); if (m.pdecl) return DynTypedNodeList(DynTypedNode::create(*m.pdecl)); if (m.pstmt) return DynTypedNodeList(DynTypedNode::create(*m.pstmt)); return DynTypedNodeList(ArrayRef<DynTypedNode>()); }
std::string DeclarationName::getAsString() const { return Ptr ? ((IdentifierInfo*)Ptr)->getName().str() : std::string(); }
TypeInfo ASTContext::getTypeInfo(const Type *t) const { return TypeInfo(M(t).width, 8, AlignRequirementKind::None); }
static const Type *des(const Type *t) { return M(t).des ? M(t).des : t; }
const Type *Type::getUnqualifiedDesugaredType() const { return des(this); }
const ArrayType *ASTContext::getAsArrayType(QualType q) const { return dyn_cast<ArrayType>(des(q.getTypePtr())); }
static TagTypeKind tagk(const Type *t) { auto *r = dyn_cast<RecordType>(des(t)); return r ? M(r).def->getTagKind() : TTK_Enum; }
bool Type::isUnionType() const { return isa<RecordType>(des(this)) && tagk(this) == TTK_Union; }
bool Type::isStructureOrClassType() const { return isa<RecordType>(des(this)) && tagk(this) != TTK_Union; }
bool Type::isStructureType() const { return isa<RecordType>(des(this)) && tagk(this) == TTK_Struct; }
const RecordType *Type::getAsUnionType() const { return isUnionType() ? cast<RecordType>(des(this)) : nullptr; }
const RecordType *Type::getAsStructureType() const { return isStructureType() ? cast<RecordType>(des(this)) : nullptr; }
bool Type::isComplexType() const { return isa<ComplexType>(des(this)); }
QualType Type::getPointeeType() const { auto *p = dyn_cast<PointerType>(des(this)); return p ? p->getPointeeType() : QualType(); }
bool Type::isIncompleteType(NamedDecl **) const { return M(des(this)).incomplete; }
Type::ScalarTypeKind Type::getScalarTypeKind() const { return (ScalarTypeKind)M(des(this)).stk; }
bool Type::isUnsignedIntegerType() const { return M(des(this)).uns; }
bool Type::isSignedIntegerType() const { return !M(des(this)).uns && M(des(this)).stk == STK_Integral; }
bool Type::isFloatingType() const { unsigned k = M(des(this)).stk; return isa<BuiltinType>(des(this)) && k == STK_Floating || isa<ComplexType>(des(this)); } bool Type::isRealFloatingType() const { return isa<BuiltinType>(des(this)) && M(des(this)).stk == STK_Floating; }
bool Type::isSignedIntegerOrEnumerationType() const { return isSignedIntegerType(); } bool Type::isUnsignedIntegerOrEnumerationType() const { return isUnsignedIntegerType(); } bool Type::isComplexIntegerType() const { return false; } bool Type::isArithmeticType() const { return isa<BuiltinType>(des(this)) && !M(des(this)).incomplete || isa<ComplexType>(des(this)) || isa<EnumType>(des(this)) && !M(des(this)).incomplete; }
TagDecl *TagType::getDecl() const { return const_cast<TagDecl*>(M(this).def); }
TagType::TagType(TypeClass tc, const TagDecl *d, QualType can) : Type(tc, can, TypeDependence::None), decl(const_cast<TagDecl*>(d)) {}
ArrayType::ArrayType(TypeClass tc, QualType et, QualType can, ArraySizeModifier sm, unsigned tq, const Expr *) : Type(tc, can, TypeDependence::None), ElementType(et) { ArrayTypeBits.IndexTypeQuals = tq; ArrayTypeBits.SizeModifier = sm; }
TypedefType::TypedefType(TypeClass tc, const TypedefNameDecl *d, QualType, QualType can) : Type(tc, can, TypeDependence::None), Decl(const_cast<TypedefNameDecl*>(d)) {}
unsigned TypeLoc::getLocalAlignmentForType(QualType) { return 1; }
bool FunctionDecl::isNoReturn() const { return M(this).b0; } bool FunctionDecl::isGlobal() const { return M(this).b1; } bool FunctionDecl::isExternC() const { return M(this).b2; } bool VarDecl::isExternC() const { return M(this).b2; }
unsigned FunctionDecl::getNumParams() const { return M(this).n; } FunctionTemplateSpecializationInfo *FunctionDecl::getTemplateSpecializationInfo() const { return nullptr; }
QualType ParmVarDecl::getOriginalType() const { return M(this).q; }
unsigned FieldDecl::getBitWidthValue(const ASTContext &) const { return M(this).v; } unsigned FieldDecl::getFieldIndex() const { return 0; }
Expr *VarDecl::getInit() { return nullptr; }
Stmt::child_range Stmt::children() { if (getStmtClass() == CompoundStmtClass) return ((CompoundStmt*)this)->children(); return child_range(child_iterator(), child_iterator()); }
unsigned AlignedAttr::getAlignment(ASTContext &) const { return M(this).v; }
// for the debugging output
std::string SourceLocation::printToString(const SourceManager &) const { return "unit.c:1:1"; } const char *Decl::getDeclKindName() const { return "Kind"; } const char *DeclContext::getDeclKindName() const { return "Context"; } Module *Decl::getOwningModuleSlow() const { return nullptr; } std::string QualType::getAsString() const { return "type"; }
FrontendAction::FrontendAction() : Instance(nullptr) {} FrontendAction::~FrontendAction() {}
}
namespace llvm {
APInt APInt::zextOrTrunc(unsigned w) const { cx_assert(BitWidth <= 64 && w <= 64, "model: integers of up to 64 bits"); return APInt(w, U.VAL); }
APInt APInt::sextOrTrunc(unsigned w) const { cx_assert(BitWidth <= 64 && w <= 64, "model: integers of up to 64 bits"); return APInt(w, (uint64_t)((int64_t)(U.VAL << (64 - BitWidth)) >> (64 - BitWidth))); }
unsigned APInt::countLeadingZerosSlowCase() const { cx_fail("model: integers of up to 64 bits"); }
template <> void Registry<clang::PluginASTAction>::add_node(node *) {}
void *allocate_buffer(size_t n, size_t) { return malloc(n); } void deallocate_buffer(void *p, size_t, size_t) { free(p); }
}
template <> void llvm::SmallVectorBase<unsigned>::grow_pod(void *first, size_t min, size_t ts) { size_t c = 2 * (size_t)Capacity + 1; if (c < min) c = min; void *n = malloc(c * ts); memcpy(n, BeginX, Size * ts); if (BeginX != first) free(BeginX); BeginX = n; Capacity = c; }
// ---- descriptions of a translation unit: the AST is built from them, and the recorded graph is compared with them
enum { D_TYPEDEF, D_VAR, D_FUNC, D_STRUCT, D_UNION, D_ENUM, D_CONST, D_FIELD };
enum { T_B, T_VOID, T_PTR, T_ARR, T_INC, T_VLA, T_TAG, T_SUGAR, T_FN, T_OPAQUE };
struct Ty { int k; unsigned q; int b; Ty *s; Dc *tag; uint64_t n; bool st; };
struct At { int k; const char *s; uint64_t v; };
struct Dc { int k; const char *name; Ty *ty; Dc **kid; unsigned nk; At *at; unsigned na; uint64_t v; bool bit, b0, b1, b2, fwd, invalid; unsigned sc, w, uns; Dc **loc; unsigned nl; Decl *d; decl_id id; const Type *tt; };
struct Bt { BuiltinType::Kind k; unsigned width, stk; bool uns, cplx; decl_set fam; unsigned cw; };
static const Bt BT[] = { { BuiltinType::Bool, 8, Type::STK_Bool, true, false, _decl_sint, 1 }, { BuiltinType::Char_S, 8, Type::STK_Integral, false, false, _decl_sint, 8 }, { BuiltinType::UChar, 8, Type::STK_Integral, true, false, _decl_uint, 8 }, { BuiltinType::Short, 16, Type::STK_Integral, false, false, _decl_sint, 16 }, { BuiltinType::UShort, 16, Type::STK_Integral, true, false, _decl_uint, 16 }, { BuiltinType::Int, 32, Type::STK_Integral, false, false, _decl_sint, 32 }, { BuiltinType::UInt, 32, Type::STK_Integral, true, false, _decl_uint, 32 },
    { BuiltinType::Long, 64, Type::STK_Integral, false, false, _decl_sint, 64 }, { BuiltinType::ULongLong, 64, Type::STK_Integral, true, false, _decl_uint, 64 }, { BuiltinType::Int128, 128, Type::STK_Integral, false, false, _decl_sint, 128 }, { BuiltinType::UInt128, 128, Type::STK_Integral, true, false, _decl_uint, 128 }, { BuiltinType::Float, 32, Type::STK_Floating, false, false, _decl_float, 32 }, { BuiltinType::Double, 64, Type::STK_Floating, false, false, _decl_float, 64 }, { BuiltinType::LongDouble, 128, Type::STK_Floating, false, false, _decl_float, 128 }, { BuiltinType::Half, 16, Type::STK_Floating, false, false, _decl_float, 16 },
    { BuiltinType::Float, 64, 0, false, true, _decl_cfloat, 64 }, { BuiltinType::Double, 128, 0, false, true, _decl_cfloat, 128 }, { BuiltinType::LongDouble, 256, 0, false, true, _decl_cfloat, 256 } };
static const unsigned NBT = sizeof BT / sizeof *BT;
static const Type *tag_type(Dc *d) { if (d->tt) return d->tt; const Type *t; if (d->k == D_ENUM) { EnumType *e = raw<EnumType>("enum type"); new (e) EnumType((EnumDecl*)d->d); M(e).stk = Type::STK_Integral; M(e).uns = true; t = e; } else { RecordType *r = raw<RecordType>("record type"); new (r) RecordType((RecordDecl*)d->d); t = r; } M(t).def = (TagDecl*)d->d; M(t).width = 96; return d->tt = t; }
static QualType mk(Ty *t); static const Type *builtin(int b) { const Bt &e = BT[b]; BuiltinType *p = raw<BuiltinType>("builtin type"); new (p) BuiltinType(e.k); M(p).width = e.cplx ? e.width / 2 : e.width; M(p).stk = e.cplx ? Type::STK_Floating : e.stk; M(p).uns = e.uns; if (!e.cplx) return p; ComplexType *c = raw<ComplexType>("complex type"); new (c) ComplexType(QualType(p, 0), QualType()); M(c).width = e.width; M(c).stk = Type::STK_FloatingComplex; return c; }
static const Type *voidt() { BuiltinType *p = raw<BuiltinType>("void"); new (p) BuiltinType(BuiltinType::Void); M(p).incomplete = true; return p; }
static const Type *mkt(Ty *t) {
    switch (t->k) {
    case T_B: return builtin(t->b);
    case T_VOID: return voidt();
    case T_OPAQUE: { RecordDecl *d = raw<RecordDecl>("opaque record"); d->DeclKind = Decl::Record; RecordType *r = raw<RecordType>("opaque type"); new (r) RecordType(d); M(r).def = d; M(r).incomplete = true; d->TagDeclBits.TagDeclKind = TTK_Struct; return r; }
    case T_FN: { FunctionNoProtoType *f = raw<FunctionNoProtoType>("function type"); new (f) FunctionNoProtoType(mk(t->s), QualType(), FunctionType::ExtInfo()); return f; }
    case T_PTR: { QualType p = mk(t->s); PointerType *r = raw<PointerType>("pointer type"); new (r) PointerType(p, QualType()); M(r).width = PTRW; M(r).stk = Type::STK_CPointer; return r; }
    case T_ARR: { QualType e = mk(t->s); ConstantArrayType *a = raw<ConstantArrayType>("array type"); new (a) ConstantArrayType(e, QualType(), llvm::APInt(64, t->n), nullptr, t->st ? ArrayType::Static : ArrayType::Normal, 0); return a; }
    case T_INC: { QualType e = mk(t->s); IncompleteArrayType *a = raw<IncompleteArrayType>("array type"); new (a) IncompleteArrayType(e, QualType(), ArrayType::Normal, 0); M(a).incomplete = true; return a; }
    case T_VLA: { QualType e = mk(t->s); VariableArrayType *a = raw<VariableArrayType>("array type"); new (a) VariableArrayType(e, QualType(), nullptr, t->st ? ArrayType::Static : ArrayType::Normal, 0, SourceRange()); return a; }
    case T_TAG: return tag_type(t->tag);
    default: { QualType u = mk(t->s); TypedefType *p = raw<TypedefType>("typedef type"); const Type *c = des(u.getTypePtr()); new (p) TypedefType(Type::Typedef, nullptr, u, QualType(c, 0)); M(p).des = c; M(p).width = M(c).width; return p; }
    }
}
static QualType mk(Ty *t) { return QualType(mkt(t), t->q); }
static TypeSourceInfo *tsi(QualType q) { TypeSourceInfo *t = (TypeSourceInfo*)cx_object(sizeof(TypeSourceInfo) + 512, 1, "type location"); t->Ty = q; return t; }
static Decl *alloc(Dc *c) { switch (c->k) { case D_TYPEDEF: return raw<TypedefDecl>("typedef"); case D_VAR: return raw<VarDecl>("variable"); case D_FUNC: return raw<FunctionDecl>("function"); case D_STRUCT: case D_UNION: return raw<RecordDecl>("record"); case D_ENUM: return raw<EnumDecl>("enum"); case D_CONST: return raw<EnumConstantDecl>("enumerator"); default: return raw<FieldDecl>("field"); } }
static void declare(Dc **l, unsigned n) { for (unsigned i = 0; i < n; i++) { l[i]->d = alloc(l[i]); declare(l[i]->kid, l[i]->nk); declare(l[i]->loc, l[i]->nl); } }
template <class T> static Attr *nattr(clang::attr::Kind k, uint64_t v) { T *a = raw<T>("attribute"); ((Attr*)a)->AttrKind = k; M(a).v = v; return a; }
static const char *const ATN[] = { "always_inline", "deprecated", "pure", "packed", "used", "unused", "warn_unused_result", "alias", "aligned", "annotate" };
static Attr *mkattr(At &t) {
    switch (t.k) {
    case 0: return nattr<AlwaysInlineAttr>(clang::attr::AlwaysInline, 0); case 1: return nattr<DeprecatedAttr>(clang::attr::Deprecated, 0); case 2: return nattr<PureAttr>(clang::attr::Pure, 0); case 3: return nattr<PackedAttr>(clang::attr::Packed, 0); case 4: return nattr<UsedAttr>(clang::attr::Used, 0); case 5: return nattr<UnusedAttr>(clang::attr::Unused, 0); case 6: return nattr<WarnUnusedResultAttr>(clang::attr::WarnUnusedResult, 0);
    case 7: { AliasAttr *a = (AliasAttr*)nattr<AliasAttr>(clang::attr::Alias, 0); a->aliasee = (char*)t.s; a->aliaseeLength = strlen(t.s); return a; }
    case 8: { AlignedAttr *a = (AlignedAttr*)nattr<AlignedAttr>(clang::attr::Aligned, t.v); a->isalignmentExpr = true; return a; }
    case 9: { AnnotateAttr *a = (AnnotateAttr*)nattr<AnnotateAttr>(clang::attr::Annotate, 0); a->annotation = (char*)t.s; a->annotationLength = strlen(t.s); return a; }
    default: return nattr<ColdAttr>(clang::attr::Cold, 0); } // one that is not recorded
}
extern "C" void *r01_body(FunctionDecl *d) { return M(d).body; }
extern "C" bool r01_has_body(FunctionDecl *d) { return M(d).body != nullptr; }
template <class F> static unsigned slot(F f) { uintptr_t v[2]; memcpy(v, &f, sizeof v); return (v[0] - 1) / sizeof(void*); } // of a virtual member function
static void *VT[64]; static void vtable() { VT[slot(&Decl::hasBody)] = (void*)r01_has_body; VT[slot((Stmt *(Decl::*)() const)&Decl::getBody)] = (void*)r01_body; }
static uintptr_t nm(const char *s) { if (!*s) return 0; size_t n = strlen(s); char *e = (char*)malloc(sizeof(llvm::StringMapEntry<IdentifierInfo*>) + n + 1); *(size_t*)e = n; memcpy(e + sizeof(llvm::StringMapEntry<IdentifierInfo*>), s, n + 1); IdentifierInfo *i = (IdentifierInfo*)cx_object(sizeof(IdentifierInfo), 1, "identifier"); i->Entry = (llvm::StringMapEntry<IdentifierInfo*>*)e; return (uintptr_t)i; } // unnamed: no name
static void define(Dc **l, unsigned n, Decl *owner, Decl *p, Stmt *ps) {
    DeclContext *ctx = dc_of(owner); Decl *prev = nullptr;
    for (unsigned i = 0; i < n; i++) {
        Dc *c = l[i]; Decl *d = c->d; Meta &m = M(d); m.id = ++NID; if (ps) m.pstmt = ps; else m.pdecl = p; *(void**)d = (void*)VT; d->InvalidDecl = c->invalid; d->DeclCtx = ctx; ((NamedDecl*)d)->Name.Ptr = nm(c->name);
        if (!ps) { if (prev) prev->NextInContextAndBits.setPointer(d); else ctx->FirstDecl = d; prev = d; }
        if (c->na) { d->HasAttrs = true; m.attrs = (AttrVec*)malloc(sizeof(AttrVec)); new (m.attrs) AttrVec(); for (unsigned j = 0; j < c->na; j++) m.attrs->push_back(mkattr(c->at[j])); }
        switch (c->k) {
        case D_TYPEDEF: d->DeclKind = Decl::Typedef; ((TypedefDecl*)d)->MaybeModedTInfo.setPointer(tsi(mk(c->ty))); break;
        case D_VAR: { VarDecl *v = (VarDecl*)d; d->DeclKind = Decl::Var; QualType q = mk(c->ty); v->DeclInfo = tsi(q); v->DeclType = q; v->VarDeclBits.SClass = c->sc; v->VarDeclBits.TSCSpec = c->w; m.b2 = c->b2; break; }
        case D_FIELD: { FieldDecl *v = (FieldDecl*)d; d->DeclKind = Decl::Field; QualType q = mk(c->ty); v->DeclInfo = tsi(q); v->DeclType = q; v->BitField = c->bit; m.v = c->v; break; }
        case D_CONST: { EnumConstantDecl *v = (EnumConstantDecl*)d; d->DeclKind = Decl::EnumConstant; new (&v->Val) llvm::APSInt(llvm::APInt(c->w, c->v), c->uns); break; }
        case D_STRUCT: case D_UNION: case D_ENUM: { TagDecl *t = (TagDecl*)d; d->DeclKind = c->k == D_ENUM ? Decl::Enum : Decl::Record; DeclContext *me = dc_of(d); me->DeclContextBits.DeclKind = d->DeclKind; t->TagDeclBits.TagDeclKind = c->k == D_ENUM ? TTK_Enum : c->k == D_UNION ? TTK_Union : TTK_Struct; t->TagDeclBits.IsCompleteDefinition = !c->fwd; if (c->k == D_ENUM && !c->fwd) ((EnumDecl*)d)->setIntegerType(mk(c->ty)); define(c->kid, c->nk, d, d, nullptr); break; }
        case D_FUNC: { FunctionDecl *f = (FunctionDecl*)d; d->DeclKind = Decl::Function; DeclContext *me = dc_of(d); me->DeclContextBits.DeclKind = Decl::Function; m.b0 = c->b0; m.b1 = c->b1; m.b2 = c->b2; f->FunctionDeclBits.SClass = c->sc; f->FunctionDeclBits.IsInline = f->FunctionDeclBits.IsInlineSpecified = c->uns; Ty fn = { T_FN, 0, 0, c->ty }; QualType q = mk(&fn); f->DeclType = q; m.n = c->nk; ParmVarDecl **pp = (ParmVarDecl**)malloc(8 * (c->nk + 1));
            for (unsigned j = 0; j < c->nk; j++) { ParmVarDecl *v = raw<ParmVarDecl>("parameter"); Decl *pd = v; pd->DeclKind = Decl::ParmVar; pd->DeclCtx = me; M(pd).id = ++NID; M(pd).pdecl = d; ((NamedDecl*)pd)->Name.Ptr = nm(c->kid[j]->name); M(pd).q = mk(c->kid[j]->ty); v->DeclInfo = tsi(M(pd).q); Ty *pt = c->kid[j]->ty; if (pt->k == T_ARR || pt->k == T_INC || pt->k == T_VLA) { Ty dec = { T_PTR, 0, 0, pt->s }; v->DeclType = mk(&dec); } else v->DeclType = M(pd).q; pp[j] = v; } f->ParamInfo = pp;
            if (c->nl) { CompoundStmt *b = raw<CompoundStmt>("body", 8 * c->nl); b->StmtBits.sClass = Stmt::CompoundStmtClass; b->CompoundStmtBits.NumStmts = c->nl; M(b).pdecl = d; for (unsigned j = 0; j < c->nl; j++) { DeclStmt *s = raw<DeclStmt>("declaration statement"); s->StmtBits.sClass = Stmt::DeclStmtClass; s->DG = DeclGroupRef(c->loc[j]->d); M(s).pstmt = b; define(c->loc + j, 1, d, nullptr, s); ((Stmt**)(b + 1))[j] = s; } m.body = b; f->Body = (Stmt*)b; ((FunctionDecl*)d)->FunctionDeclBits.WillHaveBody = false; } break; }
        }
    }
}
static decl_db *DB; static unsigned ROOM = ~0u, NROOM = ~0u; static bool DEBUGGING; // room left in the tables before they move
static TranslationUnitDecl *unit(Dc **l, unsigned n) {
    cx_set("aligned", 1); CTX = (ASTContext*)cx_object(sizeof(ASTContext), 1, "context"); PTRW = 64; TranslationUnitDecl *tu = raw<TranslationUnitDecl>("unit"); TU = tu; *(ASTContext**)((char*)tu + sizeof *tu - 16) = CTX; TU->DeclKind = Decl::TranslationUnit; dc_of(TU)->DeclContextBits.DeclKind = Decl::TranslationUnit; M(TU).id = ++NID; tu->First = tu; new (&tu->RedeclLink) Redeclarable<TranslationUnitDecl>::DeclLink(Redeclarable<TranslationUnitDecl>::DeclLink::PreviousLink, tu); CTX->TUDecl = tu; new (&CTX->TraversalScope) std::vector<Decl*>(1, TU);
    vtable(); declare(l, n); define(l, n, TU, TU, nullptr); return tu;
}
static void reflect(Dc **l, unsigned n) { TranslationUnitDecl *tu = unit(l, n); DB = crefl_db_new(); crefl_db_defaults(DB); if (ROOM != ~0u) { DB->decl_size = DB->decl_offset + ROOM; DB->decl = (decl_node*)realloc(DB->decl, DB->decl_size * sizeof(decl_node)); } if (NROOM != ~0u) { DB->name_size = DB->name_offset + NROOM; DB->name = (char*)realloc(DB->name, DB->name_size); } ReflectVisitor v(*CTX, DB, "dir/unit.c", DEBUGGING); v.TraverseDecl(tu); }
// ---- the expected graph
static decl_node *N(decl_id i) { cx_assert(i && i < DB->decl_offset, "links stay inside the table"); return DB->decl + i; }
static bool name_is(decl_id i, const char *s) { decl_node *d = N(i); cx_assert(d->_name < DB->name_offset, "names stay inside the table"); return strcmp(DB->name + d->_name, s) == 0; }
static decl_id intr(decl_set fam, size_t w) { return crefl_decl_idx(crefl_intrinsic(DB, fam, w)); }
static const char *nameof(decl_id i) { decl_node *d = N(i); cx_assert(d->_name < DB->name_offset, "names stay inside the table"); return DB->name + d->_name; }
static void named(decl_id i, const char *pre, decl_id to) { const char *a = nameof(i), *b = nameof(to); size_t n = strlen(pre); cx_assert(strncmp(a, pre, n) == 0 && strcmp(a + n, b) == 0, "derived types are named after the type they derive from"); }
static void digits(char *o, uint64_t v) { char b[24]; int n = 0; do b[n++] = '0' + v % 10; while (v /= 10); while (n) *o++ = b[--n]; *o++ = ']'; *o = 0; }
static void check_type(decl_id i, Ty *t) {
    while (t->k == T_SUGAR && !t->q && !t->s->q) t = t->s;
    if (t->q) { decl_node *d = N(i); cx_assert(d->_tag == _decl_qualifier && d->_props == ((t->q & Qualifiers::Const ? _decl_const : 0) | (t->q & Qualifiers::Volatile ? _decl_volatile : 0) | (t->q & Qualifiers::Restrict ? _decl_restrict : 0)), "qualifiers are recorded"); char w[32] = ""; if (t->q & Qualifiers::Const) strcat(w, "const_"); if (t->q & Qualifiers::Volatile) strcat(w, "volatile_"); if (t->q & Qualifiers::Restrict) strcat(w, "restrict_"); named(i, w, d->_link); i = d->_link; }
    while (t->k == T_SUGAR) t = t->s;
    switch (t->k) {
    case T_B: cx_assert(i == intr(BT[t->b].fam, BT[t->b].cw), "arithmetic types refer to the builtin type of their kind and width"); break;
    case T_VOID: case T_FN: case T_OPAQUE: cx_assert(i == intr(_decl_void, 0), "void, function and opaque types are recorded as void"); break;
    case T_TAG: cx_assert(i == t->tag->id, "uses of a struct, union or enum refer to its declaration"); break;
    case T_PTR: { decl_node *d = N(i); cx_assert(d->_tag == _decl_pointer && d->_width == PTRW && !d->_next, "pointers are recorded with their width"); named(i, "*", d->_link); check_type(d->_link, t->s); break; }
    default: { decl_node *d = N(i); cx_assert(d->_tag == _decl_array && d->_count == (t->k == T_ARR ? t->n : 0) && d->_props == ((t->st ? _decl_static : 0) | (t->k == T_VLA ? _decl_vla : 0)) && !d->_next, "arrays are recorded with their count and kind"); char w[32] = "["; if (t->k == T_ARR) digits(w + 1, t->n); else strcat(w, t->k == T_VLA ? "*]" : "]"); named(i, w, d->_link); check_type(d->_link, t->s); }
    }
}
static void check_attrs(decl_id i, Dc *c) {
    for (unsigned j = 0; j < c->na; j++) if (c->at[j].k < 10) { decl_node *a = N(i); cx_assert(a->_tag == _decl_attribute && name_is(i, ATN[c->at[j].k]), "attributes are recorded in order"); if (c->at[j].k >= 7) { decl_node *v = N(a->_link); cx_assert(v->_tag == _decl_value && !v->_next, "attribute arguments are recorded"); if (c->at[j].k == 8) cx_assert(v->_value == c->at[j].v, "the alignment is recorded"); else cx_assert(name_is(a->_link, c->at[j].s), "attribute strings are recorded"); } else cx_assert(!a->_link, "plain attributes have no argument"); i = a->_next; }
    cx_assert(i == 0, "no other attributes are recorded");
}
static decl_id number(Dc **l, unsigned n, decl_id i) { // siblings in order of declaration, declarations of a body after their function
    for (unsigned j = 0; j < n; j++) { Dc *c = l[j]; if (c->invalid) continue; cx_assert(i != 0, "every declaration is recorded, in order"); c->id = i; decl_node *d = N(i); if (c->k == D_STRUCT || c->k == D_UNION || c->k == D_ENUM) cx_assert(number(c->kid, c->nk, d->_link) == 0, "exactly the members of a declaration are recorded"); i = d->_next;
        if (c->k == D_FUNC) for (unsigned q = 0; q < c->nl; q++) if (c->loc[q]->k != D_VAR) i = number(c->loc + q, 1, i); } return i;
}
static void check(Dc **l, unsigned n) {
    static const decl_tag tags[] = { _decl_typedef, _decl_field, _decl_function, _decl_struct, _decl_union, _decl_enum, _decl_constant, _decl_field };
    for (unsigned j = 0; j < n; j++) { Dc *c = l[j]; if (c->invalid) continue; decl_node *d = N(c->id); cx_assert(d->_tag == tags[c->k], "the kind of declaration is recorded"); cx_assert(name_is(c->id, c->name), "the name is recorded"); check_attrs(d->_attr, c); decl_id i;
        switch (c->k) {
        case D_TYPEDEF: check_type(d->_link, c->ty); cx_assert(!d->_quantity && !d->_props, "typedefs have nothing else"); break;
        case D_VAR: check_type(d->_link, c->ty); cx_assert(d->_props == ((c->b2 ? _decl_extern_c : 0) | (c->w ? 0 : _decl_static)) && !d->_quantity, "linkage and storage of variables are recorded"); break;
        case D_FIELD: check_type(d->_link, c->ty); cx_assert(d->_props == (c->bit ? _decl_bitfield : 0) && d->_width == (c->bit ? c->v : 0), "bit-field widths are recorded"); break;
        case D_CONST: cx_assert(d->_value == (c->uns || c->w == 64 ? c->v : (uint64_t)((int64_t)(c->v << (64 - c->w)) >> (64 - c->w))), "the value of enumerators is recorded"); check_type(d->_link, c->ty); cx_assert(!d->_props, "enumerators have nothing else"); break;
        case D_ENUM: cx_assert(d->_width == (c->fwd ? 0 : BT[c->ty->b].width) && !d->_props, "enums are recorded with the width of their type"); check(c->kid, c->nk); break;
        case D_STRUCT: case D_UNION: cx_assert(!d->_quantity && !d->_props, "records have nothing else"); check(c->kid, c->nk); break;
        case D_FUNC: { cx_assert(d->_props == ((c->b1 ? _decl_global : 0) | (c->b2 ? _decl_extern_c : 0) | (c->sc == SC_Static ? _decl_static : 0) | (c->uns ? _decl_inline : 0) | (c->b0 ? _decl_noreturn : 0)), "linkage, inline and noreturn are recorded"); i = d->_link; decl_node *r = N(i); cx_assert(r->_tag == _decl_param && r->_props == _decl_out && r->_name == 0, "the result is the first parameter"); check_type(r->_link, c->ty);
            for (unsigned q = 0; q < c->nk; q++) { i = N(i)->_next; decl_node *p = N(i); cx_assert(p->_tag == _decl_param && p->_props == 0 && name_is(i, c->kid[q]->name), "parameters follow in order"); check_type(p->_link, c->kid[q]->ty); } cx_assert(N(i)->_next == 0, "no further parameters"); for (unsigned q = 0; q < c->nl; q++) if (c->loc[q]->k != D_VAR) check(c->loc + q, 1); break; }
        } }
}
static void verify(Dc **l, unsigned n) {
    decl_node *s = N(DB->root_element); cx_assert(s->_tag == _decl_source && name_is(DB->root_element, "unit.c") && !s->_next, "the root is the source file"); cx_assert(number(l, n, s->_link) == 0, "exactly the declarations of the file are recorded"); check(l, n);
}
static void run(Dc **l, unsigned n) { reflect(l, n); verify(l, n); crefl_db_destroy(DB); }
