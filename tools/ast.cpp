// Facts about the syntax tree of a translation unit.
//
//   ast ROOT SOURCE -- FLAGS
//
// prints one fact per line, tab separated:
//   P  mangled  qualified name  file:line  kind   a function of namespace fub that has
//      to be defined in some other translation unit: kind = instantiation (promised by
//      an explicit instantiation declaration), template, declaration
//   D  mangled  qualified name  file:line  kind   a function defined here: strong, weak
//   S  qualified name  file:line                  a variable with static storage
//   V  qualified name  file:line  what            ... that can change or depends on the first call
//   C  file:line                                  a call or construction that was looked at
//   I  callee  caller  file:line                  ... of a function that reads hidden inputs
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include <iostream>
#include <set>
using namespace clang;
static std::string Root;
static std::set<std::string> Seen;
static void emit(const std::string& s) { if (Seen.insert(s).second) std::cout << s << "\n"; }
struct Visitor : RecursiveASTVisitor<Visitor> {
  using Base = RecursiveASTVisitor<Visitor>;
  ASTContext& C; SourceManager& SM; std::unique_ptr<MangleContext> M; std::vector<FunctionDecl*> Stack;
  explicit Visitor(ASTContext& c) : C(c), SM(c.getSourceManager()), M(c.createMangleContext()) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  std::string at(SourceLocation l) { l = SM.getExpansionLoc(l); PresumedLoc p = SM.getPresumedLoc(l); if (!p.isValid()) return ""; std::string f = p.getFilename(); if (f.compare(0, Root.size(), Root) != 0) return ""; f = f.substr(Root.size()); while (!f.empty() && f[0] == '/') f = f.substr(1); return f + ":" + std::to_string(p.getLine()); }
  std::string mangle(const NamedDecl* d) {
    std::string s; llvm::raw_string_ostream o(s);
    if (auto* k = dyn_cast<CXXConstructorDecl>(d)) M->mangleName(GlobalDecl(k, Ctor_Complete), o);
    else if (auto* k = dyn_cast<CXXDestructorDecl>(d)) M->mangleName(GlobalDecl(k, Dtor_Complete), o);
    else if (M->shouldMangleDeclName(d)) M->mangleName(GlobalDecl(d), o);
    else o << d->getName();
    return o.str();
  }
  static bool dependent(const Decl* d) { for (const DeclContext* c = d->getDeclContext(); c; c = c->getParent()) if (c->isDependentContext()) return true; if (auto* f = dyn_cast<FunctionDecl>(d)) { if (f->getDescribedFunctionTemplate() || f->isDependentContext()) return true; } return false; }
  static bool in(const Decl* d, llvm::StringRef ns) { for (const DeclContext* c = d->getDeclContext(); c; c = c->getParent()) if (auto* n = dyn_cast<NamespaceDecl>(c)) if (n->getName() == ns) return true; return false; }
  // is the function (or what it is instantiated from) defined inside its class or inline?
  static bool inlined(const FunctionDecl* f) {
    std::set<const FunctionDecl*> seen; std::vector<const FunctionDecl*> todo{f};
    while (!todo.empty()) {
      const FunctionDecl* g = todo.back(); todo.pop_back(); if (!g || !seen.insert(g).second) continue;
      for (const FunctionDecl* r : g->redecls()) { if (r->isInlined() || r->isInlineSpecified() || r->isConstexpr()) return true; if (r->doesThisDeclarationHaveABody() && isa<CXXMethodDecl>(r) && r->getLexicalDeclContext()->isRecord()) return true; }
      todo.push_back(g->getTemplateInstantiationPattern()); todo.push_back(g->getInstantiatedFromMemberFunction()); todo.push_back(g->getInstantiatedFromDecl());
      if (auto* t = g->getPrimaryTemplate()) { todo.push_back(t->getTemplatedDecl()); for (auto* m = t; (m = m->getInstantiatedFromMemberTemplate());) todo.push_back(m->getTemplatedDecl()); }
    }
    return false;
  }
  // ------------------------------------------------------------- functions
  void pattern(FunctionDecl* f) {
    if (isa<CXXDeductionGuideDecl>(f) || f->isDeleted() || f->isDefaulted() || f->isPureVirtual() || !in(f, "fub") || f->getFriendObjectKind()) return;
    std::string where = at(f->getCanonicalDecl()->getLocation()); if (where.empty()) return;
    const FunctionDecl* def = nullptr; emit((f->isDefined(def) ? "U\t" : "T\t") + where + "\t" + f->getQualifiedNameAsString() + "\t" + where + "\ttemplate");
  }
  bool VisitFunctionDecl(FunctionDecl* f) {
    std::string where = at(f->getLocation()); if (where.empty()) return true;
    if (dependent(f)) { pattern(f); return true; }
    if (isa<CXXDeductionGuideDecl>(f) || f->isDeleted() || f->isDefaulted() || f->isPureVirtual() || !in(f, "fub") || f->getFormalLinkage() != Linkage::External || f->getBuiltinID() || f->isExternC()) return true;
    if (f->getFriendObjectKind() && !f->isDefined()) return true;
    TemplateSpecializationKind k = f->getTemplateSpecializationKind();
    if (const auto* m = dyn_cast<CXXMethodDecl>(f)) if (!f->getPrimaryTemplate()) if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(m->getParent())) if (s->getSpecializationKind() == TSK_ExplicitInstantiationDeclaration || s->getSpecializationKind() == TSK_ExplicitInstantiationDefinition) k = s->getSpecializationKind();
    const FunctionDecl* def = nullptr; const bool body = f->isDefined(def);
    const FunctionDecl* p = f->getTemplateInstantiationPattern(); const FunctionDecl* pd = nullptr; const bool pbody = p && p->isDefined(pd);
    const bool inl = inlined(f);
    const std::string fact = mangle(f) + "\t" + f->getQualifiedNameAsString() + "\t" + where;
    if (k == TSK_ExplicitInstantiationDeclaration) { if (!inl) emit("P\t" + fact + "\tinstantiation"); }
    else if (k == TSK_ExplicitInstantiationDefinition) { if (body || pbody) emit("D\t" + fact + "\tweak"); else emit("P\t" + fact + "\tinstantiation"); }
    else if (k == TSK_ImplicitInstantiation) { if (!pbody && !body) emit("P\t" + fact + "\ttemplate"); }
    else if (body) { if (!inl) emit("D\t" + mangle(f) + "\t" + f->getQualifiedNameAsString() + "\t" + at(def->getLocation()) + "\tstrong"); }
    else emit("P\t" + fact + "\tdeclaration");
    return true;
  }
  bool TraverseDecl(Decl* d) {
    auto* f = dyn_cast_or_null<FunctionDecl>(d);
    if (f) Stack.push_back(f);
    bool r = Base::TraverseDecl(d);
    if (f) Stack.pop_back();
    return r;
  }
  // ------------------------------------------------------------- variables
  static bool stateless(QualType t) { auto* r = t->getAsCXXRecordDecl(); if (!r || !r->hasDefinition()) return false; r = r->getDefinition(); if (!r->field_empty()) return false; for (auto& b : r->bases()) if (!b.getType()->getAsCXXRecordDecl() || !at_std(b.getType()) && !stateless(b.getType())) return false; return true; }
  static bool at_std(QualType t) { auto* r = t->getAsCXXRecordDecl(); return r && r->isInStdNamespace(); }
  static bool captureless(const Expr* e) { if (!e) return false; e = e->IgnoreImplicit(); if (auto* l = dyn_cast<LambdaExpr>(e)) return l->capture_begin() == l->capture_end(); return false; }
  // does an initialiser depend on anything but constants?
  bool varies(const Stmt* s) {
    if (!s) return false;
    if (isa<CXXThisExpr>(s)) return true;
    if (isa<LambdaExpr>(s)) return false;
    if (auto* r = dyn_cast<DeclRefExpr>(s)) { if (auto* v = dyn_cast<VarDecl>(r->getDecl())) { if (isa<ParmVarDecl>(v)) return true; if (v->isConstexpr()) return false; if (!v->hasGlobalStorage()) return !v->getType().isConstQualified() || varies(v->getInit()); return !v->getType().isConstQualified(); } }
    for (const Stmt* c : s->children()) if (varies(c)) return true;
    return false;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (isa<ParmVarDecl>(v) || !v->hasGlobalStorage()) return true;
    std::string where = at(v->getLocation()); if (where.empty() || !in(v, "fub")) return true;
    const bool main = SM.isInMainFile(SM.getExpansionLoc(v->getLocation())); (void)main;
    emit("S\t" + v->getQualifiedNameAsString() + "\t" + where);
    if (v->isConstexpr()) return true;
    const VarDecl* d = v->getInitializingDeclaration(); const Expr* init = d ? d->getInit() : v->getInit();
    QualType t = C.getBaseElementType(v->getType()); if (stateless(t) || captureless(init)) return true;
    bool constant = t.isConstQualified() || t->isReferenceType(), mut = false;
    if (auto* r = t->getAsCXXRecordDecl()) mut = r->hasDefinition() && r->hasMutableFields();
    if (constant && !mut && !(v->isStaticLocal() && varies(init))) return true;
    emit("V\t" + v->getQualifiedNameAsString() + "\t" + where + "\t" + (v->getTLSKind() != VarDecl::TLS_None ? "thread local" : v->isStaticLocal() ? "static local" : v->isStaticDataMember() ? "static member" : "global") + " variable of type " + t.getAsString() + (v->isStaticLocal() && !Stack.empty() ? " in " + Stack.back()->getQualifiedNameAsString() : "") + (constant ? ", initialised from the first call" : ""));
    return true;
  }
  // --------------------------------------------------------- hidden inputs
  void input(const NamedDecl* f, SourceLocation l) {
    static const std::set<std::string> bad{"rand", "srand", "random", "drand48", "lrand48", "time", "clock", "gettimeofday", "clock_gettime", "getenv", "secure_getenv", "setenv", "getpid", "gethostname", "omp_get_thread_num", "omp_get_num_threads", "omp_get_wtime", "std::rand", "std::srand", "std::time", "std::clock", "std::getenv", "std::random_device", "std::chrono::system_clock::now", "std::chrono::steady_clock::now", "std::chrono::high_resolution_clock::now", "std::this_thread::get_id", "std::mersenne_twister_engine", "std::linear_congruential_engine", "MPI_Wtime", "fesetround", "std::fesetround", "setlocale", "std::setlocale"};
    if (Stack.empty()) return; std::string where = at(l); if (where.empty()) return;
    std::string n = f->getQualifiedNameAsString(), m; for (size_t i = 0; i < n.size(); ++i) { if (n.compare(i, 5, "_V2::") == 0) { i += 4; continue; } m += n[i]; }
    Calls.insert(where);
    if (bad.count(m)) emit("I\t" + m + "\t" + Stack.back()->getQualifiedNameAsString() + "\t" + where);
  }
  std::set<std::string> Calls;
  bool VisitDeclRefExpr(DeclRefExpr* e) { if (auto* f = dyn_cast<FunctionDecl>(e->getDecl())) input(f, e->getLocation()); return true; }
  bool VisitCXXConstructExpr(CXXConstructExpr* e) { auto* r = e->getConstructor()->getParent(); input(r, e->getLocation()); return true; }
};
struct Consumer : ASTConsumer { void HandleTranslationUnit(ASTContext& c) override { Visitor v(c); v.TraverseDecl(c.getTranslationUnitDecl()); for (auto& w : v.Calls) emit("C\t" + w); } };
struct Action : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef) override { ci.getDiagnostics().setSuppressAllDiagnostics(false); return std::make_unique<Consumer>(); } };
int main(int argc, char** argv) {
  Root = argv[1]; std::vector<std::string> flags, files; int i = 2;
  for (; i < argc && std::string(argv[i]) != "--"; ++i) files.push_back(argv[i]);
  for (++i; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  int rc = 0;
  for (auto& f : files) { tooling::ClangTool t(db, {f}); Action* dummy = nullptr; (void)dummy; rc |= t.run(tooling::newFrontendActionFactory<Action>().get()); }
  return rc;
}
