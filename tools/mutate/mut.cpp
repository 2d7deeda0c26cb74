// Rewrites the library's sources so that one build contains every mutant, selected at run time by the environment
// variable MCM (development tool; no registered check uses it). Usage: mut ROOT LIST EXCLUDED all.cpp -- flags
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
using namespace clang;
std::string root, listfile; std::set<int> excluded;
struct Ins { unsigned off; int rank; long seq; std::string text; unsigned del; };
std::map<std::string, std::vector<Ins>> edits; std::ofstream out; int next_id = 1; long seq_ = 0; std::set<std::string> done;
struct V : RecursiveASTVisitor<V>
{
    ASTContext& C; SourceManager& S; V(ASTContext& c) : C(c), S(c.getSourceManager()) {}
    int lambdas = 0; std::vector<std::vector<const VarDecl*>> scopes; const FunctionDecl* fn = nullptr;
    bool file(SourceLocation l, std::string& f, unsigned& o) { if (l.isInvalid() || l.isMacroID()) { return false; } auto p = S.getDecomposedLoc(l); auto e = S.getFileEntryForID(p.first); if (!e) { return false; } f = e->tryGetRealPathName().str(); o = p.second; return f.compare(0, root.size(), root) == 0 && f.find("/tests/") == std::string::npos; }
    unsigned end(SourceLocation l) { return S.getDecomposedLoc(Lexer::getLocForEndOfToken(l, 0, S, C.getLangOpts())).second; }
    bool range(SourceRange r, std::string& f, unsigned& b, unsigned& e) { std::string g; unsigned x; if (!file(r.getBegin(), f, b) || !file(r.getEnd(), g, x) || f != g) { return false; } e = end(r.getEnd()); return true; }
    int id(const std::string& kind, const std::string& f, SourceLocation l, const std::string& what, int n = 1) { int k = next_id; next_id += n; for (int i = 0; i < n; ++i) { std::string w = what; for (auto& c : w) { if (c == '\n' || c == '\t') { c = ' '; } } out << k + i << "\t" << kind << "." << i << "\t" << f.substr(root.size() + 1) << "\t" << S.getSpellingLineNumber(l) << "\t" << w.substr(0, 120) << "\n"; } return k; }
    std::string text(SourceRange r) { return Lexer::getSourceText(CharSourceRange::getTokenRange(r), S, C.getLangOpts()).str(); }
    bool once(const std::string& key) { return done.insert(key).second; }
    // depth: outer edits come first at a begin, last at an end
    int depth = 0;
    void before(const std::string& f, unsigned o, const std::string& t) { edits[f].push_back({o, 1000000 + depth, seq_++, t, 0}); }
    void after(const std::string& f, unsigned o, const std::string& t) { edits[f].push_back({o, -depth, seq_++, t, 0}); }
    void replace(const std::string& f, unsigned o, unsigned n, const std::string& t) { edits[f].push_back({o, 2000000, seq_++, t, n}); }
    bool ok(int k, int n = 1) { for (int i = 0; i < n; ++i) { if (excluded.count(k + i)) { return false; } } return true; }
    bool TraverseStmt(Stmt* s) { ++depth; bool r = RecursiveASTVisitor::TraverseStmt(s); --depth; return r; }
    // contexts that must stay constant
    bool TraverseStaticAssertDecl(StaticAssertDecl*) { return true; }
    bool TraverseTypeLoc(TypeLoc) { return true; }
    bool TraverseType(QualType) { return true; }
    bool TraverseTemplateArgumentLoc(const TemplateArgumentLoc&) { return true; }
    bool TraverseTemplateArgument(const TemplateArgument&) { return true; }
    bool TraverseEnumConstantDecl(EnumConstantDecl*) { return true; }
    bool TraverseUnaryExprOrTypeTraitExpr(UnaryExprOrTypeTraitExpr*) { return true; }
    bool TraverseCXXNoexceptExpr(CXXNoexceptExpr*) { return true; }
    bool TraverseLambdaExpr(LambdaExpr* l) { ++lambdas; scopes.emplace_back(); for (auto p : l->getCallOperator()->parameters()) { (void)p; } bool r = TraverseStmt(l->getBody()); scopes.pop_back(); --lambdas; return r; }
    bool TraverseFunction(FunctionDecl* f) { auto keep = fn; fn = f; scopes.emplace_back(); for (auto p : f->parameters()) { if (!p->getName().empty()) { scopes.back().push_back(p); } } return keep == keep; }
#define FUN(T) bool Traverse##T(T* f) { if (f->isDefaulted() || f->isDeleted() || f->isConstexpr()) { return true; } auto keep = fn; TraverseFunction(f); bool r = RecursiveASTVisitor::Traverse##T(f); scopes.pop_back(); fn = keep; return r; }
    FUN(FunctionDecl) FUN(CXXMethodDecl) FUN(CXXConstructorDecl) FUN(CXXDestructorDecl) FUN(CXXConversionDecl)
    bool TraverseForStmt(ForStmt* s) { scopes.emplace_back(); bool r = RecursiveASTVisitor::TraverseForStmt(s); scopes.pop_back(); return r; }
    bool TraverseCXXForRangeStmt(CXXForRangeStmt* s) { scopes.emplace_back(); if (s->getLoopVariable()) { scopes.back().push_back(s->getLoopVariable()); } bool r = TraverseStmt(s->getRangeInit()) && TraverseStmt(s->getBody()); scopes.pop_back(); return r; }
    bool VisitVarDecl(VarDecl* v) { if (!isa<ParmVarDecl>(v) && !scopes.empty() && !v->getName().empty() && v->isLocalVarDecl()) { pending.push_back(v); } return true; }
    std::vector<const VarDecl*> pending;
    bool TraverseVarDecl(VarDecl* v) { if (v->isConstexpr()) { return true; } bool r = RecursiveASTVisitor::TraverseVarDecl(v); if (!scopes.empty() && v->isLocalVarDecl() && !v->getName().empty()) { scopes.back().push_back(v); } return r; }
    static const char* name(BinaryOperatorKind o) { switch (o) { case BO_LT: return "lt"; case BO_LE: return "le"; case BO_GT: return "gt"; case BO_GE: return "ge"; case BO_EQ: return "eq"; case BO_NE: return "ne"; case BO_Add: return "add"; case BO_Sub: return "sub"; case BO_Mul: return "mul"; case BO_Div: return "div"; case BO_Rem: return "rem"; case BO_AddAssign: return "adda"; case BO_SubAssign: return "suba"; case BO_MulAssign: return "mula"; case BO_DivAssign: return "diva"; default: return nullptr; } }
    bool VisitBinaryOperator(BinaryOperator* b)
    {
        std::string f, g; unsigned s, e, o; const char* n = name(b->getOpcode()); if (!range(b->getSourceRange(), f, s, e) || !file(b->getOperatorLoc(), g, o)) { return true; }
        if (!once(f + std::to_string(o) + "op")) { return true; }
        if (n) { int k = id(n, f, b->getOperatorLoc(), text(b->getSourceRange()), 2); if (ok(k, 2)) { before(f, s, std::string("mcm::") + n + "(" + std::to_string(k) + ", "); replace(f, o, b->getOpcodeStr().size(), ","); after(f, e, ")"); } }
        else if (b->isLogicalOp()) { cond(b->getLHS(), "and-or"); cond(b->getRHS(), "and-or"); }
        return true;
    }
    void cond(Expr* c, const std::string& kind) { std::string f; unsigned s, e; if (!c || !range(c->getSourceRange(), f, s, e) || !once(f + std::to_string(s) + "-" + std::to_string(e) + "c")) { return; } int k = id(kind, f, c->getBeginLoc(), text(c->getSourceRange()), 2); if (ok(k, 2)) { before(f, s, "mcm::cond(" + std::to_string(k) + ", "); after(f, e, ")"); } }
    bool VisitIfStmt(IfStmt* s) { if (!s->isConstexpr()) { cond(s->getCond(), "if"); } return true; }
    bool VisitConditionalOperator(ConditionalOperator* s) { cond(s->getCond(), "if"); return true; }
    bool VisitCompoundStmt(CompoundStmt* c) { for (auto s : c->body()) { statement(s); } return true; }
    bool TraverseCompoundStmt(CompoundStmt* c) { scopes.emplace_back(); bool r = RecursiveASTVisitor::TraverseCompoundStmt(c); scopes.pop_back(); return r; }
    void statement(Stmt* s)
    {
        std::string f; unsigned b, e; if (!range(s->getSourceRange(), f, b, e)) { return; } std::string kind;
        if (isa<Expr>(s)) { kind = "delete"; } else if (isa<BreakStmt>(s) || isa<ContinueStmt>(s)) { kind = "delete-jump"; } else if (auto r = dyn_cast<ReturnStmt>(s)) { if (r->getRetValue()) { return; } kind = "delete-return"; } else { return; }
        if (!once(f + std::to_string(b) + "del")) { return; } int k = id(kind, f, s->getBeginLoc(), text(s->getSourceRange())); if (ok(k)) { int d = depth; depth = -1; before(f, b, "if (!mcm::on(" + std::to_string(k) + ")) "); depth = d; }
    }
    bool literal(Expr* l, const std::string& w) { std::string f; unsigned s, e; if (!range(l->getSourceRange(), f, s, e) || !once(f + std::to_string(s) + "lit")) { return true; } int k = id(w, f, l->getBeginLoc(), text(l->getSourceRange()), 2); if (ok(k, 2)) { before(f, s, "mcm::" + w + "(" + std::to_string(k) + ", "); after(f, e, ")"); } return true; }
    bool VisitIntegerLiteral(IntegerLiteral* l) { return literal(l, "lit"); }
    bool VisitFloatingLiteral(FloatingLiteral* l) { return literal(l, "lit"); }
    bool VisitCXXBoolLiteralExpr(CXXBoolLiteralExpr* l) { return literal(l, "blit"); }
    bool VisitUnaryOperator(UnaryOperator* u) { if (u->getOpcode() == UO_Minus) { literal(u, "neg"); } return true; }
    bool VisitCallExpr(CallExpr* c)
    {
        if (isa<CXXOperatorCallExpr>(c)) { return true; }
        if (c->getNumArgs() == 1 && !isa<CXXMemberCallExpr>(c)) { std::string t = text(c->getCallee()->getSourceRange()); if (t == "std::abs" || t == "std::fabs" || t == "std::sqrt" || t == "std::move") { std::string f; unsigned b, e, x; if (t != "std::move" && range(c->getSourceRange(), f, b, e) && file(c->getCallee()->getBeginLoc(), f, x) && once(f + std::to_string(b) + "fun")) { int k = id("fun", f, c->getBeginLoc(), text(c->getSourceRange())); if (ok(k)) { before(f, b, "(mcm::on(" + std::to_string(k) + ") ? " + text(c->getArg(0)->getSourceRange()) + " : "); after(f, e, ")"); } } } }
        return true;
    }
    bool VisitDeclRefExpr(DeclRefExpr* d)
    {
        auto v = dyn_cast<VarDecl>(d->getDecl()); if (!v || lambdas || scopes.empty() || !v->isLocalVarDeclOrParm()) { return true; } std::string f; unsigned s, e; if (!range(d->getSourceRange(), f, s, e)) { return true; }
        const VarDecl* best = nullptr; QualType t = v->getType().getNonReferenceType(); std::string ts = t.getUnqualifiedType().getAsString();
        if (ts.find("stream") != std::string::npos) { return true; }
        for (auto i = scopes.rbegin(); i != scopes.rend(); ++i) for (auto j = i->rbegin(); j != i->rend(); ++j) { if (*j != v && !best && (*j)->getType().getNonReferenceType().getUnqualifiedType().getAsString() == ts && (*j)->getType().getNonReferenceType().isConstQualified() == t.isConstQualified() && (*j)->getNameAsString() != v->getNameAsString()) { best = *j; } }
        if (!best && ts == "int") for (auto i = scopes.rbegin(); i != scopes.rend(); ++i) for (auto j = i->rbegin(); j != i->rend(); ++j) { if (*j != v && !best && (*j)->getType().getNonReferenceType().getUnqualifiedType().getAsString() == ts && (*j)->getNameAsString() != v->getNameAsString()) { best = *j; } }
        if (!best || !once(f + std::to_string(s) + "var")) { return true; }
        std::string n = best->getNameAsString(); int k = id("var", f, d->getBeginLoc(), v->getNameAsString() + " -> " + n); if (ok(k)) { before(f, s, "(mcm::on(" + std::to_string(k) + ") ? " + n + " : "); after(f, e, ")"); } return true;
    }
    void member(SourceLocation l, const std::string& n)
    {
        static const std::map<std::string, std::string> other = {{"rows_", "cols_"}, {"cols_", "rows_"}, {"row_offsets_", "col_offsets_"}, {"col_offsets_", "row_offsets_"}}; auto i = other.find(n); if (i == other.end() || lambdas) { return; }
        std::string f; unsigned s; if (!file(l, f, s) || !once(f + std::to_string(s) + "mem")) { return; } int k = id("var", f, l, n + " -> " + i->second);
        if (ok(k)) { std::string buf = S.getBufferData(S.getFileID(l)).str(); std::string pre; unsigned b = s; size_t p = s; while (p > 0 && (isalnum(buf[p - 1]) || buf[p - 1] == '_' || buf[p - 1] == '.' || (buf[p - 1] == '>' && buf[p - 2] == '-') || (buf[p - 1] == '-' && buf[p] == '>'))) { --p; } pre = buf.substr(p, s - p); if (pre.size() && !(isalpha(pre[0]))) { return; } b = p; int d = depth; depth = 500000; before(f, b, "(mcm::on(" + std::to_string(k) + ") ? " + pre + i->second + " : "); after(f, s + n.size(), ")"); depth = d; }
    }
    bool VisitMemberExpr(MemberExpr* m) { if (m->getMemberLoc().isValid()) { member(m->getMemberLoc(), m->getMemberDecl()->getNameAsString()); } calls(m->getMemberLoc(), m->getMemberDecl()->getNameAsString()); return true; }
    bool VisitCXXDependentScopeMemberExpr(CXXDependentScopeMemberExpr* m) { member(m->getMemberLoc(), m->getMember().getAsString()); calls(m->getMemberLoc(), m->getMember().getAsString()); return true; }
    void calls(SourceLocation l, const std::string& n)       // a.Rows() -> a.Cols()
    {
        static const std::map<std::string, std::string> other = {{"Rows", "Cols"}, {"Cols", "Rows"}}; auto i = other.find(n); if (i == other.end() || lambdas) { return; } std::string f; unsigned s; if (!file(l, f, s) || !once(f + std::to_string(s) + "mem")) { return; }
        std::string buf = S.getBufferData(S.getFileID(l)).str(); if (buf.compare(s + 4, 2, "()")) { return; } size_t p = s; while (p > 0 && (isalnum(buf[p - 1]) || buf[p - 1] == '_' || buf[p - 1] == '.' || (buf[p - 1] == '>' && buf[p - 2] == '-') || (buf[p - 1] == '-' && buf[p] == '>'))) { --p; } std::string pre = buf.substr(p, s - p); if (pre.empty() || !(isalpha(pre[0]))) { return; }
        int k = id("var", f, l, pre + n + " -> " + i->second); if (ok(k)) { int d = depth; depth = 500000; before(f, p, "(mcm::on(" + std::to_string(k) + ") ? " + pre + i->second + "() : "); after(f, s + 6, ")"); depth = d; }
    }
};
struct Con : ASTConsumer
{
    void HandleTranslationUnit(ASTContext& c) override
    {
        V v(c); v.TraverseDecl(c.getTranslationUnitDecl());
        for (auto& fe : edits)
        {
            std::ifstream in(fe.first); std::string t((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); in.close(); auto& es = fe.second;
            std::sort(es.begin(), es.end(), [](const Ins& a, const Ins& b) { return a.off != b.off ? a.off < b.off : a.rank != b.rank ? a.rank < b.rank : a.seq < b.seq; });
            std::string r = "#include \"mcm.hpp\"\n#line 1\n"; size_t p = 0; for (auto& x : es) { if (x.off > p) { r += t.substr(p, x.off - p); p = x.off; } r += x.text; p += x.del; } r += t.substr(p); std::ofstream(fe.first) << r;
        }
    }
};
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Con>(); } };
int main(int argc, char** argv)
{
    root = argv[1]; out.open(argv[2]); std::ifstream x(argv[3]); int k; while (x >> k) { excluded.insert(k); }
    std::vector<std::string> flags; for (int i = 6; i < argc; ++i) { flags.push_back(argv[i]); }
    tooling::FixedCompilationDatabase db(".", flags); tooling::ClangTool tool(db, {argv[4]}); return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
