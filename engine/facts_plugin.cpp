// dcgp fact extractor: a clang plugin that writes, as JSON, the resolved program of every function whose body
// lives under the analysed roots (template instantiations and lambdas included): statement/expression trees with
// resolved callees, fields, variables, types, constant values, plus record layouts, globals and the
// boost::serialization registration specialisations. No decision is taken here; the rules are in Python.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

namespace
{

struct Facts : RecursiveASTVisitor<Facts> {
    ASTContext &ctx;
    SourceManager &sm;
    std::vector<std::string> roots;
    PrintingPolicy pp;

    std::map<const Decl *, int> ids;
    std::vector<const Decl *> order; // decls by id
    Object decls;
    Array functions;
    Array records;
    Array globals;
    Array specs;
    Array enums;
    Array uninst;
    std::set<const Decl *> dumped;
    std::map<std::string, int> types;
    Array typeNames;
    std::map<std::string, int> files;
    Array fileNames;

    Facts(ASTContext &c, std::vector<std::string> r) : ctx(c), sm(c.getSourceManager()), roots(std::move(r)), pp(c.getLangOpts())
    {
        pp.SuppressTagKeyword = true;
        pp.FullyQualifiedName = true;
        pp.PrintCanonicalTypes = true;
    }

    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }

    // ---------------------------------------------------------------- helpers
    std::string fileOf(SourceLocation l)
    {
        l = sm.getExpansionLoc(l);
        if (auto fe = sm.getFileEntryRefForID(sm.getFileID(l))) {
            return std::string(fe->getName());
        }
        return "";
    }
    bool inRoots(SourceLocation l)
    {
        if (l.isInvalid()) return false;
        auto f = fileOf(l);
        for (auto &r : roots) {
            if (f.compare(0, r.size(), r) == 0) return true;
        }
        return false;
    }
    int fileId(SourceLocation l)
    {
        auto f = fileOf(l);
        auto it = files.find(f);
        if (it != files.end()) return it->second;
        int n = static_cast<int>(files.size());
        files[f] = n;
        fileNames.push_back(f);
        return n;
    }
    Value loc(SourceLocation l)
    {
        if (l.isInvalid()) return nullptr;
        auto e = sm.getExpansionLoc(l);
        return Array{fileId(l), static_cast<int64_t>(sm.getExpansionLineNumber(e))};
    }
    int typeId(QualType t)
    {
        std::string s = t.isNull() ? std::string("<null>") : t.getCanonicalType().getAsString(pp);
        auto it = types.find(s);
        if (it != types.end()) return it->second;
        int n = static_cast<int>(types.size());
        types[s] = n;
        typeNames.push_back(s);
        return n;
    }
    std::string qual(const NamedDecl *d)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, pp);
        return s;
    }
    std::string tmplArgs(const TemplateArgumentList *l)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        if (l) printTemplateArgumentList(os, l->asArray(), pp);
        return s;
    }
    std::string recName(const CXXRecordDecl *r)
    {
        if (r->isLambda()) {
            std::string s;
            llvm::raw_string_ostream os(s);
            os << "lambda#" << declId(r);
            return s;
        }
        return ctx.getRecordType(r).getCanonicalType().getAsString(pp);
    }
    const Decl *canon(const Decl *d)
    {
        if (auto f = dyn_cast<FunctionDecl>(d)) return f->getCanonicalDecl();
        if (auto r = dyn_cast<CXXRecordDecl>(d)) return r->getCanonicalDecl();
        if (auto v = dyn_cast<VarDecl>(d)) return v->getCanonicalDecl();
        return d->getCanonicalDecl();
    }
    int declId(const Decl *d0)
    {
        const Decl *d = canon(d0);
        auto it = ids.find(d);
        if (it != ids.end()) return it->second;
        int n = static_cast<int>(ids.size()) + 1;
        ids[d] = n;
        order.push_back(d);
        return n;
    }
    void emitDecls()
    {
        for (size_t i = 0; i < order.size(); ++i) { // order may grow
            const Decl *d = order[i];
            Object o;
            o["loc"] = loc(d->getLocation());
            o["repo"] = inRoots(d->getLocation());
            if (auto nd = dyn_cast<NamedDecl>(d)) {
                o["name"] = nd->getNameAsString();
                o["qual"] = qual(nd);
            }
            if (auto f = dyn_cast<FunctionDecl>(d)) {
                o["dk"] = "func";
                o["type"] = typeId(f->getType());
                o["ret"] = typeId(f->getReturnType());
                Array ps;
                for (auto p : f->parameters()) ps.push_back(typeId(p->getType()));
                o["ptypes"] = std::move(ps);
                if (auto ta = f->getTemplateSpecializationArgs()) o["targs"] = tmplArgs(ta);
                if (auto m = dyn_cast<CXXMethodDecl>(f)) {
                    o["cls"] = recName(m->getParent());
                    o["clsname"] = m->getParent()->getNameAsString();
                    o["const"] = m->isConst();
                    o["static"] = m->isStatic();
                    o["virtual"] = m->isVirtual();
                    if (isa<CXXConstructorDecl>(m)) o["ctor"] = true;
                    if (isa<CXXConversionDecl>(m)) o["conv"] = true;
                    if (m->isOverloadedOperator()) o["op"] = getOperatorSpelling(m->getOverloadedOperator());
                    if (m->isCopyAssignmentOperator()) o["assign"] = "copy";
                    if (m->isMoveAssignmentOperator()) o["assign"] = "move";
                    if (auto c = dyn_cast<CXXConstructorDecl>(m)) {
                        if (c->isCopyConstructor()) o["assign"] = "copy";
                        if (c->isMoveConstructor()) o["assign"] = "move";
                    }
                    if (m->isDefaulted()) o["defaulted"] = true;
                } else if (f->isOverloadedOperator()) {
                    o["op"] = getOperatorSpelling(f->getOverloadedOperator());
                }
                if (f->isDeleted()) o["deleted"] = true;
            } else if (auto fd = dyn_cast<FieldDecl>(d)) {
                o["dk"] = "field";
                o["type"] = typeId(fd->getType());
                if (auto r = dyn_cast<CXXRecordDecl>(fd->getParent())) o["cls"] = recName(r);
                o["mutable"] = fd->isMutable();
            } else if (auto v = dyn_cast<VarDecl>(d)) {
                o["dk"] = isa<ParmVarDecl>(v) ? "param" : "var";
                o["type"] = typeId(v->getType());
                o["global"] = v->hasGlobalStorage();
                o["staticlocal"] = v->isStaticLocal();
                o["tls"] = v->getTLSKind() != VarDecl::TLS_None;
                o["const"] = v->getType().getNonReferenceType().isConstQualified();
                if (v->isStaticDataMember()) {
                    if (auto r = dyn_cast<CXXRecordDecl>(v->getDeclContext())) o["cls"] = recName(r);
                }
                if (v->isConstexpr() && v->getInit() && !v->getInit()->isValueDependent()) {
                    Expr::EvalResult er;
                    if (v->getType()->isIntegralOrEnumerationType() && v->getInit()->EvaluateAsInt(er, ctx)) {
                        o["cv"] = static_cast<int64_t>(er.Val.getInt().getExtValue());
                    }
                }
            } else if (auto e = dyn_cast<EnumConstantDecl>(d)) {
                o["dk"] = "enumc";
                o["val"] = static_cast<int64_t>(e->getInitVal().getExtValue());
                o["type"] = typeId(e->getType());
            } else if (isa<CXXRecordDecl>(d)) {
                o["dk"] = "record";
            } else {
                o["dk"] = d->getDeclKindName();
            }
            decls[std::to_string(i + 1)] = std::move(o);
        }
    }

    // ---------------------------------------------------------------- statements
    Value stmts(const Stmt *s) { return stmt(s); }
    Object base(const char *k, const Stmt *s)
    {
        Object o;
        o["k"] = k;
        auto l = s->getBeginLoc();
        if (l.isValid()) {
            auto e = sm.getExpansionLoc(l);
            o["l"] = static_cast<int64_t>(sm.getExpansionLineNumber(e));
            o["f"] = fileId(l);
        }
        return o;
    }
    Value varDecl(const VarDecl *v)
    {
        Object o;
        o["k"] = "VarDecl";
        o["id"] = declId(v);
        o["name"] = v->getNameAsString();
        o["t"] = typeId(v->getType());
        o["static"] = v->isStaticLocal();
        o["ref"] = v->getType()->isReferenceType();
        auto e = sm.getExpansionLoc(v->getLocation());
        o["l"] = static_cast<int64_t>(sm.getExpansionLineNumber(e));
        o["f"] = fileId(v->getLocation());
        if (v->getInit()) o["init"] = expr(v->getInit());
        if (auto dd = dyn_cast<DecompositionDecl>(v)) {
            Array bs;
            for (auto b : dd->bindings()) {
                Object bo;
                bo["id"] = declId(b);
                bo["name"] = b->getNameAsString();
                if (b->getBinding()) bo["expr"] = expr(b->getBinding());
                bs.push_back(std::move(bo));
            }
            o["bindings"] = std::move(bs);
        }
        return o;
    }
    Value stmt(const Stmt *s)
    {
        if (!s) return nullptr;
        if (auto e = dyn_cast<Expr>(s)) return expr(e);
        if (auto c = dyn_cast<CompoundStmt>(s)) {
            auto o = base("Block", s);
            Array a;
            for (auto x : c->body()) a.push_back(stmt(x));
            o["s"] = std::move(a);
            auto el = sm.getExpansionLoc(c->getEndLoc());
            o["le"] = static_cast<int64_t>(sm.getExpansionLineNumber(el));
            return o;
        }
        if (auto d = dyn_cast<DeclStmt>(s)) {
            auto o = base("Decl", s);
            Array a;
            for (auto x : d->decls()) {
                if (auto v = dyn_cast<VarDecl>(x)) a.push_back(varDecl(v));
            }
            o["v"] = std::move(a);
            return o;
        }
        if (auto i = dyn_cast<IfStmt>(s)) {
            auto o = base("If", s);
            if (i->getInit()) o["init"] = stmt(i->getInit());
            if (i->getConditionVariableDeclStmt()) o["cv"] = stmt(i->getConditionVariableDeclStmt());
            o["c"] = expr(i->getCond());
            o["constexpr"] = i->isConstexpr();
            o["then"] = stmt(i->getThen());
            o["else"] = stmt(i->getElse());
            return o;
        }
        if (auto f = dyn_cast<ForStmt>(s)) {
            auto o = base("For", s);
            o["init"] = stmt(f->getInit());
            o["c"] = f->getCond() ? expr(f->getCond()) : Value(nullptr);
            o["inc"] = f->getInc() ? expr(f->getInc()) : Value(nullptr);
            o["body"] = stmt(f->getBody());
            return o;
        }
        if (auto f = dyn_cast<CXXForRangeStmt>(s)) {
            auto o = base("RangeFor", s);
            if (f->getInit()) o["init"] = stmt(f->getInit());
            o["var"] = varDecl(f->getLoopVariable());
            o["range"] = expr(f->getRangeInit());
            o["body"] = stmt(f->getBody());
            return o;
        }
        if (auto w = dyn_cast<WhileStmt>(s)) {
            auto o = base("While", s);
            if (w->getConditionVariableDeclStmt()) o["cv"] = stmt(w->getConditionVariableDeclStmt());
            o["c"] = expr(w->getCond());
            o["body"] = stmt(w->getBody());
            return o;
        }
        if (auto w = dyn_cast<DoStmt>(s)) {
            auto o = base("Do", s);
            o["c"] = expr(w->getCond());
            o["body"] = stmt(w->getBody());
            return o;
        }
        if (auto w = dyn_cast<SwitchStmt>(s)) {
            auto o = base("Switch", s);
            if (w->getInit()) o["init"] = stmt(w->getInit());
            o["c"] = expr(w->getCond());
            o["body"] = stmt(w->getBody());
            return o;
        }
        if (auto w = dyn_cast<CaseStmt>(s)) {
            auto o = base("Case", s);
            o["v"] = expr(w->getLHS());
            o["sub"] = stmt(w->getSubStmt());
            return o;
        }
        if (auto w = dyn_cast<DefaultStmt>(s)) {
            auto o = base("Default", s);
            o["sub"] = stmt(w->getSubStmt());
            return o;
        }
        if (isa<BreakStmt>(s)) return base("Break", s);
        if (isa<ContinueStmt>(s)) return base("Continue", s);
        if (isa<NullStmt>(s)) return base("Null", s);
        if (auto r = dyn_cast<ReturnStmt>(s)) {
            auto o = base("Return", s);
            if (r->getRetValue()) o["e"] = expr(r->getRetValue());
            return o;
        }
        if (auto t = dyn_cast<CXXTryStmt>(s)) {
            auto o = base("Try", s);
            o["body"] = stmt(t->getTryBlock());
            Array hs;
            for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
                auto h = t->getHandler(i);
                Object ho;
                ho["all"] = h->getExceptionDecl() == nullptr;
                if (h->getExceptionDecl()) ho["var"] = varDecl(h->getExceptionDecl());
                ho["body"] = stmt(h->getHandlerBlock());
                hs.push_back(std::move(ho));
            }
            o["h"] = std::move(hs);
            return o;
        }
        if (auto a = dyn_cast<AttributedStmt>(s)) return stmt(a->getSubStmt());
        if (auto g = dyn_cast<LabelStmt>(s)) return stmt(g->getSubStmt());
        auto o = base("OtherStmt", s);
        o["c"] = s->getStmtClassName();
        Array a;
        for (auto c : s->children()) {
            if (c) a.push_back(stmt(c));
        }
        o["s"] = std::move(a);
        return o;
    }

    // ---------------------------------------------------------------- expressions
    Object ebase(const char *k, const Expr *e)
    {
        auto o = base(k, e);
        o["t"] = typeId(e->getType());
        return o;
    }
    Array args(llvm::iterator_range<CallExpr::const_arg_iterator> r)
    {
        Array a;
        for (auto x : r) a.push_back(expr(x));
        return a;
    }
    Value expr(const Expr *e)
    {
        if (!e) return nullptr;
        if (auto p = dyn_cast<ParenExpr>(e)) return expr(p->getSubExpr());
        if (auto p = dyn_cast<ExprWithCleanups>(e)) return expr(p->getSubExpr());
        if (auto p = dyn_cast<MaterializeTemporaryExpr>(e)) return expr(p->getSubExpr());
        if (auto p = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(p->getSubExpr());
        if (auto p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(p->getReplacement());
        if (auto p = dyn_cast<ConstantExpr>(e)) return expr(p->getSubExpr());
        if (auto p = dyn_cast<CXXDefaultArgExpr>(e)) {
            auto o = ebase("DefArg", e);
            o["e"] = expr(p->getExpr());
            return o;
        }
        if (auto p = dyn_cast<CXXDefaultInitExpr>(e)) {
            auto o = ebase("DefInit", e);
            o["e"] = expr(p->getExpr());
            return o;
        }
        if (auto l = dyn_cast<IntegerLiteral>(e)) {
            auto o = ebase("Int", e);
            o["v"] = static_cast<int64_t>(l->getValue().getLimitedValue());
            return o;
        }
        if (auto l = dyn_cast<CXXBoolLiteralExpr>(e)) {
            auto o = ebase("Bool", e);
            o["v"] = l->getValue();
            return o;
        }
        if (auto l = dyn_cast<CharacterLiteral>(e)) {
            auto o = ebase("Char", e);
            o["v"] = static_cast<int64_t>(l->getValue());
            return o;
        }
        if (auto l = dyn_cast<FloatingLiteral>(e)) {
            auto o = ebase("Float", e);
            llvm::SmallString<32> s;
            l->getValue().toString(s);
            o["v"] = std::string(s.str());
            return o;
        }
        if (auto l = dyn_cast<clang::StringLiteral>(e)) {
            auto o = ebase("Str", e);
            o["v"] = llvm::json::fixUTF8(l->getBytes());
            return o;
        }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return ebase("Null0", e);
        if (isa<CXXThisExpr>(e)) return ebase("This", e);
        if (auto c = dyn_cast<CastExpr>(e)) {
            switch (c->getCastKind()) {
                case CK_LValueToRValue:
                case CK_NoOp:
                case CK_ArrayToPointerDecay:
                case CK_FunctionToPointerDecay:
                case CK_BuiltinFnToFnPtr:
                case CK_ConstructorConversion:
                case CK_UserDefinedConversion:
                case CK_LValueBitCast:
                    // static_cast<T&&>(x) and friends keep their identity for rvalue-ness
                    if (isa<ExplicitCastExpr>(c) && c->getCastKind() == CK_NoOp && c->getType()->isLValueReferenceType() == false
                        && c->isXValue()) {
                        auto o = ebase("Cast", e);
                        o["ck"] = "XValue";
                        o["e"] = expr(c->getSubExpr());
                        return o;
                    }
                    if (isa<CXXConstCastExpr>(c)) {
                        auto o = ebase("Cast", e);
                        o["ck"] = "ConstCast";
                        o["e"] = expr(c->getSubExpr());
                        return o;
                    }
                    return expr(c->getSubExpr());
                default: {
                    auto o = ebase("Cast", e);
                    o["ck"] = c->getCastKindName();
                    o["expl"] = isa<ExplicitCastExpr>(c);
                    if (isa<CXXReinterpretCastExpr>(c)) o["reint"] = true;
                    if (isa<CXXDynamicCastExpr>(c)) o["dyn"] = true;
                    o["e"] = expr(c->getSubExpr());
                    return o;
                }
            }
        }
        if (auto d = dyn_cast<DeclRefExpr>(e)) {
            auto vd = d->getDecl();
            auto o = ebase("Ref", e);
            o["id"] = declId(vd);
            o["name"] = vd->getNameAsString();
            if (auto v = dyn_cast<VarDecl>(vd)) {
                o["rk"] = isa<ParmVarDecl>(v) ? "param" : (v->hasGlobalStorage() ? "global" : "var");
                if ((v->isConstexpr() || v->getType().isConstQualified()) && v->getType()->isIntegralOrEnumerationType()
                    && !e->isValueDependent()) {
                    Expr::EvalResult er;
                    if (e->EvaluateAsInt(er, ctx)) o["cv"] = static_cast<int64_t>(er.Val.getInt().getExtValue());
                }
            } else if (isa<FunctionDecl>(vd)) {
                o["rk"] = "func";
            } else if (auto ec = dyn_cast<EnumConstantDecl>(vd)) {
                o["rk"] = "enumc";
                o["cv"] = static_cast<int64_t>(ec->getInitVal().getExtValue());
                o["qual"] = qual(ec);
            } else if (isa<BindingDecl>(vd)) {
                o["rk"] = "var";
            } else {
                o["rk"] = "other";
            }
            if (d->refersToEnclosingVariableOrCapture()) o["cap"] = true;
            return o;
        }
        if (auto m = dyn_cast<MemberExpr>(e)) {
            auto md = m->getMemberDecl();
            auto o = ebase("Member", e);
            o["id"] = declId(md);
            o["name"] = md->getNameAsString();
            o["arrow"] = m->isArrow();
            o["mk"] = isa<FieldDecl>(md) ? "field" : (isa<FunctionDecl>(md) ? "method" : "static");
            o["b"] = expr(m->getBase());
            if (auto v = dyn_cast<VarDecl>(md)) {
                if (v->isConstexpr() && v->getType()->isIntegralOrEnumerationType()) {
                    Expr::EvalResult er;
                    if (!e->isValueDependent() && e->EvaluateAsInt(er, ctx))
                        o["cv"] = static_cast<int64_t>(er.Val.getInt().getExtValue());
                }
            }
            return o;
        }
        if (auto c = dyn_cast<CXXOperatorCallExpr>(e)) {
            auto o = ebase("OpCall", e);
            o["op"] = getOperatorSpelling(c->getOperator());
            if (c->getDirectCallee()) {
                o["fn"] = declId(c->getDirectCallee());
                o["m"] = isa<CXXMethodDecl>(c->getDirectCallee());
            }
            o["a"] = args(c->arguments());
            return o;
        }
        if (auto c = dyn_cast<CXXMemberCallExpr>(e)) {
            auto o = ebase("MCall", e);
            if (c->getMethodDecl()) {
                o["fn"] = declId(c->getMethodDecl());
                o["name"] = c->getMethodDecl()->getNameAsString();
            }
            if (auto me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens())) {
                o["obj"] = expr(me->getBase());
                o["arrow"] = me->isArrow();
                o["qualified"] = me->hasQualifier();
            } else {
                o["obj"] = expr(c->getImplicitObjectArgument());
            }
            o["a"] = args(c->arguments());
            return o;
        }
        if (auto c = dyn_cast<CallExpr>(e)) {
            auto o = ebase("Call", e);
            if (auto f = c->getDirectCallee()) {
                o["fn"] = declId(f);
                o["name"] = f->getNameAsString();
            } else {
                o["callee"] = expr(c->getCallee());
            }
            o["a"] = args(c->arguments());
            return o;
        }
        if (auto c = dyn_cast<CXXConstructExpr>(e)) {
            auto o = ebase("Construct", e);
            o["fn"] = declId(c->getConstructor());
            o["list"] = c->isListInitialization();
            o["stdlist"] = c->isStdInitListInitialization();
            o["temp"] = isa<CXXTemporaryObjectExpr>(c);
            Array a;
            for (auto x : c->arguments()) a.push_back(expr(x));
            o["a"] = std::move(a);
            return o;
        }
        if (auto c = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
            return ebase("InhCtor", c);
        }
        if (auto n = dyn_cast<CXXNewExpr>(e)) {
            auto o = ebase("New", e);
            if (n->getInitializer()) o["init"] = expr(n->getInitializer());
            return o;
        }
        if (auto n = dyn_cast<CXXDeleteExpr>(e)) {
            auto o = ebase("Delete", e);
            o["e"] = expr(n->getArgument());
            return o;
        }
        if (auto u = dyn_cast<UnaryOperator>(e)) {
            auto o = ebase("Un", e);
            o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
            o["post"] = u->isPostfix();
            o["e"] = expr(u->getSubExpr());
            return o;
        }
        if (auto b = dyn_cast<BinaryOperator>(e)) {
            auto o = ebase(b->isAssignmentOp() ? "Asg" : "Bin", e);
            o["op"] = b->getOpcodeStr().str();
            o["a"] = expr(b->getLHS());
            o["b"] = expr(b->getRHS());
            return o;
        }
        if (auto c = dyn_cast<AbstractConditionalOperator>(e)) {
            auto o = ebase("Cond", e);
            o["c"] = expr(c->getCond());
            o["a"] = expr(c->getTrueExpr());
            o["b"] = expr(c->getFalseExpr());
            return o;
        }
        if (auto a = dyn_cast<ArraySubscriptExpr>(e)) {
            auto o = ebase("Index", e);
            o["a"] = expr(a->getBase());
            o["b"] = expr(a->getIdx());
            return o;
        }
        if (auto l = dyn_cast<LambdaExpr>(e)) {
            auto o = ebase("Lambda", e);
            auto op = l->getCallOperator();
            o["fn"] = declId(op);
            o["rec"] = declId(l->getLambdaClass());
            Array caps;
            auto ii = l->capture_init_begin();
            for (auto &c : l->captures()) {
                Object co;
                co["this"] = c.capturesThis();
                if (c.capturesVariable()) {
                    co["id"] = declId(c.getCapturedVar());
                    co["name"] = c.getCapturedVar()->getNameAsString();
                }
                co["byref"] = c.getCaptureKind() == LCK_ByRef || c.getCaptureKind() == LCK_This;
                if (ii != l->capture_init_end()) {
                    if (c.capturesVariable() && *ii) co["init"] = expr(*ii);
                    ++ii;
                }
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            Array insts;
            if (auto t = l->getDependentCallOperator()) {
                o["generic"] = true;
                for (auto s : t->specializations()) {
                    insts.push_back(declId(s));
                    dumpFunction(s);
                }
            } else {
                insts.push_back(declId(op));
                dumpFunction(op);
            }
            o["insts"] = std::move(insts);
            return o;
        }
        if (auto il = dyn_cast<InitListExpr>(e)) {
            auto o = ebase("InitList", e);
            const InitListExpr *sem = il->isSemanticForm() ? il : (il->getSemanticForm() ? il->getSemanticForm() : il);
            Array a;
            for (auto x : sem->inits()) a.push_back(expr(x));
            o["a"] = std::move(a);
            return o;
        }
        if (auto s = dyn_cast<CXXStdInitializerListExpr>(e)) {
            auto o = ebase("StdInitList", e);
            o["e"] = expr(s->getSubExpr());
            return o;
        }
        if (auto t = dyn_cast<CXXThrowExpr>(e)) {
            auto o = ebase("Throw", e);
            if (t->getSubExpr()) {
                o["e"] = expr(t->getSubExpr());
                o["ty"] = typeId(t->getSubExpr()->getType());
            }
            return o;
        }
        if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) return ebase("ZeroInit", e);
        if (auto u = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            auto o = ebase("Int", e);
            Expr::EvalResult er;
            if (!u->isValueDependent() && u->EvaluateAsInt(er, ctx)) o["v"] = static_cast<int64_t>(er.Val.getInt().getExtValue());
            return o;
        }
        if (auto t = dyn_cast<TypeTraitExpr>(e)) {
            auto o = ebase("Bool", e);
            o["v"] = t->isValueDependent() ? false : t->getValue();
            return o;
        }
        if (auto s = dyn_cast<CXXFoldExpr>(e)) {
            (void)s;
        }
        if (auto p = dyn_cast<PredefinedExpr>(e)) {
            auto o = ebase("Str", e);
            o["v"] = p->getFunctionName() ? std::string(p->getFunctionName()->getString()) : std::string();
            return o;
        }
        if (auto r = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(r->getSemanticForm());
        if (auto ov = dyn_cast<OpaqueValueExpr>(e)) return expr(ov->getSourceExpr());
        auto o = ebase("OtherExpr", e);
        o["c"] = e->getStmtClassName();
        Array a;
        for (auto c : e->children()) {
            if (c) a.push_back(stmt(c));
        }
        o["s"] = std::move(a);
        return o;
    }

    // ---------------------------------------------------------------- declarations
    void dumpFunction(const FunctionDecl *f0)
    {
        const FunctionDecl *f = f0;
        const FunctionDecl *def = nullptr;
        if (!f->hasBody(def)) return;
        f = def;
        if (f->isDependentContext()) return;
        if (!f->doesThisDeclarationHaveABody()) return;
        if (!dumped.insert(canon(f)).second) return;
        Object o;
        o["id"] = declId(f);
        o["name"] = f->getNameAsString();
        o["qual"] = qual(f);
        o["loc"] = loc(f->getLocation());
        o["ret"] = typeId(f->getReturnType());
        o["implicit"] = f->isImplicit();
        o["defaulted"] = f->isDefaulted();
        if (auto ta = f->getTemplateSpecializationArgs()) o["targs"] = tmplArgs(ta);
        if (auto pat = f->getTemplateInstantiationPattern()) o["pattern"] = loc(pat->getLocation());
        Array ps;
        for (auto p : f->parameters()) {
            Object po;
            po["id"] = declId(p);
            po["name"] = p->getNameAsString();
            po["t"] = typeId(p->getType());
            if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg() && p->getDefaultArg())
                po["def"] = expr(p->getDefaultArg());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        if (auto m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = recName(m->getParent());
            o["clsname"] = m->getParent()->getNameAsString();
            o["lambda"] = m->getParent()->isLambda();
            o["const"] = m->isConst();
            o["static"] = m->isStatic();
            o["virtual"] = m->isVirtual();
            o["access"] = m->getAccess() == AS_public ? "public" : (m->getAccess() == AS_protected ? "protected" : "private");
            Array ov;
            for (auto x : m->overridden_methods()) ov.push_back(declId(x));
            o["overrides"] = std::move(ov);
        }
        if (auto c = dyn_cast<CXXConstructorDecl>(f)) {
            o["ctor"] = true;
            o["copy"] = c->isCopyConstructor();
            o["move"] = c->isMoveConstructor();
            o["delegating"] = c->isDelegatingConstructor();
            Array inits;
            for (auto i : c->inits()) {
                Object io;
                io["written"] = i->isWritten();
                if (i->isAnyMemberInitializer()) {
                    io["field"] = declId(i->getAnyMember());
                    io["name"] = i->getAnyMember()->getNameAsString();
                } else if (i->isBaseInitializer()) {
                    io["base"] = typeId(QualType(i->getBaseClass(), 0));
                } else if (i->isDelegatingInitializer()) {
                    io["deleg"] = true;
                }
                io["e"] = expr(i->getInit());
                inits.push_back(std::move(io));
            }
            o["inits"] = std::move(inits);
        }
        if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
        o["body"] = stmt(f->getBody());
        functions.push_back(std::move(o));
    }

    bool VisitFunctionDecl(FunctionDecl *f)
    {
        if (!inRoots(f->getLocation())) return true;
        if (f->isDependentContext()) {
            if (f->doesThisDeclarationHaveABody() || f->isThisDeclarationADefinition()) {
                Object o;
                o["qual"] = qual(f);
                o["loc"] = loc(f->getLocation());
                uninst.push_back(std::move(o));
            }
            return true;
        }
        if (f->doesThisDeclarationHaveABody()) dumpFunction(f);
        return true;
    }

    bool VisitVarDecl(VarDecl *v)
    {
        if (!v->hasGlobalStorage() || v->isStaticLocal() || !inRoots(v->getLocation())) return true;
        if (v->getDeclContext()->isDependentContext() || v->getType()->isDependentType()) return true;
        if (isa<VarTemplateSpecializationDecl>(v) == false && v->getDescribedVarTemplate()) return true;
        Object o;
        o["id"] = declId(v);
        o["qual"] = qual(v);
        o["name"] = v->getNameAsString();
        o["t"] = typeId(v->getType());
        o["loc"] = loc(v->getLocation());
        o["def"] = v->isThisDeclarationADefinition() == VarDecl::Definition;
        o["const"] = v->getType().isConstQualified();
        o["inline"] = v->isInline();
        o["tls"] = v->getTLSKind() != VarDecl::TLS_None;
        o["staticmember"] = v->isStaticDataMember();
        if (v->getInit()) {
            std::string tn = v->getType().getCanonicalType().getAsString(pp);
            o["init"] = expr(v->getInit());
            if (v->isConstexpr() && v->getType()->isRealFloatingType())
                if (auto *val = v->evaluateValue())
                    if (val->isFloat()) {
                        llvm::SmallString<32> s;
                        val->getFloat().toString(s);
                        o["cf"] = std::string(s.str());
                    }
        }
        globals.push_back(std::move(o));
        return true;
    }

    bool VisitEnumDecl(EnumDecl *e)
    {
        if (!inRoots(e->getLocation()) || e->isDependentContext()) return true;
        Object o;
        o["qual"] = qual(e);
        Array a;
        for (auto c : e->enumerators()) a.push_back(Array{c->getNameAsString(), static_cast<int64_t>(c->getInitVal().getExtValue())});
        o["vals"] = std::move(a);
        o["loc"] = loc(e->getLocation());
        enums.push_back(std::move(o));
        return true;
    }

    bool VisitCXXRecordDecl(CXXRecordDecl *r)
    {
        if (!r->isThisDeclarationADefinition() || r->isDependentContext()) {
            return true;
        }
        SourceLocation where = r->getLocation();
        if (auto ts = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
            if (ts->getTemplateSpecializationKind() != TSK_ExplicitSpecialization)
                where = ts->getSpecializedTemplate()->getLocation();
        }
        if (inRoots(where) && !r->isLambda()) {
            Object o;
            o["name"] = recName(r);
            o["simple"] = r->getNameAsString();
            o["loc"] = loc(where);
            Array fs;
            for (auto f : r->fields()) {
                Object fo;
                fo["id"] = declId(f);
                fo["name"] = f->getNameAsString();
                fo["t"] = typeId(f->getType());
                fo["mutable"] = f->isMutable();
                fo["loc"] = loc(f->getLocation());
                fo["scalar"] = f->getType().getCanonicalType()->isScalarType();
                if (auto fr = f->getType()->getAsCXXRecordDecl()) {
                    (void)fr;
                    fo["record"] = true;
                }
                fo["access"] = f->getAccess() == AS_public ? "public" : (f->getAccess() == AS_protected ? "protected" : "private");
                if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
                fs.push_back(std::move(fo));
            }
            o["fields"] = std::move(fs);
            Array bs;
            for (auto &b : r->bases()) bs.push_back(typeId(b.getType()));
            o["bases"] = std::move(bs);
            Array ms;
            for (auto m : r->methods()) {
                Object mo;
                mo["name"] = m->getNameAsString();
                mo["id"] = declId(m);
                mo["deleted"] = m->isDeleted();
                mo["defaulted"] = m->isDefaulted();
                mo["implicit"] = m->isImplicit();
                mo["access"] = m->getAccess() == AS_public ? "public" : (m->getAccess() == AS_protected ? "protected" : "private");
                if (auto c = dyn_cast<CXXConstructorDecl>(m)) {
                    mo["ctor"] = c->isCopyConstructor() ? "copy" : (c->isMoveConstructor() ? "move" : (c->isDefaultConstructor() ? "default" : "other"));
                }
                if (m->isCopyAssignmentOperator()) mo["asg"] = "copy";
                if (m->isMoveAssignmentOperator()) mo["asg"] = "move";
                mo["userprov"] = m->isUserProvided();
                ms.push_back(std::move(mo));
            }
            o["methods"] = std::move(ms);
            records.push_back(std::move(o));
        }
        return true;
    }

    bool VisitClassTemplateSpecializationDecl(ClassTemplateSpecializationDecl *s)
    {
        // boost::serialization registration facts, wherever the primary template lives
        static const std::set<std::string> want
            = {"guid_defined", "init_guid", "guid_initializer", "tracking_level", "is_virtual_base_of", "implementation_level", "version"};
        std::string n = s->getNameAsString();
        if (!want.count(n)) return true;
        if (s->isDependentContext()) return true;
        bool expl = s->getTemplateSpecializationKind() == TSK_ExplicitSpecialization;
        Object o;
        o["tmpl"] = qual(s);
        o["args"] = tmplArgs(&s->getTemplateArgs());
        o["explicit"] = expl;
        o["kind"] = static_cast<int>(s->getTemplateSpecializationKind());
        o["loc"] = loc(s->getLocation());
        o["repo"] = inRoots(s->getLocation());
        specs.push_back(std::move(o));
        return true;
    }

    void finish(llvm::raw_ostream &os, bool errors)
    {
        emitDecls();
        Object root;
        root["errors"] = errors;
        root["files"] = std::move(fileNames);
        root["types"] = std::move(typeNames);
        root["decls"] = std::move(decls);
        root["functions"] = std::move(functions);
        root["records"] = std::move(records);
        root["globals"] = std::move(globals);
        root["specs"] = std::move(specs);
        root["enums"] = std::move(enums);
        root["uninstantiated"] = std::move(uninst);
        os << Value(std::move(root));
    }
};

struct Consumer : ASTConsumer {
    CompilerInstance &ci;
    explicit Consumer(CompilerInstance &c) : ci(c) {}
    void HandleTranslationUnit(ASTContext &c) override
    {
        std::vector<std::string> roots;
        std::string rs = getenv("DCGP_ROOTS") ? getenv("DCGP_ROOTS") : "/repo/";
        size_t p = 0;
        while (p <= rs.size()) {
            auto q = rs.find(':', p);
            if (q == std::string::npos) q = rs.size();
            if (q > p) roots.push_back(rs.substr(p, q - p));
            p = q + 1;
        }
        const char *out = getenv("DCGP_FACTS_OUT");
        std::error_code ec;
        llvm::raw_fd_ostream os(out ? out : "-", ec);
        Facts f(c, roots);
        f.TraverseDecl(c.getTranslationUnitDecl());
        f.finish(os, ci.getDiagnostics().hasErrorOccurred());
    }
};

struct Action : PluginASTAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &ci, StringRef) override { return std::make_unique<Consumer>(ci); }
    bool ParseArgs(const CompilerInstance &, const std::vector<std::string> &) override { return true; }
    ActionType getActionType() override { return ReplaceAction; }
};

} // namespace

static FrontendPluginRegistry::Add<Action> X("dcgpfacts", "dump dcgp facts");
