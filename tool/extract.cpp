// Fact extractor for intel/parameter-framework: dumps, for every function whose body lies in the
// analysed source tree, the clang CFG with resolved declarations, as JSON lines.
// Usage: pfextract <srcroot> <outfile> <file.cpp>... -- <compiler flags>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::string gRoot;
static llvm::raw_ostream *gOut;
static std::set<std::string> gSeen;

struct Ctx {
    ASTContext &AC;
    PrintingPolicy PP;
    SourceManager &SM;
    Ctx(ASTContext &ac) : AC(ac), PP(ac.getLangOpts()), SM(ac.getSourceManager())
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.Bool = true;
        PP.SuppressUnwrittenScope = false;
    }
    std::string type(QualType t) { return t.isNull() ? "" : t.getCanonicalType().getAsString(PP); }
    std::string fileOf(SourceLocation l)
    {
        if (l.isInvalid()) return "";
        auto p = SM.getPresumedLoc(SM.getExpansionLoc(l));
        if (p.isInvalid()) return "";
        std::string f = p.getFilename();
        llvm::SmallString<256> buf(f);
        llvm::sys::fs::make_absolute(buf);
        llvm::sys::path::remove_dots(buf, true);
        return buf.str().str();
    }
    bool inRoot(SourceLocation l)
    {
        std::string f = fileOf(l);
        return f.compare(0, gRoot.size(), gRoot) == 0;
    }
    std::string rel(SourceLocation l)
    {
        std::string f = fileOf(l);
        if (f.compare(0, gRoot.size(), gRoot) == 0) return f.substr(gRoot.size());
        return f;
    }
    int line(SourceLocation l)
    {
        if (l.isInvalid()) return 0;
        return (int)SM.getExpansionLineNumber(l);
    }
    int col(SourceLocation l)
    {
        if (l.isInvalid()) return 0;
        return (int)SM.getExpansionColumnNumber(l);
    }
    std::string qname(const NamedDecl *d)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        if (auto *f = dyn_cast<FunctionDecl>(d))
            f->getNameForDiagnostic(os, PP, true);
        else
            d->printQualifiedName(os, PP);
        os.flush();
        return s;
    }
    std::string funcId(const FunctionDecl *f)
    {
        std::string s = qname(f);
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            if (m->getParent()->isLambda())
                s = "lambda@" + rel(m->getParent()->getLocation()) + ":" +
                    std::to_string(line(m->getParent()->getLocation())) + ":" +
                    std::to_string(col(m->getParent()->getLocation())) + "::" +
                    m->getNameAsString();
        }
        s += "(";
        bool first = true;
        for (auto *p : f->parameters()) {
            if (!first) s += ",";
            first = false;
            s += type(p->getType());
        }
        s += ")";
        if (auto *m = dyn_cast<CXXMethodDecl>(f))
            if (m->isConst()) s += "const";
        if (f->getFormalLinkage() == Linkage::Internal && !isa<CXXMethodDecl>(f) &&
            f->getLocation().isValid() && inRoot(f->getLocation()))
            s += "@" + rel(f->getLocation());
        return s;
    }
    std::string className(const CXXRecordDecl *r)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        if (r->isLambda()) {
            os << "lambda@" << rel(r->getLocation()) << ":" << line(r->getLocation()) << ":" << col(r->getLocation());
        } else {
            QualType t = AC.getRecordType(r);
            t.print(os, PP);
        }
        os.flush();
        return s;
    }
};

static std::string ofield(Ctx &C, const ValueDecl *d)
{
    if (auto *f = dyn_cast<FieldDecl>(d)) {
        if (auto *r = dyn_cast<CXXRecordDecl>(f->getParent()))
            return C.className(r) + "::" + f->getNameAsString();
    }
    return C.qname(d);
}

class FnDump {
public:
    FnDump(Ctx &c) : C(c) {}
    std::map<const Stmt *, int> ids;
    json::Array nodes;

    int node(const Stmt *s)
    {
        if (!s) return -1;
        auto it = ids.find(s);
        if (it != ids.end()) return it->second;
        int id = (int)nodes.size();
        ids[s] = id;
        nodes.push_back(nullptr);
        json::Object o = make(s);
        nodes[id] = std::move(o);
        return id;
    }

private:
    Ctx &C;

    json::Object calleeInfo(const FunctionDecl *f)
    {
        json::Object o;
        o["id"] = C.funcId(f);
        o["q"] = C.qname(f);
        o["n"] = f->getNameAsString();
        if (f->isNoReturn()) o["noret"] = true;
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = C.className(m->getParent());
            if (m->isVirtual()) o["virt"] = true;
            if (m->isConst()) o["const"] = true;
            if (m->isStatic()) o["static"] = true;
        }
        json::Array pt;
        for (auto *p : f->parameters()) pt.push_back(C.type(p->getType()));
        o["pt"] = std::move(pt);
        o["rt"] = C.type(f->getReturnType());
        o["repo"] = f->getLocation().isValid() && C.inRoot(f->getLocation());
        return o;
    }

    json::Object declInfo(const ValueDecl *d)
    {
        json::Object o;
        o["n"] = d->getNameAsString();
        o["t"] = C.type(d->getType());
        if (auto *f = dyn_cast<FunctionDecl>(d)) {
            o["k"] = "func";
            o["f"] = calleeInfo(f);
        } else if (auto *p = dyn_cast<ParmVarDecl>(d)) {
            o["k"] = "parm";
            o["i"] = (int)p->getFunctionScopeIndex();
            o["u"] = d->getNameAsString() + "#" + std::to_string(C.line(d->getLocation())) + ":" +
                     std::to_string(C.col(d->getLocation()));
        } else if (auto *v = dyn_cast<VarDecl>(d)) {
            if (v->hasLocalStorage()) {
                o["k"] = "local";
                o["u"] = d->getNameAsString() + "#" + std::to_string(C.line(d->getLocation())) +
                         ":" + std::to_string(C.col(d->getLocation()));
            } else {
                o["k"] = "global";
                o["u"] = C.qname(d);
                if (v->isStaticLocal()) o["slocal"] = true;
                o["repo"] = C.inRoot(d->getLocation());
            }
        } else if (auto *e = dyn_cast<EnumConstantDecl>(d)) {
            o["k"] = "enum";
            o["u"] = C.qname(d);
            o["v"] = (int64_t)e->getInitVal().getExtValue();
        } else if (isa<FieldDecl>(d)) {
            o["k"] = "field";
            o["u"] = ofield(C, d);
        } else {
            o["k"] = d->getDeclKindName();
            o["u"] = C.qname(d);
        }
        return o;
    }

    void kids(json::Object &o, std::initializer_list<const Stmt *> l)
    {
        json::Array a;
        for (auto *s : l) a.push_back(node(s));
        o["c"] = std::move(a);
    }

    json::Object make(const Stmt *s)
    {
        json::Object o;
        std::string k = s->getStmtClassName();
        o["l"] = C.line(s->getBeginLoc());
        o["col"] = C.col(s->getBeginLoc());
        {
            SourceLocation l = s->getBeginLoc();
            if (l.isMacroID()) {
                std::string macro;
                SourceLocation cur = l;
                while (cur.isMacroID()) {
                    macro = Lexer::getImmediateMacroName(cur, C.SM, C.AC.getLangOpts()).str();
                    cur = C.SM.getImmediateExpansionRange(cur).getBegin();
                }
                o["mac"] = macro;
            }
        }
        if (auto *e = dyn_cast<Expr>(s)) {
            o["t"] = C.type(e->getType());
            if (e->isLValue()) o["lv"] = true;
            if (!e->isValueDependent() && !e->isTypeDependent()) {
                if (e->getType()->isIntegralOrEnumerationType() && !isa<InitListExpr>(e)) {
                    Expr::EvalResult r;
                    if (e->EvaluateAsInt(r, C.AC, Expr::SE_NoSideEffects)) {
                        llvm::SmallString<32> b;
                        r.Val.getInt().toString(b, 10);
                        o["cv"] = b.str().str();
                    }
                }
            }
        }
        if (auto *x = dyn_cast<ImplicitCastExpr>(s)) {
            o["k"] = "ICast";
            o["ck"] = x->getCastKindName();
            kids(o, {x->getSubExpr()});
        } else if (auto *x = dyn_cast<ExplicitCastExpr>(s)) {
            o["k"] = "ECast";
            o["ck"] = x->getCastKindName();
            o["cc"] = k;
            kids(o, {x->getSubExpr()});
        } else if (auto *x = dyn_cast<ParenExpr>(s)) {
            o["k"] = "Paren";
            kids(o, {x->getSubExpr()});
        } else if (auto *x = dyn_cast<FullExpr>(s)) {
            o["k"] = "Paren";
            kids(o, {x->getSubExpr()});
        } else if (auto *x = dyn_cast<MaterializeTemporaryExpr>(s)) {
            o["k"] = "MatTemp";
            kids(o, {x->getSubExpr()});
        } else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(s)) {
            o["k"] = "Paren";
            kids(o, {x->getSubExpr()});
        } else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) {
            o["k"] = "Paren";
            kids(o, {x->getReplacement()});
        } else if (auto *x = dyn_cast<CXXDefaultArgExpr>(s)) {
            o["k"] = "DefArg";
            kids(o, {x->getExpr()});
        } else if (auto *x = dyn_cast<CXXDefaultInitExpr>(s)) {
            o["k"] = "DefInit";
            kids(o, {x->getExpr()});
        } else if (auto *x = dyn_cast<IntegerLiteral>(s)) {
            o["k"] = "Int";
            (void)x;
        } else if (auto *x = dyn_cast<CXXBoolLiteralExpr>(s)) {
            o["k"] = "Bool";
            o["v"] = x->getValue();
        } else if (auto *x = dyn_cast<CharacterLiteral>(s)) {
            o["k"] = "Int";
            (void)x;
        } else if (auto *x = dyn_cast<FloatingLiteral>(s)) {
            o["k"] = "Float";
            o["v"] = x->getValueAsApproximateDouble();
        } else if (auto *x = dyn_cast<clang::StringLiteral>(s)) {
            o["k"] = "Str";
            if (x->isOrdinary() || x->isUTF8()) o["v"] = llvm::json::fixUTF8(x->getString());
        } else if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) {
            o["k"] = "Null";
        } else if (isa<CXXThisExpr>(s)) {
            o["k"] = "This";
        } else if (auto *x = dyn_cast<DeclRefExpr>(s)) {
            o["k"] = "Ref";
            o["d"] = declInfo(x->getDecl());
        } else if (auto *x = dyn_cast<MemberExpr>(s)) {
            o["k"] = "Member";
            o["d"] = declInfo(x->getMemberDecl());
            o["arrow"] = x->isArrow();
            kids(o, {x->getBase()});
        } else if (auto *x = dyn_cast<CXXMemberCallExpr>(s)) {
            o["k"] = "Call";
            o["ckind"] = "member";
            json::Array a;
            if (auto *md = x->getMethodDecl()) {
                o["f"] = calleeInfo(md);
                // qualified call (base::foo()) is non virtual
                if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens()))
                    if (me->hasQualifier()) o["nonvirt"] = true;
                o["obj"] = node(x->getImplicitObjectArgument());
            } else {
                o["callee"] = node(x->getCallee());
            }
            for (auto *arg : x->arguments()) a.push_back(node(arg));
            o["c"] = std::move(a);
        } else if (auto *x = dyn_cast<CXXOperatorCallExpr>(s)) {
            o["k"] = "Call";
            o["ckind"] = "op";
            o["op"] = getOperatorSpelling(x->getOperator());
            json::Array a;
            unsigned i = 0;
            const FunctionDecl *f = x->getDirectCallee();
            if (f) {
                o["f"] = calleeInfo(f);
                if (isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic() && x->getNumArgs()) {
                    o["obj"] = node(x->getArg(0));
                    i = 1;
                }
            } else
                o["callee"] = node(x->getCallee());
            for (; i < x->getNumArgs(); i++) a.push_back(node(x->getArg(i)));
            o["c"] = std::move(a);
        } else if (auto *x = dyn_cast<CallExpr>(s)) {
            o["k"] = "Call";
            o["ckind"] = "free";
            json::Array a;
            if (auto *f = x->getDirectCallee())
                o["f"] = calleeInfo(f);
            else
                o["callee"] = node(x->getCallee());
            for (auto *arg : x->arguments()) a.push_back(node(arg));
            o["c"] = std::move(a);
        } else if (auto *x = dyn_cast<CXXConstructExpr>(s)) {
            o["k"] = "Construct";
            o["f"] = calleeInfo(x->getConstructor());
            if (x->isElidable()) o["elid"] = true;
            json::Array a;
            for (auto *arg : x->arguments()) a.push_back(node(arg));
            o["c"] = std::move(a);
        } else if (auto *x = dyn_cast<CXXNewExpr>(s)) {
            o["k"] = "New";
            o["at"] = C.type(x->getAllocatedType());
            json::Array a;
            if (x->getInitializer()) a.push_back(node(x->getInitializer()));
            if (x->isArray() && x->getArraySize()) a.push_back(node(*x->getArraySize()));
            o["c"] = std::move(a);
        } else if (auto *x = dyn_cast<CXXDeleteExpr>(s)) {
            o["k"] = "Delete";
            o["dt"] = C.type(x->getDestroyedType());
            kids(o, {x->getArgument()});
        } else if (auto *x = dyn_cast<CXXThrowExpr>(s)) {
            o["k"] = "Throw";
            json::Array a;
            if (x->getSubExpr()) {
                a.push_back(node(x->getSubExpr()));
                o["tt"] = C.type(x->getSubExpr()->getType());
            }
            o["c"] = std::move(a);
        } else if (auto *x = dyn_cast<UnaryOperator>(s)) {
            o["k"] = "Un";
            o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str() +
                      (x->isPostfix() ? "post" : "");
            kids(o, {x->getSubExpr()});
        } else if (auto *x = dyn_cast<BinaryOperator>(s)) {
            o["k"] = "Bin";
            o["op"] = x->getOpcodeStr().str();
            kids(o, {x->getLHS(), x->getRHS()});
        } else if (auto *x = dyn_cast<ConditionalOperator>(s)) {
            o["k"] = "Cond";
            kids(o, {x->getCond(), x->getTrueExpr(), x->getFalseExpr()});
        } else if (auto *x = dyn_cast<ArraySubscriptExpr>(s)) {
            o["k"] = "Index";
            kids(o, {x->getBase(), x->getIdx()});
        } else if (auto *x = dyn_cast<DeclStmt>(s)) {
            o["k"] = "Decl";
            json::Array vs, cs;
            for (auto *d : x->decls())
                if (auto *v = dyn_cast<VarDecl>(d)) {
                    json::Object vo = declInfo(v);
                    int in = v->getInit() ? node(v->getInit()) : -1;
                    vo["init"] = in;
                    vs.push_back(std::move(vo));
                    if (in >= 0) cs.push_back(in);
                }
            o["vars"] = std::move(vs);
            o["c"] = std::move(cs);
        } else if (auto *x = dyn_cast<ReturnStmt>(s)) {
            o["k"] = "Return";
            json::Array a;
            if (x->getRetValue()) a.push_back(node(x->getRetValue()));
            o["c"] = std::move(a);
        } else if (auto *x = dyn_cast<LambdaExpr>(s)) {
            o["k"] = "Lambda";
            o["f"] = calleeInfo(x->getCallOperator());
            json::Array a, caps;
            for (auto &cap : x->captures()) {
                json::Object co;
                if (cap.capturesThis())
                    co["this"] = true;
                else if (cap.capturesVariable()) {
                    if (auto *v = dyn_cast<ValueDecl>(cap.getCapturedVar())) co["d"] = declInfo(v);
                    co["ref"] = cap.getCaptureKind() == LCK_ByRef;
                }
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            for (auto *i : x->capture_inits()) a.push_back(node(i));
            o["c"] = std::move(a);
        } else if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
            o["k"] = "SizeOf";
            o["at"] = C.type(x->getTypeOfArgument());
        } else if (auto *x = dyn_cast<InitListExpr>(s)) {
            o["k"] = "InitList";
            const InitListExpr *sem = x->isSemanticForm() ? x : x->getSemanticForm();
            if (!sem) sem = x;
            json::Array a;
            for (auto *i : sem->inits()) a.push_back(node(i));
            o["c"] = std::move(a);
        } else {
            o["k"] = k;
            json::Array a;
            if (!isa<CXXForRangeStmt>(s) && !isa<CompoundStmt>(s) && !isa<IfStmt>(s) &&
                !isa<ForStmt>(s) && !isa<WhileStmt>(s) && !isa<DoStmt>(s) && !isa<SwitchStmt>(s) &&
                !isa<CXXTryStmt>(s) && !isa<CXXCatchStmt>(s))
                for (auto *ch : s->children())
                    if (ch) a.push_back(node(ch));
            if (auto *ca = dyn_cast<CXXCatchStmt>(s)) {
                o["ct"] = ca->getExceptionDecl() ? C.type(ca->getCaughtType()) : std::string("...");
            }
            o["c"] = std::move(a);
        }
        return o;
    }
};

class TryCollector : public RecursiveASTVisitor<TryCollector> {
public:
    // maps statements to the try-stack they are lexically in (try body only)
    std::vector<const CXXTryStmt *> stack;
    std::map<const Stmt *, std::vector<const CXXTryStmt *>> in;
    bool TraverseCXXTryStmt(CXXTryStmt *t)
    {
        stack.push_back(t);
        TraverseStmt(t->getTryBlock());
        stack.pop_back();
        for (unsigned i = 0; i < t->getNumHandlers(); i++) TraverseStmt(t->getHandler(i));
        return true;
    }
    bool VisitStmt(Stmt *s)
    {
        if (!stack.empty()) in[s] = stack;
        return true;
    }
};

class V : public RecursiveASTVisitor<V> {
public:
    Ctx &C;
    V(Ctx &c) : C(c) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool shouldVisitLambdaBody() const { return true; }

    void emit(json::Object o) { *gOut << json::Value(std::move(o)) << "\n"; }

    bool VisitCXXRecordDecl(CXXRecordDecl *r)
    {
        if (!r->isThisDeclarationADefinition() || r->isDependentType()) return true;
        if (!C.inRoot(r->getLocation())) return true;
        std::string n = C.className(r);
        if (!gSeen.insert("class " + n + (r->isInAnonymousNamespace() ? C.rel(r->getLocation()) : "")).second)
            return true;
        json::Object o;
        o["rec"] = "class";
        o["q"] = n;
        o["file"] = C.rel(r->getLocation());
        o["line"] = C.line(r->getLocation());
        json::Array bases, fields, methods;
        for (auto &b : r->bases()) bases.push_back(C.type(b.getType()));
        for (auto *f : r->fields()) {
            json::Object fo;
            fo["n"] = f->getNameAsString();
            fo["u"] = n + "::" + f->getNameAsString();
            fo["t"] = C.type(f->getType());
            fo["acc"] = (int)f->getAccess();
            if (f->isMutable()) fo["mutable"] = true;
            if (f->hasInClassInitializer()) fo["init"] = true;
            fo["line"] = C.line(f->getLocation());
            fields.push_back(std::move(fo));
        }
        for (auto *m : r->methods()) {
            if (m->isImplicit()) continue;
            json::Object mo;
            mo["id"] = C.funcId(m);
            mo["n"] = m->getNameAsString();
            mo["acc"] = (int)m->getAccess();
            mo["virt"] = m->isVirtual();
            mo["pure"] = m->isPureVirtual();
            mo["const"] = m->isConst();
            mo["static"] = m->isStatic();
            mo["deleted"] = m->isDeleted();
            mo["rt"] = C.type(m->getReturnType());
            json::Array ov;
            for (auto *om : m->overridden_methods()) ov.push_back(C.funcId(om));
            mo["over"] = std::move(ov);
            mo["line"] = C.line(m->getLocation());
            methods.push_back(std::move(mo));
        }
        o["bases"] = std::move(bases);
        o["fields"] = std::move(fields);
        o["methods"] = std::move(methods);
        if (auto *d = r->getDestructor()) o["dtor"] = C.funcId(d);
        emit(std::move(o));
        return true;
    }

    bool VisitEnumDecl(EnumDecl *e)
    {
        if (!C.inRoot(e->getLocation()) || !e->isThisDeclarationADefinition()) return true;
        std::string n = C.qname(e);
        if (n.empty() || n.find("unnamed") != std::string::npos || n.find("anonymous") != std::string::npos)
            n = "enum@" + C.rel(e->getLocation()) + ":" + std::to_string(C.line(e->getLocation()));
        if (!gSeen.insert("enum " + n).second) return true;
        json::Object o;
        o["rec"] = "enum";
        o["q"] = n;
        json::Array a;
        for (auto *c : e->enumerators()) {
            json::Object co;
            co["n"] = C.qname(c);
            co["v"] = (int64_t)c->getInitVal().getExtValue();
            a.push_back(std::move(co));
        }
        o["vals"] = std::move(a);
        emit(std::move(o));
        return true;
    }

    bool VisitVarDecl(VarDecl *v)
    {
        if (!v->hasGlobalStorage() || !C.inRoot(v->getLocation())) return true;
        if (v->getType()->isDependentType()) return true;
        if (v->getDeclContext()->isDependentContext()) return true;
        std::string n = C.qname(v);
        bool def = v->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
        std::string key = "global " + n + (def ? "D" : "d") + (v->isStaticLocal() ? C.rel(v->getLocation()) + std::to_string(C.line(v->getLocation())) : "");
        if (!gSeen.insert(key).second) return true;
        json::Object o;
        o["rec"] = "global";
        o["q"] = n;
        o["file"] = C.rel(v->getLocation());
        o["line"] = C.line(v->getLocation());
        o["t"] = C.type(v->getType());
        o["const"] = v->getType().isConstQualified() ||
                     (v->getType()->isArrayType() &&
                      C.AC.getBaseElementType(v->getType()).isConstQualified());
        o["constexpr"] = v->isConstexpr();
        o["def"] = def;
        o["slocal"] = v->isStaticLocal();
        if (v->getInit() && !v->getInit()->isValueDependent()) {
            FnDump D(C);
            int r = D.node(v->getInit());
            o["initroot"] = r;
            o["nodes"] = std::move(D.nodes);
        }
        emit(std::move(o));
        return true;
    }

    bool VisitLambdaExpr(LambdaExpr *l)
    {
        CXXMethodDecl *op = l->getCallOperator();
        if (FunctionTemplateDecl *t = op->getDescribedFunctionTemplate()) {
            for (FunctionDecl *s : t->specializations())
                if (s->doesThisDeclarationHaveABody()) VisitFunctionDecl(s);
        } else {
            VisitFunctionDecl(op);
        }
        return true;
    }

    bool VisitFunctionDecl(FunctionDecl *f)
    {
        if (!f->isThisDeclarationADefinition() || !f->doesThisDeclarationHaveABody()) return true;
        if (f->isDependentContext() || f->isTemplated()) return true;
        if (!C.inRoot(f->getLocation())) return true;
        if (f->isImplicit() || f->isDefaulted()) return true;
        std::string id = C.funcId(f);
        if (!gSeen.insert("func " + id).second) return true;

        json::Object o;
        o["rec"] = "func";
        o["id"] = id;
        o["q"] = C.qname(f);
        o["n"] = f->getNameAsString();
        o["file"] = C.rel(f->getLocation());
        o["line"] = C.line(f->getLocation());
        o["endline"] = C.line(f->getEndLoc());
        o["rt"] = C.type(f->getReturnType());
        o["internal"] = f->getFormalLinkage() == Linkage::Internal;
        o["externc"] = f->isExternC();
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = C.className(m->getParent());
            o["virt"] = m->isVirtual();
            o["const"] = m->isConst();
            o["static"] = m->isStatic();
            o["acc"] = (int)m->getAccess();
            o["lambda"] = m->getParent()->isLambda();
            json::Array ov;
            for (auto *om : m->overridden_methods()) ov.push_back(C.funcId(om));
            o["over"] = std::move(ov);
        }
        o["ctor"] = isa<CXXConstructorDecl>(f);
        o["dtor"] = isa<CXXDestructorDecl>(f);
        json::Array ps;
        for (auto *p : f->parameters()) {
            json::Object po;
            po["n"] = p->getNameAsString();
            po["t"] = C.type(p->getType());
            po["u"] = p->getNameAsString() + "#" + std::to_string(C.line(p->getLocation())) + ":" +
                      std::to_string(C.col(p->getLocation()));
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);

        FnDump D(C);
        CFG::BuildOptions BO;
        BO.AddImplicitDtors = true;
        BO.AddInitializers = true;
        BO.AddCXXDefaultInitExprInCtors = true;
        BO.PruneTriviallyFalseEdges = false;
        BO.AddEHEdges = false;
        BO.setAllAlwaysAdd();
        auto cfg = CFG::buildCFG(f, f->getBody(), &C.AC, BO);
        if (!cfg) {
            o["nocfg"] = true;
            emit(std::move(o));
            return true;
        }
        TryCollector TC;
        TC.TraverseStmt(f->getBody());
        json::Array blocks;
        for (const CFGBlock *b : *cfg) {
            json::Object bo;
            bo["id"] = (int)b->getBlockID();
            json::Array es;
            for (const CFGElement &e : *b) {
                json::Object eo;
                if (auto st = e.getAs<CFGStmt>()) {
                    es.push_back(D.node(st->getStmt()));
                    continue;
                }
                if (auto in = e.getAs<CFGInitializer>()) {
                    const CXXCtorInitializer *ci = in->getInitializer();
                    eo["e"] = "init";
                    if (ci->isAnyMemberInitializer()) {
                        eo["field"] = ofield(C, ci->getAnyMember());
                        eo["t"] = C.type(ci->getAnyMember()->getType());
                    }
                    else if (ci->isBaseInitializer())
                        eo["base"] = C.type(QualType(ci->getBaseClass(), 0));
                    else
                        eo["delegating"] = true;
                    eo["written"] = ci->isWritten();
                    eo["x"] = D.node(ci->getInit());
                } else if (auto d = e.getAs<CFGAutomaticObjDtor>()) {
                    eo["e"] = "dtor";
                    const VarDecl *v = d->getVarDecl();
                    eo["u"] = v->getNameAsString() + "#" + std::to_string(C.line(v->getLocation())) +
                              ":" + std::to_string(C.col(v->getLocation()));
                    eo["t"] = C.type(v->getType());
                    if (auto *dd = d->getDestructorDecl(C.AC)) eo["f"] = C.funcId(dd);
                } else if (auto d = e.getAs<CFGImplicitDtor>()) {
                    eo["e"] = "idtor";
                    if (auto *dd = d->getDestructorDecl(C.AC)) eo["f"] = C.funcId(dd);
                } else
                    continue;
                es.push_back(std::move(eo));
            }
            bo["e"] = std::move(es);
            const Stmt *term = b->getTerminatorStmt();
            if (term) {
                bo["tk"] = term->getStmtClassName();
                if (isa<BinaryOperator>(term) || isa<ConditionalOperator>(term)) bo["tn"] = D.node(term);
                if (auto *lc = b->getLastCondition()) bo["cond"] = D.node(lc);
                bo["tl"] = C.line(term->getBeginLoc());
            }
            if (b->hasNoReturnElement()) bo["noret"] = true;
            if (const Stmt *lab = b->getLabel()) {
                json::Object lo;
                lo["k"] = lab->getStmtClassName();
                if (auto *cs = dyn_cast<CaseStmt>(lab)) lo["v"] = D.node(cs->getLHS());
                if (auto *ca = dyn_cast<CXXCatchStmt>(lab))
                    lo["ct"] = ca->getExceptionDecl() ? C.type(ca->getCaughtType()) : std::string("...");
                bo["label"] = std::move(lo);
            }
            json::Array ss;
            for (auto it = b->succ_begin(); it != b->succ_end(); ++it) {
                if (const CFGBlock *sb = it->getReachableBlock())
                    ss.push_back((int)sb->getBlockID());
                else if (const CFGBlock *pb = it->getPossiblyUnreachableBlock())
                    ss.push_back((int)pb->getBlockID());
                else
                    ss.push_back(-1);
            }
            bo["s"] = std::move(ss);
            blocks.push_back(std::move(bo));
        }
        o["entry"] = (int)cfg->getEntry().getBlockID();
        o["exit"] = (int)cfg->getExit().getBlockID();
        o["blocks"] = std::move(blocks);
        // try regions: node id -> list of handler types innermost first
        json::Object tr;
        for (auto &kv : TC.in) {
            auto it = D.ids.find(kv.first);
            if (it == D.ids.end()) continue;
            json::Array a;
            for (auto ri = kv.second.rbegin(); ri != kv.second.rend(); ++ri) {
                json::Array hs;
                for (unsigned i = 0; i < (*ri)->getNumHandlers(); i++) {
                    auto *h = (*ri)->getHandler(i);
                    hs.push_back(h->getExceptionDecl() ? C.type(h->getCaughtType())
                                                       : std::string("..."));
                }
                a.push_back(std::move(hs));
            }
            tr[std::to_string(it->second)] = std::move(a);
        }
        o["try"] = std::move(tr);
        o["nodes"] = std::move(D.nodes);
        emit(std::move(o));
        return true;
    }
};

class Cons : public ASTConsumer {
    void HandleTranslationUnit(ASTContext &ac) override
    {
        Ctx c(ac);
        V v(c);
        v.TraverseDecl(ac.getTranslationUnitDecl());
    }
};
class Act : public ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override
    {
        return std::make_unique<Cons>();
    }
};

int main(int argc, const char **argv)
{
    if (argc < 5) return 2;
    gRoot = argv[1];
    if (gRoot.back() != '/') gRoot += '/';
    std::error_code ec;
    llvm::raw_fd_ostream out(argv[2], ec);
    if (ec) return 2;
    gOut = &out;
    std::vector<std::string> files, flags;
    int i = 3;
    for (; i < argc && std::string(argv[i]) != "--"; i++) files.push_back(argv[i]);
    for (i++; i < argc; i++) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, files);
    return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
