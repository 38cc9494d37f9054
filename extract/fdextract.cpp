// fdextract: dumps the type-checked bodies of all functions defined in "user"
// files (library sources/headers and /verif specification files) of one
// translation unit as JSON, with callees, types, template instantiations,
// implicit conversions and lambda captures resolved.
//
//   fdextract OUT.json TUNAME PREFIX[:PREFIX...] SOURCE -- FLAGS
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string OutFile, TUName;
static std::vector<std::string> Prefixes;

namespace {

class Dumper
{
public:
    explicit Dumper(ASTContext& c)
        : C(c), SM(c.getSourceManager()), PP(c.getLangOpts())
        , Mangler(c.createMangleContext())
    {
        PP.SuppressTagKeyword = true;
        PP.PrintCanonicalTypes = true;
    }

    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::unique_ptr<MangleContext> Mangler;

    std::map<std::string, int> typeIds;
    Array types;
    std::map<const void*, int> typeByPtr;
    std::map<const Decl*, std::string> declIds;
    std::map<std::string, int> recSeen;
    Array records, functions, globals;
    std::deque<const FunctionDecl*> work;
    std::set<const FunctionDecl*> queued;
    Array problems;

    std::string fileOf(SourceLocation l)
    {
        l = SM.getExpansionLoc(l);
        if (l.isInvalid()) return "";
        auto p = SM.getPresumedLoc(l);
        if (p.isInvalid()) return "";
        llvm::SmallString<256> s(p.getFilename());
        llvm::sys::fs::make_absolute(s);
        return std::string(s);
    }

    bool isUser(SourceLocation l)
    {
        const auto f = fileOf(l);
        for (const auto& p : Prefixes) if (f.compare(0, p.size(), p) == 0) return true;
        return false;
    }

    std::string loc(SourceLocation l)
    {
        l = SM.getExpansionLoc(l);
        if (l.isInvalid()) return "";
        return fileOf(l) + ":" + std::to_string(SM.getPresumedLoc(l).getLine());
    }

    std::string did(const Decl* d)
    {
        d = d->getCanonicalDecl();
        auto it = declIds.find(d);
        if (it != declIds.end()) return it->second;
        auto s = TUName + ":" + std::to_string(declIds.size());
        declIds[d] = s;
        return s;
    }

    // Qualified name without template arguments.
    std::string qname(const NamedDecl* d)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy q = PP;
        q.SuppressInlineNamespace = true;
        const DeclContext* ctx = d->getDeclContext();
        std::vector<std::string> parts;
        while (ctx && !ctx->isTranslationUnit()) {
            if (auto* ns = dyn_cast<NamespaceDecl>(ctx)) {
                if (ns->isAnonymousNamespace()) parts.push_back("(anon)");
                else if (!ns->isInline()) parts.push_back(ns->getNameAsString());
            } else if (auto* r = dyn_cast<TagDecl>(ctx)) {
                parts.push_back(recName(r));
            } else if (auto* f = dyn_cast<FunctionDecl>(ctx)) {
                parts.push_back(f->getNameAsString() + "()");
            }
            ctx = ctx->getParent();
        }
        for (auto it = parts.rbegin(); it != parts.rend(); ++it) os << *it << "::";
        if (auto* r = dyn_cast<TagDecl>(d)) os << recName(r);
        else os << d->getNameAsString();
        return os.str();
    }

    std::string recName(const TagDecl* r)
    {
        if (auto* c = dyn_cast<CXXRecordDecl>(r)) if (c->isLambda()) return "(lambda)";
        auto n = r->getNameAsString();
        return n.empty() ? std::string("(unnamed)") : n;
    }

    bool isUserRec(const RecordDecl* r) { return isUser(r->getLocation()); }

    std::string recKey(const RecordDecl* r)
    {
        QualType t = C.getRecordType(r).getCanonicalType();
        std::string s = t.getAsString(PP);
        auto* c = dyn_cast<CXXRecordDecl>(r);
        if ((c && c->isLambda()) || !r->getDeclName() || r->isInAnonymousNamespace()
            || r->getParentFunctionOrMethod())
            s += "@" + did(r);
        return s;
    }

    int type(QualType q)
    {
        if (q.isNull()) return -1;
        q = q.getCanonicalType();
        auto it = typeByPtr.find(q.getAsOpaquePtr());
        if (it != typeByPtr.end()) return it->second;
        int id = int(types.size());
        typeByPtr[q.getAsOpaquePtr()] = id;
        types.push_back(nullptr);
        Object o;
        const bool cst = q.isConstQualified();
        o["c"] = cst;
        o["s"] = q.getAsString(PP);
        const Type* t = q.getTypePtr();
        if (t->isBooleanType()) o["k"] = "bool";
        else if (t->isEnumeralType()) o["k"] = "enum";
        else if (t->isIntegerType()) {
            o["k"] = "int"; o["u"] = t->isUnsignedIntegerType();
            o["w"] = int64_t(C.getTypeSize(q));
        }
        else if (t->isRealFloatingType()) { o["k"] = "flt"; o["w"] = int64_t(C.getTypeSize(q)); }
        else if (t->isVoidType()) o["k"] = "void";
        else if (t->isNullPtrType()) o["k"] = "nullptr";
        else if (auto* p = t->getAs<PointerType>()) {
            o["k"] = p->getPointeeType()->isFunctionType() ? "fptr" : "ptr";
            o["to"] = type(p->getPointeeType());
        }
        else if (auto* r = t->getAs<ReferenceType>()) {
            o["k"] = "ref"; o["rv"] = t->isRValueReferenceType();
            o["to"] = type(r->getPointeeType());
        }
        else if (auto* r = t->getAs<RecordType>()) {
            o["k"] = "rec";
            auto* d = r->getDecl();
            o["n"] = qname(d);
            o["key"] = recKey(d);
            o["user"] = isUserRec(d);
            Array a;
            if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(d)) {
                for (const auto& ta : s->getTemplateArgs().asArray()) addTArg(a, ta);
            }
            o["a"] = std::move(a);
            record(d);
        }
        else if (auto* a = C.getAsConstantArrayType(q)) {
            o["k"] = "arr"; o["to"] = type(a->getElementType());
            o["n"] = int64_t(a->getSize().getZExtValue());
        }
        else if (t->isFunctionType()) o["k"] = "func";
        else o["k"] = "other";
        types[id] = std::move(o);
        return id;
    }

    void addTArg(Array& a, const TemplateArgument& ta)
    {
        if (ta.getKind() == TemplateArgument::Type) a.push_back(type(ta.getAsType()));
        else if (ta.getKind() == TemplateArgument::Integral)
            a.push_back(llvm::toString(ta.getAsIntegral(), 10));
        else if (ta.getKind() == TemplateArgument::Pack)
            for (const auto& x : ta.pack_elements()) addTArg(a, x);
        else a.push_back("?");
    }

    void record(const RecordDecl* r)
    {
        r = r->getDefinition() ? r->getDefinition() : r;
        auto key = recKey(r);
        if (recSeen.count(key)) return;
        recSeen[key] = 1;
        const bool user = isUserRec(r);
        // std records: only pair-like aggregates need their fields.
        const auto qn = qname(r);
        const bool want = user || qn == "std::pair" || qn == "std::tuple";
        if (!want || !r->isCompleteDefinition()) return;
        Object o;
        o["key"] = key; o["n"] = qn; o["user"] = user; o["l"] = loc(r->getLocation());
        Array fs, bases;
        if (auto* c = dyn_cast<CXXRecordDecl>(r)) {
            if (c->isDependentContext()) return;
            o["lambda"] = c->isLambda();
            for (const auto& b : c->bases()) bases.push_back(type(b.getType()));
            if (user) {
                o["dtor"] = Value(nullptr);
                if (auto* d = c->getDestructor()) if (d->isUserProvided()) o["dtor"] = fkey(d);
            }
        }
        for (auto* f : r->fields()) {
            Object fo;
            fo["n"] = fname(f);
            fo["t"] = type(f->getType());
            fo["mut"] = f->isMutable();
            fo["l"] = loc(f->getLocation());
            if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        o["bases"] = std::move(bases);
        records.push_back(std::move(o));
    }

    std::string fname(const FieldDecl* f)
    {
        auto n = f->getNameAsString();
        if (n.empty()) n = "#" + std::to_string(f->getFieldIndex());
        return n;
    }

    std::string fkey(const FunctionDecl* f)
    {
        f = f->getCanonicalDecl();
        std::string s;
        llvm::raw_string_ostream os(s);
        bool local = !f->isExternallyVisible();
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) local = true;
        if (f->getParentFunctionOrMethod()) local = true;
        if (local) { os << qname(f) << "@" << did(f); return os.str(); }
        if (auto* c = dyn_cast<CXXConstructorDecl>(f)) Mangler->mangleName(GlobalDecl(c, Ctor_Complete), os);
        else if (auto* d = dyn_cast<CXXDestructorDecl>(f)) Mangler->mangleName(GlobalDecl(d, Dtor_Complete), os);
        else if (Mangler->shouldMangleDeclName(f)) Mangler->mangleName(GlobalDecl(f), os);
        else os << f->getNameAsString();
        return os.str();
    }

    Value callee(const FunctionDecl* f)
    {
        Object o;
        o["n"] = qname(f);
        o["key"] = fkey(f);
        const FunctionDecl* def = nullptr;
        const bool user = isUser(f->getLocation())
            || (f->getTemplateInstantiationPattern() && isUser(f->getTemplateInstantiationPattern()->getLocation()));
        o["user"] = user;
        if (f->hasBody(def) && def && user) enqueue(def);
        o["noret"] = f->isNoReturn();
        o["rt"] = type(f->getReturnType());
        Array ps;
        for (auto* p : f->parameters()) ps.push_back(type(p->getType()));
        o["ps"] = std::move(ps);
        if (auto* ta = f->getTemplateSpecializationArgs()) {
            Array a;
            for (const auto& x : ta->asArray()) addTArg(a, x);
            o["ta"] = std::move(a);
        }
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = type(C.getRecordType(m->getParent()));
            o["const"] = m->isConst();
            o["static"] = m->isStatic();
            o["implicit"] = !m->isUserProvided();
            if (auto* c = dyn_cast<CXXConstructorDecl>(m)) {
                o["kind"] = c->isCopyConstructor() ? "copyctor" : c->isMoveConstructor() ? "movector"
                          : c->isDefaultConstructor() ? "defctor" : "ctor";
            } else if (isa<CXXDestructorDecl>(m)) o["kind"] = "dtor";
            else if (m->isCopyAssignmentOperator()) o["kind"] = "copyassign";
            else if (m->isMoveAssignmentOperator()) o["kind"] = "moveassign";
            else if (isa<CXXConversionDecl>(m)) o["kind"] = "conv";
            else o["kind"] = "method";
        } else o["kind"] = "func";
        return o;
    }

    void enqueue(const FunctionDecl* f)
    {
        const FunctionDecl* def = nullptr;
        if (!f->hasBody(def) || !def) return;
        if (def->isDependentContext()) return;
        if (!queued.insert(def).second) return;
        work.push_back(def);
    }

    Array args(llvm::ArrayRef<const Expr*> es)
    {
        Array a;
        for (auto* e : es) a.push_back(expr(e));
        return a;
    }

    template <class R> Array argsR(R&& r)
    {
        Array a;
        for (const Expr* e : r) a.push_back(expr(e));
        return a;
    }

    Object node(const char* k, const Expr* e)
    {
        Object o;
        o["k"] = k;
        o["t"] = type(e->getType());
        o["l"] = loc(e->getExprLoc());
        o["v"] = e->isLValue() ? "l" : e->isXValue() ? "x" : "r";
        return o;
    }

    Value expr(const Expr* e)
    {
        if (!e) return nullptr;
        // Transparent wrappers.
        if (auto* x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
        if (auto* x = dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
        if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
        if (auto* x = dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
        if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
        if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
        if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
        if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) {
            auto o = node("tmp", e); o["e"] = expr(x->getSubExpr()); return o;
        }
        if (auto* x = dyn_cast<IntegerLiteral>(e)) {
            auto o = node("int", e); o["val"] = llvm::toString(x->getValue(), 10, x->getType()->isSignedIntegerType()); return o;
        }
        if (auto* x = dyn_cast<CharacterLiteral>(e)) {
            auto o = node("int", e); o["val"] = std::to_string(x->getValue()); return o;
        }
        if (auto* x = dyn_cast<FloatingLiteral>(e)) {
            llvm::SmallString<64> s; x->getValue().toString(s, 40, 4);
            auto o = node("flt", e); o["val"] = std::string(s); return o;
        }
        if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { auto o = node("bool", e); o["val"] = x->getValue(); return o; }
        if (auto* x = dyn_cast<clang::StringLiteral>(e)) {
            auto o = node("str", e);
            o["val"] = x->isOrdinary() ? llvm::json::fixUTF8(x->getString()) : std::string("?"); return o;
        }
        if (isa<PredefinedExpr>(e)) { auto o = node("str", e); o["val"] = "__func__"; return o; }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return node("null", e);
        if (isa<CXXThisExpr>(e)) return node("this", e);
        if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) return node("zero", e);
        if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            auto o = node("int", e);
            Expr::EvalResult r;
            if (x->EvaluateAsInt(r, C)) o["val"] = llvm::toString(r.Val.getInt(), 10);
            else { o["k"] = "unk"; o["why"] = "non-constant sizeof"; }
            return o;
        }
        if (auto* x = dyn_cast<DeclRefExpr>(e)) {
            auto o = node("ref", e);
            auto* d = x->getDecl();
            o["n"] = d->getNameAsString();
            o["d"] = did(d);
            if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
                o["dk"] = "enum"; o["val"] = llvm::toString(ec->getInitVal(), 10);
            } else if (auto* f = dyn_cast<FunctionDecl>(d)) {
                o["dk"] = "func"; o["fn"] = callee(f);
            } else if (auto* b = dyn_cast<BindingDecl>(d)) {
                o["dk"] = "bind";
                if (auto* hv = b->getHoldingVar()) { o["dk"] = "var"; o["d"] = did(hv); }
                else if (b->getBinding()) o["e"] = expr(b->getBinding());
            } else if (auto* v = dyn_cast<VarDecl>(d)) {
                o["dk"] = "var";
                if (v->hasGlobalStorage()) {
                    o["g"] = true; o["gn"] = qname(v);
                    const VarDecl* dv = nullptr;
                    if (const Expr* in = v->getAnyInitializer(dv)) {
                        if ((v->getType().isConstQualified() || v->isConstexpr()) && !in->isValueDependent()) {
                            if (globalsInit.insert(did(v)).second) {
                                Object g; g["d"] = did(v); g["n"] = qname(v); g["init"] = expr(in);
                                globalInits.push_back(std::move(g));
                            }
                        }
                    }
                }
            } else o["dk"] = "other";
            return o;
        }
        if (auto* x = dyn_cast<MemberExpr>(e)) {
            auto* d = x->getMemberDecl();
            if (auto* v = dyn_cast<VarDecl>(d)) {   // static data member
                auto o = node("ref", e);
                o["dk"] = "var"; o["n"] = v->getNameAsString(); o["d"] = did(v); o["g"] = true; o["gn"] = qname(v);
                const VarDecl* dv = nullptr;
                if (const Expr* in = v->getAnyInitializer(dv)) {
                    if ((v->getType().isConstQualified() || v->isConstexpr()) && !in->isValueDependent())
                        if (globalsInit.insert(did(v)).second) {
                            Object g; g["d"] = did(v); g["n"] = qname(v); g["init"] = expr(in);
                            globalInits.push_back(std::move(g));
                        }
                }
                return o;
            }
            auto o = node("mem", e);
            o["b"] = expr(x->getBase());
            o["arrow"] = x->isArrow();
            if (auto* f = dyn_cast<FieldDecl>(d)) o["f"] = fname(f);
            else if (auto* m = dyn_cast<CXXMethodDecl>(d)) { o["k"] = "memfn"; o["fn"] = callee(m); }
            return o;
        }
        if (auto* x = dyn_cast<UnaryOperator>(e)) {
            auto o = node("un", e);
            std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix()) op = "p" + op;
            o["op"] = op; o["e"] = expr(x->getSubExpr());
            return o;
        }
        if (auto* x = dyn_cast<BinaryOperator>(e)) {
            auto o = node("bin", e);
            o["op"] = BinaryOperator::getOpcodeStr(x->getOpcode()).str();
            o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS());
            if (auto* ca = dyn_cast<CompoundAssignOperator>(e)) o["ct"] = type(ca->getComputationResultType());
            return o;
        }
        if (auto* x = dyn_cast<ConditionalOperator>(e)) {
            auto o = node("cond", e);
            o["c"] = expr(x->getCond()); o["a"] = expr(x->getTrueExpr()); o["b"] = expr(x->getFalseExpr());
            return o;
        }
        if (auto* x = dyn_cast<CastExpr>(e)) {
            auto ck = std::string(x->getCastKindName());
            if (ck == "NoOp" && x->getType().getCanonicalType() == x->getSubExpr()->getType().getCanonicalType()
                && x->isLValue() == x->getSubExpr()->isLValue() && x->isXValue() == x->getSubExpr()->isXValue())
                return expr(x->getSubExpr());
            auto o = node("cast", e);
            o["ck"] = ck; o["e"] = expr(x->getSubExpr());
            o["exp"] = isa<ExplicitCastExpr>(e);
            return o;
        }
        if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
            auto o = node("ocall", e);
            o["op"] = std::string(getOperatorSpelling(x->getOperator()));
            if (auto* f = x->getDirectCallee()) o["fn"] = callee(f);
            o["args"] = argsR(x->arguments());
            return o;
        }
        if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
            auto o = node("mcall", e);
            if (auto* f = x->getMethodDecl()) o["fn"] = callee(f);
            else { o["k"] = "unk"; o["why"] = "call through pointer to member"; return o; }
            o["o"] = expr(x->getImplicitObjectArgument());
            if (auto* m = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) o["arrow"] = m->isArrow();
            else o["arrow"] = false;
            o["args"] = argsR(x->arguments());
            return o;
        }
        if (auto* x = dyn_cast<CallExpr>(e)) {
            auto o = node("call", e);
            if (auto* f = x->getDirectCallee()) o["fn"] = callee(f);
            else o["fe"] = expr(x->getCallee());
            o["args"] = argsR(x->arguments());
            return o;
        }
        if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
            auto o = node("ctor", e);
            o["fn"] = callee(x->getConstructor());
            o["args"] = argsR(x->arguments());
            o["list"] = x->isListInitialization();
            o["silist"] = x->isStdInitListInitialization();
            o["zeroinit"] = x->requiresZeroInitialization();
            return o;
        }
        if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { (void)x; auto o = node("unk", e); o["why"] = "inherited ctor"; return o; }
        if (auto* x = dyn_cast<InitListExpr>(e)) {
            if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
            if (x->isTransparent() && x->getNumInits() == 1) return expr(x->getInit(0));
            auto o = node("ilist", e);
            Array es, ns;
            for (auto* i : x->inits()) es.push_back(expr(i));
            if (auto* rt = e->getType()->getAs<RecordType>()) {
                if (auto* c = dyn_cast<CXXRecordDecl>(rt->getDecl()))
                    for (const auto& b : c->bases()) { (void)b; ns.push_back("#base"); }
                for (auto* f : rt->getDecl()->fields()) ns.push_back(fname(f));
            }
            o["es"] = std::move(es); o["ns"] = std::move(ns);
            return o;
        }
        if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) { auto o = node("silist", e); o["e"] = expr(x->getSubExpr()); return o; }
        if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
            auto o = node("idx", e); o["a"] = expr(x->getBase()); o["b"] = expr(x->getIdx()); return o;
        }
        if (auto* x = dyn_cast<LambdaExpr>(e)) {
            auto o = node("lambda", e);
            Array caps;
            auto fi = x->getLambdaClass()->field_begin();
            auto ii = x->capture_init_begin();
            for (auto ci = x->capture_begin(); ci != x->capture_end(); ++ci, ++fi, ++ii) {
                Object co;
                co["f"] = fname(*fi);
                if (ci->capturesThis()) { co["this"] = true; co["byref"] = ci->getCaptureKind() == LCK_This; }
                else if (ci->capturesVariable()) {
                    co["d"] = did(ci->getCapturedVar());
                    co["byref"] = ci->getCaptureKind() == LCK_ByRef;
                }
                co["init"] = expr(*ii);
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            if (auto* m = x->getCallOperator()) {
                if (!m->isDependentContext() && !x->isGenericLambda()) { o["fn"] = callee(m); enqueue(m); }
            }
            return o;
        }
        if (auto* x = dyn_cast<CXXNewExpr>(e)) {
            auto o = node("new", e);
            o["arr"] = x->isArray();
            if (x->getInitializer()) o["e"] = expr(x->getInitializer());
            if (x->isArray() && x->getArraySize()) o["n"] = expr(*x->getArraySize());
            return o;
        }
        if (auto* x = dyn_cast<CXXDeleteExpr>(e)) { auto o = node("delete", e); o["e"] = expr(x->getArgument()); return o; }
        if (auto* x = dyn_cast<CXXThrowExpr>(e)) { auto o = node("throw", e); o["e"] = expr(x->getSubExpr()); return o; }
        if (auto* x = dyn_cast<CompoundLiteralExpr>(e)) return expr(x->getInitializer());
        if (auto* x = dyn_cast<CXXNoexceptExpr>(e)) { auto o = node("bool", e); o["val"] = x->getValue(); return o; }
        if (auto* x = dyn_cast<TypeTraitExpr>(e)) { auto o = node("bool", e); o["val"] = x->getValue(); return o; }
        if (auto* x = dyn_cast<StmtExpr>(e)) { auto o = node("stmtexpr", e); o["s"] = stmt(x->getSubStmt()); return o; }
        if (auto* x = dyn_cast<OpaqueValueExpr>(e)) if (x->getSourceExpr()) return expr(x->getSourceExpr());
        if (auto* x = dyn_cast<ArrayInitLoopExpr>(e)) { auto o = node("arrcopy", e); o["e"] = expr(x->getCommonExpr()->getSourceExpr()); return o; }
        auto o = node("unk", e);
        o["why"] = e->getStmtClassName();
        return o;
    }

    std::set<std::string> globalsInit;
    Array globalInits;

    Value varDecl(const VarDecl* v)
    {
        Object o;
        o["d"] = did(v); o["n"] = v->getNameAsString(); o["t"] = type(v->getType());
        o["l"] = loc(v->getLocation());
        o["static"] = v->isStaticLocal();
        o["cst"] = v->getType().isConstQualified() || v->isConstexpr();
        if (v->getInit()) o["init"] = expr(v->getInit());
        if (auto* d = dyn_cast<DecompositionDecl>(v)) {
            Array bs;
            for (auto* b : d->bindings()) {
                Object bo;
                bo["n"] = b->getNameAsString();
                if (auto* hv = b->getHoldingVar()) { bo["d"] = did(hv); bo["t"] = type(hv->getType()); bo["init"] = expr(hv->getInit()); }
                bs.push_back(std::move(bo));
            }
            o["binds"] = std::move(bs);
        }
        return o;
    }

    Object snode(const char* k, const Stmt* s)
    {
        Object o; o["k"] = k; o["l"] = loc(s->getBeginLoc()); return o;
    }

    Value stmt(const Stmt* s)
    {
        if (!s) return nullptr;
        if (auto* e = dyn_cast<Expr>(s)) { auto o = snode("expr", s); o["e"] = expr(e); return o; }
        if (auto* x = dyn_cast<CompoundStmt>(s)) {
            auto o = snode("block", s);
            Array b; for (auto* c : x->body()) b.push_back(stmt(c));
            o["b"] = std::move(b); return o;
        }
        if (auto* x = dyn_cast<DeclStmt>(s)) {
            auto o = snode("decl", s);
            Array b;
            for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl>(d)) b.push_back(varDecl(v));
            o["b"] = std::move(b); return o;
        }
        if (auto* x = dyn_cast<IfStmt>(s)) {
            auto o = snode("if", s);
            if (x->getInit()) o["init"] = stmt(x->getInit());
            if (x->getConditionVariable()) o["cv"] = stmt(x->getConditionVariableDeclStmt());
            o["c"] = expr(x->getCond()); o["a"] = stmt(x->getThen()); o["b"] = stmt(x->getElse());
            return o;
        }
        if (auto* x = dyn_cast<ForStmt>(s)) {
            auto o = snode("for", s);
            o["init"] = stmt(x->getInit());
            if (x->getConditionVariable()) o["cv"] = stmt(x->getConditionVariableDeclStmt());
            o["c"] = expr(x->getCond()); o["inc"] = expr(x->getInc()); o["b"] = stmt(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<WhileStmt>(s)) {
            auto o = snode("while", s);
            if (x->getConditionVariable()) o["cv"] = stmt(x->getConditionVariableDeclStmt());
            o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<DoStmt>(s)) {
            auto o = snode("do", s); o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); return o;
        }
        if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
            auto o = snode("rfor", s);
            if (x->getInit()) o["init"] = stmt(x->getInit());
            o["range"] = stmt(x->getRangeStmt()); o["begin"] = stmt(x->getBeginStmt()); o["end"] = stmt(x->getEndStmt());
            o["c"] = expr(x->getCond()); o["inc"] = expr(x->getInc());
            o["var"] = stmt(x->getLoopVarStmt()); o["b"] = stmt(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<ReturnStmt>(s)) { auto o = snode("ret", s); o["e"] = expr(x->getRetValue()); return o; }
        if (isa<BreakStmt>(s)) return snode("break", s);
        if (isa<ContinueStmt>(s)) return snode("cont", s);
        if (isa<NullStmt>(s)) return snode("null", s);
        if (auto* x = dyn_cast<SwitchStmt>(s)) {
            auto o = snode("switch", s);
            if (x->getInit()) o["init"] = stmt(x->getInit());
            o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); return o;
        }
        if (auto* x = dyn_cast<CaseStmt>(s)) {
            auto o = snode("case", s); o["e"] = expr(x->getLHS());
            Expr::EvalResult r;
            if (x->getLHS()->EvaluateAsInt(r, C)) o["val"] = llvm::toString(r.Val.getInt(), 10);
            o["b"] = stmt(x->getSubStmt()); return o;
        }
        if (auto* x = dyn_cast<DefaultStmt>(s)) { auto o = snode("default", s); o["b"] = stmt(x->getSubStmt()); return o; }
        if (auto* x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
        if (auto* x = dyn_cast<CXXTryStmt>(s)) {
            auto o = snode("try", s);
            o["b"] = stmt(x->getTryBlock());
            Array hs;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
                auto* h = x->getHandler(i);
                Object ho;
                ho["all"] = h->getExceptionDecl() == nullptr;
                if (h->getExceptionDecl()) { ho["v"] = varDecl(h->getExceptionDecl()); ho["t"] = type(h->getCaughtType()); }
                ho["b"] = stmt(h->getHandlerBlock());
                hs.push_back(std::move(ho));
            }
            o["hs"] = std::move(hs);
            return o;
        }
        auto o = snode("unk", s);
        o["why"] = s->getStmtClassName();
        return o;
    }

    void function(const FunctionDecl* f)
    {
        Object o;
        o["key"] = fkey(f);
        o["n"] = qname(f);
        o["l"] = loc(f->getLocation());
        o["tu"] = TUName;
        o["info"] = callee(f);
        o["ext"] = f->isExternallyVisible();
        Array ps;
        for (auto* p : f->parameters()) {
            Object po; po["d"] = did(p); po["n"] = p->getNameAsString(); po["t"] = type(p->getType());
            ps.push_back(std::move(po));
        }
        o["ps"] = std::move(ps);
        if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
            Array is;
            for (auto* i : c->inits()) {
                Object io;
                io["l"] = loc(i->getSourceLocation());
                if (i->isMemberInitializer()) io["f"] = fname(i->getMember());
                else if (i->isDelegatingInitializer()) io["delegate"] = true;
                else if (i->isBaseInitializer()) io["base"] = type(QualType(i->getBaseClass(), 0));
                else if (i->isIndirectMemberInitializer()) io["f"] = i->getIndirectMember()->getNameAsString();
                io["e"] = expr(i->getInit());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        }
        o["defaulted"] = f->isDefaulted();
        o["body"] = stmt(f->getBody());
        functions.push_back(std::move(o));
    }
};

class Roots : public RecursiveASTVisitor<Roots>
{
public:
    explicit Roots(Dumper& d) : D(d) {}
    Dumper& D;
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if (!f->isDependentContext() && f->isThisDeclarationADefinition() && D.isUser(f->getLocation())) D.enqueue(f);
        return true;
    }
    bool VisitVarDecl(VarDecl* v)
    {
        if (!D.isUser(v->getLocation()) || v->getDeclContext()->isDependentContext()) return true;
        if (v->hasGlobalStorage()) {
            Object o;
            o["d"] = D.did(v); o["n"] = D.qname(v); o["t"] = D.type(v->getType()); o["l"] = D.loc(v->getLocation());
            o["cst"] = v->getType().isConstQualified() || v->isConstexpr();
            o["tls"] = v->getTLSKind() != VarDecl::TLS_None;
            o["local"] = v->isStaticLocal();
            o["file"] = D.fileOf(v->getLocation());
            D.globals.push_back(std::move(o));
        }
        return true;
    }
    bool VisitRecordDecl(RecordDecl* r)
    {
        if (D.isUser(r->getLocation()) && r->isCompleteDefinition() && !r->isDependentContext()) D.record(r);
        return true;
    }
};

struct Consumer : ASTConsumer
{
    void HandleTranslationUnit(ASTContext& c) override
    {
        if (c.getDiagnostics().hasErrorOccurred()) return;
        Dumper d(c);
        Roots r(d);
        r.TraverseDecl(c.getTranslationUnitDecl());
        while (!d.work.empty()) {
            auto* f = d.work.front(); d.work.pop_front();
            d.function(f);
        }
        Object o;
        o["tu"] = TUName;
        o["types"] = std::move(d.types);
        o["records"] = std::move(d.records);
        o["functions"] = std::move(d.functions);
        o["globals"] = std::move(d.globals);
        o["ginits"] = std::move(d.globalInits);
        std::error_code ec;
        llvm::raw_fd_ostream os(OutFile, ec);
        os << Value(std::move(o)) << "\n";
    }
};

struct Action : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); }
};
struct Factory : tooling::FrontendActionFactory
{
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};

} // namespace

int main(int argc, const char** argv)
{
    if (argc < 6) { llvm::errs() << "usage: fdextract OUT TU PREFIXES SOURCE -- FLAGS\n"; return 2; }
    OutFile = argv[1]; TUName = argv[2];
    llvm::SmallVector<StringRef, 4> ps;
    StringRef(argv[3]).split(ps, ':');
    for (auto p : ps) Prefixes.push_back(p.str());
    std::string src = argv[4], err;
    int n = argc - 4;
    auto db = tooling::FixedCompilationDatabase::loadFromCommandLine(n, argv + 4, err);
    if (!db) { llvm::errs() << err << "\n"; return 2; }
    tooling::ClangTool t(*db, {src});
    Factory f;
    return t.run(&f);
}
