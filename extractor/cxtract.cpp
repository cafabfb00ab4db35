// cxtract: mechanical extraction of the real function bodies of /repo (as clang sees them, templates instantiated)
// into a JSON IR that the verifier (verif/cxv) executes symbolically.  Nothing is rewritten by hand.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/ExprConcepts.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CommonOptionsParser.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::string g_root = "/repo/include/";
static std::string g_out;

struct Ex
{
    ASTContext & C;
    SourceManager & SM;
    PrintingPolicy PP;
    std::map<void const *, int> ids;
    std::vector<FunctionDecl const *> work;
    std::set<void const *> queued;
    std::map<int, json::Value> records;
    std::set<void const *> recSeen;
    json::Object globals;
    std::set<void const *> globSeen;

    Ex(ASTContext & c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts())
    {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.PrintCanonicalTypes = true;
        PP.SuppressDefaultTemplateArgs = true;
        PP.SuppressInlineNamespace = true;
        PP.AnonymousTagLocations = true;
        PP.TerseOutput = true;
    }

    int id(void const * p)
    {
        auto it = ids.find(p);
        if (it != ids.end())
            return it->second;
        int n = (int)ids.size() + 1;
        ids[p] = n;
        return n;
    }

    static void rep(std::string & s, std::string const & a, std::string const & b)
    {
        for (size_t p = 0; (p = s.find(a, p)) != std::string::npos;)
        {
            s.replace(p, a.size(), b);
            p += b.size();
        }
    }

    static std::string fixu(std::string s)
    {
        if (json::isUTF8(s))
            return s;
        return json::fixUTF8(s);
    }

    std::string shorten(std::string s)
    {
        rep(s, "std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string");
        rep(s, "std::basic_string<char, std::char_traits<char>, std::allocator<char> >", "std::string");
        rep(s, "std::basic_string<char>", "std::string");
        rep(s, "std::basic_string_view<char, std::char_traits<char>>", "std::string_view");
        rep(s, "std::basic_string_view<char>", "std::string_view");
        return s;
    }

    std::string ty(QualType t)
    {
        if (t.isNull())
            return "?";
        return fixu(shorten(t.getCanonicalType().getAsString(PP)));
    }

    std::string qn(NamedDecl const * d)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, PP);
        os.flush();
        return fixu(shorten(s));
    }

    std::string fileOf(SourceLocation l)
    {
        l = SM.getExpansionLoc(l);
        auto p = SM.getPresumedLoc(l);
        return p.isValid() ? std::string(p.getFilename()) : std::string();
    }
    int lineOf(SourceLocation l)
    {
        l = SM.getExpansionLoc(l);
        auto p = SM.getPresumedLoc(l);
        return p.isValid() ? (int)p.getLine() : 0;
    }

    bool inRepo(Decl const * d)
    {
        std::string f = fileOf(d->getLocation());
        if (f.rfind(g_root, 0) == 0)
            return true;
        llvm::SmallString<256> rp;
        if (!f.empty() && !llvm::sys::fs::real_path(f, rp))
            return std::string(rp.str()).rfind(g_root, 0) == 0;
        return false;
    }
    bool inMainOrRepo(Decl const * d)
    {
        return inRepo(d) || SM.isInMainFile(SM.getExpansionLoc(d->getLocation()));
    }

    void enqueue(FunctionDecl const * f)
    {
        if (!f)
            return;
        FunctionDecl const * def = nullptr;
        if (!f->hasBody(def) || !def)
        {
            if (auto * p = f->getTemplateInstantiationPattern())
                (void)p;
            return;
        }
        if (def->isDependentContext())
            return;
        if (!inMainOrRepo(def))
            return;
        if (queued.insert(def->getCanonicalDecl()).second)
            work.push_back(def);
    }

    json::Value callee(FunctionDecl const * f)
    {
        json::Object o;
        if (!f)
            return nullptr;
        o["id"] = id(f->getCanonicalDecl());
        o["q"] = qn(f);
        o["name"] = fixu(f->getNameAsString());
        o["ret"] = ty(f->getReturnType());
        json::Array ps;
        for (auto * p : f->parameters())
            ps.push_back(ty(p->getType()));
        o["params"] = std::move(ps);
        if (auto * m = dyn_cast<CXXMethodDecl>(f))
        {
            o["method"] = true;
            o["static"] = m->isStatic();
            o["virtual"] = m->isVirtual();
            o["const"] = m->isConst();
            o["cls"] = ty(C.getRecordType(m->getParent()));
            if (m->getParent()->isLambda())
                o["lambda"] = true;
        }
        if (auto * ta = f->getTemplateSpecializationArgs())
        {
            json::Array ts;
            for (unsigned i = 0; i < ta->size(); ++i)
            {
                std::string s;
                llvm::raw_string_ostream os(s);
                ta->get(i).print(PP, os, true);
                os.flush();
                ts.push_back(fixu(shorten(s)));
            }
            o["targs"] = std::move(ts);
        }
        if (isa<CXXConstructorDecl>(f))
            o["ctor"] = true;
        FunctionDecl const * def = nullptr;
        if (f->hasBody(def) && def && inMainOrRepo(def))
            o["body"] = true;
        if (f->isDefaulted())
            o["defaulted"] = true;
        enqueue(f);
        return json::Value(std::move(o));
    }

    void record(CXXRecordDecl const * r)
    {
        if (!r || !r->getDefinition())
            return;
        r = r->getDefinition();
        if (!inMainOrRepo(r) || r->isDependentContext())
            return;
        if (!recSeen.insert(r->getCanonicalDecl()).second)
            return;
        json::Object o;
        o["name"] = ty(C.getRecordType(r));
        json::Array fs;
        for (auto * f : r->fields())
        {
            json::Object fo;
            fo["name"] = f->getNameAsString();
            fo["type"] = ty(f->getType());
            if (f->hasInClassInitializer() && f->getInClassInitializer() && !r->isLambda())
                fo["init"] = expr(f->getInClassInitializer());
            fs.push_back(std::move(fo));
            if (auto * rr = f->getType().getNonReferenceType()->getAsCXXRecordDecl())
                record(rr);
        }
        o["fields"] = std::move(fs);
        json::Array bs;
        for (auto & b : r->bases())
        {
            bs.push_back(ty(b.getType()));
            if (auto * br = b.getType()->getAsCXXRecordDecl())
                record(br);
        }
        o["bases"] = std::move(bs);
        o["lambda"] = r->isLambda();
        o["trivialdefault"] = r->hasTrivialDefaultConstructor();
        records.emplace(id(r->getCanonicalDecl()), std::move(o));
    }

    void global(VarDecl const * v)
    {
        if (!inMainOrRepo(v))
            return;
        if (!globSeen.insert(v->getCanonicalDecl()).second)
            return;
        VarDecl const * d = nullptr;
        Expr const * in = v->getAnyInitializer(d);
        json::Object o;
        o["type"] = ty(v->getType());
        o["id"] = id(v->getCanonicalDecl());
        if (in && !in->isValueDependent())
            o["init"] = expr(in);
        globals[qn(v)] = std::move(o);
    }

    json::Value loc(SourceLocation l)
    {
        return lineOf(l);
    }

    json::Object node(char const * k, Expr const * e)
    {
        json::Object o;
        o["k"] = k;
        o["t"] = ty(e->getType());
        o["l"] = lineOf(e->getBeginLoc());
        if (e->isLValue())
            o["lv"] = true;
        return o;
    }

    json::Array exprs(llvm::ArrayRef<Expr *> es)
    {
        json::Array a;
        for (auto * e : es)
            a.push_back(expr(e));
        return a;
    }

    void constval(json::Object & o, Expr const * e)
    {
        if (e->isValueDependent() || e->getType().isNull())
            return;
        QualType t = e->getType();
        if (!(t->isIntegralOrEnumerationType()))
            return;
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects))
            if (r.Val.isInt())
            {
                llvm::SmallString<32> s;
                r.Val.getInt().toString(s, 10);
                o["cv"] = std::string(s.str());
            }
    }

    json::Value expr(Expr const * e)
    {
        if (!e)
            return nullptr;
        if (auto * p = dyn_cast<ParenExpr>(e))
            return expr(p->getSubExpr());
        if (auto * p = dyn_cast<ExprWithCleanups>(e))
            return expr(p->getSubExpr());
        if (auto * p = dyn_cast<MaterializeTemporaryExpr>(e))
        {
            auto o = node("mat", e);
            o["sub"] = expr(p->getSubExpr());
            return o;
        }
        if (auto * p = dyn_cast<CXXBindTemporaryExpr>(e))
            return expr(p->getSubExpr());
        if (auto * p = dyn_cast<ConstantExpr>(e))
            return expr(p->getSubExpr());
        if (auto * p = dyn_cast<FullExpr>(e))
            return expr(p->getSubExpr());
        if (auto * p = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
            return expr(p->getReplacement());
        if (auto * p = dyn_cast<CXXDefaultArgExpr>(e))
            return expr(p->getExpr());
        if (auto * p = dyn_cast<CXXDefaultInitExpr>(e))
            return expr(p->getExpr());
        if (auto * p = dyn_cast<OpaqueValueExpr>(e))
            return expr(p->getSourceExpr());
        if (auto * p = dyn_cast<CXXRewrittenBinaryOperator>(e))
            return expr(p->getSemanticForm());

        if (auto * p = dyn_cast<IntegerLiteral>(e))
        {
            auto o = node("int", e);
            llvm::SmallString<32> s;
            p->getValue().toString(s, 10, e->getType()->isSignedIntegerType());
            o["v"] = std::string(s.str());
            return o;
        }
        if (auto * p = dyn_cast<CharacterLiteral>(e))
        {
            auto o = node("char", e);
            o["v"] = (int)p->getValue();
            return o;
        }
        if (auto * p = dyn_cast<CXXBoolLiteralExpr>(e))
        {
            auto o = node("bool", e);
            o["v"] = p->getValue();
            return o;
        }
        if (auto * p = dyn_cast<clang::StringLiteral>(e))
        {
            auto o = node("str", e);
            json::Array bytes;
            for (unsigned i = 0; i < p->getLength(); ++i)
                bytes.push_back((int)p->getCodeUnit(i));
            o["v"] = std::move(bytes);
            return o;
        }
        if (auto * p = dyn_cast<FloatingLiteral>(e))
        {
            auto o = node("float", e);
            llvm::SmallString<32> s;
            p->getValue().toString(s);
            o["v"] = std::string(s.str());
            return o;
        }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e))
            return node("null", e);
        if (isa<CXXThisExpr>(e))
            return node("this", e);
        if (auto * p = dyn_cast<DeclRefExpr>(e))
        {
            auto o = node("ref", e);
            ValueDecl const * d = p->getDecl();
            o["name"] = fixu(d->getNameAsString());
            o["id"] = id(d->getCanonicalDecl());
            if (isa<EnumConstantDecl>(d))
            {
                o["kind"] = "enumconst";
                o["q"] = qn(d);
                llvm::SmallString<32> s;
                cast<EnumConstantDecl>(d)->getInitVal().toString(s, 10);
                o["v"] = std::string(s.str());
            }
            else if (auto * f = dyn_cast<FunctionDecl>(d))
            {
                o["kind"] = "func";
                o["f"] = callee(f);
            }
            else if (auto * v = dyn_cast<VarDecl>(d))
            {
                if (isa<ParmVarDecl>(v))
                    o["kind"] = "param";
                else if (v->hasGlobalStorage() && !v->isStaticLocal())
                {
                    o["kind"] = "global";
                    o["q"] = qn(v);
                    if (auto * sp = dyn_cast<VarTemplateSpecializationDecl>(v))
                        for (auto const & a : sp->getTemplateArgs().asArray())
                            if (a.getKind() == TemplateArgument::Type)
                                o["targ"] = ty(a.getAsType());
                    global(v);
                    constval(o, e);
                }
                else
                {
                    o["kind"] = "var";
                    if (v->isStaticLocal() || v->isConstexpr())
                        constval(o, e);
                }
            }
            else if (isa<BindingDecl>(d))
                o["kind"] = "binding";
            else
                o["kind"] = "other";
            return o;
        }
        if (auto * p = dyn_cast<MemberExpr>(e))
        {
            auto o = node("member", e);
            o["name"] = fixu(p->getMemberDecl()->getNameAsString());
            o["q"] = qn(p->getMemberDecl());
            o["arrow"] = p->isArrow();
            if (auto * v = dyn_cast<VarDecl>(p->getMemberDecl()))
            {
                o["static"] = true;
                global(v);
                constval(o, e);
            }
            o["base"] = expr(p->getBase());
            return o;
        }
        if (auto * p = dyn_cast<CXXMemberCallExpr>(e))
        {
            auto o = node("mcall", e);
            o["callee"] = callee(p->getMethodDecl());
            o["obj"] = expr(p->getImplicitObjectArgument());
            if (auto * me = dyn_cast<MemberExpr>(p->getCallee()->IgnoreParens()))
            {
                o["arrow"] = me->isArrow();
                o["qualified"] = me->hasQualifier();
            }
            o["args"] = exprs(llvm::ArrayRef<Expr *>(const_cast<Expr **>(p->getArgs()), p->getNumArgs()));
            constval(o, e);
            return o;
        }
        if (auto * p = dyn_cast<CXXOperatorCallExpr>(e))
        {
            auto o = node("opcall", e);
            o["op"] = getOperatorSpelling(p->getOperator());
            o["callee"] = callee(p->getDirectCallee());
            o["args"] = exprs(llvm::ArrayRef<Expr *>(const_cast<Expr **>(p->getArgs()), p->getNumArgs()));
            return o;
        }
        if (auto * p = dyn_cast<UserDefinedLiteral>(e))
        {
            auto o = node("call", e);
            o["callee"] = callee(p->getDirectCallee());
            o["args"] = exprs(llvm::ArrayRef<Expr *>(const_cast<Expr **>(p->getArgs()), p->getNumArgs()));
            return o;
        }
        if (auto * p = dyn_cast<CallExpr>(e))
        {
            auto o = node("call", e);
            if (p->getDirectCallee())
                o["callee"] = callee(p->getDirectCallee());
            else
                o["fn"] = expr(p->getCallee());
            o["args"] = exprs(llvm::ArrayRef<Expr *>(const_cast<Expr **>(p->getArgs()), p->getNumArgs()));
            constval(o, e);
            return o;
        }
        if (auto * p = dyn_cast<CXXConstructExpr>(e))
        {
            auto o = node("construct", e);
            o["callee"] = callee(p->getConstructor());
            o["elidable"] = p->isElidable();
            o["list"] = p->isListInitialization();
            o["copy"] = p->getConstructor()->isCopyConstructor();
            o["move"] = p->getConstructor()->isMoveConstructor();
            o["args"] = exprs(llvm::ArrayRef<Expr *>(const_cast<Expr **>(p->getArgs()), p->getNumArgs()));
            if (auto * r = p->getConstructor()->getParent())
                record(r);
            return o;
        }
        if (auto * p = dyn_cast<CXXInheritedCtorInitExpr>(e))
        {
            auto o = node("unsupported", e);
            o["cls"] = "CXXInheritedCtorInitExpr";
            return o;
        }
        if (auto * p = dyn_cast<CXXStdInitializerListExpr>(e))
        {
            auto o = node("stdinitlist", e);
            o["sub"] = expr(p->getSubExpr());
            return o;
        }
        if (auto * p = dyn_cast<InitListExpr>(e))
        {
            InitListExpr const * s = p->isSemanticForm() ? p : p->getSemanticForm();
            if (!s)
                s = p;
            auto o = node("initlist", e);
            o["args"] = exprs(llvm::ArrayRef<Expr *>(const_cast<Expr **>(s->getInits()), s->getNumInits()));
            if (auto * r = e->getType()->getAsCXXRecordDecl())
                record(r);
            return o;
        }
        if (auto * p = dyn_cast<CXXParenListInitExpr>(e))
        {
            auto o = node("initlist", e);
            json::Array a;
            for (auto * x : p->getInitExprs())
                a.push_back(expr(x));
            o["args"] = std::move(a);
            return o;
        }
        if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e))
            return node("valueinit", e);
        if (auto * p = dyn_cast<CastExpr>(e))
        {
            switch (p->getCastKind())
            {
            case CK_NoOp:
            case CK_ConstructorConversion:
            case CK_UserDefinedConversion:
            case CK_FunctionToPointerDecay:
            case CK_BuiltinFnToFnPtr:
                return expr(p->getSubExpr());
            default: break;
            }
            auto o = node("cast", e);
            o["ck"] = p->getCastKindName();
            o["from"] = ty(p->getSubExpr()->getType());
            o["sub"] = expr(p->getSubExpr());
            if (p->getCastKind() != CK_LValueToRValue)
                constval(o, e);
            return o;
        }
        if (auto * p = dyn_cast<UnaryOperator>(e))
        {
            auto o = node("unop", e);
            o["op"] = UnaryOperator::getOpcodeStr(p->getOpcode()).str();
            o["post"] = p->isPostfix();
            o["sub"] = expr(p->getSubExpr());
            return o;
        }
        if (auto * p = dyn_cast<BinaryOperator>(e))
        {
            auto o = node("binop", e);
            o["op"] = p->getOpcodeStr().str();
            o["a"] = expr(p->getLHS());
            o["b"] = expr(p->getRHS());
            if (auto * ca = dyn_cast<CompoundAssignOperator>(p))
                o["ct"] = ty(ca->getComputationResultType());
            return o;
        }
        if (auto * p = dyn_cast<ConditionalOperator>(e))
        {
            auto o = node("cond", e);
            o["c"] = expr(p->getCond());
            o["a"] = expr(p->getTrueExpr());
            o["b"] = expr(p->getFalseExpr());
            return o;
        }
        if (auto * p = dyn_cast<ArraySubscriptExpr>(e))
        {
            auto o = node("index", e);
            o["a"] = expr(p->getBase());
            o["b"] = expr(p->getIdx());
            return o;
        }
        if (auto * p = dyn_cast<LambdaExpr>(e))
        {
            auto o = node("lambda", e);
            json::Array caps;
            auto init = p->capture_init_begin();
            for (auto & c : p->captures())
            {
                json::Object co;
                if (c.capturesThis())
                {
                    co["kind"] = c.getCaptureKind() == LCK_StarThis ? "starthis" : "this";
                }
                else if (c.capturesVariable())
                {
                    co["kind"] = c.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
                    co["name"] = fixu(c.getCapturedVar()->getNameAsString());
                    co["id"] = id(c.getCapturedVar()->getCanonicalDecl());
                    co["initcap"] = cast<VarDecl>(c.getCapturedVar())->isInitCapture();
                    co["init"] = expr(*init);
                    co["type"] = ty(c.getCapturedVar()->getType());
                }
                caps.push_back(std::move(co));
                ++init;
            }
            o["caps"] = std::move(caps);
            auto * op = p->getCallOperator();
            o["mutable"] = p->isMutable();
            json::Array insts;
            if (auto * ft = p->getLambdaClass()->getDependentLambdaCallOperator())
            {
                for (auto * s : ft->specializations())
                    if (s->hasBody())
                    {
                        insts.push_back(id(s->getCanonicalDecl()));
                        enqueue(s);
                    }
            }
            else if (op)
            {
                insts.push_back(id(op->getCanonicalDecl()));
                if (queued.insert(op->getCanonicalDecl()).second)
                    work.push_back(op);
            }
            o["insts"] = std::move(insts);
            o["cls"] = id(p->getLambdaClass()->getCanonicalDecl());
            return o;
        }
        if (auto * p = dyn_cast<CXXThrowExpr>(e))
        {
            auto o = node("throw", e);
            o["sub"] = expr(p->getSubExpr());
            if (p->getSubExpr())
                o["et"] = ty(p->getSubExpr()->getType().getUnqualifiedType());
            return o;
        }
        if (auto * p = dyn_cast<UnaryExprOrTypeTraitExpr>(e))
        {
            auto o = node("const", e);
            constval(o, e);
            return o;
        }
        if (isa<ConceptSpecializationExpr>(e) || isa<RequiresExpr>(e) || isa<TypeTraitExpr>(e) || isa<CXXNoexceptExpr>(e))
        {
            auto o = node("const", e);
            constval(o, e);
            return o;
        }
        if (auto * p = dyn_cast<CXXNewExpr>(e))
        {
            auto o = node("new", e);
            o["init"] = expr(const_cast<CXXNewExpr *>(p)->getInitializer());
            return o;
        }
        if (auto * p = dyn_cast<CXXTypeidExpr>(e))
        {
            auto o = node("typeid", e);
            return o;
        }
        if (isa<PredefinedExpr>(e))
        {
            auto o = node("str", e);
            o["v"] = json::Array{};
            return o;
        }
        if (auto * p = dyn_cast<SourceLocExpr>(e))
        {
            auto o = node("const", e);
            constval(o, e);
            return o;
        }
        auto o = node("unsupported", e);
        o["cls"] = e->getStmtClassName();
        return o;
    }

    json::Value var(VarDecl const * v)
    {
        json::Object o;
        o["id"] = id(v->getCanonicalDecl());
        o["name"] = fixu(v->getNameAsString());
        o["type"] = ty(v->getType());
        o["l"] = lineOf(v->getLocation());
        o["static"] = v->isStaticLocal();
        if (v->getInit())
            o["init"] = expr(v->getInit());
        if (auto * r = v->getType().getNonReferenceType()->getAsCXXRecordDecl())
            record(r);
        if (auto * d = dyn_cast<DecompositionDecl>(v))
        {
            json::Array bs;
            for (auto * b : d->bindings())
            {
                json::Object bo;
                bo["id"] = id(b->getCanonicalDecl());
                bo["name"] = b->getNameAsString();
                bo["type"] = ty(b->getType());
                if (b->getHoldingVar())
                    bo["holding"] = true;
                bs.push_back(std::move(bo));
            }
            o["bindings"] = std::move(bs);
        }
        return o;
    }

    json::Object snode(char const * k, Stmt const * s)
    {
        json::Object o;
        o["k"] = k;
        o["l"] = lineOf(s->getBeginLoc());
        return o;
    }

    json::Value stmt(Stmt const * s)
    {
        if (!s)
            return nullptr;
        if (auto * e = dyn_cast<Expr>(s))
        {
            auto o = snode("expr", s);
            o["e"] = expr(e);
            return o;
        }
        if (auto * c = dyn_cast<CompoundStmt>(s))
        {
            auto o = snode("block", s);
            json::Array a;
            for (auto * x : c->body())
                a.push_back(stmt(x));
            o["b"] = std::move(a);
            return o;
        }
        if (auto * d = dyn_cast<DeclStmt>(s))
        {
            auto o = snode("decl", s);
            json::Array a;
            for (auto * x : d->decls())
                if (auto * v = dyn_cast<VarDecl>(x))
                    a.push_back(var(v));
            o["vars"] = std::move(a);
            return o;
        }
        if (auto * i = dyn_cast<IfStmt>(s))
        {
            auto o = snode("if", s);
            o["constexpr"] = i->isConstexpr();
            if (i->getInit())
                o["init"] = stmt(i->getInit());
            if (i->getConditionVariable())
                o["cvar"] = var(i->getConditionVariable());
            o["c"] = expr(i->getCond());
            if (i->isConstexpr() && !i->getCond()->isValueDependent())
            {
                json::Object t;
                constval(t, i->getCond());
                if (auto v = t.getString("cv"))
                    o["cv"] = v->str();
            }
            o["a"] = stmt(i->getThen());
            o["b"] = stmt(i->getElse());
            return o;
        }
        if (auto * w = dyn_cast<WhileStmt>(s))
        {
            auto o = snode("while", s);
            if (w->getConditionVariable())
                o["cvar"] = var(w->getConditionVariable());
            o["c"] = expr(w->getCond());
            o["b"] = stmt(w->getBody());
            return o;
        }
        if (auto * w = dyn_cast<DoStmt>(s))
        {
            auto o = snode("do", s);
            o["c"] = expr(w->getCond());
            o["b"] = stmt(w->getBody());
            return o;
        }
        if (auto * f = dyn_cast<ForStmt>(s))
        {
            auto o = snode("for", s);
            o["init"] = stmt(f->getInit());
            if (f->getConditionVariable())
                o["cvar"] = var(f->getConditionVariable());
            o["c"] = expr(f->getCond());
            o["inc"] = expr(f->getInc());
            o["b"] = stmt(f->getBody());
            return o;
        }
        if (auto * f = dyn_cast<CXXForRangeStmt>(s))
        {
            auto o = snode("forrange", s);
            if (f->getInit())
                o["init"] = stmt(f->getInit());
            o["range"] = expr(f->getRangeInit());
            o["rt"] = ty(f->getRangeInit()->getType());
            auto v = var(f->getLoopVariable());
            o["var"] = std::move(v);
            o["b"] = stmt(f->getBody());
            return o;
        }
        if (auto * r = dyn_cast<ReturnStmt>(s))
        {
            auto o = snode("return", s);
            o["e"] = expr(r->getRetValue());
            return o;
        }
        if (isa<BreakStmt>(s))
            return snode("break", s);
        if (isa<ContinueStmt>(s))
            return snode("continue", s);
        if (isa<NullStmt>(s))
            return snode("null", s);
        if (auto * t = dyn_cast<CXXTryStmt>(s))
        {
            auto o = snode("try", s);
            o["b"] = stmt(t->getTryBlock());
            json::Array hs;
            for (unsigned i = 0; i < t->getNumHandlers(); ++i)
            {
                auto * h = t->getHandler(i);
                json::Object ho;
                ho["type"] = h->getExceptionDecl() ? json::Value(ty(h->getCaughtType().getNonReferenceType().getUnqualifiedType())) : json::Value(nullptr);
                if (h->getExceptionDecl())
                    ho["var"] = id(h->getExceptionDecl()->getCanonicalDecl());
                ho["b"] = stmt(h->getHandlerBlock());
                hs.push_back(std::move(ho));
            }
            o["handlers"] = std::move(hs);
            return o;
        }
        if (auto * sw = dyn_cast<SwitchStmt>(s))
        {
            auto o = snode("switch", s);
            if (sw->getInit())
                o["init"] = stmt(sw->getInit());
            o["c"] = expr(sw->getCond());
            o["b"] = stmt(sw->getBody());
            return o;
        }
        if (auto * c = dyn_cast<CaseStmt>(s))
        {
            auto o = snode("case", s);
            o["v"] = expr(c->getLHS());
            json::Object t;
            constval(t, c->getLHS());
            if (auto v = t.getString("cv"))
                o["cv"] = v->str();
            o["b"] = stmt(c->getSubStmt());
            return o;
        }
        if (auto * c = dyn_cast<DefaultStmt>(s))
        {
            auto o = snode("default", s);
            o["b"] = stmt(c->getSubStmt());
            return o;
        }
        if (auto * a = dyn_cast<AttributedStmt>(s))
            return stmt(a->getSubStmt());
        auto o = snode("unsupported", s);
        o["cls"] = s->getStmtClassName();
        return o;
    }

    json::Value function(FunctionDecl const * f)
    {
        json::Object o;
        o["id"] = id(f->getCanonicalDecl());
        o["decl"] = callee(f);
        o["q"] = qn(f);
        o["file"] = fileOf(f->getLocation());
        o["line"] = lineOf(f->getLocation());
        o["endline"] = lineOf(f->getEndLoc());
        json::Array ps;
        for (auto * p : f->parameters())
        {
            json::Object po;
            po["id"] = id(p->getCanonicalDecl());
            // canonical decl of a parameter may live on another redeclaration
            po["name"] = fixu(p->getNameAsString());
            po["type"] = ty(p->getType());
            ps.push_back(std::move(po));
            if (auto * r = p->getType().getNonReferenceType()->getAsCXXRecordDecl())
                record(r);
        }
        o["params"] = std::move(ps);
        if (auto * ta = f->getTemplateSpecializationArgs())
        {
            json::Array ts;
            for (unsigned i = 0; i < ta->size(); ++i)
            {
                std::string s;
                llvm::raw_string_ostream os(s);
                ta->get(i).print(PP, os, true);
                os.flush();
                ts.push_back(fixu(shorten(s)));
            }
            o["targs"] = std::move(ts);
        }
        o["ret"] = ty(f->getReturnType());
        if (auto * m = dyn_cast<CXXMethodDecl>(f); m && m->isStatic())
            o["static"] = true;
        o["noexcept"] = f->getExceptionSpecType() == EST_BasicNoexcept || f->getExceptionSpecType() == EST_NoexceptTrue;
        if (auto * m = dyn_cast<CXXMethodDecl>(f))
        {
            o["cls"] = ty(C.getRecordType(m->getParent()));
            o["clsid"] = id(m->getParent()->getCanonicalDecl());
            record(m->getParent());
            json::Array ov;
            for (auto * x : m->overridden_methods())
                ov.push_back(id(x->getCanonicalDecl()));
            o["overrides"] = std::move(ov);
        }
        if (auto * c = dyn_cast<CXXConstructorDecl>(f))
        {
            json::Array in;
            for (auto * i : c->inits())
            {
                json::Object io;
                if (i->isAnyMemberInitializer())
                {
                    io["field"] = i->getAnyMember()->getNameAsString();
                    io["ft"] = ty(i->getAnyMember()->getType());
                }
                else if (i->isBaseInitializer())
                    io["base"] = ty(QualType(i->getBaseClass(), 0));
                else
                    io["deleg"] = true;
                io["init"] = expr(i->getInit());
                in.push_back(std::move(io));
            }
            o["inits"] = std::move(in);
        }
        o["body"] = stmt(f->getBody());
        return o;
    }
};

struct V : RecursiveASTVisitor<V>
{
    Ex & X;
    V(Ex & x) : X(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl * f)
    {
        if (f->isThisDeclarationADefinition() && !f->isDependentContext() && X.inRepo(f))
        {
            if (auto * m = dyn_cast<CXXMethodDecl>(f); m && m->getParent()->isLambda())
                return true;
            X.enqueue(f);
        }
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl * r)
    {
        if (r->isThisDeclarationADefinition() && !r->isDependentContext() && X.inRepo(r) && !r->isLambda())
            X.record(r);
        return true;
    }
};

struct Cons : ASTConsumer
{
    void HandleTranslationUnit(ASTContext & C) override
    {
        if (C.getDiagnostics().hasErrorOccurred())
            return;
        Ex X(C);
        V v(X);
        v.TraverseDecl(C.getTranslationUnitDecl());
        json::Array fs;
        for (size_t i = 0; i < X.work.size(); ++i)
            fs.push_back(X.function(X.work[i]));
        json::Object o;
        o["functions"] = std::move(fs);
        json::Array rs;
        for (auto & [k, r] : X.records)
        {
            (*r.getAsObject())["id"] = k;
            rs.push_back(std::move(r));
        }
        o["records"] = std::move(rs);
        o["globals"] = std::move(X.globals);
        std::error_code ec;
        llvm::raw_fd_ostream os(g_out, ec);
        os << json::Value(std::move(o));
    }
};

struct Act : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override
    {
        return std::make_unique<Cons>();
    }
};

// usage: cxtract ROOT OUT.json FILE -- flags...
int main(int argc, char ** argv)
{
    if (argc < 5)
        return 2;
    g_root = argv[1];
    g_out = argv[2];
    std::string file = argv[3];
    std::vector<std::string> flags;
    for (int i = 5; i < argc; ++i)
        flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {file});
    return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
