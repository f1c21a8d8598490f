// fdbx: dumps the bodies of every function defined in repository files (headers included, template instantiations
// included) as JSON lines.  One line per function / record / dependency.  No judgement is made here: the verifier in
// /verif/engine consumes this.  What the dump drops: comments, macros (already expanded), source ranges beyond line
// numbers, attributes, access specifiers, value-category-only implicit casts, temporaries' lifetime-extension nodes.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/RecordLayout.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <string>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> gRoots;
static std::string gOut;

static std::string strip(std::string s) {
    for (const char* w : {"__cxx11::", "__1::", "_V2::"}) {
        size_t p;
        std::string ww(w);
        while ((p = s.find(ww)) != std::string::npos) s.erase(p, ww.size());
    }
    return s;
}

class Dumper {
    ASTContext& C;
    PrintingPolicy PP;
    std::map<const void*, int> ids_;
    int nextId_ = 1;

public:
    std::map<const void*, int> typeIds;
    std::vector<Value> types;
    std::map<const CXXRecordDecl*, int> recSeen;
    std::vector<const CXXRecordDecl*> recQueue;
    std::set<std::string> enumsSeen;
    std::vector<Value> enums;

    Dumper(ASTContext& c) : C(c), PP(c.getLangOpts()) {
        PP.FullyQualifiedName = true;
        PP.SuppressTagKeyword = true;
        PP.SuppressUnwrittenScope = true;
        PP.PrintCanonicalTypes = true;
        PP.Bool = true;
        PP.TerseOutput = true;
    }

    int id(const Decl* d) {
        d = d->getCanonicalDecl();
        auto it = ids_.find(d);
        if (it != ids_.end()) return it->second;
        return ids_[d] = nextId_++;
    }

    std::string loc(SourceLocation l) {
        SourceManager& sm = C.getSourceManager();
        PresumedLoc p = sm.getPresumedLoc(sm.getExpansionLoc(l));
        if (p.isInvalid()) return "?";
        return std::string(p.getFilename()) + ":" + std::to_string(p.getLine());
    }
    int line(SourceLocation l) {
        SourceManager& sm = C.getSourceManager();
        PresumedLoc p = sm.getPresumedLoc(sm.getExpansionLoc(l));
        return p.isInvalid() ? 0 : (int)p.getLine();
    }

    std::string recName(const RecordDecl* r) {
        if (auto* cr = dyn_cast<CXXRecordDecl>(r)) {
            if (cr->isLambda()) return "lambda#" + std::to_string(id(cr));
        }
        std::string s;
        llvm::raw_string_ostream os(s);
        r->printQualifiedName(os, PP);
        os.flush();
        if (r->isAnonymousStructOrUnion() || !r->getIdentifier()) s += "anon@" + std::to_string(line(r->getLocation()));
        return strip(s);
    }

    int type(QualType qt) {
        qt = qt.getCanonicalType();
        const void* key = qt.getAsOpaquePtr();
        auto it = typeIds.find(key);
        if (it != typeIds.end()) return it->second;
        int tid = types.size();
        typeIds[key] = tid;
        types.push_back(Value(nullptr));
        Object o;
        if (qt.isConstQualified()) o["const"] = true;
        const Type* t = qt.getTypePtr();
        o["s"] = strip(qt.getUnqualifiedType().getAsString(PP));
        if (auto* b = dyn_cast<BuiltinType>(t)) {
            if (b->getKind() == BuiltinType::Bool) o["k"] = "bool";
            else if (b->isInteger()) {
                o["k"] = "int";
                o["bits"] = (int64_t)C.getTypeSize(qt);
                o["signed"] = b->isSignedInteger();
                if (t->isAnyCharacterType()) o["char"] = true;
            }
            else if (b->isFloatingPoint()) o["k"] = "float";
            else if (b->getKind() == BuiltinType::Void) o["k"] = "void";
            else if (b->getKind() == BuiltinType::NullPtr) o["k"] = "nullptr";
            else o["k"] = "other";
        }
        else if (auto* e = dyn_cast<EnumType>(t)) {
            o["k"] = "enum";
            std::string n = strip(e->getDecl()->getQualifiedNameAsString());
            o["name"] = n;
            o["scoped"] = e->getDecl()->isScoped();
            if (e->getDecl()->getDefinition()) {
                o["under"] = type(e->getDecl()->getIntegerType());
                if (enumsSeen.insert(n).second) {
                    Array vals;
                    for (auto* ec : e->getDecl()->getDefinition()->enumerators()) {
                        llvm::SmallString<32> sv;
                        ec->getInitVal().toString(sv, 10);
                        vals.push_back(Array{ec->getNameAsString(), std::string(sv.str())});
                    }
                    enums.push_back(Object{{"enum", n}, {"vals", std::move(vals)}});
                }
            }
        }
        else if (auto* p = dyn_cast<PointerType>(t)) {
            o["k"] = "ptr";
            o["to"] = type(p->getPointeeType());
        }
        else if (auto* r = dyn_cast<ReferenceType>(t)) {
            o["k"] = "ref";
            o["rv"] = isa<RValueReferenceType>(r);
            o["to"] = type(r->getPointeeType());
        }
        else if (auto* a = dyn_cast<ConstantArrayType>(t)) {
            o["k"] = "arr";
            o["of"] = type(a->getElementType());
            o["n"] = (int64_t)a->getSize().getZExtValue();
        }
        else if (auto* a = dyn_cast<clang::ArrayType>(t)) {
            o["k"] = "arr";
            o["of"] = type(a->getElementType());
        }
        else if (auto* r = dyn_cast<RecordType>(t)) {
            o["k"] = "rec";
            o["name"] = recName(r->getDecl());
            if (auto* cr = dyn_cast<CXXRecordDecl>(r->getDecl())) {
                if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(cr)) {
                    Array args;
                    std::function<void(const TemplateArgument&)> addArg = [&](const TemplateArgument& a) {
                        if (a.getKind() == TemplateArgument::Type) args.push_back(type(a.getAsType()));
                        else if (a.getKind() == TemplateArgument::Integral) {
                            llvm::SmallString<32> sv;
                            a.getAsIntegral().toString(sv, 10);
                            args.push_back(Object{{"v", std::string(sv.str())}});
                        }
                        else if (a.getKind() == TemplateArgument::Pack) {
                            for (auto& x : a.pack_elements()) addArg(x);
                        }
                        else args.push_back(Object{{"v", "?"}});
                    };
                    for (auto& a : sp->getTemplateArgs().asArray()) addArg(a);
                    o["args"] = std::move(args);
                }
                if (cr->isLambda()) o["lambda"] = true;
                if (cr->hasDefinition() && recSeen.emplace(cr, tid).second) recQueue.push_back(cr);
            }
        }
        else if (isa<FunctionType>(t)) o["k"] = "fn";
        else o["k"] = "other";
        types[tid] = Value(std::move(o));
        return tid;
    }

    static bool inRoots(const std::string& f) {
        for (auto& r : gRoots) if (f.compare(0, r.size(), r) == 0) return true;
        return false;
    }
    bool inRepo(const Decl* d) {
        SourceManager& sm = C.getSourceManager();
        SourceLocation l = sm.getExpansionLoc(d->getLocation());
        PresumedLoc p = sm.getPresumedLoc(l);
        if (p.isInvalid()) return false;
        return inRoots(p.getFilename());
    }

    void templArgs(const FunctionDecl* f, std::string& s) {
        if (auto* ta = f->getTemplateSpecializationArgs()) {
            s += "<";
            bool first = true;
            for (auto& a : ta->asArray()) {
                if (!first) s += ",";
                first = false;
                std::string x;
                llvm::raw_string_ostream os(x);
                if (a.getKind() == TemplateArgument::Type) {
                    QualType q = a.getAsType().getCanonicalType();
                    if (auto* rd = q->getAsCXXRecordDecl(); rd && rd->isLambda()) os << recName(rd);
                    else q.print(os, PP);
                }
                else a.print(PP, os, true);
                os.flush();
                s += strip(x);
            }
            s += ">";
        }
    }
    std::string qname(const FunctionDecl* f) {
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            std::string n = recName(m->getParent()) + "::";
            if (isa<CXXConstructorDecl>(f)) n += "<ctor>";
            else if (isa<CXXDestructorDecl>(f)) n += "<dtor>";
            else if (isa<CXXConversionDecl>(f)) n += "<conv>";
            else n += f->getNameAsString();
            return strip(n);
        }
        return strip(f->getQualifiedNameAsString());
    }
    std::string fid(const FunctionDecl* f) {
        std::string s = qname(f);
        templArgs(f, s);
        s += "(";
        bool first = true;
        for (auto* p : f->parameters()) {
            if (!first) s += ", ";
            first = false;
            s += strip(p->getType().getCanonicalType().getAsString(PP));
        }
        s += ")";
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->isConst()) s += " const";
        return s;
    }

    Object finfo(const FunctionDecl* f) {
        Object o;
        o["q"] = qname(f);
        o["id"] = fid(f);
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = recName(m->getParent());
            if (m->isVirtual()) o["virtual"] = true;
            if (m->isConst()) o["const"] = true;
            if (m->isStatic()) o["static"] = true;
            if (auto* c = dyn_cast<CXXConstructorDecl>(m)) {
                if (c->isCopyConstructor()) o["ctor"] = "copy";
                else if (c->isMoveConstructor()) o["ctor"] = "move";
                else if (c->isDefaultConstructor()) o["ctor"] = "default";
                else o["ctor"] = "other";
                if (c->isImplicit() || c->isDefaulted()) o["defaulted"] = true;
            }
            if (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator()) {
                o["assign"] = m->isMoveAssignmentOperator() ? "move" : "copy";
                if (m->isImplicit() || m->isDefaulted()) o["defaulted"] = true;
            }
        }
        if (f->isOverloadedOperator()) o["op"] = getOperatorSpelling(f->getOverloadedOperator());
        Array pt;
        for (auto* p : f->parameters()) pt.push_back(type(p->getType()));
        o["pt"] = std::move(pt);
        o["rt"] = type(f->getReturnType());
        if (inRepo(f)) o["repo"] = true;
        return o;
    }

    Value exprOrNull(const Expr* e) { return e ? expr(e) : Value(nullptr); }
    Value stmtOrNull(const Stmt* s) { return s ? stmt(s) : Value(nullptr); }

    Value varDecl(const VarDecl* v) {
        Object o;
        o["id"] = id(v);
        o["name"] = v->getNameAsString();
        o["t"] = type(v->getType());
        if (v->isStaticLocal()) o["static"] = true;
        if (v->hasInit()) o["init"] = expr(v->getInit());
        if (auto* d = dyn_cast<DecompositionDecl>(v)) {
            Array b;
            for (auto* bd : d->bindings()) b.push_back(Object{{"id", id(bd)}, {"name", bd->getNameAsString()}, {"t", type(bd->getType())}});
            o["bind"] = std::move(b);
        }
        return Value(std::move(o));
    }

    Value stmt(const Stmt* s) {
        Object o;
        o["l"] = line(s->getBeginLoc());
        if (auto* x = dyn_cast<CompoundStmt>(s)) {
            Array a;
            for (auto* c : x->body()) a.push_back(stmt(c));
            o["k"] = "Compound";
            o["s"] = std::move(a);
        }
        else if (auto* x = dyn_cast<DeclStmt>(s)) {
            Array a;
            for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
            o["k"] = "Decl";
            o["vars"] = std::move(a);
        }
        else if (auto* x = dyn_cast<IfStmt>(s)) {
            if (x->isConstexpr()) {
                if (auto nd = x->getNondiscardedCase(C)) {
                    if (*nd) return stmt(*nd);
                    o["k"] = "Null";
                    return Value(std::move(o));
                }
            }
            o["k"] = "If";
            if (x->getInit()) o["init"] = stmt(x->getInit());
            if (x->getConditionVariable()) o["var"] = varDecl(x->getConditionVariable());
            o["c"] = expr(x->getCond());
            o["t"] = stmt(x->getThen());
            if (x->getElse()) o["e"] = stmt(x->getElse());
        }
        else if (auto* x = dyn_cast<ForStmt>(s)) {
            o["k"] = "For";
            if (x->getInit()) o["init"] = stmt(x->getInit());
            if (x->getCond()) o["c"] = expr(x->getCond());
            if (x->getInc()) o["inc"] = expr(x->getInc());
            o["body"] = stmt(x->getBody());
        }
        else if (auto* x = dyn_cast<WhileStmt>(s)) {
            o["k"] = "While";
            if (x->getConditionVariable()) o["var"] = varDecl(x->getConditionVariable());
            o["c"] = expr(x->getCond());
            o["body"] = stmt(x->getBody());
        }
        else if (auto* x = dyn_cast<DoStmt>(s)) {
            o["k"] = "Do";
            o["c"] = expr(x->getCond());
            o["body"] = stmt(x->getBody());
        }
        else if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
            o["k"] = "RangeFor";
            o["var"] = varDecl(x->getLoopVariable());
            // drop the init of the loop variable (it dereferences the implicit iterator)
            if (auto* ob = o["var"].getAsObject()) ob->erase("init");
            o["range"] = expr(x->getRangeInit());
            o["body"] = stmt(x->getBody());
        }
        else if (auto* x = dyn_cast<ReturnStmt>(s)) {
            o["k"] = "Return";
            if (x->getRetValue()) o["e"] = expr(x->getRetValue());
        }
        else if (isa<BreakStmt>(s)) o["k"] = "Break";
        else if (isa<ContinueStmt>(s)) o["k"] = "Continue";
        else if (isa<NullStmt>(s)) o["k"] = "Null";
        else if (auto* x = dyn_cast<CXXTryStmt>(s)) {
            o["k"] = "Try";
            o["body"] = stmt(x->getTryBlock());
            Array hs;
            for (unsigned i = 0; i < x->getNumHandlers(); i++) {
                auto* h = x->getHandler(i);
                Object ho;
                if (h->getExceptionDecl()) ho["var"] = varDecl(h->getExceptionDecl());
                ho["body"] = stmt(h->getHandlerBlock());
                hs.push_back(std::move(ho));
            }
            o["handlers"] = std::move(hs);
        }
        else if (auto* x = dyn_cast<SwitchStmt>(s)) {
            o["k"] = "Switch";
            if (x->getInit()) o["init"] = stmt(x->getInit());
            o["c"] = expr(x->getCond());
            o["body"] = stmt(x->getBody());
        }
        else if (auto* x = dyn_cast<CaseStmt>(s)) {
            o["k"] = "Case";
            o["v"] = expr(x->getLHS());
            o["sub"] = stmt(x->getSubStmt());
        }
        else if (auto* x = dyn_cast<DefaultStmt>(s)) {
            o["k"] = "Default";
            o["sub"] = stmt(x->getSubStmt());
        }
        else if (auto* x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
        else if (auto* x = dyn_cast<Expr>(s)) {
            o["k"] = "Expr";
            o["e"] = expr(x);
        }
        else {
            o["k"] = "Unsupported";
            o["what"] = s->getStmtClassName();
        }
        return Value(std::move(o));
    }

    Value ctorArgs(const CXXConstructExpr* x) {
        Array a;
        for (auto* e : x->arguments()) a.push_back(expr(e));
        return Value(std::move(a));
    }

    Value expr(const Expr* e) {
        Object o;
        // transparent nodes
        if (auto* x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
        if (auto* x = dyn_cast<FullExpr>(e)) return expr(x->getSubExpr());
        if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) return expr(x->getSubExpr());
        if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
        if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
        if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
        if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
        if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) {
            o["k"] = "StdInitList";
            o["t"] = type(x->getType());
            o["e"] = expr(x->getSubExpr());
            return Value(std::move(o));
        }
        if (auto* x = dyn_cast<OpaqueValueExpr>(e)) if (x->getSourceExpr()) return expr(x->getSourceExpr());
        if (auto* x = dyn_cast<GenericSelectionExpr>(e)) return expr(x->getResultExpr());
        if (auto* x = dyn_cast<ChooseExpr>(e)) return expr(x->getChosenSubExpr());

        if (auto* x = dyn_cast<CastExpr>(e)) {
            CastKind ck = x->getCastKind();
            bool impl = isa<ImplicitCastExpr>(x);
            switch (ck) {
                case CK_LValueToRValue:
                case CK_NoOp:
                case CK_FunctionToPointerDecay:
                    if (impl) return expr(x->getSubExpr());
                    break;
                case CK_ConstructorConversion:
                case CK_UserDefinedConversion:
                    return expr(x->getSubExpr());
                default: break;
            }
            o["k"] = "Cast";
            o["ck"] = x->getCastKindName();
            if (impl) o["impl"] = true;
            if (isa<CXXDynamicCastExpr>(x)) o["dyn"] = true;
            o["t"] = type(x->getType());
            o["gl"] = x->isGLValue();
            o["e"] = expr(x->getSubExpr());
            o["l"] = line(e->getBeginLoc());
            return Value(std::move(o));
        }
        o["l"] = line(e->getBeginLoc());
        o["t"] = type(e->getType());
        if (auto* x = dyn_cast<IntegerLiteral>(e)) {
            llvm::SmallString<32> sv;
            x->getValue().toString(sv, 10, x->getType()->isSignedIntegerType());
            o["k"] = "Int";
            o["v"] = std::string(sv.str());
        }
        else if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
            o["k"] = "Bool";
            o["v"] = x->getValue();
        }
        else if (auto* x = dyn_cast<CharacterLiteral>(e)) {
            o["k"] = "Int";
            o["v"] = std::to_string((int)x->getValue());
        }
        else if (auto* x = dyn_cast<clang::StringLiteral>(e)) {
            o["k"] = "Str";
            std::string hex;
            static const char* H = "0123456789abcdef";
            bool ok = x->getCharByteWidth() == 1;
            if (ok) {
                bool ascii = true;
                for (unsigned char ch : x->getString()) if (ch >= 128) ascii = false;
                if (ascii) o["v"] = x->getString().str();
                else {
                    for (unsigned char ch : x->getString()) { hex += H[ch >> 4]; hex += H[ch & 15]; }
                    o["hex"] = hex;
                    o["v"] = "hex:" + hex;
                }
            }
        }
        else if (auto* x = dyn_cast<FloatingLiteral>(e)) {
            o["k"] = "Float";
            o["v"] = x->getValueAsApproximateDouble();
        }
        else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) o["k"] = "Null";
        else if (isa<CXXThisExpr>(e)) o["k"] = "This";
        else if (auto* x = dyn_cast<PredefinedExpr>(e)) { o["k"] = "Str"; o["v"] = "__func__"; }
        else if (auto* x = dyn_cast<DeclRefExpr>(e)) {
            const ValueDecl* d = x->getDecl();
            o["k"] = "Ref";
            o["name"] = d->getNameAsString();
            if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
                llvm::SmallString<32> sv;
                ec->getInitVal().toString(sv, 10);
                o["kind"] = "enum";
                o["v"] = std::string(sv.str());
                o["q"] = strip(ec->getQualifiedNameAsString());
            }
            else if (auto* f = dyn_cast<FunctionDecl>(d)) {
                o["kind"] = "func";
                o["f"] = finfo(f);
            }
            else if (auto* v = dyn_cast<VarDecl>(d)) {
                o["id"] = id(v);
                if (v->isLocalVarDeclOrParm() && !v->isStaticLocal()) o["kind"] = isa<ParmVarDecl>(v) ? "param" : "local";
                else {
                    o["kind"] = v->isStaticLocal() ? "static" : "global";
                    o["q"] = strip(v->getQualifiedNameAsString());
                    // compile-time constants
                    if (v->getType().isConstQualified() || v->isConstexpr()) {
                        if (v->getType()->isIntegralOrEnumerationType()) {
                            const VarDecl* def = nullptr;
                            const Expr* init = v->getAnyInitializer(def);
                            Expr::EvalResult r;
                            if (init && !init->isValueDependent() && init->EvaluateAsInt(r, C)) {
                                llvm::SmallString<32> sv;
                                r.Val.getInt().toString(sv, 10);
                                o["const"] = std::string(sv.str());
                            }
                        }
                    }
                    if (!v->getType()->isDependentType()) {
                        const VarDecl* def = nullptr;
                        const Expr* init = v->getAnyInitializer(def);
                        if (init && v->getType().isConstQualified() && inRepo(v)) o["ginit"] = expr(init);
                        else if (init && inRepo(v) && v->isFileVarDecl()) o["ginit"] = expr(init);
                    }
                }
            }
            else if (auto* b = dyn_cast<BindingDecl>(d)) {
                o["kind"] = "bind";
                o["id"] = id(b);
            }
            else o["kind"] = "other";
        }
        else if (auto* x = dyn_cast<MemberExpr>(e)) {
            if (auto* vd = dyn_cast<VarDecl>(x->getMemberDecl())) {
                o["k"] = "Ref";
                o["kind"] = "global";
                o["id"] = id(vd);
                o["name"] = vd->getNameAsString();
                o["q"] = strip(vd->getQualifiedNameAsString());
            }
            else if (auto* ec = dyn_cast<EnumConstantDecl>(x->getMemberDecl())) {
                llvm::SmallString<32> sv;
                ec->getInitVal().toString(sv, 10);
                o["k"] = "Ref"; o["kind"] = "enum"; o["v"] = std::string(sv.str());
                o["q"] = strip(ec->getQualifiedNameAsString());
            }
            else {
                o["k"] = "Member";
                o["base"] = expr(x->getBase());
                o["name"] = x->getMemberDecl()->getNameAsString();
                o["arrow"] = x->isArrow();
                if (auto* fd = dyn_cast<FieldDecl>(x->getMemberDecl())) {
                    o["rec"] = recName(fd->getParent());
                    (void)type(C.getRecordType(fd->getParent()));
                    if (fd->isMutable()) o["mutable"] = true;
                }
                if (auto* md = dyn_cast<CXXMethodDecl>(x->getMemberDecl())) o["f"] = finfo(md);
            }
        }
        else if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
            o["k"] = "OpCall";
            o["op"] = getOperatorSpelling(x->getOperator());
            if (auto* f = x->getDirectCallee()) o["f"] = finfo(f);
            Array a;
            for (auto* c : x->arguments()) a.push_back(expr(c));
            o["args"] = std::move(a);
            o["gl"] = x->isGLValue();
        }
        else if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
            o["k"] = "MCall";
            if (auto* m = x->getMethodDecl()) o["f"] = finfo(m);
            if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
                o["arrow"] = me->isArrow();
                o["qual"] = me->hasQualifier();
                o["obj"] = expr(me->getBase());
                o["ot"] = type(me->getBase()->getType());
            }
            else o["callee"] = expr(x->getCallee());
            Array a;
            for (auto* c : x->arguments()) a.push_back(expr(c));
            o["args"] = std::move(a);
            o["gl"] = x->isGLValue();
        }
        else if (auto* x = dyn_cast<UserDefinedLiteral>(e)) {
            o["k"] = "Call";
            if (auto* f = x->getDirectCallee()) o["f"] = finfo(f);
            Array a;
            for (auto* c : x->arguments()) a.push_back(expr(c));
            o["args"] = std::move(a);
            Expr::EvalResult r;
            if (x->getType()->isIntegralOrEnumerationType() && x->EvaluateAsInt(r, C)) {
                llvm::SmallString<32> sv;
                r.Val.getInt().toString(sv, 10);
                o["k"] = "Int";
                o["v"] = std::string(sv.str());
            }
        }
        else if (auto* x = dyn_cast<CallExpr>(e)) {
            o["k"] = "Call";
            if (auto* f = x->getDirectCallee()) o["f"] = finfo(f);
            else o["callee"] = expr(x->getCallee());
            Array a;
            for (auto* c : x->arguments()) a.push_back(expr(c));
            o["args"] = std::move(a);
            o["gl"] = x->isGLValue();
        }
        else if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
            o["k"] = "Ctor";
            o["f"] = finfo(x->getConstructor());
            o["inherited"] = true;
            o["args"] = Array{};
        }
        else if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
            if (x->isElidable() && x->getNumArgs() == 1) return expr(x->getArg(0));
            o["k"] = "Ctor";
            o["f"] = finfo(x->getConstructor());
            o["args"] = ctorArgs(x);
            if (x->isListInitialization()) o["list"] = true;
            if (x->isStdInitListInitialization()) o["stdlist"] = true;
        }
        else if (auto* x = dyn_cast<CXXScalarValueInitExpr>(e)) o["k"] = "Zero";
        else if (isa<ImplicitValueInitExpr>(e)) o["k"] = "Zero";
        else if (auto* x = dyn_cast<CXXUnresolvedConstructExpr>(e)) o["k"] = "Unsupported";
        else if (auto* x = dyn_cast<UnaryOperator>(e)) {
            o["k"] = "Un";
            o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            o["post"] = x->isPostfix();
            o["e"] = expr(x->getSubExpr());
        }
        else if (auto* x = dyn_cast<CompoundAssignOperator>(e)) {
            o["k"] = "CAssign";
            o["op"] = BinaryOperator::getOpcodeStr(x->getOpcode()).str();
            o["ct"] = type(x->getComputationResultType());
            o["lhs"] = expr(x->getLHS());
            o["r"] = expr(x->getRHS());
        }
        else if (auto* x = dyn_cast<BinaryOperator>(e)) {
            o["k"] = "Bin";
            o["op"] = x->getOpcodeStr().str();
            o["lhs"] = expr(x->getLHS());
            o["r"] = expr(x->getRHS());
        }
        else if (auto* x = dyn_cast<AbstractConditionalOperator>(e)) {
            o["k"] = "Cond";
            o["c"] = expr(x->getCond());
            o["a"] = expr(x->getTrueExpr());
            o["b"] = expr(x->getFalseExpr());
        }
        else if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
            o["k"] = "Index";
            o["b"] = expr(x->getBase());
            o["i"] = expr(x->getIdx());
        }
        else if (auto* x = dyn_cast<LambdaExpr>(e)) {
            o["k"] = "Lambda";
            o["lid"] = id(x->getLambdaClass());
            Array caps;
            auto ini = x->capture_init_begin();
            for (auto& c : x->captures()) {
                Object co;
                if (c.capturesThis()) co["this"] = true;
                else if (c.capturesVariable()) {
                    co["id"] = id(c.getCapturedVar());
                    co["name"] = c.getCapturedVar()->getNameAsString();
                    co["byref"] = c.getCaptureKind() == LCK_ByRef;
                    if (auto* vd = dyn_cast<VarDecl>(c.getCapturedVar()); vd && vd->isInitCapture()) co["init"] = expr(vd->getInit());
                }
                caps.push_back(std::move(co));
                ++ini;
            }
            o["caps"] = std::move(caps);
            auto* m = x->getCallOperator();
            if (x->isGenericLambda()) {
                // emit every instantiation
                Array insts;
                if (auto* ft = m->getDescribedFunctionTemplate()) {
                    for (auto* sp : ft->specializations()) {
                        if (!sp->getBody()) continue;
                        insts.push_back(lambdaBody(cast<CXXMethodDecl>(sp)));
                    }
                }
                o["insts"] = std::move(insts);
            }
            else o["insts"] = Array{lambdaBody(m)};
        }
        else if (auto* x = dyn_cast<CXXNewExpr>(e)) {
            o["k"] = "New";
            o["at"] = type(x->getAllocatedType());
            if (x->isArray()) o["n"] = exprOrNull(x->getArraySize().value_or(nullptr));
            if (x->getInitializer()) o["init"] = expr(x->getInitializer());
            Array pl;
            for (unsigned i = 0; i < x->getNumPlacementArgs(); i++) pl.push_back(expr(x->getPlacementArg(i)));
            if (!pl.empty()) o["place"] = std::move(pl);
        }
        else if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
            o["k"] = "Delete";
            o["e"] = expr(x->getArgument());
        }
        else if (auto* x = dyn_cast<InitListExpr>(e)) {
            if (!x->isSemanticForm() && x->getSemanticForm()) x = x->getSemanticForm();
            if (x->isTransparent() && x->getNumInits() == 1) return expr(x->getInit(0));
            o["k"] = "InitList";
            Array a;
            for (auto* c : x->inits()) a.push_back(expr(c));
            o["e"] = std::move(a);
        }
        else if (auto* x = dyn_cast<ParenListExpr>(e)) {
            o["k"] = "InitList";
            Array a;
            for (unsigned i = 0; i < x->getNumExprs(); i++) a.push_back(expr(x->getExpr(i)));
            o["e"] = std::move(a);
        }
        else if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
            o["k"] = "Throw";
            if (x->getSubExpr()) o["e"] = expr(x->getSubExpr());
        }
        else if (isa<UnaryExprOrTypeTraitExpr>(e) || isa<TypeTraitExpr>(e) || isa<SizeOfPackExpr>(e) || isa<OffsetOfExpr>(e)) {
            Expr::EvalResult r;
            if (!e->isValueDependent() && e->EvaluateAsInt(r, C)) {
                llvm::SmallString<32> sv;
                r.Val.getInt().toString(sv, 10);
                o["k"] = e->getType()->isBooleanType() ? "Bool" : "Int";
                if (e->getType()->isBooleanType()) o["v"] = r.Val.getInt().getBoolValue();
                else o["v"] = std::string(sv.str());
            }
            else o["k"] = "Unsupported";
        }
        else {
            o["k"] = "Unsupported";
            o["what"] = e->getStmtClassName();
        }
        return Value(std::move(o));
    }

    Value lambdaBody(const CXXMethodDecl* m) {
        Object o;
        o["f"] = finfo(m);
        Array ps;
        for (auto* p : m->parameters()) ps.push_back(Object{{"id", id(p)}, {"name", p->getNameAsString()}, {"t", type(p->getType())}});
        o["params"] = std::move(ps);
        o["body"] = stmtOrNull(m->getBody());
        return Value(std::move(o));
    }

    Value function(const FunctionDecl* f) {
        Object o;
        o["f"] = finfo(f);
        o["loc"] = loc(f->getLocation());
        SourceManager& sm = C.getSourceManager();
        o["endl"] = line(f->getBodyRBrace());
        Array ps;
        for (auto* p : f->parameters()) ps.push_back(Object{{"id", id(p)}, {"name", p->getNameAsString()}, {"t", type(p->getType())}});
        o["params"] = std::move(ps);
        if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
            Array is;
            for (auto* i : c->inits()) {
                Object io;
                if (i->isAnyMemberInitializer()) io["field"] = i->getAnyMember()->getNameAsString();
                else if (i->isBaseInitializer()) io["base"] = type(QualType(i->getBaseClass(), 0));
                else if (i->isDelegatingInitializer()) io["delegate"] = true;
                io["written"] = i->isWritten();
                io["e"] = expr(i->getInit());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        }
        o["body"] = stmtOrNull(f->getBody());
        return Value(std::move(o));
    }

    Value record(const CXXRecordDecl* r, int tid) {
        Object o;
        o["rec"] = tid;
        o["name"] = recName(r);
        o["poly"] = r->isPolymorphic();
        o["abstract"] = r->isAbstract();
        if (inRepo(r)) o["repo"] = true;
        Array bs;
        for (auto& b : r->bases()) bs.push_back(type(b.getType()));
        o["bases"] = std::move(bs);
        Array fs;
        for (auto* f : r->fields()) {
            Object fo{{"name", f->getNameAsString()}, {"t", type(f->getType())}};
            if (f->isBitField()) fo["bits"] = (int64_t)f->getBitWidthValue(C);
            if (f->hasInClassInitializer() && f->getInClassInitializer() && inRepo(f)) fo["init"] = expr(f->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        if (auto* d = r; d->isCompleteDefinition() && !d->isInvalidDecl() && !d->isDependentType()) {
            o["size"] = (int64_t)C.getASTRecordLayout(d).getSize().getQuantity();
            Array offs;
            if (inRepo(r)) for (auto* f : r->fields()) offs.push_back((int64_t)(C.getFieldOffset(f) / 8));
            if (!offs.empty()) o["offs"] = std::move(offs);
        }
        // overridden methods, for virtual dispatch on known dynamic types
        if (inRepo(r)) {
            Array vs;
            for (auto* m : r->methods()) {
                if (!m->isVirtual()) continue;
                Object vo{{"id", fid(m)}, {"pure", m->isPureVirtual()}, {"name", m->getNameAsString()}};
                Array ov;
                for (auto* om : m->overridden_methods()) ov.push_back(fid(om));
                vo["over"] = std::move(ov);
                vs.push_back(std::move(vo));
            }
            o["virt"] = std::move(vs);
        }
        return Value(std::move(o));
    }
};

class V : public RecursiveASTVisitor<V> {
public:
    Dumper& D;
    std::vector<const FunctionDecl*> fns;
    std::set<const FunctionDecl*> seen;
    V(Dumper& d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* f) {
        if (!f->isThisDeclarationADefinition() || !f->hasBody()) return true;
        if (f->isDependentContext()) return true;
        if (f->isInvalidDecl()) return true;
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
        if (!D.inRepo(f)) return true;
        if (seen.insert(f).second) fns.push_back(f);
        return true;
    }
};

class Cons : public ASTConsumer {
    CompilerInstance& CI;
public:
    Cons(CompilerInstance& ci) : CI(ci) {}
    void HandleTranslationUnit(ASTContext& C) override {
        Dumper D(C);
        V v(D);
        v.TraverseDecl(C.getTranslationUnitDecl());
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        std::vector<Value> fl;
        for (auto* f : v.fns) fl.push_back(D.function(f));
        std::vector<Value> recs;
        for (size_t i = 0; i < D.recQueue.size(); i++) {
            auto* r = D.recQueue[i];
            if (D.inRepo(r)) recs.push_back(D.record(r, D.recSeen[r]));
            else {
                // foreign records: bases only
                Object o;
                o["rec"] = D.recSeen[r];
                o["name"] = D.recName(r);
                o["poly"] = r->isPolymorphic();
                Array bs;
                for (auto& b : r->bases()) bs.push_back(D.type(b.getType()));
                o["bases"] = std::move(bs);
                recs.push_back(Value(std::move(o)));
            }
        }
        // dependencies inside the repository
        Array deps;
        SourceManager& sm = C.getSourceManager();
        std::set<std::string> ds;
        for (auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it) {
            std::string n = it->first.getName().str();
            if (Dumper::inRoots(n)) ds.insert(n);
        }
        for (auto& s : ds) deps.push_back(s);
        os << Value(Object{{"deps", std::move(deps)}, {"errors", (int64_t)CI.getDiagnostics().hasErrorOccurred()}}) << "\n";
        os << Value(Object{{"types", Array(D.types)}}) << "\n";
        for (auto& e : D.enums) os << e << "\n";
        for (auto& r : recs) os << r << "\n";
        for (auto& f : fl) os << f << "\n";
    }
};

class Act : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override {
        CI.getDiagnostics().setSuppressAllDiagnostics(false);
        return std::make_unique<Cons>(CI);
    }
};

int main(int argc, const char** argv) {
    // fdbx OUT ROOT[,ROOT...] SRC -- flags
    if (argc < 5) return 2;
    gOut = argv[1];
    std::string roots = argv[2];
    size_t p = 0;
    while (p != std::string::npos) {
        size_t q = roots.find(',', p);
        gRoots.push_back(roots.substr(p, q == std::string::npos ? q : q - p));
        p = q == std::string::npos ? q : q + 1;
    }
    std::string src = argv[3];
    std::vector<std::string> flags;
    for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {src});
    int rc = tool.run(tooling::newFrontendActionFactory<Act>().get());
    return rc;
}
