// Dumps the resolved bodies of every function defined in one C translation
// unit (after type checking by clang) as compact JSON, one object per line.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/RecordLayout.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string OutPath;

namespace {
class Dumper {
  ASTContext &C;
  llvm::raw_ostream &OS;
  const SourceManager &SM;

public:
  Dumper(ASTContext &C, llvm::raw_ostream &OS)
      : C(C), OS(OS), SM(C.getSourceManager()) {}

  Value loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return Value("?:0");
    llvm::StringRef F = P.getFilename();
    size_t p = F.rfind('/');
    if (p != llvm::StringRef::npos) F = F.substr(p + 1);
    return Value((F + ":" + llvm::Twine(P.getLine())).str());
  }
  std::string ty(QualType T) {
    return T.getCanonicalType().getUnqualifiedType().getAsString();
  }
  Value var(const ValueDecl *D) {
    if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->isLocalVarDeclOrParm() && !V->isStaticLocal() && !V->hasExternalStorage()) {
        return Array{"v", D->getNameAsString(),
                     (int64_t)(D->getID() & 0x7fffffff), ty(D->getType())};
      }
      std::string n = D->getNameAsString();
      if (V->isStaticLocal()) {
        auto *F = dyn_cast<FunctionDecl>(V->getDeclContext());
        n = (F ? F->getNameAsString() : "?") + "." + n;
      }
      return Array{"g", n, 0, ty(D->getType())};
    }
    if (isa<FunctionDecl>(D)) return Array{"f", D->getNameAsString()};
    if (auto *E = dyn_cast<EnumConstantDecl>(D)) {
      std::string en;
      if (auto *ED = dyn_cast<EnumDecl>(E->getDeclContext()))
        en = ED->getNameAsString();
      return Array{"e", D->getNameAsString(),
                   E->getInitVal().getExtValue(), en};
    }
    return Array{"?decl", D->getNameAsString()};
  }

  Value expr(const Expr *E) {
    if (!E) return nullptr;
    if (auto *P = dyn_cast<ParenExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<ConstantExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<ExprWithCleanups>(E)) return expr(P->getSubExpr());
    if (auto *IC = dyn_cast<ImplicitCastExpr>(E)) {
      switch (IC->getCastKind()) {
      case CK_LValueToRValue:
        return Array{"ld", expr(IC->getSubExpr()), ty(IC->getType())};
      case CK_ArrayToPointerDecay:
        return Array{"decay", expr(IC->getSubExpr()), ty(IC->getType())};
      case CK_NoOp: case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr:
      case CK_BitCast: case CK_ToVoid:
        return expr(IC->getSubExpr());
      case CK_NullToPointer:
        return Array{"i", 0, "ptr"};
      default:
        return Array{"cast", ty(IC->getType()), expr(IC->getSubExpr()),
                     IC->getCastKindName(), ty(IC->getSubExpr()->getType())};
      }
    }
    if (auto *CE = dyn_cast<CStyleCastExpr>(E)) {
      if (CE->getCastKind() == CK_NoOp || CE->getCastKind() == CK_ToVoid ||
          CE->getCastKind() == CK_BitCast)
        return expr(CE->getSubExpr());
      if (CE->getCastKind() == CK_NullToPointer) return Array{"i", 0, "ptr"};
      return Array{"cast", ty(CE->getType()), expr(CE->getSubExpr()),
                   CE->getCastKindName(), ty(CE->getSubExpr()->getType())};
    }
    if (auto *I = dyn_cast<IntegerLiteral>(E)) {
      auto V = I->getValue();
      if (V.getBitWidth() <= 64)
        return Array{"i", (int64_t)V.getZExtValue(), ty(E->getType())};
      return Array{"i", 0, "big"};
    }
    if (auto *I = dyn_cast<CharacterLiteral>(E))
      return Array{"i", (int64_t)I->getValue(), "int"};
    if (auto *S = dyn_cast<StringLiteral>(E)) {
      std::string s;
      if (S->getCharByteWidth() == 1)
        for (char c : S->getBytes()) {
          if ((unsigned char)c >= 128 || ((unsigned char)c < 32 && c != '\n' && c != '\t')) {
            char b[8]; snprintf(b, 8, "\\x%02x", (unsigned char)c); s += b;
          } else s += c;
        }
      return Array{"s", s};
    }
    if (auto *F = dyn_cast<FloatingLiteral>(E))
      return Array{"fl", F->getValueAsApproximateDouble()};
    if (auto *D = dyn_cast<DeclRefExpr>(E)) return var(D->getDecl());
    if (auto *P = dyn_cast<PredefinedExpr>(E)) {
      (void)P; return Array{"s", "__func__"};
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      Value b = expr(M->getBase());
      std::string rec;
      if (auto *FD = dyn_cast<FieldDecl>(M->getMemberDecl()))
        rec = FD->getParent()->getNameAsString();
      if (M->isArrow()) b = Array{"deref", std::move(b), 0};
      return Array{"m", std::move(b), M->getMemberDecl()->getNameAsString(),
                   rec, ty(M->getType())};
    }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(E))
      return Array{"idx", expr(A->getBase()), expr(A->getIdx()), ty(A->getType())};
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      switch (U->getOpcode()) {
      case UO_Deref: return Array{"deref", expr(U->getSubExpr()), ty(U->getType())};
      case UO_AddrOf: return Array{"addr", expr(U->getSubExpr())};
      case UO_PostInc: return Array{"incdec", "p++", expr(U->getSubExpr()), ty(U->getType())};
      case UO_PostDec: return Array{"incdec", "p--", expr(U->getSubExpr()), ty(U->getType())};
      case UO_PreInc: return Array{"incdec", "++p", expr(U->getSubExpr()), ty(U->getType())};
      case UO_PreDec: return Array{"incdec", "--p", expr(U->getSubExpr()), ty(U->getType())};
      case UO_Extension: case UO_Plus: return expr(U->getSubExpr());
      default:
        return Array{"un", UnaryOperator::getOpcodeStr(U->getOpcode()).str(),
                     expr(U->getSubExpr()), ty(U->getType())};
      }
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      std::string op = B->getOpcodeStr().str();
      if (B->isAssignmentOp()) {
        Value l = expr(B->getLHS()), r = expr(B->getRHS());
        if (auto *CA = dyn_cast<CompoundAssignOperator>(B))
          return Array{"asgop", op.substr(0, op.size() - 1), std::move(l),
                       std::move(r), ty(B->getType()),
                       ty(CA->getComputationResultType()), loc(B->getOperatorLoc())};
        return Array{"asg", std::move(l), std::move(r), ty(B->getType()),
                     loc(B->getOperatorLoc())};
      }
      return Array{"bin", op, expr(B->getLHS()), expr(B->getRHS()), ty(B->getType()),
                   ty(B->getLHS()->getType())};
    }
    if (auto *Q = dyn_cast<ConditionalOperator>(E))
      return Array{"cond", expr(Q->getCond()), expr(Q->getTrueExpr()),
                   expr(Q->getFalseExpr())};
    if (auto *Q = dyn_cast<BinaryConditionalOperator>(E))
      return Array{"elvis", expr(Q->getCommon()), expr(Q->getFalseExpr())};
    if (auto *O = dyn_cast<OpaqueValueExpr>(E)) return expr(O->getSourceExpr());
    if (auto *K = dyn_cast<CallExpr>(E)) {
      Array args;
      for (auto *a : K->arguments()) args.push_back(expr(a));
      Value cal = nullptr;
      bool nr = false;
      if (auto *FD = K->getDirectCallee()) {
        cal = Array{"f", FD->getNameAsString()};
        nr = FD->isNoReturn() || FD->hasAttr<NoReturnAttr>() ||
             FD->getType()->castAs<FunctionType>()->getNoReturnAttr();
        if (FD->getBuiltinID()) {
          Expr::EvalResult R;
          if ((FD->getNameAsString() == "__builtin_constant_p" ) &&
              E->EvaluateAsInt(R, C))
            return Array{"i", R.Val.getInt().getExtValue(), "int"};
        }
      } else
        cal = expr(K->getCallee());
      return Array{"call", std::move(cal), std::move(args), loc(K->getBeginLoc()),
                   ty(K->getType()), nr};
    }
    if (auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      int64_t v = -1;
      if (E->EvaluateAsInt(R, C)) v = R.Val.getInt().getExtValue();
      return Array{"i", v, "sizeof", ty(U->getTypeOfArgument())};
    }
    if (auto *O = dyn_cast<OffsetOfExpr>(E)) {
      std::string n;
      for (unsigned i = 0; i < O->getNumComponents(); i++) {
        auto &c = O->getComponent(i);
        if (c.getKind() == OffsetOfNode::Field) { if (!n.empty()) n += "."; n += c.getField()->getNameAsString(); }
      }
      return Array{"offsetof", n, ty(O->getTypeSourceInfo()->getType())};
    }
    if (auto *S = dyn_cast<StmtExpr>(E)) return Array{"se", stmt(S->getSubStmt())};
    if (auto *L = dyn_cast<InitListExpr>(E)) {
      Array a;
      for (unsigned i = 0; i < L->getNumInits(); i++) a.push_back(expr(L->getInit(i)));
      return Array{"il", std::move(a), ty(L->getType())};
    }
    if (auto *L = dyn_cast<CompoundLiteralExpr>(E)) return expr(L->getInitializer());
    if (isa<ImplicitValueInitExpr>(E)) return Array{"i", 0, "int"};
    if (auto *V = dyn_cast<VAArgExpr>(E)) { (void)V; return Array{"?", "va_arg"}; }
    if (auto *D = dyn_cast<DesignatedInitExpr>(E)) return expr(D->getInit());
    return Array{"?", E->getStmtClassName()};
  }

  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    Value L = loc(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S)) return Array{"x", L, expr(E)};
    if (auto *K = dyn_cast<CompoundStmt>(S)) {
      Array a;
      for (auto *s : K->body()) a.push_back(stmt(s));
      return Array{"blk", L, std::move(a)};
    }
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      Array a;
      for (auto *d : D->decls())
        if (auto *V = dyn_cast<VarDecl>(d))
          a.push_back(Array{var(V), V->hasInit() ? expr(V->getInit()) : Value(nullptr),
                            V->isStaticLocal(), V->hasExternalStorage()});
      return Array{"dcl", L, std::move(a)};
    }
    if (auto *I = dyn_cast<IfStmt>(S))
      return Array{"if", L, expr(I->getCond()), stmt(I->getThen()), stmt(I->getElse())};
    if (auto *W = dyn_cast<WhileStmt>(S))
      return Array{"while", L, expr(W->getCond()), stmt(W->getBody())};
    if (auto *W = dyn_cast<DoStmt>(S))
      return Array{"do", L, stmt(W->getBody()), expr(W->getCond())};
    if (auto *F = dyn_cast<ForStmt>(S))
      return Array{"for", L, stmt(F->getInit()), expr(F->getCond()), expr(F->getInc()),
                   stmt(F->getBody())};
    if (auto *R = dyn_cast<ReturnStmt>(S))
      return Array{"ret", L, expr(R->getRetValue())};
    if (isa<BreakStmt>(S)) return Array{"brk", L};
    if (isa<ContinueStmt>(S)) return Array{"cont", L};
    if (auto *G = dyn_cast<GotoStmt>(S)) return Array{"goto", L, G->getLabel()->getNameAsString()};
    if (auto *G = dyn_cast<LabelStmt>(S))
      return Array{"label", L, G->getName(), stmt(G->getSubStmt())};
    if (auto *G = dyn_cast<SwitchStmt>(S))
      return Array{"switch", L, expr(G->getCond()), stmt(G->getBody())};
    if (auto *G = dyn_cast<CaseStmt>(S)) {
      Expr::EvalResult R;
      int64_t lo = 0, hi = 0;
      if (G->getLHS()->EvaluateAsInt(R, C)) lo = R.Val.getInt().getExtValue();
      hi = lo;
      if (G->getRHS() && G->getRHS()->EvaluateAsInt(R, C)) hi = R.Val.getInt().getExtValue();
      return Array{"case", L, lo, hi, stmt(G->getSubStmt())};
    }
    if (auto *G = dyn_cast<DefaultStmt>(S)) return Array{"default", L, stmt(G->getSubStmt())};
    if (isa<NullStmt>(S)) return Array{"nop", L};
    if (auto *A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
    return Array{"?", L, S->getStmtClassName()};
  }

  void function(const FunctionDecl *F) {
    Object o;
    o["k"] = "fn";
    o["name"] = F->getNameAsString();
    o["loc"] = loc(F->getLocation());
    o["static"] = F->getStorageClass() == SC_Static;
    o["inline"] = F->isInlined();
    o["ret"] = ty(F->getReturnType());
    o["variadic"] = F->isVariadic();
    o["noreturn"] = F->isNoReturn();
    Array ps;
    for (auto *p : F->parameters()) ps.push_back(var(p));
    o["params"] = std::move(ps);
    o["body"] = stmt(F->getBody());
    OS << Value(std::move(o)) << "\n";
  }
  void global(const VarDecl *V, bool local) {
    Object o;
    o["k"] = "var";
    std::string n = V->getNameAsString();
    o["name"] = local ? var(V).getAsArray()->operator[](1) : Value(n);
    o["type"] = ty(V->getType());
    o["loc"] = loc(V->getLocation());
    o["static"] = V->getStorageClass() == SC_Static;
    o["extern"] = V->hasExternalStorage() && !V->hasInit();
    if (auto *A = V->getAttr<SectionAttr>()) o["section"] = A->getName().str();
    if (V->hasInit()) o["init"] = expr(V->getInit());
    OS << Value(std::move(o)) << "\n";
  }
  void record(const RecordDecl *R) {
    if (!R->isCompleteDefinition() || R->isInvalidDecl()) return;
    Object o;
    o["k"] = "rec";
    o["name"] = R->getNameAsString();
    o["union"] = R->isUnion();
    auto &L = C.getASTRecordLayout(R);
    o["size"] = (int64_t)L.getSize().getQuantity();
    Array f;
    unsigned i = 0;
    for (auto *x : R->fields()) {
      f.push_back(Array{x->getNameAsString(), ty(x->getType()),
                        (int64_t)(L.getFieldOffset(i) / 8),
                        x->getType()->isIncompleteType() ? (int64_t)0
                          : (int64_t)C.getTypeSizeInChars(x->getType()).getQuantity(),
                        x->getType()->isSignedIntegerType() ? 1 : 0});
      i++;
    }
    o["fields"] = std::move(f);
    OS << Value(std::move(o)) << "\n";
  }
};

class V : public RecursiveASTVisitor<V> {
  ASTContext &C;
  Dumper &D;
  bool ours(SourceLocation L) {
    auto &SM = C.getSourceManager();
    return !SM.isInSystemHeader(SM.getExpansionLoc(L));
  }
public:
  V(ASTContext &C, Dumper &D) : C(C), D(D) {}
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isThisDeclarationADefinition() && F->getBody() && ours(F->getLocation()))
      D.function(F);
    return true;
  }
  bool VisitVarDecl(VarDecl *Vd) {
    if (!ours(Vd->getLocation()) || isa<ParmVarDecl>(Vd)) return true;
    if (Vd->isFileVarDecl()) D.global(Vd, false);
    else if (Vd->isStaticLocal()) D.global(Vd, true);
    return true;
  }
  bool VisitRecordDecl(RecordDecl *R) {
    if (ours(R->getLocation()) || R->getName().starts_with("__mp")) D.record(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!ours(E->getLocation()) || !E->isCompleteDefinition()) return true;
    return true;
  }
};

class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    Dumper D(C, OS);
    V v(C, D);
    for (auto *X : C.getTranslationUnitDecl()->decls()) {
      if (auto *E = dyn_cast<EnumDecl>(X)) {
        if (!E->isCompleteDefinition() ||
            C.getSourceManager().isInSystemHeader(
                C.getSourceManager().getExpansionLoc(E->getLocation())))
          continue;
        llvm::json::Array a;
        for (auto *c : E->enumerators())
          a.push_back(Array{c->getNameAsString(), c->getInitVal().getExtValue()});
        OS << Value(Object{{"k", "enum"}, {"name", E->getNameAsString()}, {"vals", std::move(a)}}) << "\n";
      }
    }
    v.TraverseDecl(C.getTranslationUnitDecl());
    bool err = C.getDiagnostics().hasErrorOccurred();
    OS << Value(Object{{"k", "end"}, {"errors", err}}) << "\n";
  }
};
class Act : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Cons>();
  }
};
} // namespace

// usage: extract OUT FILE -- flags
int main(int argc, const char **argv) {
  if (argc < 4) return 2;
  OutPath = argv[1];
  std::vector<std::string> flags;
  for (int i = 4; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {argv[2]});
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
