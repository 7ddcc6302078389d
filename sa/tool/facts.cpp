// Fact extractor: parses one translation unit with clang and writes, as JSON,
// the type-resolved syntax trees of every function defined under a root
// directory (plain functions, instantiated templates, template patterns,
// lambdas inline) plus the record layouts.  It decides nothing by itself.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Lex/MacroArgs.h"
#include "clang/Lex/PPCallbacks.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/xxhash.h"

#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_map>
#include <vector>

using namespace clang;

static std::string Root;    // directory whose definitions are emitted
static std::string OutPath; // output file
static std::string Root2;   // second root (instantiation drivers)

namespace
{
  // one fact per instantiation instead of one per distinct shape
  bool Exact = false;
  std::string esc(llvm::StringRef s)
  {
    std::string o;
    o.reserve(s.size() + 2);
    o += '"';
    for (unsigned char c : s)
      {
        switch (c)
          {
            case '"': o += "\\\""; break;
            case '\\': o += "\\\\"; break;
            case '\n': o += "\\n"; break;
            case '\t': o += "\\t"; break;
            case '\r': o += "\\r"; break;
            default:
              if (c < 0x20 || c >= 0x7f)
                {
                  char b[8];
                  snprintf(b, sizeof b, "\\u%04x", c);
                  o += b;
                }
              else
                o += c;
          }
      }
    o += '"';
    return o;
  }

  struct MacroUse
  {
    std::string name, file, args;
    unsigned    line;
  };
  std::vector<MacroUse> MacroUses;

  class Emit
  {
  public:
    ASTContext    &Ctx;
    SourceManager &SM;
    PrintingPolicy PP;
    std::vector<std::string>                  Strings;
    std::unordered_map<std::string, unsigned> StrIdx;

    Emit(ASTContext &C)
      : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts())
    {
      PP.SuppressTagKeyword  = true;
      PP.Bool                = true;
      PP.FullyQualifiedName  = true;
      PP.SuppressScope       = false;
    }

    unsigned S(const std::string &s)
    {
      auto it = StrIdx.find(s);
      if (it != StrIdx.end())
        return it->second;
      unsigned n = Strings.size();
      Strings.push_back(s);
      StrIdx[s] = n;
      return n;
    }

    // --- locations -------------------------------------------------------
    std::string fileOf(SourceLocation L)
    {
      if (L.isInvalid())
        return "";
      L = SM.getExpansionLoc(L);
      auto F = SM.getFileEntryRefForID(SM.getFileID(L));
      if (!F)
        return "";
      llvm::StringRef rp = F->getFileEntry().tryGetRealPathName();
      return rp.empty() ? F->getName().str() : rp.str();
    }
    unsigned lineOf(SourceLocation L)
    {
      return L.isInvalid() ? 0 : SM.getExpansionLineNumber(L);
    }
    bool inRoot(SourceLocation L)
    {
      if (L.isInvalid())
        return false;
      FileID fid = SM.getFileID(SM.getExpansionLoc(L));
      auto   it  = RootCache.find(fid);
      if (it != RootCache.end())
        return it->second;
      std::string f = fileOf(L);
      bool r = (f.rfind(Root + "/", 0) == 0 &&
                f.rfind(Root + "/_build/", 0) != 0) ||
               (!Root2.empty() && f.rfind(Root2, 0) == 0);
      RootCache[fid] = r;
      return r;
    }
    std::map<FileID, bool> RootCache;

    std::string declId(const Decl *D)
    {
      D = patternOf(D);
      SourceLocation L = D->getLocation();
      if (L.isInvalid())
        return "";
      SourceLocation E = SM.getExpansionLoc(L);
      std::string f = fileOf(E);
      if (f.rfind(Root + "/", 0) == 0)
        f = f.substr(Root.size() + 1);
      std::string r = f + ":" + std::to_string(SM.getExpansionLineNumber(E)) +
                      ":" + std::to_string(SM.getExpansionColumnNumber(E));
      if (L.isMacroID())
        {
          SourceLocation P = SM.getSpellingLoc(L);
          r += "/" + std::to_string(SM.getSpellingLineNumber(P)) + ":" +
               std::to_string(SM.getSpellingColumnNumber(P));
        }
      return r;
    }

    static const Decl *patternOf(const Decl *D)
    {
      if (auto *FD = dyn_cast<FunctionDecl>(D))
        {
          if (auto *P = FD->getTemplateInstantiationPattern())
            return P;
          // prefer the definition
          const FunctionDecl *Def = nullptr;
          if (FD->isDefined(Def) && Def)
            return Def;
          return FD;
        }
      if (auto *VD = dyn_cast<VarDecl>(D))
        {
          if (auto *P = VD->getTemplateInstantiationPattern())
            return P;
          return VD;
        }
      if (auto *RD = dyn_cast<CXXRecordDecl>(D))
        {
          if (auto *P = RD->getTemplateInstantiationPattern())
            return P;
          return RD;
        }
      return D;
    }

    std::string qname(const NamedDecl *D)
    {
      std::string              s;
      llvm::raw_string_ostream os(s);
      PrintingPolicy           P(Ctx.getLangOpts());
      P.SuppressUnwrittenScope = true;
      // name without template arguments: walk contexts by hand
      std::vector<std::string> parts;
      parts.push_back(D->getNameAsString());
      const DeclContext *DC = D->getDeclContext();
      while (DC && !DC->isTranslationUnit())
        {
          if (auto *NS = dyn_cast<NamespaceDecl>(DC))
            {
              if (!NS->isInline() && !NS->isAnonymousNamespace())
                parts.push_back(NS->getNameAsString());
            }
          else if (auto *RD = dyn_cast<RecordDecl>(DC))
            parts.push_back(RD->getNameAsString());
          else if (auto *FD = dyn_cast<FunctionDecl>(DC))
            parts.push_back(FD->getNameAsString() + "()");
          DC = DC->getParent();
        }
      std::string r;
      for (auto it = parts.rbegin(); it != parts.rend(); ++it)
        {
          if (!r.empty())
            r += "::";
          r += *it;
        }
      return r;
    }

    std::string typeName(QualType T, int depth = 3)
    {
      if (T.isNull())
        return "?";
      std::string pre, post;
      QualType    C = T.getCanonicalType();
      if (auto *R = C->getAs<ReferenceType>())
        {
          return typeName(R->getPointeeType(), depth) +
                 (C->isLValueReferenceType() ? " &" : " &&");
        }
      if (C.isConstQualified())
        pre = "const ";
      C = C.getUnqualifiedType();
      if (auto *P = C->getAs<PointerType>())
        return pre + typeName(P->getPointeeType(), depth) + " *";
      if (auto *RT = C->getAs<RecordType>())
        {
          const RecordDecl *RD = RT->getDecl();
          std::string       n  = qname(RD);
          if (RD->isLambda())
            return pre + "lambda@" + declId(RD);
          if (auto *TS = dyn_cast<ClassTemplateSpecializationDecl>(RD))
            {
              if (n == "std::basic_string")
                return pre + "std::string";
              n += "<";
              if (depth <= 0)
                n += "..";
              else
                {
                  bool first = true;
                  for (auto &A : TS->getTemplateArgs().asArray())
                    emitArg(A, n, first, depth - 1);
                }
              n += ">";
            }
          return pre + n;
        }
      if (auto *ET = C->getAs<EnumType>())
        return pre + qname(ET->getDecl());
      if (auto *AT = dyn_cast<ConstantArrayType>(C.getTypePtr()))
        {
          llvm::SmallString<16> sz;
          AT->getSize().toStringUnsigned(sz);
          return pre + typeName(AT->getElementType(), depth) + "[" +
                 std::string(sz.str()) + "]";
        }
      if (C->isDependentType())
        {
          std::string s = T.getAsString(PP);
          if (s.size() > 160)
            s.resize(160);
          return "dep:" + s;
        }
      std::string s = C.getAsString(PP);
      if (s.size() > 200)
        s.resize(200);
      return pre + s;
    }

    void emitArg(const TemplateArgument &A, std::string &n, bool &first, int depth)
    {
      if (A.getKind() == TemplateArgument::Pack)
        {
          for (auto &B : A.pack_elements())
            emitArg(B, n, first, depth);
          return;
        }
      if (!first)
        n += ", ";
      first = false;
      switch (A.getKind())
        {
          case TemplateArgument::Type: n += typeName(A.getAsType(), depth); break;
          case TemplateArgument::Integral:
            {
              llvm::SmallString<16> sz;
              A.getAsIntegral().toString(sz);
              n += std::string(sz.str());
              break;
            }
          case TemplateArgument::Template:
            if (auto *TD = A.getAsTemplate().getAsTemplateDecl())
              n += qname(TD);
            break;
          case TemplateArgument::Declaration:
            n += qname(A.getAsDecl());
            break;
          default: n += "_";
        }
    }

    std::string targs(const FunctionDecl *FD)
    {
      std::string n;
      bool        first = true;
      if (auto *TA = FD->getTemplateSpecializationArgs())
        for (auto &A : TA->asArray())
          emitArg(A, n, first, 2);
      return n;
    }
    std::string classArgs(const DeclContext *DC)
    {
      std::string n;
      while (DC)
        {
          if (auto *TS = dyn_cast<ClassTemplateSpecializationDecl>(DC))
            {
              bool first = n.empty();
              for (auto &A : TS->getTemplateArgs().asArray())
                emitArg(A, n, first, 2);
            }
          DC = DC->getParent();
        }
      return n;
    }

    // --- statements ------------------------------------------------------
    std::string   out;
    std::string   shape;
    void open(const char *k, SourceLocation L)
    {
      out += "{\"k\":\"";
      out += k;
      out += "\"";
      if (PendTemp)
        num("mt", 1);
      PendTemp = false;
      shape += k;
      shape += '(';
      unsigned ln = lineOf(L);
      if (ln)
        {
          out += ",\"l\":" + std::to_string(ln);
          if (L.isMacroID())
            {
              std::vector<std::string> names;
              SourceLocation           M = L;
              std::string              ms;
              while (M.isMacroID())
                {
                  if (SM.isMacroBodyExpansion(M))
                    {
                      llvm::StringRef nm = Lexer::getImmediateMacroName(
                        M, SM, Ctx.getLangOpts());
                      if (!ms.empty())
                        ms += ",";
                      ms += nm.str();
                    }
                  M = SM.getImmediateMacroCallerLoc(M);
                }
              if (!ms.empty())
                out += ",\"mac\":" + std::to_string(S(ms));
            }
          std::string f = fileOf(L);
          if (f != CurFile)
            {
              if (f.rfind(Root + "/", 0) == 0)
                f = f.substr(Root.size() + 1);
              out += ",\"f\":" + std::to_string(S(f));
            }
        }
    }
    void close()
    {
      out += "}";
      shape += ')';
    }
    void str(const char *key, const std::string &v)
    {
      out += ",\"";
      out += key;
      out += "\":" + std::to_string(S(v));
    }
    void shp(const std::string &s)
    {
      shape += s;
    }
    void num(const char *key, long v)
    {
      out += ",\"";
      out += key;
      out += "\":" + std::to_string(v);
    }
    template <typename R>
    void kids(const R &r)
    {
      out += ",\"c\":[";
      bool first = true;
      for (const Stmt *s : r)
        {
          if (!first)
            out += ",";
          first = false;
          node(s);
        }
      out += "]";
    }

    std::string CurFile;

    // a temporary that ends with the full expression was looked through
    bool SawTemp = false, PendTemp = false;

    const Expr *strip(const Expr *E)
    {
      while (E)
        {
          if (auto *X = dyn_cast<ImplicitCastExpr>(E))
            {
              E = X->getSubExpr();
            }
          else if (auto *X = dyn_cast<ParenExpr>(E))
            E = X->getSubExpr();
          else if (auto *X = dyn_cast<FullExpr>(E))
            E = X->getSubExpr();
          else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E))
            {
              if (X->getStorageDuration() == SD_FullExpression)
                SawTemp = true;
              E = X->getSubExpr();
            }
          else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E))
            E = X->getSubExpr();
          else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
            E = X->getReplacement();
          else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E))
            E = X->getExpr();
          else if (auto *X = dyn_cast<CXXConstructExpr>(E))
            {
              if (X->isElidable() && X->getNumArgs() == 1)
                E = X->getArg(0);
              else
                break;
            }
          else
            break;
        }
      return E;
    }

    void varDecl(const VarDecl *VD)
    {
      open("var", VD->getLocation());
      str("n", VD->getNameAsString());
      str("id", declId(VD));
      str("ty", typeName(VD->getType()));
      if (VD->isStaticLocal())
        num("static", 1);
      if (VD->getType()->isReferenceType())
        num("ref", 1);
      if (isScalarUninit(VD->getType()))
        num("scalar", 1);
      if (auto *DD = dyn_cast<DecompositionDecl>(VD))
        {
          out += ",\"bind\":[";
          bool first = true;
          for (auto *B : DD->bindings())
            {
              if (!first)
                out += ",";
              first = false;
              out += "[" + std::to_string(S(B->getNameAsString())) + "," +
                     std::to_string(S(declId(B))) + "]";
            }
          out += "]";
        }
      out += ",\"c\":[";
      if (VD->getInit())
        node(VD->getInit());
      out += "]";
      close();
    }

    bool isScalarUninit(QualType T)
    {
      T = T.getCanonicalType();
      if (T->isReferenceType() || T->isDependentType())
        return false;
      if (auto *A = Ctx.getAsArrayType(T))
        return isScalarUninit(A->getElementType());
      if (T->isArithmeticType() || T->isPointerType() || T->isEnumeralType())
        return true;
      if (auto *RD = T->getAsCXXRecordDecl())
        {
          // aggregates such as std::array of scalars: default-init leaves
          // the elements indeterminate
          if (qname(RD) == "std::array")
            if (auto *TS = dyn_cast<ClassTemplateSpecializationDecl>(RD))
              return isScalarUninit(TS->getTemplateArgs()[0].getAsType());
        }
      return false;
    }

    void declRef(const ValueDecl *D, SourceLocation L, QualType T)
    {
      open("ref", L);
      str("n", D->getNameAsString());
      const char *dk = "other";
      if (isa<ParmVarDecl>(D))
        dk = "parm";
      else if (auto *V = dyn_cast<VarDecl>(D))
        dk = V->isLocalVarDecl() ? "var" : "gvar";
      else if (isa<FunctionDecl>(D))
        dk = "func";
      else if (isa<EnumConstantDecl>(D))
        dk = "enumc";
      else if (isa<BindingDecl>(D))
        dk = "binding";
      else if (isa<NonTypeTemplateParmDecl>(D))
        dk = "nttp";
      else if (isa<FieldDecl>(D))
        dk = "field";
      str("dk", dk);
      str("id", declId(D));
      str("ty", typeName(T));
      shp(D->getNameAsString());
      if (isa<FunctionDecl>(D) || isa<EnumConstantDecl>(D) ||
          (isa<VarDecl>(D) && !cast<VarDecl>(D)->isLocalVarDeclOrParm()))
        str("q", qname(D));
      if (auto *VT = dyn_cast<VarTemplateSpecializationDecl>(D))
        {
          std::string n;
          bool        first = true;
          for (auto &A : VT->getTemplateArgs().asArray())
            emitArg(A, n, first, 2);
          str("targs", n);
        }
      if (auto *V = dyn_cast<VarDecl>(D))
        if (V->isConstexpr() && V->getType()->isIntegralOrEnumerationType() &&
            V->getInit() && !V->getInit()->isValueDependent())
          if (auto *ev = V->evaluateValue())
            if (ev->isInt())
              {
                llvm::SmallString<16> sz;
                ev->getInt().toString(sz);
                str("cv", std::string(sz.str()));
              }
      close();
    }

    void calleeInfo(const FunctionDecl *FD)
    {
      str("q", qname(FD));
      shp(FD->getNameAsString());
      const Decl *P = patternOf(FD);
      if (inRoot(P->getLocation()))
        {
          str("id", declId(FD));
          // instantiations that choose different overloads differ
          shp(declId(FD));
        }
      std::string ta = targs(FD);
      if (!ta.empty())
        str("targs", ta);
      if (Exact)
        str("ca", classArgs(FD->getDeclContext()));
      if (auto *MD = dyn_cast<CXXMethodDecl>(FD))
        {
          if (MD->isVirtual())
            num("virt", 1);
          if (MD->isConst())
            num("const", 1);
          if (MD->isStatic())
            num("static", 1);
        }
      str("ty", typeName(FD->getReturnType()));
      // parameter types (for by-reference detection)
      std::string pt;
      for (auto *P : FD->parameters())
        {
          QualType T = P->getType();
          char     c = 'v';
          if (T->isReferenceType())
            c = T->getPointeeType().isConstQualified() ? 'c' : 'r';
          else if (T->isPointerType())
            c = T->getPointeeType().isConstQualified() ? 'k' : 'p';
          pt += c;
        }
      str("pm", pt);
    }

    void node(const Stmt *S0)
    {
      if (!S0)
        {
          out += "null";
          return;
        }
      if (auto *E = dyn_cast<Expr>(S0))
        {
          SawTemp       = false;
          const Expr *X = strip(E);
          if (!X)
            {
              out += "null";
              return;
            }
          PendTemp = SawTemp;
          expr(X);
          PendTemp = false;
          return;
        }
      stmt(S0);
    }

    void stmt(const Stmt *St)
    {
      SourceLocation L = St->getBeginLoc();
      if (auto *X = dyn_cast<CompoundStmt>(St))
        {
          open("blk", L);
          num("e", lineOf(X->getRBracLoc()));
          kids(X->body());
          close();
        }
      else if (auto *X = dyn_cast<DeclStmt>(St))
        {
          open("decl", L);
          out += ",\"c\":[";
          bool first = true;
          for (auto *D : X->decls())
            if (auto *VD = dyn_cast<VarDecl>(D))
              {
                if (!first)
                  out += ",";
                first = false;
                varDecl(VD);
              }
          out += "]";
          close();
        }
      else if (auto *X = dyn_cast<IfStmt>(St))
        {
          open("if", L);
          if (X->isConstexpr())
            num("ce", 1);
          out += ",\"c\":[";
          node(X->getInit());
          out += ",";
          if (X->getConditionVariableDeclStmt())
            stmt(X->getConditionVariableDeclStmt());
          else
            node(X->getCond());
          out += ",";
          node(X->getThen());
          out += ",";
          node(X->getElse());
          out += "]";
          close();
        }
      else if (auto *X = dyn_cast<ForStmt>(St))
        {
          open("for", L);
          out += ",\"c\":[";
          node(X->getInit());
          out += ",";
          node(X->getCond());
          out += ",";
          node(X->getInc());
          out += ",";
          node(X->getBody());
          out += "]";
          close();
        }
      else if (auto *X = dyn_cast<CXXForRangeStmt>(St))
        {
          open("rfor", L);
          out += ",\"c\":[";
          varDecl(X->getLoopVariable());
          out += ",";
          node(X->getRangeInit());
          out += ",";
          node(X->getBody());
          out += "]";
          close();
        }
      else if (auto *X = dyn_cast<WhileStmt>(St))
        {
          open("while", L);
          out += ",\"c\":[";
          if (X->getConditionVariableDeclStmt())
            stmt(X->getConditionVariableDeclStmt());
          else
            node(X->getCond());
          out += ",";
          node(X->getBody());
          out += "]";
          close();
        }
      else if (auto *X = dyn_cast<DoStmt>(St))
        {
          open("do", L);
          out += ",\"c\":[";
          node(X->getBody());
          out += ",";
          node(X->getCond());
          out += "]";
          close();
        }
      else if (auto *X = dyn_cast<SwitchStmt>(St))
        {
          open("switch", L);
          out += ",\"c\":[";
          node(X->getCond());
          out += ",";
          node(X->getBody());
          out += "]";
          close();
        }
      else if (auto *X = dyn_cast<CaseStmt>(St))
        {
          open("case", L);
          out += ",\"c\":[";
          node(X->getLHS());
          out += ",";
          node(X->getSubStmt());
          out += "]";
          close();
        }
      else if (auto *X = dyn_cast<DefaultStmt>(St))
        {
          open("default", L);
          out += ",\"c\":[";
          node(X->getSubStmt());
          out += "]";
          close();
        }
      else if (isa<BreakStmt>(St))
        {
          open("break", L);
          close();
        }
      else if (isa<ContinueStmt>(St))
        {
          open("cont", L);
          close();
        }
      else if (auto *X = dyn_cast<ReturnStmt>(St))
        {
          open("ret", L);
          out += ",\"c\":[";
          if (X->getRetValue())
            node(X->getRetValue());
          out += "]";
          close();
        }
      else if (auto *X = dyn_cast<CXXTryStmt>(St))
        {
          open("try", L);
          out += ",\"c\":[";
          node(X->getTryBlock());
          for (unsigned i = 0; i < X->getNumHandlers(); ++i)
            {
              out += ",";
              auto *H = X->getHandler(i);
              open("catch", H->getBeginLoc());
              if (H->getExceptionDecl())
                {
                  str("ty", typeName(H->getCaughtType()));
                  str("n", H->getExceptionDecl()->getNameAsString());
                  str("id", declId(H->getExceptionDecl()));
                }
              else
                str("ty", "...");
              out += ",\"c\":[";
              node(H->getHandlerBlock());
              out += "]";
              close();
            }
          out += "]";
          close();
        }
      else if (isa<NullStmt>(St))
        {
          open("null", L);
          close();
        }
      else if (auto *X = dyn_cast<AttributedStmt>(St))
        node(X->getSubStmt());
      else if (auto *X = dyn_cast<LabelStmt>(St))
        node(X->getSubStmt());
      else
        {
          open(St->getStmtClassName(), L);
          kids(St->children());
          close();
        }
    }

    void expr(const Expr *E)
    {
      SourceLocation L = E->getExprLoc();
      if (auto *X = dyn_cast<DeclRefExpr>(E))
        {
          declRef(X->getDecl(), L, X->getType());
        }
      else if (auto *X = dyn_cast<MemberExpr>(E))
        {
          auto *D = X->getMemberDecl();
          if (isa<FieldDecl>(D) || isa<CXXMethodDecl>(D) || true)
            {
              open("mem", L);
              str("n", D->getNameAsString());
              shp(D->getNameAsString());
              str("id", declId(D));
              if (auto *RD = dyn_cast<RecordDecl>(D->getDeclContext()))
                str("cls", qname(RD));
              str("ty", typeName(X->getType()));
              if (auto *V = dyn_cast<VarDecl>(D))
                if (V->isConstexpr() && V->getInit() &&
                    V->getType()->isIntegralOrEnumerationType() &&
                    !V->getInit()->isValueDependent())
                  if (auto *ev = V->evaluateValue())
                    if (ev->isInt())
                      {
                        llvm::SmallString<16> sz;
                        ev->getInt().toString(sz);
                        str("cv", std::string(sz.str()));
                      }
              if (X->isArrow())
                num("arrow", 1);
              out += ",\"c\":[";
              node(X->getBase());
              out += "]";
              close();
            }
        }
      else if (isa<CXXThisExpr>(E))
        {
          open("this", L);
          close();
        }
      else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E))
        {
          open("call", L);
          num("opc", 1);
          if (auto *FD = X->getDirectCallee())
            {
              calleeInfo(FD);
              if (isa<CXXMethodDecl>(FD))
                num("m", 1);
            }
          else
            {
              str("q", std::string("operator") +
                         getOperatorSpelling(X->getOperator()));
              num("dep", 1);
            }
          str("op", getOperatorSpelling(X->getOperator()));
          kids(X->arguments());
          close();
        }
      else if (auto *X = dyn_cast<CallExpr>(E))
        {
          open("call", L);
          const FunctionDecl *FD  = X->getDirectCallee();
          const Expr         *Cal = strip(X->getCallee());
          std::vector<const Stmt *> ch;
          if (auto *MC = dyn_cast<CXXMemberCallExpr>(E))
            {
              num("m", 1);
              if (auto *ME = dyn_cast<MemberExpr>(Cal))
                {
                  ch.push_back(ME->getBase());
                  if (ME->hasQualifier())
                    num("qual", 1);
                }
              else
                ch.push_back(MC->getImplicitObjectArgument());
            }
          if (FD)
            calleeInfo(FD);
          else if (auto *DM = dyn_cast_or_null<CXXDependentScopeMemberExpr>(Cal))
            {
              num("m", 1);
              num("dep", 1);
              str("q", DM->getMember().getAsString());
              shp(DM->getMember().getAsString());
              ch.push_back(DM->isImplicitAccess() ? nullptr : DM->getBase());
            }
          else if (auto *UM = dyn_cast_or_null<UnresolvedMemberExpr>(Cal))
            {
              num("m", 1);
              num("dep", 1);
              str("q", UM->getMemberName().getAsString());
              shp(UM->getMemberName().getAsString());
              ch.push_back(UM->isImplicitAccess() ? nullptr : UM->getBase());
            }
          else if (auto *UL = dyn_cast_or_null<UnresolvedLookupExpr>(Cal))
            {
              num("dep", 1);
              str("q", UL->getName().getAsString());
              shp(UL->getName().getAsString());
            }
          else if (auto *DS = dyn_cast_or_null<DependentScopeDeclRefExpr>(Cal))
            {
              num("dep", 1);
              str("q", DS->getDeclName().getAsString());
              shp(DS->getDeclName().getAsString());
            }
          else
            {
              num("ind", 1);
              str("q", "<indirect>");
              ch.push_back(X->getCallee());
            }
          for (auto *A : X->arguments())
            ch.push_back(A);
          kids(ch);
          close();
        }
      else if (auto *X = dyn_cast<CXXConstructExpr>(E))
        {
          open("ctor", L);
          auto *CD = X->getConstructor();
          str("q", qname(CD->getParent()));
          shp(CD->getParent()->getNameAsString());
          if (inRoot(patternOf(CD)->getLocation()))
            str("id", declId(CD));
          if (Exact)
            {
              str("targs", targs(CD));
              str("ca", classArgs(CD->getDeclContext()));
            }
          str("ty", typeName(X->getType()));
          std::string pt;
          for (auto *P : CD->parameters())
            {
              QualType T = P->getType();
              char     c = 'v';
              if (T->isReferenceType())
                c = T->getPointeeType().isConstQualified() ? 'c' : 'r';
              else if (T->isPointerType())
                c = T->getPointeeType().isConstQualified() ? 'k' : 'p';
              pt += c;
            }
          str("pm", pt);
          if (isa<CXXTemporaryObjectExpr>(E))
            num("tmp", 1);
          if (X->isListInitialization())
            num("li", 1);
          if (CD->isCopyOrMoveConstructor())
            num("copy", CD->isMoveConstructor() ? 2 : 1);
          kids(X->arguments());
          close();
        }
      else if (auto *X = dyn_cast<CXXUnresolvedConstructExpr>(E))
        {
          open("ctor", L);
          num("dep", 1);
          str("q", typeName(X->getTypeAsWritten()));
          str("ty", typeName(X->getTypeAsWritten()));
          kids(X->arguments());
          close();
        }
      else if (auto *X = dyn_cast<CXXDependentScopeMemberExpr>(E))
        {
          open("mem", L);
          num("dep", 1);
          str("n", X->getMember().getAsString());
          shp(X->getMember().getAsString());
          out += ",\"c\":[";
          node(X->isImplicitAccess() ? nullptr : X->getBase());
          out += "]";
          close();
        }
      else if (auto *X = dyn_cast<UnresolvedLookupExpr>(E))
        {
          open("ref", L);
          num("dep", 1);
          str("dk", "func");
          str("n", X->getName().getAsString());
          str("q", X->getName().getAsString());
          close();
        }
      else if (auto *X = dyn_cast<DependentScopeDeclRefExpr>(E))
        {
          open("ref", L);
          num("dep", 1);
          str("dk", "other");
          str("n", X->getDeclName().getAsString());
          str("q", X->getDeclName().getAsString());
          close();
        }
      else if (auto *X = dyn_cast<BinaryOperator>(E))
        {
          open("bin", L);
          str("op", X->getOpcodeStr().str());
          shp(X->getOpcodeStr().str());
          str("ty", typeName(X->getType()));
          out += ",\"c\":[";
          node(X->getLHS());
          out += ",";
          node(X->getRHS());
          out += "]";
          close();
        }
      else if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E))
        node(X->getSemanticForm());
      else if (auto *X = dyn_cast<UnaryOperator>(E))
        {
          open("un", L);
          str("op", UnaryOperator::getOpcodeStr(X->getOpcode()).str());
          shp(UnaryOperator::getOpcodeStr(X->getOpcode()).str());
          if (X->isPostfix())
            num("post", 1);
          out += ",\"c\":[";
          node(X->getSubExpr());
          out += "]";
          close();
        }
      else if (auto *X = dyn_cast<ConditionalOperator>(E))
        {
          open("cond", L);
          out += ",\"c\":[";
          node(X->getCond());
          out += ",";
          node(X->getTrueExpr());
          out += ",";
          node(X->getFalseExpr());
          out += "]";
          close();
        }
      else if (auto *X = dyn_cast<ArraySubscriptExpr>(E))
        {
          open("sub", L);
          out += ",\"c\":[";
          node(X->getBase());
          out += ",";
          node(X->getIdx());
          out += "]";
          close();
        }
      else if (auto *X = dyn_cast<IntegerLiteral>(E))
        {
          open("lit", L);
          llvm::SmallString<16> sz;
          X->getValue().toStringUnsigned(sz);
          str("v", std::string(sz.str()));
          str("lt", "int");
          shp(std::string(sz.str()));
          close();
        }
      else if (auto *X = dyn_cast<FloatingLiteral>(E))
        {
          open("lit", L);
          llvm::SmallString<16> sz;
          X->getValue().toString(sz);
          str("v", std::string(sz.str()));
          str("lt", "float");
          close();
        }
      else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E))
        {
          open("lit", L);
          str("v", X->getValue() ? "true" : "false");
          str("lt", "bool");
          shp(X->getValue() ? "true" : "false");
          close();
        }
      else if (auto *X = dyn_cast<StringLiteral>(E))
        {
          open("lit", L);
          if (X->isOrdinary() || X->isUTF8())
            {
              str("v", X->getString().str());
              shp(X->getString().str());
            }
          else
            str("v", "");
          str("lt", "str");
          close();
        }
      else if (auto *X = dyn_cast<CharacterLiteral>(E))
        {
          open("lit", L);
          str("v", std::to_string(X->getValue()));
          str("lt", "char");
          close();
        }
      else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E))
        {
          open("lit", L);
          str("v", "nullptr");
          str("lt", "null");
          close();
        }
      else if (auto *X = dyn_cast<LambdaExpr>(E))
        {
          open("lambda", L);
          str("id", declId(X->getLambdaClass()));
          out += ",\"params\":[";
          bool first = true;
          for (auto *P : X->getCallOperator()->parameters())
            {
              if (!first)
                out += ",";
              first = false;
              out += "[" + std::to_string(S(P->getNameAsString())) + "," +
                     std::to_string(S(declId(P))) + "," +
                     std::to_string(S(typeName(P->getType()))) + "]";
            }
          out += "],\"caps\":[";
          first = true;
          auto ii = X->capture_init_begin();
          for (auto &C : X->captures())
            {
              if (!first)
                out += ",";
              first = false;
              if (C.capturesThis())
                out += "{\"this\":1}";
              else if (C.capturesVariable())
                {
                  auto *V = C.getCapturedVar();
                  out += "{\"n\":" + std::to_string(S(V->getNameAsString())) +
                         ",\"id\":" + std::to_string(S(declId(V))) +
                         ",\"ty\":" + std::to_string(S(typeName(V->getType()))) +
                         ",\"byref\":" +
                         (C.getCaptureKind() == LCK_ByRef ? "1" : "0") +
                         ",\"parm\":" + (isa<ParmVarDecl>(V) ? "1" : "0") +
                         ",\"isref\":" +
                         (V->getType()->isReferenceType() ? "1" : "0");
                  if (auto *VV = dyn_cast<VarDecl>(V); VV && VV->isInitCapture() && VV->getInit())
                    {
                      out += ",\"init\":";
                      node(VV->getInit());
                    }
                  out += "}";
                }
              else
                out += "{}";
              ++ii;
            }
          out += "],\"c\":[";
          // generic lambdas: prefer an instantiated body
          const FunctionDecl *CO = X->getCallOperator();
          const Stmt         *B  = CO ? CO->getBody() : X->getBody();
          if (auto *FT = X->getDependentCallOperator())
            for (auto *Sp : FT->specializations())
              if (Sp->getBody())
                {
                  B = Sp->getBody();
                  break;
                }
          if (!B)
            B = X->getBody();
          node(B);
          out += "]";
          close();
        }
      else if (auto *X = dyn_cast<InitListExpr>(E))
        {
          open("il", L);
          str("ty", typeName(X->getType()));
          if (auto *Sem = X->isSemanticForm() ? X : X->getSemanticForm())
            kids(Sem->inits());
          else
            kids(X->inits());
          close();
        }
      else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E))
        node(X->getSubExpr());
      else if (auto *X = dyn_cast<ExplicitCastExpr>(E))
        {
          open("cast", L);
          str("ty", typeName(X->getTypeAsWritten()));
          out += ",\"c\":[";
          node(X->getSubExpr());
          out += "]";
          close();
        }
      else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E))
        {
          open("defarg", L);
          out += ",\"c\":[";
          if (X->getParam()->hasUninstantiatedDefaultArg() ||
              X->getParam()->hasUnparsedDefaultArg())
            ;
          else
            node(X->getExpr());
          out += "]";
          close();
        }
      else if (auto *X = dyn_cast<CXXThrowExpr>(E))
        {
          open("throw", L);
          if (X->getSubExpr())
            str("ty", typeName(X->getSubExpr()->getType()));
          else
            str("ty", "rethrow");
          out += ",\"c\":[";
          if (X->getSubExpr())
            node(X->getSubExpr());
          out += "]";
          close();
        }
      else if (auto *X = dyn_cast<CXXNewExpr>(E))
        {
          open("new", L);
          str("ty", typeName(X->getAllocatedType()));
          out += ",\"c\":[";
          if (X->getConstructExpr())
            node(X->getConstructExpr());
          out += "]";
          close();
        }
      else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E))
        {
          open("sizeof", L);
          if (X->isArgumentType())
            str("ty", typeName(X->getArgumentType()));
          else
            str("ty", typeName(X->getArgumentExpr()->getType()));
          close();
        }
      else if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E))
        {
          open("zero", L);
          str("ty", typeName(X->getType()));
          close();
        }
      else if (isa<ImplicitValueInitExpr>(E))
        {
          open("zero", L);
          str("ty", typeName(E->getType()));
          close();
        }
      else if (auto *X = dyn_cast<OpaqueValueExpr>(E))
        {
          if (X->getSourceExpr())
            node(X->getSourceExpr());
          else
            out += "null";
        }
      else
        {
          open(E->getStmtClassName(), L);
          str("ty", typeName(E->getType()));
          kids(E->children());
          close();
        }
    }
  };

  class Visitor : public RecursiveASTVisitor<Visitor>
  {
  public:
    Emit          &E;
    std::ofstream &OS;
    std::map<std::string, std::set<uint64_t>> Seen;
    std::set<std::string>                     SeenRec;
    bool                                      first = true;

    Visitor(Emit &E, std::ofstream &OS)
      : E(E), OS(OS)
    {}
    bool shouldVisitTemplateInstantiations() const
    {
      return true;
    }
    bool shouldVisitImplicitCode() const
    {
      return false;
    }
    // do not descend into lambda classes as separate functions
    bool VisitFunctionDecl(FunctionDecl *FD)
    {
      if (!FD->doesThisDeclarationHaveABody() && !FD->isDefaulted())
        return true;
      if (!FD->hasBody() || !FD->getBody())
        return true;
      if (FD->isImplicit() || FD->isDefaulted())
        return true;
      const Decl *P = Emit::patternOf(FD);
      if (!E.inRoot(P->getLocation()))
        return true;
      if (auto *MD = dyn_cast<CXXMethodDecl>(FD))
        if (MD->getParent()->isLambda())
          return true;
      bool dep = FD->isDependentContext();
      // skip members of dependent local etc. handled by dep flag
      E.out.clear();
      E.shape.clear();
      E.CurFile      = E.fileOf(FD->getLocation());
      std::string id = E.declId(FD);
      E.node(FD->getBody());
      std::string body = std::move(E.out);
      E.out.clear();
      std::string inits;
      if (auto *CD = dyn_cast<CXXConstructorDecl>(FD))
        {
          inits      = "[";
          bool first = true;
          for (auto *I : CD->inits())
            {
              if (!first)
                inits += ",";
              first = false;
              inits += "{";
              if (I->isAnyMemberInitializer())
                inits += "\"n\":" +
                         std::to_string(E.S(I->getAnyMember()->getNameAsString())) +
                         ",\"id\":" +
                         std::to_string(E.S(E.declId(I->getAnyMember())));
              else if (I->isDelegatingInitializer())
                inits += "\"deleg\":1";
              else
                inits += "\"base\":" +
                         std::to_string(
                           E.S(I->getBaseClass()
                                 ? E.typeName(QualType(I->getBaseClass(), 0))
                                 : ""));
              inits += ",\"w\":" + std::string(I->isWritten() ? "1" : "0");
              inits += ",\"l\":" + std::to_string(E.lineOf(I->getSourceLocation()));
              inits += ",\"e\":";
              E.out.clear();
              if (auto *DI = dyn_cast_or_null<CXXDefaultInitExpr>(I->getInit()))
                {
                  if (DI->getExpr())
                    E.node(DI->getExpr());
                  else
                    E.out += "null";
                }
              else
                E.node(I->getInit());
              inits += E.out + "}";
            }
          inits += "]";
        }
      if (Exact)
        E.shape += E.targs(FD) + "|" + E.classArgs(FD->getDeclContext());
      uint64_t h = llvm::xxh3_64bits(E.shape);
      if (dep)
        h = 1;
      if (!Seen[id].insert(h).second)
        return true;
      std::string o = "{\"t\":\"fn\"";
      auto        add = [&](const char *k, const std::string &v) {
        o += ",\"";
        o += k;
        o += "\":" + std::to_string(E.S(v));
      };
      add("q", E.qname(FD));
      add("n", FD->getNameAsString());
      add("id", id);
      std::string f = E.CurFile;
      if (f.rfind(Root + "/", 0) == 0)
        f = f.substr(Root.size() + 1);
      add("file", f);
      o += ",\"l\":" + std::to_string(E.lineOf(FD->getLocation()));
      o += ",\"e\":" + std::to_string(E.lineOf(FD->getEndLoc()));
      o += ",\"h\":\"" + std::to_string(h) + "\"";
      if (dep)
        o += ",\"dep\":1";
      add("targs", E.targs(FD));
      add("cargs", E.classArgs(FD->getDeclContext()));
      add("rty", E.typeName(FD->getReturnType()));
      if (auto *MD = dyn_cast<CXXMethodDecl>(FD))
        {
          add("cls", E.qname(MD->getParent()));
          add("clsid", E.declId(MD->getParent()));
          if (MD->isVirtual())
            o += ",\"virt\":1";
          if (MD->isConst())
            o += ",\"const\":1";
          if (MD->isStatic())
            o += ",\"static\":1";
          if (isa<CXXConstructorDecl>(FD))
            o += ",\"isctor\":1";
          if (isa<CXXDestructorDecl>(FD))
            o += ",\"isdtor\":1";
          o += ",\"ov\":[";
          bool ff = true;
          for (auto *OM : MD->overridden_methods())
            {
              if (!ff)
                o += ",";
              ff = false;
              o += std::to_string(E.S(E.declId(OM)));
            }
          o += "]";
        }
      o += ",\"params\":[";
      bool ff = true;
      for (auto *P : FD->parameters())
        {
          if (!ff)
            o += ",";
          ff = false;
          o += "[" + std::to_string(E.S(P->getNameAsString())) + "," +
               std::to_string(E.S(E.declId(P))) + "," +
               std::to_string(E.S(E.typeName(P->getType()))) + "]";
        }
      o += "]";
      if (!inits.empty())
        o += ",\"inits\":" + inits;
      o += ",\"body\":" + body + "}";
      write(o);
      return true;
    }

    bool VisitCXXRecordDecl(CXXRecordDecl *RD)
    {
      if (!RD->isThisDeclarationADefinition() || RD->isLambda() ||
          RD->isImplicit())
        return true;
      const Decl *P = Emit::patternOf(RD);
      if (!E.inRoot(P->getLocation()))
        return true;
      bool        dep = RD->isDependentContext();
      std::string id  = E.declId(RD);
      std::string key = id + "|" + E.classArgs(RD) + (dep ? "|dep" : "");
      if (!SeenRec.insert(key).second)
        return true;
      E.CurFile = E.fileOf(RD->getLocation());
      std::string o = "{\"t\":\"rec\"";
      auto        add = [&](const char *k, const std::string &v) {
        o += ",\"";
        o += k;
        o += "\":" + std::to_string(E.S(v));
      };
      add("q", E.qname(RD));
      add("n", RD->getNameAsString());
      add("id", id);
      add("cargs", E.classArgs(RD));
      std::string f = E.CurFile;
      if (f.rfind(Root + "/", 0) == 0)
        f = f.substr(Root.size() + 1);
      add("file", f);
      o += ",\"l\":" + std::to_string(E.lineOf(RD->getLocation()));
      if (dep)
        o += ",\"dep\":1";
      if (RD->isAbstract())
        o += ",\"abstract\":1";
      if (RD->isAggregate())
        o += ",\"agg\":1";
      if (RD->isStruct())
        o += ",\"struct\":1";
      o += ",\"bases\":[";
      bool ff = true;
      for (auto &B : RD->bases())
        {
          if (!ff)
            o += ",";
          ff = false;
          std::string bid;
          if (auto *BD = B.getType()->getAsCXXRecordDecl())
            bid = E.declId(BD);
          o += "[" + std::to_string(E.S(E.typeName(B.getType()))) + "," +
               std::to_string(E.S(bid)) + "]";
        }
      o += "],\"fields\":[";
      ff = true;
      for (auto *F : RD->fields())
        {
          if (!ff)
            o += ",";
          ff = false;
          o += "{\"n\":" + std::to_string(E.S(F->getNameAsString())) +
               ",\"id\":" + std::to_string(E.S(E.declId(F))) +
               ",\"ty\":" + std::to_string(E.S(E.typeName(F->getType()))) +
               ",\"l\":" + std::to_string(E.lineOf(F->getLocation()));
          if (F->hasInClassInitializer())
            {
              o += ",\"init\":1";
              if (auto *IE = F->getInClassInitializer())
                {
                  E.out.clear();
                  E.node(IE);
                  o += ",\"ie\":" + E.out;
                  E.out.clear();
                }
            }
          if (E.isScalarUninit(F->getType()))
            o += ",\"scalar\":1";
          if (F->isMutable())
            o += ",\"mut\":1";
          if (F->getType().isConstQualified())
            o += ",\"const\":1";
          if (F->getType()->isReferenceType())
            o += ",\"ref\":1";
          o += "}";
        }
      o += "],\"methods\":[";
      ff = true;
      for (auto *M : RD->methods())
        {
          if (M->isImplicit())
            continue;
          if (!ff)
            o += ",";
          ff = false;
          o += "{\"n\":" + std::to_string(E.S(M->getNameAsString())) +
               ",\"id\":" + std::to_string(E.S(E.declId(M))) +
               ",\"l\":" + std::to_string(E.lineOf(M->getLocation()));
          if (M->isVirtual())
            o += ",\"virt\":1";
          if (M->isPureVirtual())
            o += ",\"pure\":1";
          if (M->isStatic())
            o += ",\"static\":1";
          if (M->isDefaulted())
            o += ",\"def\":1";
          if (M->isDeleted())
            o += ",\"del\":1";
          if (M->isConst())
            o += ",\"const\":1";
          if (isa<CXXConstructorDecl>(M))
            o += ",\"isctor\":1";
          o += "}";
        }
      o += "]}";
      write(o);
      return true;
    }

    void write(const std::string &o)
    {
      OS << o << "\n";
    }
  };

  class MacroCB : public PPCallbacks
  {
  public:
    Preprocessor &PP;
    MacroCB(Preprocessor &PP)
      : PP(PP)
    {}
    void MacroExpands(const Token           &Tok,
                      const MacroDefinition &MD,
                      SourceRange            R,
                      const MacroArgs       *Args) override
    {
      llvm::StringRef n = Tok.getIdentifierInfo()->getName();
      if (n != "Assert" && n != "AssertDimension" && n != "AssertIndexRange" &&
          n != "AssertIsFinite" && n != "AssertThrow")
        return;
      auto &SM = PP.getSourceManager();
      auto  L  = SM.getExpansionLoc(R.getBegin());
      auto  F  = SM.getFileEntryRefForID(SM.getFileID(L));
      if (!F)
        return;
      std::string rp = F->getFileEntry().tryGetRealPathName().str();
      if (rp.rfind(Root + "/", 0) != 0)
        return;
      std::string a;
      if (Args)
        for (unsigned i = 0; i < Args->getNumMacroArguments(); ++i)
          {
            const Token *t = Args->getUnexpArgument(i);
            if (i)
              a += " ,, ";
            for (; t->isNot(tok::eof); ++t)
              a += PP.getSpelling(*t) + " ";
          }
      MacroUses.push_back(
        {n.str(), rp.substr(Root.size() + 1), a, SM.getExpansionLineNumber(L)});
    }
  };

  class Consumer : public ASTConsumer
  {
  public:
    CompilerInstance &CI;
    Consumer(CompilerInstance &CI)
      : CI(CI)
    {}
    void HandleTranslationUnit(ASTContext &C) override
    {
      if (CI.getDiagnostics().hasErrorOccurred())
        return;
      std::ofstream OS(OutPath);
      Emit          E(C);
      Visitor       V(E, OS);
      V.TraverseDecl(C.getTranslationUnitDecl());
      std::string o = "{\"t\":\"macros\",\"u\":[";
      bool        ff = true;
      for (auto &m : MacroUses)
        {
          if (!ff)
            o += ",";
          ff = false;
          o += "[" + esc(m.name) + "," + esc(m.file) + "," +
               std::to_string(m.line) + "," + esc(m.args) + "]";
        }
      o += "]}";
      OS << o << "\n";
      o = "{\"t\":\"str\",\"s\":[";
      for (size_t i = 0; i < E.Strings.size(); ++i)
        {
          if (i)
            o += ",";
          o += esc(E.Strings[i]);
        }
      o += "]}";
      OS << o << "\n";
    }
  };

  class Action : public ASTFrontendAction
  {
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI,
                                                   llvm::StringRef) override
    {
      CI.getPreprocessor().addPPCallbacks(
        std::make_unique<MacroCB>(CI.getPreprocessor()));
      return std::make_unique<Consumer>(CI);
    }
  };
} // namespace

int main(int argc, char **argv)
{
  // facts ROOT ROOT2 OUT SOURCE -- flags...
  if (argc < 6)
    {
      llvm::errs() << "usage: facts ROOT ROOT2 OUT SOURCE -- flags\n";
      return 2;
    }
  Root    = argv[1];
  Root2   = argv[2];
  OutPath = argv[3];
  std::string              src = argv[4];
  std::vector<std::string> flags;
  for (int i = 6; i < argc; ++i)
    {
      flags.push_back(argv[i]);
      if (flags.back() == "-DSA_EXACT")
        Exact = true;
    }
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool                tool(db, {src});
  tool.clearArgumentsAdjusters();
  struct Factory : tooling::FrontendActionFactory
  {
    std::unique_ptr<FrontendAction> create() override
    {
      return std::make_unique<Action>();
    }
  } fac;
  return tool.run(&fac);
}
