// Part of the Clang 20 adaptation of the build (see build.py): the one function
// the overlay header declares.
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/NestedNameSpecifier.h"
#include "clang/AST/Type.h"

namespace clang {
NestedNameSpecifier *IwyuShimClassQualifier(const Type *Class) {
  CXXRecordDecl *RD = Class->getAsCXXRecordDecl();
  if (!RD) return nullptr;
  return NestedNameSpecifier::Create(RD->getASTContext(), nullptr, false,
                                     Class);
}
}  // namespace clang
