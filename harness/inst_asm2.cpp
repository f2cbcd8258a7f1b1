// Instantiates the assembler <2,real_t,false> from the tree under test (split for build time).
#include <gsCore/gsTemplateTools.h>
#include <gsKLShell/src/gsThinShellUtils.h>
#include <gsKLShell/src/gsThinShellAssembler.h>
#include <gsKLShell/src/gsThinShellAssembler.hpp>
#include <gsKLShell/src/gsThinShellFunctions.h>
#include <gsKLShell/src/gsThinShellFunctions.hpp>
#include <gsKLShell/src/gsFunctionSum.h>
namespace gismo {
  CLASS_TEMPLATE_INST gsFunctionSum<real_t>;
  CLASS_TEMPLATE_INST gsShellStressFunction<real_t>;
  CLASS_TEMPLATE_INST gsThinShellAssemblerBase<real_t>;
  CLASS_TEMPLATE_INST gsThinShellAssembler<2,real_t,false>;
}
