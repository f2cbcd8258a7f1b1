// Instantiates the goal-oriented assembler <2,real_t,false> from the tree under test (split for build time).
#include <gsCore/gsTemplateTools.h>
#include <gsKLShell/src/gsThinShellUtils.h>
#include <gsKLShell/src/gsThinShellAssembler.h>
#include <gsKLShell/src/gsThinShellAssembler.hpp>
#include <gsKLShell/src/gsThinShellAssemblerDWR.h>
#include <gsKLShell/src/gsThinShellAssemblerDWR.hpp>
#include <gsKLShell/src/gsThinShellFunctions.h>
#include <gsKLShell/src/gsThinShellFunctions.hpp>
#include <gsKLShell/src/gsFunctionSum.h>
namespace gismo {
  CLASS_TEMPLATE_INST gsThinShellAssemblerDWRBase<real_t>;
  CLASS_TEMPLATE_INST gsThinShellAssemblerDWR<2,real_t,false>;
}
