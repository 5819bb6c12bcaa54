// Link-time environment of the programs: with P02_TOY=n in the environment, the model factory returns the input-driven model in n directions.
#include "p02_model.h"
using namespace BSMPT;
std::unique_ptr<Class_Potential_Origin> real_choose(ModelID::ModelIDs, const ISMConstants &) __asm__("__real__ZN5BSMPT7ModelID7FChooseENS0_8ModelIDsERKNS_12ISMConstantsE");
std::unique_ptr<Class_Potential_Origin> wrap_choose(ModelID::ModelIDs, const ISMConstants &) __asm__("__wrap__ZN5BSMPT7ModelID7FChooseENS0_8ModelIDsERKNS_12ISMConstantsE");
std::unique_ptr<Class_Potential_Origin> wrap_choose(ModelID::ModelIDs id, const ISMConstants &c)
{
  const char *n = getenv("P02_TOY");
  if (!n) return real_choose(id, c);
  return std::make_unique<p02::M>(atoi(n));
}
