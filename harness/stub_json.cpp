// Weak stand-ins for units a harness does not exercise (never called; they only satisfy the linker).
#include <cstdlib>
#include "ThermoFun/Common/ParseJsonToData.h"
#include "ThermoFun/Substance.h"
#include "ThermoFun/Reaction.h"
#include "ThermoFun/Element.h"
#include "ThermoFun/Database.h"
namespace ThermoFun {
#define W __attribute__((weak))
W auto parseSubstance(const std::string &) -> Substance { abort(); }
W auto parseReaction(const std::string &) -> Reaction { abort(); }
W auto parseElement(const std::string &) -> Element { abort(); }
W auto readConventions(const std::string &) -> DatabaseConventions { abort(); }
}
