#pragma once
// State shared between a harness and the model stand-ins of models_uf.cpp.
#include "common.h"
#include <map>
#include <string>
#include <vector>
namespace muf {
extern std::map<std::string, int> undef;                       // "Model:symbol" -> bit mask of properties reported as not defined
extern std::vector<std::string> calls;                         // models in the order they ran
extern bool touch_p;                                           // water models replace P==0 by a saturation pressure
ThermoPropertiesSubstance sub(const std::string &name, std::vector<double> a);
}
