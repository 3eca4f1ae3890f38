// Plan-level harness support: an engine with every module, and structural snapshots of a plan.
#pragma once
#include "harness.hh"
#include <algorithm>
#include <list>
#include "ModuleConstraintEngine.hh"
#include "ModulePlanDatabase.hh"
#include "ModuleTemporalNetwork.hh"
#include "ModuleRulesEngine.hh"
#include "ModuleNddl.hh"
#include "ModuleSolvers.hh"
#include "ModuleResource.hh"
#include "ModuleAnml.hh"
#include "ConstraintEngine.hh"
#include "CESchema.hh"
#include "Constraint.hh"
#include "ConstraintType.hh"
#include "ConstrainedVariable.hh"
#include "Variable.hh"
#include "Domains.hh"
#include "DataTypes.hh"
#include "Engine.hh"
#include "LabelStr.hh"
#include "PlanDatabase.hh"
#include "DbClient.hh"
#include "Token.hh"
#include "IntervalToken.hh"
#include "TokenVariable.hh"
#include "Object.hh"
#include "Timeline.hh"
#include "ObjectTokenRelation.hh"
#include "Schema.hh"
#include "TemporalAdvisor.hh"
#include "RulesEngine.hh"
#include "Interpreter.hh"
#include "NddlInterpreter.hh"

namespace PL {
using namespace EUROPA;

struct Eng : public EngineBase {
  Eng(bool all = true, bool tolerate = false) {
    getConfig()->setProperty("nddl.includePath", std::string(getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo") + "/src/PLASMA/NDDL/base:" +
      std::string(getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo") + "/src/PLASMA/Resource/component/NDDL:.");
    if (tolerate) getConfig()->setProperty("ConstraintEngine.allowViolations", "true");
    addModule((new ModuleConstraintEngine())->getId());
    addModule((new ModuleConstraintLibrary())->getId());
    addModule((new ModulePlanDatabase())->getId());
    addModule((new ModuleRulesEngine())->getId());
    addModule((new ModuleTemporalNetwork())->getId());
    addModule((new ModuleSolvers())->getId());
    addModule((new ModuleNddl())->getId());
    if (all) { addModule((new ModuleResource())->getId()); addModule((new ModuleAnml())->getId()); }
    doStart();
    ce = ((ConstraintEngine*)getComponent("ConstraintEngine"))->getId();
    pdb = ((PlanDatabase*)getComponent("PlanDatabase"))->getId();
    cl = pdb->getClient();
  }
  ~Eng() { doShutdown(); }
  // empty result: accepted
  std::string nddl(const std::string& text) {
    try {
      return executeScript("nddl", text, false);
    } catch (PSLanguageExceptionList& l) {
      std::string s; for (int i = 0; i < l.getExceptionCount(); ++i) s += l.getException(i).asString() + "\n";
      return s.empty() ? "error" : s;
    }
  }
  ConstraintEngineId ce; PlanDatabaseId pdb; DbClientId cl;
};

inline std::string num(edouble d) {
  double v = cast_double(d);
  if (v >= cast_double(PLUS_INFINITY)) return "+inf"; if (v <= cast_double(MINUS_INFINITY)) return "-inf";
  char b[40]; snprintf(b, sizeof b, "%.6g", v == 0 ? 0.0 : v); return b;
}
inline std::string dom(const Domain& d) {
  std::string s;
  if (d.isEmpty()) s = "{}";
  else if (d.isInterval()) s = "[" + num(d.getLowerBound()) + "," + num(d.getUpperBound()) + "]";
  else {
    std::vector<std::string> v; std::list<edouble> l; 
    if (d.isOpen() && d.areBoundsFinite() == false) {}
    d.getValues(l);
    for (auto x : l) v.push_back(d.isNumeric() ? num(x) : (d.isEntity() && cast_int(x) != 0) ? std::string(Entity::getEntity(cast_int(x)).isNoId() ? "dead" : Entity::getEntity(cast_int(x))->getName()) : d.toString(x));
    std::sort(v.begin(), v.end());
    s = "{"; for (auto& x : v) s += x + " "; s += "}";
  }
  if (d.isOpen()) s += "?";
  return s;
}

}  // namespace PL
