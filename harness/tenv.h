// A model file and a training environment on top of it.
#ifndef VERIF_TENV_H
#define VERIF_TENV_H
#include <unistd.h>
#include "core/env.h"
#include "core/training/training_env.h"
#include "env.h"
namespace vt {
// saves a dictionary-only model and loads it
struct TrainModel {
  std::unique_ptr<JumanppEnv> env;
  template <typename Fn>
  Status make(const std::string& file, Fn fn, const std::string& csv) {
    Model m;
    JPP_RETURN_IF_ERROR(m.specOnly(fn));
    JPP_RETURN_IF_ERROR(m.dicOnly(sp(csv)));
    model::ModelInfo info;
    info.parts.emplace_back();
    JPP_RETURN_IF_ERROR(m.builder.fillModelPart(&info.parts.back(), "v"));
    {
      model::ModelSaver sv;
      JPP_RETURN_IF_ERROR(sv.open(sp(file)));
      JPP_RETURN_IF_ERROR(sv.save(info));
    }
    env.reset(new JumanppEnv);
    JPP_RETURN_IF_ERROR(env->loadModel(sp(file)));
    unlink(file.c_str());
    return env->initFeatures(nullptr);
  }
};
inline std::vector<float> scwWeights(training::TrainingEnv& te) {
  model::ModelInfo mi;
  te.exportScwParams(&mi, "x");
  auto d = mi.parts.back().data[1];
  std::vector<float> r(d.size() / 4);
  memcpy(r.data(), d.data(), d.size());
  return r;
}
}  // namespace vt
#endif
