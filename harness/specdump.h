// Every field of a compiled specification as text.
#ifndef VERIF_SPECDUMP_H
#define VERIF_SPECDUMP_H
#include "env.h"
namespace vt {
// importData: contents which are needed only while a dictionary is imported
// (they are not a part of a model file).
inline std::string dumpSpec(const spec::AnalysisSpec& s, bool importData = false) {
  std::string r;
  auto i = [&](long long v) { r += std::to_string(v) + " "; };
  auto t = [&](StringPiece v) { r += std::to_string(v.size()) + ":" + st(v) + " "; };
  auto iv = [&](const std::vector<i32>& v) { r += "["; for (auto x : v) i(x); r += "] "; };
  auto sv = [&](const std::vector<std::string>& v) { r += "["; for (auto& x : v) t(sp(x)); r += "] "; };
  auto f = [&](float v) { char b[40]; snprintf(b, sizeof b, "%a ", v); r += b; };
  i(s.specMagic_); i(s.specVersion_); i(s.specMagic2_);
  r += "\ndic "; i(s.dictionary.indexColumn); i(s.dictionary.numIntStorage); i(s.dictionary.numStringStorage); iv(s.dictionary.aliasingSet);
  for (auto& d : s.dictionary.fields) {
    r += "\nfield "; t(sp(d.name)); i(d.specIndex); i(d.position); i(d.dicIndex); i(d.isTrieKey); i((int)d.fieldType);
    t(sp(d.emptyString)); t(sp(d.listSeparator)); t(sp(d.kvSeparator)); i(d.stringStorage); i(d.intStorage); i(d.alignment);
  }
  auto& fs = s.features;
  r += "\nfeatures "; i(fs.numPlaceholders); i(fs.totalPrimitives); i(fs.numDicFeatures); i(fs.numDicData); i(fs.numUniOnlyPats);
  for (auto& d : fs.dictionary) { r += "\nimport "; i(d.index); i(d.target); i(d.shift); t(sp(d.name)); i((int)d.kind); iv(d.references); if (importData) sv(d.data); }
  for (auto& d : fs.primitive) { r += "\nprimitive "; i(d.index); t(sp(d.name)); i((int)d.kind); iv(d.references); sv(d.matchData); }
  for (auto& d : fs.computation) { r += "\ncompute "; t(sp(d.name)); i(d.index); i(d.primitiveFeature); iv(d.trueBranch); iv(d.falseBranch); }
  for (auto& d : fs.pattern) { r += "\npattern "; i(d.index); i(d.usage); iv(d.references); }
  for (auto& d : fs.ngram) { r += "\nngram "; i(d.index); iv(d.references); }
  for (auto& d : s.unkCreators) {
    r += "\nunk "; i(d.index); t(sp(d.name)); i((int)d.type); i(d.patternRow); i(d.patternPtr); i(d.priority); i((int)d.charClass);
    for (auto& x : d.features) { r += "("; i(x.targetPlaceholder); i((int)x.featureType); r += ") "; }
    iv(d.replaceFields);
  }
  r += "\ntrain "; i(s.training.surfaceIdx);
  for (auto& d : s.training.fields) { r += "\n loss "; i(d.number); i(d.fieldIdx); i(d.dicIdx); f(d.weight); }
  for (auto& d : s.training.allowedUnk) { r += "\n gold "; i(d.targetField); i(d.sourceField); t(sp(d.sourceKey)); }
  return r;
}
}  // namespace vt
#endif
