// Common environment of the drivers: builds models from in-memory pieces with
// the repository's own API (no test code involved).
#ifndef VERIF_ENV_H
#define VERIF_ENV_H
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "mc.h"
#include "core/analysis/analysis_result.h"
#include "core/analysis/analyzer_impl.h"
#include "core/analysis/lattice_types.h"
#include "core/analysis/output.h"
#include "core/analysis/perceptron.h"
#include "core/analysis/score_processor.h"
#include "core/core.h"
#include "core/dic/dic_builder.h"
#include "core/dic/dictionary.h"
#include "core/impl/model_io.h"
#include "core/spec/spec_dsl.h"

namespace vt {
using namespace jumanpp;
using namespace jumanpp::core;
using namespace jumanpp::core::analysis;
namespace dsl = jumanpp::core::spec::dsl;

inline StringPiece sp(const std::string& s) { return StringPiece{s.data(), s.data() + s.size()}; }
inline std::string st(StringPiece s) { return std::string(s.char_begin(), s.size()); }
inline std::string msg(const Status& s) { return s ? std::string("OK") : st(s.message()); }

// Heap buffer without slack: any over-read is an ASan report.
struct ExactBuf {
  std::unique_ptr<char[]> p;
  size_t n;
  explicit ExactBuf(const std::string& s) : p(new char[s.size() ? s.size() : 1]), n(s.size()) {
    memcpy(p.get(), s.data(), s.size());
  }
  StringPiece sp() const { return StringPiece{p.get(), p.get() + n}; }
};

struct An : public AnalyzerImpl {
  An(const CoreHolder* core, const ScoringConfig& sconf, const AnalyzerConfig& cfg) : AnalyzerImpl(core, sconf, cfg) {}
  LatticeBuilder& lb() { return latticeBldr_; }
  AnalysisInput& inp() { return input_; }
  ScoreProcessor* sproc() { return sproc_; }
  LatticeConfig& lcfg() { return latticeConfig_; }
  Status seeds(StringPiece input) {
    JPP_RETURN_IF_ERROR(resetForInput(input));
    return prepareNodeSeeds();
  }
  Status latt(StringPiece input) {
    JPP_RETURN_IF_ERROR(seeds(input));
    return buildLattice();
  }
  Status full(StringPiece input, const ScorerDef* sd) {
    JPP_RETURN_IF_ERROR(latt(input));
    JPP_RETURN_IF_ERROR(bootstrapAnalysis());
    return computeScores(sd);
  }
};

inline AnalyzerConfig acfg() {
  AnalyzerConfig c;
  c.pageSize = 256 * 1024;
  return c;
}

struct Model {
  spec::AnalysisSpec spec0;
  dic::DictionaryBuilder builder;
  dic::DictionaryHolder holder;
  std::unique_ptr<CoreHolder> core;

  template <typename Fn>
  Status specOnly(Fn fn) {
    dsl::ModelSpecBuilder b;
    fn(b);
    return b.build(&spec0);
  }
  Status dicOnly(StringPiece csv) {
    JPP_RETURN_IF_ERROR(builder.importSpec(&spec0));
    JPP_RETURN_IF_ERROR(builder.importCsv("dic", csv));
    return holder.load(builder.result());
  }
  Status coreOnly(const features::StaticFeatureFactory* sff = nullptr) {
    core.reset(new CoreHolder(builder.result().spec, holder));
    return core->initialize(sff);
  }
  template <typename Fn>
  Status build(Fn fn, StringPiece csv, const features::StaticFeatureFactory* sff = nullptr) {
    JPP_RETURN_IF_ERROR(specOnly(fn));
    JPP_RETURN_IF_ERROR(dicOnly(csv));
    return coreOnly(sff);
  }
  const spec::AnalysisSpec& spec() const { return builder.result().spec; }
  std::unique_ptr<An> analyzer(i32 beam = 1, const AnalyzerConfig& c = acfg(), i32 nscore = 1) {
    return std::unique_ptr<An>(new An(core.get(), ScoringConfig{beam, nscore}, c));
  }
};

// RFC 4180 writer, independent of the repository
inline std::string csvField(const std::string& f) {
  if (f.find_first_of(",\"\n\r") == std::string::npos) return f;
  std::string r = "\"";
  for (char c : f) {
    if (c == '"') r += '"';
    r += c;
  }
  return r + "\"";
}
inline std::string csvRow(const std::vector<std::string>& v) {
  std::string r;
  for (size_t i = 0; i < v.size(); ++i) {
    if (i) r += ',';
    r += csvField(v[i]);
  }
  return r + "\n";
}
inline std::string csvText(const std::vector<std::vector<std::string>>& rows) {
  std::string r;
  for (auto& x : rows) r += csvRow(x);
  return r;
}
inline std::vector<std::string> splitOn(const std::string& s, const std::string& sep) {
  std::vector<std::string> r;
  size_t p = 0;
  for (;;) {
    size_t q = s.find(sep, p);
    if (q == std::string::npos) { r.push_back(s.substr(p)); return r; }
    r.push_back(s.substr(p, q - p));
    p = q + sep.size();
  }
}
inline std::vector<std::string> cps(const std::string& s) {
  std::vector<std::string> r;
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
    r.push_back(s.substr(i, n));
    i += n;
  }
  return r;
}
inline std::string join(const std::vector<std::string>& v, const std::string& sep) {
  std::string r;
  for (size_t i = 0; i < v.size(); ++i) r += (i ? sep : "") + v[i];
  return r;
}
}  // namespace vt
#endif
