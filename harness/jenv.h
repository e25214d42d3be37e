// Small models of the jumandic specification, written as files.
#ifndef VERIF_JENV_H
#define VERIF_JENV_H
#include <unistd.h>
#include <fstream>
#include "core/analysis/rnn_scorer_gbeam.h"
#include "core/env.h"
#include "core/impl/perceptron_io.h"
#include "env.h"
#include "jumandic/shared/jumandic_spec.h"
#include "rnnnet.h"
#include "util/serialization.h"
namespace vt {
using JRow = std::vector<std::string>;   // surface pos subpos conjform conjtype baseform reading canonic features
inline std::string jCsv(const std::vector<JRow>& rows) {
  std::string r;
  for (auto& x : rows) r += csvRow({x[0], "0", "0", "0", x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8]});
  return r;
}
// the rows unknown-word creators refer to
inline std::vector<JRow> jUnk() {
  auto u = [](const char* s, const char* p, const char* sp, const char* f) { return JRow{s, p, sp, "*", "*", "UNK", "UNK", "*", f}; };
  return {u("UNK_SYM", "特殊", "記号", "品詞推定:特殊 未知語:その他"), u("UNK_KATA", "未定義語", "カタカナ", "品詞推定:名詞 未知語:カタカナ"),
          u("UNK_KANJI", "未定義語", "その他", "品詞推定:名詞 未知語:漢字"), u("UNK_HIRA", "未定義語", "その他", "未知語:ひらがな"),
          u("UNK_ALPH", "未定義語", "アルファベット", "未知語:ロマ字"), u("UNK_DIGIT", "名詞", "数詞", "カテゴリ:数量 未知語:数字"),
          u("UNK_ONO", "副詞", "*", "自動認識 未知語:擬音語擬態語"), u("UNK_OTHER", "未定義語", "その他", "NIL")};
}
inline std::vector<JRow> jWords() {
  return {
      {"だ", "判定詞", "*", "基本形", "判定詞", "だ", "だ", "*", "NIL"},
      {"は", "助詞", "副助詞", "*", "*", "は", "は", "*", "NIL"},
      {"が", "助詞", "格助詞", "*", "*", "が", "が", "*", "NIL"},
      {"水", "名詞", "普通名詞", "*", "*", "水", "みず", "水/みず", "漢字読み:訓 カテゴリ:人工物-食べ物;自然物"},
      {"水", "名詞", "普通名詞", "*", "*", "水", "すい", "水/すい", "漢字読み:音 濁音化D"},
      {"書く", "動詞", "*", "基本形", "子音動詞カ行", "書く", "かく", "書く/かく", "NIL"},
      {"書き", "動詞", "*", "基本連用形", "子音動詞カ行", "書く", "かき", "書く/かく", "連用形名詞化"},
      {"書き", "名詞", "普通名詞", "*", "*", "書き", "かき", "*", "NIL"},
      {"東京", "名詞", "地名", "*", "*", "東京", "とうきょう", "東京/とうきょう", "地名:日本:都"},
      {"京都", "名詞", "地名", "*", "*", "京都", "きょうと", "京都/きょうと", "地名:日本:府"},
      {"都", "接尾辞", "名詞性特殊接尾辞", "*", "*", "都", "と", "都/と", "NIL"},
      {"すごい", "形容詞", "*", "基本形", "イ形容詞アウオ段", "すごい", "すごい", "凄い/すごい", "NIL"},
      {"ええ", "感動詞", "*", "*", "*", "ええ", "ええ", "*", "NIL"},
      {"コーヒー", "名詞", "普通名詞", "*", "*", "コーヒー", "こーひー", "珈琲/こーひー", "ドメイン:料理・食事"},
      {"a", "名詞", "普通名詞", "*", "*", "a", "a", "*", "NIL"},
      {",", "特殊", "読点", "*", "*", ",", ",", "*", "NIL"},
      {" ", "特殊", "空白", "*", "*", " ", " ", "*", "元半角"},
  };
}
struct JModel {
  std::vector<JRow> rows = jUnk();
  int bits = 12;             // weights; 0: no linear part
  u64 salt = 1;
  const Net* net = nullptr;  // written next to the model
  jumanpp::core::analysis::rnn::RnnInferenceConfig rnn;
  JModel() { for (auto& r : jWords()) rows.push_back(r); }
  std::vector<float> weights() const {
    std::vector<float> w((size_t)1 << bits);
    for (size_t i = 0; i < w.size(); ++i) w[i] = Net::val(salt * 7919 + i) * 0.25f;
    return w;
  }
  Status write(const std::string& file) const {
    Model m;
    JPP_RETURN_IF_ERROR(jumandic::SpecFactory::makeSpec(&m.spec0));
    std::string csv = jCsv(rows);
    JPP_RETURN_IF_ERROR(m.dicOnly(sp(csv)));
    model::ModelInfo info;
    info.parts.emplace_back();
    JPP_RETURN_IF_ERROR(m.builder.fillModelPart(&info.parts.back(), "dictionary"));
    std::vector<float> w;
    util::serialization::Saver svr;
    if (bits) {
      w = weights();
      PerceptronInfo pi{bits};
      svr.save(pi);
      model::ModelPart part;
      part.kind = model::ModelPartKind::Perceprton;
      part.comment = "linear";
      part.data.push_back(svr.result());
      part.data.push_back(StringPiece{(const char*)w.data(), (const char*)(w.data() + w.size())});
      info.parts.push_back(part);
    }
    analysis::RnnScorerGbeamFactory fac;
    if (net) {
      std::string path = file + ".rnn";
      { std::ofstream o(path, std::ios::binary); o << net->dict(); }
      { std::ofstream o(path + ".nnet", std::ios::binary); auto d = net->file(); o.write(d.data(), d.size()); }
      JPP_RETURN_IF_ERROR(fac.make(sp(path), m.holder, rnn));
      JPP_RETURN_IF_ERROR(fac.makeInfo(&info, "rnn"));
    }
    model::ModelSaver sv;
    JPP_RETURN_IF_ERROR(sv.open(sp(file)));
    return sv.save(info);
  }
};
}  // namespace vt
#endif
