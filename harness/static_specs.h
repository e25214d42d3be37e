// Specifications for which feature code is generated (P14, also used by P13 and P30).
#ifndef VERIF_STATIC_SPECS_H
#define VERIF_STATIC_SPECS_H
#include <core/spec/spec_dsl.h>
#include <util/characters.h>
namespace vss {
using namespace jumanpp;
using namespace jumanpp::core::spec::dsl;
using CC = jumanpp::chars::CharacterClass;

// columns: surface, tag, number, list, kv
struct Base {
  ModelSpecBuilder& b;
  FieldBuilder &f1, &f2, &n, &l, &kv;
  FeatureBuilder& ph;
  explicit Base(ModelSpecBuilder& m)
      : b(m),
        f1(m.field(1, "f1").strings().trieIndex()),
        f2(m.field(2, "f2").strings()),
        n(m.field(3, "n").integers()),
        l(m.field(4, "l").stringLists().emptyValue("*")),
        kv(m.field(5, "kv").kvLists().emptyValue("*")),
        ph(m.feature("ph").placeholder()) {}
  void unks() {
    b.unk("norm", 1).normalize().writeFeatureTo(ph).outputTo({f1});
    b.unk("num", 1).numeric(CC::FAMILY_DIGITS).outputTo({f1, f2});
    b.unk("ono", 1).onomatopoeia(CC::FAMILY_KANA).outputTo({f1});
    b.unk("ab", 1).chunking(CC::FAMILY_ALPH).writeFeatureTo(ph).outputTo({f1});
    b.unk("any", 1).single(CC::FAMILY_ANYTHING).outputTo({f1}).lowPriority();
  }
};
inline FieldExpressionBldr fe(const FeatureBuilder& f) { return FieldExpressionBldr{f.name(), TransformType::Value, jumanpp::EMPTY_SP, 0}; }

// few of everything
struct S1 {
  static void fillSpec(ModelSpecBuilder& m) {
    Base x(m);
    auto& f1 = x.f1; auto& f2 = x.f2; auto& n = x.n;
    auto& cp = m.feature("cp").codepoint(1);
    auto& ct = m.feature("ct").codepointType(-1);
    m.unigram({f1});
    m.unigram({f2, x.ph});
    m.unigram({f1, f2, n});
    m.bigram({f2}, {f1});
    m.bigram({f1}, {f2, cp});
    m.bigram({n, ct}, {n, ct});
    m.trigram({f2}, {f1}, {f2});
    m.trigram({n}, {f2, x.ph}, {f1});
    x.unks();
  }
};
// many: every unrolled loop runs
struct S2 {
  static void fillSpec(ModelSpecBuilder& m) {
    Base x(m);
    auto& f1 = x.f1; auto& f2 = x.f2; auto& n = x.n;
    auto& c1 = m.feature("c1").codepoint(1);
    auto& c2 = m.feature("c2").codepoint(-1);
    auto& t0 = m.feature("t0").codepointType(0);
    auto& nc = m.feature("nc").numCodepoints(f1);
    auto& nb = m.feature("nb").length(f2);
    m.unigram({f1}); m.unigram({f2}); m.unigram({n}); m.unigram({c1}); m.unigram({c2}); m.unigram({t0}); m.unigram({nc});
    m.unigram({nb}); m.unigram({x.ph}); m.unigram({f1, t0}); m.unigram({f2, nc});
    m.bigram({f1}, {f1}); m.bigram({f1}, {f2}); m.bigram({f2}, {f1}); m.bigram({f2}, {f2}); m.bigram({n}, {f1});
    m.bigram({f1}, {n}); m.bigram({n}, {n}); m.bigram({f2, n}, {f2, n}); m.bigram({f1, n}, {f1}); m.bigram({x.ph}, {f1});
    m.bigram({f1, f2}, {x.ph}); m.bigram({nc}, {nb}); m.bigram({nb}, {nc}); m.bigram({t0}, {t0}); m.bigram({c1}, {c2}); m.bigram({c2}, {c1});
    m.bigram({f1, f2, n}, {f1, f2, n});
    m.trigram({f1}, {f1}, {f1}); m.trigram({f2}, {f1}, {f1}); m.trigram({f1}, {f2}, {f1}); m.trigram({f1}, {f1}, {f2});
    m.trigram({n}, {f1}, {f2}); m.trigram({f2}, {n}, {f1}); m.trigram({f1}, {f2}, {n}); m.trigram({n}, {n}, {n}); m.trigram({nc}, {nb}, {x.ph});
    m.trigram({f1, f2}, {f1, f2}, {f1, f2}); m.trigram({t0}, {f2}, {t0}); m.trigram({f2}, {t0}, {f2}); m.trigram({x.ph}, {x.ph}, {f1});
    m.trigram({f2, n}, {f2}, {f2}); m.trigram({f2}, {f2, n}, {f2}); m.trigram({f2}, {f2}, {f2, n}); m.trigram({c1}, {f1}, {c2});
    x.unks();
  }
};
// one order only
struct S3 {
  static void fillSpec(ModelSpecBuilder& m) {
    Base x(m);
    m.unigram({x.f1}); m.unigram({x.f2}); m.unigram({x.n}); m.unigram({x.f1, x.f2}); m.unigram({x.ph, x.f2});
    x.unks();
  }
};
struct S4 {
  static void fillSpec(ModelSpecBuilder& m) {
    Base x(m);
    m.unigram({x.f1, x.f2});
    m.bigram({x.f2, x.n}, {x.f2, x.ph});
    x.unks();
  }
};
struct S5 {
  static void fillSpec(ModelSpecBuilder& m) {
    Base x(m);
    m.unigram({x.f1});
    m.unigram({x.n});
    m.trigram({x.f1, x.n}, {x.f2}, {x.f1}); m.trigram({x.f1}, {x.f2, x.ph}, {x.f2}); m.trigram({x.f2}, {x.f1}, {x.n}); m.trigram({x.n}, {x.f2}, {x.f1, x.f2}); m.trigram({x.f2}, {x.f2}, {x.f2});
    x.unks();
  }
};
// conditions, branches, lists
struct S6 {
  static void fillSpec(ModelSpecBuilder& m) {
    Base x(m);
    auto& f1 = x.f1; auto& f2 = x.f2; auto& n = x.n;
    auto& cp = m.feature("cp").codepoint(1);
    auto& ct = m.feature("ct").codepointType(0);
    auto& m1 = m.feature("m1").matchData(f2, "x\nz");
    auto& m2 = m.feature("m2").matchAnyRowOfCsv("x,a\ny,b\nt0,T", {f2, f1});
    auto& ml = m.feature("ml").matchData(x.l, "p");
    auto& mk = m.feature("mk").matchData(x.kv, "k");
    auto& br1 = m.feature("br1").matchData(f2, "x").ifTrue({f1, n}).ifFalse({f2});
    auto& br2 = m.feature("br2").matchData(x.l, "q").ifTrue({fe(cp), fe(ct)}).ifFalse({f1, fe(cp)});
    auto& br3 = m.feature("br3").matchAnyRowOfCsv("y\nt0", {f2}).ifTrue({fe(x.ph)}).ifFalse({f1, fe(x.ph)});
    m.unigram({m1}); m.unigram({m2, f1}); m.unigram({br1}); m.unigram({br2, f2});
    m.bigram({ml}, {mk}); m.bigram({br1}, {br2}); m.bigram({br3, f2}, {br3}); m.bigram({m1, br2}, {f1});
    m.trigram({br1}, {m2}, {br2}); m.trigram({f1}, {br3}, {ml, mk}); m.trigram({m1}, {m1}, {m1});
    x.unks();
  }
};
// no unigrams
struct S7 {
  static void fillSpec(ModelSpecBuilder& m) {
    Base x(m);
    m.bigram({x.f1}, {x.f2}); m.bigram({x.f2}, {x.f1, x.n});
    m.trigram({x.f1}, {x.f2}, {x.f1});
    x.unks();
  }
};
}  // namespace vss
#endif
