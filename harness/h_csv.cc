// LIBS: v_mc v_util
// P02: CSV reader against an independent RFC4180 state machine, on every
// string over a structural alphabet, plus write/read round trips.
#include "mc.h"
#include "util/csv_reader.h"
#include <memory>
using namespace jumanpp;
using mc::Ctx;

namespace {
struct Row { std::vector<std::string> f; size_t endPos; };
struct Parsed { std::vector<Row> rows; bool error = false; bool undef = false; };

// reference reader: one pass, explicit states, no shared code with the reader
Parsed reference(const std::string& s, char sep, char quote) {
  Parsed r;
  size_t i = 0, n = s.size();
  while (i < n) {
    Row row;
    for (;;) {  // one field per iteration
      std::string cur;
      bool eol = false;
      if (i < n && s[i] == quote) {
        ++i;
        bool closed = false;
        while (i < n) {
          if (s[i] == quote) {
            if (i + 1 < n && s[i + 1] == quote) { cur += quote; i += 2; continue; }
            closed = true; ++i; break;
          }
          cur += s[i++];
        }
        if (!closed) { r.error = true; return r; }
        if (i < n && s[i] != sep && s[i] != '\n' && s[i] != '\r') { r.error = true; return r; }
        if (i < n && s[i] == '\r' && !(i + 1 < n && s[i + 1] == '\n')) { r.undef = true; return r; }
      } else {
        while (i < n && s[i] != sep && s[i] != '\n' && !(s[i] == '\r' && i + 1 < n && s[i + 1] == '\n')) {
          if (s[i] == quote) { r.error = true; return r; }
          cur += s[i++];
        }
      }
      row.f.push_back(cur);
      if (i >= n) { eol = true; }
      else if (s[i] == sep) { ++i; }
      else if (s[i] == '\r') { i += 2; eol = true; }
      else { ++i; if (i < n && s[i] == '\r') ++i; eol = true; }
      if (eol) break;
    }
    row.endPos = i;
    r.rows.push_back(row);
  }
  return r;
}

void compare(Ctx& c, const std::string& s, char sep, char quote) {
  Parsed ref = reference(s, sep, quote);
  std::unique_ptr<char[]> buf(new char[s.size()]);  // exact size: ASan sees over-reads
  memcpy(buf.get(), s.data(), s.size());
  util::CsvReader rd{sep, quote};
  c.check((bool)rd.initFromMemory(StringPiece{buf.get(), s.size()}), "init", "initFromMemory failed");
  size_t row = 0;
  std::string sigs;
  for (;;) {
    if (row > s.size() + 2) c.fail("endless", "reader yields more rows than the input has characters");
    bool more = rd.nextLine();
    if (row >= ref.rows.size()) {
      if (ref.undef) return;
      if (more) c.fail(ref.error ? "accepted-malformed" : "extra-row", "row %zu should not exist (%s)", row + 1, ref.error ? "malformed" : "end of input");
      break;
    }
    if (!more) c.fail("lost-row", "row %zu of %zu not delivered", row + 1, ref.rows.size());
    auto& rr = ref.rows[row];
    if (rd.lineNumber() != (i64)row + 1) c.fail("line-number", "line number %lld for row %zu", (long long)rd.lineNumber(), row + 1);
    if (rd.numFields() != (i32)rr.f.size()) c.fail("field-count", "row %zu: %d fields, expected %zu", row + 1, rd.numFields(), rr.f.size());
    for (size_t k = 0; k < rr.f.size(); ++k) {
      StringPiece sp = rd.field((i32)k);
      std::string got(sp.char_begin(), sp.char_end());
      if (got != rr.f[k]) c.fail("field-value", "row %zu field %zu is '%s', expected '%s'", row + 1, k, got.c_str(), rr.f[k].c_str());
      sigs += got; sigs += '\x1f';
    }
    if (rd.bytePosition() != (i64)rr.endPos) c.fail("position", "byte position %lld after row %zu, expected %zu", (long long)rd.bytePosition(), row + 1, rr.endPos);
    sigs += '\x1e';
    ++row;
  }
  if (!ref.error) {
    c.check(!rd.nextLine(), "after-end", "nextLine() is true after the end of input");
  }
  sigs += ref.error ? "E" : "K";
  c.sig(sigs);
}

void parseAll(Ctx& c) {
  static const std::vector<std::string> al{"a", ",", "\"", "\n", "\r"};
  std::string s = c.str(al, 0, c.thorough() ? 10 : 8);
  c.note("csv text: %s", s.c_str());
  compare(c, s, ',', '"');
}
void parseSeps(Ctx& c) {
  static const char seps[] = {' ', '\t', '_', ',', '\0'};
  static const char quotes[] = {'"', '\0', '\1', '\'', '"'};
  int k = c.choose(5);
  std::vector<std::string> al{"b", std::string(1, seps[k]), std::string(1, quotes[k]), "\n", "\r", "\xe3\x81\x82"};
  std::string s = c.str(al, 0, c.thorough() ? 7 : 6);
  c.note("csv text with separator %d quote %d: %s", seps[k], quotes[k], s.c_str());
  compare(c, s, seps[k], quotes[k]);
}
void roundTrip(Ctx& c) {
  static const std::vector<std::string> al{"a", ",", "\"", "\n", "\r\n"};
  int rows = c.range(1, 2);
  int lastNl = c.choose(2), crlf = c.choose(2);
  std::vector<std::vector<std::string>> want;
  std::string text;
  int budget = c.thorough() ? 6 : 4;
  for (int r = 0; r < rows; ++r) {
    int nf = c.range(1, 3);
    want.emplace_back();
    for (int f = 0; f < nf; ++f) {
      std::string v = c.str(al, 0, std::min(budget, 3));
      budget -= (int)v.size();
      if (budget < 0) budget = 0;
      want.back().push_back(v);
      bool needQ = v.find_first_of(",\"\n\r") != std::string::npos;
      if (f) text += ',';
      if (needQ) {
        text += '"';
        for (char ch : v) { text += ch; if (ch == '"') text += '"'; }
        text += '"';
      } else text += v;
    }
    bool nl = r + 1 < rows || lastNl;
    // an empty single-field last line without terminator is no line at all
    if (!nl && nf == 1 && want.back()[0].empty()) c.discard();
    if (nl) text += crlf ? "\r\n" : "\n";
  }
  c.note("round trip text: %s", text.c_str());
  std::unique_ptr<char[]> buf(new char[text.size()]);
  memcpy(buf.get(), text.data(), text.size());
  util::CsvReader rd;
  (void)rd.initFromMemory(StringPiece{buf.get(), text.size()});
  for (size_t r = 0; r < want.size(); ++r) {
    if (!rd.nextLine()) c.fail("rt-lost-row", "row %zu lost", r);
    if (rd.numFields() != (i32)want[r].size()) c.fail("rt-field-count", "row %zu has %d fields instead of %zu", r, rd.numFields(), want[r].size());
    for (size_t f = 0; f < want[r].size(); ++f) {
      auto sp = rd.field((i32)f);
      if (std::string(sp.char_begin(), sp.char_end()) != want[r][f]) c.fail("rt-value", "row %zu field %zu differs", r, f);
    }
  }
  if (rd.nextLine()) c.fail("rt-extra", "extra row");
  c.sig(text);
}
// long fields: the unescaping buffer is paged (16 KiB)
void longFields(Ctx& c) {
  static const int lens[] = {1, 16381, 16382, 16383, 16384, 16385, 8190, 8192};
  int a = c.pick(lens), b = c.pick(lens);
  int qa = c.choose(3), qb = c.choose(3);  // position of an escaped quote: none, begin, end
  auto mk = [](int len, int q, std::string* raw) {
    std::string v(len, 'x');
    if (q == 1) v = "\"" + v;
    if (q == 2) v = v + "\"";
    std::string r = "\"";
    for (char ch : v) { r += ch; if (ch == '"') r += '"'; }
    *raw = r + "\"";
    return v;
  };
  std::string ra, rb;
  std::string va = mk(a, qa, &ra), vb = mk(b, qb, &rb);
  std::string text = ra + "," + rb + "\nz\n";
  c.note("quoted fields of %d and %d bytes, escaped quote positions %d %d", a, b, qa, qb);
  util::CsvReader rd;
  (void)rd.initFromMemory(text);
  bool tooLong = (qa == 1 && (int)ra.size() - 2 > 16384) || (qb == 1 && (int)rb.size() - 2 > 16384);
  bool ok = rd.nextLine();
  if (!ok) {
    if (!tooLong) c.fail("long-rejected", "row rejected");
    return;  // documented limit of the buffer: rejecting is fine, corrupting is not
  }
  if (rd.numFields() != 2) c.fail("long-count", "%d fields", rd.numFields());
  if (rd.field(0).str() != va || rd.field(1).str() != vb) c.fail("long-value", "long field value damaged");
  if (!rd.nextLine() || rd.numFields() != 1 || rd.field(0) != StringPiece("z")) c.fail("long-next", "next row damaged");
  c.sig(a * 31 + b + qa * 1000000 + qb * 7000000);
}
}  // namespace
int main(int argc, char** argv) {
  return mc::run(argc, argv, {
    {"csv_all_strings", parseAll, "every string of length<=8 (thorough 10) over {a , \" LF CR}, default separator/quote"},
    {"csv_separators", parseSeps, "every string of length<=6 (thorough 7) over {b, separator, quote, LF, CR, kana}, 5 separator/quote pairs used by the system"},
    {"csv_roundtrip", roundTrip, "all tables of 1-2 rows x 1-3 fields with total field size<=4 (6), written per RFC4180, LF/CRLF, with/without final newline"},
    {"csv_long_fields", longFields, "pairs of quoted fields around the 16KiB unescape page"},
  });
}
