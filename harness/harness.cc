// In-process driver for the library's public interface; see vt/checks.  Only public members are used.
#include <lttoolbox/fst_processor.h>
#include <lttoolbox/symbol_iter.h>
#include <lttoolbox/lt_locale.h>
#include <lttoolbox/pattern_list.h>
#include <lttoolbox/match_exe.h>
#include <lttoolbox/match_state.h>
#include <lttoolbox/compression.h>
#include <lttoolbox/input_file.h>
#include <lttoolbox/stream_reader.h>
#include <lttoolbox/string_utils.h>
#include <lttoolbox/serialiser.h>
#include <lttoolbox/deserialiser.h>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <string>
#include <vector>

static UString in16(const std::string& s) { return to_ustring(s.c_str()); }

static std::string out8(UStringView s)
{
  std::string r;
  utf8::utf16to8(s.begin(), s.end(), std::back_inserter(r));
  return r;
}

static std::vector<std::string> fields(const std::string& l)
{
  std::vector<std::string> r(1);
  for (char c : l) {
    if (c == '\t') r.emplace_back();
    else r.back() += c;
  }
  return r;
}

// api BINARY bil|gen|ana OPTION...: lines FUNCTION \t text in front \t word \t text behind
static int api(int argc, char **argv)
{
  FSTProcessor fp;
  FILE *f = fopen(argv[0], "rb");
  if (!f) return 3;
  fp.load(f);
  fclose(f);
  std::string init = argv[1];
  for (int i = 2; i < argc; i++) {
    std::string o = argv[i];
    if (o == "c") fp.setCaseSensitiveMode(true);
    else if (o == "W") fp.setDisplayWeightsMode(true);
    else if (o[0] == 'N') fp.setMaxAnalysesValue(atoi(o.c_str() + 1));
    else if (o[0] == 'L') fp.setMaxWeightClassesValue(atoi(o.c_str() + 1));
  }
  if (init == "bil") fp.initBiltrans();
  else if (init == "gen") fp.initGeneration();
  else fp.initAnalysis();
  std::string line;
  while (std::getline(std::cin, line)) {
    auto p = fields(line);
    UString a = in16(p[1]), w = in16(p[2]), all = a + w + in16(p[3]);
    UStringView v = UStringView(all).substr(a.size(), w.size());
    std::string& fn = p[0];
    bool delim = fn.back() == '^';
    if (delim) fn.pop_back();
    std::string o;
    if (fn == "biltrans") o = out8(fp.biltrans(v, delim));
    else if (fn == "without") o = out8(fp.biltransWithoutQueue(v, delim));
    else if (fn == "with") {
      auto r = fp.biltransWithQueue(v, delim);
      o = out8(r.first) + "\t" + std::to_string(r.second);
    }
    else if (fn == "lookup") {
      std::vector<UString> res = {in16("left"), in16("over")};
      o = fp.lookup(v, res) ? "1" : "0";
      for (auto& x : res) o += "\t" + out8(x);
    }
    else if (fn == "symbols") {
      size_t n = 0;
      for (auto s : symbol_iter(v)) {
        if (n++) o += "\t";
        o += out8(s);
        if (n > 10000) return 4;
      }
    }
    std::cout << o << "\n";
  }
  return 0;
}

// match: lines of a history of PatternList and MatchState; see vt/checks/c27.py
static int match()
{
  std::unique_ptr<PatternList> pl(new PatternList());
  std::unique_ptr<MatchExe> exe;
  std::unique_ptr<MatchState> ms(new MatchState());
  std::string line;
  while (std::getline(std::cin, line)) {
    auto p = fields(line);
    std::string& op = p[0];
    if (op == "begin") pl->beginSequence();
    else if (op == "end") pl->endSequence();
    else if (op == "insert") pl->insert(atoi(p[1].c_str()), in16(p[2]), in16(p[3]));
    else if (op == "label") pl->insert(atoi(p[1].c_str()), atoi(p[2].c_str()));
    else if (op == "build") pl->buildTransducer();
    else if (op == "copy") pl.reset(new PatternList(PatternList(*pl)));
    else if (op == "assign") {
      PatternList o;
      o.insert(1, in16("x"), in16("y"));
      o = *pl;
      *pl = o;
    }
    else if (op == "file") {
      FILE *f = tmpfile();
      pl->write(f);
      rewind(f);
      pl.reset(new PatternList());
      pl->read(f);
      fclose(f);
    }
    else if (op == "serialise") {
      std::stringstream st;
      pl->serialise(st);
      pl.reset(new PatternList());
      pl->deserialise(st);
    }
    else if (op == "exe") exe.reset(pl->newMatchExe());
    else if (op == "exe-copy") exe.reset(new MatchExe(*exe));
    else if (op == "exe-assign") {
      MatchExe e;
      e = *exe;
      exe.reset(new MatchExe());
      *exe = e;
    }
    else if (op == "state-copy") ms.reset(new MatchState(*ms));
    else if (op == "state-assign") {
      MatchState o;
      o = *ms;
      *ms = o;
    }
    else if (op == "init") ms->init(exe->getInitial());
    else if (op == "clear") ms->clear();
    else if (op == "step") {
      Alphabet& a = pl->getAlphabet();
      for (size_t i = 1; i < p.size(); i++) {
        UString u = in16(p[i]);
        if (u.size() > 1 && u[0] == '<') {
          ms->step(a.isSymbolDefined(u) ? a(u) : 0, a(PatternList::ANY_TAG));
        } else {
          UChar32 c;
          U16_GET(u.data(), 0, 0, u.size(), c);
          ms->step(c, a(PatternList::ANY_CHAR));
        }
      }
    }
    else if (op == "class") {
      std::set<int> banned;
      for (size_t i = 1; i < p.size(); i++) banned.insert(atoi(p[i].c_str()));
      std::cout << (banned.empty() ? ms->classifyFinals(exe->getFinals()) : ms->classifyFinals(exe->getFinals(), banned))
                << "\t" << ms->size() << "\n";
    }
  }
  return 0;
}

static double bits(const std::string& s)
{
  uint64_t i = strtoull(s.c_str(), 0, 16);
  double d;
  memcpy(&d, &i, 8);
  return d;
}

static std::string bits(double d)
{
  uint64_t i;
  memcpy(&i, &d, 8);
  char b[40];
  snprintf(b, sizeof b, "%llx", (unsigned long long)i);
  return b;
}

static UString hex16(const std::string& s)
{
  UString u;
  for (size_t i = 0; i + 4 <= s.size(); i += 4) u.push_back((UChar)strtoul(s.substr(i, 4).c_str(), 0, 16));
  return u;
}

static std::string hex16(const UString& u)
{
  std::string r;
  for (auto c : u) {
    char b[8];
    snprintf(b, sizeof b, "%04x", (unsigned)(uint16_t)c);
    r += b;
  }
  return r;
}

typedef std::map<int, std::multimap<int, std::pair<int, double>>> Nested;

// codec f|s LENGTH: lines TYPE \t VALUE...; all are written to a file or a stream, which is cut to the length (if not
// negative), and read back
static int codec(int argc, char **argv)
{
  bool file = argv[0][0] == 'f';
  long cut = atol(argv[1]);
  FILE *f = tmpfile();
  std::stringstream st;
  std::vector<std::vector<std::string>> all;
  std::string line;
  while (std::getline(std::cin, line)) all.push_back(fields(line));
  std::vector<long> ends;
  for (auto& p : all) {
    std::string& t = p[0];
    std::string v = p.size() > 1 ? p[1] : "";
    if (t == "i32") Serialiser<int32_t>::serialise(strtol(v.c_str(), 0, 10), st);
    else if (t == "u32") Serialiser<uint32_t>::serialise(strtoul(v.c_str(), 0, 10), st);
    else if (t == "i64") Serialiser<int64_t>::serialise(strtoll(v.c_str(), 0, 10), st);
    else if (t == "u64") Serialiser<uint64_t>::serialise(strtoull(v.c_str(), 0, 10), st);
    else if (t == "chr") Serialiser<char>::serialise((char)strtol(v.c_str(), 0, 10), st);
    else if (t == "uch") Serialiser<UChar>::serialise((UChar)strtol(v.c_str(), 0, 10), st);
    else if (t == "dbl") Serialiser<double>::serialise(bits(v), st);
    else if (t == "str") Serialiser<UString>::serialise(hex16(v), st);
    else if (t == "vec") {
      std::vector<UString> x;
      for (size_t i = 1; i < p.size(); i++) x.push_back(hex16(p[i]));
      Serialiser<std::vector<UString>>::serialise(x, st);
    }
    else if (t == "map") {
      std::map<int, double> x;
      for (size_t i = 1; i + 1 < p.size(); i += 2) x[atoi(p[i].c_str())] = bits(p[i + 1]);
      Serialiser<std::map<int, double>>::serialise(x, st);
    }
    else if (t == "nest") {
      Nested x;
      for (size_t i = 1; i + 3 < p.size(); i += 4) {
        x[atoi(p[i].c_str())].insert({atoi(p[i + 1].c_str()), {atoi(p[i + 2].c_str()), bits(p[i + 3])}});
      }
      Serialiser<Nested>::serialise(x, st);
    }
    else if (t == "mb" && file) Compression::multibyte_write(strtoul(v.c_str(), 0, 10), f);
    else if (t == "mb") Compression::multibyte_write(strtoul(v.c_str(), 0, 10), st);
    else if (t == "lmb" && file) Compression::long_multibyte_write(bits(v), f);
    else if (t == "lmb") Compression::long_multibyte_write(bits(v), st);
    else if (t == "ustr") Compression::string_write(hex16(v), f);
    ends.push_back(file ? ftell(f) : (long)st.tellp());
  }
  std::stringstream in(cut < 0 ? st.str() : st.str().substr(0, cut));
  rewind(f);
  size_t n = 0;
  try {
    for (; n < all.size(); n++) {
      auto& p = all[n];
      std::string& t = p[0];
      std::string o;
      if (t == "i32") o = std::to_string(Deserialiser<int32_t>::deserialise(in));
      else if (t == "u32") o = std::to_string(Deserialiser<uint32_t>::deserialise(in));
      else if (t == "i64") o = std::to_string(Deserialiser<int64_t>::deserialise(in));
      else if (t == "u64") o = std::to_string(Deserialiser<uint64_t>::deserialise(in));
      else if (t == "chr") o = std::to_string((int)(signed char)Deserialiser<char>::deserialise(in));
      else if (t == "uch") o = std::to_string((int)(uint16_t)Deserialiser<UChar>::deserialise(in));
      else if (t == "dbl") o = bits(Deserialiser<double>::deserialise(in));
      else if (t == "str") o = hex16(Deserialiser<UString>::deserialise(in));
      else if (t == "vec") {
        bool first = true;
        for (auto& x : Deserialiser<std::vector<UString>>::deserialise(in)) {
          o += (first ? "" : "\t") + hex16(x);
          first = false;
        }
      }
      else if (t == "map") {
        for (auto& x : Deserialiser<std::map<int, double>>::deserialise(in)) {
          o += (o.empty() ? "" : "\t") + std::to_string(x.first) + "\t" + bits(x.second);
        }
      }
      else if (t == "nest") {
        for (auto& x : Deserialiser<Nested>::deserialise(in)) {
          for (auto& y : x.second) {
            o += (o.empty() ? "" : "\t") + std::to_string(x.first) + "\t" + std::to_string(y.first) + "\t" +
              std::to_string(y.second.first) + "\t" + bits(y.second.second);
          }
        }
      }
      else if (t == "mb") o = std::to_string(file ? Compression::multibyte_read(f) : Compression::multibyte_read(in));
      else if (t == "lmb") o = bits(file ? Compression::long_multibyte_read(f) : Compression::long_multibyte_read(in));
      else if (t == "ustr") o = hex16(Compression::string_read(f));
      std::cout << t << "\t" << o << "\t" << (file ? ftell(f) : (long)in.tellg()) << "\t" << ends[n] << "\n";
    }
    std::cout << "end\n";
  } catch (const DeserialisationException&) {
    std::cout << "cut\t" << ends[n] << "\n";
  }
  fclose(f);
  return 0;
}

// input FILE...: lines OPERATION \t argument, done on one InputFile over the files
static int input(int argc, char **argv)
{
  InputFile in;
  std::vector<std::string> mem;
  for (int i = 0; i < argc; i++) {
    FILE *f = fopen(argv[i], "rb");
    std::string t;
    for (int c; (c = fgetc(f)) != EOF;) t += (char)c;
    fclose(f);
    mem.push_back(t);
  }
  std::vector<std::string> lines;
  for (std::string l; std::getline(std::cin, l);) lines.push_back(l);
  UChar32 last = 0;
  for (auto& l : lines) {
    auto f = fields(l);
    auto& o = f[0];
    if (o == "open") std::cout << in.open(argv[atoi(f[1].c_str())]);
    else if (o == "std") std::cout << (freopen(argv[atoi(f[1].c_str())], "rb", stdin) && in.open(nullptr));
    else if (o == "mem") std::cout << in.open_in_memory(&mem[atoi(f[1].c_str())][0]);
    else if (o == "wrap") { in.wrap(fopen(argv[atoi(f[1].c_str())], "rb")); std::cout << 1; }
    else if (o == "close") { in.close(); std::cout << 1; }
    else if (o == "rewind") { in.rewind(); std::cout << 1; }
    else if (o == "get") std::cout << (last = in.get());
    else if (o == "peek") std::cout << in.peek();
    else if (o == "unget") { in.unget(f[1].empty() ? last : atoi(f[1].c_str())); std::cout << 1; }
    else if (o == "eof") std::cout << in.eof();
    else if (o == "block") std::cout << hex16(in.readBlock(f[1][0], f[2][0]));
    else if (o == "wblank") std::cout << hex16(in.finishWBlank());
    else if (o == "blank") std::cout << hex16(in.readBlank(f[1] == "1"));
    std::cout << "\n" << std::flush;
  }
  return 0;
}

// reader FILE ADD TAG...: everything that a StreamReader finds in the file
static int reader(int argc, char **argv)
{
  InputFile in;
  in.open_or_exit(argv[0]);
  StreamReader r(&in);
  Alphabet a;
  for (int i = 2; i < argc; i++) a.includeSymbol(in16(argv[i]));
  if (argv[1][0] != '-') r.alpha = &a;
  r.add_unknowns = argv[1][0] == '1';
  for (long n = 0; !r.at_eof && n < 1000000; n++) {
    r.next();
    std::cout << hex16(r.blank) << "\t" << hex16(r.wblank) << "\t" << hex16(r.chunk) << "\t" << r.at_null << "\t" << r.at_eof;
    for (auto& x : r.readings) {
      std::cout << "\t" << x.mark << " " << hex16(x.content);
      for (auto y : x.symbols) {
        if (y < 0) {
          UString t;
          a.getSymbol(t, y);
          std::cout << " t" << hex16(t);
        }
        else std::cout << " " << y;
      }
    }
    std::cout << "\n";
  }
  r.next();
  std::cout << "again\t" << r.blank.size() << r.wblank.size() << r.chunk.size() << r.readings.size() << r.at_eof << "\n";
  return 0;
}

// text: lines FUNCTION \t argument...; arguments and results are UTF-16 in hexadecimal
static int text()
{
  std::string l;
  while (std::getline(std::cin, l)) {
    auto f = fields(l);
    auto& o = f[0];
    std::vector<std::unique_ptr<UChar[]>> bufs;   // exactly as long as the texts
    std::vector<size_t> lens;
    for (size_t i = 1; i < f.size(); i++) {
      UString u = hex16(f[i]);
      bufs.emplace_back(new UChar[u.size()]);
      std::copy(u.begin(), u.end(), bufs.back().get());
      lens.push_back(u.size());
    }
    auto v = [&](size_t i) { return UStringView(bufs.at(i).get(), lens.at(i)); };
    auto list = [](const std::vector<UString>& r) {
      std::string x = std::to_string(r.size());
      for (auto& y : r) x += " " + hex16(y);
      return x;
    };
    std::string r;
    try {
      if (o == "trim") r = hex16(UString(StringUtils::trim(v(0))));
      else if (o == "split") r = list(StringUtils::split(v(0), v(1)));
      else if (o == "split_escaped") r = list(StringUtils::split_escaped(v(0), v(1)[0]));
      else if (o == "join") {
        std::vector<UString> x;
        for (size_t i = 1; i < bufs.size(); i++) x.emplace_back(v(i));
        r = hex16(StringUtils::join(x, v(0)));
      }
      else if (o == "substitute") r = hex16(StringUtils::substitute(v(0), v(1), v(2)));
      else if (o == "itoa") r = hex16(StringUtils::itoa(std::stoi(out8(v(0))))) + " " + StringUtils::itoa_string(std::stoi(out8(v(0))));
      else if (o == "ftoa") r = hex16(StringUtils::ftoa(std::stod(out8(v(0)))));
      else if (o == "stoi") r = std::to_string(StringUtils::stoi(UString(v(0))));
      else if (o == "stod") r = bits(StringUtils::stod(UString(v(0))));
      else if (o == "tolower") r = hex16(StringUtils::tolower(v(0)));
      else if (o == "toupper") r = hex16(StringUtils::toupper(v(0)));
      else if (o == "totitle") r = hex16(StringUtils::totitle(v(0)));
      else if (o == "getcase") r = hex16(StringUtils::getcase(v(0)));
      else if (o == "copycase") r = hex16(StringUtils::copycase(v(0), v(1)));
      else if (o == "caseequal") r = StringUtils::caseequal(v(0), v(1)) ? "1" : "0";
      else if (o == "startswith") r = StringUtils::startswith(v(0), v(1)) ? "1" : "0";
      else if (o == "endswith") r = StringUtils::endswith(v(0), v(1)) ? "1" : "0";
      else if (o == "merge_wblanks") r = hex16(StringUtils::merge_wblanks(v(0), v(1)));
      else if (o == "vec32") {
        std::vector<int32_t> x{7};
        ustring_to_vec32(v(0), x);
        UString back;
        for (size_t i = 1; i < x.size(); i++) {
          r += " " + std::to_string(x[i]);
          back += static_cast<UChar32>(x[i]);
        }
        r += " " + hex16(back) + " " + std::to_string(x[0]);
      }
      else if (o == "utf8") r = hex16(to_ustring(out8(v(0)).c_str()));
    } catch (const std::invalid_argument&) {
      r = "refused";
    }
    std::cout << r << "\n" << std::flush;
  }
  return 0;
}

int main(int argc, char **argv)
{
  LtLocale::tryToSetLocale();
  if (argc < 2) return 2;
  std::string m = argv[1];
  if (m == "api") return api(argc - 2, argv + 2);
  if (m == "match") return match();
  if (m == "codec") return codec(argc - 2, argv + 2);
  if (m == "text") return text();
  if (m == "input") return input(argc - 2, argv + 2);
  if (m == "reader") return reader(argc - 2, argv + 2);
  return 2;
}
