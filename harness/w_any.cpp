// Whatever a reader accepts can be used: written in every format, refactored, linearized, measured, played, exported.
#include "streamgen.hpp"
#include <IOHaptics/include/IOBinary.h>
#include <IOHaptics/include/IOJson.h>
#include <IOHaptics/include/IOStream.h>
#include <Synthesizer/include/Helper.h>
#include <Tools/include/OHMData.h>
#include <rapidjson/document.h>
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>
using namespace vf;
using haptics::io::IOBinary;
using haptics::io::IOJson;
using haptics::io::IOStream;
using haptics::synthesizer::Helper;
using haptics::tools::OHMData;
using RV = rapidjson::Value;

static void leaves(RV &v, std::vector<std::pair<std::string, RV *>> &out, const std::string &name = "") {
  if (v.IsObject())
    for (auto &m : v.GetObject()) leaves(m.value, out, m.name.GetString());
  else if (v.IsArray())
    for (auto &e : v.GetArray()) leaves(e, out, name);
  else
    out.emplace_back(name, &v);
}
static void arrays(RV &v, std::vector<RV *> &out) {
  if (v.IsArray()) {
    out.push_back(&v);
    for (auto &e : v.GetArray()) arrays(e, out);
  } else if (v.IsObject())
    for (auto &m : v.GetObject()) arrays(m.value, out);
}
static const std::vector<long long> edges = {0, 1, -1, 2, 7, 8, 15, 16, 127, 128, -128, -129, 255, 256, 257, 1000, 4095, 4096, 32767, 32768, 65535, 65536, 16777215, 16777216, 1073741824, 2147483647, -2147483647, -2147483648LL};
static const std::vector<double> reals = {0, 1, -1, 0.5, 1.0000001, 255, 256, 1e-30, 1e-45, 1e9, 1e15, 3.4e38, -3.4e38, 3e9, -3e9, 4294967295.0, 4294967296.0};
static void nudge(RV &v, const std::string &name, Rng &r, rapidjson::Document::AllocatorType &al) {
  if (v.IsInt() || v.IsUint()) {
    long long x;
    if (r.chance(0.25)) x = v.GetInt64() + r.range(-3, 3);
    else if (r.chance(0.5)) x = r.pick(edges);
    else x = r.range(-2147483648LL, 2147483647LL) >> r.range(0, 30);
    if (v.IsUint() && x < 0 && r.chance(0.7)) x = -(x + 1);
    if (r.chance(0.03)) x = 4294967295LL - r.range(0, 3);
    if (x < 0) v.SetInt((int)x); else v.SetUint((unsigned)x);
  } else if (v.IsNumber()) {
    v.SetDouble(r.chance(0.6) ? r.pick(reals) : r.real(-1, 1) * std::pow(10, r.real(-40, 38)));
  } else if (v.IsString()) {
    std::string s = v.GetString();
    if (name == "version" || name == "date") {
      static const std::vector<std::string> w = {"", "0", "abcd", "2023", "2023-1", "-1", "99999999999999999999", "2023-01-01", "1990-13-77", "20x3", " 7", "70000", "2147483648"};
      s = r.pick(w);
    } else if (r.chance(0.5)) {
      s = std::string((size_t)(r.chance(0.1) ? r.range(250, 70000) : r.range(0, 40)), (char)r.range(32, 126));
    } else if (name == "bitstream" || name == "data") {
      static const std::string b = "ABCDwxyz0189+/";
      s.clear();
      for (int i = 0; i < 4 * (int)r.range(0, 200); i++) s += b[(size_t)r.range(0, 13)];
    }
    v.SetString(s.c_str(), (unsigned)s.size(), al);
  }
}
static void shake(Rng &r, const std::string &f) {
  auto s = readAll(f);
  rapidjson::Document d;
  d.Parse(s.data(), s.size());
  if (d.HasParseError()) return;
  auto &al = d.GetAllocator();
  int n = (int)r.range(1, 8);
  for (int i = 0; i < n; i++) {
    if (r.chance(0.75)) {
      std::vector<std::pair<std::string, RV *>> all;
      leaves(d, all);
      if (all.empty()) break;
      auto p = r.pick(all);
      nudge(*p.second, p.first, r, al);
    } else {
      std::vector<RV *> a;
      arrays(d, a);
      RV *x = r.pick(a);
      if (x->Size() == 0) continue;
      auto k = (rapidjson::SizeType)r.range(0, x->Size() - 1);
      if (r.chance(0.4)) {
        x->Erase(x->Begin() + k);
      } else {
        RV *y = r.chance(0.6) ? x : r.pick(a); // the same item again, or elsewhere
        RV c((*x)[k], al);
        y->PushBack(c, al);
      }
    }
  }
  rapidjson::StringBuffer b;
  rapidjson::Writer<rapidjson::StringBuffer> w(b);
  d.Accept(w);
  writeAll(f, std::string(b.GetString(), b.GetSize()));
}
static double until(ht::Effect &e) {
  double t = e.getPosition(), last = 0;
  for (int i = 0; i < (int)e.getKeyframesSize(); i++) last = std::max(last, std::fabs((double)e.getKeyframeAt(i).getRelativePosition().value_or(0)));
  t += last;
  for (int i = 0; i < (int)e.getTimelineSize(); i++) t = std::max(t, until(e.getTimelineEffectAt(i)));
  return t;
}
// the last tick of anything
static double span(ht::Haptics &h) {
  double t = 0;
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++) {
    auto &p = h.getPerceptionAt(i);
    for (int j = 0; j < (int)p.getEffectLibrarySize(); j++) t = std::max(t, until(p.getBasisEffectAt(j)));
    for (int j = 0; j < (int)p.getChannelsSize(); j++)
      for (int k = 0; k < (int)p.getChannelAt(j).getBandsSize(); k++) {
        auto &b = p.getChannelAt(j).getBandAt(k);
        for (int l = 0; l < (int)b.getEffectsSize(); l++) t = std::max(t, until(b.getEffectAt(l)));
      }
  }
  return t;
}
static void use(Rng &r, ht::Haptics &h, const std::string &txt, int what, bool fromHjif) {
  static const char *names[] = {"stream", "binary", "hjif", "refactor", "linearize", "play", "metadata", "query"};
  std::string op = names[what], f = R.tmp + "/u." + op;
  std::string ctx = op + " of " + txt.substr(0, 300);
  R.stat(op);
  if (what == 0) {
    int pd = (int)r.pick(std::vector<int>{128, 1, 20, 1000, 100000, (int)r.range(1, 5000)});
    double t = span(h);
    // keep the number of packets reasonable
    while (pd < 16777215 && t / pd > 5000) pd = std::min(pd * 10, 16777215);
    unlink(f.c_str());
    bool ok = IOStream::writeFile(h, f, pd);
    R.stat(ok ? "stream-written" : "stream-refused");
    if (ok) {
      ht::Haptics g;
      bool again = IOStream::readFile(f, g);
      VCHECK(again, "stream-unreadable", pd << " " << ctx);
    }
  } else if (what == 1) {
    unlink(f.c_str());
    bool ok = IOBinary::writeFile(h, f);
    R.stat(ok ? "binary-written" : "binary-refused");
    if (ok) {
      ht::Haptics g;
      VCHECK(IOBinary::loadFile(f, g), "binary-unreadable", ctx);
    }
  } else if (what == 2) {
    bool ok = IOJson::writeFile(h, f);
    VCHECK(ok, "hjif-refused", ctx);
    ht::Haptics g;
    if (ok && fromHjif) VCHECK(IOJson::loadFile(f, g), "hjif-unreadable", ctx);
  } else if (what == 3 || what == 4) {
    if (what == 3) h.refactor(); else h.linearize();
    VCHECK(IOJson::writeFile(h, f), "changed-refused", ctx);
  } else if (what == 5) {
    double t = Helper::getTimeLength(h);
    VCHECK(std::isfinite(t), "length", t << " " << ctx);
    unsigned ts = h.getTimescaleOrDefault();
    if (!(span(h) / ts < 100)) { // curves are laid out whole
      R.stat("play-long");
      return;
    }
    double few = r.real(0, 400) * ts / 1000.0;
    int fs = (int)r.pick(std::vector<int>{8000, 1000, 100, 1, 44100});
    (void)Helper::playFile(h, std::min(t, few), fs, (int)r.range(0, 30), f);
  } else if (what == 6) {
    std::string n = "a.wav";
    auto o = h.extractMetadataToOHM(n);
    o.writeFile(f);
    VCHECK(o.getHapticElementMetadataSize() <= h.getPerceptionsSize(), "elements", o.getHapticElementMetadataSize() << " " << ctx);
  } else {
    unsigned ts = h.getTimescaleOrDefault();
    for (int i = 0; i < (int)h.getPerceptionsSize(); i++)
      for (int k = 0; k < (int)h.getPerceptionAt(i).getChannelsSize(); k++) {
        auto &c = h.getPerceptionAt(i).getChannelAt(k);
        for (int q = 0; q < 4; q++) {
          double at = r.chance(0.5) ? r.real(0, 20000) : r.real(-1e9, 4e9);
          (void)c.Evaluate(at, ts);
        }
        (void)c.findBandAvailable((int)r.range(-1000, 2000000000), (int)r.range(0, 10000), static_cast<ht::BandType>(r.range(0, 3)));
      }
  }
}
static void accepted(Rng &r, long) {
  int kind = (int)r.range(0, 9);
  std::string f = R.tmp + "/in", txt;
  std::function<bool(ht::Haptics &)> load;
  if (kind < 6) {
    GenOpt o;
    o.composite = true;
    o.maxPerceptions = 2;
    o.maxChannels = 2;
    o.maxBands = 3;
    if (r.chance(0.3)) o.posMax = o.relPosMax = 1000000000;
    Gen g(r, o);
    auto h = g.haptics();
    IOJson::writeFile(h, f);
    if (r.chance(0.9)) shake(r, f);
    load = [f](ht::Haptics &h) { return IOJson::loadFile(f, h); };
    R.stat("from-hjif");
    txt = readAll(f);
  } else {
    StreamOpt so;
    Gen g(r, streamGenOpt(so));
    auto h = g.haptics();
    prune(h);
    fitStream(h, r, so, g);
    bool stream = kind < 8;
    if (stream) IOStream::writeFile(h, f, (int)r.pick(std::vector<int>{128, 1000, 50}));
    else IOBinary::writeFile(h, f);
    auto b = readAll(f);
    for (int i = 0; i < (int)r.range(0, 6) && !b.empty(); i++) b[(size_t)r.range(0, (long long)b.size() - 1)] ^= (char)(1 << r.range(0, 7));
    writeAll(f, b);
    load = [f, stream](ht::Haptics &h) { return stream ? IOStream::readFile(f, h) : IOBinary::loadFile(f, h); };
    R.stat(stream ? "from-stream" : "from-binary");
    txt = hex(b);
  }
  R.identity(hashStr(txt), true);
  ht::Haptics first;
  if (!load(first)) {
    R.stat("refused");
    return;
  }
  R.stat("accepted");
  R.sample((kind < 6 ? "HJIF " : "bytes ") + txt.substr(0, 600));
  for (int what = 0; what < 8; what++) {
    ht::Haptics h;
    if (!load(h)) {
      VCHECK(false, "second-load", txt.substr(0, 300));
      return;
    }
    use(r, h, txt, what, kind < 6);
    if (r.chance(0.2)) use(r, h, txt, (int)r.range(0, 7), kind < 6);
  }
}
int main(int argc, char **argv) {
  Modes m;
  m["accepted"] = {accepted};
  return workerMain(argc, argv, m);
}
