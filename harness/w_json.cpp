// HJIF (JSON) workloads: round trip, conformance verdicts, malformed documents.
#include "format.hpp"
#include <IOHaptics/include/IOJson.h>
#include <rapidjson/document.h>
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>
using namespace vf;
using haptics::io::IOJson;
using RV = rapidjson::Value;

// ---- independent reading of an HJIF document (field names of the HJIF format) -----------------
static void num(Dump &d, const std::string &p, const RV &o, const char *k, bool asFloat = false) {
  if (o.HasMember(k) && o[k].IsNumber())
    d[p] = Val::n(asFloat ? (double)o[k].GetFloat() : o[k].GetDouble());
}
static void text(Dump &d, const std::string &p, const RV &o, const char *k) {
  if (o.HasMember(k) && o[k].IsString()) d[p] = Val::t(std::string(o[k].GetString(), o[k].GetStringLength()));
}
static void vec(Dump &d, const std::string &p, const RV &o) {
  num(d, p + ".X", o, "X");
  num(d, p + ".Y", o, "Y");
  num(d, p + ".Z", o, "Z");
}
// 6 bits per character, bit stream read most significant first; bytes filled least significant first
static std::string b64(const std::string &s) {
  static const std::string A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::vector<int> bits;
  for (char c : s) {
    auto v = A.find(c);
    if (v == std::string::npos) return "?";
    for (int i = 5; i >= 0; i--) bits.push_back((int)(v >> i) & 1);
  }
  while (!bits.empty() && !bits.back()) bits.pop_back();
  std::string out((bits.size() + 7) / 8, 0);
  for (size_t i = 0; i < bits.size(); i++)
    if (bits[i]) out[i / 8] = (char)(out[i / 8] | (1 << (i % 8)));
  return hex(out, 100000);
}
static void jEffect(Dump &d, const std::string &p, const RV &e) {
  d[p + ".id"] = Val::n(-1);
  num(d, p + ".id", e, "id");
  num(d, p + ".position", e, "position");
  d[p + ".type"] = Val::t(e["effect_type"].GetString());
  num(d, p + ".phase", e, "phase", true);
  if (e.HasMember("base_signal"))
    d[p + ".signal"] = Val::t(e["base_signal"].GetString());
  text(d, p + ".semantic", e, "semantic_keywords");
  size_t n = e.HasMember("keyframes") ? e["keyframes"].Size() : 0;
  d[p + ".#keyframes"] = Val::n((double)n);
  for (size_t k = 0; k < n; k++) {
    const RV &f = e["keyframes"][(rapidjson::SizeType)k];
    std::string q = p + ".kf[" + std::to_string(k) + "]";
    num(d, q + ".pos", f, "relative_position");
    num(d, q + ".amp", f, "amplitude_modulation", true);
    num(d, q + ".freq", f, "frequency_modulation");
  }
  d[p + ".#timeline"] = Val::n(0);
  d[p + ".bitstream"] = Val::t(e.HasMember("wavelet_stream") ? b64(e["wavelet_stream"].GetString()) : "");
}
static Dump jsonDump(const RV &j) {
  Dump d;
  text(d, "version", j, "version");
  text(d, "profile", j, "profile");
  num(d, "level", j, "level");
  text(d, "date", j, "date");
  text(d, "description", j, "description");
  num(d, "timescale", j, "timescale");
  d["#avatars"] = Val::n(j["avatars"].Size());
  int i = 0;
  for (auto &a : j["avatars"].GetArray()) {
    std::string p = "a[" + std::to_string(i++) + "]";
    num(d, p + ".id", a, "id");
    num(d, p + ".lod", a, "lod");
    d[p + ".type"] = Val::t(a["type"].GetString());
    text(d, p + ".mesh", a, "mesh");
  }
  d["#syncs"] = Val::n(j["syncs"].Size());
  i = 0;
  for (auto &a : j["syncs"].GetArray()) {
    std::string p = "s[" + std::to_string(i++) + "]";
    num(d, p + ".timestamp", a, "timestamp");
    num(d, p + ".timescale", a, "timescale");
  }
  d["#perceptions"] = Val::n(j["perceptions"].Size());
  i = 0;
  for (auto &q : j["perceptions"].GetArray()) {
    std::string p = "p[" + std::to_string(i++) + "]";
    num(d, p + ".id", q, "id");
    num(d, p + ".avatar", q, "avatar_id");
    text(d, p + ".description", q, "description");
    d[p + ".modality"] =
        Val::t(q["perception_modality"].GetString());
    num(d, p + ".priority", q, "priority");
    text(d, p + ".scheme", q, "effect_semantic_scheme");
    num(d, p + ".unitexp", q, "unit_exponent");
    num(d, p + ".punitexp", q, "perception_unit_exponent");
    d[p + ".#refdevs"] = Val::n(q["reference_devices"].Size());
    int k = 0;
    for (auto &r : q["reference_devices"].GetArray()) {
      std::string s = p + ".rd[" + std::to_string(k++) + "]";
      num(d, s + ".id", r, "id");
      text(d, s + ".name", r, "name");
      num(d, s + ".bodymask", r, "body_part_mask");
      num(d, s + ".maxfreq", r, "maximum_frequency", true);
      num(d, s + ".minfreq", r, "minimum_frequency", true);
      num(d, s + ".resfreq", r, "resonance_frequency", true);
      num(d, s + ".maxamp", r, "maximum_amplitude", true);
      num(d, s + ".impedance", r, "impedance", true);
      num(d, s + ".maxvolt", r, "maximum_voltage", true);
      num(d, s + ".maxcurrent", r, "maximum_current", true);
      num(d, s + ".maxdisp", r, "maximum_displacement", true);
      num(d, s + ".weight", r, "weight", true);
      num(d, s + ".size", r, "size", true);
      num(d, s + ".custom", r, "custom", true);
      if (r.HasMember("type")) d[s + ".type"] = Val::t(r["type"].GetString());
    }
    d[p + ".#library"] = Val::n(q["effect_library"].Size());
    k = 0;
    for (auto &e : q["effect_library"].GetArray()) jEffect(d, p + ".lib[" + std::to_string(k++) + "]", e);
    d[p + ".#channels"] = Val::n(q["channels"].Size());
    k = 0;
    for (auto &c : q["channels"].GetArray()) {
      std::string s = p + ".c[" + std::to_string(k++) + "]";
      num(d, s + ".id", c, "id");
      text(d, s + ".description", c, "description");
      num(d, s + ".gain", c, "gain", true);
      num(d, s + ".mixing", c, "mixing_coefficient", true);
      num(d, s + ".bodymask", c, "body_part_mask");
      num(d, s + ".priority", c, "priority");
      num(d, s + ".refdev", c, "reference_device_id");
      num(d, s + ".fs", c, "frequency_sampling");
      num(d, s + ".samplecount", c, "sample_count");
      if (c.HasMember("direction")) vec(d, s + ".direction", c["direction"]);
      if (c.HasMember("actuator_resolution")) vec(d, s + ".resolution", c["actuator_resolution"]);
      if (c.HasMember("body_part_target")) {
        int m = 0;
        d[s + ".#bodytarget"] = Val::n(c["body_part_target"].Size());
        for (auto &t : c["body_part_target"].GetArray())
          d[s + ".bodytarget[" + std::to_string(m++) + "]"] =
              Val::t(t.GetString());
      }
      if (c.HasMember("actuator_target")) {
        int m = 0;
        d[s + ".#actuatortarget"] = Val::n(c["actuator_target"].Size());
        for (auto &t : c["actuator_target"].GetArray())
          vec(d, s + ".actuatortarget[" + std::to_string(m++) + "]", t);
      }
      size_t nv = c.HasMember("vertices") ? c["vertices"].Size() : 0;
      d[s + ".#vertices"] = Val::n((double)nv);
      for (size_t m = 0; m < nv; m++)
        d[s + ".vertex[" + std::to_string(m) + "]"] = Val::n(c["vertices"][(rapidjson::SizeType)m].GetDouble());
      d[s + ".#bands"] = Val::n(c["bands"].Size());
      int b = 0;
      for (auto &w : c["bands"].GetArray()) {
        std::string t = s + ".b[" + std::to_string(b++) + "]";
        d[t + ".type"] = Val::t(w["band_type"].GetString());
        if (w.HasMember("curve_type")) d[t + ".curve"] = Val::t(w["curve_type"].GetString());
        num(d, t + ".blocklength", w, "block_length");
        num(d, t + ".low", w, "lower_frequency_limit");
        num(d, t + ".high", w, "upper_frequency_limit");
        num(d, t + ".priority", w, "priority");
        d[t + ".#effects"] = Val::n(w["effects"].Size());
        int x = 0;
        for (auto &e : w["effects"].GetArray()) jEffect(d, t + ".e[" + std::to_string(x++) + "]", e);
      }
    }
  }
  return d;
}

static double exact(const std::string &) { return 0; }

static size_t countEffects(ht::Haptics &h) {
  size_t n = 0;
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++)
    for (int c = 0; c < (int)h.getPerceptionAt(i).getChannelsSize(); c++)
      for (int b = 0; b < (int)h.getPerceptionAt(i).getChannelAt(c).getBandsSize(); b++)
        n += h.getPerceptionAt(i).getChannelAt(c).getBandAt(b).getEffectsSize();
  return n;
}

static void roundtrip(Rng &r, long) {
  GenOpt o;
  o.composite = false;
  Gen g(r, o);
  auto h = g.haptics();
  auto want = dumpHaptics(h);
  R.identity(hashDump(want), countEffects(h) > 0);
  R.stat("fields_compared", (double)want.size());
  R.stat("effects", (double)countEffects(h));
  R.sample(showDump(want, 900));
  std::string f1 = R.tmp + "/a.hjif", f2 = R.tmp + "/b.hjif";
  IOJson::writeFile(h, f1);
  auto after = dumpHaptics(h);
  compareDumps(want, after, exact, "hjif-write-modifies-input");
  auto txt = readAll(f1);
  rapidjson::Document doc;
  doc.Parse(txt.data(), txt.size());
  VCHECK(!doc.HasParseError() && doc.IsObject(), "hjif-output-not-json", txt.substr(0, 300));
  ht::Haptics h2;
  bool ok = IOJson::loadFile(f1, h2);
  VCHECK(ok, "hjif-roundtrip-rejected", txt.substr(0, 500));
  auto got = dumpHaptics(h2);
  compareDumps(want, got, exact, "hjif-roundtrip");
  IOJson::writeFile(h2, f2);
  VCHECK(readAll(f2) == txt, "hjif-rewrite-differs", "second serialisation differs from the first");
}

// the keywords the software itself has for the enumerations of a dump
static Dump inOwnWords(Dump d) {
  auto put = [](Val &v, const auto &table) {
    for (auto &kv : table)
      if (static_cast<int>(kv.first) == (int)v.d) return void(v = Val::t(kv.second));
  };
  for (auto &kv : d) {
    auto *t = kv.second.num ? codesOf(kv.first) : nullptr;
    if (!t) continue;
    if (t == &codesAvatarType()) put(kv.second, ht::avatarTypeToString);
    if (t == &codesActuatorType()) put(kv.second, ht::actuatorTypeToString);
    if (t == &codesBandType()) put(kv.second, ht::bandTypeToString);
    if (t == &codesEffectType()) put(kv.second, ht::effectTypeToString);
    if (t == &codesPerceptionModality()) put(kv.second, ht::perceptionModalityToString);
    if (t == &codesCurveType()) put(kv.second, ht::curveTypeToString);
    if (t == &codesBaseSignal()) put(kv.second, ht::baseSignalToString);
    if (t == &codesBodyPartTarget()) put(kv.second, ht::bodyPartTargetToString);
  }
  return d;
}
// every member of the text under the name, and in the words, the format has for it
static void layout(Rng &r, long) {
  GenOpt o;
  o.composite = false;
  Gen g(r, o);
  auto h = g.haptics();
  auto want = published(dumpHaptics(h), true);
  R.identity(hashDump(want), h.getPerceptionsSize() > 0);
  R.stat("fields_compared", (double)want.size());
  R.sample(showDump(want, 900));
  std::string f = R.tmp + "/a.hjif";
  IOJson::writeFile(h, f);
  auto txt = readAll(f);
  R.stat("bytes", (double)txt.size());
  rapidjson::Document doc;
  doc.Parse(txt.data(), txt.size());
  VCHECK(!doc.HasParseError() && doc.IsObject(), "layout:not-json", txt.substr(0, 300));
  if (!doc.HasParseError() && doc.IsObject()) compareDumps(want, jsonDump(doc), exact, "layout");
}
// ---- conformance ----------------------------------------------------------------------------
struct Rule {
  const char *name;
  std::function<bool(ht::Haptics &, Gen &)> apply; // returns false when not applicable
  bool expectAccept = false;
};
static ht::Perception *anyP(ht::Haptics &h, Rng &r) {
  if (!h.getPerceptionsSize()) return nullptr;
  return &h.getPerceptionAt((int)r.range(0, (long long)h.getPerceptionsSize() - 1));
}
static ht::Channel *anyC(ht::Haptics &h, Rng &r, ht::Perception **pp = nullptr) {
  std::vector<std::pair<ht::Channel *, ht::Perception *>> v;
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++)
    for (int c = 0; c < (int)h.getPerceptionAt(i).getChannelsSize(); c++)
      v.push_back({&h.getPerceptionAt(i).getChannelAt(c), &h.getPerceptionAt(i)});
  if (v.empty()) return nullptr;
  auto x = r.pick(v);
  if (pp) *pp = x.second;
  return x.first;
}
static ht::Band *anyB(ht::Haptics &h, Rng &r, const std::function<bool(ht::Band &)> &f,
                      ht::Perception **pp = nullptr, bool nonEmpty = false) {
  std::vector<std::pair<ht::Band *, ht::Perception *>> v;
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++)
    for (int c = 0; c < (int)h.getPerceptionAt(i).getChannelsSize(); c++)
      for (int b = 0; b < (int)h.getPerceptionAt(i).getChannelAt(c).getBandsSize(); b++) {
        auto &x = h.getPerceptionAt(i).getChannelAt(c).getBandAt(b);
        if (f(x) && (!nonEmpty || x.getEffectsSize())) v.push_back({&x, &h.getPerceptionAt(i)});
      }
  if (v.empty()) return nullptr;
  auto x = r.pick(v);
  if (pp) *pp = x.second;
  return x.first;
}
static bool always(ht::Band &) { return true; }
using BT = ht::BandType;

// two different positive reals, from neighbouring floats to far apart
static std::pair<float, float> apart(Rng &r) {
  float lo = r.chance(0.3) ? (float)r.range(1, 1000) : (float)r.real(0.1, 1000);
  float hi = lo;
  switch (r.range(0, 3)) {
  case 0: hi = std::nextafter(lo, 1e9F); break;
  case 1: hi = lo * 1.0001F; break;
  case 2: hi = lo + (float)r.real(0.05, 1); break;
  default: hi = lo + (float)r.real(1, 1000);
  }
  return {lo, hi};
}
static std::array<int, 3> direction(Rng &r) {
  double a = r.real(0, 6.2832), z = r.real(-1, 1), q = std::sqrt(1 - z * z);
  if (r.chance(0.2)) z = 0, q = 1;
  double s = r.chance(0.5) ? 127 : r.chance(0.5) ? r.real(110, 145) : r.real(0, 200);
  auto c = [&](double v) { return std::max(-127, std::min(127, (int)std::lround(v * s))); };
  return {c(q * std::cos(a)), c(q * std::sin(a)), c(z)};
}
static double norm(const std::array<int, 3> &d) {
  return std::sqrt((double)d[0] * d[0] + (double)d[1] * d[1] + (double)d[2] * d[2]) / 127.0;
}

static std::vector<Rule> rules() {
  std::vector<Rule> v;
  auto rej = [&](const char *n, std::function<bool(ht::Haptics &, Gen &)> f) { v.push_back({n, f, false}); };
  auto acc = [&](const char *n, std::function<bool(ht::Haptics &, Gen &)> f) { v.push_back({n, f, true}); };
  acc("unchanged", [](ht::Haptics &, Gen &) { return true; });
  // the writer substitutes a valid version and date, so those two are mutated in the text (below)
  rej("profile", [](ht::Haptics &h, Gen &g) {
    std::string s = g.r.pick(std::vector<std::string>{"", "main", "Main ", "Simple", "SimpleParametric",
                                                      "Simple Parametric ", "Other", "Main1"});
    h.setProfile(s);
    return true;
  });
  rej("level", [](ht::Haptics &h, Gen &g) {
    h.setLevel((uint8_t)(g.r.chance(0.5) ? 0 : g.r.range(3, 255)));
    return true;
  });
  rej("timescale-main", [](ht::Haptics &h, Gen &g) {
    if (h.getProfile() != "Main") return false;
    h.setTimescale((unsigned)(g.r.chance(0.5) ? 48001 : g.r.range(48001, 4294967295LL)));
    return true;
  });
  acc("timescale-main-bound", [](ht::Haptics &h, Gen &) {
    if (h.getProfile() != "Main") return false;
    h.setTimescale(48000U);
    return true;
  });
  rej("timescale-simple", [](ht::Haptics &h, Gen &g) {
    if (h.getProfile() == "Main") return false;
    h.setTimescale((unsigned)g.r.pick(std::vector<int>{1, 999, 1001, 8000, 48000}));
    return true;
  });
  rej("timescale-zero", [](ht::Haptics &h, Gen &) {
    h.setTimescale(0U);
    return true;
  });
  rej("avatar-mesh-empty", [](ht::Haptics &h, Gen &g) {
    if (!h.getAvatarsSize()) return false;
    std::string m;
    auto &a = h.getAvatarAt((int)g.r.range(0, (long long)h.getAvatarsSize() - 1));
    if (g.r.chance(0.5)) a.setType(ht::AvatarType::Custom);
    a.setMesh(m);
    return a.getType() == ht::AvatarType::Custom;
  });
  rej("scheme-empty", [](ht::Haptics &h, Gen &g) {
    auto *p = anyP(h, g.r);
    if (!p) return false;
    std::string s;
    p->setEffectSemanticScheme(s);
    return true;
  });
  acc("semantic-of-other-scheme", [](ht::Haptics &h, Gen &g) {
    ht::Perception *p = nullptr;
    auto *b = anyB(h, g.r, always, &p, true);
    if (!b) return false;
    std::string u = g.r.pick(std::vector<std::string>{"urn:other", "urn:mpeg:mpegi:haptics:effectsemantic:2024", "x"});
    p->setEffectSemanticScheme(u);
    std::string s = g.r.pick(std::vector<std::string>{"UX", "UX/click", "Foo/Bar", "anything"});
    b->getEffectAt((int)g.r.range(0, (long long)b->getEffectsSize() - 1)).setSemantic(s);
    return true;
  });
  rej("avatar-id-zero", [](ht::Haptics &h, Gen &g) {
    if (!h.getAvatarsSize()) return false;
    ht::Avatar a(0, 1, ht::AvatarType::Vibration);
    (void)g;
    h.addAvatar(a);
    return true;
  });
  rej("avatar-id-dup", [](ht::Haptics &h, Gen &g) {
    if (!h.getAvatarsSize()) return false;
    ht::Avatar a(h.getAvatarAt((int)g.r.range(0, (long long)h.getAvatarsSize() - 1)).getId(), 1,
                 ht::AvatarType::Pressure);
    h.addAvatar(a);
    return true;
  });
  rej("perception-id-dup", [](ht::Haptics &h, Gen &g) {
    auto *p = anyP(h, g.r);
    if (!p) return false;
    ht::Perception q(p->getId(), 0, "dup", ht::PerceptionModality::Vibrotactile);
    h.addPerception(q);
    return true;
  });
  rej("perception-avatar-missing", [](ht::Haptics &h, Gen &g) {
    auto *p = anyP(h, g.r);
    if (!p) return false;
    int id = 1;
    for (bool again = true; again;) {
      again = false;
      for (int i = 0; i < (int)h.getAvatarsSize(); i++)
        if (h.getAvatarAt(i).getId() == id) {
          id++;
          again = true;
        }
    }
    p->setAvatarId(id);
    return true;
  });
  acc("perception-avatar-none", [](ht::Haptics &h, Gen &g) {
    auto *p = anyP(h, g.r);
    if (!p) return false;
    p->setAvatarId(0);
    return true;
  });
  rej("modality-simple-level1", [](ht::Haptics &h, Gen &g) {
    auto *p = anyP(h, g.r);
    if (!p || h.getProfile() == "Main" || h.getLevel() != 1) return false;
    p->setPerceptionModality(g.r.pick(std::vector<ht::PerceptionModality>{
        ht::PerceptionModality::Other, ht::PerceptionModality::Pressure, ht::PerceptionModality::Acceleration,
        ht::PerceptionModality::Velocity, ht::PerceptionModality::Position, ht::PerceptionModality::Temperature,
        ht::PerceptionModality::Water, ht::PerceptionModality::Wind, ht::PerceptionModality::Friction,
        ht::PerceptionModality::Electrotactile}));
    return true;
  });
  acc("modality-simple-level2", [](ht::Haptics &h, Gen &g) {
    auto *p = anyP(h, g.r);
    if (!p || h.getProfile() == "Main" || h.getLevel() != 2) return false;
    p->setPerceptionModality(ht::PerceptionModality::Temperature);
    return true;
  });
  rej("channel-id-dup", [](ht::Haptics &h, Gen &g) {
    ht::Perception *p = nullptr;
    auto *c = anyC(h, g.r, &p);
    if (!c) return false;
    ht::Channel d(c->getId(), "dup", 1, 1, 0);
    p->addChannel(d);
    return true;
  });
  acc("channel-id-same-in-other-perception", [](ht::Haptics &h, Gen &g) {
    ht::Perception *p = nullptr;
    auto *c = anyC(h, g.r, &p);
    if (!c || h.getPerceptionsSize() < 2) return false;
    for (int i = 0; i < (int)h.getPerceptionsSize(); i++) {
      auto &q = h.getPerceptionAt(i);
      if (&q == p) continue;
      bool has = false;
      for (int k = 0; k < (int)q.getChannelsSize(); k++) has = has || q.getChannelAt(k).getId() == c->getId();
      if (has || q.getChannelsSize() >= 100) continue;
      ht::Channel d(c->getId(), "dup", 1, 1, 0);
      q.addChannel(d);
      return true;
    }
    return false;
  });
  rej("channels-level1", [](ht::Haptics &h, Gen &g) {
    auto *p = anyP(h, g.r);
    if (!p || h.getLevel() != 1) return false;
    int id = 0;
    size_t n = g.r.chance(0.5) ? 128 : 130;
    while (p->getChannelsSize() < n) {
      bool used = false;
      for (int k = 0; k < (int)p->getChannelsSize(); k++) used = used || p->getChannelAt(k).getId() == id;
      if (!used) {
        ht::Channel d(id, "", 1, 1, 0);
        p->addChannel(d);
      }
      id++;
    }
    return true;
  });
  acc("channels-level1-bound", [](ht::Haptics &h, Gen &g) {
    auto *p = anyP(h, g.r);
    if (!p) return false;
    int id = 0;
    size_t n = h.getLevel() == 1 ? 127 : 300;
    while (p->getChannelsSize() < n) {
      bool used = false;
      for (int k = 0; k < (int)p->getChannelsSize(); k++) used = used || p->getChannelAt(k).getId() == id;
      if (!used) {
        ht::Channel d(id, "", 1, 1, 0);
        p->addChannel(d);
      }
      id++;
    }
    return true;
  });
  rej("bands-level1", [](ht::Haptics &h, Gen &g) {
    auto *c = anyC(h, g.r);
    if (!c || h.getLevel() != 1) return false;
    while (c->getBandsSize() <= 7) {
      ht::Band b(BT::VectorialWave, 0, 10);
      c->addBand(b);
    }
    return true;
  });
  rej("bands-level2", [](ht::Haptics &h, Gen &g) {
    auto *c = anyC(h, g.r);
    if (!c || h.getLevel() != 2) return false;
    size_t n = g.r.chance(0.7) ? 64 : g.r.chance(0.5) ? 65 : 300;
    while (c->getBandsSize() < n) {
      ht::Band b(BT::VectorialWave, 0, 10);
      c->addBand(b);
    }
    return true;
  });
  acc("bands-bound", [](ht::Haptics &h, Gen &g) {
    auto *c = anyC(h, g.r);
    if (!c) return false;
    while (c->getBandsSize() < (h.getLevel() == 1 ? 7U : 63U)) {
      ht::Band b(BT::VectorialWave, 0, 10);
      c->addBand(b);
    }
    return true;
  });
  rej("refdev-id-dup", [](ht::Haptics &h, Gen &g) {
    auto *p = anyP(h, g.r);
    if (!p || !p->getReferenceDevicesSize()) return false;
    ht::ReferenceDevice d(p->getReferenceDeviceAt(0).getId(), "dup");
    p->addReferenceDevice(d);
    return true;
  });
  rej("refdev-min-max", [](ht::Haptics &h, Gen &g) {
    auto *p = anyP(h, g.r);
    if (!p || !p->getReferenceDevicesSize()) return false;
    ht::ReferenceDevice d(2000000001, "x");
    auto [lo, hi] = apart(g.r);
    d.setMinimumFrequency(hi);
    d.setMaximumFrequency(lo);
    if (g.r.chance(0.3)) d.setResonanceFrequency(g.r.chance(0.5) ? lo : hi);
    p->addReferenceDevice(d);
    return true;
  });
  rej("refdev-res-low", [](ht::Haptics &h, Gen &g) {
    auto *p = anyP(h, g.r);
    if (!p) return false;
    ht::ReferenceDevice d(2000000001, "x");
    auto [lo, hi] = apart(g.r);
    d.setMinimumFrequency(hi);
    d.setResonanceFrequency(lo);
    if (g.r.chance(0.5)) d.setMaximumFrequency(g.r.chance(0.5) ? hi : hi + 100);
    p->addReferenceDevice(d);
    return true;
  });
  rej("refdev-res-high", [](ht::Haptics &h, Gen &g) {
    auto *p = anyP(h, g.r);
    if (!p) return false;
    ht::ReferenceDevice d(2000000001, "x");
    auto [lo, hi] = apart(g.r);
    d.setMaximumFrequency(lo);
    d.setResonanceFrequency(hi);
    if (g.r.chance(0.5)) d.setMinimumFrequency(g.r.chance(0.5) ? lo : lo / 2);
    p->addReferenceDevice(d);
    return true;
  });
  acc("refdev-ordered-freqs", [](ht::Haptics &h, Gen &g) {
    auto *p = anyP(h, g.r);
    if (!p) return false;
    ht::ReferenceDevice d(2000000001, "x");
    auto [lo, hi] = apart(g.r);
    int k = (int)g.r.range(0, 3);
    if (k != 0) d.setMinimumFrequency(lo);
    if (k != 1) d.setMaximumFrequency(hi);
    if (k != 2) d.setResonanceFrequency(g.r.chance(0.5) ? lo : hi);
    p->addReferenceDevice(d);
    return true;
  });
  acc("refdev-equal-freqs", [](ht::Haptics &h, Gen &g) {
    auto *p = anyP(h, g.r);
    if (!p) return false;
    ht::ReferenceDevice d(2000000001, "x");
    d.setMaximumFrequency(100);
    d.setResonanceFrequency(100);
    d.setMinimumFrequency(100);
    p->addReferenceDevice(d);
    return true;
  });
  rej("channel-refdev-missing", [](ht::Haptics &h, Gen &g) {
    auto *c = anyC(h, g.r);
    if (!c) return false;
    c->setReferenceDeviceId(2000000002);
    return true;
  });
  rej("channel-refdev-of-other-perception", [](ht::Haptics &h, Gen &g) {
    ht::Perception *p = nullptr;
    auto *c = anyC(h, g.r, &p);
    if (!c || h.getPerceptionsSize() < 2) return false;
    for (int i = 0; i < (int)h.getPerceptionsSize(); i++) {
      auto &q = h.getPerceptionAt(i);
      if (&q == p) continue;
      ht::ReferenceDevice d(2000000003, "x");
      q.addReferenceDevice(d);
      c->setReferenceDeviceId(2000000003);
      return true;
    }
    return false;
  });
  rej("direction-not-unit", [](ht::Haptics &h, Gen &g) {
    auto *c = anyC(h, g.r);
    if (!c) return false;
    static const std::vector<std::array<int, 3>> dirs = {
        {0, 0, 0}, {127, 127, 0}, {64, 0, 0}, {0, -60, 10}, {127, -127, 127}, {90, 90, 90}, {1, 1, 1}};
    auto d = g.r.pick(dirs);
    if (g.r.chance(0.7)) {
      double n = 1;
      do {
        d = direction(g.r);
        n = norm(d);
      } while (n > 0.9895 && n < 1.0105);
    }
    c->setDirection(ht::Vector((int8_t)d[0], (int8_t)d[1], (int8_t)d[2]));
    return true;
  });
  acc("direction-unit", [](ht::Haptics &h, Gen &g) {
    auto *c = anyC(h, g.r);
    if (!c) return false;
    auto d = direction(g.r);
    while (norm(d) < 0.9905 || norm(d) > 1.0095) d = direction(g.r);
    c->setDirection(ht::Vector((int8_t)d[0], (int8_t)d[1], (int8_t)d[2]));
    return true;
  });
  rej("resolution-negative", [](ht::Haptics &h, Gen &g) {
    auto *c = anyC(h, g.r);
    if (!c) return false;
    int v[3] = {5, 5, 5};
    v[g.r.range(0, 2)] = -(int)g.r.range(1, 128);
    c->setActuatorTarget(std::nullopt);
    c->setActuatorResolution(ht::Vector((int8_t)v[0], (int8_t)v[1], (int8_t)v[2]));
    return true;
  });
  rej("target-out-of-resolution", [](ht::Haptics &h, Gen &g) {
    auto *c = anyC(h, g.r);
    if (!c) return false;
    int res[3] = {(int)g.r.range(0, 120), (int)g.r.range(0, 120), (int)g.r.range(0, 120)};
    std::vector<ht::Vector> t;
    int n = (int)g.r.range(1, 4), bad = (int)g.r.range(0, n - 1), axis = (int)g.r.range(0, 2);
    bool low = g.r.chance(0.5);
    for (int i = 0; i < n; i++) {
      int w[3];
      for (int k = 0; k < 3; k++) {
        w[k] = (int)g.r.range(0, res[k]);
        if (i == bad && k == axis) w[k] = low ? -1 : res[k] + 1;
      }
      t.emplace_back((int8_t)w[0], (int8_t)w[1], (int8_t)w[2]);
    }
    c->setActuatorResolution(ht::Vector((int8_t)res[0], (int8_t)res[1], (int8_t)res[2]));
    c->setActuatorTarget(t);
    return true;
  });
  acc("target-at-resolution", [](ht::Haptics &h, Gen &g) {
    auto *c = anyC(h, g.r);
    if (!c) return false;
    c->setActuatorResolution(ht::Vector(3, 0, 127));
    c->setActuatorTarget(std::vector<ht::Vector>{ht::Vector(3, 0, 127), ht::Vector(0, 0, 0)});
    return true;
  });
  rej("target-without-resolution", [](ht::Haptics &h, Gen &g) {
    auto *c = anyC(h, g.r);
    if (!c) return false;
    c->setActuatorResolution(std::nullopt);
    c->setActuatorTarget(std::vector<ht::Vector>{ht::Vector(0, 0, 0)});
    return true;
  });
  rej("blocklength-not-pow2", [](ht::Haptics &h, Gen &g) {
    auto *b = anyB(h, g.r, [](ht::Band &x) { return x.getBandType() == BT::WaveletWave; });
    if (!b) return false;
    b->setBlockLength(g.r.pick(std::vector<int>{3, 5, 6, 7, 12, 15, 17, 100, 511, 513, 1000, 3072}));
    if (g.r.chance(0.6)) {
      int v = 1 << g.r.range(1, 28);
      b->setBlockLength(g.r.chance(0.5) ? v * 2 + 1 : g.r.chance(0.5) ? v * 4 - 1 : v * 3);
    }
    return true;
  });
  acc("blocklength-pow2", [](ht::Haptics &h, Gen &g) {
    auto *b = anyB(h, g.r, [](ht::Band &x) { return x.getBandType() == BT::WaveletWave; });
    if (!b) return false;
    b->setBlockLength(1 << g.r.range(0, 30));
    return true;
  });
  rej("wavelet-in-simple", [](ht::Haptics &h, Gen &g) {
    auto *c = anyC(h, g.r);
    if (!c || h.getProfile() == "Main" || c->getBandsSize() >= 7) return false;
    ht::Band b(BT::WaveletWave, 0, 1000);
    b.setBlockLength(512);
    c->addBand(b);
    return true;
  });
  rej("band-limits", [](ht::Haptics &h, Gen &g) {
    auto *b = anyB(h, g.r, always);
    if (!b) return false;
    int hi = (int)g.r.range(0, 1000);
    b->setUpperFrequencyLimit(hi);
    b->setLowerFrequencyLimit(hi + (int)(g.r.chance(0.5) ? 1 : g.r.range(1, 1000)));
    return true;
  });
  acc("band-limits-equal", [](ht::Haptics &h, Gen &g) {
    auto *b = anyB(h, g.r, always);
    if (!b) return false;
    b->setUpperFrequencyLimit(77);
    b->setLowerFrequencyLimit(77);
    return true;
  });
  rej("reference-unknown", [](ht::Haptics &h, Gen &g) {
    auto *b = anyB(h, g.r, [](ht::Band &x) { return x.getBandType() != BT::WaveletWave; });
    if (!b) return false;
    ht::Effect e(123456, ht::EffectType::Reference);
    e.setId(2000000005);
    b->addEffect(e);
    return true;
  });
  rej("reference-in-other-library", [](ht::Haptics &h, Gen &g) {
    ht::Perception *p = nullptr;
    auto *b = anyB(h, g.r, [](ht::Band &x) { return x.getBandType() != BT::WaveletWave; }, &p);
    if (!b || h.getPerceptionsSize() < 2) return false;
    for (int i = 0; i < (int)h.getPerceptionsSize(); i++) {
      auto &q = h.getPerceptionAt(i);
      if (&q == p) continue;
      ht::Effect l(0, ht::EffectType::Basis);
      l.setId(2000000006);
      q.addBasisEffect(l);
      ht::Effect e(123456, ht::EffectType::Reference);
      e.setId(2000000006);
      b->addEffect(e);
      return true;
    }
    return false;
  });
  acc("reference-known", [](ht::Haptics &h, Gen &g) {
    ht::Perception *p = nullptr;
    auto *b = anyB(h, g.r, [](ht::Band &x) { return x.getBandType() != BT::WaveletWave; }, &p);
    if (!b) return false;
    ht::Effect l(0, ht::EffectType::Basis);
    l.setId(2000000006);
    p->addBasisEffect(l);
    ht::Effect e(123456, ht::EffectType::Reference);
    e.setId(2000000006);
    b->addEffect(e);
    return true;
  });
  rej("library-id-dup", [](ht::Haptics &h, Gen &g) {
    auto *p = anyP(h, g.r);
    if (!p) return false;
    for (int k = 0; k < 2; k++) {
      ht::Effect l(k, ht::EffectType::Basis);
      l.setId(2000000007);
      p->addBasisEffect(l);
    }
    return true;
  });
  rej("semantic-unknown", [](ht::Haptics &h, Gen &g) {
    auto *b = anyB(h, g.r, always, nullptr, true);
    if (!b) return false;
    std::string s = g.r.pick(std::vector<std::string>{"", "UX", "UX/click", "Click", "UX/Click ", "Foo/Bar"});
    b->getEffectAt((int)g.r.range(0, (long long)b->getEffectsSize() - 1)).setSemantic(s);
    return true;
  });
  rej("composite-in-simple", [](ht::Haptics &h, Gen &g) {
    auto *b = anyB(h, g.r, always);
    if (!b || h.getProfile() == "Main") return false;
    ht::Effect e(5, ht::EffectType::Composite);
    b->addEffect(e);
    return true;
  });
  rej("library-composite-in-simple", [](ht::Haptics &h, Gen &g) {
    auto *p = anyP(h, g.r);
    if (!p || h.getProfile() == "Main") return false;
    ht::Effect e(5, ht::EffectType::Composite);
    e.setId(2000000008);
    p->addBasisEffect(e);
    return true;
  });
  return v;
}
struct TextRule {
  const char *name, *member;
  std::vector<std::string> values;
  bool accept;
};
static const std::vector<TextRule> &textRules() {
  static const std::vector<TextRule> v = {
      {"version-bad", "version", {"2022", "1999", "2023-0", "2023-", "2023-10", "23", "", "abcd", "2023 ", " 2023", "20233", "2023-a", "v2023", "2023.1"}, false},
      {"version-good", "version", {"2023", "2024", "9999", "2023-1", "2030-9"}, true},
      {"date-bad", "date", {"", "today", "99", "20a3-01", "-", "1-1-1"}, false},
      {"date-good", "date", {"2023", "2023-01", "2023-12-31", "2023-12-31T23:59:59+01:00"}, true}};
  return v;
}
static void dumpDoc(const rapidjson::Document &d, const std::string &path) {
  rapidjson::StringBuffer sb;
  rapidjson::Writer<rapidjson::StringBuffer> w(sb);
  d.Accept(w);
  writeAll(path, std::string(sb.GetString(), sb.GetSize()));
}
static void conformance(Rng &r, long idx) {
  static const auto rs = rules();
  GenOpt o;
  o.minPerceptions = 1;
  o.maxPerceptions = 3;
  o.maxBitstream = 10;
  Gen g(r, o);
  auto h = g.haptics();
  size_t total = rs.size() + textRules().size();
  size_t which = (size_t)idx % total;
  std::string f = R.tmp + "/c.hjif";
  std::string name;
  bool expect = true;
  if (which < rs.size()) {
    int tries = 0;
    while (!rs[which].apply(h, g)) {
      if (++tries > 60) {
        R.stat("rule_not_applicable");
        return;
      }
      h = g.haptics();
    }
    name = rs[which].name;
    expect = rs[which].expectAccept;
    IOJson::writeFile(h, f);
    // the curve-type rule concerns text the writer never emits
    if (name == "unchanged" && r.chance(0.0)) return;
  } else {
    auto &t = textRules()[which - rs.size()];
    IOJson::writeFile(h, f);
    rapidjson::Document d;
    auto s = readAll(f);
    d.Parse(s.data(), s.size());
    auto val = r.pick(t.values);
    d[t.member].SetString(val.c_str(), d.GetAllocator());
    dumpDoc(d, f);
    name = std::string(t.name);
    expect = t.accept;
  }
  R.identity(hashStr(readAll(f)) ^ hashStr(name), true);
  R.stat("rule:" + name);
  R.sample(name + " expect=" + (expect ? "accept" : "reject") + " " + readAll(f).substr(0, 400));
  ht::Haptics h2;
  bool ok = IOJson::loadFile(f, h2);
  VCHECK(ok == expect, std::string("conformance:") + (expect ? "rejected-valid:" : "accepted-invalid:") + name,
         readAll(f).substr(0, 400));
}
// curve type on a non-curve band, keyframes in a wavelet band: only expressible in the text
static void conformanceText(Rng &r, long) {
  GenOpt o;
  o.minPerceptions = 1;
  o.maxChannels = 2;
  o.maxBitstream = 10;
  Gen g(r, o);
  std::string f = R.tmp + "/c.hjif";
  for (int tries = 0; tries < 60; tries++) {
    auto h = g.haptics();
    IOJson::writeFile(h, f);
    rapidjson::Document d;
    auto s = readAll(f);
    d.Parse(s.data(), s.size());
    auto &al = d.GetAllocator();
    std::vector<RV *> nonCurve, wavEff, curve;
    for (auto &p : d["perceptions"].GetArray())
      for (auto &c : p["channels"].GetArray())
        for (auto &b : c["bands"].GetArray()) {
          std::string t = b["band_type"].GetString();
          if (t != "Curve") nonCurve.push_back(&b);
          else curve.push_back(&b);
          if (t == "WaveletWave")
            for (auto &e : b["effects"].GetArray()) wavEff.push_back(&e);
        }
    int which = (int)r.range(0, 2);
    std::string name;
    bool expect = false;
    if (which == 0 && !nonCurve.empty()) {
      r.pick(nonCurve)->AddMember("curve_type", RV("Cubic", al), al);
      name = "curve-type-on-non-curve";
    } else if (which == 1 && !wavEff.empty()) {
      RV arr(rapidjson::kArrayType), k(rapidjson::kObjectType);
      k.AddMember("relative_position", 0, al);
      k.AddMember("amplitude_modulation", 0.5, al);
      arr.PushBack(k, al);
      auto *e = r.pick(wavEff);
      e->RemoveMember("keyframes");
      e->AddMember("keyframes", arr, al);
      name = "keyframes-in-wavelet";
    } else if (which == 2 && !curve.empty()) {
      auto *b = r.pick(curve);
      b->RemoveMember("curve_type");
      name = "curve-without-type";
      expect = true;
    } else
      continue;
    dumpDoc(d, f);
    R.identity(hashStr(readAll(f)), true);
    R.stat("rule:" + name);
    ht::Haptics h2;
    bool ok = IOJson::loadFile(f, h2);
    VCHECK(ok == expect, std::string("conformance:") + (expect ? "rejected-valid:" : "accepted-invalid:") + name,
           readAll(f).substr(0, 400));
    return;
  }
  R.stat("rule_not_applicable");
}
static void conf(Rng &r, long idx) {
  if (idx % 12 == 11) conformanceText(r, idx);
  else conformance(r, idx - (idx + 1) / 12);
}

// the number of channels at level 2 is the largest limit there is
static void large(Rng &r, long idx) {
  bool expect = idx % 2 == 1;
  size_t n = expect ? 65535 : 65536;
  std::string t = "{\"version\":\"2024\",\"profile\":\"Main\",\"level\":2,\"date\":\"2024\",\"description\":\"\",\"timescale\":1000,\"avatars\":[],"
                  "\"syncs\":[],\"perceptions\":[{\"id\":1,\"avatar_id\":0,\"description\":\"\",\"perception_modality\":\"Vibrotactile\","
                  "\"reference_devices\":[],\"effect_library\":[],\"channels\":[";
  for (size_t i = 0; i < n; i++)
    t += std::string(i ? "," : "") + "{\"id\":" + std::to_string(i) + ",\"description\":\"\",\"gain\":1,\"mixing_coefficient\":1,\"body_part_mask\":0,\"bands\":[]}";
  t += "]}]}";
  std::string f = R.tmp + "/l.hjif";
  writeAll(f, t);
  R.identity((uint64_t)n, true);
  R.stat("rule:channels-level2");
  ht::Haptics h;
  bool ok = IOJson::loadFile(f, h);
  VCHECK(ok == expect, std::string("conformance:") + (expect ? "rejected-valid:" : "accepted-invalid:") + "channels-level2", n);
}

// ---- malformed ------------------------------------------------------------------------------
struct Item {
  RV *array;
  rapidjson::SizeType index;
  std::string kind, dumpPath;
};
static RV randomValue(Rng &r, rapidjson::Document::AllocatorType &al) {
  RV v;
  switch (r.range(0, 12)) {
  case 0: v.SetNull(); break;
  case 1: v.SetBool(r.chance(0.5)); break;
  case 2: v.SetInt((int)r.range(-5, 300)); break;
  case 3: v.SetInt64(r.range(-9223372036854775807LL, 9223372036854775807LL)); break;
  case 4: v.SetUint64(r.next()); break;
  case 5: v.SetDouble(r.real(-1e6, 1e6)); break;
  case 6: v.SetDouble(1e300 * r.real(-1, 1)); break;
  case 7: v.SetString("", al); break;
  case 8: v.SetString("Basis", al); break;
  case 9: v.SetString("no such keyword \xc3\xa9", al); break;
  case 10: v.SetArray(); break;
  case 11: v.SetObject(); break;
  default: {
    v.SetArray();
    v.PushBack(RV(1), al);
    v.PushBack(RV("x", al), al);
    RV o(rapidjson::kObjectType);
    o.AddMember("X", 1000, al);
    o.AddMember("id", 5, al);
    v.PushBack(o, al);
  }
  }
  return v;
}
static void collect(RV &v, std::vector<RV *> &objs, std::vector<RV *> &arrs) {
  if (v.IsObject()) {
    objs.push_back(&v);
    for (auto &m : v.GetObject()) collect(m.value, objs, arrs);
  } else if (v.IsArray()) {
    arrs.push_back(&v);
    for (auto &e : v.GetArray()) collect(e, objs, arrs);
  }
}
static const std::map<std::string, std::vector<std::pair<std::string, char>>> &requiredFields() {
  // i integer, s string, n number, a array
  static const std::map<std::string, std::vector<std::pair<std::string, char>>> m = {
      {"avatar", {{"id", 'i'}, {"lod", 'i'}, {"type", 'e'}}},
      {"sync", {{"timestamp", 'i'}}},
      {"perception",
       {{"id", 'i'}, {"avatar_id", 'i'}, {"description", 's'}, {"perception_modality", 'e'}, {"channels", 'a'}, {"effect_library", 'a'}}},
      {"refdev", {{"id", 'i'}, {"name", 's'}}},
      {"channel",
       {{"id", 'i'}, {"description", 's'}, {"gain", 'n'}, {"mixing_coefficient", 'n'}, {"body_part_mask", 'u'}, {"bands", 'a'}}},
      {"band", {{"band_type", 'e'}, {"lower_frequency_limit", 'i'}, {"upper_frequency_limit", 'i'}, {"effects", 'a'}}},
      {"effect", {{"effect_type", 'e'}, {"position", 'i'}}},
      {"library", {{"effect_type", 'e'}, {"position", 'i'}, {"id", 'i'}}}};
  return m;
}
static RV wrongFor(char t, Rng &r, rapidjson::Document::AllocatorType &al) {
  for (;;) {
    RV v = randomValue(r, al);
    bool valid = false;
    switch (t) {
    case 'i': valid = v.IsInt(); break;
    case 'u': valid = v.IsUint(); break;
    case 'n': valid = v.IsNumber(); break;
    case 's': valid = v.IsString(); break;
    case 'e': valid = v.IsString() && std::string(v.GetString()) == "Basis"; break;
    case 'a': valid = v.IsArray(); break;
    }
    if (!valid) return v;
  }
}
static void skipItem(Rng &r, long) {
  GenOpt o;
  o.minPerceptions = 1;
  o.maxBitstream = 10;
  Gen g(r, o);
  std::string f = R.tmp + "/m.hjif", f2 = R.tmp + "/n.hjif";
  for (int tries = 0; tries < 60; tries++) {
    auto h = g.haptics();
    IOJson::writeFile(h, f);
    rapidjson::Document d;
    auto s = readAll(f);
    d.Parse(s.data(), s.size());
    auto &al = d.GetAllocator();
    std::vector<Item> items;
    auto addAll = [&](RV &arr, const char *kind) {
      for (rapidjson::SizeType i = 0; i < arr.Size(); i++) items.push_back({&arr, i, kind, ""});
    };
    addAll(d["avatars"], "avatar");
    addAll(d["syncs"], "sync");
    addAll(d["perceptions"], "perception");
    for (auto &p : d["perceptions"].GetArray()) {
      addAll(p["reference_devices"], "refdev");
      addAll(p["effect_library"], "library");
      addAll(p["channels"], "channel");
      for (auto &c : p["channels"].GetArray()) {
        addAll(c["bands"], "band");
        for (auto &b : c["bands"].GetArray()) addAll(b["effects"], "effect");
      }
    }
    if (items.empty()) continue;
    // choose the kind first so that rare kinds are exercised as often as effects
    std::set<std::string> kinds;
    for (auto &i : items) kinds.insert(i.kind);
    auto kind = r.pick(std::vector<std::string>(kinds.begin(), kinds.end()));
    std::vector<Item> sel;
    for (auto &i : items)
      if (i.kind == kind) sel.push_back(i);
    auto it = r.pick(sel);
    // expected: the same document without this item
    rapidjson::Document d2;
    RV &victim = (*it.array)[it.index];
    std::string what;
    if (r.chance(0.15)) {
      what = "not-object";
      RV v = randomValue(r, al);
      while (v.IsObject()) v = randomValue(r, al);
      victim = v;
    } else {
      auto fld = r.pick(requiredFields().at(kind));
      if (r.chance(0.5)) {
        what = "missing:" + fld.first;
        victim.RemoveMember(fld.first.c_str());
      } else {
        what = "wrong:" + fld.first;
        victim[fld.first.c_str()] = wrongFor(fld.second, r, al);
      }
    }
    dumpDoc(d, f2);
    it.array->Erase(it.array->Begin() + it.index);
    Dump want = jsonDump(d);
    R.identity(hashStr(readAll(f2)), true);
    R.stat("skipped:" + kind);
    R.sample(kind + " " + what);
    ht::Haptics h2;
    (void)IOJson::loadFile(f2, h2);
    auto got = inOwnWords(dumpHaptics(h2));
    compareDumps(want, got, exact, "hjif-skip-invalid:" + kind + ":" + what, readAll(f2).substr(0, 300));
    return;
  }
}
// an invalid optional field is ignored: the document loads as if it were absent
static void optionalField(Rng &r, long) {
  static const std::map<std::string, std::vector<std::pair<std::string, char>>> opt = {
      {"avatar", {{"mesh", 's'}}},
      {"sync", {{"timescale", 'u'}}},
      {"perception", {{"priority", 'i'}, {"unit_exponent", '8'}, {"perception_unit_exponent", '8'}, {"effect_semantic_scheme", 's'}}},
      {"refdev", {{"body_part_mask", 'u'}, {"maximum_frequency", 'n'}, {"minimum_frequency", 'n'}, {"resonance_frequency", 'n'},
                  {"maximum_amplitude", 'n'}, {"impedance", 'n'}, {"maximum_voltage", 'n'}, {"maximum_current", 'n'},
                  {"maximum_displacement", 'n'}, {"weight", 'n'}, {"size", 'n'}, {"custom", 'n'}, {"type", 'e'}}},
      {"channel", {{"priority", 'i'}, {"reference_device_id", 'i'}, {"frequency_sampling", 'u'}, {"sample_count", 'u'},
                   {"direction", 'v'}, {"actuator_resolution", 'v'}, {"vertices", 'a'}, {"body_part_target", 'a'}, {"actuator_target", 'a'}}},
      {"band", {{"curve_type", 'e'}, {"priority", 'i'}}},
      {"effect", {{"phase", 'n'}, {"base_signal", 'e'}, {"semantic_keywords", 's'}, {"keyframes", 'a'}}},
      {"library", {{"phase", 'n'}, {"base_signal", 'e'}, {"semantic_keywords", 's'}, {"keyframes", 'a'}}},
      {"keyframe", {{"relative_position", 'i'}, {"amplitude_modulation", 'n'}, {"frequency_modulation", 'i'}}}};
  GenOpt o;
  o.minPerceptions = 1;
  o.maxBitstream = 10;
  Gen g(r, o);
  std::string f = R.tmp + "/o.hjif";
  for (int tries = 0; tries < 60; tries++) {
    auto h = g.haptics();
    IOJson::writeFile(h, f);
    rapidjson::Document d;
    auto s = readAll(f);
    d.Parse(s.data(), s.size());
    auto &al = d.GetAllocator();
    std::map<std::string, std::vector<RV *>> items;
    auto addAll = [&](RV &arr, const char *kind) {
      for (auto &x : arr.GetArray()) items[kind].push_back(&x);
    };
    auto kfs = [&](RV &effects) {
      for (auto &e : effects.GetArray())
        if (e.HasMember("keyframes")) addAll(e["keyframes"], "keyframe");
    };
    addAll(d["avatars"], "avatar");
    addAll(d["syncs"], "sync");
    addAll(d["perceptions"], "perception");
    for (auto &p : d["perceptions"].GetArray()) {
      addAll(p["reference_devices"], "refdev");
      addAll(p["effect_library"], "library");
      kfs(p["effect_library"]);
      addAll(p["channels"], "channel");
      for (auto &c : p["channels"].GetArray()) {
        addAll(c["bands"], "band");
        for (auto &b : c["bands"].GetArray()) {
          addAll(b["effects"], "effect");
          kfs(b["effects"]);
        }
      }
    }
    if (r.chance(0.05)) { // a level that does not fit is not another level
      d["level"].SetUint(256U * (unsigned)r.range(1, 1000) + (unsigned)r.range(1, 2));
      dumpDoc(d, f);
      R.identity(hashStr(readAll(f)), true);
      ht::Haptics h2;
      VCHECK(!IOJson::loadFile(f, h2), "hjif-level-wrapped", "level " << d["level"].GetUint());
      return;
    }
    std::vector<std::pair<std::string, std::pair<std::string, char>>> fields;
    for (auto &k : opt)
      if (!items[k.first].empty())
        for (auto &x : k.second) fields.push_back({k.first, x});
    if (fields.empty()) continue;
    auto fld = r.pick(fields);
    auto &victim = *r.pick(items[fld.first]);
    const auto &name = fld.second.first;
    char t = fld.second.second;
    RV bad;
    if (t == '8' || (t == 'v' && r.chance(0.6))) {
      int v = r.chance(0.5) ? (int)r.range(128, 1000) : -(int)r.range(129, 1000);
      if (t == '8') bad.SetInt(v);
      else {
        bad.SetObject();
        int axis = (int)r.range(0, 2);
        const char *ax[3] = {"X", "Y", "Z"};
        for (int k = 0; k < 3; k++)
          bad.AddMember(RV(ax[k], al), RV(k == axis ? v : (int)r.range(0, 127)), al);
      }
    } else if (t == 'n' && r.chance(0.4)) {
      bad.SetDouble((r.chance(0.5) ? 1 : -1) * std::pow(10.0, (double)r.range(39, 300)));
    } else
      bad = wrongFor(t == '8' ? 'i' : t == 'v' ? 'a' : t, r, al);
    if (t == 'v' && (bad.IsObject() && bad.HasMember("Y") == false)) bad.SetNull();
    victim.RemoveMember(name.c_str());
    RV saved(victim, al);
    victim.AddMember(RV(name.c_str(), al), bad, al);
    dumpDoc(d, f);
    victim = saved;
    if (fld.first == "sync") victim.AddMember("timescale", 1000, al);
    Dump want = jsonDump(d);
    R.identity(hashStr(readAll(f)), true);
    R.stat("optional:" + fld.first + "." + name);
    ht::Haptics h2;
    (void)IOJson::loadFile(f, h2);
    compareDumps(want, inOwnWords(dumpHaptics(h2)), exact, "hjif-invalid-optional:" + fld.first + "." + name, readAll(f).substr(0, 300));
    return;
  }
}
static void hostile(Rng &r, long) {
  GenOpt o;
  o.minPerceptions = 1;
  o.maxChannels = 2;
  o.maxBands = 3;
  o.maxBitstream = 10;
  Gen g(r, o);
  auto h = g.haptics();
  std::string f = R.tmp + "/m.hjif";
  IOJson::writeFile(h, f);
  auto s = readAll(f);
  bool notObject = false;
  if (r.chance(0.7)) {
    rapidjson::Document d;
    d.Parse(s.data(), s.size());
    auto &al = d.GetAllocator();
    int n = (int)r.range(1, 4);
    for (int i = 0; i < n; i++) {
      std::vector<RV *> objs, arrs;
      collect(d, objs, arrs);
      if (r.chance(0.75) && !objs.empty()) {
        RV *ob = r.chance(0.2) ? &d : r.pick(objs);
        if (ob->MemberCount() == 0) continue;
        auto m = ob->MemberBegin() + (long)r.range(0, (long long)ob->MemberCount() - 1);
        if (r.chance(0.35)) ob->RemoveMember(m);
        else m->value = randomValue(r, al);
      } else if (!arrs.empty()) {
        RV *ar = r.pick(arrs);
        if (ar->Size() == 0 || r.chance(0.3)) ar->PushBack(randomValue(r, al), al);
        else (*ar)[(rapidjson::SizeType)r.range(0, ar->Size() - 1)] = randomValue(r, al);
      }
    }
    dumpDoc(d, f);
    R.stat("structural");
  } else if (r.chance(0.2)) {
    static const std::vector<std::string> roots = {"", "[]", "null", "3", "\"x\"", "{", "{}", "[{}]", "{\"version\":1}"};
    writeAll(f, r.pick(roots));
    notObject = true;
    R.stat("roots");
  } else if (r.chance(0.15) && s.find('{') != std::string::npos) { // deep nesting
    std::vector<size_t> at;
    for (size_t i = 0; i < s.size(); i++)
      if (s[i] == '{') at.push_back(i + 1);
    size_t n = (size_t)(r.chance(0.5) ? r.range(10, 3000) : r.range(30000, 400000));
    bool arr = r.chance(0.6);
    std::string open = arr ? "[" : "{\"timeline\":", deep = "\"" + r.pick(std::vector<std::string>{"x", "timeline", "keyframes", "perceptions", "unit"}) + "\":";
    for (size_t i = 0; i < n; i++) deep += open;
    deep += "1";
    if (r.chance(0.7)) deep += std::string(n, arr ? ']' : '}') + ",";
    s.insert(r.pick(at), deep);
    writeAll(f, s);
    R.stat("deep");
  } else {
    if (r.chance(0.4) && !s.empty()) s.resize((size_t)r.range(0, (long long)s.size() - 1));
    int n = (int)r.range(0, 6);
    for (int i = 0; i < n && !s.empty(); i++) {
      size_t p = (size_t)r.range(0, (long long)s.size() - 1);
      switch (r.range(0, 2)) {
      case 0: s[p] = (char)r.range(0, 255); break;
      case 1: s.erase(p, (size_t)r.range(1, 20)); break;
      default: s.insert(p, 1, (char)r.range(32, 126));
      }
    }
    writeAll(f, s);
    R.stat("bytes");
  }
  auto txt = readAll(f);
  R.identity(hashStr(txt), true);
  rapidjson::Document chk;
  chk.Parse<rapidjson::kParseIterativeFlag>(txt.data(), txt.size());
  bool parses = !chk.HasParseError() && chk.IsObject();
  ht::Haptics h2;
  bool ok = IOJson::loadFile(f, h2);
  R.stat(ok ? "accepted" : "refused");
  if (!parses || notObject) VCHECK(!ok, "hjif-malformed-accepted", txt.substr(0, 200));
  if (ok) {
    // whatever was accepted can be written again and is accepted again, unchanged
    std::string f2 = R.tmp + "/m2.hjif";
    auto before = dumpHaptics(h2);
    IOJson::writeFile(h2, f2);
    ht::Haptics h3;
    bool ok2 = IOJson::loadFile(f2, h3);
    VCHECK(ok2, "hjif-accepted-then-rejected", txt.substr(0, 300));
  }
}
static void malformed(Rng &r, long idx) {
  if (idx % 4 == 1) optionalField(r, idx);
  else if (idx % 4 == 3) skipItem(r, idx);
  else hostile(r, idx);
}

int main(int argc, char **argv) {
  Modes m;
  m["roundtrip"] = {roundtrip};
  m["conformance"] = {conf};
  m["large"] = {large};
  m["layout"] = {layout};
  m["malformed"] = {malformed};
  return workerMain(argc, argv, m);
}
