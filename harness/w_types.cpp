// Haptic model: effect library, containers, placement of effects, synthesis and playing of files.
#include "gen.hpp"
#include <Encoder/include/WaveletEncoder.h>
#include <Synthesizer/include/Helper.h>
#include <Tools/include/WavParser.h>
#include <WaveletDecoder/include/WaveletDecoder.h>
using namespace vf;

// ---------------------------------------------------------------- library: refactor and linearize
static std::string kfText(ht::Effect &e) {
  std::ostringstream o;
  o.precision(9);
  for (int i = 0; i < (int)e.getKeyframesSize(); i++) {
    auto &k = e.getKeyframeAt(i);
    o << "(";
    if (k.getRelativePosition()) o << *k.getRelativePosition();
    o << ";";
    if (k.getAmplitudeModulation()) o << *k.getAmplitudeModulation() + 0.0F; // -0 is 0
    o << ";";
    if (k.getFrequencyModulation()) o << *k.getFrequencyModulation();
    o << ")";
  }
  return o.str();
}
static std::string ownText(ht::Effect &e) {
  std::ostringstream o;
  o.precision(9);
  o << "ph";
  if (e.getPhase()) o << *e.getPhase() + 0.0F;
  o << " bs" << (e.getBaseSignal() ? (int)*e.getBaseSignal() : -1)
    << " sem" << e.getSemantic().value_or("\x01") << " kf" << kfText(e);
  auto &w = e.getWaveletBitstream();
  o << " w" << hex(std::string(w.begin(), w.end()), 10000);
  return o.str();
}
// what a reader of the experience obtains for an effect, whatever the way it is stored
static std::string content(ht::Perception &p, ht::Effect &e, int depth = 0) {
  if (depth > 40) return "deep";
  if (e.getEffectType() == ht::EffectType::Reference) {
    for (int i = 0; i < (int)p.getEffectLibrarySize(); i++)
      if (p.getBasisEffectAt(i).getId() == e.getId()) return content(p, p.getBasisEffectAt(i), depth + 1);
    return "unresolved " + std::to_string(e.getId());
  }
  std::string o = e.getEffectType() == ht::EffectType::Composite ? "C " : "B ";
  o += ownText(e);
  for (int i = 0; i < (int)e.getTimelineSize(); i++) {
    auto &t = e.getTimelineEffectAt(i);
    o += " {@" + std::to_string(t.getPosition()) + " " + content(p, t, depth + 1) + "}";
  }
  return o;
}
using Contents = std::vector<std::string>;
static Contents contents(ht::Haptics &h) {
  Contents v;
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++) {
    auto &p = h.getPerceptionAt(i);
    for (int c = 0; c < (int)p.getChannelsSize(); c++)
      for (int b = 0; b < (int)p.getChannelAt(c).getBandsSize(); b++) {
        auto &bd = p.getChannelAt(c).getBandAt(b);
        for (int k = 0; k < (int)bd.getEffectsSize(); k++) {
          auto &e = bd.getEffectAt(k);
          v.push_back(std::to_string(i) + "/" + std::to_string(c) + "/" + std::to_string(b) + " @" + std::to_string(e.getPosition()) + " " + content(p, e));
        }
      }
  }
  return v;
}
static void compareContents(const Contents &a, const Contents &b, const std::string &tag) {
  VCHECK(a.size() == b.size(), tag + ":effects", a.size() << " became " << b.size());
  for (size_t i = 0; i < std::min(a.size(), b.size()); i++)
    if (a[i] != b[i]) {
      R.violation(tag + ":effect-changed", "[" + a[i].substr(0, 250) + "] became [" + b[i].substr(0, 250) + "]");
      return;
    }
}
static ht::Effect tweak(Rng &r, ht::Effect e) { // differs from e in one respect
  switch (r.range(0, 5)) {
  case 0: e.setPhase(e.getPhase() ? *e.getPhase() + 0.25F : 0.F); break;
  case 1: e.setBaseSignal(e.getBaseSignal() ? static_cast<ht::BaseSignal>(((int)*e.getBaseSignal() + 1) % 5) : ht::BaseSignal::Sine); break;
  case 2: {
    std::string s = e.getSemantic() == std::optional<std::string>("Custom") ? "Life" : "Custom";
    e.setSemantic(s);
    break;
  }
  case 3: {
    auto w = e.getWaveletBitstream();
    w.push_back(7);
    e.setWaveletBitstream(w);
    break;
  }
  case 4: {
    e.addKeyframe(999999, 0.5, std::nullopt);
    break;
  }
  default:
    if (e.getKeyframesSize() == 0)
      e.addKeyframe(0, 0.5, 100);
    else {
      int k = (int)r.range(0, (long long)e.getKeyframesSize() - 1);
      auto &f = e.getKeyframeAt(k);
      switch (r.range(0, 2)) {
      case 0: f.setRelativePosition(f.getRelativePosition().value_or(0) + 1); break;
      case 1: f.setAmplitudeModulation(f.getAmplitudeModulation() ? std::optional<float>(*f.getAmplitudeModulation() * 0.5F + 0.125F) : std::optional<float>(0.F)); break;
      default: f.setFrequencyModulation(f.getFrequencyModulation() ? std::optional<int>(*f.getFrequencyModulation() + 1) : std::optional<int>(0)); break;
      }
    }
  }
  return e;
}
static void enrich(Rng &r, ht::Haptics &h, bool dangling) {
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++) {
    auto &p = h.getPerceptionAt(i);
    // a library with references to other entries and composites
    std::set<int> used;
    for (int k = 0; k < (int)p.getEffectLibrarySize(); k++) used.insert(p.getBasisEffectAt(k).getId());
    auto freshId = [&] {
      int id;
      do id = r.chance(0.7) ? (int)r.range(0, 12) : (int)r.range(-50, 100000);
      while (!used.insert(id).second);
      return id;
    };
    int extra = (int)r.range(0, 4);
    for (int k = 0; k < extra; k++) {
      std::vector<int> ids(used.begin(), used.end());
      ht::Effect e((int)r.range(0, 1000), ht::EffectType::Basis);
      int kind = ids.empty() ? 0 : (int)r.range(0, 3);
      if (kind <= 1) {
        Gen g(r, GenOpt{});
        g.fillBasis(e, ht::BandType::VectorialWave);
      } else if (kind == 2) {
        e.setEffectType(ht::EffectType::Reference);
      } else {
        e.setEffectType(ht::EffectType::Composite);
        int n = (int)r.range(1, 3);
        for (int t = 0; t < n; t++) {
          ht::Effect x((int)r.range(0, 500), ht::EffectType::Reference);
          x.setId(r.pick(ids));
          if (r.chance(0.4)) {
            Gen g(r, GenOpt{});
            x = ht::Effect((int)r.range(0, 500), ht::EffectType::Basis);
            g.fillBasis(x, ht::BandType::VectorialWave);
          }
          e.addTimelineEffect(x);
        }
      }
      e.setId(kind == 2 ? r.pick(ids) : freshId());
      if (kind == 2) continue; // a library entry that is a reference carries the id it refers to: not expressible
      p.addBasisEffect(e);
    }
    std::vector<int> ids;
    for (int k = 0; k < (int)p.getEffectLibrarySize(); k++) ids.push_back(p.getBasisEffectAt(k).getId());
    // repeated effects and near repetitions in every band
    std::vector<ht::Effect> pool;
    for (int c = 0; c < (int)p.getChannelsSize(); c++)
      for (int b = 0; b < (int)p.getChannelAt(c).getBandsSize(); b++) {
        auto &bd = p.getChannelAt(c).getBandAt(b);
        for (int k = 0; k < (int)bd.getEffectsSize(); k++)
          if (bd.getEffectAt(k).getEffectType() == ht::EffectType::Basis && pool.size() < 6) pool.push_back(bd.getEffectAt(k));
      }
    for (int k = 0; k < (int)p.getEffectLibrarySize() && pool.size() < 8; k++)
      if (p.getBasisEffectAt(k).getEffectType() == ht::EffectType::Basis) pool.push_back(p.getBasisEffectAt(k));
    for (int c = 0; c < (int)p.getChannelsSize(); c++)
      for (int b = 0; b < (int)p.getChannelAt(c).getBandsSize(); b++) {
        auto &bd = p.getChannelAt(c).getBandAt(b);
        int n = (int)r.range(0, 4);
        for (int k = 0; k < n; k++) {
          ht::Effect e;
          int kind = (int)r.range(0, 9);
          if (kind <= 6 && !pool.empty()) {
            e = r.pick(pool);
            e.setId(-1);
            if (r.chance(0.35)) e = tweak(r, e);
          } else if (kind == 7 && !ids.empty()) {
            e.setEffectType(ht::EffectType::Reference);
            e.setId(r.pick(ids));
          } else if (kind == 8 && !ids.empty()) {
            e.setEffectType(ht::EffectType::Composite);
            ht::Effect x((int)r.range(0, 500), ht::EffectType::Reference);
            x.setId(r.pick(ids));
            e.addTimelineEffect(x);
            if (!pool.empty()) {
              auto y = r.pick(pool);
              e.addTimelineEffect(y);
            }
          } else if (kind == 9 && dangling) {
            e.setEffectType(ht::EffectType::Reference);
            e.setId(2000000000 + (int)r.range(0, 5));
          }
          e.setPosition((int)r.range(0, 3000));
          bool dup = false;
          for (int q = 0; q < (int)bd.getEffectsSize(); q++) dup = dup || bd.getEffectAt(q).getPosition() == e.getPosition();
          if (!dup) bd.addEffect(e);
        }
      }
  }
}
static const Tol exactTol = [](const std::string &) { return 0.0; };
// everything but the effects themselves and the library
static Dump outline(ht::Haptics &h) {
  Dump d = dumpHaptics(h), o;
  for (auto &kv : d)
    if (kv.first.find(".e[") == std::string::npos && kv.first.find(".lib[") == std::string::npos && kv.first.find("#library") == std::string::npos) o.insert(kv);
  return o;
}
static void library(Rng &r, long) {
  GenOpt g;
  g.maxPerceptions = 2;
  g.minPerceptions = r.chance(0.95) ? 1 : 0;
  g.maxEffects = 3;
  g.intId = 20;
  Gen gen(r, g);
  auto h = gen.haptics();
  enrich(r, h, r.chance(0.3));
  auto before = dumpHaptics(h);
  auto c0 = contents(h);
  auto o0 = outline(h);
  R.identity(hashDump(before), c0.size() > 1);
  R.stat("effects", (double)c0.size());
  R.sample(showDump(before, 600));
  std::vector<std::string> lib0;
  auto libs = [](ht::Haptics &x) {
    std::map<std::string, std::string> m;
    for (int i = 0; i < (int)x.getPerceptionsSize(); i++)
      for (int k = 0; k < (int)x.getPerceptionAt(i).getEffectLibrarySize(); k++) {
        auto &e = x.getPerceptionAt(i).getBasisEffectAt(k);
        m[std::to_string(i) + "#" + std::to_string(e.getId())] += content(x.getPerceptionAt(i), e) + "|";
      }
    return m;
  };
  auto l0 = libs(h);
  if (r.chance(0.75)) {
    int times = r.chance(0.2) ? 2 : 1;
    for (int i = 0; i < times; i++) h.refactor();
    R.stat("refactored");
    compareContents(c0, contents(h), "refactor");
    compareDumps(o0, outline(h), exactTol, "refactor-outline");
    auto l1 = libs(h);
    for (auto &kv : l0) VCHECK(l1.count(kv.first) && l1[kv.first] == kv.second, "refactor:library-entry-changed", kv.first << " [" << kv.second.substr(0, 200) << "] now [" << (l1.count(kv.first) ? l1[kv.first] : "gone").substr(0, 200) << "]");
    R.stat("library-entries-made", (double)(l1.size() - l0.size()));
    for (int i = 0; i < (int)h.getPerceptionsSize(); i++) {
      auto &p = h.getPerceptionAt(i);
      std::set<int> ids;
      for (int k = 0; k < (int)p.getEffectLibrarySize(); k++)
        VCHECK(ids.insert(p.getBasisEffectAt(k).getId()).second, "refactor:library-id-twice", p.getBasisEffectAt(k).getId());
      std::set<std::string> seen; // a repeated effect is stored once
      for (int c = 0; c < (int)p.getChannelsSize(); c++)
        for (int b = 0; b < (int)p.getChannelAt(c).getBandsSize(); b++) {
          auto &bd = p.getChannelAt(c).getBandAt(b);
          if (bd.getBandType() == ht::BandType::WaveletWave) continue;
          for (int k = 0; k < (int)bd.getEffectsSize(); k++) {
            auto &e = bd.getEffectAt(k);
            if (e.getEffectType() == ht::EffectType::Reference) R.stat("references");
            if (e.getEffectType() != ht::EffectType::Basis) continue;
            VCHECK(seen.insert(ownText(e)).second, "refactor:repetition-left", ownText(e).substr(0, 200));
          }
        }
    }
  }
  h.linearize();
  compareContents(c0, contents(h), "linearize");
  compareDumps(o0, outline(h), exactTol, "linearize-outline");
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++)
    VCHECK(h.getPerceptionAt(i).getEffectLibrarySize() == 0, "linearize:library-left", h.getPerceptionAt(i).getEffectLibrarySize());
  // nothing left to expand: doing it again changes nothing
  auto d1 = dumpHaptics(h);
  h.linearize();
  compareDumps(d1, dumpHaptics(h), exactTol, "linearize-again");
}

// ---------------------------------------------------------------- synthesis
namespace {
constexpr double NA = 1e300; // the documented signal does not define this sample
struct Syn {
  double ts, fs;
  int pad;
  double tick(long i) const { return ts * ((double)i / fs - pad * 0.001); }
};
double baseWave(ht::BaseSignal s, double x, double eps) { // x in periods
  auto nearInt = [&](double v) { return std::abs(v - std::round(v)) < eps; };
  switch (s) {
  case ht::BaseSignal::Sine: return std::sin(2 * M_PI * x);
  case ht::BaseSignal::Square:
    if (nearInt(x) || nearInt(x + 0.5)) return NA;
    return x - std::floor(x) < 0.5 ? 1 : -1;
  case ht::BaseSignal::Triangle: {
    double u = x - std::floor(x);
    return u < 0.25 ? 4 * u : u < 0.75 ? 2 - 4 * u : 4 * u - 4;
  }
  case ht::BaseSignal::SawToothUp:
    if (nearInt(x + 0.5)) return NA;
    return 2 * (x - std::floor(x + 0.5));
  default:
    if (nearInt(x + 0.5)) return NA;
    return -2 * (x - std::floor(x + 0.5));
  }
}
struct Kf {
  double p;
  std::optional<double> a, f;
};
std::vector<Kf> kfs(ht::Effect &e) {
  std::vector<Kf> v;
  for (int i = 0; i < (int)e.getKeyframesSize(); i++) {
    auto &k = e.getKeyframeAt(i);
    if (!k.getRelativePosition()) continue;
    Kf x;
    x.p = *k.getRelativePosition();
    if (k.getAmplitudeModulation()) x.a = *k.getAmplitudeModulation();
    if (k.getFrequencyModulation()) x.f = *k.getFrequencyModulation();
    v.push_back(x);
  }
  return v;
}
double transientAt(ht::Effect &e, double t, const Syn &s) {
  double D = 0.022 * s.ts, rel = t - e.getPosition(), sum = 0;
  for (auto &k : kfs(e)) {
    if (!k.a) continue;
    double tau = rel - k.p;
    if (tau >= 0 && tau <= D) sum += *k.a * std::sin(4 * M_PI * tau / D);
  }
  return sum;
}
double vectorialAt(ht::Effect &e, double t, const Syn &s) {
  auto v = kfs(e);
  if (v.empty()) return 0;
  double rel = t - e.getPosition(), end = v.back().p, m = 1e-6 * (1 + std::abs(t));
  if (rel < -m || rel > end + m) return 0;
  if (rel < m || rel > end - m) return NA; // the very first and last instants
  double amp = 1;
  {
    std::vector<std::pair<double, double>> a;
    for (auto &k : v)
      if (k.a) a.emplace_back(k.p, *k.a);
    if (!a.empty()) {
      if (rel <= a.front().first)
        amp = a.front().second;
      else if (rel >= a.back().first)
        amp = a.back().second;
      else
        for (size_t i = 0; i + 1 < a.size(); i++)
          if (rel >= a[i].first && rel <= a[i + 1].first) {
            double u = (rel - a[i].first) / (a[i + 1].first - a[i].first);
            amp = a[i].second + u * (a[i + 1].second - a[i].second);
            break;
          }
    }
  }
  std::vector<std::pair<double, double>> f;
  for (auto &k : v)
    if (k.f) f.emplace_back(k.p, *k.f);
  if (f.empty()) return NA;
  // periods elapsed: the integral of the frequency since the start of the effect
  double cyc = 0, pos = 0;
  if (rel <= f.front().first)
    cyc = f.front().second * rel / s.ts;
  else {
    cyc = f.front().second * f.front().first / s.ts;
    pos = f.front().first;
    size_t i = 0;
    for (; i + 1 < f.size() && rel > f[i + 1].first; i++) {
      cyc += 0.5 * (f[i].second + f[i + 1].second) * (f[i + 1].first - f[i].first) / s.ts;
      pos = f[i + 1].first;
    }
    if (i + 1 < f.size()) {
      double u = (rel - pos) / (f[i + 1].first - f[i].first);
      double now = f[i].second + u * (f[i + 1].second - f[i].second);
      cyc += 0.5 * (f[i].second + now) * (rel - pos) / s.ts;
    } else
      cyc += f[i].second * (rel - pos) / s.ts;
  }
  double w = baseWave(e.getBaseSignalOrDefault(), cyc + e.getPhaseOrDefault() / (2 * M_PI), 1e-6);
  return w == NA ? NA : amp * w;
}
double waveletAt(ht::Effect &e, double t, double rate, const Syn &s) {
  double x = (t - e.getPosition()) * rate / s.ts;
  auto &w = e.getWaveletSamples();
  if (x < -1e-6) return 0;
  if (std::abs(x - std::round(x)) < 1e-6) {
    // on the edge of two samples: defined only when they agree
    long k = std::lround(x);
    auto at = [&](long i) { return i < 0 || i >= (long)w.size() ? 0.0 : w[(size_t)i]; };
    return at(k) == at(k - 1) ? at(k) : NA;
  }
  long k = (long)std::floor(x);
  return k < 0 || k >= (long)w.size() ? 0 : w[(size_t)k];
}
// curve effect in samples: positions snapped to samples, the last keyframe of a sample wins
struct Curve {
  std::vector<std::pair<double, double>> p;
  bool exact = true;
};
Curve curveOf(ht::Effect &e, const Syn &s) {
  Curve c;
  double base = (double)e.getPosition() * s.fs / s.ts + s.pad * s.fs / 1000.0;
  for (auto &k : kfs(e)) {
    if (!k.a) continue;
    double x = base + k.p * s.fs / s.ts;
    if (std::abs(base - std::round(base)) > 1e-9 || std::abs(x - std::round(x)) > 1e-9) c.exact = false;
    if (std::abs(base - std::round(base)) <= 1e-9) x = c.exact ? std::round(x) : x;
    if (!c.p.empty() && x <= c.p.back().first)
      c.p.back().second = *k.a;
    else
      c.p.emplace_back(x, *k.a);
  }
  return c;
}
double segment(ht::CurveType t, const std::pair<double, double> &a, const std::pair<double, double> &b, double x) {
  double u = (x - a.first) / (b.first - a.first);
  if (t == ht::CurveType::Linear) return a.second + (b.second - a.second) * u;
  return a.second + (b.second - a.second) * (3 * u * u - 2 * u * u * u);
}
double curveAt(const Curve &c, ht::CurveType t, double x) {
  for (size_t i = 0; i + 1 < c.p.size(); i++)
    if (x >= c.p[i].first && x <= c.p[i + 1].first) return segment(t, c.p[i], c.p[i + 1], x);
  return 0;
}
struct Bounds {
  double lo, hi;
};
// what a curve band may hold at sample i
Bounds curveBounds(ht::Band &b, const Syn &s, long i) {
  Bounds r{0, 0};
  auto t = b.getCurveTypeOrDefault();
  for (int k = 0; k < (int)b.getEffectsSize(); k++) {
    auto c = curveOf(b.getEffectAt(k), s);
    if (c.p.empty()) continue;
    double x = (double)i, first = c.p.front().first, last = c.p.back().first;
    if (x < first - 2.5 || x > last + 2.5) continue;
    double lo = 0, hi = 0;
    bool simple = t == ht::CurveType::Linear || t == ht::CurveType::Cubic || t == ht::CurveType::Unknown;
    if (c.exact && (x < first || x > last)) continue;
    if (c.exact && c.p.size() == 1) {
      lo = hi = c.p[0].second;
    } else if (c.exact && c.p.size() == 2) { // whatever the type, from one keyframe to the other
      if (x == first || x == last)
        lo = hi = x == first ? c.p[0].second : c.p[1].second;
      else
        lo = std::min(c.p[0].second, c.p[1].second), hi = std::max(c.p[0].second, c.p[1].second);
    } else if (c.exact && simple) {
      lo = hi = curveAt(c, t == ht::CurveType::Linear ? t : ht::CurveType::Cubic, x);
    } else if (c.exact) {
      lo = -1e3, hi = 1e3; // finite
      for (size_t q = 0; q < c.p.size(); q++)
        if (c.p[q].first == x) {
          bool through = t == ht::CurveType::Akima;
          if (t == ht::CurveType::Bezier) through = q % 2 == 0 && c.p.size() % 2 == 1;
          if (t == ht::CurveType::Bspline) through = q == 0 || q + 1 == c.p.size();
          if (through) lo = hi = c.p[q].second;
        }
      if (t != ht::CurveType::Akima && lo != hi) { // inside the hull of the keyframes
        lo = 1e3, hi = -1e3;
        for (auto &q : c.p) lo = std::min(lo, q.second), hi = std::max(hi, q.second);
        lo -= 1e-6, hi += 1e-6;
        // an even number of keyframes has no complete last arc
        if (t == ht::CurveType::Bezier && c.p.size() % 2 == 0) lo = std::min(lo, 0.0), hi = std::max(hi, 0.0);
      }
    } else if (simple) { // positions between samples: within what the curve holds around
      lo = 1e3, hi = -1e3;
      const double w = 2.1;
      bool close = false; // keyframes that may fall on one sample
      for (size_t q = 0; q + 1 < c.p.size(); q++) close = close || c.p[q + 1].first - c.p[q].first < 1.01;
      auto add = [&](double v) { lo = std::min(lo, v), hi = std::max(hi, v); };
      if (x - w <= first || x + w >= last) add(0);
      for (auto &q : c.p)
        if (close || std::abs(q.first - x) <= w) add(q.second);
      if (c.p.size() >= 2)
        for (double d : {-w, 0.0, w})
          if (x + d >= first && x + d <= last) {
            add(curveAt(c, ht::CurveType::Linear, x + d));
            add(curveAt(c, ht::CurveType::Cubic, x + d));
          }
    } else
      lo = -1e3, hi = 1e3;
    r.lo += lo;
    r.hi += hi;
  }
  return r;
}
} // namespace

static ht::Effect synEffect(Rng &r, ht::BandType bt, const Syn &s, int maxPos, int maxLen, bool exactCurve, int lowF, int highF) {
  // in exact cases positions are multiples of the ticks that fall on samples
  int step = 1;
  if (exactCurve && s.ts > s.fs) step = (int)(s.ts / s.fs);
  auto q = [&](int v) { return v / step * step; };
  ht::Effect e(q((int)r.range(0, maxPos)), ht::EffectType::Basis);
  if (r.chance(0.7)) e.setPhase((float)r.real(0, 6.28));
  if (r.chance(0.8)) e.setBaseSignal(static_cast<ht::BaseSignal>(r.range(0, 4)));
  int n = (int)r.range(r.chance(0.05) ? 0 : 1, 7);
  std::set<int> pos;
  if (r.chance(0.8)) pos.insert(0);
  for (int i = 0; i < n; i++) pos.insert(q((int)r.range(0, maxLen)));
  bool anyF = false;
  for (int p : pos) {
    std::optional<float> a;
    std::optional<int> f;
    if (bt == ht::BandType::VectorialWave ? r.chance(0.75) : r.chance(0.97)) a = (float)(r.chance(0.1) ? r.range(-1, 1) : r.real(-1, 1));
    if (bt != ht::BandType::Curve && (!a || r.chance(0.6))) f = (int)r.range(lowF, highF);
    anyF = anyF || f.has_value();
    ht::Keyframe k(p, a, f);
    e.addKeyframe(k);
  }
  if (!anyF && bt == ht::BandType::VectorialWave && e.getKeyframesSize() > 0 && r.chance(0.95))
    e.getKeyframeAt((int)r.range(0, (long long)e.getKeyframesSize() - 1)).setFrequencyModulation((int)r.range(lowF, highF));
  return e;
}
static bool overlap(ht::Band &b, ht::Effect &e, double len) {
  for (int i = 0; i < (int)b.getEffectsSize(); i++) {
    auto &o = b.getEffectAt(i);
    double l = b.getBandType() == ht::BandType::Transient ? len : 0;
    auto ko = kfs(o), ke = kfs(e);
    double oe = o.getPosition() + (ko.empty() ? 0 : ko.back().p) + l, ee = e.getPosition() + (ke.empty() ? 0 : ke.back().p) + l;
    if (o.getPosition() <= ee + 4 && e.getPosition() <= oe + 4) return true;
  }
  return false;
}
static ht::Band synBand(Rng &r, const Syn &s, uint32_t samples, bool disjoint) {
  auto bt = static_cast<ht::BandType>(r.pick(std::vector<int>{(int)ht::BandType::Transient, (int)ht::BandType::Curve, (int)ht::BandType::Curve, (int)ht::BandType::VectorialWave, (int)ht::BandType::VectorialWave, (int)ht::BandType::WaveletWave}));
  int lo = (int)r.range(0, 100), hi = (int)r.range(200, 1000);
  ht::Band b(bt, lo, hi);
  int span = std::max(1, (int)(samples * s.ts / s.fs));
  bool divides = std::fmod(s.fs, s.ts) == 0 || std::fmod(s.ts, s.fs) == 0;
  bool exact = bt == ht::BandType::Curve && divides && std::fmod(s.pad * s.fs, 1000.0) == 0;
  if (bt == ht::BandType::Curve && r.chance(0.95)) b.setCurveType(static_cast<ht::CurveType>(r.range(0, 5)));
  int n = (int)r.range(r.chance(0.06) ? 0 : 1, 5);
  if (bt == ht::BandType::WaveletWave) {
    double rate = r.chance(0.5) ? s.fs : (double)r.range(100, 8000);
    b.setUpperFrequencyLimit((int)rate);
    b.setBlockLength((int)r.range(1, 500));
  }
  for (int i = 0; i < n; i++) {
    ht::Effect e;
    if (bt == ht::BandType::WaveletWave) {
      e.setPosition((int)r.range(0, span));
      std::vector<double> w((size_t)r.range(0, 300));
      for (auto &x : w) x = r.real(-1, 1);
      e.setWaveletSamples(w);
    } else
      e = synEffect(r, bt, s, span, std::max(2, (int)(span * r.unit())), exact, std::max(1, lo), hi);
    bool keep = !disjoint || (bt != ht::BandType::WaveletWave ? !overlap(b, e, 0.022 * s.ts) : b.getEffectsSize() == 0);
    if (keep) b.addEffect(e);
  }
  return b;
}
// value of the band at a tick, NA when undefined there
static double bandAt(ht::Band &b, double t, const Syn &s) {
  double sum = 0;
  for (int k = 0; k < (int)b.getEffectsSize(); k++) {
    auto &e = b.getEffectAt(k);
    double v = 0;
    switch (b.getBandType()) {
    case ht::BandType::Transient: v = transientAt(e, t, s); break;
    case ht::BandType::VectorialWave: v = vectorialAt(e, t, s); break;
    default: v = waveletAt(e, t, b.getUpperFrequencyLimit(), s);
    }
    if (v == NA) return NA;
    sum += v;
  }
  return sum;
}
static Syn anySyn(Rng &r) {
  Syn s{};
  s.ts = r.chance(0.5) ? 1000 : (double)r.pick(std::vector<int>{100, 500, 8000, 44100, 48000, (int)r.range(10, 48000)});
  switch (r.range(0, 4)) {
  case 0: s.fs = 8000; break;
  case 1: s.fs = s.ts; break;
  case 2: s.fs = s.ts * (double)r.range(1, 8); break;
  case 3: s.fs = (double)r.pick(std::vector<int>{1000, 8000, 44100}); break;
  default: s.fs = (double)r.range(100, 48000);
  }
  s.pad = r.chance(0.5) ? 0 : (int)r.range(0, 60);
  return s;
}
static std::string showBand(ht::Band &b) {
  Dump d;
  dumpBand(d, "", b);
  return showDump(d, 700);
}
static void synthesis(Rng &r, long) {
  Syn s = anySyn(r);
  auto n = (uint32_t)(r.chance(0.02) ? 0 : r.range(20, 1500));
  ht::Channel c(0, "", 1, 1, 0);
  bool disjoint = r.chance(0.3);
  int nb = (int)r.range(0, 4);
  for (int i = 0; i < nb; i++) {
    auto b = synBand(r, s, n, disjoint);
    c.addBand(b);
  }
  Dump d;
  dumpChannel(d, "", c);
  R.identity(hashDump(d) ^ hashBytes(&s, sizeof s) ^ n, nb > 0);
  R.sample(showDump(d, 600));
  std::string ctx = "timescale " + std::to_string((int)s.ts) + " fs " + std::to_string((int)s.fs) + " pad " + std::to_string(s.pad);
  std::vector<double> sum(n, 0);
  long checked = 0;
  for (int i = 0; i < nb; i++) {
    auto &b = c.getBandAt(i);
    auto out = b.EvaluationBand(n, (int)s.fs, s.pad, (unsigned)s.ts);
    VCHECK(out.size() == n, "band-samples", out.size() << " for " << n);
    if (out.size() != n) return;
    bool bad = false;
    for (long k = 0; k < (long)n; k++) {
      sum[(size_t)k] += out[(size_t)k];
      double got = out[(size_t)k];
      if (!std::isfinite(got)) {
        R.violation("not-finite:" + std::to_string((int)b.getBandType()), "sample " + std::to_string(k) + " " + ctx + showBand(b));
        return;
      }
      if (bad) continue;
      if (b.getBandType() == ht::BandType::Curve) {
        auto w = curveBounds(b, s, k);
        if (w.lo > -100) checked++;
        if (got < w.lo - 1e-6 || got > w.hi + 1e-6) {
          bad = true;
          R.violation("curve:" + std::to_string((int)b.getCurveTypeOrDefault()),
                      "sample " + std::to_string(k) + " is " + std::to_string(got) + ", expected " + std::to_string(w.lo) + ".." + std::to_string(w.hi) + " " + ctx + showBand(b));
        }
      } else {
        double want = bandAt(b, s.tick(k), s);
        if (want == NA) continue;
        checked++;
        if (std::abs(got - want) > 2e-5) {
          bad = true;
          R.violation("band:" + ht::bandTypeToString.at(b.getBandType()),
                      "sample " + std::to_string(k) + " is " + std::to_string(got) + ", expected " + std::to_string(want) + " " + ctx + showBand(b));
        }
      }
    }
    auto again = b.EvaluationBand(n, (int)s.fs, s.pad, (unsigned)s.ts);
    VCHECK(again == out, "not-repeatable", ctx);
  }
  R.stat("samples-checked", (double)checked);
  auto ch = c.EvaluateChannel(n, (int)s.fs, s.pad, (unsigned)s.ts);
  VCHECK(ch.size() == n, "channel-samples", ch.size());
  if (ch.size() != n) return;
  long clipped = 0;
  for (uint32_t k = 0; k < n; k++) {
    double want = std::clamp(sum[k], -1.0, 1.0);
    clipped += std::abs(sum[k]) > 1;
    if (!(std::abs(ch[k] - want) <= 1e-9) || std::abs(ch[k]) > 1) {
      R.violation("channel", "sample " + std::to_string(k) + " is " + std::to_string(ch[k]) + ", the bands sum to " + std::to_string(sum[k]));
      break;
    }
  }
  R.stat("samples-clipped", (double)clipped);
  auto ch2 = c.EvaluateChannel(n, (int)s.fs, s.pad, (unsigned)s.ts);
  VCHECK(ch2 == ch, "channel-not-repeatable", ctx);
  Dump d2;
  dumpChannel(d2, "", c);
  compareDumps(d, d2, exactTol, "evaluation-modifies");
  // sampling at chosen instants, when effects do not overlap
  if (disjoint) {
    Syn z = s;
    z.pad = 0;
    for (int q = 0; q < 40; q++) {
      double t = r.unit() * n * s.ts / s.fs, want = 0;
      if (q == 0) t = 0;
      for (int i = 0; i < nb && want != NA; i++) {
        auto &b = c.getBandAt(i);
        double v = 0;
        if (b.getBandType() == ht::BandType::Curve) {
          auto ct = b.getCurveTypeOrDefault();
          for (int k = 0; k < (int)b.getEffectsSize(); k++) {
            auto kf = kfs(b.getEffectAt(k));
            std::vector<std::pair<double, double>> p;
            for (auto &x : kf)
              if (x.a) p.emplace_back(x.p, *x.a);
            double rel = t - b.getEffectAt(k).getPosition();
            if (p.empty() || rel < p.front().first - 0.01 || rel > p.back().first + 0.01) {
              if (!p.empty() && rel >= 0 && rel <= p.back().first) v = NA; // before its first keyframe
              continue;
            }
            if (rel <= p.front().first + 0.01 || rel >= p.back().first - 0.01 || (ct != ht::CurveType::Linear && ct != ht::CurveType::Cubic)) {
              v = NA;
              break;
            }
            Curve cv{p, true};
            v = curveAt(cv, ct, rel);
          }
        } else
          v = bandAt(b, t, z);
        want = v == NA ? NA : want + v;
      }
      if (want == NA) continue;
      double got = c.Evaluate(t, (unsigned)s.ts);
      R.stat("instants-checked");
      if (!(std::abs(got - std::clamp(want, -1.0, 1.0)) <= 2e-5)) {
        R.violation("instant", "tick " + std::to_string(t) + " is " + std::to_string(got) + ", expected " + std::to_string(want) + " " + ctx + " " + showDump(d, 800));
        break;
      }
    }
  }
}

// ---------------------------------------------------------------- playing a file
static std::vector<std::vector<double>> savedBuffers;
static int savedRate = -1, saveCalls = 0;
static std::string savedName;
static bool saveResult = true;
namespace haptics::tools {
auto WavParser::saveFile(const std::string &filename, const std::vector<std::vector<double>> &buff, int sampleRate) -> bool {
  savedName = filename;
  savedBuffers = buff;
  savedRate = sampleRate;
  saveCalls++;
  return saveResult;
}
} // namespace haptics::tools
static void play(Rng &r, long) {
  using haptics::synthesizer::Helper;
  Syn s{};
  bool absent = r.chance(0.2);
  s.ts = absent ? 1000 : (double)r.pick(std::vector<int>{1000, 1000, 1000, 500, 2000, 8000, 100});
  s.fs = (double)r.pick(std::vector<int>{8000, 1000, 2000, 4000, 44100, (int)r.range(50, 48000)});
  s.pad = r.chance(0.5) ? 0 : (int)r.range(0, 100);
  std::string v = "2023", date = "2023", desc;
  ht::Haptics h(v, date, desc);
  if (!absent) h.setTimescale((unsigned)s.ts);
  int np = (int)r.range(r.chance(0.1) ? 0 : 1, 3), channels = 0;
  auto span = (uint32_t)std::max(16.0, s.fs * r.real(0.01, 0.15));
  for (int i = 0; i < np; i++) {
    ht::Perception p(i, 0, "", ht::PerceptionModality::Vibrotactile);
    if (r.chance(0.6)) p.setPerceptionUnitExponent((int8_t)r.range(-3, 3));
    if (r.chance(0.6)) p.setUnitExponent((int8_t)r.range(-3, 3));
    int nc = (int)r.range(0, 3);
    for (int c = 0; c < nc; c++, channels++) {
      ht::Channel ch(c, "", (float)(r.chance(0.3) ? 1 : r.real(-3, 3)), (float)r.real(0, 2), 0);
      int nb = (int)r.range(0, 3);
      for (int b = 0; b < nb; b++) {
        ht::Band bd = synBand(r, s, span, false);
        if (bd.getBandType() == ht::BandType::WaveletWave) {
          // real coded blocks: power-of-two blocks of a whole number of ticks
          int rate = (int)(s.ts * (double)(1 << r.range(0, 2))), bl = 16 << r.range(0, 3);
          int book = (int)std::log2((double)bl / 4) + 1;
          haptics::encoder::WaveletEncoder enc(bl, rate);
          std::vector<double> sig((size_t)r.range(1, 4) * (size_t)bl);
          double f = r.real(0.01, 0.3), a = r.real(0.1, 1);
          for (size_t q = 0; q < sig.size(); q++) sig[q] = a * std::sin(f * (double)q) + r.real(-0.05, 0.05);
          bd = ht::Band();
          enc.encodeSignal(sig, book * 15, 0, bd, (unsigned)s.ts);
          R.stat("wavelet-bands");
        }
        ch.addBand(bd);
      }
      if (r.chance(0.3)) {
        ch.setFrequencySampling((uint32_t)r.range(100, 48000));
        if (r.chance(0.7)) ch.setSampleCount((uint32_t)r.range(1, 5000));
      }
      p.addChannel(ch);
    }
    h.addPerception(p);
  }
  auto d = dumpHaptics(h);
  R.identity(hashDump(d) ^ hashBytes(&s, sizeof s), channels > 0);
  R.sample(showDump(d, 500));
  R.stat("channels", channels);
  // how long the experience lasts, in ticks
  double len = 0;
  for (int i = 0; i < np; i++)
    for (int c = 0; c < (int)h.getPerceptionAt(i).getChannelsSize(); c++) {
      auto &ch = h.getPerceptionAt(i).getChannelAt(c);
      if (ch.getFrequencySampling() && ch.getSampleCount()) {
        len = std::max(len, s.ts * *ch.getSampleCount() / *ch.getFrequencySampling());
        continue;
      }
      for (int b = 0; b < (int)ch.getBandsSize(); b++) {
        auto &bd = ch.getBandAt(b);
        for (int k = 0; k < (int)bd.getEffectsSize(); k++) {
          auto &e = bd.getEffectAt(k);
          auto kf = kfs(e);
          double l = 0;
          if (bd.getBandType() == ht::BandType::WaveletWave)
            l = bd.getBlockLengthOrDefault();
          else if (!kf.empty())
            l = kf.back().p + (bd.getBandType() == ht::BandType::Transient ? 0.022 * s.ts : 0);
          len = std::max(len, e.getPosition() + l);
        }
      }
    }
  double got = Helper::getTimeLength(h);
  VCHECK(std::abs(got - len) <= 1e-6 * (1 + len), "length", got << " ticks for " << len << " timescale " << s.ts << " " << showDump(d, 600));
  compareDumps(d, dumpHaptics(h), exactTol, "length-modifies");
  // the expected sound, from channels with their wavelet bands decoded
  std::vector<std::vector<double>> want;
  auto n = (uint32_t)std::round(s.fs * (len / s.ts + 2 * s.pad * 0.001));
  double frac = s.fs * (len / s.ts + 2 * s.pad * 0.001) - std::floor(s.fs * (len / s.ts + 2 * s.pad * 0.001));
  for (int i = 0; i < np; i++)
    for (int c = 0; c < (int)h.getPerceptionAt(i).getChannelsSize(); c++) {
      ht::Channel ch = h.getPerceptionAt(i).getChannelAt(c);
      for (int b = 0; b < (int)ch.getBandsSize(); b++) {
        haptics::waveletdecoder::WaveletDecoder dec;
        dec.transformBand(ch.getBandAt(b), (unsigned)s.ts);
      }
      auto x = ch.EvaluateChannel(n, (int)s.fs, s.pad, (unsigned)s.ts);
      double f = ch.getGain() * std::pow(10.0, h.getPerceptionAt(i).getPerceptionUnitExponent().value_or(0));
      for (auto &y : x) y *= f;
      want.push_back(x);
    }
  std::string name = R.tmp + "/never-written.wav";
  auto nameIn = name;
  saveCalls = 0;
  saveResult = r.chance(0.9);
  bool ok = Helper::playFile(h, len, (int)s.fs, s.pad, name);
  VCHECK(saveCalls == 1, "saved", saveCalls << " times");
  VCHECK(ok == saveResult, "result", ok);
  if (saveCalls != 1) return;
  VCHECK(savedName == nameIn, "name", savedName);
  VCHECK(savedRate == (int)s.fs, "rate", savedRate);
  VCHECK(savedBuffers.size() == want.size(), "channel-count", savedBuffers.size() << " for " << want.size());
  for (size_t c = 0; c < std::min(want.size(), savedBuffers.size()); c++) {
    auto &g = savedBuffers[c];
    auto &x = want[c];
    long diff = std::labs((long)g.size() - (long)x.size());
    VCHECK(diff == 0 || (diff == 1 && std::abs(frac - 0.5) < 1e-6), "sample-count", g.size() << " for " << x.size() << " timescale " << s.ts << " pad " << s.pad);
    for (size_t k = 0; k < std::min(g.size(), x.size()); k++)
      if (!(std::abs(g[k] - x[k]) <= 1e-6 * (1 + std::abs(x[k])))) {
        R.violation("sound", "channel " + std::to_string(c) + " sample " + std::to_string(k) + " is " + std::to_string(g[k]) + ", expected " + std::to_string(x[k]));
        break;
      }
    R.stat("samples", (double)x.size());
  }
}

// ---------------------------------------------------------------- containers
static std::string effText(ht::Effect &e) {
  Dump d;
  dumpEffect(d, "", e);
  return showDump(d, 100000);
}
static ht::Effect anyEffect(Rng &r, int maxPos) {
  Gen g(r, GenOpt{});
  ht::Effect e((int)r.range(0, maxPos), ht::EffectType::Basis);
  g.fillBasis(e, ht::BandType::VectorialWave);
  e.setId((int)r.range(0, 1000000));
  if (r.chance(0.2)) {
    std::string s = g.semantic();
    e.setSemantic(s);
  }
  return e;
}
static void bandHistory(Rng &r) {
  ht::Band b(static_cast<ht::BandType>(r.range(0, 3)), 0, 100);
  std::vector<std::pair<int, std::string>> m; // position, content; in storage order
  int ops = (int)r.range(5, 120), maxPos = r.chance(0.3) ? 10 : 100000;
  bool ordered = true; // a replacement may hold any position
  for (int i = 0; i < ops; i++) {
    int n = (int)m.size();
    switch (r.range(0, 9)) {
    case 0: {
      int k = (int)r.range(-2, n + 1);
      bool ok = b.removeEffectAt(k), want = k >= 0 && k < n;
      VCHECK(ok == want, "band:remove-result", k << " of " << n << " gives " << ok);
      if (want) m.erase(m.begin() + k);
      break;
    }
    case 1: {
      int k = (int)r.range(-2, n + 1);
      auto e = anyEffect(r, maxPos);
      if (k >= 0 && k < n && r.chance(0.8))
        e.setPosition(m[(size_t)k].first);
      auto t = effText(e);
      bool ok = b.replaceEffectAt(k, e), want = k >= 0 && k < n;
      VCHECK(ok == want, "band:replace-result", k << " of " << n << " gives " << ok);
      VCHECK(effText(e) == t, "band:replace-modifies-input", "");
      if (want) {
        m[(size_t)k] = {e.getPosition(), t};
        for (size_t q = 1; q < m.size(); q++) ordered = ordered && m[q - 1].first <= m[q].first;
      }
      break;
    }
    default: {
      auto e = anyEffect(r, maxPos);
      if (n && r.chance(0.3)) e.setPosition(m[(size_t)r.range(0, n - 1)].first);
      auto t = effText(e);
      b.addEffect(e);
      VCHECK(effText(e) == t, "band:add-modifies-input", "");
      if (ordered) {
        auto it = m.begin(); // after the effects at the same position
        while (it != m.end() && it->first <= e.getPosition()) ++it;
        m.insert(it, {e.getPosition(), t});
      } else { // where it goes is not specified any more, but it is there exactly once
        std::vector<std::pair<int, std::string>> now;
        for (int q = 0; q < (int)b.getEffectsSize(); q++) now.emplace_back(b.getEffectAt(q).getPosition(), effText(b.getEffectAt(q)));
        auto want = m;
        want.emplace_back(e.getPosition(), t);
        auto a = want, c = now;
        std::sort(a.begin(), a.end());
        std::sort(c.begin(), c.end());
        VCHECK(a == c, "band:lost-or-duplicated", now.size() << " for " << want.size());
        if (a != c) return;
        m = now;
      }
    }
    }
    VCHECK(b.getEffectsSize() == m.size(), "band:size", b.getEffectsSize() << " for " << m.size());
    if (b.getEffectsSize() != m.size()) return;
    for (size_t q = 0; q < m.size(); q++)
      if (effText(b.getEffectAt((int)q)) != m[q].second) {
        // effects at one position may be held in any order
        std::multiset<std::string> x, y;
        bool order = b.getEffectAt((int)q).getPosition() == m[q].first;
        for (size_t z = 0; z < m.size(); z++)
          if (m[z].first == m[q].first) x.insert(m[z].second), y.insert(effText(b.getEffectAt((int)z)));
        if (order && x == y) {
          for (size_t z = 0; z < m.size(); z++) m[z].second = effText(b.getEffectAt((int)z));
          continue;
        }
        R.violation(order ? "band:content" : "band:order", "effect " + std::to_string(q) + " of " + std::to_string(m.size()) + " is [" + effText(b.getEffectAt((int)q)).substr(0, 200) + "] expected [" + m[q].second.substr(0, 200) + "]");
        return;
      }
    R.stat("band-states");
  }
}
struct MK {
  std::optional<int> p;
  std::optional<float> a;
  std::optional<int> f;
  bool operator==(const MK &o) const { return p == o.p && a == o.a && f == o.f; }
};
static void keyframeHistory(Rng &r) {
  ht::Effect e(0, ht::EffectType::Basis);
  std::vector<MK> m;
  int ops = (int)r.range(5, 60), maxPos = r.chance(0.6) ? 12 : 5000;
  auto fail = [&](const std::string &op) {
    std::vector<MK> g;
    for (int k = 0; k < (int)e.getKeyframesSize(); k++) g.push_back({e.getKeyframeAt(k).getRelativePosition(), e.getKeyframeAt(k).getAmplitudeModulation(), e.getKeyframeAt(k).getFrequencyModulation()});
    if (g == m) return false;
    auto show = [](const std::vector<MK> &v) {
      std::ostringstream o;
      for (auto &k : v) o << "(" << (k.p ? std::to_string(*k.p) : "-") << " " << (k.a ? std::to_string(*k.a) : "-") << " " << (k.f ? std::to_string(*k.f) : "-") << ")";
      return o.str();
    };
    R.violation("effect:" + op, "holds " + show(g) + " expected " + show(m));
    return true;
  };
  for (int i = 0; i < ops; i++) {
    int n = (int)m.size(), p = (int)r.range(0, maxPos);
    auto amp = r.chance(0.9) ? std::optional<float>((float)r.real(-1, 1)) : std::nullopt;
    auto frq = r.chance(0.9) ? std::optional<int>((int)r.range(0, 1000)) : std::nullopt;
    size_t at = 0;
    while (at < m.size() && *m[at].p < p) at++;
    bool same = at < m.size() && *m[at].p == p;
    switch (r.range(0, 6)) {
    case 0:
    case 1: {
      bool over = r.chance(0.7);
      bool ok = over && r.chance(0.5) ? e.addAmplitudeAt(amp, p) : e.addAmplitudeAt(amp, p, over);
      VCHECK(ok, "effect:add-result", "");
      if (same && over)
        m[at].a = amp;
      else if (same)
        m.insert(m.begin() + (long)at + 1, MK{p, amp, std::nullopt});
      else
        m.insert(m.begin() + (long)at, MK{p, amp, std::nullopt});
      if (fail("add-amplitude")) return;
      break;
    }
    case 2:
    case 3: {
      VCHECK(e.addFrequencyAt(frq, p), "effect:add-result", "");
      if (same)
        m[at].f = frq;
      else
        m.insert(m.begin() + (long)at, MK{p, std::nullopt, frq});
      if (fail("add-frequency")) return;
      break;
    }
    case 4: {
      int k = (int)r.range(-2, n + 1);
      bool ok = e.removeKeyframeAt(k), want = k >= 0 && k < n;
      VCHECK(ok == want, "effect:remove-result", k << " of " << n);
      if (want) m.erase(m.begin() + k);
      if (fail("remove")) return;
      break;
    }
    case 5: {
      int k = (int)r.range(-2, n + 1);
      bool want = k >= 0 && k < n;
      ht::Keyframe kf(want ? m[(size_t)k].p : std::optional<int>(p), amp, frq);
      VCHECK(e.replaceKeyframeAt(k, kf) == want, "effect:replace-result", k << " of " << n);
      if (want) m[(size_t)k].a = amp, m[(size_t)k].f = frq;
      if (fail("replace")) return;
      break;
    }
    default: { // appended
      int q = n ? *m.back().p + (int)r.range(0, 5) : p;
      MK k{q, amp, frq};
      if (r.chance(0.5)) {
        e.addKeyframe(q, amp ? std::optional<double>(*amp) : std::nullopt, frq);
      } else {
        ht::Keyframe kf(q, amp, frq);
        e.addKeyframe(kf);
      }
      m.push_back(k);
      if (fail("append")) return;
    }
    }
    R.stat("effect-states");
  }
}
static Dump chDump(ht::Channel &c) {
  Dump d;
  dumpChannel(d, "", c);
  return d;
}
static Dump pDump(ht::Perception &c) {
  Dump d;
  dumpPerception(d, "", c);
  return d;
}
static Dump bDump(ht::Band &c) {
  Dump d;
  dumpBand(d, "", c);
  return d;
}
static std::string flat(const Dump &d) { return showDump(d, 10000000); }
template <class D> static D part(const D &d, const std::vector<std::string> &pre, bool keep) {
  D o;
  for (auto &kv : d) {
    bool in = false;
    for (auto &p : pre) in = in || kv.first.compare(0, p.size(), p) == 0;
    if (in == keep) o.insert(kv);
  }
  return o;
}
static void listHistory(Rng &r) {
  GenOpt go;
  go.minPerceptions = 1;
  go.maxPerceptions = 1;
  go.maxChannels = 2;
  go.maxEffects = 2;
  auto somePerception = [&] {
    Gen g(r, go);
    return g.perception((int)r.range(0, 9), 0, false, false, 2);
  };
  auto someChannel = [&] {
    Gen g(r, go);
    return g.channel((int)r.range(0, 9), {1, 2}, {3, 4}, true);
  };
  auto someBand = [&] {
    Gen g(r, go);
    return g.band({1, 2}, true);
  };
  std::string v = "2023", date = "2023", desc;
  ht::Haptics h(v, date, desc);
  ht::Perception p = somePerception();
  ht::Channel c = someChannel();
  std::vector<Dump> mp, mc, mb;
  for (int i = 0; i < (int)p.getChannelsSize(); i++) mc.push_back(chDump(p.getChannelAt(i)));
  for (int i = 0; i < (int)c.getBandsSize(); i++) mb.push_back(bDump(c.getBandAt(i)));
  int ops = (int)r.range(4, 25);
  auto same = [&](const std::string &op, size_t n, const std::vector<Dump> &m, const std::function<Dump(int)> &at) {
    VCHECK(n == m.size(), op + ":size", n << " for " << m.size());
    for (size_t i = 0; i < std::min(n, m.size()); i++) {
      auto g = at((int)i);
      if (flat(g) != flat(m[i])) {
        compareDumps(m[i], g, exactTol, op);
        return false;
      }
    }
    return n == m.size();
  };
  for (int i = 0; i < ops; i++) {
    int kind = (int)r.range(0, 2), op = (int)r.range(0, 4);
    auto &m = kind == 0 ? mp : kind == 1 ? mc : mb;
    int n = (int)m.size(), k = (int)(r.chance(0.8) ? r.range(0, std::max(0, n - 1)) : r.range(-2, n + 2));
    bool want = k >= 0 && k < n, ok = want;
    std::string tag = std::string(kind == 0 ? "perceptions" : kind == 1 ? "channels" : "bands") + (op == 0 ? ":remove" : op == 1 ? ":replace" : op == 2 ? ":metadata" : ":add");
    if (kind == 0) {
      auto x = somePerception();
      auto d = pDump(x);
      if (op == 0)
        ok = h.removePerceptionAt(k);
      else if (op == 1)
        ok = h.replacePerceptionAt(k, x);
      else if (op == 2)
        ok = h.replacePerceptionMetadataAt(k, x);
      else
        h.addPerception(x);
      VCHECK(flat(pDump(x)) == flat(d), tag + "-modifies-input", "");
      if (op == 0 && want)
        m.erase(m.begin() + k);
      else if (op == 1 && want)
        m[(size_t)k] = d;
      else if (op == 2 && want) { // all but the channels
        auto keep = part(m[(size_t)k], {".c[", ".#channels"}, true), meta = part(d, {".c[", ".#channels"}, false);
        meta.insert(keep.begin(), keep.end());
        m[(size_t)k] = meta;
      } else if (op > 2)
        m.push_back(d);
    } else if (kind == 1) {
      auto x = someChannel();
      auto d = chDump(x);
      if (op == 0)
        ok = p.removeChannelAt(k);
      else if (op == 1)
        ok = p.replaceChannelAt(k, x);
      else if (op == 2)
        ok = p.replaceChannelMetadataAt(k, x);
      else
        p.addChannel(x);
      VCHECK(flat(chDump(x)) == flat(d), tag + "-modifies-input", "");
      if (op == 0 && want)
        m.erase(m.begin() + k);
      else if (op == 1 && want)
        m[(size_t)k] = d;
      else if (op == 2 && want) {
        auto keep = part(m[(size_t)k], {".b[", ".#bands"}, true), meta = part(d, {".b[", ".#bands"}, false);
        meta.insert(keep.begin(), keep.end());
        m[(size_t)k] = meta;
      } else if (op > 2)
        m.push_back(d);
    } else {
      auto x = someBand();
      auto d = bDump(x);
      if (op == 0)
        ok = c.removeBandAt(k);
      else if (op == 1)
        ok = c.replaceBandAt(k, x);
      else if (op == 2 && want) {
        // the curve type and the block length only mean something for their own band type
        if (x.getBandType() != c.getBandAt(k).getBandType()) continue;
        ok = c.replaceBandMetadataAt(k, x);
      } else if (op == 2)
        ok = c.replaceBandMetadataAt(k, x);
      else
        c.addBand(x);
      VCHECK(flat(bDump(x)) == flat(d), tag + "-modifies-input", "");
      if (op == 0 && want)
        m.erase(m.begin() + k);
      else if (op == 1 && want)
        m[(size_t)k] = d;
      else if (op == 2 && want) {
        auto keep = part(m[(size_t)k], {".e[", ".#effects"}, true), meta = part(d, {".e[", ".#effects"}, false);
        meta.insert(keep.begin(), keep.end());
        m[(size_t)k] = meta;
      } else if (op > 2)
        m.push_back(d);
    }
    if (op <= 2) VCHECK(ok == want, tag + "-result", k << " of " << n << " gives " << ok);
    R.stat("list-states");
    bool fine = kind == 0   ? same(tag, h.getPerceptionsSize(), mp, [&](int q) { return pDump(h.getPerceptionAt(q)); })
                : kind == 1 ? same(tag, p.getChannelsSize(), mc, [&](int q) { return chDump(p.getChannelAt(q)); })
                            : same(tag, c.getBandsSize(), mb, [&](int q) { return bDump(c.getBandAt(q)); });
    if (!fine) return;
  }
}
static void containers(Rng &r, long idx) {
  int kind = (int)(idx % 3);
  R.identity(r.next(), true);
  R.sample(kind == 0 ? "effects added to, replaced in and removed from a band" : kind == 1 ? "amplitudes and frequencies set at positions of an effect" : "bands, channels and perceptions added, replaced and removed");
  if (kind == 0)
    bandHistory(r);
  else if (kind == 1)
    keyframeHistory(r);
  else
    listHistory(r);
}

// ---------------------------------------------------------------- placement
static void placement(Rng &r, long) {
  ht::Channel c(0, "", 1, 1, 0);
  int nb = (int)r.range(0, 5);
  const double D = 22; // duration of a transient in milliseconds
  auto lenOf = [&](ht::Band &b, ht::Effect &e) {
    auto k = kfs(e);
    if (k.empty() || b.getBandType() == ht::BandType::WaveletWave) return 0.0;
    return k.back().p + (b.getBandType() == ht::BandType::Transient ? D : 0);
  };
  for (int i = 0; i < nb; i++) {
    ht::Band b(static_cast<ht::BandType>(r.range(0, 3)), 0, 1000);
    int n = (int)r.range(0, 6);
    for (int k = 0; k < n; k++) {
      ht::Effect e((int)r.range(0, 1000), ht::EffectType::Basis);
      int q = (int)r.range(0, 3), p = 0;
      for (int z = 0; z < q; z++) {
        e.addKeyframe(p, 0.5, 100);
        p += (int)r.range(1, 150);
      }
      b.addEffect(e);
    }
    c.addBand(b);
  }
  auto before = flat(chDump(c));
  R.identity(hashStr(before), nb > 0);
  R.sample(before.substr(0, 500));
  for (int q = 0; q < 30; q++) {
    auto bt = static_cast<ht::BandType>(r.range(0, 3));
    int pos = (int)r.range(0, 1100), dur = r.chance(0.1) ? 0 : (int)r.range(1, 300);
    // by band: free for certain, taken for certain, or only touching
    int free = 0, touching = 0;
    std::map<ht::Band *, int> state;
    for (int i = 0; i < nb; i++) {
      auto &b = c.getBandAt(i);
      if (b.getBandType() != bt) continue;
      int st = 0;
      for (int k = 0; k < (int)b.getEffectsSize(); k++) {
        auto &e = b.getEffectAt(k);
        double s = e.getPosition(), t = s + lenOf(b, e);
        if (s > pos + dur || t < pos) continue;
        bool touch = t == pos || s == pos + dur;
        if (lenOf(b, e) == 0 || dur == 0) touch = s == pos || s == pos + dur || t == pos || t == pos + dur;
        st = std::max(st, touch ? 1 : 2);
      }
      state[&b] = st;
      free += st == 0;
      touching += st == 1;
    }
    auto *g = c.findBandAvailable(pos, dur, bt);
    R.stat("requests");
    std::string ctx = "span " + std::to_string(pos) + "+" + std::to_string(dur) + " " + ht::bandTypeToString.at(bt) + " in " + before.substr(0, 400);
    if (g == nullptr) {
      R.stat("refused");
      VCHECK(free == 0, "free-band-not-found", ctx);
    } else if (!state.count(g))
      R.violation("foreign-band", ctx);
    else
      VCHECK(state[g] < 2, "overlapping-band", ctx);
    VCHECK(flat(chDump(c)) == before, "request-modifies", ctx);
  }
  // filling: everything placed this way never overlaps
  ht::Channel f(0, "", 1, 1, 0);
  auto bt = r.chance(0.5) ? ht::BandType::VectorialWave : ht::BandType::Curve;
  int n = (int)r.range(1, 25);
  for (int i = 0; i < n; i++) {
    int pos = (int)r.range(0, 500), dur = (int)r.range(1, 200);
    auto *b = f.findBandAvailable(pos, dur, bt);
    if (b == nullptr) b = f.generateBand(bt, 0, 1000);
    ht::Effect e(pos, ht::EffectType::Basis);
    e.addKeyframe(0, 1, 100);
    e.addKeyframe(dur, 1, 100);
    b->addEffect(e);
  }
  int total = 0;
  for (int i = 0; i < (int)f.getBandsSize(); i++) {
    auto &b = f.getBandAt(i);
    VCHECK(b.getBandType() == bt, "filled-type", "");
    total += (int)b.getEffectsSize();
    for (int x = 0; x < (int)b.getEffectsSize(); x++)
      for (int y = x + 1; y < (int)b.getEffectsSize(); y++) {
        auto &p = b.getEffectAt(x), &q = b.getEffectAt(y);
        bool over = p.getPosition() < q.getPosition() + lenOf(b, q) && q.getPosition() < p.getPosition() + lenOf(b, p);
        VCHECK(!over, "filled-overlap", p.getPosition() << " and " << q.getPosition());
      }
  }
  VCHECK(total == n, "filled-count", total << " of " << n);
}

int main(int argc, char **argv) {
  Modes m;
  m["library"] = {library};
  m["synthesis"] = {synthesis};
  m["play"] = {play};
  m["containers"] = {containers};
  m["placement"] = {placement};
  return workerMain(argc, argv, m);
}
