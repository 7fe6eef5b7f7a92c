// Conversion of AHAP and IVS descriptions.
#include "model.hpp"
#include <Encoder/include/AhapEncoder.h>
#include <Encoder/include/IvsEncoder.h>
#include <algorithm>
using namespace vf;
using haptics::encoder::AhapEncoder;
using haptics::encoder::IvsEncoder;

static std::string num(double v) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
template <class T> static void shuffle(Rng &r, std::vector<T> &v) {
  for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[(size_t)r.range(0, (long long)i - 1)]);
}
static std::string ws(Rng &r) {
  static const std::vector<std::string> w = {"", "", "", " ", "\n", "\t", "\r\n  "};
  return r.pick(w);
}
// members in any order, optional white space and trailing commas
static std::string object(Rng &r, std::vector<std::pair<std::string, std::string>> m, bool commas) {
  shuffle(r, m);
  std::string s = "{" + ws(r);
  for (size_t i = 0; i < m.size(); i++)
    s += "\"" + m[i].first + "\"" + ws(r) + ":" + ws(r) + m[i].second + (i + 1 < m.size() || (commas && r.chance(0.2)) ? "," : "") + ws(r);
  return s + "}";
}
static std::string array(Rng &r, const std::vector<std::string> &m, bool commas) {
  std::string s = "[" + ws(r);
  for (size_t i = 0; i < m.size(); i++) s += m[i] + (i + 1 < m.size() || (commas && r.chance(0.2)) ? "," : "") + ws(r);
  return s + "]";
}

// piecewise linear value of the keyframes of an effect; false outside of them
struct Line {
  std::vector<std::pair<int, double>> p;
  bool covers(double x) const { return !p.empty() && p.front().first <= x && x <= p.back().first; }
  double at(double x) const {
    for (size_t i = 0; i < p.size(); i++) {
      if (p[i].first == x) return p[i].second;
      if (p[i].first > x && i > 0) return p[i - 1].second + (p[i].second - p[i - 1].second) * (x - p[i - 1].first) / (p[i].first - p[i - 1].first);
    }
    return NAN;
  }
  // extreme values taken in [a,b]
  std::pair<double, double> hull(double a, double b) const {
    double lo = 1e300, hi = -1e300;
    for (size_t i = 0; i < p.size(); i++) {
      bool near = (p[i].first >= a && p[i].first <= b) || (i + 1 < p.size() && p[i].first <= a && p[i + 1].first >= a) || (i > 0 && p[i - 1].first <= b && p[i].first >= b);
      if (near) lo = std::min(lo, p[i].second), hi = std::max(hi, p[i].second);
    }
    return {lo, hi};
  }
};
static Line amplitudeOf(ht::Effect &e) {
  Line l;
  for (int i = 0; i < (int)e.getKeyframesSize(); i++)
    if (auto &k = e.getKeyframeAt(i); k.getAmplitudeModulation()) l.p.push_back({k.getRelativePosition().value_or(0), *k.getAmplitudeModulation()});
  return l;
}
static Line frequencyOf(ht::Effect &e) {
  Line l;
  for (int i = 0; i < (int)e.getKeyframesSize(); i++)
    if (auto &k = e.getKeyframeAt(i); k.getFrequencyModulation()) l.p.push_back({k.getRelativePosition().value_or(0), (double)*k.getFrequencyModulation()});
  return l;
}
static std::string show(ht::Effect &e) {
  std::ostringstream o;
  o << "effect at " << e.getPosition() << ":";
  for (int i = 0; i < (int)e.getKeyframesSize(); i++) {
    auto &k = e.getKeyframeAt(i);
    o << " (" << k.getRelativePosition().value_or(-999999);
    if (k.getAmplitudeModulation()) o << " a" << *k.getAmplitudeModulation();
    if (k.getFrequencyModulation()) o << " f" << *k.getFrequencyModulation();
    o << ")";
  }
  return o.str();
}
static int lengthOf(ht::Effect &e) {
  int n = 0;
  for (int i = 0; i < (int)e.getKeyframesSize(); i++) n = std::max(n, e.getKeyframeAt(i).getRelativePosition().value_or(0));
  return n;
}
// no two effects of a band overlap; keyframes are in order
static void checkBands(ht::Channel &c) {
  for (int b = 0; b < (int)c.getBandsSize(); b++) {
    auto &band = c.getBandAt(b);
    for (int i = 0; i < (int)band.getEffectsSize(); i++) {
      auto &e = band.getEffectAt(i);
      for (int k = 1; k < (int)e.getKeyframesSize(); k++)
        VCHECK(e.getKeyframeAt(k - 1).getRelativePosition().value_or(0) <= e.getKeyframeAt(k).getRelativePosition().value_or(0), "keyframe-order", show(e));
      if (band.getBandType() != ht::BandType::VectorialWave) continue;
      for (int j = 0; j < i; j++) {
        auto &f = band.getEffectAt(j);
        bool apart = f.getPosition() + lengthOf(f) <= e.getPosition() || e.getPosition() + lengthOf(e) <= f.getPosition();
        VCHECK(apart, "overlap-in-band", show(f) << " | " << show(e));
        R.stat("pairs_in_a_band");
      }
    }
  }
}
static std::vector<ht::Effect> wavesOf(ht::Channel &c) {
  std::vector<ht::Effect> v;
  for (int b = 0; b < (int)c.getBandsSize(); b++)
    if (c.getBandAt(b).getBandType() == ht::BandType::VectorialWave)
      for (int i = 0; i < (int)c.getBandAt(b).getEffectsSize(); i++) v.push_back(c.getBandAt(b).getEffectAt(i));
  return v;
}
// a channel already there, with waves far after everything converted or in the way
static ht::Channel existing(Rng &r, int id, std::vector<ht::Effect> &waves) {
  ht::Channel c(id, "already there", 1, 1, 0);
  if (r.chance(0.7)) {
    ht::Band b(ht::BandType::VectorialWave, 0, 1000);
    int at = 0;
    for (int i = 0; i < (int)r.range(1, 3); i++) {
      at += (int)r.range(0, 700);
      ht::Effect e(at, 0, ht::BaseSignal::Square, ht::EffectType::Basis);
      int len = (int)r.range(1, 300);
      ht::Keyframe k0(0, 0.111F, 7), k1(len, 0.111F, 7);
      e.addKeyframe(k0);
      e.addKeyframe(k1);
      b.addEffect(e);
      waves.push_back(e);
      at += len + 1;
    }
    c.addBand(b);
  }
  return c;
}

// ---- AHAP ------------------------------------------------------------------------------------
struct AEvent {
  bool transient;
  int at, len;
  std::optional<double> intensity, sharpness;
};
struct Ahap {
  unsigned ts;
  std::vector<AEvent> events;
  Line amp, freq;
  std::string text;
};
static Line polyline(Rng &r, int from, int to, double lo, double hi) {
  Line l;
  int t = from;
  int n = (int)r.range(2, 8);
  for (int i = 0; i < n; i++) {
    double v = r.chance(0.2) ? (r.chance(0.5) ? lo : hi) : r.real(lo, hi);
    l.p.push_back({t, v});
    int left = n - 1 - i;
    if (left == 0) break;
    t = left == 1 ? std::max(t + 1, to) : t + 1 + (int)r.range(0, std::max(0, (to - t) * 2 / left - 1));
  }
  return l;
}
// the curves cover the event, or leave it alone
static bool determinedBy(const Line &l, const AEvent &e) {
  return l.p.empty() || e.at > l.p.back().first || (!e.transient && e.at + e.len < l.p.front().first) || (l.covers(e.at) && l.covers(e.at + e.len));
}
static bool determined(const Ahap &a, const AEvent &e) { return determinedBy(a.amp, e) && determinedBy(a.freq, e); }
static Ahap makeAhap(Rng &r) {
  Ahap a;
  static const std::vector<unsigned> tss = {1000, 1000, 1000, 500, 8000, 44100, 2000};
  a.ts = r.pick(tss);
  const double ts = a.ts;
  const int span = (int)(ts * r.real(0.2, 4));
  int n = (int)(r.chance(0.1) ? r.range(10, 30) : r.range(0, 7));
  for (int i = 0; i < n; i++) {
    AEvent e;
    e.transient = r.chance(0.4);
    e.at = (int)r.range(0, span);
    e.len = e.transient ? 0 : (int)r.range(1, std::max(1, span / 2));
    if (r.chance(0.9)) e.intensity = r.chance(0.2) ? 1.0 : r.unit();
    if (r.chance(0.9)) e.sharpness = r.chance(0.2) ? (double)r.range(0, 1) : r.unit();
    a.events.push_back(e);
  }
  // curves over all of it, part of it, or elsewhere; points often at the very start or end of an event
  auto curve = [&](double lo, double hi) {
    Line l;
    int from, to;
    switch (r.range(0, 3)) {
    case 0: return l;
    case 1: from = 0, to = span * 2; break;
    case 2: from = (int)r.range(0, span), to = from + (int)r.range(2, span); break;
    default: from = r.chance(0.5) ? 0 : span * 2, to = from + (int)r.range(2, 20);
    }
    if (!a.events.empty() && r.chance(0.3)) { // begins or ends with an event
      auto e = r.pick(a.events);
      int t = r.chance(0.5) ? e.at : e.at + e.len;
      if (r.chance(0.5)) from = t, to = std::max(to, t + 2);
      else if (t > 2) to = t, from = std::min(from, t - 2);
    }
    l = polyline(r, from, to, lo, hi);
    if (!a.events.empty() && r.chance(0.5)) {
      auto &e = a.events[(size_t)r.range(0, (long long)a.events.size() - 1)];
      int t = r.chance(0.5) ? e.at : e.at + e.len;
      if (l.covers(t) && std::none_of(l.p.begin(), l.p.end(), [&](auto &p) { return p.first == t; })) {
        l.p.push_back({t, r.real(lo, hi)});
        std::sort(l.p.begin(), l.p.end());
      }
    }
    return l;
  };
  a.amp = curve(0, 1);
  a.freq = curve(-1, 1);
  if (!a.freq.p.empty())
    for (auto &e : a.events)
      if (!e.sharpness) e.sharpness = r.unit();
  // simultaneous events of one kind only where all is determined
  for (size_t i = 0; i < a.events.size(); i++)
    for (size_t j = 0; j < i; j++)
      if (a.events[i].at == a.events[j].at && a.events[i].transient == a.events[j].transient && !(determined(a, a.events[i]) && determined(a, a.events[j]))) {
        a.events.erase(a.events.begin() + (long)i);
        i--;
        break;
      }

  bool commas = r.chance(0.3);
  std::vector<std::string> pattern;
  auto param = [&](const char *id, double v) { return object(r, {{"ParameterID", std::string("\"") + id + "\""}, {"ParameterValue", num(v)}}, commas); };
  for (auto &e : a.events) {
    std::vector<std::string> params;
    if (e.intensity) params.push_back(param("HapticIntensity", *e.intensity));
    if (e.sharpness) params.push_back(param("HapticSharpness", *e.sharpness));
    if (r.chance(0.1)) params.push_back(param("DecayTime", r.unit()));
    shuffle(r, params);
    std::vector<std::pair<std::string, std::string>> m = {{"Time", num(e.at / ts)}, {"EventType", e.transient ? "\"HapticTransient\"" : "\"HapticContinuous\""}, {"EventParameters", array(r, params, commas)}};
    if (!e.transient) m.push_back({"EventDuration", num(e.len / ts)});
    pattern.push_back(object(r, {{"Event", object(r, m, commas)}}, commas));
  }
  auto writeCurve = [&](const Line &l, const char *id) {
    // one polyline, in one or several successive curves that share their end points
    size_t i = 0;
    while (i + 1 < l.p.size()) {
      size_t j = r.chance(0.6) ? l.p.size() - 1 : (size_t)r.range((long long)i + 1, (long long)l.p.size() - 1);
      int offset = r.chance(0.5) ? l.p[i].first : r.chance(0.5) ? 0 : (int)r.range(0, l.p[i].first);
      std::vector<std::string> pts;
      for (size_t k = i; k <= j; k++) pts.push_back(object(r, {{"Time", num((l.p[k].first - offset) / ts)}, {"ParameterValue", num(l.p[k].second)}}, commas));
      pattern.push_back(object(r, {{"ParameterCurve", object(r, {{"ParameterID", std::string("\"") + id + "\""}, {"Time", num(offset / ts)}, {"ParameterCurveControlPoints", array(r, pts, commas)}}, commas)}}, commas));
      i = j;
      R.stat("curves");
    }
  };
  writeCurve(a.amp, "HapticIntensityControl");
  writeCurve(a.freq, "HapticSharpnessControl");
  if (r.chance(0.2)) pattern.push_back(R"({"Event":{"Time":0.0,"EventType":"AudioCustom","EventWaveformPath":"x.wav","EventParameters":[]}})");
  if (r.chance(0.2)) pattern.push_back(R"({"Parameter":{"ParameterID":"HapticIntensityControl","ParameterValue":0.25,"Time":0.0}})");
  if (r.chance(0.2)) pattern.push_back(R"({"ParameterCurve":{"ParameterID":"AudioVolumeControl","Time":0.0,"ParameterCurveControlPoints":[{"Time":0,"ParameterValue":0.1},{"Time":9,"ParameterValue":0.2}]}})");
  shuffle(r, pattern);
  std::vector<std::pair<std::string, std::string>> root = {{"Pattern", array(r, pattern, commas)}};
  if (r.chance(0.7)) root.push_back({"Version", "1.0"});
  if (r.chance(0.3)) root.push_back({"Metadata", R"({"Project":"p","Created":"today"})"});
  a.text = object(r, root, commas) + ws(r);
  return a;
}
static bool nearly(double a, double b) { return std::abs(a - b) <= 2e-4 * std::max(1.0, std::abs(b)); }

static void checkAhap(const Ahap &a, ht::Channel &c, const std::vector<ht::Effect> &before) {
  auto waves = wavesOf(c);
  for (auto b : before) {
    auto it = std::find_if(waves.begin(), waves.end(), [&](ht::Effect &w) { return show(w) == show(b); });
    VCHECK(it != waves.end(), "existing-effect-lost", show(b));
    if (it != waves.end()) waves.erase(it);
  }
  // transients: position and amplitude
  std::vector<std::pair<int, double>> got;
  for (int b = 0; b < (int)c.getBandsSize(); b++)
    if (c.getBandAt(b).getBandType() == ht::BandType::Transient)
      for (int i = 0; i < (int)c.getBandAt(b).getEffectsSize(); i++) {
        auto &e = c.getBandAt(b).getEffectAt(i);
        for (int k = 0; k < (int)e.getKeyframesSize(); k++) got.push_back({e.getPosition() + e.getKeyframeAt(k).getRelativePosition().value_or(0), e.getKeyframeAt(k).getAmplitudeModulation().value_or(NAN)});
      }
  size_t nt = 0, nw = 0;
  for (auto &e : a.events) (e.transient ? nt : nw)++;
  VCHECK(got.size() == nt, "transient-count", got.size() << " for " << nt);
  VCHECK(waves.size() == nw, "wave-count", waves.size() << " for " << nw);
  // strictly determined events first, so that the others do not take their place
  struct Want {
    const AEvent *e;
    bool strictA, strictF;
  };
  std::vector<Want> want;
  for (auto &e : a.events) {
    want.push_back({&e, determinedBy(a.amp, e), determinedBy(a.freq, e)});
  }
  std::stable_sort(want.begin(), want.end(), [](const Want &x, const Want &y) { return x.strictA + x.strictF > y.strictA + y.strictF; });
  for (auto &w : want) {
    auto &e = *w.e;
    bool coverA = a.amp.covers(e.at) && a.amp.covers(e.at + e.len);
    bool coverF = a.freq.covers(e.at) && a.freq.covers(e.at + e.len);
    if (e.transient) {
      double base = e.intensity ? *e.intensity * 0.792 : 0.5;
      double val = coverA ? base * a.amp.at(e.at) : base;
      auto it = std::find_if(got.begin(), got.end(), [&](auto &g) { return g.first == e.at && (w.strictA ? nearly(g.second, val) : g.second >= -1e-6 && g.second <= base + 1e-4); });
      std::ostringstream o;
      for (auto &g : got) o << " (" << g.first << " " << g.second << ")";
      VCHECK(it != got.end(), "transient-missing", "at " << e.at << " amplitude " << val << " among" << o.str());
      if (it != got.end()) got.erase(it);
      R.stat(coverA ? "transients_under_a_curve" : "transients");
      continue;
    }
    double base = e.intensity ? *e.intensity * 0.6138 : 0.5;
    double s = e.sharpness.value_or(0);
    auto hz = [](double x) { return 65 + 235 * std::min(1.0, std::max(0.0, x)); };
    auto matches = [&](ht::Effect &g, std::string &why) {
      if (g.getPosition() != e.at) return why = "position", false;
      if (lengthOf(g) != e.len) return why = "duration", false;
      if (g.getBaseSignal() != ht::BaseSignal::Sine || g.getPhase() != 0 || g.getEffectType() != ht::EffectType::Basis) return why = "signal", false;
      auto ga = amplitudeOf(g), gf = frequencyOf(g);
      if (!ga.covers(0) || !ga.covers(e.len) || ga.p.front().first < 0) return why = "amplitude range", false;
      if (!gf.covers(0) || !gf.covers(e.len) || gf.p.front().first < 0) return why = "frequency range", false;
      if (coverA) {
        std::vector<int> at = {0, e.len};
        for (auto &p : a.amp.p)
          if (p.first > e.at && p.first < e.at + e.len) at.push_back(p.first - e.at);
        for (int t : at)
          if (!nearly(ga.at(t), base * a.amp.at(t + e.at))) return why = "amplitude at " + std::to_string(t) + ": " + num(ga.at(t)) + " for " + num(base * a.amp.at(t + e.at)), false;
        for (auto &p : ga.p)
          if (!nearly(p.second, base * a.amp.at(p.first + e.at))) return why = "amplitude at " + std::to_string(p.first) + ": " + num(p.second), false;
      } else {
        for (auto &p : ga.p)
          if (w.strictA ? !nearly(p.second, base) : p.second < -1e-6 || p.second > base + 1e-4) return why = "amplitude outside a curve: " + num(p.second), false;
      }
      if (coverF) {
        for (auto &p : a.freq.p)
          if (p.first >= e.at && p.first < e.at + e.len)
            if (double f = gf.at(p.first - e.at); std::abs(f - hz(p.second + s)) > 1.01) return why = "frequency at " + std::to_string(p.first - e.at) + ": " + num(f) + " for " + num(hz(p.second + s)), false;
        for (auto &p : gf.p) {
          auto h = a.freq.hull(p.first + e.at, p.first + e.at);
          if (p.second < hz(h.first + s) - 1.01 || p.second > hz(h.second + s) + 1.01) return why = "frequency at " + std::to_string(p.first) + ": " + num(p.second), false;
        }
      } else {
        double plain = e.sharpness ? hz(s) : 90;
        for (auto &p : gf.p)
          if (w.strictF ? std::abs(p.second - plain) > 1.01 : p.second < 63.9 || p.second > 301.1) return why = "frequency outside a curve: " + num(p.second), false;
      }
      return true;
    };
    std::string whys;
    auto it = waves.begin();
    for (; it != waves.end(); ++it) {
      std::string why;
      if (matches(*it, why)) break;
      if (why != "position") whys += " [" + show(*it) + " " + why + "]";
    }
    VCHECK(it != waves.end(), "wave-missing", "at " << e.at << " lasting " << e.len << " intensity " << e.intensity.value_or(-1) << " sharpness " << e.sharpness.value_or(-1) << ":" << whys);
    if (it != waves.end()) waves.erase(it);
    R.stat(coverA || coverF ? "waves_under_a_curve" : "waves");
  }
  checkBands(c);
}
static int runAhap(const std::string &text, ht::Perception &p, unsigned ts) {
  std::string f = R.tmp + "/c.ahap";
  writeAll(f, text);
  return AhapEncoder::encode(f, p, ts);
}
static void ahap(Rng &r, long) {
  auto a = makeAhap(r);
  R.identity(hashStr(a.text), !a.events.empty());
  R.sample(a.text);
  ht::Perception p(0, 0, "", ht::PerceptionModality::Vibrotactile);
  std::vector<ht::Effect> before;
  int there = r.chance(0.25) ? 1 : 0;
  if (there) {
    auto c = existing(r, 5, before);
    p.addChannel(c);
  }
  R.stat("files");
  int rc = runAhap(a.text, p, a.ts);
  VCHECK(rc == 0, "refused", a.text);
  if (rc) return;
  VCHECK(p.getChannelsSize() == 1, "channels", p.getChannelsSize());
  if (p.getChannelsSize() != 1) return;
  checkAhap(a, p.getChannelAt(0), before);
}

// ---- IVS -------------------------------------------------------------------------------------
struct Basis {
  std::string name, type, waveform;
  int duration, magnitude, period;
  int attackTime = -1, attackLevel = 0, fadeTime = -1, fadeLevel = 0;
};
struct Launch {
  int time;
  int basis;
  std::optional<int> duration, magnitude, period;
};
struct Repeat {
  int time, duration, count;
  std::vector<Repeat> inner;
  long long full() const {
    long long f = duration;
    for (auto &i : inner) f += i.extension();
    return f;
  }
  long long extension() const { return full() * (count + 1) - duration; }
};
struct Timeline {
  std::string name;
  std::vector<Launch> launches;
  std::vector<Repeat> repeats;
};
struct Ivs {
  unsigned ts;
  std::vector<Basis> basis;
  std::vector<Timeline> timelines;
  std::string text;
  long long effects = 0;
};
static std::vector<Repeat> makeRepeats(Rng &r, int from, int to, int depth) {
  std::vector<Repeat> v;
  int n = (int)r.range(depth == 0 ? 0 : -1, 2);
  int t = from;
  for (int i = 0; i < n && to - t > 4; i++) {
    Repeat p;
    p.time = r.chance(0.3) ? t : t + (int)r.range(0, (to - t) / 3);
    int room = to - p.time;
    p.duration = r.chance(0.2) ? room : (int)r.range(2, std::max(2, room / (n - i)));
    p.duration = std::min(p.duration, room);
    if (p.duration < 1) break;
    p.count = (int)(r.chance(0.15) ? 0 : r.range(1, 3));
    if (depth < 3 && r.chance(0.6)) p.inner = makeRepeats(r, p.time, p.time + p.duration, depth + 1);
    t = p.time + p.duration;
    v.push_back(p);
  }
  return v;
}
static void expand(const std::vector<Repeat> &rs, long long shift, int t, std::vector<long long> &out) {
  for (auto &p : rs) {
    if (p.time <= t && t < p.time + p.duration) {
      for (int i = 0; i <= p.count; i++) expand(p.inner, shift + i * p.full(), t, out);
      return;
    }
    if (p.time + p.duration <= t) shift += p.extension();
  }
  out.push_back(t + shift);
}
static std::string attr(Rng &r, std::vector<std::pair<std::string, std::string>> m) {
  shuffle(r, m);
  std::string s;
  for (auto &a : m) {
    const char *q = r.chance(0.8) ? "\"" : "'";
    s += (r.chance(0.1) ? "\n  " : " ") + a.first + "=" + q + a.second + q;
  }
  return s;
}
static Ivs makeIvs(Rng &r) {
  Ivs d;
  static const std::vector<unsigned> tss = {1000, 1000, 1000, 500, 2000, 8000, 44100};
  d.ts = r.pick(tss);
  static const std::vector<std::string> forms = {"sine", "square", "triangle", "sawtooth-up", "sawtooth-down"};
  int nb = (int)r.range(1, 4);
  for (int i = 0; i < nb; i++) {
    Basis b;
    b.name = "effect-" + std::to_string(r.range(0, 3)) + (r.chance(0.3) ? " ~x" : "") + std::string((size_t)i, 'a');
    b.type = r.chance(0.75) ? "periodic" : "magsweep";
    b.waveform = r.pick(forms);
    b.duration = (int)(r.chance(0.1) ? r.range(1, 5) : r.range(1, 600));
    b.magnitude = (int)(r.chance(0.2) ? 10000 : r.range(0, 10000));
    b.period = (int)(r.chance(0.2) ? r.range(1, 3) : r.range(1, 300));
    if (r.chance(0.4)) b.attackTime = (int)(r.chance(0.2) ? r.range(0, 1000) : r.range(0, b.duration / 2)), b.attackLevel = (int)r.range(0, 10000);
    if (r.chance(0.4)) b.fadeTime = (int)(r.chance(0.2) ? r.range(0, 1000) : r.range(0, b.duration / 2)), b.fadeLevel = (int)r.range(0, 10000);
    d.basis.push_back(b);
  }
  int nt = (int)r.range(1, 3);
  for (int i = 0; i < nt; i++) {
    Timeline t;
    t.name = "timeline " + std::to_string(i);
    int span = (int)r.range(20, 2500);
    if (r.chance(0.6)) t.repeats = makeRepeats(r, 0, span, 0);
    int nl = (int)(r.chance(0.1) ? r.range(8, 15) : r.range(0, 5));
    for (int k = 0; k < nl; k++) {
      Launch l;
      l.time = (int)r.range(0, span + span / 4);
      if (!t.repeats.empty() && r.chance(0.3)) {
        const auto *p = &t.repeats[(size_t)r.range(0, (long long)t.repeats.size() - 1)];
        if (!p->inner.empty() && r.chance(0.5)) p = &p->inner[0];
        l.time = r.chance(0.5) ? p->time : p->time + p->duration - (int)r.range(0, 1);
      }
      l.basis = (int)r.range(0, nb - 1);
      if (r.chance(0.2)) l.duration = (int)r.range(1, 600);
      if (r.chance(0.2)) l.magnitude = (int)r.range(0, 10000);
      if (r.chance(0.2)) l.period = (int)r.range(1, 300);
      std::vector<long long> at;
      expand(t.repeats, 0, l.time, at);
      if (d.effects + (long long)at.size() > 150) continue;
      d.effects += (long long)at.size();
      t.launches.push_back(l);
    }
    d.timelines.push_back(t);
  }
  auto N = [](int v) { return std::to_string(v); };
  std::vector<std::string> el;
  for (auto &b : d.basis) {
    std::vector<std::pair<std::string, std::string>> m = {{"name", b.name}, {"type", b.type}, {"duration", N(b.duration)}, {"magnitude", N(b.magnitude)}};
    if (b.type == "periodic") m.push_back({"period", N(b.period)}), m.push_back({"waveform", b.waveform});
    if (b.attackTime >= 0) m.push_back({"attack-time", N(b.attackTime)}), m.push_back({"attack-level", N(b.attackLevel)});
    if (b.fadeTime >= 0) m.push_back({"fade-time", N(b.fadeTime)}), m.push_back({"fade-level", N(b.fadeLevel)});
    el.push_back("<basis-effect" + attr(r, m) + "/>");
  }
  for (auto &t : d.timelines) {
    std::vector<std::string> in;
    for (auto &l : t.launches) {
      std::vector<std::pair<std::string, std::string>> m = {{"time", N(l.time)}, {"effect", d.basis[(size_t)l.basis].name}};
      if (l.duration) m.push_back({"duration-override", N(*l.duration)});
      if (l.magnitude) m.push_back({"magnitude-override", N(*l.magnitude)});
      if (l.period) m.push_back({"period-override", N(*l.period)});
      in.push_back("<launch-event" + attr(r, m) + (r.chance(0.5) ? "/>" : "></launch-event>"));
    }
    std::function<void(const std::vector<Repeat> &)> rep = [&](const std::vector<Repeat> &v) {
      for (auto &p : v) {
        in.push_back("<repeat-event" + attr(r, {{"time", N(p.time)}, {"duration", N(p.duration)}, {"count", N(p.count)}}) + "/>");
        rep(p.inner);
      }
    };
    rep(t.repeats);
    shuffle(r, in);
    std::string s = "<timeline-effect" + attr(r, {{"name", t.name}}) + ">";
    for (auto &x : in) s += ws(r) + x;
    el.push_back(s + "</timeline-effect>");
  }
  if (r.chance(0.5)) { // basis effects and timelines in any order, each kind keeping its own order
    std::vector<std::string> a(el.begin(), el.begin() + nb), b(el.begin() + nb, el.end()), m;
    size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) m.push_back(j >= b.size() || (i < a.size() && r.chance(0.5)) ? a[i++] : b[j++]);
    el = m;
  }
  d.text = std::string(r.chance(0.7) ? "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" : "") + "<ivs-file" + attr(r, {{"ivs-version", "1.0.1"}, {"last-modified", "2020-01-0" + N((int)r.range(1, 9))}}) + ">" + ws(r) + "<effects>";
  for (auto &x : el) d.text += ws(r) + (r.chance(0.05) ? "<!-- c -->" : "") + x;
  d.text += "</effects>" + ws(r) + "</ivs-file>" + ws(r);
  return d;
}
static bool matchesBasis(ht::Effect &g, const Basis &b, const Launch &l, long long at, unsigned ts, std::string &why) {
  auto ticks = [&](double ms) { return ms * ts / 1000; };
  auto close = [](double got, double want) { return std::abs(got - want) <= 1.001; };
  if (!close(g.getPosition(), ticks((double)at))) return why = "position", false;
  double dur = ticks(l.duration.value_or(b.duration));
  if (!close(lengthOf(g), dur)) return why = "duration", false;
  int len = lengthOf(g);
  if (g.getPhase() != 0 || g.getEffectType() != ht::EffectType::Basis) return why = "kind", false;
  static const std::map<std::string, ht::BaseSignal> forms = {{"sine", ht::BaseSignal::Sine}, {"square", ht::BaseSignal::Square}, {"triangle", ht::BaseSignal::Triangle}, {"sawtooth-up", ht::BaseSignal::SawToothUp}, {"sawtooth-down", ht::BaseSignal::SawToothDown}};
  if (g.getBaseSignal() != (b.type == "periodic" ? forms.at(b.waveform) : ht::BaseSignal::Sine)) return why = "waveform", false;
  auto f = frequencyOf(g), a = amplitudeOf(g);
  if (!f.covers(0) || !f.covers(len) || f.p.front().first < 0) return why = "frequency range", false;
  for (auto &p : f.p) {
    if (b.type == "periodic" && (p.second < 1000.0 / l.period.value_or(b.period) - 1.001 || p.second > 1000.0 / l.period.value_or(b.period) + 1.001)) return why = "frequency " + num(p.second), false;
    if (p.second != f.p[0].second) return why = "frequency changes", false;
  }
  if (!a.covers(0) || !a.covers(len) || a.p.front().first < 0) return why = "amplitude range", false;
  double base = l.magnitude.value_or(b.magnitude) * 1e-4, attack = b.attackLevel * 1e-4, fade = b.fadeLevel * 1e-4;
  double at0 = b.attackTime >= 0 ? ticks(b.attackTime) : 0, fa0 = b.fadeTime >= 0 ? len - ticks(b.fadeTime) : len;
  double lo = base, hi = base;
  if (b.attackTime >= 0) lo = std::min(lo, attack), hi = std::max(hi, attack);
  if (b.fadeTime >= 0) lo = std::min(lo, fade), hi = std::max(hi, fade);
  for (auto &p : a.p)
    if (p.second < lo - 1e-4 || p.second > hi + 1e-4) return why = "amplitude " + num(p.second) + " outside of the levels", false;
  auto knot = [&](double t, double v) { return std::any_of(a.p.begin(), a.p.end(), [&](auto &p) { return close(p.first, t) && std::abs(p.second - v) <= 2e-4; }); };
  if (dur < 4) return true; // rounded away
  // shape: what the envelope says when attack and fade do not meet
  if (at0 + 3 <= fa0 && at0 + 3 <= len) {
    if (b.attackTime >= 3000.0 / ts && std::abs(a.p.front().second - attack) > 2e-4) return why = "attack level", false;
    if (!knot(at0, base)) return why = "attack end", false;
    if (b.fadeTime >= 3000.0 / ts && std::abs(a.p.back().second - fade) > 2e-4) return why = "fade level", false;
    if (b.fadeTime < 0 && std::abs(a.p.back().second - base) > 2e-4) return why = "last level", false;
    // between the attack and the fade the magnitude is kept
    if (fa0 - at0 >= 3) {
      if ((b.fadeTime < 0 || b.fadeTime >= 3000.0 / ts) && !knot(fa0, base)) return why = "fade start", false;
      for (auto &p : a.p)
        if (p.first > at0 + 1.5 && p.first < fa0 - 1.5 && std::abs(p.second - base) > 2e-4) return why = "plateau", false;
    }
  } else if (b.attackTime >= 0 && at0 >= len + 3 && b.fadeTime < 0) { // the attack is cut by the end
    if (std::abs(a.p.front().second - attack) > 2e-4) return why = "attack level", false;
    double v = attack + (base - attack) * len / at0;
    if (std::abs(a.p.back().second - v) > 2e-4 + std::abs(base - attack) * 1.5 / at0) return why = "cut attack " + num(a.p.back().second) + " for " + num(v), false;
  }
  return true;
}
static int runIvs(const std::string &text, ht::Perception &p, unsigned ts) {
  std::string f = R.tmp + "/c.ivs";
  writeAll(f, text);
  return IvsEncoder::encode(f, p, ts);
}
static void ivs(Rng &r, long) {
  auto d = makeIvs(r);
  R.identity(hashStr(d.text), d.effects > 0);
  R.sample(d.text);
  ht::Perception p(0, 0, "", ht::PerceptionModality::Vibrotactile);
  std::vector<std::vector<ht::Effect>> before(d.timelines.size());
  if (r.chance(0.2)) {
    auto c = existing(r, 0, before[0]);
    p.addChannel(c);
  }
  bool there = p.getChannelsSize() > 0;
  R.stat("files");
  int rc = runIvs(d.text, p, d.ts);
  VCHECK(rc == 0, "refused", d.text);
  if (rc) return;
  VCHECK(p.getChannelsSize() == d.timelines.size(), "channels", p.getChannelsSize() << " for " << d.timelines.size());
  if (p.getChannelsSize() != d.timelines.size()) return;
  std::set<int> ids;
  for (size_t i = 0; i < d.timelines.size(); i++) {
    auto &t = d.timelines[i];
    auto &c = p.getChannelAt((int)i);
    VCHECK(ids.insert(c.getId()).second, "channel-id-repeated", c.getId());
    if (!there || i > 0) VCHECK(c.getDescription().find(t.name) != std::string::npos, "description", c.getDescription());
    auto waves = wavesOf(c);
    for (auto b : before[i]) {
      auto it = std::find_if(waves.begin(), waves.end(), [&](ht::Effect &w) { return show(w) == show(b); });
      VCHECK(it != waves.end(), "existing-effect-lost", show(b));
      if (it != waves.end()) waves.erase(it);
    }
    // a one-to-one correspondence between what is launched and what was made of it
    struct Want {
      const Launch *l;
      long long at;
      std::vector<size_t> fits;
      std::string whys;
    };
    std::vector<Want> want;
    for (auto &l : t.launches) {
      std::vector<long long> at;
      expand(t.repeats, 0, l.time, at);
      R.stat("launches");
      R.stat("repetitions", (double)at.size() - 1);
      for (auto x : at) {
        Want w{&l, x, {}, ""};
        for (size_t k = 0; k < waves.size(); k++) {
          std::string why;
          if (matchesBasis(waves[k], d.basis[(size_t)l.basis], l, x, d.ts, why))
            w.fits.push_back(k);
          else if (why != "position")
            w.whys += " [" + show(waves[k]) + " " + why + "]";
        }
        want.push_back(w);
      }
    }
    std::vector<int> owner(waves.size(), -1);
    std::vector<char> seen;
    std::function<bool(int)> place = [&](int w) {
      for (size_t k : want[(size_t)w].fits) {
        if (seen[k]) continue;
        seen[k] = 1;
        if (owner[k] < 0 || place(owner[k])) return owner[k] = w, true;
      }
      return false;
    };
    for (size_t w = 0; w < want.size(); w++) {
      seen.assign(waves.size(), 0);
      bool ok = place((int)w);
      VCHECK(ok, "launch-missing", "timeline " << i << " launch at " << want[w].l->time << " played at " << want[w].at << " ms of " << d.basis[(size_t)want[w].l->basis].name << ":" << want[w].whys);
    }
    VCHECK(waves.size() <= want.size(), "extra-effect", waves.size() << " for " << want.size());
    checkBands(c);
  }
}

// ---- hostile ---------------------------------------------------------------------------------
static std::string hostileNumber(Rng &r) {
  static const std::vector<std::string> v = {"0", "-0", "-1", "1e9", "1e15", "-1e18", "1e308", "-1.7e308", "1e-320", "2147483647", "2147483648", "-2147483648", "4294967296", "9223372036854775807", "18446744073709551616", "0.1", "1e999", "nan", "\"x\"", "null", "true", "[]", "{}", "\"HapticIntensity\""};
  return r.pick(v);
}
// replaces a number of the text
static std::string mutateNumbers(Rng &r, std::string s, bool xml) {
  for (int n = (int)r.range(1, 3); n > 0; n--) {
    std::vector<std::pair<size_t, size_t>> at;
    for (size_t i = 0; i < s.size();) {
      if (isdigit((unsigned char)s[i]) || (s[i] == '-' && i + 1 < s.size() && isdigit((unsigned char)s[i + 1]))) {
        size_t j = i + 1;
        while (j < s.size() && (isalnum((unsigned char)s[j]) || s[j] == '.' || ((s[j] == '-' || s[j] == '+') && s[j - 1] == 'e'))) j++;
        at.push_back({i, j - i});
        i = j;
      } else {
        i++;
      }
    }
    if (at.empty()) break;
    auto p = at[(size_t)r.range(0, (long long)at.size() - 1)];
    std::string v = hostileNumber(r);
    if (xml)
      v.erase(std::remove_if(v.begin(), v.end(), [](char c) { return c == '"'; }), v.end());
    s.replace(p.first, p.second, v);
  }
  return s;
}
static std::string mutateBytes(Rng &r, std::string s) {
  for (int n = (int)r.range(1, 4); n > 0 && !s.empty(); n--) {
    size_t i = (size_t)r.range(0, (long long)s.size() - 1);
    switch (r.range(0, 3)) {
    case 0: s[i] = (char)r.range(0, 255); break;
    case 1: s.erase(i, (size_t)r.range(1, 20)); break;
    case 2: s.insert(i, s.substr((size_t)r.range(0, (long long)s.size() - 1), (size_t)r.range(1, 60))); break;
    default: s[i] = "{}[]<>/\"',:=&"[r.range(0, 12)];
    }
  }
  return s;
}
// renames or retypes a member
static std::string mutateWords(Rng &r, std::string s) {
  static const std::vector<std::string> from = {"\"ParameterID\"", "\"ParameterValue\"", "\"Event\"", "\"EventType\"", "\"ParameterCurve\"", "\"ParameterCurveControlPoints\"", "\"Time\"", "\"EventParameters\"", "\"EventDuration\"", "\"Pattern\"", "\"HapticIntensityControl\"", "\"HapticTransient\"", "\"HapticContinuous\"", "\"HapticIntensity\"", "time=", "duration=", "count=", "period=", "type=", "waveform=", "name=", "effect=", "sine", "periodic", "basis-effect", "launch-event", "timeline-effect", "effects", "magnitude="};
  static const std::vector<std::string> to = {"\"x\"", "\"Event\"", "\"Time\"", "1", "null", "{}", "[]", "zz", "", "\"ParameterCurve\"", "time="};
  for (int n = (int)r.range(1, 8); n > 0; n--) {
    auto f = r.pick(from);
    std::vector<size_t> at;
    for (size_t p = s.find(f); p != std::string::npos; p = s.find(f, p + 1)) at.push_back(p);
    if (at.empty()) continue;
    s.replace(at[(size_t)r.range(0, (long long)at.size() - 1)], f.size(), r.pick(to));
  }
  return s;
}
// a member replaced by a value of another type, keeping well-formed JSON
static std::string retype(Rng &r, const std::string &s) {
  std::vector<size_t> at;
  for (size_t i = 0; i < s.size(); i++)
    if (s[i] == '{' || s[i] == '[') at.push_back(i);
  size_t b = at[(size_t)r.range(0, (long long)at.size() - 1)], e = b;
  int depth = 0;
  bool str = false;
  for (; e < s.size(); e++) {
    if (s[e] == '"') str = !str;
    if (str) continue;
    if (s[e] == '{' || s[e] == '[') depth++;
    if ((s[e] == '}' || s[e] == ']') && --depth == 0) break;
  }
  static const std::vector<std::string> v = {"{}", "[]", "1", "\"a\"", "null", "true", "[1,2]", "[{}]", "[null]", "{\"Time\":1}", "{\"Event\":{}}", "[{\"ParameterID\":\"HapticIntensity\"}]"};
  return s.substr(0, b) + r.pick(v) + s.substr(std::min(s.size(), e + 1));
}
static void hostile(Rng &r, long) {
  bool xml = r.chance(0.5);
  std::string text, good;
  unsigned ts;
  if (xml) {
    auto d = makeIvs(r);
    good = d.text, ts = d.ts;
  } else {
    auto a = makeAhap(r);
    good = a.text, ts = a.ts;
  }
  for (int variant = 0; variant < 4; variant++) {
    text = good;
    bool mustFail = false;
    bool missing = false;
    int kind = (int)r.range(0, 9);
    switch (kind) {
    case 0: { // cut before the end of the document element
      size_t end = xml ? text.find("</ivs-file>") + 10 : text.rfind('}');
      text.resize((size_t)r.range(0, (long long)end));
      mustFail = true;
      break;
    }
    case 1:
    case 2: text = mutateBytes(r, text); break;
    case 3:
    case 4: text = mutateNumbers(r, text, xml); break;
    case 5: text = mutateWords(r, text); break;
    case 6:
      if (xml)
        text = mutateWords(r, mutateNumbers(r, text, xml));
      else
        text = retype(r, text);
      break;
    case 7: {
      int n = (int)r.range(0, 60);
      text.clear();
      for (int i = 0; i < n; i++) text += r.chance(0.5) ? (char)r.range(0, 255) : "{}[]<>/\"',:=& 019e"[r.range(0, 17)];
      break;
    }
    case 8: { // deep nesting
      int n = (int)(r.chance(0.1) ? r.range(20000, 60000) : r.range(1, 300));
      text.clear();
      if (xml && r.chance(0.5)) {
        for (int i = 0; i < n; i++) text += "<a>";
        mustFail = true;
      } else if (xml) { // repeats inside repeats
        n = (int)(r.chance(0.05) ? r.range(3000, 6000) : r.range(1, 300));
        text = "<ivs-file><effects><basis-effect name='a' type='magsweep' duration='5' magnitude='5'/><timeline-effect>";
        for (int i = 0; i < n; i++) text += "<repeat-event time='" + std::to_string(i) + "' duration='" + std::to_string(100000000 - 2 * i) + "' count='" + std::to_string(r.chance(0.01) ? 1 : 0) + "'/>";
        text += "<launch-event time='" + std::to_string(r.range(0, n)) + "' effect='a'/></timeline-effect></effects></ivs-file>";
      } else {
        std::string open = r.chance(0.5) ? "[" : "{\"Pattern\":";
        for (int i = 0; i < n; i++) text += open;
        mustFail = true;
      }
      break;
    }
    default: { // no such file, no document
      if (r.chance(0.5)) {
        missing = true;
      } else {
        static const std::vector<std::string> t = {"", " ", "\n", "null", "[]", "1", "{}", "{\"Pattern\":{}}", "{\"Pattern\":null}", "{\"Pattern\":1", "\xef\xbb\xbf", "text"};
        text = r.pick(t);
        if (xml) text.erase(std::remove(text.begin(), text.end(), '<'), text.end());
      }
      mustFail = true;
    }
    }
    R.identity(hashStr(text) + (uint64_t)kind, true);
    R.stat(xml ? "ivs_files" : "ahap_files");
    ht::Perception p(0, 0, "", ht::PerceptionModality::Vibrotactile);
    int rc;
    if (missing) {
      std::string f = R.tmp + "/none/such.file";
      rc = xml ? IvsEncoder::encode(f, p, ts) : AhapEncoder::encode(f, p, ts);
    } else {
      rc = xml ? runIvs(text, p, ts) : runAhap(text, p, ts);
    }
    R.stat(rc ? "refused" : "accepted");
    VCHECK(!mustFail || rc != 0, "accepted-unparsable", (xml ? "ivs " : "ahap ") << "kind " << kind << ": " << text.substr(0, 300));
    if (rc == 0)
      for (int c = 0; c < (int)p.getChannelsSize(); c++) {
        auto &ch = p.getChannelAt(c);
        for (int b = 0; b < (int)ch.getBandsSize(); b++)
          for (int i = 0; i < (int)ch.getBandAt(b).getEffectsSize(); i++) {
            auto &e = ch.getBandAt(b).getEffectAt(i);
            for (int k = 0; k < (int)e.getKeyframesSize(); k++) VCHECK(std::isfinite(e.getKeyframeAt(k).getAmplitudeModulation().value_or(0)), "not-finite", show(e));
          }
        for (auto &e : wavesOf(p.getChannelAt(c))) {
          int s = (int)e.getBaseSignal().value_or(ht::BaseSignal::Sine);
          VCHECK(s >= 0 && s <= 4, "base-signal", s);
        }
      }
  }
}
#ifndef CONV_PART
int main(int argc, char **argv) {
  Modes m;
  m["ahap"] = {ahap};
  m["ivs"] = {ivs};
  m["hostile"] = {hostile};
  return workerMain(argc, argv, m);
}
#endif
