// The command-line tools, WAV files, and the encoding of PCM signals.
#define CONV_PART
#include "w_conv.cpp"
#include "streamgen.hpp"
#include <climits>
#include <csignal>
#include <sys/resource.h>
#include <Encoder/include/PcmEncoder.h>
#include <IOHaptics/include/IOJson.h>
#include <IOHaptics/include/IOStream.h>
#include <Synthesizer/include/Helper.h>
#include <Tools/include/OHMData.h>
#include <Tools/include/WavParser.h>
using haptics::encoder::EncodingConfig;
using haptics::encoder::PcmEncoder;
using haptics::io::IOJson;
using haptics::io::IOStream;
using haptics::synthesizer::Helper;
using haptics::tools::OHMData;
using haptics::tools::WavParser;

int Encoder_main(int argc, char *argv[]);
int Decoder_main(int argc, char *argv[]);
int Synthesizer_main(int argc, char *argv[]);

// ---- WAV files -------------------------------------------------------------------------------
static void le(std::string &s, uint32_t v, int n) {
  for (int i = 0; i < n; i++) s += (char)(v >> (8 * i));
}
// the layout of a 16-bit PCM file, interleaved
static std::string wavLayout(const std::vector<std::vector<int>> &ch, uint32_t rate, bool extra = false) {
  size_t n = ch.empty() ? 0 : ch[0].size();
  std::string f, d;
  le(f, 1, 2);
  le(f, (uint32_t)ch.size(), 2);
  le(f, rate, 4);
  le(f, rate * (uint32_t)ch.size() * 2, 4);
  le(f, (uint32_t)ch.size() * 2, 2);
  le(f, 16, 2);
  for (size_t i = 0; i < n; i++)
    for (auto &c : ch) le(d, (uint32_t)c[i], 2);
  std::string s = "WAVE";
  if (extra) s += std::string("LIST\4\0\0\0abcd", 12);
  s += "fmt ";
  le(s, (uint32_t)f.size(), 4);
  s += f + "data";
  le(s, (uint32_t)d.size(), 4);
  s += d;
  std::string o = "RIFF";
  le(o, (uint32_t)s.size(), 4);
  return o + s;
}
static std::vector<std::vector<double>> anySignals(Rng &r, int nc, size_t n, double amp) {
  std::vector<std::vector<double>> v;
  for (int c = 0; c < nc; c++) {
    std::vector<double> x(n);
    int kind = (int)r.range(0, 5);
    double f = r.real(0.001, 1.5), p = r.real(0, 6), a = amp * r.real(0.05, 1);
    for (size_t i = 0; i < n; i++) switch (kind) {
      case 0: x[i] = 0; break;
      case 1: x[i] = a * std::sin(f * (double)i + p); break;
      case 2: x[i] = r.real(-a, a); break;
      case 3: x[i] = i % (size_t)(2 + r.range(0, 60)) == 0 ? a : 0; break;
      case 4: x[i] = (r.chance(0.5) ? 1 : -1) * a; break;
      default: x[i] = (double)r.range(-32768, 32767) / 32768.0 * amp;
    }
    v.push_back(x);
  }
  return v;
}
static void wav(Rng &r, long) {
  int nc = (int)(r.chance(0.05) ? r.range(5, 40) : r.range(1, 4));
  size_t n = (size_t)(r.chance(0.1) ? r.range(0, 2) : r.range(1, 3000));
  auto rate = (int)r.pick(std::vector<int>{8000, 44100, 48000, 1000, (int)r.range(1, 192000)});
  auto x = anySignals(r, nc, n, r.chance(0.3) ? 3.0 : 1.0);
  if (n && r.chance(0.1)) x[0][0] = r.pick(std::vector<double>{1e300, -1e300, 1, -1, 32767.0 / 32768, -32768.5 / 32768, 0.5 / 32768, -0.5 / 32768});
  uint64_t h = (uint64_t)rate;
  for (auto &c : x) h = hashBytes(c.data(), c.size() * 8, h);
  R.identity(h, n > 0);
  std::string f = R.tmp + "/a.wav";
  bool mono = nc == 1 && r.chance(0.5);
  auto copy = x;
  bool ok = mono ? WavParser::saveFile(f, x[0], rate) : WavParser::saveFile(f, x, rate);
  VCHECK(ok, "write-refused", nc << " channels of " << n);
  VCHECK(copy == x, "write-modifies", "");
  WavParser p;
  if (r.chance(0.3)) { // a parser used before
    std::string g = R.tmp + "/b.wav";
    WavParser::saveFile(g, anySignals(r, (int)r.range(1, 4), (size_t)r.range(1, 100), 1), 123);
    p.loadFile(g);
  }
  ok = p.loadFile(f);
  VCHECK(ok, "read-refused", nc << " channels of " << n);
  if (!ok) return;
  R.stat("files");
  R.stat("samples", (double)(n * (size_t)nc));
  auto check = [&](const std::vector<std::vector<double>> &want, double tol, const char *tag) {
    VCHECK((int)p.getSamplerate() == rate, std::string(tag) + ":rate", p.getSamplerate() << " for " << rate);
    VCHECK(p.getNumChannels() == (size_t)nc, std::string(tag) + ":channels", p.getNumChannels() << " for " << nc);
    VCHECK(p.getNumSamples() == n * (size_t)nc, std::string(tag) + ":samples", p.getNumSamples() << " for " << n * (size_t)nc);
    auto all = p.getAllSamples();
    VCHECK(all.size() == (size_t)nc, std::string(tag) + ":buffers", all.size());
    for (size_t c = 0; c < std::min(all.size(), want.size()); c++) {
      VCHECK(p.getSamplesChannel(c) == all[c], std::string(tag) + ":channel", c);
      VCHECK(all[c].size() == n, std::string(tag) + ":length", all[c].size() << " for " << n);
      for (size_t i = 0; i < std::min(n, all[c].size()); i++) {
        double w = std::max(-1.0, std::min(32767.0 / 32768, want[c][i]));
        if (!(std::abs(all[c][i] - w) <= tol)) {
          R.violation(std::string(tag) + ":sample", "channel " + std::to_string(c) + " sample " + std::to_string(i) + " is " + std::to_string(all[c][i]) + " for " + std::to_string(want[c][i]));
          break;
        }
      }
    }
  };
  check(x, 0.5001 / 32768, "roundtrip");
  // a file made elsewhere
  std::vector<std::vector<int>> q;
  std::vector<std::vector<double>> qd;
  for (auto &c : x) {
    q.emplace_back();
    qd.emplace_back();
    for (size_t i = 0; i < n; i++) {
      q.back().push_back((int)r.range(-32768, 32767));
      qd.back().push_back(q.back().back() / 32768.0);
    }
  }
  auto bytes = wavLayout(q, (uint32_t)rate, r.chance(0.3));
  writeAll(f, bytes);
  ok = p.loadFile(f);
  VCHECK(ok, "foreign-refused", nc << " channels of " << n);
  if (ok) check(qd, 0, "foreign");
  // and saved again, nothing changes
  if (ok && n > 0) {
    std::string g = R.tmp + "/c.wav";
    VCHECK(WavParser::saveFile(g, p.getAllSamples(), rate), "resave", "");
    auto again = readAll(g);
    size_t m = n * (size_t)nc * 2;
    VCHECK(again.size() >= m && again.substr(again.size() - m) == bytes.substr(bytes.size() - m), "resave-samples", nc << "x" << n);
  }
  // what cannot be done is reported
  WavParser t;
  VCHECK(!t.loadFile(R.tmp + "/none/a.wav"), "missing-accepted", "");
  VCHECK(!WavParser::saveFile(R.tmp + "/none/a.wav", x, rate), "unwritable-accepted", "");
  VCHECK(!WavParser::saveFile(R.tmp + "/none/a.wav", x[0], rate), "unwritable-accepted", "");
  auto junk = bytes.substr(0, (size_t)r.range(0, 35));
  if (r.chance(0.5)) junk = "RIFX" + bytes.substr(4);
  writeAll(f, junk);
  VCHECK(!t.loadFile(f), "junk-accepted", hex(junk));
  if (nc > 1 && n > 1) {
    auto y = x;
    y[(size_t)r.range(0, nc - 1)].resize((size_t)r.range(0, (long long)n - 1));
    bool same = true;
    for (auto &c : y) same = same && c.size() == y[0].size();
    VCHECK(same || !WavParser::saveFile(f, y, rate), "uneven-accepted", "");
  }
  VCHECK(!WavParser::saveFile(f, std::vector<std::vector<double>>{}, rate), "no-channel-accepted", "");
}

// ---- PCM signals -----------------------------------------------------------------------------
static void extrema(Rng &r, std::vector<double> x) {
  bool border = r.chance(0.7);
  auto e = PcmEncoder::localExtrema(x, border);
  int n = (int)x.size();
  std::string ctx = std::to_string(n) + " samples";
  R.stat("extrema", (double)e.size());
  if (border && n == 1) {
    VCHECK(!e.empty(), "single", "");
    for (auto &p : e) VCHECK(p.first == 0 && p.second == x[0], "single-value", p.first);
    return;
  }
  std::set<int> at;
  for (size_t i = 0; i < e.size(); i++) {
    VCHECK(i == 0 || e[i].first > e[i - 1].first, "extrema-order", e[i].first);
    VCHECK(e[i].first >= 0 && e[i].first < n, "extrema-range", e[i].first << " of " << ctx);
    if (e[i].first < 0 || e[i].first >= n) return;
    VCHECK(e[i].second == x[(size_t)e[i].first], "extrema-value", e[i].second << " at " << e[i].first);
    at.insert(e[i].first);
    int k = e[i].first;
    if (k == 0 || k == n - 1) {
      VCHECK(border, "extrema-border-unasked", k);
    } else {
      double a = x[(size_t)k - 1], b = x[(size_t)k], c = x[(size_t)k + 1];
      VCHECK((b >= a && b >= c) || (b <= a && b <= c), "extrema-not", a << " " << b << " " << c);
    }
  }
  if (border && n) VCHECK(at.count(0) && at.count(n - 1), "extrema-border", ctx);
  for (int k = 1; k + 1 < n; k++) {
    double a = x[(size_t)k - 1], b = x[(size_t)k], c = x[(size_t)k + 1];
    if ((b > a && b > c) || (b < a && b < c)) VCHECK(at.count(k), "extremum-missed", a << " " << b << " " << c << " at " << k << " of " << ctx);
  }
  if (!border) return;
  // between two points, the signal only rises or only falls
  for (size_t i = 1; i < e.size(); i++) {
    int up = 0, down = 0;
    for (int k = e[i - 1].first; k < e[i].first; k++) {
      up += x[(size_t)k + 1] > x[(size_t)k];
      down += x[(size_t)k + 1] < x[(size_t)k];
    }
    VCHECK(!up || !down, "extrema-not-monotone", "between " << e[i - 1].first << " and " << e[i].first);
  }
}
static void curve(Rng &r, const std::vector<double> &x) {
  auto e = PcmEncoder::localExtrema(x, true);
  if (e.empty()) return;
  double fs = r.pick(std::vector<double>{8000, 44100, 1000, 48000, 500});
  auto ts = (unsigned)r.pick(std::vector<int>{1000, 8000, 500, 44100, 48000});
  ht::Band b;
  auto in = e;
  double limit = r.pick(std::vector<double>{72.5, 1, 100, 8000});
  bool ok = PcmEncoder::convertToCurveBand(in, fs, limit, ts, &b);
  VCHECK(ok, "curve-refused", "");
  if (!ok) return;
  VCHECK(b.getBandType() == ht::BandType::Curve, "curve-type", "");
  VCHECK(b.getUpperFrequencyLimit() == (int)limit && b.getLowerFrequencyLimit() == 0, "curve-limits", b.getUpperFrequencyLimit());
  VCHECK(b.getEffectsSize() == 1, "curve-effects", b.getEffectsSize());
  if (b.getEffectsSize() != 1) return;
  auto &f = b.getEffectAt(0);
  // the values offered at each tick
  std::map<long, std::vector<double>> ticks;
  for (auto &p : e) ticks[std::lround((double)ts * p.first / fs)].push_back(p.second);
  VCHECK(f.getKeyframesSize() == ticks.size(), "curve-keyframes", f.getKeyframesSize() << " for " << ticks.size());
  long last = -1;
  for (int i = 0; i < (int)f.getKeyframesSize(); i++) {
    auto &k = f.getKeyframeAt(i);
    long p = f.getPosition() + k.getRelativePosition().value_or(-1);
    VCHECK(p > last, "curve-order", p << " after " << last);
    last = p;
    auto it = ticks.find(p);
    VCHECK(it != ticks.end(), "curve-position", p);
    if (it == ticks.end() || !k.getAmplitudeModulation()) {
      VCHECK(k.getAmplitudeModulation().has_value(), "curve-amplitude-missing", p);
      continue;
    }
    bool any = false;
    for (double v : it->second) any = any || std::abs(v - *k.getAmplitudeModulation()) <= 1e-6;
    VCHECK(any, "curve-amplitude", *k.getAmplitudeModulation() << " at " << p);
    VCHECK(!k.getFrequencyModulation(), "curve-frequency", p);
  }
}
struct PcmCase {
  int rate, bl, nc;
  unsigned ts;
  size_t n;
  std::vector<std::vector<double>> x;
};
static PcmCase pcmCase(Rng &r) {
  PcmCase c;
  c.rate = r.pick(std::vector<int>{8000, 4000, 2000, 1000, 16000});
  c.ts = (unsigned)r.pick(std::vector<int>{1000, 1000, 8000, 16000});
  do c.bl = 16 << r.range(0, 6);
  while ((long)c.bl * c.ts % c.rate != 0);
  c.nc = (int)r.range(1, 3);
  c.n = (size_t)(r.chance(0.1) ? r.range(1, 3) : r.range(1, 4 * c.bl));
  c.x = anySignals(r, c.nc, c.n, r.chance(0.2) ? 1 : 0.5);
  if (r.chance(0.5)) // something for the low frequencies
    for (auto &y : c.x) {
      double f = r.real(1, 60) * 6.283 / c.rate, a = r.real(0.05, 0.4);
      for (size_t i = 0; i < y.size(); i++) y[i] += a * std::sin(f * (double)i);
    }
  if (r.chance(0.15)) { // a sound, then nothing for long: filters ring on far below what can be heard
    c.n += (size_t)r.range(1, std::min(40 * c.bl, 8 * c.rate));
    for (auto &y : c.x) y.resize(c.n, 0);
  }
  return c;
}
static void pcm(Rng &r, long) {
  auto c = pcmCase(r);
  uint64_t h = (uint64_t)c.rate * 31 + (uint64_t)c.bl;
  for (auto &y : c.x) h = hashBytes(y.data(), y.size() * 8, h);
  R.identity(h, c.n > 3);
  for (auto &y : c.x) {
    auto q = y;
    if (r.chance(0.5))
      for (auto &v : q) v = std::round(v * 8) / 8; // plateaus
    extrema(r, q);
    curve(r, q);
  }
  // the whole signal, with every bit there is
  std::string f = R.tmp + "/p.wav";
  WavParser::saveFile(f, c.x, c.rate);
  WavParser in;
  VCHECK(in.loadFile(f), "load", "");
  bool wave = r.chance(0.85), vec = r.chance(0.7);
  double cut = r.chance(0.3) ? 0 : std::min(72.5, c.rate / 4.0) * r.real(0.3, 1);
  int book = (int)std::log2((double)c.bl / 4) + 1;
  EncodingConfig cfg(cut, c.bl, book * 15, wave, vec);
  ht::Haptics hap;
  hap.setTimescale(c.ts);
  ht::Perception p(0, 0, "", r.pick(std::vector<ht::PerceptionModality>{ht::PerceptionModality::Other, ht::PerceptionModality::Force, ht::PerceptionModality::Vibrotactile}));
  if (r.chance(0.3))
    for (int i = 0; i < (int)r.range(0, c.nc); i++) { ht::Channel ch(i, "there", 1, 1, 7); p.addChannel(ch); }
  auto before = p.getChannelsSize();
  std::string ctx = "rate " + std::to_string(c.rate) + " block " + std::to_string(c.bl) + " timescale " + std::to_string(c.ts) + " cutoff " + std::to_string(cut) + " wavelet " + std::to_string(wave) + " vectorial " + std::to_string(vec) + " of " + std::to_string(c.n);
  int rc = PcmEncoder::encode(f, cfg, c.ts, p);
  VCHECK(rc == 0, "refused", ctx);
  if (rc) return;
  VCHECK(p.getChannelsSize() == (size_t)c.nc, "channels", p.getChannelsSize());
  if (p.getChannelsSize() != (size_t)c.nc) return;
  std::set<int> ids;
  for (int i = 0; i < c.nc; i++) {
    auto &ch = p.getChannelAt(i);
    ids.insert(ch.getId());
    VCHECK(ch.getFrequencySampling() == (uint32_t)c.rate, "channel-rate", ch.getFrequencySampling().value_or(0));
    VCHECK(ch.getSampleCount() == (uint32_t)c.n, "channel-count", ch.getSampleCount().value_or(0) << " " << ctx);
    VCHECK((size_t)i >= before || ch.getDescription() == "there", "channel-description", ch.getDescription());
  }
  VCHECK(ids.size() == (size_t)c.nc, "channel-ids", "");
  hap.addPerception(p);
  VCHECK(std::abs(Helper::getTimeLength(hap) * c.rate / c.ts - (double)c.n) < 1e-6 * (1 + (double)c.n), "length", Helper::getTimeLength(hap));
  if (!wave || (!vec && cut > 0)) return;
  std::string o = R.tmp + "/q.wav";
  bool ok = Helper::playFile(hap, Helper::getTimeLength(hap), c.rate, 0, o);
  WavParser out;
  VCHECK(ok && out.loadFile(o), "played", "");
  auto got = out.getAllSamples(), want = in.getAllSamples();
  VCHECK(got.size() == want.size(), "played-channels", got.size());
  R.stat("played");
  for (size_t i = 0; i < std::min(got.size(), want.size()); i++) {
    VCHECK(got[i].size() == want[i].size(), "played-length", got[i].size() << " for " << want[i].size());
    double e = 0, m = 0;
    size_t where = 0;
    for (size_t k = 0; k < std::min(got[i].size(), want[i].size()); k++) {
      if (std::abs(got[i][k] - want[i][k]) > e) where = k, e = std::abs(got[i][k] - want[i][k]);
      m = std::max(m, std::abs(want[i][k]));
    }
    R.statMax("error", e);
    VCHECK(e < 0.01, "sound", "channel " << i << " differs by " << e << " at " << where << " of " << m << " " << ctx);
  }
}

// ---- tools -----------------------------------------------------------------------------------
struct Silence {
  std::ostringstream o, e;
  std::streambuf *a, *b;
  Silence() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(e.rdbuf())) {}
  ~Silence() {
    std::cout.rdbuf(a);
    std::cerr.rdbuf(b);
  }
};
using Args = std::vector<std::vector<std::string>>;
static int run(Rng &r, int (*tool)(int, char **), const char *name, Args groups) {
  shuffle(r, groups);
  std::vector<std::string> a = {name};
  for (auto &g : groups)
    for (auto &s : g) a.push_back(s);
  std::vector<char *> v;
  for (auto &s : a) v.push_back(&s[0]);
  v.push_back(nullptr);
  R.stat(std::string("runs-") + name);
  Silence q;
  return tool((int)a.size(), v.data());
}
// files cannot grow beyond so many bytes, as on a full disk
struct Room {
  rlimit before{};
  explicit Room(long long bytes) {
    signal(SIGXFSZ, SIG_IGN);
    getrlimit(RLIMIT_FSIZE, &before);
    rlimit now = before;
    if (bytes >= 0) now.rlim_cur = (rlim_t)bytes;
    setrlimit(RLIMIT_FSIZE, &now);
  }
  Room(const Room &) = delete;
  ~Room() { setrlimit(RLIMIT_FSIZE, &before); }
};
static int runIn(long long room, Rng &r, int (*tool)(int, char **), const char *name, const Args &groups) {
  Room space(room);
  return run(r, tool, name, groups);
}
static bool exists(const std::string &p) { return access(p.c_str(), F_OK) == 0; }
static std::string argText(const Args &a) {
  std::string s;
  for (auto &g : a)
    for (auto &t : g) s += t + " ";
  return s;
}
// an input for the encoder, in R.tmp
struct Source {
  std::string name, kind;
  bool broken = false;
};
static Source makeSource(Rng &r, const std::string &kind, std::string stem) {
  Source s;
  if (r.chance(0.15)) stem += r.pick(std::vector<std::string>{".2", ".ahap", ".wav", ".hjif", " (1)", ".", "-f"});
  s.kind = kind;
  std::string text;
  if (kind == "ahap") {
    text = makeAhap(r).text;
    s.name = stem + r.pick(std::vector<std::string>{".ahap", ".ahap", ".json"});
  } else if (kind == "ivs") {
    text = makeIvs(r).text;
    s.name = stem + r.pick(std::vector<std::string>{".ivs", ".ivs", ".xml"});
  } else {
    s.name = stem + ".wav";
    int nc = (int)r.range(1, 3);
    auto x = anySignals(r, nc, (size_t)r.range(1, 3000), 1);
    WavParser::saveFile(R.tmp + "/" + s.name, x, r.pick(std::vector<int>{8000, 8000, 4000}));
    text = readAll(R.tmp + "/" + s.name);
  }
  if (r.chance(0.12)) {
    text = text.substr(0, r.chance(0.3) ? 0 : (size_t)r.range(0, std::min<long long>(30, (long long)text.size() / 2)));
    s.broken = true;
  }
  writeAll(R.tmp + "/" + s.name, text);
  return s;
}
static int convert(const Source &s, ht::Perception &p, unsigned ts, EncodingConfig cfg) {
  std::string f = R.tmp + "/" + s.name;
  if (s.kind == "ahap") return AhapEncoder::encode(f, p, ts);
  if (s.kind == "ivs") return IvsEncoder::encode(f, p, ts);
  return PcmEncoder::encode(f, cfg, ts, p);
}
struct PcmOptions {
  Args args;
  EncodingConfig cfg = EncodingConfig::generateDefaultConfig(true, true);
};
static PcmOptions pcmOptions(Rng &r) {
  PcmOptions o;
  bool w = r.chance(0.8), v = r.chance(0.8);
  if (!w) o.args.push_back({"--disable-wavelet"});
  if (!v) o.args.push_back({"--disable-vectorial"});
  bool kb = r.chance(0.3), bu = !kb && r.chance(0.4);
  double cut = haptics::encoder::DEFAULT_CUTOFF_FREQUENCY;
  if (r.chance(0.4)) {
    cut = (double)r.range(0, 400) / 4;
    o.args.push_back({"-cf", num(cut)});
  }
  int bl = haptics::encoder::DEFAULT_BLOCK_LENGTH_SMP;
  if (r.chance(0.4)) {
    bl = 32 << r.range(0, 5);
    o.args.push_back({"-bl", std::to_string(bl)});
  }
  int n = kb || bu ? (int)r.range(kb ? 2 : 1, kb ? 64 : 60) : haptics::encoder::DEFAULT_BIT_BUDGET;
  if (kb || bu) o.args.push_back({kb ? "-kb" : "-bu", std::to_string(n)});
  o.cfg = kb ? EncodingConfig::generateConfigParam(n, cut, w, v, bl) : EncodingConfig::generateConfigBudget(n, cut, w, v, bl);
  return o;
}
// the same bytes, or the same but for the time of the conversion
static bool sameResult(const std::string &f, const std::string &g, bool binary) {
  auto a0 = readAll(f), b0 = readAll(g);
  if (a0 == b0) return true;
  if (!binary) {
    for (auto *t : {&a0, &b0}) {
      auto k = t->find("\"date\":\"");
      if (k != std::string::npos) t->erase(k + 8, t->find('"', k + 8) - k - 8);
    }
    if (a0 == b0) return true;
  }
  ht::Haptics a, b;
  if (binary ? !IOStream::readFile(f, a) || !IOStream::readFile(g, b) : !IOJson::loadFile(f, a) || !IOJson::loadFile(g, b)) return false;
  std::string none;
  a.setDate(none);
  b.setDate(none);
  return hashDump(dumpHaptics(a)) == hashDump(dumpHaptics(b));
}
// what cannot be a value of a numerical option; nothing leaves the option the last argument
static std::vector<std::string> notNumber(Rng &r, const std::string &option, bool real, bool positive) {
  std::vector<std::string> bad = {"", "x", "-", "--", ".", "e5", "abc1", "NaNs"};
  if (!real) for (auto *t : {"2147483648", "99999999999", "-3000000000", "1000000000000000000000000"}) bad.push_back(t);
  else for (auto *t : {"1e999", "-1e400"}) bad.push_back(t);
  if (positive) for (auto *t : {"0", "-1", "-1000", "-2147483648"}) bad.push_back(t);
  return {option, r.pick(bad)};
}
// a wrong value for one of the numerical options ends the tool in a failure and leaves nothing
static void refusedOption(Rng &r, int (*tool)(int, char **), const char *name, Args args, const std::vector<std::string> &options, const std::string &out) {
  auto o = r.pick(options);
  for (size_t i = args.size(); i-- > 0;)
    if (args[i][0] == o) args.erase(args.begin() + (long)i);
  if (o == "-fs" || o == "--sampling_frequency")
    for (size_t i = args.size(); i-- > 0;)
      if (args[i][0] == "-fs" || args[i][0] == "--sampling_frequency") args.erase(args.begin() + (long)i);
  bool positive = o == "-ts" || o == "-fs" || o == "--sampling_frequency" || o == "--packet_duration";
  auto bad = notNumber(r, o, o == "-cf", positive);
  // the synthesizer takes an empty value for an absent one
  if (bad[1].empty() && std::string(name) == "Synthesizer") bad[1] = "x";
  unlink(out.c_str());
  args.push_back(bad);
  int rc = run(r, tool, name, args);
  R.stat("refused-option");
  VCHECK(rc != 0, "option:accepted", argText(args));
  VCHECK(!exists(out), "option:output", argText(args));
}
// numbers that make no sense as settings: refused, or encoded into something that can be read
static void oddSetting(Rng &r) {
  auto s = makeSource(r, r.chance(0.7) ? "wav" : r.chance(0.5) ? "ahap" : "ivs", "in");
  Args args = {{"-f", R.tmp + "/" + s.name}, {"-o", R.tmp + "/out"}};
  auto value = [&] { return std::to_string(r.pick(std::vector<int>{0, -1, 1, 2, 3, 5, 7, 15, 17, 31, 33, 48, 100, 1000, 1023, 4096, 8191, 65536, 100000, 1 << 30, INT_MAX, INT_MIN})); };
  if (r.chance(0.7)) args.push_back({"-bl", value()});
  if (r.chance(0.5)) args.push_back({"-bu", value()});
  if (r.chance(0.5)) args.push_back({"-kb", value()});
  if (r.chance(0.5)) args.push_back({"-cf", r.pick(std::vector<std::string>{"0", "-1", "1e-9", "0.1", "2000", "4000", "4001", "1e6", "1e300", "nan", "inf"})});
  bool binary = r.chance(0.5);
  if (binary) args.push_back({"-b"});
  // a block need not last a power of two of other ticks; packets are counted in ticks
  bool ticks = r.chance(0.3);
  if (ticks) args.push_back({"-ts", r.pick(std::vector<std::string>{"1", "3", "7", "44100", "48000", binary ? "1000000" : "2147483647"})});
  if (r.chance(0.2)) args.push_back({"--disable-vectorial"});
  if (r.chance(0.2)) args.push_back({"--disable-wavelet"});
  unlink((R.tmp + "/out").c_str());
  int rc = run(r, Encoder_main, "Encoder", args);
  R.stat(rc == 0 ? "odd-setting-encoded" : "odd-setting-refused");
  ht::Haptics h;
  if (rc == 0 && s.kind == "wav" && !ticks) VCHECK(binary ? IOStream::readFile(R.tmp + "/out", h) : IOJson::loadFile(R.tmp + "/out", h), "option:unreadable", argText(args));
}
static void encoder(Rng &r) {
  unsigned ts = 1000;
  Args args;
  if (r.chance(0.4)) {
    ts = (unsigned)r.pick(std::vector<int>{1000, 2000, 500, 8000});
    args.push_back({"-ts", std::to_string(ts)});
  }
  ht::Haptics want;
  want.setTimescale(ts);
  bool accepted = true;
  std::string in;
  int kind = (int)r.range(0, 9);
  static const std::vector<std::string> kinds = {"ahap", "ivs", "wav"};
  uint64_t id = 0;
  if (kind <= 5) { // one description or signal
    auto s = makeSource(r, kinds[(size_t)kind / 2], "in");
    auto o = pcmOptions(r);
    args.insert(args.end(), o.args.begin(), o.args.end());
    ht::Perception p(0, 0, std::string(), ht::PerceptionModality::Other);
    accepted = convert(s, p, ts, o.cfg) == 0;
    VCHECK(accepted == !s.broken, "encode:refused", s.name << (s.broken ? " broken" : ""));
    want.addPerception(p);
    in = s.name;
    R.stat("encode-" + s.kind);
    id = hashStr(readAll(R.tmp + "/" + in));
  } else if (kind <= 7) { // OHM metadata and its elements
    std::string header = "OHM ", desc = "d" + std::to_string(r.range(0, 99));
    OHMData ohm(header, (short)r.range(1, 3), desc);
    std::vector<Source> parts;
    for (int i = 0; i < (int)r.range(1, 3); i++) {
      auto s = makeSource(r, r.pick(kinds), "e" + std::to_string(i));
      if (r.chance(0.05)) s.name = "absent.wav", s.kind = "none";
      if (r.chance(0.05)) s.name = "e.txt", s.kind = "none", writeAll(R.tmp + "/e.txt", "x");
      OHMData::HapticElementMetadata e;
      e.elementFilename = s.name;
      e.elementDescription = r.pick(std::vector<std::string>{"Vibration effect", "Force effect", "something"});
      int c = (int)r.range(0, 2);
      e.numHapticChannels = (short)c;
      for (int k = 0; k < c; k++) {
        OHMData::HapticChannelMetadata m;
        m.channelDescription = "c" + std::to_string(k);
        m.gain = (float)r.real(0, 2);
        m.bodyPartMask = static_cast<OHMData::Body>(r.range(0, 1000));
        e.channelsMetadata.push_back(m);
      }
      ohm.addHapticElementMetadata(e);
      parts.push_back(s);
      id ^= hashStr(readAll(R.tmp + "/" + s.name)) + (uint64_t)i;
    }
    in = "in.ohm";
    ohm.writeFile(R.tmp + "/in.ohm");
    auto o = pcmOptions(r);
    args.insert(args.end(), o.args.begin(), o.args.end());
    OHMData read;
    read.loadFile(R.tmp + "/in.ohm");
    want.loadMetadataFromOHM(read);
    VCHECK(want.getPerceptionsSize() == parts.size(), "encode:ohm-elements", want.getPerceptionsSize());
    for (size_t i = 0; i < parts.size() && accepted; i++) {
      if (parts[i].kind == "none") {
        accepted = false;
        break;
      }
      auto p = want.getPerceptionAt((int)i);
      accepted = convert(parts[i], p, ts, o.cfg) == 0;
      want.replacePerceptionAt((int)i, p);
    }
    R.stat("encode-ohm");
  } else { // HJIF
    StreamOpt so;
    Gen g(r, streamGenOpt(so));
    auto h = g.haptics();
    prune(h);
    fitStream(h, r, so, g);
    in = "in.hjif";
    IOJson::writeFile(h, R.tmp + "/in.hjif");
    if (r.chance(0.12)) {
      auto t = readAll(R.tmp + "/in.hjif");
      writeAll(R.tmp + "/in.hjif", t.substr(0, (size_t)r.range(0, (long long)t.size() - 2)));
    }
    accepted = IOJson::loadFile(R.tmp + "/in.hjif", want);
    R.stat("encode-hjif");
    id = hashStr(readAll(R.tmp + "/in.hjif"));
  }
  R.identity(id, true);
  bool binary = r.chance(0.5);
  if (binary) args.push_back({r.chance(0.5) ? "-b" : "--binary"});
  int pd = haptics::io::DEFAULT_PACKET_DURATION;
  bool badDuration = false;
  if (r.chance(binary ? 0.6 : 0.1)) {
    pd = (int)r.pick(std::vector<int>{1, 10, 128, 1000, 100000, (int)r.range(1, 5000)});
    if (pd < 20) pd = 20;
    if (r.chance(0.05)) pd = (int)r.range(-3, 0), badDuration = true;
    args.push_back({"--packet_duration", std::to_string(pd)});
  }
  bool ref = r.chance(0.25), lin = r.chance(0.25);
  if (ref) args.push_back({r.chance(0.5) ? "-r" : "--refactor"});
  if (lin) args.push_back({r.chance(0.5) ? "-l" : "--linearize"});
  if (accepted && ref) want.refactor();
  if (accepted && lin) want.linearize();
  std::string out = R.tmp + "/out", wantFile = R.tmp + "/want";
  bool defaultName = r.chance(0.1), reachable = true, full = r.chance(0.08);
  if (defaultName) {
    out = R.tmp + (binary ? "/out.hmpg" : "/out.hjif");
  } else {
    int where = (int)r.range(0, 19);
    if (where == 0) out = R.tmp + "/none/out";
    reachable = where > 0;
    args.push_back({r.chance(0.5) ? "-o" : "--output", out});
  }
  if (reachable) unlink(out.c_str());
  unlink(wantFile.c_str());
  bool written = accepted && (binary ? IOStream::writeFile(want, wantFile, pd) : IOJson::writeFile(want, wantFile));
  long long room = full && written ? r.range(0, (long long)readAll(wantFile).size() * 9 / 10 - 1) : -1;
  if (room >= 0) R.stat("disk-full");
  int absentInput = r.chance(0.03) ? (int)r.range(1, 3) : 0;
  if (absentInput == 1) in = "absent.ahap";
  if (absentInput == 2) writeAll(R.tmp + "/in.txt", "x"), in = "in.txt";
  if (absentInput < 3) args.push_back({r.chance(0.5) ? "-f" : "--file", R.tmp + "/" + in});
  if (r.chance(0.1)) {
    std::vector<std::string> opts = {"-ts", "-kb", "-bu", "-bl", "-cf"};
    if (binary && accepted) opts.push_back("--packet_duration");
    refusedOption(r, Encoder_main, "Encoder", args, opts, out);
  }
  int rc = runIn(room, r, Encoder_main, "Encoder", args);
  std::string ctx = argText(args);
  bool good = written && reachable && !absentInput && room < 0;
  R.stat(good ? "encoded" : "encode-refused");
  if (badDuration && binary) VCHECK(!written, "encode:packet-duration", pd);
  VCHECK(good == (rc == 0), "encode:exit", rc << (good ? " for a conversion" : " without one") << ": " << ctx);
  if (good) {
    VCHECK(exists(out), "encode:no-output", ctx);
    bool same = sameResult(out, wantFile, binary);
    VCHECK(same, "encode:output", ctx << " expected " << readAll(wantFile).substr(0, 200) << " got " << readAll(out).substr(0, 200));
  } else if (!accepted || absentInput) {
    VCHECK(!reachable || !exists(out), "encode:output-of-refused", ctx);
  }
}
static void decoder(Rng &r) {
  StreamOpt so;
  Gen g(r, streamGenOpt(so));
  auto h = g.haptics();
  prune(h);
  fitStream(h, r, so, g);
  std::string in = R.tmp + "/in.hmpg", out = R.tmp + "/out.hjif", wantFile = R.tmp + "/want.hjif";
  IOStream::writeFile(h, in, (int)r.pick(std::vector<int>{128, 1000, 50}));
  auto bytes = readAll(in);
  if (r.chance(0.3) && !bytes.empty()) {
    if (r.chance(0.5)) bytes.resize((size_t)r.range(0, (long long)bytes.size() - 1));
    for (int i = 0; i < (int)r.range(0, 4) && !bytes.empty(); i++) bytes[(size_t)r.range(0, (long long)bytes.size() - 1)] ^= (char)(1 << r.range(0, 7));
    writeAll(in, bytes);
  }
  R.identity(hashStr(bytes), true);
  unlink(out.c_str());
  unlink(wantFile.c_str());
  ht::Haptics want;
  bool accepted = IOStream::readFile(in, want);
  bool written = accepted && IOJson::writeFile(want, wantFile);
  bool reachable = true, complete = true;
  int where = (int)r.range(0, 19);
  if (where == 0) out = R.tmp + "/none/out", reachable = false;
  long long room = where == 1 && written ? r.range(0, (long long)readAll(wantFile).size() * 9 / 10 - 1) : -1;
  if (room >= 0) R.stat("disk-full");
  Args args;
  if (r.chance(0.03)) in = R.tmp + "/absent.hmpg", written = false, accepted = false;
  if (r.chance(0.97)) args.push_back({r.chance(0.5) ? "-f" : "--file", in}); else complete = false;
  if (r.chance(0.97)) args.push_back({r.chance(0.5) ? "-o" : "--output", out}); else complete = false;
  int rc = runIn(room, r, Decoder_main, "Decoder", args);
  bool good = written && reachable && complete && room < 0;
  std::string ctx = argText(args);
  R.stat(good ? "decoded" : "decode-refused");
  VCHECK(good == (rc == 0), "decode:exit", rc << (good ? " for a conversion" : " without one") << ": " << ctx);
  if (good)
    VCHECK(sameResult(out, wantFile, false), "decode:output", ctx);
  else if (!accepted || !complete)
    VCHECK(!reachable || !exists(out), "decode:output-of-refused", ctx);
}
static void synthesizer(Rng &r) {
  unsigned ts = (unsigned)r.pick(std::vector<int>{1000, 1000, 2000, 500});
  ht::Haptics h("2023", "2023", "played");
  h.setTimescale(ts);
  for (int i = 0; i < (int)r.range(1, 2); i++) {
    ht::Perception p(i, 0, "p" + std::to_string(i), ht::PerceptionModality::Vibrotactile);
    Source s = makeSource(r, r.pick(std::vector<std::string>{"ahap", "ivs", "wav"}), "s");
    if (s.broken) continue;
    if (convert(s, p, ts, EncodingConfig::generateConfigBudget(30, 0, true, true, 64)) != 0) continue;
    if (p.getChannelsSize() > 0) p.getChannelAt(0).setGain((float)r.real(0.1, 2));
    h.addPerception(p);
  }
  if (r.chance(0.5)) h.refactor();
  bool binary = r.chance(0.5);
  std::string in = R.tmp + (binary ? "/in.hmpg" : "/in.hjif");
  if (binary) IOStream::writeFile(h, in, 128); else IOJson::writeFile(h, in);
  auto bytes = readAll(in);
  if (r.chance(0.1)) writeAll(in, bytes = bytes.substr(0, (size_t)r.range(0, (long long)bytes.size() / 2)));
  R.identity(hashStr(bytes), true);
  std::string out = R.tmp + "/out.wav", wantFile = R.tmp + "/want.wav", ohm = R.tmp + "/out.ohm", wantOhm = R.tmp + "/want.ohm";
  for (auto *f : {&out, &wantFile, &ohm, &wantOhm}) unlink(f->c_str());
  Args args;
  if (binary) args.push_back({r.chance(0.5) ? "-b" : "--binary"});
  int fs = 8000, pad = 0;
  bool lengthy = Helper::getTimeLength(h) / ts > 15;
  if (lengthy || r.chance(0.5)) {
    fs = r.pick(std::vector<int>{1000, 2000, 8000, (int)r.range(100, 10000)});
    if (lengthy) fs = (int)r.range(100, 1000);
    if (r.chance(0.05)) fs = (int)r.range(-2, 0);
    args.push_back({r.chance(0.5) ? "-fs" : "--sampling_frequency", std::to_string(fs)});
  }
  if (r.chance(0.4)) {
    pad = (int)r.range(0, 200);
    args.push_back({"--pad", std::to_string(pad)});
  }
  bool meta = r.chance(0.4);
  if (meta) args.push_back({"--generate_ohm"});
  ht::Haptics want;
  bool accepted = fs > 0 && (binary ? IOStream::readFile(in, want) : IOJson::loadFile(in, want)), written = false;
  if (accepted) {
    want.linearize();
    written = Helper::playFile(want, Helper::getTimeLength(want), fs, pad, wantFile);
    std::string n = "out.wav";
    auto o = want.extractMetadataToOHM(n);
    if (meta && written) o.writeFile(wantOhm);
  }
  bool reachable = !r.chance(0.05), named = true;
  if (!reachable) out = R.tmp + "/none/out.wav";
  if (reachable && r.chance(0.1)) named = false; // out.wav here
  if (named) args.push_back({r.chance(0.5) ? "-o" : "--output", out});
  bool present = !r.chance(0.03);
  args.push_back({r.chance(0.5) ? "-f" : "--file", present ? in : R.tmp + "/absent.hjif"});
  if (r.chance(0.1)) refusedOption(r, Synthesizer_main, "Synthesizer", args, {"-fs", "--sampling_frequency", "--pad"}, out);
  // what stays in the buffer of the library until the end is its own matter
  long long room = -1, size = written ? (long long)readAll(wantFile).size() : 0;
  if (size > 20000 && r.chance(0.15)) room = r.range(0, size - 9000), R.stat("disk-full");
  int rc = runIn(room, r, Synthesizer_main, "Synthesizer", args);
  bool good = written && reachable && present && room < 0;
  std::string ctx = argText(args);
  R.stat(good ? "synthesized" : "synthesis-refused");
  VCHECK(good == (rc == 0), "synthesize:exit", rc << (good ? " for a sound" : " without one") << ": " << ctx);
  if (good) {
    VCHECK(readAll(out) == readAll(wantFile), "synthesize:output", ctx);
    VCHECK(exists(ohm) == meta, "synthesize:ohm", ctx);
    if (meta) VCHECK(readAll(ohm) == readAll(wantOhm), "synthesize:ohm-content", ctx);
  } else if (!accepted) {
    VCHECK(!reachable || !exists(out), "synthesize:output-of-refused", ctx);
  }
}
static void tools(Rng &r, long) {
  if (chdir(R.tmp.c_str()) != 0) abort();
  int n = (int)r.range(0, 10);
  if (n == 10) oddSetting(r);
  else if (n < 5) encoder(r);
  else if (n < 7) decoder(r);
  else synthesizer(r);
  if (r.chance(0.02)) {
    Args a = {{r.chance(0.5) ? "-h" : "--help"}};
    VCHECK(run(r, Encoder_main, "Encoder", a) == 0, "help", "Encoder");
    VCHECK(run(r, Decoder_main, "Decoder", a) == 0, "help", "Decoder");
    VCHECK(run(r, Synthesizer_main, "Synthesizer", a) == 0, "help", "Synthesizer");
  }
}
int main(int argc, char **argv) {
  Modes m;
  m["tools"] = {tools};
  m["wav"] = {wav};
  m["pcm"] = {pcm};
  return workerMain(argc, argv, m);
}
