// Wavelet path: set-partitioning coder, arithmetic coder, DWT, band coding.
#include "common.hpp"
#include <complex>
#include <sys/wait.h>
#include <Encoder/include/PcmEncoder.h>
#include <Encoder/include/WaveletEncoder.h>
#include <FilterBank/include/Wavelet.h>
#include <Spiht/include/ArithDec.h>
#include <Spiht/include/ArithEnc.h>
#include <Spiht/include/Spiht_Dec.h>
#include <Spiht/include/Spiht_Enc.h>
#include <PsychohapticModel/include/PsychohapticModel.h>
#include <WaveletDecoder/include/WaveletDecoder.h>
using namespace vf;
using namespace haptics;
using haptics::filterbank::Wavelet;
using haptics::spiht::ArithDec;
using haptics::spiht::ArithEnc;
using haptics::spiht::Spiht_Dec;
using haptics::spiht::Spiht_Enc;
using haptics::waveletdecoder::WaveletDecoder;

// ------------------------------------------------------------------------------------- P13
static std::vector<int> coeffs(Rng &r, int bl, int bits) {
  std::vector<int> b(bl, 0);
  int lim = (1 << (bits + 1)) - 1; // largest magnitude that bits+1 planes represent
  int kind = (int)r.range(0, 9);
  auto mag = [&](int l) {
    switch (r.range(0, 3)) {
    case 0: return (int)r.range(0, l);
    case 1: return (int)r.range(0, std::min(l, 3));
    case 2: return std::min(l, 1 << r.range(0, bits));
    default: return std::min(l, (1 << r.range(0, bits)) - 1 + (int)r.range(0, 2));
    }
  };
  auto put = [&](int i, int l) { b[i] = mag(l) * (r.chance(0.5) ? 1 : -1); };
  switch (kind) {
  case 0: // dense
    for (int i = 0; i < bl; i++) put(i, lim);
    break;
  case 1: { // a few
    int n = (int)r.range(1, 6);
    for (int i = 0; i < n; i++) put((int)r.range(0, bl - 1), lim);
    break;
  }
  case 2: // one, at an edge of the tree
    b[r.pick<int>({0, 1, 3, 4, 7, 8, bl / 2 - 1, bl / 2, bl - 2, bl - 1})] = (r.chance(0.5) ? 1 : -1) * std::max(1, mag(lim));
    break;
  case 3: // decaying, as real transforms give
    for (int i = 0; i < bl; i++) put(i, std::max(1, lim / (1 + i)));
    break;
  case 4: // only the finest scale
    for (int i = bl / 2; i < bl; i++)
      if (r.chance(0.3)) put(i, lim);
    break;
  case 5: // only the second finest scale
    for (int i = bl / 4; i < bl / 2; i++)
      if (r.chance(0.3)) put(i, lim);
    break;
  case 6: // all equal
  {
    int v = std::max(1, mag(lim));
    for (int i = 0; i < bl; i++) b[i] = r.chance(0.5) ? v : -v;
    break;
  }
  case 7: // isolated deep descendants under insignificant parents
    for (int k = 0; k < 3; k++) {
      int i = (int)r.range(4, 7);
      while (2 * i + 1 < bl && r.chance(0.85)) i = 2 * i + (int)r.range(0, 1);
      put(i, lim);
    }
    break;
  case 8: // extremes
    for (int i = 0; i < bl; i++)
      if (r.chance(0.5)) b[i] = r.pick<int>({1, -1, lim, -lim, 1 << bits, -(1 << bits), 0});
    break;
  default: // sparse
    for (int i = 0; i < bl; i++)
      if (r.chance(0.1)) put(i, lim);
  }
  return b;
}
static double scalarFor(Rng &r) {
  switch (r.range(0, 5)) {
  case 0: return r.range(0, 127) / 128.0;
  case 1: return 1 + r.range(0, 127) / 8.0;
  case 2: return r.pick<double>({0.0, 1.0 / 128, 127.0 / 128, 1.0, 1.125, 16.875, 0.999999});
  case 3: return r.real(1, 16.99);
  default: return r.real(0, 1);
  }
}
static void spihtMode(Rng &r, long) {
  Spiht_Enc enc;
  Spiht_Dec dec;
  int n = (int)r.range(1, 5);
  uint64_t h = 0;
  bool nt = false;
  for (int k = 0; k < n; k++) {
    int bl = 1 << r.range(4, r.chance(0.1) ? 12 : 9);
    int bits = (int)r.range(1, 15);
    auto block = coeffs(r, bl, bits);
    bool zero = r.chance(0.05);
    if (zero) std::fill(block.begin(), block.end(), 0);
    double scalar = scalarFor(r);
    h = hashBytes(block.data(), block.size() * sizeof(int), h + bits);
    nt = nt || std::any_of(block.begin(), block.end(), [](int v) { return v != 0; });
    auto in = block;
    std::vector<unsigned char> bytes, bytes2;
    enc.encodeEffect(in, bits, scalar, bytes);
    VCHECK(in == block, "input-changed", "encodeEffect changed the block");
    Spiht_Enc fresh;
    fresh.encodeEffect(in, bits, scalar, bytes2);
    VCHECK(bytes == bytes2, "history-dependent-encoder", "block " << k << " bl " << bl << " bits " << bits);
    std::vector<int> out(bl, 0), out2(bl, 0);
    double wm = -1, wm2 = -1;
    int b = -1, b2 = -1;
    auto copy = bytes;
    dec.decodeEffect(bytes, out, bl, wm, b);
    VCHECK(bytes == copy, "input-changed", "decodeEffect changed the bits");
    Spiht_Dec freshd;
    freshd.decodeEffect(bytes, out2, bl, wm2, b2);
    VCHECK(out == out2 && wm == wm2 && b == b2, "history-dependent-decoder", "block " << k << " bl " << bl << " bits " << bits);
    R.stat("blocks");
    R.statMax("block_length", bl);
    R.statMax("coded_bytes", (double)bytes.size());
    bool allz = std::all_of(block.begin(), block.end(), [](int v) { return v == 0; });
    if ((int)out2.size() != bl) {
      R.violation("wrong-length", "decoded " + std::to_string(out2.size()));
      continue;
    }
    int bad = -1;
    for (int i = 0; i < bl && bad < 0; i++)
      if (out2[i] != block[i]) bad = i;
    VCHECK(bad < 0, "coefficient-changed",
           "bl " << bl << " bits " << bits << " index " << bad << " in " << block[std::max(bad, 0)] << " out " << out2[std::max(bad, 0)]);
    if (allz) {
      R.stat("zero_blocks");
      continue;
    }
    VCHECK(b2 == bits, "bits-changed", bits << " -> " << b2);
    double step = scalar < 1 ? 1.0 / 128 : 1.0 / 8;
    VCHECK(wm2 <= scalar + 1e-9 && scalar - wm2 < step, "maximum-changed", scalar << " -> " << wm2);
    double q = scalar < 1 ? std::floor(scalar * 128) / 128 : 1 + std::floor((scalar - 1) * 8) / 8;
    if (q == scalar) VCHECK(wm2 == scalar, "maximum-on-grid-changed", scalar << " -> " << wm2);
  }
  R.identity(h, nt);
  R.sample("coefficient blocks of one sequence, hash " + std::to_string(h));
}
// ------------------------------------------------------------------------------------- P14
static void arithMode(Rng &r, long) {
  ArithEnc enc;
  ArithDec dec;
  int rounds = (int)r.range(1, 4);
  bool reset = r.chance(0.5);
  uint64_t h = reset;
  bool nt = false;
  for (int k = 0; k < rounds; k++) {
    size_t n = (size_t)(r.chance(0.1) ? r.range(0, 6) : r.chance(0.1) ? r.range(1000, 30000) : r.range(1, 600));
    std::vector<unsigned char> in(n);
    std::vector<int> ctx(n);
    double p[7];
    for (auto &x : p) x = r.pick<double>({0, 1, 0.5, 0.01, 0.99, r.unit()});
    if (r.chance(0.05))
      for (auto &x : p) x = 0;
    bool runs = r.chance(0.3);
    int c = 0;
    for (size_t i = 0; i < n; i++) {
      if (!runs || r.chance(0.02)) c = (int)r.range(0, 6);
      if (r.chance(0.01)) p[c] = r.unit();
      ctx[i] = c;
      in[i] = r.chance(p[c]) ? 1 : 0;
    }
    if (r.chance(0.06)) {
      // one symbol for so long that its estimated probability saturates, then the other one
      n = (size_t)r.range(8000, 36000);
      unsigned char common = r.chance(0.5) ? 1 : 0;
      int cc = (int)r.range(0, 6);
      in.assign(n, common);
      ctx.assign(n, cc);
      for (int q = (int)r.range(1, 6); q > 0; q--) in[n - 1 - (size_t)r.range(0, q == 1 ? 3000 : 20)] = common ^ 1;
      R.stat("saturated", 1);
    }
    h = hashBytes(in.data(), n, h);
    nt = nt || std::count(in.begin(), in.end(), 1) > 0;
    std::vector<unsigned char> out, bytes, back;
    enc.encode(in, ctx, out);
    ArithEnc::convert2bytes(out, bytes);
    ArithDec::convert2bits(bytes, back);
    R.stat("symbols", (double)n);
    R.stat("bits", (double)out.size());
    bool same = back.size() >= out.size() && back.size() < out.size() + 8;
    for (size_t i = 0; same && i < back.size(); i++) same = back[i] == (i < out.size() ? out[i] : 0);
    VCHECK(same, "byte-packing", out.size() << " bits -> " << back.size());
    auto &src = r.chance(0.5) ? out : back;
    dec.initDecoding(src);
    size_t bad = n;
    for (size_t i = 0; i < n; i++)
      if (dec.decode(ctx[i]) != in[i]) {
        bad = i;
        break;
      }
    VCHECK(bad == n, "symbol-changed", "symbol " << bad << " of " << n << " round " << k << (reset ? " reset" : " adapted"));
    if (bad != n) break;
    if (reset) {
      enc.resetCounter();
      dec.resetCounter();
    } else
      dec.rescaleCounter();
  }
  R.identity(h, nt);
  R.sample("symbol sequences of one coder, hash " + std::to_string(h));
}
// ------------------------------------------------------------------------------------- P15
static std::vector<double> signal(Rng &r, size_t n) {
  std::vector<double> s(n, 0.0);
  switch (r.range(0, 6)) {
  case 0: for (auto &x : s) x = r.real(-1, 1); break;
  case 1: s[(size_t)r.range(0, (long long)n - 1)] = 1; break;
  case 2: { double f = r.real(0.0, 3.14), p = r.real(0, 6.28); for (size_t i = 0; i < n; i++) s[i] = std::sin(f * (double)i + p); break; }
  case 3: { double v = r.real(-1, 1); for (auto &x : s) x = v; break; }
  case 4: for (size_t i = 0; i < n; i++) s[i] = (double)i / (double)n; break;
  case 5: { size_t c = (size_t)r.range(0, (long long)n); for (size_t i = 0; i < n; i++) s[i] = i < c ? 1 : -1; break; }
  default: { // damped burst
    size_t a = (size_t)r.range(0, (long long)n - 1);
    for (size_t i = a; i < n; i++) s[i] = std::exp(-(double)(i - a) / 20.0) * std::sin((double)(i - a) * 0.7);
  }
  }
  double g = r.chance(0.3) ? std::pow(10, r.real(-3, 3)) : 1;
  for (auto &x : s) x *= g;
  return s;
}
// a sound that dies away far below what can be heard, or never was above
static void fade(Rng &r, std::vector<double> &s) {
  size_t n = s.size();
  double g = std::pow(10, r.real(-320, 0)), a = r.chance(0.5) ? std::pow(10, -r.real(0, 640) / (double)n) : 1;
  size_t from = (size_t)r.range(0, (long long)n - 1);
  if (r.chance(0.5)) g = 1;
  for (size_t i = 0; i < n; i++) s[i] *= g * (i < from ? 1 : std::pow(a, (double)(i - from)));
}
static double maxabs(const std::vector<double> &v) {
  double m = 0;
  for (auto x : v) m = std::max(m, std::fabs(x));
  return m;
}
static void dwtMode(Rng &r, long) {
  size_t bl = (size_t)1 << r.range(3, 11);
  int maxLevels = (int)std::log2((double)bl / 4);
  int levels = r.chance(0.5) ? maxLevels : (int)r.range(0, maxLevels);
  if (levels == 0) levels = 1;
  auto x = signal(r, bl), y = signal(r, bl);
  auto x0 = x;
  Wavelet w;
  std::vector<double> X, Y(bl), Z(bl), back(bl, r.real(-5, 5));
  w.DWT(x, levels, X);
  VCHECK(x == x0, "input-changed", "DWT");
  VCHECK(X.size() == bl, "wrong-length", X.size());
  auto X0 = X;
  w.inv_DWT(X, levels, back);
  VCHECK(X == X0, "input-changed", "inv_DWT");
  double err = 0, m = std::max(1e-12, maxabs(x));
  size_t at = 0;
  for (size_t i = 0; i < bl; i++)
    if (!(std::fabs(back[i] - x[i]) / m <= err)) {
      err = std::fabs(back[i] - x[i]) / m;
      at = i;
    }
  R.statMax("relative_error", err);
  VCHECK(err < 1e-9, "reconstruction", "bl " << bl << " levels " << levels << " sample " << at << " error " << err);
  // repeated use of the same object gives the same answer
  std::vector<double> X2;
  w.DWT(x, levels, X2);
  VCHECK(X2 == X0, "history-dependent", "DWT");
  // linearity
  double a = r.real(-2, 2), b = r.real(-2, 2);
  std::vector<double> z(bl);
  for (size_t i = 0; i < bl; i++) z[i] = a * x[i] + b * y[i];
  w.DWT(y, levels, Y);
  w.DWT(z, levels, Z);
  double lin = 0, mm = std::max(1e-12, maxabs(X) + maxabs(Y));
  for (size_t i = 0; i < bl; i++) lin = std::max(lin, std::fabs(Z[i] - a * X[i] - b * Y[i]) / mm);
  R.statMax("linearity_error", lin);
  VCHECK(lin < 1e-9, "linearity", "bl " << bl << " levels " << levels << " error " << lin);
  // the inverse transform of arbitrary coefficients is undone by the forward one
  auto c = signal(r, bl);
  std::vector<double> t(bl, 0), c2;
  w.inv_DWT(c, levels, t);
  w.DWT(t, levels, c2);
  double e2 = 0, cm = std::max(1e-12, maxabs(c));
  for (size_t i = 0; i < bl; i++) e2 = std::max(e2, std::fabs(c2[i] - c[i]) / cm);
  R.statMax("inverse_error", e2);
  VCHECK(e2 < 1e-9, "inverse-forward", "bl " << bl << " levels " << levels << " error " << e2);
  R.stat("levels", levels);
  R.identity(hashBytes(x.data(), bl * 8, bl * 31 + levels), m > 1e-9);
  {
    std::ostringstream o;
    o << "length " << bl << " levels " << levels << " samples";
    for (size_t i = 0; i < std::min<size_t>(bl, 8); i++) o << " " << x[i];
    R.sample(o.str());
  }
}
// ------------------------------------------------------------------------------------- P16
static void bandMode(Rng &r, long) {
  // rates and block lengths whose blocks last a whole number of ticks
  static const std::vector<std::pair<int, unsigned>> rates = {{8000, 1000}, {8000, 8000}, {4000, 1000}, {16000, 1000}, {1000, 1000},
                                                              {2000, 1000}, {8000, 2000}, {48000, 48000}, {8000, 16000}, {48000, 24000}};
  auto [fs, ts] = r.pick(rates);
  int bl = 0;
  for (int t = 0; t < 50; t++) {
    bl = 1 << r.range(4, 9);
    if (((long long)bl * ts) % fs == 0) break;
    bl = 0;
  }
  if (!bl) return;
  int ticks = (int)((long long)bl * ts / fs);
  int blocks = (int)r.range(1, 5);
  size_t n = (size_t)blocks * bl - (r.chance(0.4) ? (size_t)r.range(0, bl - 1) : 0);
  auto s = signal(r, n);
  double m = maxabs(s);
  if (m > 1)
    for (auto &x : s) x /= m;
  if (r.chance(0.3)) fade(r, s);
  if (r.chance(0.3)) { // silent block
    size_t k = (size_t)r.range(0, blocks - 1) * bl;
    for (size_t i = k; i < std::min(n, k + bl); i++) s[i] = 0;
  }
  encoder::WaveletEncoder enc(bl, fs);
  int book = (int)std::log2((double)bl / 4) + 1;
  int budget = r.chance(0.6) ? book * 15 : (int)r.range(1, book * 15);
  bool full = budget == book * 15;
  types::Band band;
  int cutoff = (int)r.range(0, 500);
  auto s0 = s;
  enc.encodeSignal(s, budget, cutoff, band, ts);
  VCHECK(s == s0, "input-changed", "encodeSignal");
  auto ctxs = "fs " + std::to_string(fs) + " timescale " + std::to_string(ts) + " bl " + std::to_string(bl) + " budget " +
              std::to_string(budget) + " blocks " + std::to_string(blocks);
  VCHECK(band.getBandType() == types::BandType::WaveletWave && band.getUpperFrequencyLimit() == fs &&
             band.getLowerFrequencyLimit() == cutoff && band.getBlockLength() == ticks && (int)band.getEffectsSize() == blocks,
         "band-metadata", ctxs << " effects " << band.getEffectsSize() << " blockLength " << band.getBlockLength().value_or(-1));
  if ((int)band.getEffectsSize() != blocks) return;
  { // an encoder that has already coded something else gives the same bits
    types::Band b2;
    encoder::WaveletEncoder other(bl == 16 ? 32 : 16, fs);
    auto junk = signal(r, 40);
    types::Band bj;
    other.encodeSignal(junk, 20, 0, bj, ts);
    enc.encodeSignal(s, budget, cutoff, b2, ts);
    bool same = b2.getEffectsSize() == band.getEffectsSize();
    for (int i = 0; same && i < blocks; i++)
      same = b2.getEffectAt(i).getWaveletBitstream() == band.getEffectAt(i).getWaveletBitstream();
    VCHECK(same, "history-dependent-encoder", ctxs);
  }
  // optionally drop or move blocks: each block still belongs at its own position
  std::vector<int> start(blocks);
  for (int i = 0; i < blocks; i++) {
    start[i] = i * ticks;
    VCHECK(band.getEffectAt(i).getPosition() == i * ticks, "block-position", ctxs << " block " << i << " at " << band.getEffectAt(i).getPosition());
  }
  types::Band used = band;
  bool moved = r.chance(0.4);
  if (moved) {
    int off = 0;
    for (int i = 0; i < blocks; i++) {
      off += (int)r.range(0, 2) * ticks;
      start[i] += off;
      used.getEffectAt(i).setPosition(start[i]);
    }
  }
  int lastEnd = start.back() + ticks;
  size_t total = (size_t)((long long)lastEnd * fs / ts);
  std::vector<double> want(total, 0), got(total, 0);
  for (int i = 0; i < blocks; i++)
    for (int k = 0; k < bl; k++) {
      size_t src = (size_t)i * bl + k, dst = (size_t)((long long)start[i] * fs / ts) + k;
      if (src < n) want[dst] = s[src];
    }
  WaveletDecoder dec;
  auto tr = used;
  dec.transformBand(tr, ts);
  VCHECK(tr.getEffectsSize() == (size_t)blocks, "blocks-lost", ctxs << " " << tr.getEffectsSize());
  for (int i = 0; i < (int)tr.getEffectsSize(); i++) {
    auto &e = tr.getEffectAt(i);
    auto smp = e.getWaveletSamples();
    VCHECK((int)smp.size() == bl, "block-length", ctxs << " got " << smp.size());
    VCHECK(e.getPosition() == start[i], "decoded-position", ctxs << " block " << i << " at " << e.getPosition() << " want " << start[i] << (moved ? " moved" : ""));
    long long at = (long long)e.getPosition() * fs / ts;
    for (size_t k = 0; k < smp.size(); k++)
      if (at + (long long)k >= 0 && at + (long long)k < (long long)total) got[(size_t)at + k] += smp[k];
  }
  double err = 0, en = 0, es = 0;
  size_t where = 0;
  for (size_t i = 0; i < total; i++) {
    double d = std::fabs(got[i] - want[i]);
    if (!(d <= err)) { err = d; where = i; }
    en += d * d;
    es += want[i] * want[i];
    VCHECK(std::isfinite(got[i]), "not-finite", ctxs);
  }
  if (full) {
    R.statMax("full_budget_error", err);
    VCHECK(err < 2e-2, "reconstruction", ctxs << " sample " << where << " error " << err << " want " << want[where] << " got " << got[where]);
    R.stat("full_budget");
  }
  if (es > 1e-6) {
    if (!full) R.statMax("partial_budget_noise_ratio", en / es);
    // quantisation never moves a coefficient by more than its own size
    Wavelet wv;
    int lv = (int)std::log2((double)bl / 4);
    for (int i = 0; i < (int)tr.getEffectsSize(); i++) {
      auto smp = tr.getEffectAt(i).getWaveletSamples();
      if ((int)smp.size() != bl) break;
      std::vector<double> x(bl, 0), cx, cy;
      for (int k = 0; k < bl && (size_t)i * bl + k < n; k++) x[k] = s[(size_t)i * bl + k];
      wv.DWT(x, lv, cx);
      wv.DWT(smp, lv, cy);
      double top = maxabs(cx);
      for (int k = 0; k < bl; k++) {
        double lim = std::fabs(cx[k]) * (1 + 1e-9) + 1e-9;
        // with every bit granted, only a step of the finest quantiser, or the coded maximum (127/128 below 1), may be lost
        if (full) lim = std::min(lim, 2.0 * std::max(1.0, top + 0.125) / (1 << 15) + (top < 1 ? std::max(0.0, std::fabs(cx[k]) - 127.0 / 128) : 0));
        if (!(std::fabs(cx[k] - cy[k]) <= lim)) {
          R.violation("noise", ctxs + " block " + std::to_string(i) + " coefficient " + std::to_string(k) + " " + std::to_string(cx[k]) + " -> " + std::to_string(cy[k]));
          break;
        }
      }
    }
  }
  // the direct decoder gives the same samples as the block-wise one
  {
    auto copy = used;
    auto rec = dec.decodeBand(copy, (int)ts);
    VCHECK(rec.size() >= total || !moved, "direct-length", ctxs << " " << rec.size() << " want " << total);
    double d = 0;
    size_t w = 0;
    for (size_t i = 0; i < std::min(total, rec.size()); i++)
      if (!(std::fabs(rec[i] - got[i]) <= d)) { d = std::fabs(rec[i] - got[i]); w = i; }
    VCHECK(d < 1e-9, "direct-differs", ctxs << " sample " << w << " direct " << rec[w] << " blockwise " << got[w] << (moved ? " moved" : ""));
  }
  R.stat("blocks", blocks);
  R.identity(hashBytes(s.data(), n * 8, bl * 1000 + budget + fs), es > 1e-9);
  R.sample(ctxs);
}
// Coding a signal must not depend on what the process coded before: this worker never codes anything itself, two children do.
static std::string inChild(const std::function<std::string()> &f) {
  int fd[2];
  if (pipe(fd)) return "";
  pid_t p = fork();
  if (p == 0) {
    close(fd[0]);
    std::string s = "exception";
    try {
      s = f();
    } catch (...) {
    }
    (void)!write(fd[1], s.data(), s.size());
    _exit(0);
  }
  close(fd[1]);
  std::string s;
  char buf[4096];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0) s.append(buf, (size_t)n);
  close(fd[0]);
  int st;
  waitpid(p, &st, 0);
  return s;
}
static void freshMode(Rng &r, long) {
  struct Job { int bl, fs, budget; std::vector<double> s; };
  std::vector<Job> jobs;
  int n = (int)r.range(2, 4);
  uint64_t h = 0;
  for (int i = 0; i < n; i++) {
    int bl = 1 << r.range(4, 9), book = (int)std::log2((double)bl / 4) + 1;
    Job j{bl, r.pick<int>({1000, 2000, 8000, 16000}), (int)r.range(book, book * 6), signal(r, (size_t)bl * (size_t)r.range(1, 3))};
    h = hashBytes(j.s.data(), j.s.size() * 8, h + bl);
    jobs.push_back(j);
  }
  auto code = [](Job j) {
    encoder::WaveletEncoder enc(j.bl, j.fs);
    types::Band b;
    enc.encodeSignal(j.s, j.budget, 0, b, (unsigned)j.fs);
    std::string o;
    for (int i = 0; i < (int)b.getEffectsSize(); i++) {
      auto w = b.getEffectAt(i).getWaveletBitstream();
      o += std::string(w.begin(), w.end()) + "|";
    }
    WaveletDecoder d;
    d.transformBand(b, (unsigned)j.fs);
    for (int i = 0; i < (int)b.getEffectsSize(); i++)
      for (auto x : b.getEffectAt(i).getWaveletSamples()) o += std::to_string(x);
    return std::to_string(hashStr(o));
  };
  auto alone = inChild([&] { return code(jobs.back()); });
  auto after = inChild([&] {
    std::string s;
    for (auto &j : jobs) s = code(j);
    return s;
  });
  VCHECK(!alone.empty() && alone == after, "history-dependent-process",
         "bl " << jobs.back().bl << " fs " << jobs.back().fs << " after bl " << jobs[0].bl << ": " << alone << " / " << after);
  R.stat("process_pairs");
  R.identity(h, true);
  R.sample("signals coded in one process " + std::to_string(jobs.size()) + ", last block length " + std::to_string(jobs.back().bl));
}
// ------------------------------------------------------------------------------------- P17
// a length that every level of the transform can halve
static int legalLength(Rng &r) {
  if (r.chance(0.7)) return 1 << r.range(4, 10);
  while (true) {
    int bl = (int)r.range(4, 1024) * 4;
    if (bl >= 16 && bl <= 4096 && bl % (1 << (int)std::log2((double)bl / 4)) == 0) return bl;
  }
}
static void hostileMode(Rng &r, long) {
  Spiht_Dec dec;
  int n = (int)r.range(1, 3);
  uint64_t h = 0;
  for (int k = 0; k < n; k++) {
    int bl = legalLength(r);
    std::vector<unsigned char> in;
    if (r.chance(0.5)) {
      in.resize(r.chance(0.05) ? 0 : (size_t)r.range(0, 400));
      int kind = (int)r.range(0, 3);
      for (auto &c : in) c = (unsigned char)(kind == 0 ? 255 : kind == 1 ? r.range(0, 255) : kind == 2 ? (r.chance(0.1) ? 255 : 0) : r.range(240, 255));
    } else {
      Spiht_Enc enc;
      int bits = (int)r.range(1, 15);
      bl = 1 << r.range(4, 10);
      auto b = coeffs(r, bl, bits);
      enc.encodeEffect(b, bits, scalarFor(r), in);
      int m = (int)r.range(1, 8);
      for (int i = 0; i < m && !in.empty(); i++) in[(size_t)r.range(0, (long long)in.size() - 1)] = (unsigned char)r.range(0, 255);
      if (r.chance(0.3) && !in.empty()) in.resize((size_t)r.range(0, (long long)in.size()));
      if (r.chance(0.3)) bl = legalLength(r);
    }
    h = hashBytes(in.data(), in.size(), h + bl);
    R.statMax("largest block", bl);
    R.stat((bl & (bl - 1)) ? "other lengths" : "power-of-two lengths");
    // the result has the length asked for whatever the length of the vector given
    std::vector<int> out(r.chance(0.7) ? bl : r.range(0, 2 * bl), 0);
    double wm = NAN;
    int bits = -1;
    dec.decodeEffect(in, out, bl, wm, bits);
    R.stat("streams");
    VCHECK((int)out.size() == bl, "wrong-length", out.size() << " for " << bl);
    VCHECK(bits >= 0 && bits <= 15, "bits-range", bits);
    VCHECK(wm >= 0 && wm <= 17, "maximum-range", wm);
    long long lim = (1LL << (bits + 1)) - 1;
    int big = 0;
    for (auto v : out) big += std::llabs(v) > lim;
    VCHECK(big == 0, "coefficient-range", big << " coefficients above " << lim);
    // same bits again, same answer
    std::vector<int> out2(bl, 0);
    double wm2;
    int b2;
    Spiht_Dec d2;
    d2.decodeEffect(in, out2, bl, wm2, b2);
    VCHECK(out == out2 && wm == wm2 && bits == b2, "history-dependent-decoder", "bl " << bl);
    int dwtl = (int)std::log2((double)bl / 4);
    std::vector<double> t;
    WaveletDecoder::decodeBlock(out, t, wm / std::pow(2, bits), dwtl);
    VCHECK((int)t.size() == bl, "wrong-length", "time samples " << t.size());
    int nf = 0;
    for (auto v : t) nf += !std::isfinite(v);
    VCHECK(nf == 0, "not-finite", nf << " samples");
  }
  R.identity(h, true);
  R.sample("coded blocks, hash " + std::to_string(h));
}
// ------------------------------------------------------------------------------------- P34
static void budgetMode(Rng &r, long) {
  int bl = 1 << r.range(4, 10), fs = (int)r.pick(std::vector<int>{8000, 1000, 44100, 4000});
  unsigned ts = r.chance(0.5) ? (unsigned)fs : 1000 * (unsigned)fs;
  if ((double)ts * bl * 4 / fs > 2e9) ts = (unsigned)fs;
  int lv = (int)std::log2((double)bl / 4), room = (lv + 1) * 15, blocks = (int)r.range(1, 3);
  size_t n = (size_t)blocks * bl - (r.chance(0.4) ? (size_t)r.range(0, bl - 1) : 0);
  auto s = signal(r, n);
  double m = maxabs(s);
  if (m > 1)
    for (auto &x : s) x /= m;
  if (r.chance(0.2)) fade(r, s);
  int small = (int)r.range(1, room - 1), large = r.chance(0.3) ? std::min(room, small + 1) : (int)r.range(small + 1, room);
  auto ctx = "block " + std::to_string(bl) + " rate " + std::to_string(fs) + " budgets " + std::to_string(small) + " " + std::to_string(large);
  Wavelet wv;
  WaveletDecoder dec;
  // the error of each coefficient of each block
  auto errors = [&](int budget, std::vector<std::vector<unsigned char>> &bits) {
    std::vector<std::vector<double>> o;
    encoder::WaveletEncoder enc(bl, fs);
    types::Band b;
    bool ok = enc.encodeSignal(s, budget, 0, b, ts);
    VCHECK(ok && (int)b.getEffectsSize() == blocks, "blocks", ctx << " " << b.getEffectsSize());
    for (int i = 0; i < (int)b.getEffectsSize(); i++) bits.push_back(b.getEffectAt(i).getWaveletBitstream());
    dec.transformBand(b, ts);
    for (int i = 0; i < (int)b.getEffectsSize(); i++) {
      auto y = b.getEffectAt(i).getWaveletSamples();
      VCHECK((int)y.size() == bl, "block-length", ctx << " " << y.size());
      y.resize(bl, 0);
      std::vector<double> x(bl, 0), cx, cy;
      for (int k = 0; k < bl && (size_t)i * bl + k < n; k++) x[k] = s[(size_t)i * bl + k];
      wv.DWT(x, lv, cx);
      wv.DWT(y, lv, cy);
      for (int k = 0; k < bl; k++) cy[k] = std::fabs(cy[k] - cx[k]);
      o.push_back(cy);
    }
    return o;
  };
  std::vector<std::vector<unsigned char>> few, many, one;
  auto a = errors(small, few), b = errors(large, many);
  double gain = 0;
  for (size_t i = 0; i < std::min(a.size(), b.size()); i++)
    for (int k = 0; k < bl; k++) {
      VCHECK(b[i][k] <= a[i][k] + 1e-9, "more-is-worse", ctx << " block " << i << " coefficient " << k << " off by " << a[i][k] << " then " << b[i][k]);
      gain += a[i][k] - b[i][k];
    }
  R.stat(gain > 1e-6 ? "more_is_better" : "more_is_equal");
  // what a block is coded into depends on its own samples
  if (blocks > 1) {
    size_t i = (size_t)r.range(0, blocks - 1);
    std::vector<double> part(s.begin() + (long)(i * bl), s.begin() + (long)std::min(n, (i + 1) * bl));
    encoder::WaveletEncoder enc(bl, fs);
    types::Band alone;
    enc.encodeSignal(part, small, 0, alone, ts);
    VCHECK(alone.getEffectsSize() == 1 && i < few.size() && alone.getEffectAt(0).getWaveletBitstream() == few[i], "neighbours", ctx << " block " << i);
    R.stat("blocks_alone");
  }
  // settings made from a bitrate
  int last = 0;
  for (int rate = (int)r.range(1, 20), k = 0; k < 12; k++, rate += (int)r.range(0, 20)) {
    auto c = encoder::EncodingConfig::generateConfigParam(rate, 72.5, true, true, bl);
    VCHECK(c.wavelet_bitbudget >= 1 && c.wavelet_bitbudget <= room, "budget-range", rate << " kb/s " << c.wavelet_bitbudget << " of " << room);
    VCHECK(c.wavelet_bitbudget >= last, "budget-falls", rate << " kb/s " << c.wavelet_bitbudget << " after " << last);
    VCHECK(c.wavelet_blockLength == bl && c.curveFrequencyLimit == 72.5 && c.wavelet_enabled && c.vectorial_enabled, "settings", rate);
    last = c.wavelet_bitbudget;
  }
  uint64_t h = hashBytes(s.data(), n * 8, (uint64_t)(bl * 1000 + small));
  R.identity(h, gain > 1e-6);
  R.sample(ctx);
}
// ------------------------------------------------------------------------------------- P36
struct PeakRun {
  size_t from, to;
  double height, prominence;
  bool certain; // a run of equal values up to the end may be taken either way
};
// the local maxima of a spectrum by definition: a run of equal values with lower ones on both sides
static std::vector<PeakRun> peaksOf(const std::vector<double> &x) {
  std::vector<PeakRun> o;
  size_t n = x.size();
  for (size_t s = 0; s < n;) {
    size_t e = s;
    while (e + 1 < n && x[e + 1] == x[s]) e++;
    if (s > 0 && x[s - 1] < x[s] && (e + 1 >= n || x[e + 1] < x[s]) && !(e + 1 >= n && s == e)) {
      double v = x[s], l = v, r = v;
      for (size_t i = s; i-- > 0 && x[i] <= v;) l = std::min(l, x[i]);
      for (size_t i = e + 1; i < n && x[i] <= v; i++) r = std::min(r, x[i]);
      o.push_back({s, e, v, v - std::max(l, r), e + 1 < n});
    }
    s = e + 1;
  }
  return o;
}
static std::vector<double> spectrumOf(Rng &r) {
  size_t n = (size_t)(r.chance(0.2) ? r.range(0, 6) : r.range(7, 200));
  std::vector<double> x(n);
  int style = (int)r.range(0, 4);
  double level = 0;
  for (size_t i = 0; i < n; i++) {
    if (style == 0) x[i] = r.real(-80, 40);
    else if (style == 1) x[i] = (double)r.range(0, 4) * 10; // many equal neighbours
    else if (style == 2) x[i] = level += r.chance(0.4) ? 0 : (double)r.range(-3, 3) * 7;
    else if (style == 3) x[i] = 30 * std::sin((double)i * 0.3) + r.real(-2, 2);
    else x[i] = i && r.chance(0.5) ? x[i - 1] : r.chance(0.1) ? -std::numeric_limits<double>::infinity() : r.real(-80, 40);
  }
  return x;
}
static double curveAt(double height, double f, double at) { return height - 5 + 5 / 1400.0 * f - 30 / (f * f) * (at - f) * (at - f); }
static void maskMode(Rng &r, long) {
  using haptics::tools::PsychohapticModel;
  uint64_t hash = 0;
  size_t found = 0;
  for (int k = 0; k < 8; k++) { // peaks
    auto x = spectrumOf(r), x0 = x;
    auto want = peaksOf(x);
    double height = r.real(-90, 40), prominence = r.chance(0.3) ? 0 : r.real(0, 60);
    if (want.size() && r.chance(0.3)) height = r.pick(want).height; // exactly at the limit
    if (want.size() && r.chance(0.3)) prominence = r.pick(want).prominence;
    std::string c = "height " + std::to_string(height) + " prominence " + std::to_string(prominence) + " of";
    for (auto v : x) c += " " + std::to_string(v).substr(0, 6);
    auto got = PsychohapticModel::findPeaks(x, prominence, height);
    VCHECK(x == x0, "input-changed", c);
    VCHECK(got.heights.size() == got.locations.size(), "peak-lists", c);
    std::vector<int> hit(want.size(), 0);
    for (size_t i = 0; i < std::min(got.heights.size(), got.locations.size()); i++) {
      auto at = got.locations[i];
      VCHECK(!i || at > got.locations[i - 1], "peak-order", c);
      bool known = false;
      for (size_t j = 0; j < want.size(); j++)
        if (at >= want[j].from && at <= want[j].to) {
          known = true;
          hit[j]++;
          VCHECK(want[j].height >= height && (want[j].prominence >= prominence || !want[j].certain), "peak-too-low", at << " " << c);
          VCHECK(got.heights[i] == want[j].height, "peak-height", at << " " << got.heights[i] << " " << c);
          auto mid = (want[j].from + want[j].to) / 2;
          VCHECK(at == mid || at == mid + 1, "peak-middle", at << " of " << want[j].from << " to " << want[j].to << " " << c);
        }
      VCHECK(known, "not-a-peak", at << " " << c);
    }
    for (size_t j = 0; j < want.size(); j++) {
      bool must = want[j].height >= height && want[j].prominence >= prominence;
      if (!want[j].certain) continue;
      VCHECK(hit[j] == (must ? 1 : 0), "peak-missed", want[j].from << " " << c);
      R.stat(must ? "peaks_kept" : "peaks_dropped");
      if (want[j].from != want[j].to) R.stat("flat_peaks");
    }
    found += want.size();
    hash = hashBytes(x.data(), x.size() * 8, hash);
  }
  // the mask of peaks
  size_t bl = (size_t)1 << r.range(3, 9);
  int fs = (int)r.pick(std::vector<int>{8000, 1000, 44100, 4000, 48000, 3});
  PsychohapticModel model(bl, fs);
  auto c = "block " + std::to_string(bl) + " rate " + std::to_string(fs);
  auto freq = [&](size_t i) { return (double)i * fs / (double)(2 * bl - 1); };
  {
    std::vector<double> heights, mask((size_t)r.range(0, 5), 7);
    std::vector<size_t> at;
    for (size_t i = (size_t)r.range(1, (long long)bl); i < bl; i += (size_t)r.range(1, (long long)bl)) at.push_back(i), heights.push_back(r.real(-60, 40));
    model.peakMask(heights, at, mask);
    VCHECK(mask.size() == (at.empty() ? 0 : bl), "mask-size", c << " " << mask.size());
    for (size_t i = 0; i < mask.size(); i++) {
      double w = -HUGE_VAL;
      for (size_t k = 0; k < at.size(); k++) w = std::max(w, curveAt(heights[k], freq(at[k]), freq(i)));
      VCHECK(std::fabs(mask[i] - w) <= 1e-7 * (1 + std::fabs(w)), "mask", c << " at " << i << " " << mask[i] << " want " << w << " of " << at.size() << " peaks");
    }
    R.stat("masks");
  }
  // what is masked in each band when nothing stands out: the threshold of hearing, whatever its shape
  std::vector<double> hear;
  {
    std::vector<double> click(bl, 0);
    click[0] = 1;
    auto flat = PsychohapticModel(bl, fs).getSMR(click);
    for (size_t b = 0; b < std::min(flat.SMR.size(), flat.bandenergy.size()); b++) {
      hear.push_back(flat.bandenergy[b] / std::pow(10, flat.SMR[b] / 10));
      VCHECK(hear[b] > 0 && std::isfinite(hear[b]), "threshold", c << " band " << b << " " << hear[b]);
    }
    hear.resize(16, 1);
  }
  // the signal to mask ratio of each band, of some blocks in a row
  for (int k = 0; k < 3; k++) {
    auto s = signal(r, bl);
    if (r.chance(0.3)) s.resize((size_t)r.range(1, (long long)bl));
    auto s0 = s;
    auto got = model.getSMR(s);
    VCHECK(s == s0, "input-changed", c);
    int lv = (int)std::log2((double)bl / 4);
    VCHECK((int)got.SMR.size() == lv + 1 && (int)got.bandenergy.size() == lv + 1, "bands", c << " " << got.SMR.size());
    if ((int)got.SMR.size() != lv + 1 || (int)got.bandenergy.size() != lv + 1) break;
    std::vector<double> db(bl), lin(bl);
    double total = 0;
    for (size_t i = 0; i < bl; i++) {
      std::complex<double> z = 0;
      for (size_t j = 0; j < s.size(); j++) z += s[j] * std::polar(1.0, -M_PI * (double)((i * j) % (2 * bl)) / (double)bl);
      lin[i] = std::norm(z) / (double)bl;
      db[i] = 10 * std::log10(lin[i]);
      total += lin[i];
    }
    if (!(total > 0)) {
      R.stat("silent_blocks");
      continue;
    }
    double top = *std::max_element(db.begin(), db.end());
    auto peaks = peaksOf(db);
    bool sure = true; // no peak is near one of the limits
    std::vector<PeakRun> kept;
    for (auto &p : peaks) {
      sure = sure && std::fabs(p.height - (top - 45)) > 1e-4 && std::fabs(p.prominence - 12) > 1e-4;
      if (p.height < top - 45) continue;
      sure = sure && p.certain;
      if (p.prominence >= 12) {
        sure = sure && p.from == p.to;
        kept.push_back(p);
      }
    }
    if (!sure) {
      R.stat("undecided_blocks");
      continue;
    }
    size_t i = 0;
    for (int band = 0; band <= lv; band++) {
      double energy = 0, mask = 0;
      size_t end = (bl >> lv) << band;
      for (; i < end; i++) {
        double best = -HUGE_VAL;
        for (auto &p : kept) best = std::max(best, curveAt(p.height, freq(p.from), freq(i)));
        energy += lin[i];
        mask += kept.empty() ? 0 : std::pow(10, best / 10);
      }
      mask += hear[(size_t)band];
      VCHECK(std::fabs(got.bandenergy[band] - energy) <= 1e-9 * total + 1e-9 * energy, "band-energy", c << " band " << band << " " << got.bandenergy[band] << " want " << energy);
      if (energy > 1e-9 * total)
        VCHECK(std::fabs(got.SMR[band] - 10 * std::log10(energy / mask)) < 1e-3, "ratio", c << " band " << band << " " << got.SMR[band] << " want " << 10 * std::log10(energy / mask) << " peaks " << kept.size());
    }
    VCHECK(i == bl, "bands-cover", c);
    auto again = model.getSMR(s);
    VCHECK(again.bandenergy == got.bandenergy && (again.SMR == got.SMR), "not-repeatable", c);
    R.stat("blocks_analysed");
    R.stat("tonal_peaks", (double)kept.size());
    hash = hashBytes(s.data(), s.size() * 8, hash);
  }
  R.identity(hash, found > 0);
  R.sample(c);
}
int main(int argc, char **argv) {
  Modes m;
  m["budget"] = {budgetMode};
  m["mask"] = {maskMode};
  m["spiht"] = {spihtMode};
  m["arith"] = {arithMode};
  m["dwt"] = {dwtMode};
  m["band"] = {bandMode};
  m["fresh"] = {freshMode};
  m["hostile"] = {hostileMode};
  return workerMain(argc, argv, m);
}
