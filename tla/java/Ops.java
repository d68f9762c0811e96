package vforust;

import com.google.gson.*;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.util.*;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

/** TLC implementations of the operators declared in Num.tla. */
public final class Ops {
  private Ops() {}
  static final String M = "Num";

  static double d(Value v) {
    if (v instanceof NumValue) return ((NumValue) v).d;
    if (v instanceof LazyValue) throw new RuntimeException("lazy");
    throw new RuntimeException("expected a Num, got " + v);
  }
  static int i(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    throw new RuntimeException("expected an Int, got " + v);
  }
  static Value n(double x) { return NumValue.of(x); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  @TLAPlusOperator(identifier = "NInt", module = M, warn = false)
  public static Value nint(final Value a) { return n(i(a)); }
  @TLAPlusOperator(identifier = "NParse", module = M, warn = false)
  public static Value nparse(final Value a) { return n(parse(((StringValue) a).val.toString())); }
  @TLAPlusOperator(identifier = "NAdd", module = M, warn = false)
  public static Value add(final Value a, final Value b) { return n(d(a) + d(b)); }
  @TLAPlusOperator(identifier = "NSub", module = M, warn = false)
  public static Value sub(final Value a, final Value b) { return n(d(a) - d(b)); }
  @TLAPlusOperator(identifier = "NMul", module = M, warn = false)
  public static Value mul(final Value a, final Value b) { return n(d(a) * d(b)); }
  @TLAPlusOperator(identifier = "NDiv", module = M, warn = false)
  public static Value div(final Value a, final Value b) { return n(d(a) / d(b)); }
  @TLAPlusOperator(identifier = "NNeg", module = M, warn = false)
  public static Value neg(final Value a) { return n(-d(a)); }
  @TLAPlusOperator(identifier = "NAbs", module = M, warn = false)
  public static Value abs(final Value a) { return n(Math.abs(d(a))); }
  @TLAPlusOperator(identifier = "NMin", module = M, warn = false)
  public static Value min(final Value a, final Value b) { return d(a) <= d(b) ? a : b; }
  @TLAPlusOperator(identifier = "NMax", module = M, warn = false)
  public static Value max(final Value a, final Value b) { return d(a) >= d(b) ? a : b; }
  @TLAPlusOperator(identifier = "NLt", module = M, warn = false)
  public static Value lt(final Value x, final Value y) { return b(d(x) < d(y)); }
  @TLAPlusOperator(identifier = "NLe", module = M, warn = false)
  public static Value le(final Value x, final Value y) { return b(d(x) <= d(y)); }
  @TLAPlusOperator(identifier = "NExp", module = M, warn = false)
  public static Value exp(final Value a) { return n(Math.exp(d(a))); }
  @TLAPlusOperator(identifier = "NLn", module = M, warn = false)
  public static Value ln(final Value a) { return n(Math.log(d(a))); }
  @TLAPlusOperator(identifier = "NLn1p", module = M, warn = false)
  public static Value ln1p(final Value a) { return n(Math.log1p(d(a))); }
  @TLAPlusOperator(identifier = "NSqrt", module = M, warn = false)
  public static Value sqrt(final Value a) { return n(Math.sqrt(d(a))); }
  @TLAPlusOperator(identifier = "NF32", module = M, warn = false)
  public static Value f32(final Value a) { return n((double) (float) d(a)); }
  @TLAPlusOperator(identifier = "NIsNaN", module = M, warn = false)
  public static Value isnan(final Value a) { return b(Double.isNaN(d(a))); }
  @TLAPlusOperator(identifier = "NIsFin", module = M, warn = false)
  public static Value isfin(final Value a) { return b(Double.isFinite(d(a))); }
  @TLAPlusOperator(identifier = "NIsInt", module = M, warn = false)
  public static Value isint(final Value a) { return b(Double.isFinite(d(a)) && Math.rint(d(a)) == d(a)); }
  @TLAPlusOperator(identifier = "NTrunc", module = M, warn = false)
  public static Value trunc(final Value a) {
    double x = d(a);
    if (Double.isNaN(x) || x <= 0) return IntValue.gen(0);
    if (x >= Integer.MAX_VALUE) return IntValue.gen(Integer.MAX_VALUE);
    return IntValue.gen((int) x);
  }
  @TLAPlusOperator(identifier = "NPow2", module = M, warn = false)
  public static Value pow2(final Value a) { return n(Math.scalb(1.0, i(a))); }
  @TLAPlusOperator(identifier = "NMaxVal", module = M, warn = false)
  public static Value maxval() { return n(Double.MAX_VALUE); }

  /* ---- aggregation ---- */
  static Value[] vals(Value f) {
    if (f instanceof TupleValue) return ((TupleValue) f).elems;
    if (f instanceof FcnRcdValue) return ((FcnRcdValue) f).values;
    if (f instanceof RecordValue) return ((RecordValue) f).values;
    Value t = f.toFcnRcd();
    if (t instanceof FcnRcdValue) return ((FcnRcdValue) t).values;
    throw new RuntimeException("expected a function, got " + f);
  }
  static final class Acc { // Neumaier summation
    double s = 0, c = 0; double bad = 0; boolean anyBad = false;
    void add(double x) {
      if (Double.isNaN(x) || Double.isInfinite(x)) { bad += x; anyBad = true; return; }
      double t = s + x;
      if (Math.abs(s) >= Math.abs(x)) c += (s - t) + x; else c += (x - t) + s;
      s = t;
    }
    double get() { return anyBad ? bad : s + c; }
  }
  @TLAPlusOperator(identifier = "NSum", module = M, warn = false)
  public static Value sum(final Value f) {
    Acc a = new Acc();
    for (Value v : vals(f)) a.add(d(v));
    return n(a.get());
  }
  @TLAPlusOperator(identifier = "NMaxOf", module = M, warn = false)
  public static Value maxof(final Value f) {
    double m = Double.NEGATIVE_INFINITY;
    for (Value v : vals(f)) m = Math.max(m, d(v));
    return n(m);
  }
  static int[] ints(Value s) {
    if (s instanceof IntervalValue) {
      IntervalValue iv = (IntervalValue) s;
      int[] r = new int[iv.high < iv.low ? 0 : iv.high - iv.low + 1];
      for (int k = 0; k < r.length; k++) r[k] = iv.low + k;
      return r;
    }
    Value e = s.toSetEnum();
    if (e == null) throw new RuntimeException("expected a set, got " + s);
    e.normalize();
    ValueVec vv = ((SetEnumValue) e).elems;
    int[] r = new int[vv.size()];
    for (int k = 0; k < r.length; k++) r[k] = i((Value) vv.elementAt(k));
    return r;
  }
  static double[] tup(Value f) {
    Value t = f instanceof TupleValue ? f : f.toTuple();
    Value[] e = ((TupleValue) t).elems;
    double[] r = new double[e.length];
    for (int k = 0; k < r.length; k++) r[k] = d(e[k]);
    return r;
  }
  @TLAPlusOperator(identifier = "NSumOver", module = M, warn = false)
  public static Value sumOver(final Value f, final Value s) {
    Acc a = new Acc();
    Value[] e = ((TupleValue) (f instanceof TupleValue ? f : f.toTuple())).elems;
    for (int k : ints(s)) a.add(d(e[k - 1]));
    return n(a.get());
  }
  static boolean missing(double x, double m) { return Double.isNaN(m) ? Double.isNaN(x) : x == m; }

  /** for each cut: <<GL, HL, nL, GR, HR, nR>> over the non-missing rows. */
  @TLAPlusOperator(identifier = "NCutStats", module = M, warn = false)
  public static Value cutStats(final Value rows, final Value x, final Value miss, final Value g,
      final Value h, final Value cuts) {
    int[] rs = ints(rows);
    double m = d(miss);
    double[] X = tup(x), G = tup(g), H = tup(h), C = tup(cuts);
    List<Integer> nm = new ArrayList<>();
    for (int r : rs) if (!missing(X[r - 1], m)) nm.add(r - 1);
    nm.sort((p, q) -> Double.compare(X[p], X[q]));
    int N = nm.size();
    double[] pg = new double[N + 1], ph = new double[N + 1], sg = new double[N + 1], sh = new double[N + 1];
    Acc ag = new Acc(), ah = new Acc();
    for (int k = 0; k < N; k++) { ag.add(G[nm.get(k)]); ah.add(H[nm.get(k)]); pg[k + 1] = ag.get(); ph[k + 1] = ah.get(); }
    ag = new Acc(); ah = new Acc();
    for (int k = N - 1; k >= 0; k--) { ag.add(G[nm.get(k)]); ah.add(H[nm.get(k)]); sg[k] = ag.get(); sh[k] = ah.get(); }
    Value[] out = new Value[C.length];
    for (int c = 0; c < C.length; c++) {
      int lo = 0, hi = N;
      while (lo < hi) { int mid = (lo + hi) >>> 1; if (X[nm.get(mid)] < C[c]) lo = mid + 1; else hi = mid; }
      out[c] = new TupleValue(new Value[] {n(pg[lo]), n(ph[lo]), IntValue.gen(lo), n(sg[lo]), n(sh[lo]), IntValue.gen(N - lo)});
    }
    return new TupleValue(out);
  }

  /** sorted distinct non-missing values of the column */
  @TLAPlusOperator(identifier = "NSortedDistinct", module = M, warn = false)
  public static Value sortedDistinct(final Value x, final Value miss) {
    double m = d(miss);
    TreeSet<Double> t = new TreeSet<>();
    for (double v : tup(x)) if (!missing(v, m)) t.add(v == 0.0 ? 0.0 : v);
    Value[] o = new Value[t.size()];
    int k = 0;
    for (double v : t) o[k++] = n(v);
    return new TupleValue(o);
  }
  /** NCumWeights(x, w, miss, vals): fraction of the non-missing weight at values <= v, per v of vals */
  @TLAPlusOperator(identifier = "NCumFrac", module = M, warn = false)
  public static Value cumFrac(final Value x, final Value w, final Value miss, final Value vals) {
    double m = d(miss);
    double[] X = tup(x), W = tup(w), V = tup(vals);
    Integer[] idx = new Integer[X.length];
    for (int k = 0; k < idx.length; k++) idx[k] = k;
    List<Integer> nm = new ArrayList<>();
    Acc tot = new Acc();
    for (int k : idx) if (!missing(X[k], m)) { nm.add(k); tot.add(W[k]); }
    nm.sort((p, q) -> Double.compare(X[p], X[q]));
    Value[] o = new Value[V.length];
    Acc a = new Acc();
    int p = 0;
    for (int k = 0; k < V.length; k++) {
      while (p < nm.size() && X[nm.get(p)] <= V[k]) { a.add(W[nm.get(p)]); p++; }
      o[k] = n(a.get() / tot.get());
    }
    return new TupleValue(o);
  }

  /* ---- input ---- */
  static double parse(String s) {
    switch (s) {
      case "NaN": return Double.NaN;
      case "inf": return Double.POSITIVE_INFINITY;
      case "-inf": return Double.NEGATIVE_INFINITY;
      default: return Double.parseDouble(s);
    }
  }
  static Value conv(JsonElement e) {
    if (e.isJsonNull()) return new StringValue("null");
    if (e.isJsonPrimitive()) {
      JsonPrimitive p = e.getAsJsonPrimitive();
      if (p.isBoolean()) return b(p.getAsBoolean());
      if (p.isNumber()) return IntValue.gen(Integer.parseInt(p.getAsString()));
      String s = p.getAsString();
      if (s.length() > 1 && s.charAt(0) == '~') return n(parse(s.substring(1)));
      return new StringValue(s);
    }
    if (e.isJsonArray()) {
      JsonArray a = e.getAsJsonArray();
      Value[] v = new Value[a.size()];
      for (int k = 0; k < v.length; k++) v[k] = conv(a.get(k));
      return new TupleValue(v);
    }
    JsonObject o = e.getAsJsonObject();
    UniqueString[] names = new UniqueString[o.size()];
    Value[] v = new Value[o.size()];
    int k = 0;
    for (Map.Entry<String, JsonElement> en : o.entrySet()) {
      names[k] = UniqueString.uniqueStringOf(en.getKey());
      v[k++] = conv(en.getValue());
    }
    return new RecordValue(names, v, false);
  }
  @TLAPlusOperator(identifier = "NLoad", module = M, warn = false)
  public static Value load(final Value file) throws IOException {
    List<Value> out = new ArrayList<>();
    try (BufferedReader r = new BufferedReader(new InputStreamReader(
        new FileInputStream(((StringValue) file).val.toString()), StandardCharsets.UTF_8))) {
      String line;
      while ((line = r.readLine()) != null) if (!line.isEmpty()) out.add(conv(JsonParser.parseString(line)));
    }
    Value t = new TupleValue(out.toArray(new Value[0]));
    t.deepNormalize();
    return t;
  }
  @TLAPlusOperator(identifier = "NShow", module = M, warn = false)
  public static Value show(final Value a) { return new StringValue(Double.toString(d(a))); }
}
