import tlc2.value.impl.*;
import tlc2.value.IValue;
import util.UniqueString;

/** IEEE double arithmetic on decimal strings: TLC override of module F64. */
public class F64 {
  private static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      if (s.equals("nan")) return Double.NaN;
      if (s.equals("inf")) return Double.POSITIVE_INFINITY;
      if (s.equals("-inf")) return Double.NEGATIVE_INFINITY;
      return Double.parseDouble(s);
    }
    throw new RuntimeException("F64: not a number: " + v);
  }
  private static Value r(double x) {
    if (Double.isNaN(x)) return new StringValue("nan");
    if (x == Double.POSITIVE_INFINITY) return new StringValue("inf");
    if (x == Double.NEGATIVE_INFINITY) return new StringValue("-inf");
    return new StringValue(Double.toString(x));
  }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static Value[] el(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("F64: not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  private static double[] vec(Value v) {
    Value[] e = el(v); double[] x = new double[e.length];
    for (int i = 0; i < x.length; i++) x[i] = d(e[i]);
    return x;
  }
  private static double[][] mat(Value v) {
    Value[] e = el(v); double[][] x = new double[e.length][];
    for (int i = 0; i < x.length; i++) x[i] = vec(e[i]);
    return x;
  }
  private static Value rv(double[] x) {
    Value[] e = new Value[x.length];
    for (int i = 0; i < e.length; i++) e[i] = r(x[i]);
    return new TupleValue(e);
  }
  private static Value rm(double[][] x) {
    Value[] e = new Value[x.length];
    for (int i = 0; i < e.length; i++) e[i] = rv(x[i]);
    return new TupleValue(e);
  }
  public static Value FNum(Value x) { return r(d(x)); }
  public static Value FAdd(Value x, Value y) { return r(d(x) + d(y)); }
  public static Value FSub(Value x, Value y) { return r(d(x) - d(y)); }
  public static Value FMul(Value x, Value y) { return r(d(x) * d(y)); }
  public static Value FDiv(Value x, Value y) { return r(d(x) / d(y)); }
  public static Value FNeg(Value x) { return r(-d(x)); }
  public static Value FAbs(Value x) { return r(Math.abs(d(x))); }
  public static Value FMax(Value x, Value y) { return r(Math.max(d(x), d(y))); }
  public static Value FMin(Value x, Value y) { return r(Math.min(d(x), d(y))); }
  public static Value FPow(Value x, Value y) { return r(Math.pow(d(x), d(y))); }
  public static Value FLog(Value x) { return r(Math.log(d(x))); }
  public static Value FLog1p(Value x) { return r(Math.log1p(d(x))); }
  public static Value FExp(Value x) { return r(Math.exp(d(x))); }
  public static Value FSqrt(Value x) { return r(Math.sqrt(d(x))); }
  public static Value FLGamma(Value x) { return r(lgamma(d(x))); }
  public static Value FDigamma(Value x) { return r(digamma(d(x))); }
  public static Value FBetaCdf(Value x, Value a, Value bb) { return r(betacdf(d(x), d(a), d(bb))); }
  public static Value FNormCdf(Value x) { return r(normcdf(d(x))); }
  public static Value FXlogY(Value x, Value y) { return d(x) == 0 ? r(0) : r(d(x) * Math.log(d(y))); }
  public static Value FLt(Value x, Value y) { return b(d(x) < d(y)); }
  public static Value FLe(Value x, Value y) { return b(d(x) <= d(y)); }
  public static Value FEq(Value x, Value y) { return b(d(x) == d(y)); }
  public static Value FFin(Value x) { double v = d(x); return b(!Double.isNaN(v) && !Double.isInfinite(v)); }
  private static boolean close(double x, double y, double rt, double at) {
    if (x == y) return true;
    if (Double.isNaN(x) || Double.isNaN(y) || Double.isInfinite(x) || Double.isInfinite(y)) return false;
    return Math.abs(x - y) <= at + rt * Math.max(Math.abs(x), Math.abs(y));
  }
  public static Value FClose(Value x, Value y, Value rt, Value at) { return b(close(d(x), d(y), d(rt), d(at))); }
  public static Value FRound(Value x) {
    double v = Math.rint(d(x));
    if (!(Math.abs(v) < 2e9)) return IntValue.gen(Integer.MIN_VALUE);
    return IntValue.gen((int) v);
  }
  public static Value FSum(Value s) { double t = 0, c = 0; for (double x : vec(s)) {
      double n = t + x; if (!Double.isInfinite(n) && !Double.isNaN(n)) c += Math.abs(t) >= Math.abs(x) ? (t - n) + x : (x - n) + t; t = n; }
    return r(t + c); }
  public static Value FDot(Value s, Value t) { double[] x = vec(s), y = vec(t); double z = 0;
    if (x.length != y.length) return r(Double.NaN);
    for (int i = 0; i < x.length; i++) z += x[i] * y[i]; return r(z); }
  public static Value FMaxS(Value s) { double m = Double.NEGATIVE_INFINITY; for (double x : vec(s)) m = Math.max(m, x); return r(m); }
  public static Value FMinS(Value s) { double m = Double.POSITIVE_INFINITY; for (double x : vec(s)) m = Math.min(m, x); return r(m); }
  public static Value FLogSumExp(Value s) { double m = Double.NEGATIVE_INFINITY; double[] x = vec(s);
    for (double v : x) m = Math.max(m, v); if (Double.isInfinite(m)) return r(m);
    double t = 0; for (double v : x) t += Math.exp(v - m); return r(m + Math.log(t)); }
  public static Value FArgMax(Value s) { double[] x = vec(s); int k = 0; for (int i = 1; i < x.length; i++) if (x[i] > x[k]) k = i; return IntValue.gen(k + 1); }
  public static Value FCumSum(Value s) { double[] x = vec(s); double t = 0; for (int i = 0; i < x.length; i++) { t += x[i]; x[i] = t; } return rv(x); }
  public static Value Force(Value s) { Value[] e = el(s); for (int i = 0; i < e.length; i++) if (e[i] instanceof FcnLambdaValue || e[i] instanceof FcnRcdValue) { Value t = e[i].toTuple(); if (t != null) e[i] = t; } return new TupleValue(e); }
  public static Value VAdd(Value s, Value t) { double[] x = vec(s), y = vec(t); for (int i = 0; i < x.length; i++) x[i] += y[i]; return rv(x); }
  public static Value VSub(Value s, Value t) { double[] x = vec(s), y = vec(t); for (int i = 0; i < x.length; i++) x[i] -= y[i]; return rv(x); }
  public static Value VScale(Value c, Value s) { double[] x = vec(s); double k = d(c); for (int i = 0; i < x.length; i++) x[i] *= k; return rv(x); }
  public static Value MAdd(Value a, Value bb) { double[][] x = mat(a), y = mat(bb); for (int i = 0; i < x.length; i++) for (int j = 0; j < x[i].length; j++) x[i][j] += y[i][j]; return rm(x); }
  public static Value MScale(Value c, Value a) { double[][] x = mat(a); double k = d(c); for (double[] q : x) for (int j = 0; j < q.length; j++) q[j] *= k; return rm(x); }
  public static Value MOuter(Value s, Value t) { double[] x = vec(s), y = vec(t); double[][] z = new double[x.length][y.length]; for (int i = 0; i < x.length; i++) for (int j = 0; j < y.length; j++) z[i][j] = x[i] * y[j]; return rm(z); }
  public static Value MVec(Value a, Value s) { double[][] m = mat(a); double[] x = vec(s), z = new double[m.length]; for (int i = 0; i < z.length; i++) for (int j = 0; j < x.length; j++) z[i] += m[i][j] * x[j]; return rv(z); }
  /** LU with partial pivoting: returns {det sign, log|det|}, fills inv when not null. */
  private static double[] lu(double[][] a0, double[][] inv) {
    int n = a0.length; double[][] a = new double[n][]; for (int i = 0; i < n; i++) a[i] = a0[i].clone();
    if (inv != null) for (int i = 0; i < n; i++) { inv[i] = new double[n]; inv[i][i] = 1; }
    double sg = 1, ld = 0;
    for (int k = 0; k < n; k++) {
      int p = k; for (int i = k + 1; i < n; i++) if (Math.abs(a[i][k]) > Math.abs(a[p][k])) p = i;
      if (p != k) { double[] t = a[p]; a[p] = a[k]; a[k] = t; sg = -sg; if (inv != null) { t = inv[p]; inv[p] = inv[k]; inv[k] = t; } }
      double v = a[k][k]; if (v == 0) return new double[]{0, Double.NEGATIVE_INFINITY};
      if (v < 0) sg = -sg; ld += Math.log(Math.abs(v));
      for (int i = 0; i < n; i++) { if (i == k || (inv == null && i < k)) continue; double f = a[i][k] / v; if (f == 0) continue;
        for (int j = k; j < n; j++) a[i][j] -= f * a[k][j]; if (inv != null) for (int j = 0; j < n; j++) inv[i][j] -= f * inv[k][j]; }
    }
    if (inv != null) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) inv[i][j] /= a[i][i];
    return new double[]{sg, ld};
  }
  public static Value MInv(Value a) { double[][] m = mat(a), v = new double[m.length][]; double[] q = lu(m, v);
    if (q[0] == 0) for (double[] w : v) java.util.Arrays.fill(w, Double.NaN); return rm(v); }
  public static Value MDet(Value a) { double[] q = lu(mat(a), null); return r(q[0] * Math.exp(q[1])); }
  public static Value MLogDet(Value a) { return r(lu(mat(a), null)[1]); }
  public static Value MTraceMul(Value a, Value bb) { double[][] x = mat(a), y = mat(bb); double t = 0; for (int i = 0; i < x.length; i++) for (int j = 0; j < y.length; j++) t += x[i][j] * y[j][i]; return r(t); }
  public static Value MQuad(Value s, Value a) { double[] x = vec(s); double[][] m = mat(a); double t = 0; for (int i = 0; i < x.length; i++) for (int j = 0; j < x.length; j++) t += x[i] * m[i][j] * x[j]; return r(t); }
  public static Value MPosDef(Value a) { double[][] m = mat(a); int n = m.length; double mx = 0;
    for (int i = 0; i < n; i++) { if (m[i].length != n) return b(false); for (int j = 0; j < n; j++) { if (Double.isNaN(m[i][j]) || Double.isInfinite(m[i][j])) return b(false); mx = Math.max(mx, Math.abs(m[i][j])); } }
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (Math.abs(m[i][j] - m[j][i]) > 1e-8 * mx) return b(false);
    double[][] l = new double[n][n];
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { double t = m[i][j]; for (int k = 0; k < j; k++) t -= l[i][k] * l[j][k];
      if (i == j) { if (!(t > 0)) return b(false); l[i][i] = Math.sqrt(t); } else l[i][j] = t / l[j][j]; }
    return b(true); }
  public static Value VClose(Value s, Value t, Value rt, Value at) { double[] x = vec(s), y = vec(t); if (x.length != y.length) return b(false);
    double m = 0; for (int i = 0; i < x.length; i++) if (!Double.isInfinite(x[i]) && !Double.isInfinite(y[i])) m = Math.max(m, Math.max(Math.abs(x[i]), Math.abs(y[i])));
    for (int i = 0; i < x.length; i++) if (!close(x[i], y[i], 0, d(at) + d(rt) * m)) return b(false); return b(true); }
  public static Value MClose(Value s, Value t, Value rt, Value at) { double[][] x = mat(s), y = mat(t); if (x.length != y.length) return b(false);
    double m = 0; for (int i = 0; i < x.length; i++) { if (x[i].length != y[i].length) return b(false); for (int j = 0; j < x[i].length; j++) m = Math.max(m, Math.max(Math.abs(x[i][j]), Math.abs(y[i][j]))); }
    if (Double.isNaN(m) || Double.isInfinite(m)) return b(false);
    for (int i = 0; i < x.length; i++) for (int j = 0; j < x[i].length; j++) if (!close(x[i][j], y[i][j], 0, d(at) + d(rt) * m)) return b(false); return b(true); }
  public static Value MSub(Value a, Value idx) { double[][] m = mat(a); double[] q = vec(idx); double[][] z = new double[q.length][q.length]; for (int i = 0; i < q.length; i++) for (int j = 0; j < q.length; j++) z[i][j] = m[(int) q[i] - 1][(int) q[j] - 1]; return rm(z); }
  private static double[][] chol(double[][] m) { int n = m.length; double[][] l = new double[n][n];
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { double t = m[i][j]; for (int k = 0; k < j; k++) t -= l[i][k] * l[j][k];
      if (i == j) l[i][i] = Math.sqrt(t); else l[i][j] = t / l[j][j]; } return l; }
  public static Value MChol(Value a) { return rm(chol(mat(a))); }
  public static Value MMul(Value a, Value bb) { double[][] x = mat(a), y = mat(bb), z = new double[x.length][y[0].length];
    for (int i = 0; i < x.length; i++) for (int j = 0; j < z[i].length; j++) for (int k = 0; k < y.length; k++) z[i][j] += x[i][k] * y[k][j]; return rm(z); }
  public static Value MT(Value a) { double[][] x = mat(a), z = new double[x[0].length][x.length]; for (int i = 0; i < x.length; i++) for (int j = 0; j < z.length; j++) z[j][i] = x[i][j]; return rm(z); }
  private static double[] fwd(double[][] l, double[] s) { double[] x = s.clone(); for (int i = 0; i < x.length; i++) { for (int k = 0; k < i; k++) x[i] -= l[i][k] * x[k]; x[i] /= l[i][i]; } return x; }
  public static Value VFwd(Value a, Value s) { return rv(fwd(mat(a), vec(s))); }
  public static Value MVNS(Value x, Value mu, Value sg) { double[] a = vec(x), m = vec(mu); double[][] l = chol(mat(sg)); double ld = 0;
    for (int i = 0; i < a.length; i++) { a[i] -= m[i]; ld += Math.log(l[i][i]); } double q = 0; for (double z : fwd(l, a)) q += z * z;
    return r(-0.5 * (a.length * 1.8378770664093453 + q) - ld); }
  public static Value SortS(Value s) { double[] x = vec(s); java.util.Arrays.sort(x); return rv(x); }

  static double lgamma(double x) {
    if (Double.isNaN(x)) return x;
    if (x <= 0) { if (x == Math.rint(x)) return Double.POSITIVE_INFINITY; return Math.log(Math.PI / Math.abs(Math.sin(Math.PI * x))) - lgamma(1 - x); }
    if (Double.isInfinite(x)) return x;
    if (x == 1 || x == 2) return 0;
    double sh = 0; while (x < 15) { sh -= Math.log(x); x += 1; if (sh < -1e300) break; }
    double z = 1 / (x * x);
    double s = (1.0/12 - z*(1.0/360 - z*(1.0/1260 - z*(1.0/1680 - z*(1.0/1188 - z*(691.0/360360 - z*(1.0/156 - z*3617.0/122400)))))))/x;
    return sh + (x - 0.5) * Math.log(x) - x + 0.91893853320467274178 + s;
  }
  static double digamma(double x) {
    if (Double.isNaN(x)) return x;
    if (x <= 0) { if (x == Math.rint(x)) return x == 0 ? Double.NEGATIVE_INFINITY : Double.NaN; return digamma(1 - x) - Math.PI / Math.tan(Math.PI * x); }
    double s = 0; while (x < 15) { s -= 1 / x; x += 1; }
    double z = 1 / (x * x);
    return s + Math.log(x) - 0.5 / x - z*(1.0/12 - z*(1.0/120 - z*(1.0/252 - z*(1.0/240 - z*(1.0/132 - z*(691.0/32760 - z/12))))));
  }
  static double betacdf(double x, double a, double b) {
    if (x <= 0) return 0; if (x >= 1) return 1;
    double bt = Math.exp(lgamma(a + b) - lgamma(a) - lgamma(b) + a * Math.log(x) + b * Math.log1p(-x));
    return x < (a + 1) / (a + b + 2) ? bt * cf(x, a, b) / a : 1 - bt * cf(1 - x, b, a) / b;
  }
  private static double cf(double x, double a, double b) {
    double qab = a + b, qap = a + 1, qam = a - 1, c = 1, dd = 1 - qab * x / qap, tiny = 1e-300;
    if (Math.abs(dd) < tiny) dd = tiny; dd = 1 / dd; double h = dd;
    for (int m = 1; m < 1000; m++) { int m2 = 2 * m; double aa = m * (b - m) * x / ((qam + m2) * (a + m2));
      dd = 1 + aa * dd; if (Math.abs(dd) < tiny) dd = tiny; c = 1 + aa / c; if (Math.abs(c) < tiny) c = tiny; dd = 1 / dd; h *= dd * c;
      aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2));
      dd = 1 + aa * dd; if (Math.abs(dd) < tiny) dd = tiny; c = 1 + aa / c; if (Math.abs(c) < tiny) c = tiny; dd = 1 / dd; double del = dd * c; h *= del;
      if (Math.abs(del - 1) < 1e-15) break; }
    return h;
  }
  static double normcdf(double x) {
    double z = Math.abs(x) / Math.sqrt(2), t = 1 / (1 + 0.5 * z);
    double e = t * Math.exp(-z * z - 1.26551223 + t*(1.00002368 + t*(0.37409196 + t*(0.09678418 + t*(-0.18628806 + t*(0.27886807 + t*(-1.13520398 + t*(1.48851587 + t*(-0.82215223 + t*0.17087277)))))))));
    return x >= 0 ? 1 - 0.5 * e : 0.5 * e;
  }
}
