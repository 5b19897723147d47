import tlc2.value.impl.*;
import java.util.Arrays;

/** Evaluation of the operators of module FReal. A real is a handle (an integer of TLC) into a table of doubles;
 *  equal doubles have equal handles, so equality of handles is equality of values. */
public class FReal {
  private static double[] val = new double[1 << 20];
  private static int n = 0;
  private static int[] slot = new int[1 << 21];      // open addressing, 0 = empty, else handle+1
  private static int mask = (1 << 21) - 1;
  private static int hash(long b) { b *= 0x9E3779B97F4A7C15L; b ^= b >>> 29; b *= 0xBF58476D1CE4E5B9L; b ^= b >>> 32; return (int) b; }
  static synchronized IntValue mk(double d) {
    if (d == 0) d = 0.0;
    long b = Double.doubleToLongBits(d);
    int h = hash(b) & mask;
    while (slot[h] != 0) {
      if (Double.doubleToLongBits(val[slot[h] - 1]) == b) return IntValue.gen(slot[h] - 1);
      h = (h + 1) & mask;
    }
    if (n == val.length) {
      val = Arrays.copyOf(val, 2 * n);
      mask = 4 * n - 1; slot = new int[4 * n];
      for (int i = 0; i < n; i++) {
        int k = hash(Double.doubleToLongBits(val[i])) & mask;
        while (slot[k] != 0) k = (k + 1) & mask;
        slot[k] = i + 1;
      }
      h = hash(b) & mask;
      while (slot[h] != 0) h = (h + 1) & mask;
    }
    val[n] = d; slot[h] = n + 1;
    return IntValue.gen(n++);
  }
  static double g(Value v) { return val[((IntValue) v).val]; }
  static BoolValue bl(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RInt(final Value a) { return mk(((IntValue) a).val); }
  public static Value RQ(final Value a, final Value b) { return mk(((double) ((IntValue) a).val) / ((IntValue) b).val); }
  public static Value RStr(final Value a) {
    String s = ((StringValue) a).val.toString().trim();
    double d;
    if (s.endsWith("nan")) d = Double.NaN;
    else if (s.equals("inf")) d = Double.POSITIVE_INFINITY;
    else if (s.equals("-inf")) d = Double.NEGATIVE_INFINITY;
    else d = Double.parseDouble(s);
    return mk(d);
  }
  public static Value RToS(final Value a) { return new StringValue(Double.toString(g(a))); }
  public static Value RAdd(final Value a, final Value b) { return mk(g(a) + g(b)); }
  public static Value RSub(final Value a, final Value b) { return mk(g(a) - g(b)); }
  public static Value RMul(final Value a, final Value b) { return mk(g(a) * g(b)); }
  public static Value RDiv(final Value a, final Value b) { return mk(g(a) / g(b)); }
  public static Value RNeg(final Value a) { return mk(-g(a)); }
  public static Value RAbs(final Value a) { return mk(Math.abs(g(a))); }
  public static Value RSqrt(final Value a) { return mk(Math.sqrt(g(a))); }
  public static Value RPow(final Value a, final Value b) { return mk(Math.pow(g(a), g(b))); }
  public static Value RSin(final Value a) { return mk(Math.sin(g(a))); }
  public static Value RCos(final Value a) { return mk(Math.cos(g(a))); }
  public static Value RExp(final Value a) { return mk(Math.exp(g(a))); }
  public static Value RLog(final Value a) { return mk(Math.log(g(a))); }
  public static Value RMax(final Value a, final Value b) { return mk(Math.max(g(a), g(b))); }
  public static Value RMin(final Value a, final Value b) { return mk(Math.min(g(a), g(b))); }
  public static Value RLt(final Value a, final Value b) { return bl(g(a) < g(b)); }
  public static Value RLe(final Value a, final Value b) { return bl(g(a) <= g(b)); }
  public static Value RFin(final Value a) { double d = g(a); return bl(!Double.isNaN(d) && !Double.isInfinite(d)); }
  public static Value RSum(final Value s) {
    TupleValue t = (TupleValue) s.toTuple(); double r = 0;
    for (Value v : t.elems) r += g(v);
    return mk(r);
  }
  public static Value RAbsMax(final Value s) {
    TupleValue t = (TupleValue) s.toTuple(); double r = 0;
    for (Value v : t.elems) { double d = Math.abs(g(v)); if (d > r || Double.isNaN(d)) r = d; }
    return mk(r);
  }
  public static Value RDot(final Value s, final Value q) {
    TupleValue t = (TupleValue) s.toTuple(), u = (TupleValue) q.toTuple(); double r = 0;
    for (int i = 0; i < t.elems.length; i++) r += g(t.elems[i]) * g(u.elems[i]);
    return mk(r);
  }
  /** |a-b| <= tol*scale, false for anything not finite */
  public static Value RNear(final Value a, final Value b, final Value scale, final Value tol) {
    return bl(Math.abs(g(a) - g(b)) <= g(tol) * g(scale));
  }

  private static Value[] el(Value s) { return ((TupleValue) s.toTuple()).elems; }
  public static Value VAdd(final Value s, final Value t) {
    Value[] a = el(s), b = el(t), r = new Value[a.length];
    for (int i = 0; i < r.length; i++) r[i] = mk(g(a[i]) + g(b[i]));
    return new TupleValue(r);
  }
  public static Value VSub(final Value s, final Value t) {
    Value[] a = el(s), b = el(t), r = new Value[a.length];
    for (int i = 0; i < r.length; i++) r[i] = mk(g(a[i]) - g(b[i]));
    return new TupleValue(r);
  }
  public static Value VScale(final Value c, final Value s) {
    Value[] a = el(s), r = new Value[a.length];
    for (int i = 0; i < r.length; i++) r[i] = mk(g(c) * g(a[i]));
    return new TupleValue(r);
  }
  public static Value RStrs(final Value s) {
    Value[] a = el(s), r = new Value[a.length];
    for (int i = 0; i < r.length; i++) r[i] = RStr(a[i]);
    return new TupleValue(r);
  }
  public static Value VNear(final Value s, final Value t, final Value scale, final Value tol) {
    Value[] a = el(s), b = el(t);
    if (a.length != b.length) return BoolValue.ValFalse;
    for (int i = 0; i < a.length; i++)
      if (!(Math.abs(g(a[i]) - g(b[i])) <= g(tol) * g(scale))) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  /** solution of the dense linear system with rows m and right-hand side b (elimination with partial pivoting) */
  public static Value RSolve(final Value m, final Value b) {
    Value[] rows = el(m), rhs = el(b); int n = rhs.length; double[][] a = new double[n][n + 1];
    for (int i = 0; i < n; i++) { Value[] r = el(rows[i]); for (int j = 0; j < n; j++) a[i][j] = g(r[j]); a[i][n] = g(rhs[i]); }
    for (int k = 0; k < n; k++) {
      int p = k;
      for (int i = k + 1; i < n; i++) if (Math.abs(a[i][k]) > Math.abs(a[p][k])) p = i;
      double[] t = a[k]; a[k] = a[p]; a[p] = t;
      for (int i = k + 1; i < n; i++) {
        double q = a[i][k] / a[k][k];
        for (int j = k; j <= n; j++) a[i][j] -= q * a[k][j];
      }
    }
    Value[] x = new Value[n]; double[] y = new double[n];
    for (int k = n - 1; k >= 0; k--) {
      double t = a[k][n];
      for (int j = k + 1; j < n; j++) t -= a[k][j] * y[j];
      y[k] = t / a[k][k]; x[k] = mk(y[k]);
    }
    return new TupleValue(x);
  }
}
