// TLC module override for Reals.tla: IEEE double arithmetic on <<hi,lo>> bit pairs.
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

public class RealOverrides implements ITLCOverrides {
  @Override public Class[] get() { return new Class[] { RealOverrides.class }; }

  static double d(final Value v) {
    final TupleValue t = (TupleValue) v.toTuple();
    final int hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
    return Double.longBitsToDouble(((long) hi << 32) | (lo & 0xffffffffL));
  }
  static Value r(double x) {
    if (x == 0.0) x = 0.0;
    final long b = Double.doubleToLongBits(x);
    return new TupleValue(new Value[] { IntValue.gen((int) (b >> 32)), IntValue.gen((int) b) });
  }
  static double[] vec(final Value v) {
    final TupleValue t = (TupleValue) v.toTuple();
    final double[] x = new double[t.elems.length];
    for (int i = 0; i < x.length; i++) x[i] = d(t.elems[i]);
    return x;
  }
  static Value vec(final double[] x) {
    final Value[] e = new Value[x.length];
    for (int i = 0; i < x.length; i++) e[i] = r(x[i]);
    return new TupleValue(e);
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int i(final Value v) { return ((IntValue) v).val; }

  @TLAPlusOperator(identifier = "RI", module = "RealArith", warn = false)
  public static Value RI(final Value n) { return r(i(n)); }
  @TLAPlusOperator(identifier = "RQ", module = "RealArith", warn = false)
  public static Value RQ(final Value p, final Value q) { return r((double) i(p) / (double) i(q)); }
  @TLAPlusOperator(identifier = "RParse", module = "RealArith", warn = false)
  public static Value RParse(final Value s) { return r(Double.parseDouble(((StringValue) s).val.toString())); }
  @TLAPlusOperator(identifier = "RStr", module = "RealArith", warn = false)
  public static Value RStr(final Value x) { return new StringValue(String.format("%.9g", d(x))); }
  @TLAPlusOperator(identifier = "VStr", module = "RealArith", warn = false)
  public static Value VStr(final Value x) {
    final StringBuilder s = new StringBuilder("[");
    for (double y : vec(x)) s.append(String.format("%.9g ", y));
    return new StringValue(s.append("]").toString());
  }
  @TLAPlusOperator(identifier = "RAdd", module = "RealArith", warn = false)
  public static Value RAdd(final Value x, final Value y) { return r(d(x) + d(y)); }
  @TLAPlusOperator(identifier = "RSub", module = "RealArith", warn = false)
  public static Value RSub(final Value x, final Value y) { return r(d(x) - d(y)); }
  @TLAPlusOperator(identifier = "RMul", module = "RealArith", warn = false)
  public static Value RMul(final Value x, final Value y) { return r(d(x) * d(y)); }
  @TLAPlusOperator(identifier = "RDiv", module = "RealArith", warn = false)
  public static Value RDiv(final Value x, final Value y) { return r(d(x) / d(y)); }
  @TLAPlusOperator(identifier = "RNeg", module = "RealArith", warn = false)
  public static Value RNeg(final Value x) { return r(-d(x)); }
  @TLAPlusOperator(identifier = "RAbs", module = "RealArith", warn = false)
  public static Value RAbs(final Value x) { return r(Math.abs(d(x))); }
  @TLAPlusOperator(identifier = "RSqrt", module = "RealArith", warn = false)
  public static Value RSqrt(final Value x) { return r(Math.sqrt(d(x))); }
  @TLAPlusOperator(identifier = "RLn", module = "RealArith", warn = false)
  public static Value RLn(final Value x) { return r(Math.log(d(x))); }
  @TLAPlusOperator(identifier = "RExp", module = "RealArith", warn = false)
  public static Value RExp(final Value x) { return r(Math.exp(d(x))); }
  @TLAPlusOperator(identifier = "RCos", module = "RealArith", warn = false)
  public static Value RCos(final Value x) { return r(Math.cos(d(x))); }
  @TLAPlusOperator(identifier = "RSin", module = "RealArith", warn = false)
  public static Value RSin(final Value x) { return r(Math.sin(d(x))); }
  @TLAPlusOperator(identifier = "RPow", module = "RealArith", warn = false)
  public static Value RPow(final Value x, final Value y) { return r(Math.pow(d(x), d(y))); }
  @TLAPlusOperator(identifier = "RMax", module = "RealArith", warn = false)
  public static Value RMax(final Value x, final Value y) { return r(Math.max(d(x), d(y))); }
  @TLAPlusOperator(identifier = "RMin", module = "RealArith", warn = false)
  public static Value RMin(final Value x, final Value y) { return r(Math.min(d(x), d(y))); }
  // NaN on either side makes every comparison FALSE.
  @TLAPlusOperator(identifier = "RLeq", module = "RealArith", warn = false)
  public static Value RLeq(final Value x, final Value y) { return b(d(x) <= d(y)); }
  @TLAPlusOperator(identifier = "RLt", module = "RealArith", warn = false)
  public static Value RLt(final Value x, final Value y) { return b(d(x) < d(y)); }
  @TLAPlusOperator(identifier = "RFinite", module = "RealArith", warn = false)
  public static Value RFinite(final Value x) { final double y = d(x); return b(!Double.isNaN(y) && !Double.isInfinite(y)); }

  @TLAPlusOperator(identifier = "VAdd", module = "RealArith", warn = false)
  public static Value VAdd(final Value x, final Value y) { final double[] a = vec(x), c = vec(y); same(a, c); for (int k = 0; k < a.length; k++) a[k] += c[k]; return vec(a); }
  @TLAPlusOperator(identifier = "VSub", module = "RealArith", warn = false)
  public static Value VSub(final Value x, final Value y) { final double[] a = vec(x), c = vec(y); same(a, c); for (int k = 0; k < a.length; k++) a[k] -= c[k]; return vec(a); }
  @TLAPlusOperator(identifier = "VScale", module = "RealArith", warn = false)
  public static Value VScale(final Value s, final Value x) { final double[] a = vec(x); final double f = d(s); for (int k = 0; k < a.length; k++) a[k] *= f; return vec(a); }
  @TLAPlusOperator(identifier = "VDot", module = "RealArith", warn = false)
  public static Value VDot(final Value x, final Value y) { final double[] a = vec(x), c = vec(y); same(a, c); double s = 0; for (int k = 0; k < a.length; k++) s += a[k] * c[k]; return r(s); }
  @TLAPlusOperator(identifier = "VSum", module = "RealArith", warn = false)
  public static Value VSum(final Value x) { double s = 0; for (double y : vec(x)) s += y; return r(s); }
  @TLAPlusOperator(identifier = "VMaxAbs", module = "RealArith", warn = false)
  public static Value VMaxAbs(final Value x) { double s = 0; for (double y : vec(x)) { if (Double.isNaN(y)) return r(y); s = Math.max(s, Math.abs(y)); } return r(s); }
  @TLAPlusOperator(identifier = "VFinite", module = "RealArith", warn = false)
  public static Value VFinite(final Value x) { for (double y : vec(x)) if (Double.isNaN(y) || Double.isInfinite(y)) return b(false); return b(true); }
  /** max |x-y| <= tol * max(scale, max|x|, max|y|); FALSE on NaN or different lengths */
  @TLAPlusOperator(identifier = "VClose", module = "RealArith", warn = false)
  public static Value VClose(final Value x, final Value y, final Value scale, final Value tol) {
    final double[] a = vec(x), c = vec(y);
    if (a.length != c.length) return b(false);
    double s = d(scale); final double t = d(tol);
    for (int k = 0; k < a.length; k++) s = Math.max(s, Math.max(Math.abs(a[k]), Math.abs(c[k])));
    for (int k = 0; k < a.length; k++) if (!(Math.abs(a[k] - c[k]) <= t * s)) return b(false);
    return b(true);
  }
  /** index of the only entry of u within tol of x; 0: there is none, -1: there are several */
  @TLAPlusOperator(identifier = "VFind", module = "RealArith", warn = false)
  public static Value VFind(final Value u, final Value x, final Value tol) {
    final double[] a = vec(u); final double y = d(x), t = d(tol); int r = 0;
    for (int k = 0; k < a.length; k++) if (Math.abs(a[k] - y) <= t) { if (r != 0) return IntValue.gen(-1); r = k + 1; }
    return IntValue.gen(r);
  }
  @TLAPlusOperator(identifier = "VDist", module = "RealArith", warn = false)
  public static Value VDist(final Value x, final Value y) {
    final double[] a = vec(x), c = vec(y);
    if (a.length != c.length) return r(Double.NaN);
    double m = 0;
    for (int k = 0; k < a.length; k++) { final double e = Math.abs(a[k] - c[k]); if (Double.isNaN(e)) return r(e); m = Math.max(m, e); }
    return r(m);
  }
  static void same(double[] a, double[] c) { if (a.length != c.length) throw new RuntimeException("Reals: vectors of different length " + a.length + " / " + c.length); }
}
