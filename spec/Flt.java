/* TLC module overrides for Flt.tla: IEEE 754 binary64 with java's double. */
import tlc2.value.impl.*;
import tlc2.tool.EvalControl;
import util.UniqueString;

public class Flt {
  /** A pair <<hi, lo>> that remembers the number it stands for. */
  static final class D extends TupleValue {
    final double v;
    D(double v, long b) { super(IntValue.gen((int) (b >>> 32)), IntValue.gen((int) b)); this.v = v; }
  }
  static final long NANBITS = 0x7ff8000000000000L;
  static Value of(double v) { return new D(v, v != v ? NANBITS : Double.doubleToRawLongBits(v)); }
  static double d(Value x) {
    if (x instanceof D) return ((D) x).v;
    TupleValue t = (TupleValue) x.toTuple();
    int hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
    return Double.longBitsToDouble(((long) hi << 32) | (lo & 0xffffffffL));
  }
  static int i(Value x) { return ((IntValue) x).val; }
  static Value b(boolean v) { return v ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static String s(Value x) { return ((StringValue) x).val.toString(); }
  static TupleValue t(Value x) { return x instanceof TupleValue ? (TupleValue) x : (TupleValue) x.toTuple(); }

  static final java.util.concurrent.ConcurrentHashMap<UniqueString, Value> LITS = new java.util.concurrent.ConcurrentHashMap<>();
  public static Value Lit(Value x) { return LITS.computeIfAbsent(((StringValue) x).val, k -> of(Double.parseDouble(k.toString()))); }
  public static Value OfInt(Value n) { return of(i(n)); }
  static int hex(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
  public static Value Dec(Value h) {
    String x = s(h);
    Value[] r = new Value[x.length() / 16];
    for (int k = 0; k < r.length; k++) {
      long b = 0;
      for (int j = 0; j < 16; j++) b = (b << 4) | hex(x.charAt(16 * k + j));
      double v = Double.longBitsToDouble(b);
      r[k] = of(v);
    }
    return new TupleValue(r);
  }
  public static Value Trunc(Value x) { return IntValue.gen((int) d(x)); }
  static final Value NAN = of(Double.NaN);
  public static Value NaN() { return NAN; }
  static final Value ZERO = of(0.0);
  public static Value Zero() { return ZERO; }

  public static Value Add(Value a, Value b) { return of(d(a) + d(b)); }
  public static Value Sub(Value a, Value b) { return of(d(a) - d(b)); }
  public static Value Mul(Value a, Value b) { return of(d(a) * d(b)); }
  public static Value Div(Value a, Value b) { return of(d(a) / d(b)); }
  public static Value Negate(Value a) { return of(-d(a)); }
  public static Value Abs(Value a) { return of(Math.abs(d(a))); }
  public static Value MaxF(Value a, Value b) { double x = d(a), y = d(b); return y > x ? b : a; }
  public static Value MinF(Value a, Value b) { double x = d(a), y = d(b); return y < x ? b : a; }
  public static Value Single(Value a) { return of((double) (float) d(a)); }
  public static Value Fn(Value n, Value a) {
    double x = d(a);
    switch (s(n)) {
      case "sqrt": return of(Math.sqrt(x));
      case "exp": return of(Math.exp(x));
      case "ln": return of(Math.log(x));
      case "log10": return of(Math.log10(x));
      case "sin": return of(Math.sin(x));
      case "cos": return of(Math.cos(x));
      case "tan": return of(Math.tan(x));
      case "asin": return of(Math.asin(x));
      case "acos": return of(Math.acos(x));
      case "atan": return of(Math.atan(x));
      case "sinh": return of(Math.sinh(x));
      case "cosh": return of(Math.cosh(x));
      case "tanh": return of(Math.tanh(x));
      case "ceil": return of(Math.ceil(x));
      case "floor": return of(Math.floor(x));
      default: throw new RuntimeException("Flt!Fn " + s(n));
    }
  }
  public static Value Lt(Value a, Value b) { return b(d(a) < d(b)); }
  public static Value Le(Value a, Value b) { return b(d(a) <= d(b)); }
  public static Value Gt(Value a, Value b) { return b(d(a) > d(b)); }
  public static Value Ge(Value a, Value b) { return b(d(a) >= d(b)); }
  public static Value Eq(Value a, Value b) { return b(d(a) == d(b)); }
  public static Value IsNaN(Value a) { return b(Double.isNaN(d(a))); }
  public static Value IsFinite(Value a) { return b(!Double.isNaN(d(a)) && !Double.isInfinite(d(a))); }
  static final double[] P10 = new double[31];
  static { double p = 1; for (int k = 0; k < P10.length; k++) { P10[k] = 1 / p; p *= 10; } }
  static boolean near(double x, double y, int k, double s) {
    if (x == y) return true;
    if (x != x || y != y) return x != x && y != y;
    if (Double.isInfinite(x) || Double.isInfinite(y)) return false;
    return Math.abs(x - y) <= P10[k] * Math.max(s, Math.max(Math.abs(x), Math.abs(y)));
  }
  public static Value Near(Value a, Value b, Value k) { return b(near(d(a), d(b), i(k), 1.0)); }
  public static Value NearS(Value a, Value b, Value k, Value s) { return b(near(d(a), d(b), i(k), Math.abs(d(s)))); }
  public static Value Cmp(Value a, Value b, Value k) {
    double x = d(a), y = d(b);
    return IntValue.gen(near(x, y, i(k), 0.0) ? 0 : x < y ? -1 : 1);
  }

  public static Value Scan(Value op, Value base, Value seq) {
    OpValue f = (OpValue) op;
    Value[] e = t(seq).elems;
    Value[] r = new Value[e.length];
    Value acc = base;
    Value[] args = new Value[2];
    for (int k = 0; k < e.length; k++) {
      args[0] = acc; args[1] = e[k];
      acc = f.eval(args, EvalControl.Clear);
      args = new Value[2];
      r[k] = acc;
    }
    return new TupleValue(r);
  }
  public static Value Sum(Value s, Value i, Value j) {
    Value[] e = t(s).elems;
    double a = 0;
    for (int k = i(i); k <= i(j); k++) a += d(e[k - 1]);
    return of(a);
  }
  public static Value MaxOf(Value s, Value i, Value j) {
    Value[] e = t(s).elems;
    Value m = e[i(i) - 1];
    for (int k = i(i) + 1; k <= i(j); k++) if (d(e[k - 1]) > d(m)) m = e[k - 1];
    return m;
  }
  public static Value MinOf(Value s, Value i, Value j) {
    Value[] e = t(s).elems;
    Value m = e[i(i) - 1];
    for (int k = i(i) + 1; k <= i(j); k++) if (d(e[k - 1]) < d(m)) m = e[k - 1];
    return m;
  }
  public static Value Differ(Value a, Value ai, Value b, Value bi, Value n, Value k) {
    Value[] x = t(a).elems, y = t(b).elems;
    int p = i(ai), q = i(bi);
    for (int m = 1; m <= i(n); m++)
      if (p < 0 || q < 0 || p + m > x.length || q + m > y.length
          || !near(d(x[p + m - 1]), d(y[q + m - 1]), i(k), 1.0)) return IntValue.gen(m);
    return IntValue.ValZero;
  }
  public static Value DifferS(Value a, Value ai, Value b, Value bi, Value n, Value k) {
    Value[] x = t(a).elems, y = t(b).elems;
    int p = i(ai), q = i(bi);
    double s = 1;
    for (int m = 1; m <= i(n) && q + m <= y.length; m++) s = Math.max(s, Math.abs(d(y[q + m - 1])));
    for (int m = 1; m <= i(n); m++)
      if (p < 0 || q < 0 || p + m > x.length || q + m > y.length
          || !near(d(x[p + m - 1]), d(y[q + m - 1]), i(k), s)) return IntValue.gen(m);
    return IntValue.ValZero;
  }
  public static Value Tabulate(Value n, Value op) {
    OpValue f = (OpValue) op;
    int len = Math.max(0, i(n));
    Value[] r = new Value[len];
    for (int k = 0; k < len; k++) r[k] = f.eval(new Value[] {IntValue.gen(k + 1)}, EvalControl.Clear);
    return new TupleValue(r);
  }
  public static Value Deviates(Value a, Value b, Value k) {
    Value[] x = t(a).elems, y = t(b).elems;
    for (int m = 0; m < y.length; m++) {
      double v = d(y[m]);
      if (v == v && (m >= x.length || !near(d(x[m]), v, i(k), 1.0))) return IntValue.gen(m + 1);
    }
    return IntValue.ValZero;
  }
}
