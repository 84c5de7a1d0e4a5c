import tlc2.value.impl.*;

/** Speed overrides for LinAlg.tla; compared with the TLA+ text by LinAlgCheck.tla. */
public class LinAlg {
  interface Op { double f(double a, double b); }
  static Value zip(Value a, Value b, Op o) {
    Value[] x = F64.seq(a), y = F64.seq(b);
    if (x.length > y.length) throw new RuntimeException("LinAlg: size mismatch");
    Value[] r = new Value[x.length];
    for (int i = 0; i < x.length; ++i) r[i] = F64.r(o.f(F64.d(x[i]), F64.d(y[i])));
    return new TupleValue(r);
  }
  public static Value VAdd(Value a, Value b) { return zip(a, b, (x, y) -> x + y); }
  public static Value VSub(Value a, Value b) { return zip(a, b, (x, y) -> x - y); }
  public static Value VMul(Value a, Value b) { return zip(a, b, (x, y) -> x * y); }
  public static Value VDiv(Value a, Value b) { return zip(a, b, (x, y) -> x / y); }
  public static Value VMax(Value a, Value b) { return zip(a, b, Math::max); }
  public static Value VMin(Value a, Value b) { return zip(a, b, Math::min); }
  public static Value VScale(Value k, Value a) {
    double c = F64.d(k);
    Value[] x = F64.seq(a), r = new Value[x.length];
    for (int i = 0; i < x.length; ++i) r[i] = F64.r(c * F64.d(x[i]));
    return new TupleValue(r);
  }
  public static Value VAbs(Value a) {
    Value[] x = F64.seq(a), r = new Value[x.length];
    for (int i = 0; i < x.length; ++i) r[i] = F64.r(Math.abs(F64.d(x[i])));
    return new TupleValue(r);
  }
  static double dot(Value a, Value b) {
    Value[] x = F64.seq(a), y = F64.seq(b);
    double s = 0;
    for (int i = 0; i < x.length; ++i) s += F64.d(x[i]) * F64.d(y[i]);
    return s;
  }
  public static Value Dot(Value a, Value b) { return F64.r(dot(a, b)); }
  public static Value MatVec(Value m, Value v) {
    Value[] rows = F64.seq(m), r = new Value[rows.length];
    for (int i = 0; i < rows.length; ++i) r[i] = F64.r(dot(rows[i], v));
    return new TupleValue(r);
  }
  public static Value MatTVec(Value m, Value v, Value nn) {
    int n = ((IntValue) nn).val;
    Value[] rows = F64.seq(m), x = F64.seq(v);
    double[] s = new double[n];
    for (int i = 0; i < rows.length; ++i) {
      Value[] row = F64.seq(rows[i]);
      double c = F64.d(x[i]);
      for (int j = 0; j < n; ++j) s[j] += F64.d(row[j]) * c;
    }
    Value[] r = new Value[n];
    for (int j = 0; j < n; ++j) r[j] = F64.r(s[j]);
    return new TupleValue(r);
  }
  public static Value NormInf(Value a) {
    double s = 0;
    for (Value e : F64.seq(a)) s = Math.max(s, Math.abs(F64.d(e)));
    return F64.r(s);
  }
  public static Value Norm1(Value a) {
    double s = 0;
    for (Value e : F64.seq(a)) s += Math.abs(F64.d(e));
    return F64.r(s);
  }
  public static Value VZero(Value n) {
    Value[] r = new Value[((IntValue) n).val];
    for (int i = 0; i < r.length; ++i) r[i] = F64.r(0);
    return new TupleValue(r);
  }
  public static Value AllFin(Value a) {
    for (Value e : F64.seq(a)) {
      double x = F64.d(e);
      if (Double.isNaN(x) || Double.isInfinite(x)) return BoolValue.ValFalse;
    }
    return BoolValue.ValTrue;
  }
}
