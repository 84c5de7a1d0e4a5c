import tlc2.value.impl.*;
import util.UniqueString;

/** IEEE-754 arithmetic for the TLA+ module F64 (see F64.tla). */
public class F64 {
  static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      if (s.length() != 16) throw new RuntimeException("F64: not a double: " + s);
      return Double.longBitsToDouble(Long.parseUnsignedLong(s, 16));
    }
    if (v instanceof TupleValue) {
      TupleValue t = (TupleValue) v;
      if (t.elems.length == 2)
        return Double.longBitsToDouble(
            (((long) ((IntValue) t.elems[0]).val) << 32)
                | (((long) ((IntValue) t.elems[1]).val) & 0xffffffffL));
    }
    throw new RuntimeException("F64: not a number: " + v);
  }
  static Value r(double x) {
    long b = Double.doubleToLongBits(x);
    return new TupleValue(new Value[] {IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] seq(Value s) {
    Value t = s.toTuple();
    if (t == null) throw new RuntimeException("F64: not a sequence: " + s);
    return ((TupleValue) t).elems;
  }
  public static Value FAdd(Value a, Value c) { return r(d(a) + d(c)); }
  public static Value FSub(Value a, Value c) { return r(d(a) - d(c)); }
  public static Value FMul(Value a, Value c) { return r(d(a) * d(c)); }
  public static Value FDiv(Value a, Value c) { return r(d(a) / d(c)); }
  public static Value FNeg(Value a) { return r(-d(a)); }
  public static Value FAbs(Value a) { return r(Math.abs(d(a))); }
  public static Value FMax(Value a, Value c) { return r(Math.max(d(a), d(c))); }
  public static Value FMin(Value a, Value c) { return r(Math.min(d(a), d(c))); }
  public static Value FSqrt(Value a) { return r(Math.sqrt(d(a))); }
  public static Value FLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value FLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value FEq(Value a, Value c) { return b(d(a) == d(c)); }
  public static Value FSame(Value a, Value c) {
    double x = d(a), y = d(c);
    return b(x == y || (Double.isNaN(x) && Double.isNaN(y)));
  }
  public static Value FIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  public static Value FIsFin(Value a) {
    double x = d(a);
    return b(!Double.isNaN(x) && !Double.isInfinite(x));
  }
  public static Value FPow10(Value k) {
    return r(Double.parseDouble("1e" + ((IntValue) k).val));
  }
  public static Value FInf() { return r(Double.POSITIVE_INFINITY); }
  public static Value FNaN() { return r(Double.NaN); }
  public static Value FFloor(Value a) { return r(Math.floor(d(a))); }
  public static Value FSum(Value s) {
    double x = 0;
    for (Value e : seq(s)) x += d(e);
    return r(x);
  }
  public static Value FMaxSeq(Value s) {
    double x = 0;
    for (Value e : seq(s)) x = Math.max(x, d(e));
    return r(x);
  }
  public static Value FBits(Value a) {
    return new StringValue(String.format("%016x", Double.doubleToLongBits(d(a))));
  }
  public static Value FShow(Value a) {
    return new StringValue(UniqueString.uniqueStringOf(Double.toString(d(a))));
  }
}
