// TLC module override for Num.tla (big): the same operators on java.math.BigInteger.
// Num.tla stays the definition; tools/numtest compares both with it on random and edge operands.
import java.math.BigInteger;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Num {
  private static final int W = 14;
  private static final TupleValue ZERO = new TupleValue(new Value[0]);

  private static BigInteger in(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    int n = e.length;
    if (n <= 4) {
      long r = 0;
      for (int i = n - 1; i >= 0; i--) r = (r << W) | ((IntValue) e[i]).val;
      return BigInteger.valueOf(r);
    }
    BigInteger r = BigInteger.ZERO;
    for (int i = n - 1; i >= 0; i--) r = r.shiftLeft(W).or(BigInteger.valueOf(((IntValue) e[i]).val));
    return r;
  }

  private static Value out(BigInteger x) {
    int n = (x.bitLength() + W - 1) / W;
    if (n == 0) return ZERO;
    Value[] e = new Value[n];
    BigInteger m = BigInteger.valueOf((1 << W) - 1);
    for (int i = 0; i < n; i++) {
      e[i] = IntValue.gen(x.and(m).intValue());
      x = x.shiftRight(W);
    }
    return new TupleValue(e);
  }

  private static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value NLt(Value a, Value b) { return bool(in(a).compareTo(in(b)) < 0); }
  public static Value NLeq(Value a, Value b) { return bool(in(a).compareTo(in(b)) <= 0); }
  public static Value NMin(Value a, Value b) { return in(a).compareTo(in(b)) <= 0 ? a : b; }
  public static Value NAdd(Value a, Value b) { return out(in(a).add(in(b))); }
  public static Value NSub(Value a, Value b) { return out(in(a).subtract(in(b)).max(BigInteger.ZERO)); }
  public static Value NMul(Value a, Value b) { return out(in(a).multiply(in(b))); }
  public static Value MulFloor(Value b, Value p) { return out(in(b).multiply(in(p)).shiftRight(32)); }
  public static Value MulCeil(Value b, Value p) {
    return out(in(b).multiply(in(p)).negate().shiftRight(32).negate());
  }
  public static Value CapDiv(Value m, Value q, Value p) {
    BigInteger d = in(p);
    if (d.signum() == 0) return m;
    BigInteger x = in(q).shiftLeft(32).divide(d);
    return x.compareTo(in(m)) >= 0 ? m : out(x);
  }
  public static Value Divides(Value t, Value x) { return bool(in(x).mod(in(t)).signum() == 0); }
  public static Value FloorTo(Value t, Value x) {
    BigInteger a = in(x);
    return out(a.subtract(a.mod(in(t))));
  }
  public static Value CeilTo(Value t, Value x) {
    BigInteger a = in(x), r = a.mod(in(t));
    return r.signum() == 0 ? x : out(a.subtract(r).add(in(t)));
  }
}
