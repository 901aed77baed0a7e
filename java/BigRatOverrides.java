package vf;
import java.math.BigInteger;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Evaluates the R... operators of BigRat.tla with BigInteger. */
public class BigRatOverrides implements tlc2.overrides.ITLCOverrides {
  @Override public Class[] get() { return new Class[] { BigRatOverrides.class }; }

  static final BigInteger BASE = BigInteger.valueOf(10000);

  static Value[] elems(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("BigRat: not a tuple: " + v);
    return ((TupleValue) t).elems;
  }
  static int sgn(Value[] r) { return ((IntValue) r[0]).val; }
  static BigInteger nat(Value v) {
    Value[] e = elems(v);
    if (e.length == 0) return BigInteger.ZERO;
    if (e.length == 1) return BigInteger.valueOf(((IntValue) e[0]).val);
    // assemble 4 limbs at a time
    BigInteger acc = BigInteger.ZERO;
    int i = e.length;
    while (i > 0) {
      int lo = Math.max(0, i - 4);
      long chunk = 0, mul = 1;
      for (int j = i - 1; j >= lo; j--) { chunk = chunk * 10000L + ((IntValue) e[j]).val; mul *= 10000L; }
      acc = acc.multiply(BigInteger.valueOf(mul)).add(BigInteger.valueOf(chunk));
      i = lo;
    }
    return acc;
  }
  static final BigInteger BIG = BigInteger.valueOf(1_0000_0000_0000_0000L);
  static TupleValue limbs(BigInteger b) {
    java.util.ArrayList<Value> out = new java.util.ArrayList<>();
    while (b.signum() != 0) {
      BigInteger[] qr = b.divideAndRemainder(BIG);
      long c = qr[1].longValueExact();
      b = qr[0];
      for (int k = 0; k < 4; k++) {
        if (b.signum() == 0 && c == 0) break;
        out.add(IntValue.gen((int) (c % 10000))); c /= 10000;
      }
    }
    return new TupleValue(out.toArray(new Value[0]));
  }
  static TupleValue special(int s) {
    return new TupleValue(new Value[] { IntValue.gen(s), new TupleValue(new Value[0]), new TupleValue(new Value[0]) });
  }
  static TupleValue make(BigInteger n, BigInteger d) { // d > 0
    int s = n.signum();
    if (s == 0) return new TupleValue(new Value[] { IntValue.gen(0), new TupleValue(new Value[0]),
        new TupleValue(new Value[] { IntValue.gen(1) }) });
    BigInteger m = n.abs();
    BigInteger g = m.gcd(d);
    if (!g.equals(BigInteger.ONE)) { m = m.divide(g); d = d.divide(g); }
    return new TupleValue(new Value[] { IntValue.gen(s), limbs(m), limbs(d) });
  }
  static boolean fin(int s) { return s >= -1 && s <= 1; }
  static BigInteger num(Value[] r) { BigInteger n = nat(r[1]); return sgn(r) < 0 ? n.negate() : n; }

  @TLAPlusOperator(identifier = "RAdd", module = "BigRat", warn = false)
  public static Value RAdd(Value a, Value b) {
    Value[] x = elems(a), y = elems(b);
    if (!fin(sgn(x)) || !fin(sgn(y))) return special(3);
    if (sgn(x) == 0) return b;
    if (sgn(y) == 0) return a;
    BigInteger dx = nat(x[2]), dy = nat(y[2]);
    return make(num(x).multiply(dy).add(num(y).multiply(dx)), dx.multiply(dy));
  }
  @TLAPlusOperator(identifier = "RMul", module = "BigRat", warn = false)
  public static Value RMul(Value a, Value b) {
    Value[] x = elems(a), y = elems(b);
    if (!fin(sgn(x)) || !fin(sgn(y))) return special(3);
    return make(num(x).multiply(num(y)), nat(x[2]).multiply(nat(y[2])));
  }
  @TLAPlusOperator(identifier = "RDiv", module = "BigRat", warn = false)
  public static Value RDiv(Value a, Value b) {
    Value[] x = elems(a), y = elems(b);
    if (!fin(sgn(x)) || !fin(sgn(y)) || sgn(y) == 0) return special(3);
    BigInteger n = num(x).multiply(nat(y[2])), d = nat(x[2]).multiply(nat(y[1]));
    if (sgn(y) < 0) n = n.negate();
    return make(n, d);
  }
  @TLAPlusOperator(identifier = "RCmp", module = "BigRat", warn = false)
  public static Value RCmp(Value a, Value b) {
    Value[] x = elems(a), y = elems(b);
    int sx = sgn(x), sy = sgn(y);
    if (Math.abs(sx) == 2 || Math.abs(sy) == 2) {
      if (sx == sy) return IntValue.gen(0);
      return IntValue.gen(sx == 2 || sy == -2 ? 1 : -1);
    }
    if (sx != sy) return IntValue.gen(sx < sy ? -1 : 1);
    int c = nat(x[1]).multiply(nat(y[2])).compareTo(nat(y[1]).multiply(nat(x[2])));
    return IntValue.gen(sx * c);
  }
  @TLAPlusOperator(identifier = "RFloorPos", module = "BigRat", warn = false)
  public static Value RFloorPos(Value a) {
    Value[] x = elems(a);
    return make(num(x).divide(nat(x[2])), BigInteger.ONE);
  }
}
