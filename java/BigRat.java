/* Java override of the TLA+ module BigRat (spec/BigRat.tla): exact rational
 * arithmetic on canonical decimal strings "n" or "n/d".  MC_BigRat.tla checks
 * these operators against plain TLA+ definitions over small integers. */
import java.math.BigInteger;
import java.util.Arrays;
import tlc2.value.impl.*;

public class BigRat {
    static final BigInteger Z = BigInteger.ZERO, O = BigInteger.ONE, TEN = BigInteger.TEN;
    static final class R { final BigInteger n, d; R(BigInteger n, BigInteger d) { this.n = n; this.d = d; } }

    static String s(Value v) {
        if (v instanceof StringValue) return ((StringValue) v).val.toString();
        if (v instanceof IntValue) return Integer.toString(((IntValue) v).val);
        throw new RuntimeException("BigRat: not a number: " + v);
    }
    static BigInteger bi(String t) {
        if (t.length() < 18) return BigInteger.valueOf(Long.parseLong(t));
        return new BigInteger(t);
    }
    static R p(Value v) {
        if (v instanceof IntValue) return new R(BigInteger.valueOf(((IntValue) v).val), O);
        String t = s(v);
        int i = t.indexOf('/');
        if (i < 0) return new R(bi(t), O);
        return mk(bi(t.substring(0, i)), bi(t.substring(i + 1)));
    }
    static R mk(BigInteger n, BigInteger d) {
        if (d.signum() == 0) throw new RuntimeException("BigRat: division by zero");
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (d.equals(O)) return new R(n, d);
        BigInteger g = n.gcd(d);
        if (!g.equals(O)) { n = n.divide(g); d = d.divide(g); }
        return new R(n, d);
    }
    static Value w(R r) { return new StringValue(r.d.equals(O) ? r.n.toString() : r.n.toString() + "/" + r.d.toString()); }
    static Value w(BigInteger n) { return new StringValue(n.toString()); }
    static int i(Value v) { return ((IntValue) v).val; }
    static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static BigInteger in(Value v) { R r = p(v); if (!r.d.equals(O)) throw new RuntimeException("BigRat: not an integer: " + v); return r.n; }
    static R add(R a, R b) {
        if (a.d.equals(O) && b.d.equals(O)) return new R(a.n.add(b.n), O);
        return mk(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
    }
    static R mul(R a, R b) {
        if (a.d.equals(O) && b.d.equals(O)) return new R(a.n.multiply(b.n), O);
        return mk(a.n.multiply(b.n), a.d.multiply(b.d));
    }

    public static Value RAdd(Value a, Value b) { return w(add(p(a), p(b))); }
    public static Value RSub(Value a, Value b) { R y = p(b); return w(add(p(a), new R(y.n.negate(), y.d))); }
    public static Value RMul(Value a, Value b) { return w(mul(p(a), p(b))); }
    public static Value RDiv(Value a, Value b) { R x = p(a), y = p(b); return w(mk(x.n.multiply(y.d), x.d.multiply(y.n))); }
    public static Value RNeg(Value a) { R x = p(a); return w(new R(x.n.negate(), x.d)); }
    public static Value RAbs(Value a) { R x = p(a); return w(new R(x.n.abs(), x.d)); }
    public static Value RSgn(Value a) { return IntValue.gen(p(a).n.signum()); }
    public static Value RCmp(Value a, Value b) { R x = p(a), y = p(b); return IntValue.gen(x.n.multiply(y.d).compareTo(y.n.multiply(x.d))); }
    public static Value RCmpAbs(Value a, Value b) { R x = p(a), y = p(b); return IntValue.gen(x.n.abs().multiply(y.d).compareTo(y.n.abs().multiply(x.d))); }
    public static Value REq(Value a, Value b) { R x = p(a), y = p(b); return b(x.n.equals(y.n) && x.d.equals(y.d)); }
    public static Value RIsInt(Value a) { return b(p(a).d.equals(O)); }
    public static Value RNum(Value a) { return w(p(a).n); }
    public static Value RDen(Value a) { return w(p(a).d); }
    public static Value RFloor(Value a) {
        R x = p(a); BigInteger[] q = x.n.divideAndRemainder(x.d);
        return w(q[1].signum() < 0 ? q[0].subtract(O) : q[0]);
    }
    public static Value RGcd(Value a, Value b) { return w(in(a).gcd(in(b))); }
    public static Value RLcm(Value a, Value b) {
        BigInteger x = in(a), y = in(b);
        if (x.signum() == 0 || y.signum() == 0) return w(Z);
        return w(x.multiply(y).abs().divide(x.gcd(y)));
    }
    public static Value RPow2(Value k) { int e = i(k); return e >= 0 ? w(O.shiftLeft(e)) : w(new R(O, O.shiftLeft(-e))); }
    public static Value RPow10(Value k) { int e = i(k); return e >= 0 ? w(TEN.pow(e)) : w(new R(O, TEN.pow(-e))); }
    public static Value RPow(Value a, Value k) { R x = p(a); int e = i(k); return w(mk(x.n.pow(e), x.d.pow(e))); }
    /* floor (log2 |x|), x # 0 */
    public static Value RLog2(Value a) {
        R x = p(a); BigInteger n = x.n.abs();
        int e = n.bitLength() - x.d.bitLength();
        /* 2^e <= n/d ? */
        boolean ge = e >= 0 ? n.compareTo(x.d.shiftLeft(e)) >= 0 : n.shiftLeft(-e).compareTo(x.d) >= 0;
        return IntValue.gen(ge ? e : e - 1);
    }
    /* bit length of |n| */
    public static Value RBits(Value a) { return IntValue.gen(in(a).abs().bitLength()); }
    /* digits of |n| in base b, at least 1 */
    static int digits(BigInteger x, BigInteger b) { int k = 1; while (x.compareTo(b) >= 0) { x = x.divide(b); k++; } return k; }
    public static Value RDigits(Value a, Value b) { return IntValue.gen(digits(in(a).abs(), BigInteger.valueOf(i(b)))); }
    public static Value ROfInt(Value k) { return new StringValue(Integer.toString(i(k))); }
    /* small integers back to TLA+ integers (saturating) */
    public static Value RToInt(Value a) {
        BigInteger x = in(a);
        if (x.bitLength() > 31) return IntValue.gen(x.signum() < 0 ? -2147483647 : 2147483647);
        return IntValue.gen(x.intValue());
    }
    static Value[] seq(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("BigRat: not a sequence: " + v);
        return t.elems;
    }
    /* (a*b - c*d) / p, all integers; "inexact" when p does not divide */
    public static Value RBareiss(Value a, Value b, Value c, Value d, Value q) {
        BigInteger[] r = in(a).multiply(in(b)).subtract(in(c).multiply(in(d))).divideAndRemainder(in(q));
        return r[1].signum() != 0 ? new StringValue("inexact") : w(r[0]);
    }
    public static Value RDot(Value s, Value t) {
        Value[] x = seq(s), y = seq(t); R acc = new R(Z, O);
        for (int k = 0; k < x.length; k++) acc = add(acc, mul(p(x[k]), p(y[k])));
        return w(acc);
    }
    /* is the string a number, and in lowest terms with a denominator > 1 when written n/d */
    public static Value RIsNum(Value v) {
        if (!(v instanceof StringValue)) return b(false);
        return b(s(v).matches("-?[0-9]+(/[0-9]+)?") && !s(v).matches(".*/0+"));
    }
    public static Value RCanon(Value v) {
        if (!(v instanceof StringValue) || !s(v).matches("-?[0-9]+(/[0-9]+)?") || s(v).matches(".*/0+")) return b(false);
        return b(s(w(p(v))).equals(s(v)));
    }
    /* number written in decimal notation, e.g. "-12.3450", to a rational; "bad" otherwise */
    public static Value RDecimal(Value v) {
        String t = s(v);
        if (t.matches("-?[0-9]+/[0-9]+") && !t.matches(".*/0+")) return w(p(v));
        if (!t.matches("[-+]?[0-9]+(\\.[0-9]*)?([eE][-+]?[0-9]+)?")) return new StringValue("bad");
        java.math.BigDecimal d = new java.math.BigDecimal(t);
        BigInteger u = d.unscaledValue(); int sc = d.scale();
        return w(sc >= 0 ? mk(u, TEN.pow(sc)) : new R(u.multiply(TEN.pow(-sc)), O));
    }
}
