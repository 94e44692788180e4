/* TLC operator overrides for module Rat: exact rational arithmetic of unbounded size.
 * A rational is a TLA+ string "n/d" or "n" (or a TLA+ integer); every result is normalised
 * (gcd 1, positive denominator, "/1" omitted), so TLA+ equality of results is numeric equality.
 * "nan", "inf", "-inf" are the observations that are not numbers: comparisons with them are FALSE. */
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.*;
import util.UniqueString;

public class Rat {
    static final class Q {
        final BigInteger n, d;
        Q(BigInteger n, BigInteger d) {
            int s = d.signum();
            if (s == 0) throw new RuntimeException("Rat: zero denominator");
            if (s < 0) { n = n.negate(); d = d.negate(); }
            BigInteger g = n.gcd(d);
            if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
            this.n = n; this.d = d;
        }
        Q add(Q o) { return new Q(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d)); }
        Q sub(Q o) { return new Q(n.multiply(o.d).subtract(o.n.multiply(d)), d.multiply(o.d)); }
        Q mul(Q o) { return new Q(n.multiply(o.n), d.multiply(o.d)); }
        Q div(Q o) { return new Q(n.multiply(o.d), d.multiply(o.n)); }
        int cmp(Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
        public String toString() { return d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d; }
    }
    static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE);

    static String raw(Value v) {
        if (v instanceof StringValue) return ((StringValue) v).getVal().toString();
        return null;
    }
    static boolean num(Value v) {
        if (v instanceof IntValue) return true;
        String s = raw(v);
        if (s == null || s.isEmpty()) return false;
        char c = s.charAt(s.length() - 1);
        return c >= '0' && c <= '9';
    }
    static Q q(Value v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
        String s = raw(v);
        if (s == null || !num(v)) throw new RuntimeException("Rat: not a number: " + v);
        int i = s.indexOf('/');
        if (i < 0) return new Q(new BigInteger(s), BigInteger.ONE);
        return new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
    }
    static Value s(Q x) { return new StringValue(x.toString()); }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static Value[] seq(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("Rat: not a sequence: " + v);
        return ((TupleValue) t).elems;
    }

    /* deep evaluation of lazily represented functions */
    public static Value Force(Value v) {
        if (v instanceof FcnLambdaValue) {
            Value t = v.toTuple();
            if (t == null) t = v.toFcnRcd();
            if (t != null) v = t;
        }
        if (v instanceof TupleValue) {
            Value[] e = ((TupleValue) v).elems;
            Value[] r = new Value[e.length];
            for (int i = 0; i < e.length; i++) r[i] = Force(e[i]);
            return new TupleValue(r);
        }
        if (v instanceof FcnRcdValue) {
            FcnRcdValue f = (FcnRcdValue) v;
            for (int i = 0; i < f.values.length; i++) f.values[i] = Force(f.values[i]);
        } else if (v instanceof RecordValue) {
            RecordValue f = (RecordValue) v;
            for (int i = 0; i < f.values.length; i++) f.values[i] = Force(f.values[i]);
        } else if (v instanceof SetOfFcnsValue || v instanceof SetPredValue || v instanceof IntervalValue) {
            Value t = v.toSetEnum();
            if (t != null) v = t;
        }
        return v;
    }

    public static Value RNum(Value a) { return b(num(a)); }
    public static Value RNorm(Value a) { return s(q(a)); }
    public static Value RAdd(Value a, Value c) { return s(q(a).add(q(c))); }
    public static Value RSub(Value a, Value c) { return s(q(a).sub(q(c))); }
    public static Value RMul(Value a, Value c) { return s(q(a).mul(q(c))); }
    public static Value RDiv(Value a, Value c) { return s(q(a).div(q(c))); }
    public static Value RNeg(Value a) { return s(ZERO.sub(q(a))); }
    public static Value RAbs(Value a) { Q x = q(a); return s(x.n.signum() < 0 ? ZERO.sub(x) : x); }
    public static Value RLe(Value a, Value c) { return b(num(a) && num(c) && q(a).cmp(q(c)) <= 0); }
    public static Value RLt(Value a, Value c) { return b(num(a) && num(c) && q(a).cmp(q(c)) < 0); }
    public static Value REq(Value a, Value c) { return b(num(a) && num(c) && q(a).cmp(q(c)) == 0); }
    /* |a - c| <= t, FALSE when one of them is not a number */
    public static Value RClose(Value a, Value c, Value t) {
        if (!num(a) || !num(c)) return BoolValue.ValFalse;
        Q x = q(a).sub(q(c));
        if (x.n.signum() < 0) x = ZERO.sub(x);
        return b(x.cmp(q(t)) <= 0);
    }
    public static Value RMin(Value a, Value c) { return s(q(a).cmp(q(c)) <= 0 ? q(a) : q(c)); }
    public static Value RMax(Value a, Value c) { return s(q(a).cmp(q(c)) >= 0 ? q(a) : q(c)); }
    public static Value RSum(Value v) {
        Q r = ZERO;
        for (Value e : seq(v)) r = r.add(q(e));
        return s(r);
    }
    public static Value RDot(Value v, Value w) {
        Value[] x = seq(v), y = seq(w);
        if (x.length != y.length) throw new RuntimeException("RDot: lengths differ");
        Q r = ZERO;
        for (int i = 0; i < x.length; i++) r = r.add(q(x[i]).mul(q(y[i])));
        return s(r);
    }
    /* floor as a rational */
    public static Value RFloor(Value a) {
        Q x = q(a);
        BigInteger[] dr = x.n.divideAndRemainder(x.d);
        BigInteger f = dr[1].signum() < 0 ? dr[0].subtract(BigInteger.ONE) : dr[0];
        return s(new Q(f, BigInteger.ONE));
    }
    /* as a TLA+ integer; the argument must be integral and fit */
    public static Value RInt(Value a) {
        Q x = q(a);
        if (!x.d.equals(BigInteger.ONE)) throw new RuntimeException("RInt: not integral: " + x);
        return IntValue.gen(x.n.intValueExact());
    }
    /* nearest multiple of 10^-k, halves away from zero */
    public static Value RRound(Value a, Value k) {
        Q x = q(a);
        int kk = ((IntValue) k).val;
        BigDecimal r = new BigDecimal(x.n).divide(new BigDecimal(x.d), kk, RoundingMode.HALF_UP);
        return s(new Q(r.unscaledValue(), BigInteger.TEN.pow(Math.max(0, r.scale()))));
    }
    static final MathContext MC = new MathContext(40, RoundingMode.HALF_EVEN);
    static BigDecimal bd(Q x) { return new BigDecimal(x.n).divide(new BigDecimal(x.d), MC); }
    static Value dec(BigDecimal r) {
        if (r.scale() <= 0) return s(new Q(r.toBigIntegerExact(), BigInteger.ONE));
        r = r.setScale(Math.min(r.scale(), 36), RoundingMode.HALF_EVEN);
        return s(new Q(r.unscaledValue(), BigInteger.TEN.pow(r.scale())));
    }
    /* square root, exact for squares of rationals, otherwise rounded to 36 decimals */
    public static Value RSqrt(Value a) {
        Q x = q(a);
        if (x.n.signum() < 0) throw new RuntimeException("RSqrt of a negative number");
        BigInteger rn = x.n.sqrt(), rd = x.d.sqrt();
        if (rn.multiply(rn).equals(x.n) && rd.multiply(rd).equals(x.d)) return s(new Q(rn, rd));
        return dec(bd(x).sqrt(MC));
    }
    static BigDecimal lnBD(BigDecimal x) {
        /* ln x = 2 artanh((x-1)/(x+1)) after taking square roots until x is near 1 */
        int k = 0;
        while (x.subtract(BigDecimal.ONE).abs().compareTo(new BigDecimal("0.01")) > 0) { x = x.sqrt(new MathContext(60)); k++; }
        MathContext m = new MathContext(60);
        BigDecimal z = x.subtract(BigDecimal.ONE).divide(x.add(BigDecimal.ONE), m), z2 = z.multiply(z, m);
        BigDecimal t = z, sum = BigDecimal.ZERO;
        for (int i = 1; t.abs().compareTo(new BigDecimal("1e-55")) > 0; i += 2) {
            sum = sum.add(t.divide(BigDecimal.valueOf(i), m), m);
            t = t.multiply(z2, m);
        }
        return sum.multiply(BigDecimal.valueOf(2)).multiply(new BigDecimal(BigInteger.TWO.pow(k)), m);
    }
    public static Value RLn(Value a) {
        Q x = q(a);
        if (x.n.signum() <= 0) throw new RuntimeException("RLn of a non-positive number");
        return dec(lnBD(bd(x)));
    }
}
