import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.IValue;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Exact rational arithmetic for TLC (module Num): a number is the string "p" or "p/q" in lowest
 * terms with q > 1, or "nan", "inf", "-inf". Everything is exact except NLog2 (correctly rounded to
 * double, then exact) and NRound (rounds to 240 significant bits to bound growth in long recurrences).
 */
public class NumOps {
    static final class R {
        final BigInteger p, q; final String special;
        R(BigInteger p, BigInteger q) {
            if (q.signum() < 0) { p = p.negate(); q = q.negate(); }
            BigInteger g = p.gcd(q);
            if (!g.equals(BigInteger.ONE) && g.signum() != 0) { p = p.divide(g); q = q.divide(g); }
            this.p = p; this.q = q; this.special = null;
        }
        R(String s) { this.p = null; this.q = null; this.special = s; }
        boolean fin() { return special == null; }
        public String toString() {
            if (special != null) return special;
            return q.equals(BigInteger.ONE) ? p.toString() : p + "/" + q;
        }
    }
    static final R NAN = new R("nan"), INF = new R("inf"), NINF = new R("-inf");
    static final R ZERO = new R(BigInteger.ZERO, BigInteger.ONE), ONE = new R(BigInteger.ONE, BigInteger.ONE);
    private static final ConcurrentHashMap<String, R> CACHE = new ConcurrentHashMap<>();

    static R parse(String s) {
        R c = CACHE.get(s);
        if (c != null) return c;
        R r;
        switch (s) {
            case "nan": r = NAN; break;
            case "inf": r = INF; break;
            case "-inf": r = NINF; break;
            default:
                int k = s.indexOf('/');
                if (k >= 0) {
                    R a = parse(s.substring(0, k)), b = parse(s.substring(k + 1));
                    r = div(a, b);
                } else if (s.indexOf('.') >= 0 || s.indexOf('e') >= 0 || s.indexOf('E') >= 0) {
                    BigDecimal d = new BigDecimal(s);
                    r = d.scale() > 0 ? new R(d.unscaledValue(), BigInteger.TEN.pow(d.scale()))
                                      : new R(d.toBigIntegerExact(), BigInteger.ONE);
                } else r = new R(new BigInteger(s), BigInteger.ONE);
        }
        if (CACHE.size() < 200000) CACHE.put(s, r);
        return r;
    }
    static R num(Value v) {
        if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
        if (v instanceof IntValue) return new R(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
        throw new RuntimeException("Num: not a number: " + v);
    }
    static Value val(R r) { return new StringValue(r.toString()); }
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static Value[] elems(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("Num: not a sequence: " + v);
        return ((TupleValue) t).elems;
    }

    static int sgn(R a) { return a == INF ? 1 : a == NINF ? -1 : a.p.signum(); }
    static R add(R a, R b) {
        if (a == NAN || b == NAN) return NAN;
        if (!a.fin()) return (!b.fin() && a != b) ? NAN : a;
        if (!b.fin()) return b;
        if (a.q.equals(b.q)) return new R(a.p.add(b.p), a.q);
        return new R(a.p.multiply(b.q).add(b.p.multiply(a.q)), a.q.multiply(b.q));
    }
    static R neg(R a) { return a.fin() ? new R(a.p.negate(), a.q) : a == INF ? NINF : a == NINF ? INF : a; }
    static R sub(R a, R b) { return add(a, neg(b)); }
    static R mul(R a, R b) {
        if (a == NAN || b == NAN) return NAN;
        if (!a.fin() || !b.fin()) {
            int s = sgn(a) * sgn(b);
            return s > 0 ? INF : s < 0 ? NINF : NAN;
        }
        return new R(a.p.multiply(b.p), a.q.multiply(b.q));
    }
    static R div(R a, R b) {
        if (a == NAN || b == NAN || (!a.fin() && !b.fin())) return NAN;
        if (!a.fin()) return sgn(b) < 0 ? neg(a) : a;
        if (!b.fin()) return ZERO;
        if (b.p.signum() == 0) return a.p.signum() == 0 ? NAN : a.p.signum() > 0 ? INF : NINF;
        return new R(a.p.multiply(b.q), a.q.multiply(b.p));
    }
    static int cmp(R a, R b) {
        if (a == b) return 0;
        if (a == INF || b == NINF) return 1;
        if (a == NINF || b == INF) return -1;
        return a.p.multiply(b.q).compareTo(b.p.multiply(a.q));
    }
    static R abs(R a) { return a == NAN ? a : sgn(a) < 0 ? neg(a) : a; }
    static double dbl(R a) {
        if (!a.fin()) return a == NAN ? Double.NaN : a == INF ? Double.POSITIVE_INFINITY : Double.NEGATIVE_INFINITY;
        return new BigDecimal(a.p).divide(new BigDecimal(a.q), new MathContext(40)).doubleValue();
    }
    static R of(double d) {
        if (Double.isNaN(d)) return NAN;
        if (Double.isInfinite(d)) return d > 0 ? INF : NINF;
        BigDecimal x = new BigDecimal(d);
        return x.scale() > 0 ? new R(x.unscaledValue(), BigInteger.TEN.pow(x.scale()))
                             : new R(x.toBigIntegerExact(), BigInteger.ONE);
    }

    @TLAPlusOperator(identifier = "N", module = "Num", warn = false)
    public static Value norm(Value a) { return val(num(a)); }
    @TLAPlusOperator(identifier = "NAdd", module = "Num", warn = false)
    public static Value vadd(Value a, Value b) { return val(add(num(a), num(b))); }
    @TLAPlusOperator(identifier = "NSub", module = "Num", warn = false)
    public static Value vsub(Value a, Value b) { return val(sub(num(a), num(b))); }
    @TLAPlusOperator(identifier = "NMul", module = "Num", warn = false)
    public static Value vmul(Value a, Value b) { return val(mul(num(a), num(b))); }
    @TLAPlusOperator(identifier = "NDiv", module = "Num", warn = false)
    public static Value vdiv(Value a, Value b) { return val(div(num(a), num(b))); }
    @TLAPlusOperator(identifier = "NNeg", module = "Num", warn = false)
    public static Value vneg(Value a) { return val(neg(num(a))); }
    @TLAPlusOperator(identifier = "NAbs", module = "Num", warn = false)
    public static Value vabs(Value a) { return val(abs(num(a))); }
    @TLAPlusOperator(identifier = "NLe", module = "Num", warn = false)
    public static Value le(Value a, Value b) {
        R x = num(a), y = num(b);
        return bool(x != NAN && y != NAN && cmp(x, y) <= 0);
    }
    @TLAPlusOperator(identifier = "NLt", module = "Num", warn = false)
    public static Value lt(Value a, Value b) {
        R x = num(a), y = num(b);
        return bool(x != NAN && y != NAN && cmp(x, y) < 0);
    }
    @TLAPlusOperator(identifier = "NEq", module = "Num", warn = false)
    public static Value eq(Value a, Value b) {
        R x = num(a), y = num(b);
        return bool(x != NAN && y != NAN && cmp(x, y) == 0);
    }
    @TLAPlusOperator(identifier = "NSum", module = "Num", warn = false)
    public static Value sum(Value s) {
        R r = ZERO;
        for (Value v : elems(s)) r = add(r, num(v));
        return val(r);
    }
    @TLAPlusOperator(identifier = "NMaxAbs", module = "Num", warn = false)
    public static Value maxabs(Value s) {
        R r = ZERO;
        for (Value v : elems(s)) { R x = abs(num(v)); if (x != NAN && cmp(x, r) > 0) r = x; }
        return val(r);
    }
    @TLAPlusOperator(identifier = "NFloor", module = "Num", warn = false)
    public static Value floor(Value a) {
        R x = num(a);
        if (!x.fin()) return val(x);
        BigInteger[] d = x.p.divideAndRemainder(x.q);
        return val(new R(d[1].signum() < 0 ? d[0].subtract(BigInteger.ONE) : d[0], BigInteger.ONE));
    }
    @TLAPlusOperator(identifier = "NInt", module = "Num", warn = false)
    public static Value toInt(Value a) {
        R x = num(a);
        return IntValue.gen(x.p.divide(x.q).intValueExact());
    }
    @TLAPlusOperator(identifier = "NIsInt", module = "Num", warn = false)
    public static Value isInt(Value a) {
        R x = num(a);
        return bool(x.fin() && x.q.equals(BigInteger.ONE));
    }
    /** |a - b| <= tol * max(|a|, |b|, scale); NaN only close to NaN, infinities to themselves. */
    @TLAPlusOperator(identifier = "NClose", module = "Num", warn = false)
    public static Value close(Value a, Value b, Value scale, Value tol) {
        R x = num(a), y = num(b);
        if (!x.fin() || !y.fin()) return bool(x == y);
        R s = abs(num(scale));
        if (s == NAN) s = ZERO;
        if (cmp(abs(x), s) > 0) s = abs(x);
        if (cmp(abs(y), s) > 0) s = abs(y);
        if (s == INF) return BoolValue.ValTrue;
        return bool(cmp(abs(sub(x, y)), mul(s, num(tol))) <= 0);
    }
    /** Log2 of a positive rational, accurate to double precision, for arguments of any size. */
    @TLAPlusOperator(identifier = "NLog2", module = "Num", warn = false)
    public static Value log2(Value a) {
        R x = num(a);
        if (!x.fin()) return val(x == INF ? INF : NAN);
        if (x.p.signum() < 0) return val(NAN);
        if (x.p.signum() == 0) return val(NINF);
        int e = x.p.bitLength() - x.q.bitLength();
        R m = e >= 0 ? new R(x.p, x.q.shiftLeft(e)) : new R(x.p.shiftLeft(-e), x.q);
        return val(of(e + Math.log(dbl(m)) / Math.log(2)));
    }
    @TLAPlusOperator(identifier = "NSqrt", module = "Num", warn = false)
    public static Value sqrt(Value a) { return val(of(Math.sqrt(dbl(num(a))))); }
    /** The double nearest to a, as an exact rational. */
    @TLAPlusOperator(identifier = "NDouble", module = "Num", warn = false)
    public static Value vdouble(Value a) { return val(of(dbl(num(a)))); }
    @TLAPlusOperator(identifier = "NRound", module = "Num", warn = false)
    public static Value round(Value a) {
        R x = num(a);
        if (!x.fin() || x.p.bitLength() + x.q.bitLength() < 480) return val(x);
        int sh = 240 - (x.p.bitLength() - x.q.bitLength());
        BigInteger n = sh >= 0 ? x.p.shiftLeft(sh).divide(x.q) : x.p.divide(x.q.shiftLeft(-sh));
        return val(sh >= 0 ? new R(n, BigInteger.ONE.shiftLeft(sh)) : new R(n.shiftLeft(-sh), BigInteger.ONE));
    }
    /** Decimal rendering for messages. */
    @TLAPlusOperator(identifier = "NShow", module = "Num", warn = false)
    public static Value show(Value a) {
        R x = num(a);
        return new StringValue(x.fin() ? Double.toString(dbl(x)) : x.special);
    }
    /** Code points of a string as a sequence of integers, and back. */
    @TLAPlusOperator(identifier = "Chars", module = "Num", warn = false)
    public static Value chars(Value s) {
        int[] cs = ((StringValue) s).val.toString().codePoints().toArray();
        Value[] r = new Value[cs.length];
        for (int i = 0; i < cs.length; i++) r[i] = IntValue.gen(cs[i]);
        return new TupleValue(r);
    }
    @TLAPlusOperator(identifier = "Str", module = "Num", warn = false)
    public static Value str(Value s) {
        StringBuilder b = new StringBuilder();
        for (Value v : elems(s)) b.appendCodePoint(((IntValue) v).val);
        return new StringValue(b.toString());
    }
    @TLAPlusOperator(identifier = "Cat", module = "Num", warn = false)
    public static Value cat(Value a, Value b) {
        return new StringValue(((StringValue) a).val.toString() + ((StringValue) b).val.toString());
    }
}
