package fmkspec;

import java.math.BigDecimal;
import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Exact rational arithmetic for Rat.tla: a number is the string "n" or "n/d" (lowest terms, d > 1), or "nan", "inf", "-inf". */
public class Rat implements ITLCOverrides {
    private static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;

    private static final class Q {
        final BigInteger n, d; // d == 0: n > 0 inf, n < 0 -inf, n == 0 nan

        Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }

        static Q of(BigInteger n, BigInteger d) {
            if (d.signum() == 0) return new Q(BigInteger.valueOf(n.signum()), ZERO);
            if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
            BigInteger g = n.gcd(d);
            if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
            return new Q(n, d);
        }

        boolean nan() { return d.signum() == 0 && n.signum() == 0; }
        boolean fin() { return d.signum() != 0; }
        double dbl() {
            if (!fin()) return nan() ? Double.NaN : n.signum() > 0 ? Double.POSITIVE_INFINITY : Double.NEGATIVE_INFINITY;
            if (n.signum() == 0) return 0.0;
            return new BigDecimal(n).divide(new BigDecimal(d), new java.math.MathContext(40)).doubleValue();
        }
        Value val() {
            if (!fin()) return new StringValue(nan() ? "nan" : n.signum() > 0 ? "inf" : "-inf");
            return new StringValue(d.equals(ONE) ? n.toString() : n + "/" + d);
        }
    }

    private static final Q NAN = new Q(ZERO, ZERO), INF = new Q(ONE, ZERO), NINF = new Q(ONE.negate(), ZERO);

    private static Q q(Value v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), ONE);
        String s = ((StringValue) v).val.toString();
        if (s.equals("nan")) return NAN;
        if (s.equals("inf")) return INF;
        if (s.equals("-inf")) return NINF;
        int k = s.indexOf('/');
        if (k < 0) return new Q(new BigInteger(s), ONE);
        return Q.of(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)));
    }

    private static Q dbl(double x) {
        if (Double.isNaN(x)) return NAN;
        if (Double.isInfinite(x)) return x > 0 ? INF : NINF;
        BigDecimal b = new BigDecimal(x);
        BigInteger u = b.unscaledValue();
        return b.scale() <= 0 ? Q.of(u.multiply(BigInteger.TEN.pow(-b.scale())), ONE) : Q.of(u, BigInteger.TEN.pow(b.scale()));
    }

    private static Q add(Q a, Q b) {
        if (a.fin() && b.fin()) {
            if (a.d.equals(b.d)) return Q.of(a.n.add(b.n), a.d);
            return Q.of(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
        }
        if (a.nan() || b.nan()) return NAN;
        if (a.fin()) return b;
        if (b.fin()) return a;
        return a.n.equals(b.n) ? a : NAN;
    }

    private static Q neg(Q a) { return new Q(a.n.negate(), a.d); }

    private static Q mul(Q a, Q b) {
        if (a.fin() && b.fin()) return Q.of(a.n.multiply(b.n), a.d.multiply(b.d));
        if (a.nan() || b.nan()) return NAN;
        int s = a.n.signum() * b.n.signum();
        return s == 0 ? NAN : s > 0 ? INF : NINF;
    }

    private static Q div(Q a, Q b) {
        if (a.fin() && b.fin()) return Q.of(a.n.multiply(b.d), a.d.multiply(b.n)); // x/0: inf, -inf or nan
        if (a.nan() || b.nan()) return NAN;
        if (b.fin()) return (b.n.signum() < 0) ? neg(a) : a;
        return a.fin() ? new Q(ZERO, ONE) : NAN;
    }

    /** Less than; FALSE whenever an operand is NaN. */
    private static int cmp(Q a, Q b) {
        if (a.fin() && b.fin()) return a.d.equals(b.d) ? a.n.compareTo(b.n) : a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
        int x = a.fin() ? 0 : a.n.signum(), y = b.fin() ? 0 : b.n.signum();
        return Integer.compare(x, y);
    }

    private static boolean anyNan(Q a, Q b) { return a.nan() || b.nan(); }
    private static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "R", module = "Rat", warn = false)
    public static Value r(Value a) { return q(a).val(); }
    @TLAPlusOperator(identifier = "RFrac", module = "Rat", warn = false)
    public static Value rfrac(Value a, Value b) { return div(q(a), q(b)).val(); }
    @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
    public static Value radd(Value a, Value b) { return add(q(a), q(b)).val(); }
    @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
    public static Value rsub(Value a, Value b) { return add(q(a), neg(q(b))).val(); }
    @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
    public static Value rmul(Value a, Value b) { return mul(q(a), q(b)).val(); }
    @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
    public static Value rdiv(Value a, Value b) { return div(q(a), q(b)).val(); }
    @TLAPlusOperator(identifier = "RLt", module = "Rat", warn = false)
    public static Value rlt(Value a, Value b) { Q x = q(a), y = q(b); return bool(!anyNan(x, y) && cmp(x, y) < 0); }
    @TLAPlusOperator(identifier = "RLe", module = "Rat", warn = false)
    public static Value rle(Value a, Value b) { Q x = q(a), y = q(b); return bool(!anyNan(x, y) && cmp(x, y) <= 0); }
    @TLAPlusOperator(identifier = "REq", module = "Rat", warn = false)
    public static Value req(Value a, Value b) { Q x = q(a), y = q(b); return bool(!anyNan(x, y) && cmp(x, y) == 0); }
    @TLAPlusOperator(identifier = "RFloor", module = "Rat", warn = false)
    public static Value rfloor(Value a) { Q x = q(a); return x.fin() ? new Q(floor(x), ONE).val() : x.val(); }
    @TLAPlusOperator(identifier = "RInt", module = "Rat", warn = false)
    public static Value rint(Value a) { return IntValue.gen(floor(q(a)).intValueExact()); }
    @TLAPlusOperator(identifier = "RIsNaN", module = "Rat", warn = false)
    public static Value risnan(Value a) { return bool(q(a).nan()); }
    @TLAPlusOperator(identifier = "RIsFinite", module = "Rat", warn = false)
    public static Value risfin(Value a) { return bool(q(a).fin()); }
    @TLAPlusOperator(identifier = "RSum", module = "Rat", warn = false)
    public static Value rsum(Value s) {
        Q t = new Q(ZERO, ONE);
        for (Value v : ((TupleValue) s.toTuple()).elems) t = add(t, q(v));
        return t.val();
    }
    @TLAPlusOperator(identifier = "RDot", module = "Rat", warn = false)
    public static Value rdot(Value s, Value u) {
        Q t = new Q(ZERO, ONE);
        Value[] x = ((TupleValue) s.toTuple()).elems, y = ((TupleValue) u.toTuple()).elems;
        for (int i = 0; i < x.length; i++) t = add(t, mul(q(x[i]), q(y[i])));
        return t.val();
    }
    @TLAPlusOperator(identifier = "RSqrt", module = "Rat", warn = false)
    public static Value rsqrt(Value a) { return fn(a, 0); }
    @TLAPlusOperator(identifier = "RLn", module = "Rat", warn = false)
    public static Value rln(Value a) { return fn(a, 1); }
    @TLAPlusOperator(identifier = "RExp", module = "Rat", warn = false)
    public static Value rexp(Value a) { return fn(a, 2); }
    @TLAPlusOperator(identifier = "RSin", module = "Rat", warn = false)
    public static Value rsin(Value a) { return fn(a, 3); }
    @TLAPlusOperator(identifier = "RCos", module = "Rat", warn = false)
    public static Value rcos(Value a) { return fn(a, 4); }
    @TLAPlusOperator(identifier = "RAtan", module = "Rat", warn = false)
    public static Value ratan(Value a) { return fn(a, 5); }
    @TLAPlusOperator(identifier = "RCut", module = "Rat", warn = false)
    public static Value rcut(Value a) {
        Q x = q(a);
        if (!x.fin() || x.d.bitLength() < 400) return x.val();
        BigDecimal v = new BigDecimal(x.n).divide(new BigDecimal(x.d), new java.math.MathContext(60));
        BigInteger u = v.unscaledValue();
        return (v.scale() <= 0 ? Q.of(u.multiply(BigInteger.TEN.pow(-v.scale())), ONE) : Q.of(u, BigInteger.TEN.pow(v.scale()))).val();
    }
    @TLAPlusOperator(identifier = "RClose", module = "Rat", warn = false)
    public static Value rclose(Value a, Value b, Value rel, Value abs) {
        Q x = q(a), y = q(b);
        if (!x.fin() || !y.fin()) return bool(!x.fin() && !y.fin() && x.n.equals(y.n));
        Q diff = add(x, neg(y)); diff = new Q(diff.n.abs(), diff.d);
        Q ax = new Q(x.n.abs(), x.d), ay = new Q(y.n.abs(), y.d);
        Q tol = add(q(abs), mul(q(rel), cmp(ax, ay) < 0 ? ay : ax));
        return bool(cmp(diff, tol) <= 0);
    }

    private static BigInteger floor(Q x) {
        BigInteger[] r = x.n.divideAndRemainder(x.d);
        return r[1].signum() < 0 ? r[0].subtract(ONE) : r[0];
    }

    private static Value fn(Value a, int which) {
        Q x = q(a);
        if (which == 0 && x.fin() && x.n.signum() >= 0) {  // exact when it is a perfect square
            BigInteger sn = x.n.sqrt(), sd = x.d.sqrt();
            if (sn.multiply(sn).equals(x.n) && sd.multiply(sd).equals(x.d)) return Q.of(sn, sd).val();
            BigDecimal v = new BigDecimal(x.n).divide(new BigDecimal(x.d), new java.math.MathContext(60)).sqrt(new java.math.MathContext(40));
            BigInteger u = v.unscaledValue();
            return (v.scale() <= 0 ? Q.of(u.multiply(BigInteger.TEN.pow(-v.scale())), ONE) : Q.of(u, BigInteger.TEN.pow(v.scale()))).val();
        }
        double d = x.dbl();
        switch (which) {
            case 0: return dbl(Math.sqrt(d)).val();
            case 1:
                if (x.fin() && x.n.signum() > 0) {
                    // log1p near one, where the double quotient would lose the digits that matter
                    Q e = add(x, new Q(ONE.negate(), ONE));
                    double ed = e.dbl();
                    if (Math.abs(ed) < 0.5) return dbl(Math.log1p(ed)).val();
                }
                return dbl(Math.log(d)).val();
            case 2: return dbl(Math.exp(d)).val();
            case 3: return dbl(Math.sin(d)).val();
            case 5: return dbl(Math.atan(d)).val();
            default: return dbl(Math.cos(d)).val();
        }
    }

    @Override
    public Class<?>[] get() { return new Class<?>[] { Rat.class }; }
}
