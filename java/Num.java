import tlc2.value.impl.*;

/** Numeric primitives of module Num (see spec/Num.tla): fixed point with 10^-6 resolution. */
public class Num {
    static final long U = 1000000L, HUGE = 2000000000L, NAN = 2000000001L;

    /** rounding errors: 0 switches them off, k > 0 selects the k-th sample (see SetNoise in Num.tla) */
    static java.util.Random rng = null;
    public static Value SetNoise(Value k) { rng = v(k) == 0 ? null : new java.util.Random(v(k) * 7919L); return BoolValue.ValTrue; }
    static double off(double r) { return (2 * rng.nextDouble() - 1) * (1 + Math.abs(r) / 8388608.0); }
    public static Value Jit(Value a) { long x = v(a); return rng == null || x == 0 || !num(x) ? a : w(x + Math.round(off(x))); }
    static double j(long x) { return rng == null || x == 0 ? x / 1e6 : Math.abs(x) == 1 ? x * rng.nextDouble() * 1.5e-6 : (x + rng.nextDouble() - 0.5) / 1e6; }
    static IntValue z(long r) { return rng == null || r == 0 || Math.abs(r) >= HUGE ? w(r) : w(r + Math.round(off(r))); }

    static long v(Value a) { return ((IntValue) a).val; }
    static final long ANY = 2000000002L;
    static final IntValue AnyV = IntValue.gen((int) ANY);
    static boolean any(Value... a) { for (Value x : a) if (v(x) == ANY) return true; return false; }
    static boolean num(long a) { return a >= -HUGE && a <= HUGE; }
    static IntValue w(long r) { return IntValue.gen((int) Math.max(-HUGE, Math.min(HUGE, r))); }
    static final IntValue NaNV = IntValue.gen((int) NAN);
    static IntValue d(double r) {
        if (Double.isNaN(r)) return NaNV;
        double m = r * 1e6;
        if (rng != null && m != 0 && Math.abs(m) < HUGE) m += off(m);
        if (m >= HUGE) return IntValue.gen((int) HUGE);
        if (m <= -HUGE) return IntValue.gen((int) -HUGE);
        return IntValue.gen((int) Math.round(m));
    }
    static long near(long p, long q) {
        if (q < 0) { p = -p; q = -q; }
        return p >= 0 ? (p + q / 2) / q : -((-p + q / 2) / q);
    }

    public static Value Add(Value a, Value b) { if (any(a, b)) return AnyV; long x = v(a), y = v(b); return num(x) && num(y) ? w(x + y) : NaNV; }
    public static Value Sub(Value a, Value b) { if (any(a, b)) return AnyV; long x = v(a), y = v(b); return num(x) && num(y) ? w(x - y) : NaNV; }
    public static Value Mul(Value a, Value b) { if (any(a, b)) return AnyV; long x = v(a), y = v(b); return num(x) && num(y) ? (x == U || y == U ? w(near(x * y, U)) : z(near(x * y, U))) : NaNV; }
    public static Value Div(Value a, Value b) { if (any(a, b)) return AnyV;
        long x = v(a), y = v(b);
        if (!num(x) || !num(y)) return NaNV;
        if (y == 0) return x == 0 ? NaNV : x > 0 ? w(HUGE) : w(-HUGE);
        return y == U ? w(x) : z(near(x * U, y));
    }
    public static Value MulDiv(Value a, Value b, Value c) { if (any(a, b, c)) return AnyV;
        long x = v(a), y = v(b), z = v(c);
        if (!num(x) || !num(y) || !num(z) || z == 0) return NaNV;
        return y == z ? w(x) : x == z ? w(y) : z(near(x * y, z));
    }
    static Value[] seq(Value a) {
        TupleValue t = (TupleValue) a.toTuple();
        return t.elems;
    }
    public static Value Dot(Value a, Value b) {
        Value[] x = seq(a), y = seq(b);
        if (any(x) || any(y)) return AnyV;
        double s = 0;
        for (int i = 0; i < x.length; i++) s += (double) v(x[i]) * (double) v(y[i]);
        return d(s / 1e12);
    }
    public static Value Norm(Value a) {
        if (any(seq(a))) return AnyV;
        double s = 0;
        for (Value e : seq(a)) s += (double) v(e) * (double) v(e);
        return d(Math.sqrt(s) / 1e6);
    }
    static double sumProd(Value s) {
        double r = 0;
        for (Value t : seq(s)) { double p = 1; for (Value x : seq(t)) p *= v(x); r += p; }
        return r;
    }
    public static Value Frac(Value n, Value d) {
        for (Value t : seq(n)) if (any(seq(t))) return AnyV;
        return d(sumProd(n) / sumProd(d) / 1e6);
    }
    public static Value Sqrt(Value a) { if (any(a)) return AnyV; long x = v(a); return !num(x) || x < 0 ? NaNV : d(Math.sqrt(j(x))); }
    public static Value Cbrt(Value a) { if (any(a)) return AnyV; long x = v(a); return !num(x) ? NaNV : d(Math.cbrt(j(x))); }
    public static Value Pow(Value a, Value b) { if (any(a, b)) return AnyV; long x = v(a), y = v(b); return num(x) && num(y) ? d(Math.pow(j(x), y / 1e6)) : NaNV; }
    public static Value Sin(Value a) { if (any(a)) return AnyV; long x = v(a); return num(x) ? d(Math.sin(Math.toRadians(x / 1e6))) : NaNV; }
    public static Value Cos(Value a) { if (any(a)) return AnyV; long x = v(a); return num(x) ? d(Math.cos(Math.toRadians(x / 1e6))) : NaNV; }
    public static Value Angle(Value b, Value a) { if (any(b, a)) return AnyV;
        long y = v(b), x = v(a);
        if (!num(x) || !num(y)) return NaNV;
        double g = Math.toDegrees(Math.atan2(y, x));
        return d(g < 0 ? g + 360.0 : g);
    }
    public static Value ExpN(Value a) { if (any(a)) return AnyV; long x = v(a); return num(x) ? d(Math.exp(x / 1e6)) : NaNV; }
    public static Value Log10(Value a) { if (any(a)) return AnyV; long x = v(a); return num(x) ? d(Math.log10(x / 1e6)) : NaNV; }

    /** determinant of the n x n matrix with rows v */
    public static Value Det(Value a, Value nn) {
        Value[] x = seq(a); int n = (int) v(nn);
        if (any(x)) return AnyV;
        for (Value e : x) if (!num(v(e))) return NaNV;
        java.math.BigInteger[][] m = new java.math.BigInteger[n][n];
        for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) m[i][k] = java.math.BigInteger.valueOf(v(x[i * n + k]));
        java.math.BigInteger prev = java.math.BigInteger.ONE; int sign = 1;
        for (int k = 0; k < n - 1; k++) {       // Bareiss: divisions are exact
            int p = k; while (p < n && m[p][k].signum() == 0) p++;
            if (p == n) return IntValue.gen(0);
            if (p != k) { java.math.BigInteger[] t = m[p]; m[p] = m[k]; m[k] = t; sign = -sign; }
            for (int i = k + 1; i < n; i++) for (int l = k + 1; l < n; l++)
                m[i][l] = m[i][l].multiply(m[k][k]).subtract(m[i][k].multiply(m[k][l])).divide(prev);
            prev = m[k][k];
        }
        java.math.BigDecimal r = new java.math.BigDecimal(m[n - 1][n - 1]).movePointLeft(6 * (n - 1)).setScale(0, java.math.RoundingMode.HALF_UP);
        java.math.BigInteger q = r.toBigInteger(); if (sign < 0) q = q.negate();
        if (q.abs().bitLength() > 40) return w(q.signum() * HUGE);
        return w(q.longValue());
    }
}
