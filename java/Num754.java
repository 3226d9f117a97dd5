/*
 * TLC module override for spec/Num754.tla: floating-point numbers with error bounds ("balls").
 *
 * A ball is the TLA+ tuple <<tag, hi(mid), lo(mid), hi(rad), lo(rad)>> where mid and rad are IEEE doubles
 * (bit patterns split into two 32-bit ints, TLC integers have 32 bits).
 *   tag 0: the value lies in [mid - rad, mid + rad]; in IEEE mode mid may be inf or nan (rad 0)
 *   tag 1: invalid - some operator certainly produced an infinity or nan (throwing mode only)
 *   tag 2: unsure - the error bounds do not decide whether the value is valid, or which it is
 * The first argument u of an operation selects the mode: |u| = k is the relative error 2^-k allowed for one
 * inexact operation; u > 0 is the throwing mode, u < 0 the IEEE mode in which inf and nan propagate.
 * |u| < 44 is the "soft" mode, in which no operation counts as exact.
 */
import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.function.DoubleBinaryOperator;
import java.util.function.DoubleUnaryOperator;
import tlc2.value.impl.*;

public class Num754 {
    static final class B {
        final int tag; final double m, r;
        B(int tag, double m, double r) { this.tag = tag; this.m = m; this.r = r; }
    }
    static final B INVALID = new B(1, 0, 0), UNSURE = new B(2, 0, 0);

    static int iv(Value v) { return ((IntValue) v).val; }
    static String sv(Value v) { return ((StringValue) v).val.toString(); }
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    static B un(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        Value[] e = t.elems;
        long mb = ((long) iv(e[1]) << 32) | (iv(e[2]) & 0xffffffffL);
        long rb = ((long) iv(e[3]) << 32) | (iv(e[4]) & 0xffffffffL);
        return new B(iv(e[0]), Double.longBitsToDouble(mb), Double.longBitsToDouble(rb));
    }
    static Value mk(B b) {
        long mb = Double.doubleToLongBits(b.m), rb = Double.doubleToLongBits(b.r);
        return new TupleValue(new Value[] { IntValue.gen(b.tag), IntValue.gen((int) (mb >> 32)), IntValue.gen((int) mb),
            IntValue.gen((int) (rb >> 32)), IntValue.gen((int) rb) });
    }
    static boolean fin(double d) { return !Double.isNaN(d) && !Double.isInfinite(d); }
    static boolean sameNF(double a, double b) { return (Double.isNaN(a) && Double.isNaN(b)) || a == b; }
    static double up(double r) { return r == 0 ? 0 : Math.nextUp(r * (1 + 1e-15)); }

    static double parse(String s) {
        s = s.trim();
        String t = s.toLowerCase();
        if (t.equals("inf") || t.equals("+inf") || t.equals("infinity")) return Double.POSITIVE_INFINITY;
        if (t.equals("-inf") || t.equals("-infinity")) return Double.NEGATIVE_INFINITY;
        if (t.endsWith("nan") || t.startsWith("nan") || t.startsWith("-nan")) return Double.NaN;
        if (t.contains("0x") && !t.contains("p")) s = s + "p0";
        return Double.parseDouble(s);
    }

    /** wraps a non-finite or finite result according to the mode */
    static B res(int u, double m, double r) {
        if (!fin(m)) return u > 0 ? INVALID : new B(0, m, 0);
        if (!fin(r)) return UNSURE;
        return new B(0, m, r);
    }
    static double rnd(int u, double m, boolean exact) {
        int k = Math.abs(u);
        if (exact && k >= 44) return 0;
        return Math.scalb(Math.abs(m), -k) + 1e-300;
    }
    static B pre(int u, B a) { return a.tag != 0 ? a : null; }
    static B pre(int u, B a, B b) {
        if (a.tag == 1 || b.tag == 1) return INVALID;
        if (a.tag == 2 || b.tag == 2) return UNSURE;
        return null;
    }

    /** a function that is monotone on every interval that contains no pole (poles are the caller's business) */
    static B mono1(int u, B a, DoubleUnaryOperator f, boolean exact) {
        double c = f.applyAsDouble(a.m);
        if (a.r == 0) return res(u, c, fin(c) ? rnd(u, c, exact) : 0);
        double l = f.applyAsDouble(a.m - a.r), h = f.applyAsDouble(a.m + a.r);
        if (!fin(c) || !fin(l) || !fin(h)) {
            if (sameNF(c, l) && sameNF(c, h)) return res(u, c, 0);
            return UNSURE;
        }
        double r = up(Math.max(Math.abs(l - c), Math.abs(h - c)));
        return res(u, c, r + rnd(u, c, false));
    }
    static B mono2(int u, B a, B b, DoubleBinaryOperator f, boolean exact) {
        double c = f.applyAsDouble(a.m, b.m);
        if (a.r == 0 && b.r == 0) return res(u, c, fin(c) ? rnd(u, c, exact) : 0);
        double[] xs = a.r == 0 ? new double[] { a.m } : new double[] { a.m - a.r, a.m + a.r };
        double[] ys = b.r == 0 ? new double[] { b.m } : new double[] { b.m - b.r, b.m + b.r };
        double r = 0;
        boolean allSame = true, anyNF = !fin(c);
        for (double x : xs) for (double y : ys) {
            double v = f.applyAsDouble(x, y);
            if (!fin(v)) anyNF = true;
            if (!sameNF(v, c)) allSame = false;
            if (fin(v) && fin(c)) r = Math.max(r, Math.abs(v - c));
        }
        if (anyNF) return allSame ? res(u, c, 0) : UNSURE;
        return res(u, c, up(r) + rnd(u, c, false));
    }

    // ---- constructors -------------------------------------------------------------------------------------------
    /** the double written in s, exactly */
    public static Value FLit(Value u, Value s) {
        double d = parse(sv(s));
        return mk(!fin(d) && iv(u) > 0 ? UNSURE : res(iv(u), d, 0)); // a non-finite number is no operator's doing
    }
    /** the double written in s, known up to the precision with which the library prints numbers */
    public static Value FLitP(Value u, Value s) {
        double d = parse(sv(s));
        return mk(res(iv(u), d, fin(d) ? 1e-16 + Math.abs(d) * 4.5e-16 : 0));
    }
    public static Value FInt(Value n) { return mk(new B(0, iv(n), 0)); }
    public static Value FUnsure() { return mk(UNSURE); }
    /** a with the error bound enlarged by the double in s */
    public static Value FWiden(Value a, Value s) {
        B x = un(a);
        return x.tag != 0 || !fin(x.m) ? a : mk(new B(0, x.m, x.r + parse(sv(s))));
    }

    /** a with the error bound enlarged by 2^-k of the magnitude of b (sums of which the order is open) */
    public static Value FSpread(Value a, Value b, Value k) {
        B x = un(a), y = un(b);
        if (x.tag != 0 || !fin(x.m)) return a;
        if (y.tag != 0 || !fin(y.m)) return mk(UNSURE);
        return mk(new B(0, x.m, x.r + Math.scalb(Math.abs(y.m) + y.r, -iv(k))));
    }

    // ---- arithmetic ---------------------------------------------------------------------------------------------
    public static Value FNeg(Value u, Value a) { B x = un(a); return x.tag != 0 ? a : mk(new B(0, -x.m, x.r)); }
    public static Value FAbs(Value u, Value a) { B x = un(a); return x.tag != 0 ? a : mk(new B(0, Math.abs(x.m), x.r)); }

    static boolean addExact(double a, double b) {
        double s = a + b, bb = s - a;
        return ((a - (s - bb)) + (b - bb)) == 0;
    }
    static B add(int u, B x, B y) {
        B p = pre(u, x, y); if (p != null) return p;
        double c = x.m + y.m;
        if (!fin(x.m) || !fin(y.m)) return res(u, c, 0);
        if (!fin(c)) return (x.r == 0 && y.r == 0) || fin(x.r + y.r) && Math.abs(x.m / 2 + y.m / 2) > 9.1e307 ? res(u, c, 0) : UNSURE;
        double r = x.r + y.r;
        if (!fin(c + r) || !fin(c - r)) return UNSURE;
        return res(u, c, (r == 0 ? 0 : up(r)) + rnd(u, c, r == 0 && addExact(x.m, y.m)));
    }
    public static Value FAdd(Value u, Value a, Value b) { return mk(add(iv(u), un(a), un(b))); }
    public static Value FSub(Value u, Value a, Value b) {
        B y = un(b);
        return mk(add(iv(u), un(a), y.tag != 0 ? y : new B(0, -y.m, y.r)));
    }
    static B mul(int u, B x, B y) {
        B p = pre(u, x, y); if (p != null) return p;
        double c = x.m * y.m;
        boolean exact = fin(c) && Math.fma(x.m, y.m, -c) == 0 && (c == 0 ? (x.m == 0 || y.m == 0) : Math.abs(c) > 1e-280);
        return mono2(u, x, y, (p1, q1) -> p1 * q1, exact);
    }
    public static Value FMul(Value u, Value a, Value b) { return mk(mul(iv(u), un(a), un(b))); }
    public static Value FDiv(Value u, Value a, Value b) {
        int k = iv(u); B x = un(a), y = un(b);
        B p = pre(k, x, y); if (p != null) return mk(p);
        if (fin(y.m) && y.r > 0 && Math.abs(y.m) <= y.r) return FUnsure();
        double c = x.m / y.m;
        boolean exact = fin(c) && fin(x.m) && fin(y.m) && Math.fma(c, y.m, -x.m) == 0 && (x.m == 0 || Math.abs(c) > 1e-280);
        return mk(mono2(k, x, y, (p1, q1) -> p1 / q1, exact));
    }
    static boolean isInt(double d) { return fin(d) && d == Math.rint(d); }
    static double pw(double a, double b) {
        if (isInt(a) && isInt(b) && b >= 0 && b <= 60 && Math.abs(a) <= 9007199254740992.0) {
            BigInteger v = BigDecimal.valueOf(a).toBigInteger().pow((int) b);
            if (v.bitLength() <= 53) return a == 0 && b > 0 ? Math.pow(a, b) : v.doubleValue();
        }
        if (a == 1.0) return 1.0;   // C: pow(1, y) is 1 for every y, also nan; Java differs
        if (a == -1.0 && Double.isInfinite(b)) return 1.0;
        return StrictMath.pow(a, b);
    }
    static boolean powExact(double a, double b) {
        if (b == 0 || b == 1 || a == 1) return true;
        if (isInt(a) && isInt(b) && b >= 0 && b <= 60 && Math.abs(a) <= 9007199254740992.0)
            return BigDecimal.valueOf(a).toBigInteger().pow((int) b).bitLength() <= 53;
        return false;
    }
    public static Value FPow(Value u, Value a, Value b) {
        int k = iv(u); B x = un(a), y = un(b);
        B p = pre(k, x, y); if (p != null) return mk(p);
        if (fin(x.m) && fin(y.m) && (x.r > 0 || y.r > 0)) {
            boolean intExp = y.r == 0 && isInt(y.m);
            if (x.m - x.r <= 0) {
                if (!intExp) {
                    if (y.r > 0 || x.m + x.r >= 0) return FUnsure();
                } else if (x.m + x.r >= 0) {
                    if (y.m < 0 || y.m == 0 && false) return FUnsure();
                    B z = mono2(k, x, y, Num754::pw, false);
                    if (z.tag != 0) return mk(z);
                    return mk(res(k, z.m, Math.max(z.r, up(Math.abs(z.m)) + rnd(k, z.m, false))));
                }
            }
        }
        return mk(mono2(k, x, y, Num754::pw, powExact(x.m, y.m)));
    }
    static B lip(int u, B x, DoubleUnaryOperator f, boolean exact) {
        double c = f.applyAsDouble(x.m);
        if (!fin(c)) return res(u, c, 0);
        return res(u, c, x.r == 0 ? rnd(u, c, exact) : Math.min(2, up(x.r)) + rnd(u, 1, false));
    }
    public static Value FSin(Value u, Value a) { B x = un(a); return x.tag != 0 ? a : mk(lip(iv(u), x, StrictMath::sin, x.m == 0)); }
    public static Value FCos(Value u, Value a) { B x = un(a); return x.tag != 0 ? a : mk(lip(iv(u), x, StrictMath::cos, x.m == 0)); }
    public static Value FTan(Value u, Value a) {
        B x = un(a); if (x.tag != 0) return a;
        if (fin(x.m) && x.r > 0 && Math.floor((x.m - x.r) / Math.PI - 0.5) != Math.floor((x.m + x.r) / Math.PI - 0.5)) return FUnsure();
        return mk(mono1(iv(u), x, StrictMath::tan, x.m == 0));
    }
    public static Value FAsin(Value u, Value a) { B x = un(a); return x.tag != 0 ? a : mk(mono1(iv(u), x, StrictMath::asin, x.m == 0)); }
    public static Value FAcos(Value u, Value a) { B x = un(a); return x.tag != 0 ? a : mk(mono1(iv(u), x, StrictMath::acos, x.m == 1)); }
    public static Value FAtan(Value u, Value a) { B x = un(a); return x.tag != 0 ? a : mk(mono1(iv(u), x, StrictMath::atan, x.m == 0)); }
    public static Value FSqrt(Value u, Value a) {
        B x = un(a); if (x.tag != 0) return a;
        double c = Math.sqrt(x.m);
        return mk(mono1(iv(u), x, Math::sqrt, fin(c) && Math.fma(c, c, -x.m) == 0 && (x.m == 0 || x.m > 1e-280)));
    }
    static double log2(double d) {
        if (d > 0 && fin(d) && d >= Double.MIN_NORMAL) {
            int e = Math.getExponent(d);
            double f = Math.scalb(d, -e);
            if (f == 1) return e;
            if (f > 1.4142135623730951) { f /= 2; e++; }
            // near 1 the direct quotient keeps the relative accuracy
            return e == 0 ? StrictMath.log1p(f - 1) / StrictMath.log(2) : e + StrictMath.log(f) / StrictMath.log(2);
        }
        return StrictMath.log(d) / StrictMath.log(2);
    }
    public static Value FLog(Value u, Value a) { B x = un(a); return x.tag != 0 ? a : mk(mono1(iv(u), x, StrictMath::log, x.m == 1)); }
    public static Value FLog2(Value u, Value a) {
        B x = un(a);
        return x.tag != 0 ? a : mk(mono1(iv(u), x, Num754::log2, x.m > 0 && fin(x.m) && log2(x.m) == Math.rint(log2(x.m))
            && Math.scalb(1.0, (int) Math.rint(log2(x.m))) == x.m));
    }
    public static Value FLog10(Value u, Value a) {
        B x = un(a); if (x.tag != 0) return a;
        double l = StrictMath.log10(x.m);
        return mk(mono1(iv(u), x, StrictMath::log10, fin(l) && l >= 0 && l <= 22 && isInt(l)
            && BigDecimal.TEN.pow((int) l).compareTo(new BigDecimal(x.m)) == 0));
    }
    public static Value FExp(Value u, Value a) { B x = un(a); return x.tag != 0 ? a : mk(mono1(iv(u), x, StrictMath::exp, x.m == 0)); }

    // integer operators: operands are truncated to int; outside the range of int nothing is specified
    static Long trunc(B x) {
        if (!fin(x.m)) return null;
        double l = x.m - x.r, h = x.m + x.r;
        if (l <= -2147483649.0 || h >= 2147483648.0) return null;
        if ((long) l != (long) h) return null;
        return (long) x.m;
    }
    static B intop(int u, B x, B y, int op) {
        B p = pre(u, x, y); if (p != null) return p;
        Long a = trunc(x), b = trunc(y);
        if (op == 0 && b != null && b == 0 && fin(x.m)) return res(u, Double.NaN, 0);
        if (a == null || b == null) return UNSURE;
        long r = op == 0 ? a % b : op == 1 ? (int) ((int) (long) a & (int) (long) b) : (int) ((int) (long) a | (int) (long) b);
        return new B(0, (double) r, 0);
    }
    public static Value FMod(Value u, Value a, Value b) { return mk(intop(iv(u), un(a), un(b), 0)); }
    public static Value FAnd(Value u, Value a, Value b) { return mk(intop(iv(u), un(a), un(b), 1)); }
    public static Value FOr(Value u, Value a, Value b) { return mk(intop(iv(u), un(a), un(b), 2)); }

    // ---- observations -------------------------------------------------------------------------------------------
    public static Value FTag(Value a) { return IntValue.gen(un(a).tag); }
    public static Value FFinite(Value a) { B x = un(a); return bool(x.tag == 0 && fin(x.m)); }
    /** every value in the ball is exactly zero / certainly nonzero */
    public static Value FIsZero(Value a) { B x = un(a); return bool(x.tag == 0 && x.m == 0 && x.r == 0); }
    public static Value FNonZero(Value a) { B x = un(a); return bool(x.tag == 0 && fin(x.m) && Math.abs(x.m) > x.r); }
    /** 1: a < b certainly, 0: certainly not, 2: undecided */
    public static Value FLt(Value a, Value b) {
        B x = un(a), y = un(b);
        if (x.tag != 0 || y.tag != 0) return IntValue.gen(2);
        if (Double.isNaN(x.m) || Double.isNaN(y.m)) return IntValue.gen(0);
        if (x.r == 0 && y.r == 0) return IntValue.gen(x.m < y.m ? 1 : 0);
        double d = x.m - y.m, r = up(x.r + y.r);
        return IntValue.gen(d + r < 0 ? 1 : d - r >= 0 ? 0 : 2);
    }
    /** the double written in s is a possible value of the ball (tag 0) */
    public static Value FHas(Value u, Value a, Value s) {
        B x = un(a); int k = Math.abs(iv(u));
        if (x.tag == 2) return BoolValue.ValTrue;
        if (x.tag == 1) return BoolValue.ValFalse;
        double d = parse(sv(s));
        if (!fin(x.m) || !fin(d)) return bool(sameNF(x.m, d));
        double tol = 2 * x.r + Math.scalb(Math.abs(x.m), -Math.min(k, 50)) + (k < 44 ? 1e-12 : x.r == 0 ? 0 : 1e-300);
        return bool(Math.abs(d - x.m) <= tol);
    }
    /** the error bound says something: relative to max(1,|mid|) it is below 1e-3 */
    public static Value FSharp(Value a) { B x = un(a); return bool(x.tag == 0 && fin(x.m) && x.r <= 1e-3 * Math.max(1, Math.abs(x.m))); }
    /** two balls can denote the same value (generous factor for k-mode u) */
    public static Value FMeet(Value u, Value a, Value b) {
        B x = un(a), y = un(b); int k = Math.abs(iv(u));
        if (x.tag != 0 || y.tag != 0) return BoolValue.ValTrue;
        if (!fin(x.m) || !fin(y.m)) return bool(sameNF(x.m, y.m));
        return bool(Math.abs(x.m - y.m) <= 2 * (x.r + y.r) + Math.scalb(Math.abs(x.m), -Math.min(k, 50)) + (k < 44 ? 1e-12 : 1e-300));
    }
    public static Value FShow(Value a) {
        B x = un(a);
        return new StringValue(x.tag == 1 ? "invalid" : x.tag == 2 ? "unsure" : x.m + (x.r == 0 ? "" : " +- " + x.r));
    }
    public static Value FMid(Value a) { B x = un(a); return mk(new B(x.tag, x.m, 0)); }

    public static Value FWidth(Value a) { B x = un(a); return mk(x.tag != 0 ? x : new B(0, fin(x.m) ? x.r : 0, 0)); }
    public static Value FPow2Str(Value k) { return new StringValue(Double.toString(Math.scalb(1.0, -iv(k)))); }

    /** bit-identical doubles (all nans alike) */
    public static Value FSame(Value s, Value t) { return bool(Double.doubleToLongBits(parse(sv(s))) == Double.doubleToLongBits(parse(sv(t)))); }
    public static Value FEqStr(Value s, Value t) { return bool(parse(sv(s)) == parse(sv(t))); }
    public static Value FFiniteStr(Value s) { return bool(fin(parse(sv(s)))); }
    /** text of codes */
    public static Value CodesToStr(Value c) {
        Value[] e = ((TupleValue) c.toTuple()).elems;
        StringBuilder sb = new StringBuilder();
        for (Value v : e) sb.append((char) iv(v));
        return new StringValue(sb.toString());
    }
    /** codes of text */
    public static Value StrCodes(Value c) {
        String t = sv(c);
        Value[] e = new Value[t.length()];
        for (int i = 0; i < e.length; i++) e[i] = IntValue.gen(t.charAt(i));
        return new TupleValue(e);
    }
    /** |value(text) - value(s)| <= max(abs, rel * |value(s)|), in exact decimal arithmetic */
    public static Value DecNear(Value text, Value s, Value abs, Value rel) {
        try {
            BigDecimal t = new BigDecimal(sv(text)), d = new BigDecimal(parse(sv(s)));
            BigDecimal tol = new BigDecimal(sv(abs)).max(new BigDecimal(sv(rel)).multiply(d.abs()));
            return bool(t.subtract(d).abs().compareTo(tol) <= 0);
        } catch (NumberFormatException e) { return BoolValue.ValFalse; }
    }
    /** sign of the double written in s: -1, 0, 1 */
    public static Value FSgnStr(Value s) { return IntValue.gen((int) Math.signum(parse(sv(s)))); }
    /** |v| < t */
    public static Value FMagLt(Value s, Value t) { return bool(Math.abs(parse(sv(s))) < parse(sv(t))); }
    public static Value FIsIntStr(Value s) { double d = parse(sv(s)); return bool(isInt(d)); }
    /** decimal text of an integral double */
    public static Value FIntStr(Value s) { return new StringValue(new BigDecimal(parse(sv(s))).toBigInteger().toString()); }
}
