import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.overrides.*;
import tlc2.value.impl.*;

/** Java definitions of the operators of module Num (real arithmetic with 40 digits). */
public class NumOverrides implements ITLCOverrides {
    static final MathContext MC = RealValue.MC;
    static final MathContext XC = new MathContext(52, RoundingMode.HALF_EVEN);
    static final BigDecimal LN10 = new BigDecimal("2.302585092994045684017991454684364207601101488628772976033327900967572609677352480235997");
    static final RealValue NAN = new RealValue("nan");
    @SuppressWarnings("rawtypes")
    @Override public Class[] get() { return new Class[] { NumOverrides.class }; }

    static RealValue r(Value x) { return RealValue.of(x); }
    static boolean bad(RealValue a, RealValue b) { return a.v == null || b.v == null; }
    static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static Value[] elems(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        if (t == null) throw new RuntimeException("Num: a sequence is needed, got " + s);
        return t.elems;
    }

    @TLAPlusOperator(identifier = "R", module = "Num", warn = false)
    public static Value R(Value x) { return r(x); }
    @TLAPlusOperator(identifier = "RStr", module = "Num", warn = false)
    public static Value RStr(Value x) { return new StringValue(r(x).canon()); }
    @TLAPlusOperator(identifier = "RIsNum", module = "Num", warn = false)
    public static Value RIsNum(Value x) { return b(r(x).v != null); }
    @TLAPlusOperator(identifier = "RAdd", module = "Num", warn = false)
    public static Value RAdd(Value x, Value y) {
        RealValue a = r(x), c = r(y); return bad(a, c) ? NAN : new RealValue(a.v.add(c.v, MC)); }
    @TLAPlusOperator(identifier = "RSub", module = "Num", warn = false)
    public static Value RSub(Value x, Value y) {
        RealValue a = r(x), c = r(y); return bad(a, c) ? NAN : new RealValue(a.v.subtract(c.v, MC)); }
    @TLAPlusOperator(identifier = "RMul", module = "Num", warn = false)
    public static Value RMul(Value x, Value y) {
        RealValue a = r(x), c = r(y); return bad(a, c) ? NAN : new RealValue(a.v.multiply(c.v, MC)); }
    @TLAPlusOperator(identifier = "RDiv", module = "Num", warn = false)
    public static Value RDiv(Value x, Value y) {
        RealValue a = r(x), c = r(y);
        return bad(a, c) || c.v.signum() == 0 ? NAN : new RealValue(a.v.divide(c.v, MC)); }
    @TLAPlusOperator(identifier = "RNeg", module = "Num", warn = false)
    public static Value RNeg(Value x) { RealValue a = r(x); return a.v == null ? NAN : new RealValue(a.v.negate()); }
    @TLAPlusOperator(identifier = "RAbs", module = "Num", warn = false)
    public static Value RAbs(Value x) { RealValue a = r(x); return a.v == null ? NAN : new RealValue(a.v.abs()); }
    @TLAPlusOperator(identifier = "RSqrt", module = "Num", warn = false)
    public static Value RSqrt(Value x) {
        RealValue a = r(x); return a.v == null || a.v.signum() < 0 ? NAN : new RealValue(a.v.sqrt(MC)); }
    @TLAPlusOperator(identifier = "RExp", module = "Num", warn = false)
    public static Value RExp(Value x) { RealValue a = r(x); return a.v == null ? NAN : new RealValue(exp(a.v)); }
    static BigDecimal exp(BigDecimal x) {
        if (x.signum() == 0) return BigDecimal.ONE;
        BigInteger n = x.divide(LN10, XC).setScale(0, RoundingMode.HALF_EVEN).toBigInteger();
        if (n.bitLength() > 28) return n.signum() < 0 ? BigDecimal.ZERO : new BigDecimal("1E+200000000");
        BigDecimal rem = x.subtract(LN10.multiply(new BigDecimal(n)), XC);
        BigDecimal h = rem.divide(BigDecimal.valueOf(256), XC);
        BigDecimal term = BigDecimal.ONE, sum = BigDecimal.ONE;
        for (int i = 1; i < 60; i++) {
            term = term.multiply(h, XC).divide(BigDecimal.valueOf(i), XC);
            if (term.signum() == 0) break;
            sum = sum.add(term, XC);
            if (term.abs().compareTo(new BigDecimal("1E-56")) < 0) break;
        }
        for (int i = 0; i < 8; i++) sum = sum.multiply(sum, XC);
        return sum.scaleByPowerOfTen(n.intValue()).round(MC);
    }
    @TLAPlusOperator(identifier = "RLog", module = "Num", warn = false)
    public static Value RLog(Value x) {
        RealValue a = r(x);
        if (a.v == null || a.v.signum() <= 0) return NAN;
        int e = a.v.precision() - a.v.scale() - 1;
        BigDecimal m = a.v.scaleByPowerOfTen(-e);
        BigDecimal y = new BigDecimal(Math.log(m.doubleValue()));
        for (int i = 0; i < 4; i++) {
            BigDecimal ey = exp(y);
            y = y.add(m.subtract(ey, XC).multiply(BigDecimal.valueOf(2)).divide(m.add(ey, XC), XC), XC);
        }
        return new RealValue(y.add(LN10.multiply(BigDecimal.valueOf(e)), MC));
    }
    @TLAPlusOperator(identifier = "RLt", module = "Num", warn = false)
    public static Value RLt(Value x, Value y) { RealValue a = r(x), c = r(y); return b(!bad(a, c) && a.v.compareTo(c.v) < 0); }
    @TLAPlusOperator(identifier = "RLe", module = "Num", warn = false)
    public static Value RLe(Value x, Value y) { RealValue a = r(x), c = r(y); return b(!bad(a, c) && a.v.compareTo(c.v) <= 0); }
    @TLAPlusOperator(identifier = "REq", module = "Num", warn = false)
    public static Value REq(Value x, Value y) { RealValue a = r(x), c = r(y); return b(!bad(a, c) && a.v.compareTo(c.v) == 0); }
    @TLAPlusOperator(identifier = "RSgn", module = "Num", warn = false)
    public static Value RSgn(Value x) { RealValue a = r(x); return IntValue.gen(a.v == null ? 0 : a.v.signum()); }
    @TLAPlusOperator(identifier = "RMax", module = "Num", warn = false)
    public static Value RMax(Value x, Value y) { RealValue a = r(x), c = r(y); return bad(a, c) ? NAN : (a.v.compareTo(c.v) >= 0 ? a : c); }
    @TLAPlusOperator(identifier = "RMin", module = "Num", warn = false)
    public static Value RMin(Value x, Value y) { RealValue a = r(x), c = r(y); return bad(a, c) ? NAN : (a.v.compareTo(c.v) <= 0 ? a : c); }
    /** |x-y| <= tol * max(scale, |x|, |y|) */
    @TLAPlusOperator(identifier = "RClose", module = "Num", warn = false)
    public static Value RClose(Value x, Value y, Value tol, Value scale) {
        RealValue a = r(x), c = r(y);
        if (bad(a, c)) return b(false);
        BigDecimal s = a.v.abs().max(c.v.abs()).max(r(scale).v);
        return b(a.v.subtract(c.v, MC).abs().compareTo(s.multiply(r(tol).v, MC)) <= 0);
    }
    @TLAPlusOperator(identifier = "RSum", module = "Num", warn = false)
    public static Value RSum(Value s) {
        BigDecimal acc = BigDecimal.ZERO;
        for (Value x : elems(s)) { RealValue a = r(x); if (a.v == null) return NAN; acc = acc.add(a.v, MC); }
        return new RealValue(acc);
    }
    @TLAPlusOperator(identifier = "RDot", module = "Num", warn = false)
    public static Value RDot(Value s, Value t) {
        Value[] a = elems(s), c = elems(t);
        if (a.length != c.length) throw new RuntimeException("Num: RDot of lengths " + a.length + " and " + c.length);
        BigDecimal acc = BigDecimal.ZERO;
        for (int i = 0; i < a.length; i++) {
            RealValue p = r(a[i]), q = r(c[i]);
            if (bad(p, q)) return NAN;
            if (p.v.signum() == 0 || q.v.signum() == 0) continue;
            acc = acc.add(p.v.multiply(q.v, MC), MC);
        }
        return new RealValue(acc);
    }

    /** The solution of A x = b, or <<>> when A is singular (Gauss elimination with partial pivoting). */
    @TLAPlusOperator(identifier = "RSolve", module = "Num", warn = false)
    public static Value RSolve(Value A, Value b) {
        Value[] rows = elems(A), rhs = elems(b);
        int n = rows.length;
        BigDecimal[][] m = new BigDecimal[n][n + 1];
        for (int i = 0; i < n; i++) {
            Value[] c = elems(rows[i]);
            if (c.length != n || rhs.length != n) throw new RuntimeException("Num: RSolve of a non-square system");
            for (int j = 0; j < n; j++) { m[i][j] = r(c[j]).v; if (m[i][j] == null) return new TupleValue(new Value[0]); }
            m[i][n] = r(rhs[i]).v;
            if (m[i][n] == null) return new TupleValue(new Value[0]);
        }
        for (int k = 0; k < n; k++) {
            int p = k;
            for (int i = k + 1; i < n; i++) if (m[i][k].abs().compareTo(m[p][k].abs()) > 0) p = i;
            if (m[p][k].signum() == 0) return new TupleValue(new Value[0]);
            BigDecimal[] t = m[k]; m[k] = m[p]; m[p] = t;
            for (int i = k + 1; i < n; i++) {
                if (m[i][k].signum() == 0) continue;
                BigDecimal f = m[i][k].divide(m[k][k], XC);
                for (int j = k; j <= n; j++) m[i][j] = m[i][j].subtract(f.multiply(m[k][j], XC), XC);
            }
        }
        BigDecimal[] x = new BigDecimal[n];
        for (int i = n - 1; i >= 0; i--) {
            BigDecimal a = m[i][n];
            for (int j = i + 1; j < n; j++) a = a.subtract(m[i][j].multiply(x[j], XC), XC);
            x[i] = a.divide(m[i][i], XC);
        }
        Value[] out = new Value[n];
        for (int i = 0; i < n; i++) out[i] = new RealValue(x[i].round(MC));
        return new TupleValue(out);
    }
    @TLAPlusOperator(identifier = "IsSeq", module = "Num", warn = false)
    public static Value IsSeq(Value x) {
        if (x instanceof StringValue || x instanceof IntValue || x instanceof RealValue || x instanceof BoolValue) return BoolValue.ValFalse;
        return b(x.toTuple() != null); }
    /** Is x a number, or a string denoting one (NaN and infinities included)? */
    @TLAPlusOperator(identifier = "IsNumeral", module = "Num", warn = false)
    public static Value IsNumeral(Value x) {
        if (x instanceof IntValue || x instanceof RealValue) return BoolValue.ValTrue;
        if (!(x instanceof StringValue)) return BoolValue.ValFalse;
        String s = ((StringValue) x).val.toString();
        if (s.equals("nan") || s.equals("inf") || s.equals("-inf")) return BoolValue.ValTrue;
        return b(RealValue.parse(s).v != null); }
    @TLAPlusOperator(identifier = "SameValue", module = "Num", warn = false)
    public static Value SameValue(Value x, Value y) { return b(show(x).equals(show(y))); }
    static String show(Value x) {
        Value t = x instanceof StringValue || x instanceof RealValue || x instanceof IntValue || x instanceof BoolValue ? null : x.toTuple();
        if (t == null) return x.toString();
        StringBuilder sb = new StringBuilder("<<");
        for (Value e : ((TupleValue) t).elems) sb.append(show(e)).append(',');
        return sb.append(">>").toString(); }
}
