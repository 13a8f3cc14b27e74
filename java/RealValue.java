import java.math.BigDecimal;
import java.math.MathContext;
import java.math.RoundingMode;
import java.io.IOException;
import tlc2.value.*;
import tlc2.value.impl.*;
import util.UniqueString;

/** A real number (40 significant digits, or NaN / +-Infinity) as a TLC value.
 *  It fingerprints, prints and serialises like the string of its canonical decimal form, so it may be kept in state
 *  variables; every operator of module Num accepts an integer, a numeral string or a RealValue. */
public class RealValue extends Value {
    public static final MathContext MC = new MathContext(40, RoundingMode.HALF_EVEN);
    public static final MathContext CANON = new MathContext(30, RoundingMode.HALF_EVEN);
    public final BigDecimal v;     // null when not finite
    public final String special;   // "nan", "inf", "-inf" or null

    public RealValue(BigDecimal v) { this.v = v; this.special = null; }
    public RealValue(String special) { this.v = null; this.special = special; }

    public static RealValue of(Value x) {
        if (x instanceof RealValue) return (RealValue) x;
        if (x instanceof IntValue) return new RealValue(BigDecimal.valueOf(((IntValue) x).val));
        if (x instanceof StringValue) return parse(((StringValue) x).val.toString());
        if (x instanceof BoolValue) return new RealValue("nan");
        throw new RuntimeException("Num: not a number: " + x.toString());
    }

    public static RealValue parse(String s) {
        String t = s.trim();
        String l = t.toLowerCase();
        if (l.equals("nan")) return new RealValue("nan");
        if (l.equals("inf") || l.equals("+inf") || l.equals("infinity")) return new RealValue("inf");
        if (l.equals("-inf") || l.equals("-infinity")) return new RealValue("-inf");
        try { return new RealValue(new BigDecimal(t, MC)); }
        catch (NumberFormatException e) { return new RealValue("nan"); }
    }

    public boolean finite() { return v != null; }

    public String canon() {
        if (v == null) return special;
        if (v.signum() == 0) return "0";
        return v.round(CANON).stripTrailingZeros().toString();
    }

    @Override public byte getKind() { return STRINGVALUE; }
    @Override public int compareTo(Object o) {
        RealValue r = of((Value) o);
        if (v != null && r.v != null) return v.compareTo(r.v);
        return canon().compareTo(r.canon());
    }
    @Override public boolean equals(Object o) {
        if (!(o instanceof RealValue) && !(o instanceof StringValue) && !(o instanceof IntValue)) return false;
        return canon().equals(of((Value) o).canon());
    }
    @Override public boolean member(Value x) { throw new RuntimeException("Num: member of a real"); }
    @Override public boolean isFinite() { return true; }
    @Override public Value takeExcept(ValueExcept e) { throw new RuntimeException("Num: except on a real"); }
    @Override public Value takeExcept(ValueExcept[] e) { throw new RuntimeException("Num: except on a real"); }
    @Override public int size() { throw new RuntimeException("Num: size of a real"); }
    @Override public boolean isNormalized() { return true; }
    @Override public Value normalize() { return this; }
    @Override public boolean isDefined() { return true; }
    @Override public IValue deepCopy() { return this; }
    @Override public void deepNormalize() { }
    @Override public IValue permute(IMVPerm p) { return this; }
    private StringValue asString() { return new StringValue(canon()); }
    @Override public long fingerPrint(long fp) { return asString().fingerPrint(fp); }
    @Override public void write(IValueOutputStream vos) throws IOException { asString().write(vos); }
    @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
        return sb.append('"').append(canon()).append('"');
    }
}
