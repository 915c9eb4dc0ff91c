package tlc2.module;

import tlc2.tool.impl.TLARegistry;
import tlc2.value.ValueConstants;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.IntervalValue;
import tlc2.value.impl.UserObj;
import tlc2.value.impl.UserValue;
import tlc2.value.impl.Value;
import verif.Big;

/**
 * Replacement for TLC's own Naturals module class: the same operators with the same meaning, but over
 * unbounded integers (TLC's class stops with an error when a result leaves the 32-bit range).
 */
public class Naturals extends UserObj implements ValueConstants {
    public static final long serialVersionUID = 20160822L;
    private static final Value SET = new UserValue(new Naturals());
    static {
        TLARegistry.put("Plus", "+");
        TLARegistry.put("Minus", "-");
        TLARegistry.put("Times", "*");
        TLARegistry.put("LT", "<");
        TLARegistry.put("LE", "\\leq");
        TLARegistry.put("GT", ">");
        TLARegistry.put("GEQ", "\\geq");
        TLARegistry.put("DotDot", "..");
        TLARegistry.put("Divide", "\\div");
        TLARegistry.put("Mod", "%");
        TLARegistry.put("Expt", "^");
    }

    public static Value Nat() { return SET; }
    public static Value Plus(final Value x, final Value y) { return Big.plus(x, y); }
    public static Value Minus(final Value x, final Value y) { return Big.minus(x, y); }
    public static Value Times(final Value x, final Value y) { return Big.times(x, y); }
    public static BoolValue LT(final Value x, final Value y) { return Big.cmp(x, y, "<") < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static BoolValue LE(final Value x, final Value y) { return Big.cmp(x, y, "<=") <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static BoolValue GT(final Value x, final Value y) { return Big.cmp(x, y, ">") > 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static BoolValue GEQ(final Value x, final Value y) { return Big.cmp(x, y, ">=") >= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static IntervalValue DotDot(final Value x, final Value y) { return new IntervalValue(((IntValue) x).val, ((IntValue) y).val); }
    public static Value Divide(final Value x, final Value y) { return Big.div(x, y); }
    public static Value Mod(final Value x, final Value y) { return Big.mod(x, y); }
    public static Value Expt(final Value x, final Value y) { return Big.expt(x, y); }

    @Override public final int compareTo(final Value s) {
        return (s instanceof UserValue && ((UserValue) s).userObj instanceof Naturals) ? 0 : 1;
    }
    @Override public final boolean member(final Value e) { return (e instanceof IntValue && ((IntValue) e).val >= 0) || (e instanceof Big && ((Big) e).v.signum() >= 0); }
    @Override public final boolean isFinite() { return false; }
    @Override public final StringBuffer toString(final StringBuffer sb, final int offset, final boolean swallow) {
        return sb.append("Nat");
    }
}
