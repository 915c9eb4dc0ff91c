package verif;

import java.math.BigInteger;
import tlc2.tool.EvalException;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;

/**
 * An integer that does not fit TLC's 32-bit IntValue. Invariant: the value is outside the int range
 * (smaller results are always normalised back to IntValue by {@link #of}).
 */
public final class Big extends Value {
    private static final BigInteger MIN = BigInteger.valueOf(Integer.MIN_VALUE);
    private static final BigInteger MAX = BigInteger.valueOf(Integer.MAX_VALUE);
    public final BigInteger v;

    private Big(final BigInteger v) { this.v = v; }

    public static Value of(final BigInteger b) {
        if (b.bitLength() < 32) return IntValue.gen(b.intValue());
        return new Big(b);
    }
    public static Value of(final long l) {
        if (l >= Integer.MIN_VALUE && l <= Integer.MAX_VALUE) return IntValue.gen((int) l);
        return new Big(BigInteger.valueOf(l));
    }
    public static BigInteger big(final Value a, final String op) {
        if (a instanceof IntValue) return BigInteger.valueOf(((IntValue) a).val);
        if (a instanceof Big) return ((Big) a).v;
        throw new RuntimeException("The argument of " + op + " should be an integer, but is:\n" + a.toString());
    }
    public static Value plus(final Value a, final Value b) {
        if (a instanceof IntValue && b instanceof IntValue) return of((long) ((IntValue) a).val + ((IntValue) b).val);
        return of(big(a, "+").add(big(b, "+")));
    }
    public static Value minus(final Value a, final Value b) {
        if (a instanceof IntValue && b instanceof IntValue) return of((long) ((IntValue) a).val - ((IntValue) b).val);
        return of(big(a, "-").subtract(big(b, "-")));
    }
    public static Value times(final Value a, final Value b) {
        if (a instanceof IntValue && b instanceof IntValue) return of((long) ((IntValue) a).val * ((IntValue) b).val);
        return of(big(a, "*").multiply(big(b, "*")));
    }
    public static Value neg(final Value a) {
        if (a instanceof IntValue) return of(-(long) ((IntValue) a).val);
        return of(big(a, "-.").negate());
    }
    public static int cmp(final Value a, final Value b, final String op) {
        if (a instanceof IntValue && b instanceof IntValue) return Integer.compare(((IntValue) a).val, ((IntValue) b).val);
        return big(a, op).compareTo(big(b, op));
    }
    /** TLA+ \div: floor division by a positive divisor (the same restriction as TLC's). */
    public static Value div(final Value a, final Value b) {
        if (a instanceof IntValue && b instanceof IntValue) {
            final int d = ((IntValue) b).val;
            if (d <= 0) throw new RuntimeException("The second argument of \\div must be positive, but is " + d);
            return IntValue.gen(Math.floorDiv(((IntValue) a).val, d));
        }
        final BigInteger x = big(a, "\\div"), y = big(b, "\\div");
        if (y.signum() <= 0) throw new RuntimeException("The second argument of \\div must be positive, but is " + y);
        if (y.bitCount() == 1) return of(x.shiftRight(y.bitLength() - 1)); // arithmetic shift is floor division
        final BigInteger[] qr = x.divideAndRemainder(y);
        return of(qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0]);
    }
    public static Value mod(final Value a, final Value b) {
        if (a instanceof IntValue && b instanceof IntValue) {
            final int d = ((IntValue) b).val;
            if (d <= 0) throw new RuntimeException("The second argument of % must be positive, but is " + d);
            return IntValue.gen(Math.floorMod(((IntValue) a).val, d));
        }
        final BigInteger x = big(a, "%"), y = big(b, "%");
        if (y.signum() <= 0) throw new RuntimeException("The second argument of % must be positive, but is " + y);
        return of(x.mod(y));
    }
    public static Value expt(final Value a, final Value b) {
        if (!(b instanceof IntValue) || ((IntValue) b).val < 0)
            throw new RuntimeException("The exponent of ^ must be a natural number below 2^31, but is " + b.toString());
        final BigInteger x = big(a, "^");
        final int n = ((IntValue) b).val;
        if (x.signum() == 0 && n == 0) throw new RuntimeException("0^0 is undefined.");
        if (x.equals(BigInteger.TWO)) return of(BigInteger.ONE.shiftLeft(n));
        return of(x.pow(n));
    }

    // --- Value plumbing -------------------------------------------------
    @Override public byte getKind() { return USERVALUE; }
    @Override public String getKindString() { return "a big integer"; }
    @Override public int compareTo(final Object o) {
        if (o instanceof IntValue) return v.signum();
        if (o instanceof Big) return v.compareTo(((Big) o).v);
        throw new RuntimeException("Attempted to compare a big integer with " + o);
    }
    @Override public boolean equals(final Object o) {
        if (o instanceof Big) return v.equals(((Big) o).v);
        if (o instanceof IntValue) return false;
        throw new RuntimeException("Attempted to check equality of a big integer with " + o);
    }
    @Override public boolean member(final Value x) { throw new RuntimeException("A big integer is not a set"); }
    @Override public boolean isFinite() { throw new RuntimeException("A big integer is not a set"); }
    @Override public int size() { throw new RuntimeException("A big integer is not a set"); }
    @Override public Value takeExcept(final ValueExcept ex) { throw new RuntimeException("EXCEPT on a big integer"); }
    @Override public Value takeExcept(final ValueExcept[] ex) { throw new RuntimeException("EXCEPT on a big integer"); }
    @Override public boolean isNormalized() { return true; }
    @Override public Value normalize() { return this; }
    @Override public boolean isDefined() { return true; }
    @Override public IValue deepCopy() { return this; }
    @Override public long fingerPrint(long fp) {
        fp = FP64.Extend(fp, USERVALUE);
        for (final byte b : v.toByteArray()) fp = FP64.Extend(fp, b);
        return fp;
    }
    @Override public IValue permute(final IMVPerm perm) { return this; }
    @Override public StringBuffer toString(final StringBuffer sb, final int offset, final boolean swallow) {
        return sb.append(v.toString());
    }
}
