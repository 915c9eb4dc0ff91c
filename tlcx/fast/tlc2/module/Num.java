package tlc2.module;

import java.math.BigInteger;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import verif.Big;

/**
 * Accelerator: evaluates the definitions of Num.tla natively (TLC substitutes a class tlc2.module.M for the
 * operators of module M that it defines). The TLA+ definitions stay the meaning; spec/MC_Num.tla compares the
 * two on a grid of operands, and the checks can be run without this class (VERIF_NOFAST=1).
 */
public class Num {
    private static BigInteger big(final Value v) { return Big.big(v, "Num"); }
    private static int small(final Value v) { return ((IntValue) v).val; }
    private static Value[] pair(final Value v) { return ((TupleValue) v.toTuple()).elems; }
    private static BigInteger m(final Value[] p) { return big(p[0]); }
    private static int e(final Value[] p) { return small(p[1]); }
    private static Value dy(final BigInteger z, final int e) { return new TupleValue(Big.of(z), IntValue.gen(e)); }
    private static Value bool(final boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static BigInteger shr(final BigInteger x, final int n) { return n <= 0 ? x.shiftLeft(-n) : x.shiftRight(n); }
    private static BigInteger shrc(final BigInteger x, final int n) { return n <= 0 ? x.shiftLeft(-n) : x.negate().shiftRight(n).negate(); }
    private static BigInteger floorDiv(BigInteger a, BigInteger b) {
        if (b.signum() < 0) { a = a.negate(); b = b.negate(); }
        if (b.signum() == 0) throw new RuntimeException("Num: division by zero");
        final BigInteger[] qr = a.divideAndRemainder(b);
        return qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
    }
    private static int cmp(final Value[] a, final Value[] b) {
        final int ea = e(a), eb = e(b);
        if (ea <= eb) return m(a).compareTo(m(b).shiftLeft(eb - ea));
        return m(a).shiftLeft(ea - eb).compareTo(m(b));
    }
    private static int bitLen(final BigInteger n) { return n.signum() <= 0 ? 0 : n.bitLength(); }

    public static Value Abs(final Value x) { return Big.of(big(x).abs()); }
    public static Value Eq(final Value a, final Value b) { return bool(big(a).equals(big(b))); }
    public static Value Shr(final Value x, final Value n) { return Big.of(shr(big(x), small(n))); }
    public static Value ShrCeil(final Value x, final Value n) { return Big.of(shrc(big(x), small(n))); }
    public static Value DivFloor(final Value a, final Value b) { return Big.of(floorDiv(big(a), big(b))); }
    public static Value DivTrunc(final Value a, final Value b) { return Big.of(big(a).divide(big(b))); }
    public static Value BitLen(final Value n) { return IntValue.gen(bitLen(big(n))); }
    public static Value DAdd(final Value a, final Value b) {
        final Value[] x = pair(a), y = pair(b);
        final int ea = e(x), eb = e(y);
        return ea <= eb ? dy(m(x).add(m(y).shiftLeft(eb - ea)), ea) : dy(m(x).shiftLeft(ea - eb).add(m(y)), eb);
    }
    public static Value DSub(final Value a, final Value b) {
        final Value[] x = pair(a), y = pair(b);
        final int ea = e(x), eb = e(y);
        return ea <= eb ? dy(m(x).subtract(m(y).shiftLeft(eb - ea)), ea) : dy(m(x).shiftLeft(ea - eb).subtract(m(y)), eb);
    }
    public static Value DNeg(final Value a) { final Value[] x = pair(a); return dy(m(x).negate(), e(x)); }
    public static Value DAbs(final Value a) { final Value[] x = pair(a); return dy(m(x).abs(), e(x)); }
    public static Value DMul(final Value a, final Value b) {
        final Value[] x = pair(a), y = pair(b);
        return dy(m(x).multiply(m(y)), e(x) + e(y));
    }
    public static Value DScale(final Value a, final Value n) { final Value[] x = pair(a); return dy(m(x), e(x) + small(n)); }
    public static Value DLe(final Value a, final Value b) { return bool(cmp(pair(a), pair(b)) <= 0); }
    public static Value DLt(final Value a, final Value b) { return bool(cmp(pair(a), pair(b)) < 0); }
    public static Value DEq(final Value a, final Value b) { return bool(cmp(pair(a), pair(b)) == 0); }
    public static Value DMax(final Value a, final Value b) { return cmp(pair(a), pair(b)) <= 0 ? b : a; }
    public static Value DMin(final Value a, final Value b) { return cmp(pair(a), pair(b)) <= 0 ? a : b; }
    public static Value IsZero(final Value a) { return bool(m(pair(a)).signum() == 0); }
    public static Value IsNeg(final Value a) { return bool(m(pair(a)).signum() < 0); }
    public static Value IsPos(final Value a) { return bool(m(pair(a)).signum() > 0); }
    public static Value AtP(final Value a, final Value p) { final Value[] x = pair(a); return Big.of(shr(m(x), -(e(x) + small(p)))); }
    public static Value AtPC(final Value a, final Value p) { final Value[] x = pair(a); return Big.of(shrc(m(x), -(e(x) + small(p)))); }
    public static Value DLog2(final Value a) { final Value[] x = pair(a); return IntValue.gen(bitLen(m(x).abs()) - 1 + e(x)); }
    public static Value DFloor(final Value a) { final Value[] x = pair(a); return Big.of(shr(m(x), -e(x))); }
    public static Value DCeil(final Value a) { final Value[] x = pair(a); return Big.of(shrc(m(x), -e(x))); }
    public static Value DDiv(final Value a, final Value b, final Value g) {
        final Value[] x = pair(a), y = pair(b);
        final int sh = e(x) - e(y) - small(g);
        return dy(sh >= 0 ? floorDiv(m(x).shiftLeft(sh), m(y)) : floorDiv(m(x), m(y).shiftLeft(-sh)), small(g));
    }
    public static Value RoundEvenAt(final Value a, final Value g) {
        final Value[] x = pair(a);
        final int sh = small(g) - e(x);
        if (sh <= 0) return Big.of(m(x).shiftLeft(-sh));
        BigInteger q = m(x).shiftRight(sh);
        final int c = m(x).subtract(q.shiftLeft(sh)).compareTo(BigInteger.ONE.shiftLeft(sh - 1));
        if (c > 0 || (c == 0 && q.testBit(0))) q = q.add(BigInteger.ONE);
        return Big.of(q);
    }
    public static Value OnGrid(final Value a, final Value g) {
        final Value[] x = pair(a);
        final int sh = small(g) - e(x);
        return bool(sh <= 0 || m(x).signum() == 0 || m(x).getLowestSetBit() >= sh);
    }
    public static Value Dec(final Value v) {
        final Value[] x = pair(v);
        if (small(x[0]) != 0 || small(x[2]) == 0) return dy(BigInteger.ZERO, 0);
        BigInteger r = BigInteger.ZERO;
        for (int i = x.length - 1; i >= 3; i--) r = r.shiftLeft(30).add(big(x[i]));
        return dy(small(x[2]) < 0 ? r.negate() : r, small(x[1]));
    }
}
