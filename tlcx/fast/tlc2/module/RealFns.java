package tlc2.module;

import java.math.BigInteger;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.Value;
import verif.Big;

/** Accelerator for the summation loops of RealFns.tla, as Num.java is for Num.tla. */
public class RealFns {
    private static BigInteger big(final Value v) { return Big.big(v, "RealFns"); }
    private static int small(final Value v) { return ((IntValue) v).val; }
    // floor division, positive divisor
    private static BigInteger fdiv(final BigInteger a, final BigInteger b) {
        final BigInteger[] qr = a.divideAndRemainder(b);
        return qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
    }
    private static BigInteger fdiv(final BigInteger a, final long b) { return fdiv(a, BigInteger.valueOf(b)); }
    private static final BigInteger M1 = BigInteger.ONE.negate();

    public static Value AtanInvSum(final Value t0, final Value n2v, final Value kv, final Value sgv, final Value accv) {
        BigInteger t = big(t0), acc = big(accv);
        final BigInteger n2 = big(n2v);
        int sg = small(sgv);
        for (long k = small(kv); t.signum() != 0; k += 2) {
            final BigInteger q = fdiv(t, k);
            acc = sg > 0 ? acc.add(q) : acc.subtract(q);
            t = fdiv(t, n2);
            sg = -sg;
        }
        return Big.of(acc);
    }
    public static Value AtanhInvSum(final Value t0, final Value n2v, final Value kv, final Value accv) {
        BigInteger t = big(t0), acc = big(accv);
        final BigInteger n2 = big(n2v);
        for (long k = small(kv); t.signum() != 0; k += 2) {
            acc = acc.add(fdiv(t, k));
            t = fdiv(t, n2);
        }
        return Big.of(acc);
    }
    public static Value AltSum(final Value t0, final Value x2v, final Value kv, final Value accv, final Value pv) {
        BigInteger t = big(t0), acc = big(accv);
        final BigInteger x2 = big(x2v);
        final int p = small(pv);
        for (long k = small(kv); t.signum() != 0; k += 2) {
            acc = acc.add(t);
            t = fdiv(t.multiply(x2).shiftRight(p).negate(), (k + 1) * (k + 2));
        }
        return Big.of(acc);
    }
    public static Value ExpSum(final Value t0, final Value xv, final Value kv, final Value accv, final Value pv) {
        BigInteger t = big(t0), acc = big(accv);
        final BigInteger x = big(xv);
        final int p = small(pv);
        for (long k = small(kv); t.signum() != 0 && !t.equals(M1); k += 1) {
            acc = acc.add(t);
            t = fdiv(t.multiply(x).shiftRight(p), k + 1);
        }
        return Big.of(acc);
    }
    public static Value OddSum(final Value t0, final Value t2v, final Value kv, final Value accv, final Value pv) {
        BigInteger t = big(t0), acc = big(accv);
        final BigInteger t2 = big(t2v);
        final int p = small(pv);
        for (long k = small(kv); t.signum() != 0 && !t.equals(M1); k += 2) {
            acc = acc.add(fdiv(t, k));
            t = t.multiply(t2).shiftRight(p);
        }
        return Big.of(acc);
    }
}
