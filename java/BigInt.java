// Overrides of the operators marked (J) in spec/BigInt.tla. Pure functions of their arguments.
import java.math.BigInteger;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class BigInt {
    private static final int BASE = 10000;
    private static final BigInteger BB = BigInteger.valueOf(BASE);
    private static final BigInteger B4 = BigInteger.valueOf(10000L * 10000L * 10000L * 10000L);
    private static final IntValue[] SMALL = new IntValue[BASE];
    private static final Value ZERO;
    static {
        for (int i = 0; i < BASE; i++) SMALL[i] = IntValue.gen(i);
        ZERO = new TupleValue(new Value[] { SMALL[0] });
    }

    private static BigInteger big(final Value v) {
        final TupleValue t = v instanceof TupleValue ? (TupleValue) v : (TupleValue) v.toTuple();
        final Value[] e = t.elems;
        final int s = ((IntValue) e[0]).val;
        if (s == 0) return BigInteger.ZERO;
        final int n = e.length - 1;
        BigInteger r = null;
        int top = n;
        // groups of four limbs fit into a long
        while (top > 0) {
            int cnt = top % 4 == 0 ? 4 : top % 4;
            long g = 0;
            for (int i = 0; i < cnt; i++) g = g * BASE + ((IntValue) e[top - i]).val;
            top -= cnt;
            r = r == null ? BigInteger.valueOf(g) : r.multiply(B4).add(BigInteger.valueOf(g));
        }
        return s < 0 ? r.negate() : r;
    }

    private static Value val(final BigInteger b) {
        final int s = b.signum();
        if (s == 0) return ZERO;
        BigInteger m = b.abs();
        final int[] limbs = new int[m.bitLength() / 13 + 5];
        int n = 0;
        while (m.bitLength() > 62) {
            final BigInteger[] qr = m.divideAndRemainder(B4);
            long g = qr[1].longValue();
            for (int i = 0; i < 4; i++) { limbs[n++] = (int) (g % BASE); g /= BASE; }
            m = qr[0];
        }
        long g = m.longValue();
        while (g > 0) { limbs[n++] = (int) (g % BASE); g /= BASE; }
        while (limbs[n - 1] == 0) n--;
        final Value[] e = new Value[n + 1];
        e[0] = IntValue.gen(s);
        for (int i = 0; i < n; i++) e[i + 1] = SMALL[limbs[i]];
        return new TupleValue(e);
    }

    public static Value BInt(final Value a) { return val(BigInteger.valueOf(((IntValue) a).val)); }
    public static Value BNeg(final Value a) { return val(big(a).negate()); }
    public static Value BAdd(final Value a, final Value b) { return val(big(a).add(big(b))); }
    public static Value BSub(final Value a, final Value b) { return val(big(a).subtract(big(b))); }
    public static Value BMul(final Value a, final Value b) { return val(big(a).multiply(big(b))); }
    public static Value BCmp(final Value a, final Value b) { return IntValue.gen(big(a).compareTo(big(b))); }
    public static Value BDiv(final Value a, final Value b) {
        final BigInteger[] qr = big(a).divideAndRemainder(big(b));
        return val(qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0]);
    }
    public static Value BSqrt(final Value a) {
        final BigInteger x = big(a);
        return x.signum() <= 0 ? ZERO : val(x.sqrt());
    }
}
