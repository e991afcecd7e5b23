import java.math.BigInteger;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.FcnRcdValue;
import util.UniqueString;

/** TLC override of the operators of BigNat.tla: the same functions on the same
 *  values (little-endian limbs, base 1000), computed with BigInteger.  The
 *  definitions in BigNat.tla stay the meaning; BigNatSelf.tla compares both. */
public final class BigNat {
    private static final BigInteger B = BigInteger.valueOf(1000);

    private static Value[] elems(Value v) {
        if (v instanceof TupleValue) return ((TupleValue) v).elems;
        return ((TupleValue) v.toTuple()).elems;
    }
    private static BigInteger in(Value v) {
        Value[] e = elems(v);
        StringBuilder sb = new StringBuilder();
        for (int i = e.length - 1; i >= 0; i--) {
            int x = ((IntValue) e[i]).val;
            String s = Integer.toString(x);
            if (x < 0 || x > 999) throw new RuntimeException("BigNat limb " + x);
            sb.append("000", 0, 3 - s.length()).append(s);
        }
        return sb.length() == 0 ? BigInteger.ZERO : new BigInteger(sb.toString());
    }
    private static Value out(BigInteger n) {
        if (n.signum() < 0) throw new RuntimeException("BigNat negative");
        if (n.signum() == 0) return new TupleValue(new Value[0]);
        String s = n.toString();
        int k = (s.length() + 2) / 3;
        Value[] e = new Value[k];
        for (int i = 0; i < k; i++) {
            int hi = s.length() - 3 * i, lo = Math.max(0, hi - 3);
            e[i] = IntValue.gen(Integer.parseInt(s.substring(lo, hi)));
        }
        return new TupleValue(e);
    }
    public static Value BFromNat(Value n) { return out(BigInteger.valueOf(((IntValue) n).val)); }
    public static Value BAdd(Value a, Value b) { return out(in(a).add(in(b))); }
    public static Value BMul(Value a, Value b) { return out(in(a).multiply(in(b))); }
    public static Value BSub(Value a, Value b) { return out(in(a).subtract(in(b))); }
    public static Value BCmp(Value a, Value b) { return IntValue.gen(in(a).compareTo(in(b))); }
    public static Value BPow(Value a, Value n) { return out(in(a).pow(((IntValue) n).val)); }
    public static Value BDiv(Value a, Value b) { return out(in(a).divide(in(b))); }
    public static Value BMod(Value a, Value b) { return out(in(a).mod(in(b))); }
    public static Value BGcd(Value a, Value b) { return out(in(a).gcd(in(b))); }
}
