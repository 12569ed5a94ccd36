import tlc2.value.impl.*;
import java.math.BigInteger;

/** TLC evaluation of the arithmetic of module BigNat. */
public class BigNat {
    static BigInteger n(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        BigInteger r = BigInteger.ZERO;
        for (int i = t.elems.length; i-- > 0;) r = r.shiftLeft(15).or(BigInteger.valueOf(((IntValue) t.elems[i]).val));
        return r;
    }
    static Value v(BigInteger x) {
        Value[] e = new Value[(x.bitLength() + 14) / 15];
        for (int i = 0; i < e.length; i++) {
            e[i] = IntValue.gen(x.intValue() & 32767);
            x = x.shiftRight(15);
        }
        return new TupleValue(e);
    }
    public static Value BAdd(Value a, Value b) { return v(n(a).add(n(b))); }
    public static Value BSub(Value a, Value b) { return v(n(a).subtract(n(b))); }
    public static Value BCmp(Value a, Value b) { return IntValue.gen(n(a).compareTo(n(b))); }
    public static Value BMul(Value a, Value b) { return v(n(a).multiply(n(b))); }
    public static Value BDiv(Value a, Value b) { return v(n(a).divide(n(b))); }
    public static Value BMod(Value a, Value b) { return v(n(a).mod(n(b))); }
    public static Value BPow(Value b, Value k) { return v(n(b).pow(((IntValue) k).val)); }
}
