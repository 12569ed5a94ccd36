import tlc2.value.impl.*;

/** TLC evaluation of Hex!Hex. */
public class Hex {
    public static Value Hex(Value s) {
        return conv(((StringValue) s).val.toString());
    }
    /* For strings that recur in many states of a trace. */
    private static final java.util.concurrent.ConcurrentHashMap<String, Value> memo = new java.util.concurrent.ConcurrentHashMap<>();
    private static final java.util.concurrent.atomic.AtomicLong size = new java.util.concurrent.atomic.AtomicLong();
    public static Value HexM(Value s) {
        String t = ((StringValue) s).val.toString();
        Value v = memo.get(t);
        if (v == null) {
            if (size.addAndGet(t.length()) > 600000000) {
                memo.clear();
                size.set(t.length());
            }
            v = conv(t);
            memo.put(t, v);
        }
        return v;
    }
    private static Value conv(String t) {
        Value[] e = new Value[t.length() / 2];
        for (int i = 0; i < e.length; i++)
            e[i] = CryptoFast.IV[Character.digit(t.charAt(2 * i), 16) * 16 + Character.digit(t.charAt(2 * i + 1), 16)];
        return new TupleValue(e);
    }
    public static Value ToHex(Value s) {
        return new StringValue(hex(CryptoFast.b(s)));
    }
    static String hex(byte[] a) {
        StringBuilder t = new StringBuilder();
        for (byte x : a)
            t.append(Character.forDigit((x >> 4) & 15, 16)).append(Character.forDigit(x & 15, 16));
        return t.toString();
    }
}
